----------------------------- MODULE TotalCases -----------------------------
(* Validation of the outcomes of calls and streams of the real code.           *)
EXTENDS Total, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
WrongCalls(C) == {C.bad[i_].what \o " in " \o C.bad[i_].entry : i_ \in 1..Len(C.bad)}
                 \cup {C.rows[i_].entry : i_ \in {j_ \in 1..Len(C.rows) : ~AllEnd(C.rows[j_].n, C.rows[j_].ok, C.rows[j_].err, C.rows[j_].other)}}
WrongStream(C) == (IF \A i_ \in 1..Len(C.ends) : C.ends[i_] \in Outcomes THEN {} ELSE {"call without an outcome"})
                  \cup (IF Progress(C.bytes, TRUE, C.values) THEN {} ELSE {"no progress"})
                  \cup (IF C.last = "error" THEN {} ELSE {"stream does not end"})
Wrong(C) == IF C.k = "calls" THEN WrongCalls(C) ELSE WrongStream(C)
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
