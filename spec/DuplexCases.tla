---------------------------- MODULE DuplexCases -----------------------------
(* Validation of what two peers of the real code did. *)
EXTENDS Duplex, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc

\* S: << direction 1, direction 2 >>; an event that is impossible yields << >>
Step(S, e) ==
  LET d == S[e.d] IN
  CASE e.k = "s" -> [S EXCEPT ![e.d] = Accept(d, e.v)]
    [] e.k = "f" -> [S EXCEPT ![e.d] = Flushed(d)]
    [] e.k = "z" -> [S EXCEPT ![e.d] = SwitchedOn(d)]
    [] e.k = "c" -> [S EXCEPT ![e.d] = CloseDir(d)]
    [] e.k = "r" -> IF CanDeliver(d, e.v) THEN [S EXCEPT ![e.d] = Deliver(d, e.v)] ELSE << >>
    [] e.k = "q" -> [S EXCEPT ![e.d] = Discard(d, e.n)]
    [] e.k = "w" -> IF IF e.need = 0 THEN CanWaitDone(d) ELSE CanWait(d) THEN S ELSE << >>
    [] e.k = "e" -> IF CanEnd(d) THEN S ELSE << >>
    [] OTHER     -> << >>                     \* a failure of any call
RECURSIVE Fold(_, _, _)
Fold(evs, i, S) ==
  IF S = << >> \/ i > Len(evs) THEN << i - 1, S >>
  ELSE Fold(evs, i + 1, Step(S, evs[i]))
\* all that was sent has arrived when both have ended
AllThere(S) == \A k_ \in 1..2 : S[k_].closed /\ S[k_].nr = Len(S[k_].sent)

TInit == tc = 1
TNext == /\ tc <= N
         /\ LET r == Fold(Cases[tc].ev, 1, << Quiet, Quiet >>) IN
            IF r[2] # << >> /\ AllThere(r[2]) THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, event |-> r[1]]))
         /\ tc' = tc + 1
         /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
TSpec == TInit /\ [][TNext]_tc
=============================================================================
