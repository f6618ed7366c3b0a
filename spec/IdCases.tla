------------------------------- MODULE IdCases ------------------------------
(* Validation of recorded conversions of identifiers.                         *)
EXTENDS Ids, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
ParseOk(p, r) == CASE r.st = "ok" -> p.st = "ok" /\ p.v = r.v
                   [] r.st = "undef" -> p.st \in {"ok", "err"}
                   [] OTHER -> p.st = "err"
Wrong(C) ==
  CASE C.k = "val" ->
         LET t_ == HashText(C.v) IN
         {x.how : x \in {y \in SetOf(C.texts) : y.st # "ok" \/ y.v # t_}}
         \cup (IF C.hex = Hex(C.v) /\ C.zero = (\A i \in 1..24 : C.v[i] = 0) THEN {} ELSE {"hex"})
         \cup (IF C.hash = C.prim THEN {} ELSE {"hash"})
         \cup {x.how : x \in {y \in SetOf(C.back) : ~ParseOk(y, OkV(C.v))}}
    [] C.k = "text" ->
         LET h == HashOf(C.t) s == SidOf(C.t) IN
         {x.how : x \in {y \in SetOf(C.res) : ~ParseOk(y, IF y.sid THEN s ELSE h)}}
    [] C.k = "sid" -> IF C.st = "ok" /\ C.text = SidText(C.v) /\ C.str = C.text /\ C.wire = C.text THEN {} ELSE {"sid"}
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
