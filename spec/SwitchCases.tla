---------------------------- MODULE SwitchCases -----------------------------
(* Validation of connections whose encoding was switched by another goroutine. *)
EXTENDS EncSwitch, NmdcMsg, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc

Fit(C, e, cs) == e.st = "ok" /\ IF C.dir = "w" THEN LET w == Wire(cs, e.t, e.f) IN w.st = "ok" /\ w.v = e.wire
                                ELSE LET d == Decode(cs, e.t, e.body) IN d.st = "ok" /\ d.v = e.f
RECURSIVE Fold(_, _, _)
Fold(C, i, S) ==
  IF i > Len(C.ev) \/ S = {} THEN << i - 1, S >>
  ELSE LET e == C.ev[i] IN
       Fold(C, i + 1, CASE e.k = "sb" -> SetBegin(S, e.cs)
                        [] e.k = "se" -> SetEnd(S)
                        [] e.k = "mb" -> MsgBegin(S)
                        [] e.k = "me" -> MsgEnd(S, LAMBDA cs : Fit(C, e, cs)))
TInit == tc = 1
TNext == /\ tc <= N
         /\ LET r == Fold(Cases[tc], 1, Start(Cases[tc].cs)) IN
            IF r[2] # {} THEN TRUE
            ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, event |-> r[1]]))
         /\ tc' = tc + 1
         /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
TSpec == TInit /\ [][TNext]_tc
=============================================================================
