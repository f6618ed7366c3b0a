------------------------------- MODULE FeTrace ------------------------------
(* Validation of recorded histories of set operations.                        *)
EXTENDS Features, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLES tc, te
C  == Cases[tc]
Ev == C.ev[te]
Conv(v) == Val(v.k, {<< x[1], x[2] >> : x \in ListOn(v.s)}, v.l)
ToRegs(l_) == [i_ \in 1..Len(l_) |-> Conv(l_[i_])]
Final(l_) == l_[Len(l_)]

Step ==
  LET now == ToRegs(Ev.regs) IN
  /\ Ev.err = ""
  /\ CASE Ev.op = "new"     -> Make(Final(now))
       [] Ev.op = "clone"   -> Clone(Ev.a)
       [] Ev.op = "setfrom" -> SetFrom(Ev.a, Ev.b)
       [] Ev.op = "inter"   -> Inter(Ev.a, Ev.b)
       [] Ev.op = "interlist" -> InterList(Ev.a, Ev.b)
       [] Ev.op = "intersup" -> InterSup(Ev.a, Ev.b, Final(now))
       [] Ev.op = "query"   -> Query(Ev.a, Ev.name, Ev.r)
       [] Ev.op = "list"    -> ListOf(Ev.a, Ev.l)
       [] Ev.op = "wire"    -> Wire(Ev.a, Final(now))
       [] Ev.op = "put"     -> Put(Ev.a, Ev.name, Ev.on)
       [] Ev.op = "receive" -> Receive(Ev.a, Ev.b)
  /\ regs' = now
Event == tc > 0 /\ te <= Len(C.ev) /\ te' = te + 1 /\ UNCHANGED tc /\ Step
NextCase ==
  IF tc < N THEN tc' = tc + 1 /\ te' = 1 /\ regs' = << >>
  ELSE tc' = 0 /\ te' = 0 /\ UNCHANGED regs /\ PrintT("DONE " \o ToString(N))
Report == PrintT("REJECT " \o ToJson([case |-> tc, id |-> C.id, event |-> te, state |-> regs]))
TraceInit == tc = 1 /\ te = 1 /\ FInit
TraceNext ==
  \/ Event
  \/ tc > 0 /\ te > Len(C.ev) /\ NextCase
  \/ tc > 0 /\ te <= Len(C.ev) /\ ~ENABLED Event /\ Report /\ NextCase
TraceSpec == TraceInit /\ [][TraceNext]_<< tc, te, regs >>
=============================================================================
