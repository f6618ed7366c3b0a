------------------------------ MODULE ArTrace ------------------------------
(* Validation of ADC sessions read by the real reader.                        *)
EXTENDS AdcReadSession, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Cases)
VARIABLES tc, te
C  == Cases[tc]
Ev == C.ev[te]

TraceInit == TLCSet(1, << >>) /\ tc = 1 /\ te = 1 /\ SessionInit(Cases[1].in, Cases[1].H)
Step ==
  CASE Ev.k = "call" -> ReadCall(Ev.op)
    [] Ev.k = "line" -> LineHook(Ev.i, Ev.line, Ev.ret)
    [] Ev.k = "ka" -> KeepAlive(Ev.ret)
    [] Ev.k = "ret" -> Ev.err \notin {"panic", "hang"} /\ Return(Ev)
    [] Ev.k = "recheck" -> Recheck(Ev.ms)
    [] Ev.k = "conf" -> Configure(Ev.H)
    [] OTHER -> FALSE
Start(x) == /\ in' = Cases[x].in /\ pos' = 1 /\ H' = Cases[x].H /\ ph' = "idle" /\ rq' = "packet"
            /\ ll' = << >> /\ hk' = 1 /\ res' = "" /\ out' = << >>
NextCase ==
  IF tc < N
  THEN tc' = tc + 1 /\ te' = 1 /\ Start(tc + 1)
  ELSE tc' = 0 /\ te' = 0 /\ UNCHANGED svars /\ PrintT("DONE " \o ToString(N))
IsSilent == ph = "line" \/ (ph = "hook" /\ hk > H.hooks)
Place == << tc, te, pos, ph, hk >>
Event == /\ tc > 0 /\ te <= Len(C.ev)
         /\ IF IsSilent THEN Silent /\ te' = te ELSE Step /\ te' = te + 1
         /\ UNCHANGED tc
         /\ TLCSet(1, Place)    \* accepted
Report == PrintT("REJECT " \o ToJson([case |-> tc, id |-> C.id, event |-> te,
             state |-> [ph |-> ph, pos |-> pos, call |-> rq, line |-> ll, hk |-> hk, res |-> res]]))
TraceNext ==
  \/ tc > 0 /\ Event
  \/ tc > 0 /\ te > Len(C.ev) /\ NextCase
  \/ tc > 0 /\ te <= Len(C.ev) /\ TLCGet(1) # Place /\ Report /\ NextCase
TraceSpec == TraceInit /\ [][TraceNext]_<< tc, te, svars >>
TraceView == Place
=============================================================================
