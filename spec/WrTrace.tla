------------------------------ MODULE WrTrace ------------------------------
(* Validation of sessions recorded from the real line writer against Writer. *)
EXTENDS Writer, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Cases)

VARIABLES c, e        \* current case, next event
tvars == << c, e >>

C  == Cases[c]
Ev == C.ev[e]

TraceInit == c = 1 /\ e = 1 /\ WriterInit(Cases[1].timed, Cases[1].hooks)

Step ==
  CASE Ev.e = "addhook" -> AddHook
    [] Ev.e = "settimeout" -> SetTimeout(Ev.on)
    [] OTHER ->
        /\ Ev.err # "panic" /\ Ev.err # "hang" /\ ~Ev.corrupt
        /\ WStep(Ev)
        /\ failed' => Ev.stuck        \* Err() reports it

Start(x) == /\ acc' = << >> /\ vis' = 0 /\ z' = FALSE /\ failed' = FALSE /\ closed' = FALSE
            /\ timed' = Cases[x].timed /\ hooks' = Cases[x].hooks
NextCase ==
  IF c < N
  THEN c' = c + 1 /\ e' = 1 /\ Start(c + 1)
  ELSE c' = 0 /\ e' = 0 /\ UNCHANGED wvars /\ PrintT("DONE " \o ToString(N))

Event == c > 0 /\ e <= Len(C.ev) /\ e' = e + 1 /\ UNCHANGED c /\ Step

Report == PrintT("REJECT " \o ToJson([case |-> c, id |-> C.id, event |-> e,
             state |-> [acc |-> Len(acc), vis |-> vis, z |-> z, failed |-> failed, closed |-> closed]]))

TraceNext ==
  \/ Event
  \/ c > 0 /\ e > Len(C.ev) /\ NextCase
  \/ c > 0 /\ e <= Len(C.ev) /\ ~ENABLED Event /\ Report /\ NextCase

TraceSpec == TraceInit /\ [][TraceNext]_<< tvars, wvars >>
TraceView == << c, e, Len(acc), vis, z, failed, closed >>
=============================================================================
