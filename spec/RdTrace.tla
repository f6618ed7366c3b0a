------------------------------- MODULE RdTrace ------------------------------
(* Validation of sessions recorded from the real line reader against Reader. *)
EXTENDS ReaderEv, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Cases)
\* The read buffer is as large as the requests that the reader was seen to make.
ReadBuf == Cases[1].slack

VARIABLES c, e,       \* current case, next event
          nhk         \* number of hooks
tvars == << c, e, nhk >>

C  == Cases[c]
Ev == C.ev[e]

TraceInit ==
  /\ c = 1 /\ e = 1 /\ nhk = Cases[1].hooks
  /\ ReaderInit(Cases[1].zones, Cases[1].delim, Cases[1].lim)

Step == IF Ev.e = "addhook" THEN nhk' = nhk + 1 /\ UNCHANGED rvars
        ELSE Ev.err # "panic" /\ Ev.err # "hang" /\ EvStep(Ev, nhk, C.plain) /\ UNCHANGED nhk

Start(x) == /\ zones' = Cases[x].zones /\ delim' = Cases[x].delim /\ k' = 1 /\ off' = 0
            /\ lim' = Cases[x].lim /\ mode' = "ok"
NextCase ==
  IF c < N
  THEN c' = c + 1 /\ e' = 1 /\ nhk' = Cases[c + 1].hooks /\ Start(c + 1)
  ELSE c' = 0 /\ e' = 0 /\ nhk' = 0 /\ UNCHANGED rvars /\ PrintT("DONE " \o ToString(N))

Event == c > 0 /\ e <= Len(C.ev) /\ e' = e + 1 /\ UNCHANGED c /\ Step

Report == PrintT("REJECT " \o ToJson([case |-> c, id |-> C.id, event |-> e,
             state |-> [k |-> k, off |-> off, lim |-> lim, mode |-> mode]]))

TraceNext ==
  \/ Event
  \/ c > 0 /\ e > Len(C.ev) /\ NextCase
  \/ c > 0 /\ e <= Len(C.ev) /\ ~ENABLED Event /\ Report /\ NextCase

TraceSpec == TraceInit /\ [][TraceNext]_<< tvars, rvars >>
TraceView == << c, e, k, off, lim, mode >>
=============================================================================
