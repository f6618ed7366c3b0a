------------------------------ MODULE NrTrace ------------------------------
(* Validation of NMDC sessions read by the real reader.                       *)
EXTENDS NmdcReadSession, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Cases)
VARIABLES c, e
tvars == << c, e >>
C  == Cases[c]
Ev == C.ev[e]

TraceInit == TLCSet(1, << >>) /\ c = 1 /\ e = 1 /\ SessionInit(Cases[1].in, Cases[1].cs, Cases[1].H)

Step ==
  CASE Ev.k = "call" -> Call([op |-> Ev.op, types |-> Ev.types, cmds |-> Ev.cmds])
    [] Ev.k = "ka" -> KeepAlive(Ev.ret)
    [] Ev.k = "raw" -> RawHook(Ev.i, Ev.cmd, Ev.args, Ev.chat, Ev.ret)
    [] Ev.k = "enc" -> EncFallback(Ev.text, Ev.ret)
    [] Ev.k = "uerr" -> UnmarshalError(Ev.text, Ev.ret)
    [] Ev.k = "msg" -> MsgHook(Ev.i, Ev.m, Ev.ret)
    [] Ev.k = "ret" -> Ev.err \notin {"panic", "hang"} /\ Return(Ev)
    [] Ev.k = "recheck" -> Recheck(Ev.ms)
    [] Ev.k = "setcs" -> SetCs(Ev.cs)
    [] Ev.k = "conf" -> Configure(Ev.H)
    [] OTHER -> FALSE

Start(x) == /\ in' = Cases[x].in /\ pos' = 1 /\ cs' = Cases[x].cs /\ H' = Cases[x].H
            /\ ph' = "idle" /\ rq' = [op |-> "read", types |-> << >>, cmds |-> << >>] /\ cur' = NoFrame /\ hk' = 1
            /\ res' = NoRes /\ out' = << >>
NextCase ==
  IF c < N
  THEN c' = c + 1 /\ e' = 1 /\ Start(c + 1)
  ELSE c' = 0 /\ e' = 0 /\ UNCHANGED svars /\ PrintT("DONE " \o ToString(N))

IsSilent == ph \in {"frame", "decode"} \/ (ph = "raw" /\ hk > H.raw) \/ (ph = "msg" /\ hk > H.msg)
\* where the session is; every state of a trace is at its own place
Place == << c, e, pos, ph, hk >>
Event == /\ c > 0 /\ e <= Len(C.ev)
         /\ IF IsSilent THEN Silent /\ e' = e ELSE Step /\ e' = e + 1
         /\ UNCHANGED c
         /\ TLCSet(1, Place)    \* accepted
Report == PrintT("REJECT " \o ToJson([case |-> c, id |-> C.id, event |-> e,
             state |-> [ph |-> ph, pos |-> pos, cs |-> cs, hk |-> hk, res |-> res, line |-> cur.line]]))
Known == c > 0 /\ ph # "any"    \* the rest of the session is not specified

Skipped == IF Known THEN TRUE ELSE PrintT("UNSPEC " \o ToString(c))
\* Disjuncts are evaluated in order: the last one is enabled if the event has not been accepted.
TraceNext ==
  \/ Known /\ Event
  \/ c > 0 /\ (e > Len(C.ev) \/ ~Known) /\ Skipped /\ NextCase
  \/ Known /\ e <= Len(C.ev) /\ TLCGet(1) # Place /\ Report /\ NextCase

TraceSpec == TraceInit /\ [][TraceNext]_<< tvars, svars >>
TraceView == << Place, cs, Len(out) >>
=============================================================================
