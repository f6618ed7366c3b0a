------------------------------ MODULE NwTrace ------------------------------
(* Validation of NMDC sessions written by the real writer.                    *)
EXTENDS NmdcWriteSession, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Cases)
VARIABLES tc, te
C  == Cases[tc]
Ev == C.ev[te]

TraceInit == TLCSet(1, << >>) /\ tc = 1 /\ te = 1 /\ WInit(Cases[1].cs, Cases[1].hooks)

Step1 ==
  CASE Ev.k = "call" -> WriteCall(Ev.msgs)
    [] Ev.k = "hook" -> WHook(Ev.i, Ev.m, Ev.ret)
    [] Ev.k = "ret" -> WriteRet(Ev.err, Ev.wire, Ev.after)
    [] Ev.k = "flush" -> WFlush(Ev.err, Ev.wire)
    [] Ev.k = "ka" -> WKeepAlive(Ev.err, Ev.wire)
    [] Ev.k = "zon" -> ZOnCall(Ev.lvl, Ev.err, Ev.wire)
    [] Ev.k = "zoff" -> ZOffCall(Ev.err, Ev.wire)
    [] Ev.k = "setenc" -> SetEnc(Ev.cs)
    [] Ev.k = "addhook" -> WAddHook
    [] OTHER -> FALSE

Answers == {"ret", "flush", "ka", "zon", "zoff"}
Step ==
  CASE wph = "dead" -> (IF Ev.k \in Answers THEN Dead(Ev.err, Ev.wire) ELSE Ev.k # "hook" /\ UNCHANGED wvars)
    [] wph # "dead" /\ Ev.k \in Answers /\ Ev.tf -> Died(Ev.err, Ev.wire, Ev.after)
    [] OTHER -> Step1

Start(x) == /\ wcs' = Cases[x].cs /\ nh' = Cases[x].hooks /\ wph' = "idle" /\ batch' = << >>
            /\ j' = 1 /\ whk' = 1 /\ werr' = "" /\ pend' = << >> /\ acc' = << >>
NextCase ==
  IF tc < N
  THEN tc' = tc + 1 /\ te' = 1 /\ Start(tc + 1)
  ELSE tc' = 0 /\ te' = 0 /\ UNCHANGED wvars /\ PrintT("DONE " \o ToString(N))

Place == << tc, te, wph, j, whk >>
Event == /\ tc > 0 /\ te <= Len(C.ev)
         /\ IF IsWSilent THEN WSilent /\ te' = te ELSE Step /\ te' = te + 1
         /\ UNCHANGED tc
         /\ TLCSet(1, Place)    \* accepted
Report == PrintT("REJECT " \o ToJson([case |-> tc, id |-> C.id, event |-> te,
             state |-> [ph |-> wph, cs |-> wcs, msg |-> j, hk |-> whk, err |-> werr, pend |-> pend]]))
Known == tc > 0 /\ wph # "any"    \* the rest of the session is not specified

Skipped == IF Known THEN TRUE ELSE PrintT("UNSPEC " \o ToString(tc))
\* Disjuncts are evaluated in order: the last one is enabled if the event has not been accepted.
TraceNext ==
  \/ Known /\ Event
  \/ tc > 0 /\ (te > Len(C.ev) \/ ~Known) /\ Skipped /\ NextCase
  \/ Known /\ te <= Len(C.ev) /\ TLCGet(1) # Place /\ Report /\ NextCase

TraceSpec == TraceInit /\ [][TraceNext]_<< tc, te, wvars >>
TraceView == Place
=============================================================================
