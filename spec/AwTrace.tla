------------------------------ MODULE AwTrace ------------------------------
(* Validation of ADC sessions written by the real writer, and of what the     *)
(* real reader makes of them.                                                 *)
EXTENDS AdcWriteSession, Json, IOUtils

S == INSTANCE AdcReadSession WITH in <- << >>, pos <- 0, H <- 0, ph <- "", rq <- "", ll <- << >>, hk <- 0, res <- "", out <- << >>

Cases  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Cases)
VARIABLES tc, te
C  == Cases[tc]
Ev == C.ev[te]

TraceInit == TLCSet(1, << >>) /\ tc = 1 /\ te = 1 /\ WInit(Cases[1].hooks)

\* the peer gets every packet that was accepted, in order
Packets == SelectSeq(acc, LAMBDA l_ : Len(l_) > 1)
Peer(got) ==
  /\ wph = "idle" /\ pend = << >>
  /\ Len(got) = Len(Packets)
  /\ \A i_ \in 1..Len(got) : S!Answer("packet", Packets[i_], got[i_])
  /\ UNCHANGED wvars

Step1 ==
  CASE Ev.k = "call" -> WriteCall(Ev.m)
    [] Ev.k = "ka" -> KeepAliveCall
    [] Ev.k = "hook" -> WHook(Ev.i, Ev.line, Ev.ret)
    [] Ev.k = "ret" -> WRet(Ev.err, Ev.wire) /\ Ev.same
    [] Ev.k = "flush" -> WFlush(Ev.err, Ev.wire)
    [] Ev.k = "zon" -> ZOnCall(Ev.lvl, Ev.err, Ev.wire)
    [] Ev.k = "zoff" -> WFlush(Ev.err, Ev.wire)
    [] Ev.k = "peer" -> Peer(Ev.got)
    [] Ev.k = "addhook" -> WAddHook
    [] OTHER -> FALSE

Answers == {"ret", "flush", "zon", "zoff"}
Step ==
  CASE wph = "dead" -> (IF Ev.k \in Answers THEN Dead(Ev.err, Ev.wire) ELSE Ev.k # "hook" /\ UNCHANGED wvars)
    [] wph # "dead" /\ Ev.k \in Answers /\ Ev.tf -> Died(Ev.err, Ev.wire)
    [] OTHER -> Step1

Start(x) == /\ nh' = Cases[x].hooks /\ wph' = "idle" /\ wm' = Nothing /\ wl' = << >> /\ whk' = 1 /\ werr' = ""
            /\ pend' = << >> /\ acc' = << >>
NextCase ==
  IF tc < N
  THEN tc' = tc + 1 /\ te' = 1 /\ Start(tc + 1)
  ELSE tc' = 0 /\ te' = 0 /\ UNCHANGED wvars /\ PrintT("DONE " \o ToString(N))

Place == << tc, te, wph, whk >>
Event == /\ tc > 0 /\ te <= Len(C.ev)
         /\ IF IsWSilent THEN WSilent /\ te' = te ELSE Step /\ te' = te + 1
         /\ UNCHANGED tc
         /\ TLCSet(1, Place)    \* accepted
Report == PrintT("REJECT " \o ToJson([case |-> tc, id |-> C.id, event |-> te,
             state |-> [ph |-> wph, line |-> wl, hk |-> whk, err |-> werr, pend |-> pend]]))
Known == tc > 0 /\ wph # "any"    \* the rest of the session is not specified
Skipped == IF Known THEN TRUE ELSE PrintT("UNSPEC " \o ToString(tc))
TraceNext ==
  \/ Known /\ Event
  \/ tc > 0 /\ (te > Len(C.ev) \/ ~Known) /\ Skipped /\ NextCase
  \/ Known /\ te <= Len(C.ev) /\ TLCGet(1) # Place /\ Report /\ NextCase
TraceSpec == TraceInit /\ [][TraceNext]_<< tc, te, wvars >>
TraceView == Place
=============================================================================
