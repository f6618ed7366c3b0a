------------------------------- MODULE Writer -------------------------------
(* What a line writer promises, independently of its buffer, the compressor   *)
(* and of what the transport does (C04, C05, C06; write hooks: C07).          *)
(*                                                                            *)
(* A call is an event record with                                             *)
(*   e      "line", "write", "flush", "enable", "disable", "close"            *)
(*   d      the data submitted                                                *)
(*   err    "" or the class of the returned error                             *)
(*   delta  the bytes that became decodable from the wire during the call, by *)
(*          a peer that follows the toggles                                   *)
(*   log    what the call did to its surroundings, in order:                  *)
(*          [k |-> "arm", ok |-> ..], [k |-> "dis"],                          *)
(*          [k |-> "w", n |-> bytes offered, ok |-> ..],                      *)
(*          [k |-> "hook", h |-> number, d |-> line, r |-> verdict]           *)
EXTENDS Bytes

VARIABLES
  acc,       \* bytes accepted so far
  vis,       \* how many of them can be decoded from the wire
  z,         \* compression is on
  failed,    \* a transport write, time-out callback or hook has failed
  closed,
  timed,     \* a time-out callback is configured
  hooks      \* number of hooks
wvars == << acc, vis, z, failed, closed, timed, hooks >>

WriterInit(t, h) ==
  /\ acc = << >> /\ vis = 0 /\ z = FALSE /\ failed = FALSE /\ closed = FALSE
  /\ timed = t /\ hooks = h

\* --- the surroundings of a call --------------------------------------
Hooked(log)  == SelectSeq(log, LAMBDA x : x.k = "hook")
Refused(log) == \E i \in 1..Len(log) : log[i].k = "arm" /\ ~log[i].ok
WFault(log)  == \E i \in 1..Len(log) : log[i].k = "w" /\ ~log[i].ok
HFault(log)  == \E i \in 1..Len(log) : log[i].k = "hook" /\ log[i].r = "err"
HDrop(log)   == \E i \in 1..Len(log) : log[i].k = "hook" /\ log[i].r = "drop"
Faulted(log) == Refused(log) \/ WFault(log) \/ HFault(log)

\* is the time-out armed before entry i of the log
ArmedAt(log, i) ==
  \E j \in 1..(i-1) : /\ log[j].k = "arm" /\ log[j].ok
                      /\ \A l \in (j+1)..(i-1) : log[l].k # "dis"
\* every write happens inside of an armed window, which is closed before returning;
\* nothing is written once arming was refused
Window(log) ==
  timed =>
    /\ \A i \in 1..Len(log) : log[i].k = "w" /\ log[i].n > 0 => ArmedAt(log, i)
    /\ ~ArmedAt(log, Len(log) + 1)
    /\ \A i \in 1..Len(log) : log[i].k = "arm" /\ ~log[i].ok =>
         \A j \in i..Len(log) : ~(log[j].k = "w" /\ log[j].n > 0)

\* all hooks see the line, in order, until one drops or fails it
HooksOk(ev) ==
  LET hs == Hooked(ev.log) IN
  IF ev.e # "line" THEN hs = << >>
  ELSE /\ \A i \in 1..Len(hs) : hs[i].h = i /\ hs[i].d = ev.d
       /\ \A i \in 1..(Len(hs)-1) : hs[i].r = "ok"
       /\ Len(hs) <= hooks
       /\ Len(hs) < hooks => IF Len(hs) = 0 THEN FALSE ELSE hs[Len(hs)].r # "ok"

\* --- the calls ---------------------------------------------------------
Prefix(ev, a) == /\ vis + Len(ev.delta) <= Len(a)
                 /\ ev.delta = SubSeq(a, vis + 1, vis + Len(ev.delta))
                 /\ vis' = vis + Len(ev.delta)

ValidLevel(l) == l >= -2 /\ l <= 9
Semantic(ev) == \/ ev.e = "enable" /\ (z \/ ~ValidLevel(ev.lvl))
                \/ ev.e = "disable" /\ ~z
Submitted(ev) == IF ev.e \in {"line", "write"} THEN ev.d ELSE << >>
MustShow(ev) == ev.e \in {"flush", "enable", "disable", "close"} \/ (ev.e = "write" /\ ~z)

OnClosed(ev) ==
  /\ closed /\ (ev.e # "close" => ev.err # "")
  /\ ev.delta = << >> /\ UNCHANGED wvars
\* nothing submitted after the failure is accepted
OnFailed(ev) ==
  /\ ~closed /\ failed /\ (ev.e # "close" => ev.err # "")
  /\ Prefix(ev, acc) /\ closed' = (ev.e = "close") /\ UNCHANGED << acc, z, failed, timed, hooks >>
\* the call that fails: its own data may be cut only by the transport
Failing(ev) ==
  /\ ~closed /\ ~failed /\ Faulted(ev.log)
  /\ ev.err # "" /\ (HFault(ev.log) => ev.err = "hook")
  /\ HooksOk(ev)
  /\ acc' = (IF WFault(ev.log) THEN acc \o Submitted(ev) ELSE acc)
  /\ Prefix(ev, acc') /\ failed' = TRUE /\ closed' = (ev.e = "close") /\ UNCHANGED << z, timed, hooks >>
\* refused for its arguments or the state: no effect
Rejected(ev) ==
  /\ ~closed /\ ~failed /\ ~Faulted(ev.log) /\ Semantic(ev)
  /\ ev.err # "" /\ Hooked(ev.log) = << >>
  /\ Prefix(ev, acc) /\ UNCHANGED << acc, z, failed, closed, timed, hooks >>
Succeeds(ev) ==
  /\ ~closed /\ ~failed /\ ~Faulted(ev.log) /\ ~Semantic(ev)
  /\ ev.err = "" /\ HooksOk(ev)
  /\ acc' = (IF HDrop(ev.log) THEN acc ELSE acc \o Submitted(ev))
  /\ Prefix(ev, acc') /\ (MustShow(ev) => vis' = Len(acc'))
  /\ z' = (CASE ev.e = "enable" -> TRUE [] ev.e = "disable" -> FALSE [] OTHER -> z)
  /\ closed' = (ev.e = "close") /\ UNCHANGED << failed, timed, hooks >>

WStep(ev) ==
  /\ Window(ev.log)
  /\ OnClosed(ev) \/ OnFailed(ev) \/ Failing(ev) \/ Rejected(ev) \/ Succeeds(ev)

\* The user adds a hook, or sets or removes the time-out callback: for all that follows.
AddHook == hooks' = hooks + 1 /\ UNCHANGED << acc, vis, z, failed, closed, timed >>
SetTimeout(on) == timed' = on /\ UNCHANGED << acc, vis, z, failed, closed, hooks >>

\* what follows from it, for the models
WTypeOk == vis <= Len(acc)
\* bytes on the wire are never taken back, accepted bytes never change
WMonotone == [][vis' >= vis /\ IsPrefix(acc, acc') /\ (failed => acc' = acc)]_wvars
=============================================================================
