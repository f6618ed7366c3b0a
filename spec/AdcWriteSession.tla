-------------------------- MODULE AdcWriteSession --------------------------
(* Writing an ADC session: packets of all kinds, keep-alives, line hooks.      *)
(* What happens to the bytes afterwards is the business of Writer.tla.        *)
EXTENDS AdcPacket

VARIABLES
  nh,     \* number of line hooks
  wph,    \* idle, enc, hook, ret, dead, any
  wm,     \* the packet of the current call: [pk, t, f]; t is "" for a keep-alive
  wl,     \* its line
  whk,    \* next hook
  werr,   \* what the call has to report
  pend,   \* bytes accepted but not yet seen on the wire
  acc     \* lines accepted so far, of the session
wvars == << nh, wph, wm, wl, whk, werr, pend, acc >>

Nothing == [pk |-> NoAddr(0, << >>), t |-> "", f |-> << >>]
WInit(n) == nh = n /\ wph = "idle" /\ wm = Nothing /\ wl = << >> /\ whk = 1 /\ werr = "" /\ pend = << >> /\ acc = << >>

WriteCall(m) == wph = "idle" /\ wph' = "enc" /\ wm' = m /\ UNCHANGED << nh, wl, whk, werr, pend, acc >>
KeepAliveCall == /\ wph = "idle" /\ wph' = "hook" /\ wm' = Nothing /\ wl' = << LF >> /\ whk' = 1
                 /\ UNCHANGED << nh, werr, pend, acc >>
\* A message that cannot be encoded is refused without a trace.
Determined(t_, f) == Rep(t_, f) /\ t_ # "AddFeatures"
Encode ==
  /\ wph = "enc"
  /\ CASE wm.t = "Fail" -> wph' = "ret" /\ werr' = "other" /\ UNCHANGED << wl, whk >>
       [] OTHER -> IF Determined(wm.t, wm.f)
                   THEN wph' = "hook" /\ wl' = Line(wm.pk, WireOf(wm.t, wm.f)) /\ whk' = 1 /\ UNCHANGED werr
                   ELSE wph' = "any" /\ UNCHANGED << wl, whk, werr >>
  /\ UNCHANGED << nh, wm, pend, acc >>
WHook(i, line, ret) ==
  /\ wph = "hook" /\ whk <= nh /\ i = whk /\ line = wl
  /\ whk' = whk + 1
  /\ CASE ret = "ok" -> UNCHANGED << wph, werr >>
       [] ret = "drop" -> wph' = "ret" /\ UNCHANGED werr
       [] ret = "err" -> wph' = "ret" /\ werr' = "hook"
  /\ UNCHANGED << nh, wm, wl, pend, acc >>
Accept ==
  /\ wph = "hook" /\ whk > nh /\ wph' = "ret"
  /\ pend' = pend \o wl /\ acc' = Append(acc, wl)
  /\ UNCHANGED << nh, wm, wl, whk, werr >>
WAddHook == wph = "idle" /\ nh' = nh + 1 /\ UNCHANGED << wph, wm, wl, whk, werr, pend, acc >>
WSilent == Encode \/ Accept
IsWSilent == wph = "enc" \/ (wph = "hook" /\ whk > nh)

Seen(delta, all) ==
  /\ HasPrefix(pend, delta) /\ (all => Len(delta) = Len(pend))
  /\ pend' = From(pend, Len(delta) + 1)
\* a failed hook ends the session
WRet(err, delta) ==
  /\ wph = "ret" /\ err = werr /\ Seen(delta, FALSE)
  /\ wph' = (IF werr = "hook" THEN "dead" ELSE "idle")
  /\ wm' = Nothing /\ wl' = << >> /\ whk' = 1 /\ werr' = ""
  /\ UNCHANGED << nh, acc >>
WFlush(err, delta) == wph = "idle" /\ err = "" /\ Seen(delta, TRUE) /\ UNCHANGED << nh, wph, wm, wl, whk, werr, acc >>
\* everything before goes out uncompressed, what follows is compressed
ZOnCall(lvl, err, delta) ==
  /\ wph = "idle"
  /\ IF lvl < -2 \/ lvl > 9 THEN err # "" /\ Seen(delta, FALSE) ELSE err = "" /\ Seen(delta, TRUE)
  /\ UNCHANGED << nh, wph, wm, wl, whk, werr, acc >>
\* The transport has failed.
Died(err, delta) ==
  /\ wph \in {"idle", "ret"} /\ err # "" /\ HasPrefix(pend, delta) /\ wph' = "dead"
  /\ UNCHANGED << nh, wm, wl, whk, werr, pend, acc >>
Dead(err, delta) == wph = "dead" /\ err # "" /\ delta = << >> /\ UNCHANGED wvars
=============================================================================
