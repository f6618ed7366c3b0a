-------------------------- MODULE NmdcWriteSession --------------------------
(* Writing an NMDC session: batches of messages, hooks, encodings.  What      *)
(* happens to the bytes afterwards is the business of Writer.tla.             *)
EXTENDS NmdcMsg

VARIABLES
  wcs,    \* encoding in use
  nh,     \* number of hooks
  wph,    \* idle, msg, ret, dead, any
  batch,  \* messages of the current call
  j, whk, \* current message and the next hook for it
  werr,   \* what the call has to report
  pend,   \* bytes accepted but not yet seen on the wire
  acc     \* messages accepted so far, of the session
wvars == << wcs, nh, wph, batch, j, whk, werr, pend, acc >>

WInit(cs0, n) == /\ wcs = cs0 /\ nh = n /\ wph = "idle" /\ batch = << >> /\ j = 1 /\ whk = 1 /\ werr = ""
                 /\ pend = << >> /\ acc = << >>

WriteCall(ms) == /\ wph = "idle" /\ wph' = "msg" /\ batch' = ms /\ j' = 1 /\ whk' = 1 /\ werr' = ""
                 /\ UNCHANGED << wcs, nh, pend, acc >>

HookNext == wph = "msg" /\ j <= Len(batch) /\ whk <= nh
WHook(i, m, ret) ==
  /\ HookNext /\ i = whk /\ m = batch[j]
  /\ CASE ret = "ok" -> whk' = whk + 1 /\ UNCHANGED << wph, j, werr >>
       [] ret = "drop" -> whk' = 1 /\ j' = j + 1 /\ UNCHANGED << wph, werr >>
       [] ret = "err" -> wph' = "ret" /\ werr' = "hook" /\ UNCHANGED << whk, j >>
  /\ UNCHANGED << wcs, nh, batch, pend, acc >>

\* a message that all hooks let through is encoded and accepted as one frame, or fails the call
EncodeNext ==
  /\ wph = "msg" /\ j <= Len(batch) /\ whk > nh
  /\ LET m == batch[j] w == Wire(wcs, m.t, m.f) IN
     CASE w.st = "ok" -> /\ pend' = pend \o w.v /\ acc' = Append(acc, m) /\ j' = j + 1 /\ whk' = 1
                         /\ UNCHANGED << wph, werr >>
       [] w.st = "bad" -> wph' = "ret" /\ werr' = "other" /\ UNCHANGED << pend, acc, j, whk >>
       [] OTHER -> wph' = "any" /\ UNCHANGED << pend, acc, j, whk, werr >>
  /\ UNCHANGED << wcs, nh, batch >>
BatchEnd == /\ wph = "msg" /\ j > Len(batch) /\ wph' = "ret"
            /\ UNCHANGED << wcs, nh, batch, j, whk, werr, pend, acc >>
WSilent == EncodeNext \/ BatchEnd
IsWSilent == wph = "msg" /\ ~HookNext

\* what has been seen on the wire since the last event
Seen(delta, all) ==
  /\ HasPrefix(pend, delta) /\ (all => Len(delta) = Len(pend))
  /\ pend' = From(pend, Len(delta) + 1)

\* the messages given are unchanged
WriteRet(err, delta, after) ==
  /\ wph = "ret" /\ err = werr /\ after = batch /\ Seen(delta, FALSE)
  /\ wph' = "idle" /\ batch' = << >> /\ j' = 1 /\ whk' = 1 /\ werr' = ""
  /\ UNCHANGED << wcs, nh, acc >>
WFlush(err, delta) == /\ wph = "idle" /\ err = "" /\ Seen(delta, TRUE)
                      /\ UNCHANGED << wcs, nh, wph, batch, j, whk, werr, acc >>
\* keep-alive
WKeepAlive(err, delta) ==
  /\ wph = "idle" /\ err = ""
  /\ LET p == Append(pend, Delim) IN HasPrefix(p, delta) /\ pend' = From(p, Len(delta) + 1)
  /\ UNCHANGED << wcs, nh, wph, batch, j, whk, werr, acc >>
\* $ZOn| and everything before it goes out uncompressed, what follows is compressed
ZOnCall(lvl, err, delta) ==
  /\ wph = "idle"
  /\ IF lvl < -2 \/ lvl > 9 THEN err # "" /\ Seen(delta, FALSE)
     ELSE err = "" /\ delta = pend \o B("$ZOn|") /\ pend' = << >>
  /\ UNCHANGED << wcs, nh, wph, batch, j, whk, werr, acc >>
ZOffCall(err, delta) == WFlush(err, delta)

\* The transport has failed: this and all later calls report an error, what reached the wire
\* is a prefix of what was accepted.
Died(err, delta, after) ==
  /\ wph \in {"idle", "msg", "ret"} /\ err # "" /\ after = batch
  /\ \/ HasPrefix(pend, delta)
     \/ batch = << >> /\ HasPrefix(pend \o B("$ZOn|"), delta)    \* keep-alives and $ZOn
     \/ batch = << >> /\ HasPrefix(Append(pend, Delim), delta)
  /\ wph' = "dead"
  /\ UNCHANGED << wcs, nh, batch, j, whk, werr, pend, acc >>
Dead(err, delta) ==
  /\ wph = "dead" /\ err # "" /\ delta = << >>
  /\ UNCHANGED wvars

WAddHook == wph = "idle" /\ nh' = nh + 1 /\ UNCHANGED << wcs, wph, batch, j, whk, werr, pend, acc >>
SetEnc(x) == (wph = "idle" \/ HookNext) /\ wcs' = x /\ UNCHANGED << nh, wph, batch, j, whk, werr, pend, acc >>
=============================================================================
