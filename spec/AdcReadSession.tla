--------------------------- MODULE AdcReadSession ---------------------------
(* Reading an ADC session: lines, keep-alives, line hooks, and the calls for   *)
(* packets of any or of one kind.  The stream is known as a whole; how it      *)
(* arrives is the business of Reader.tla.                                     *)
EXTENDS AdcPacket

VARIABLES
  in,    \* bytes of the stream
  pos,   \* where the next line begins
  H,     \* [hooks |-> number of line hooks, ka |-> is the keep-alive call-back set]
  ph,    \* idle, line, hook, ka, ret
  rq,    \* current call: packet, raw, info, client
  ll,    \* current line
  hk,    \* next hook
  res,   \* what the call reports: "", hook, eof or packet
  out    \* what has been handed out so far, as it was then
svars == << in, pos, H, ph, rq, ll, hk, res, out >>

SessionInit(stream, hooks) ==
  in = stream /\ pos = 1 /\ H = hooks /\ ph = "idle" /\ rq = "packet" /\ ll = << >> /\ hk = 1 /\ res = "" /\ out = << >>

ReadCall(op) == ph = "idle" /\ ph' = "line" /\ rq' = op /\ UNCHANGED << in, pos, H, ll, hk, res, out >>

\* the next line: all hooks see it, keep-alives included
TakeLine ==
  /\ ph = "line"
  /\ LET e_ == FindByteFrom(in, LF, pos) IN
     IF e_ = 0 THEN /\ pos' = Len(in) + 1 /\ ph' = "ret" /\ res' = "eof" /\ UNCHANGED << ll, hk >>
     ELSE /\ pos' = e_ + 1 /\ ll' = SubSeq(in, pos, e_) /\ ph' = "hook" /\ hk' = 1 /\ UNCHANGED res
  /\ UNCHANGED << in, H, rq, out >>
LineHook(i, line, ret) ==
  /\ ph = "hook" /\ hk <= H.hooks /\ i = hk /\ line = ll
  /\ hk' = hk + 1
  /\ CASE ret = "ok" -> UNCHANGED << ph, res >>
       [] ret = "drop" -> ph' = "line" /\ UNCHANGED res
       [] ret = "err" -> ph' = "ret" /\ res' = "hook"
  /\ UNCHANGED << in, pos, H, rq, ll, out >>
\* a line of nothing but the delimiter only keeps the connection alive
Pass ==
  /\ ph = "hook" /\ hk > H.hooks
  /\ IF Len(ll) = 1 THEN ph' = (IF H.ka THEN "ka" ELSE "line") /\ UNCHANGED res
     ELSE ph' = "ret" /\ res' = "packet"
  /\ UNCHANGED << in, pos, H, rq, ll, hk, out >>
KeepAlive(ret) ==
  /\ ph = "ka"
  /\ IF ret = "ok" THEN ph' = "line" /\ UNCHANGED res ELSE ret = "err" /\ ph' = "ret" /\ res' = "hook"
  /\ UNCHANGED << in, pos, H, rq, ll, hk, out >>
\* the user adds a hook, or sets or removes the call-back
Configure(h) == ph = "idle" /\ H' = h /\ UNCHANGED << in, pos, ph, rq, ll, hk, res, out >>
Silent == TakeLine \/ Pass

\* What the call makes of line l_; a line is used up by every call, whatever comes of it.
\* r: [err, pk, msg |-> [st, t, f]]
Answer(op, l_, r) ==
  LET x == ReadLine(l_)
      kindok == CASE op = "info" -> x.v.pk.kind = KI [] op = "client" -> x.v.pk.kind = KC [] OTHER -> TRUE
      m == IF r.err = "" THEN r.msg ELSE [st |-> "err", t |-> "", f |-> << >>]
  IN CASE x.st = "undef" -> r.err \in {"", "other"}
       [] x.st = "err" \/ (x.st = "ok" /\ ~kindok) -> r.err = "other"
       [] op = "raw" -> r.err = "" /\ r.pk = x.v.pk /\ r.msg.t = "Raw" /\ r.msg.f = [Type |-> x.v.pk.cmd, Data |-> x.v.data]
       [] OTHER -> /\ r.err \in {"", "other"} /\ MsgMatches(x.v.pk.cmd, x.v.data, m)
                   /\ (r.err = "" => r.pk = x.v.pk)
Return(r) ==
  /\ ph = "ret" /\ ph' = "idle"
  /\ IF res = "packet" THEN Answer(rq, ll, r) ELSE r.err = res
  /\ out' = (IF r.err = "" THEN Append(out, [pk |-> r.pk, t |-> r.msg.t, f |-> IF rq = "raw" THEN << >> ELSE r.msg.f, raw |-> rq = "raw"]) ELSE out)
  /\ res' = "" /\ ll' = << >> /\ hk' = 1
  /\ UNCHANGED << in, pos, H, rq >>

\* what was handed out has not changed since (the payload of a raw packet belongs to the reader)
Recheck(ms) ==
  /\ ph = "idle" /\ Len(ms) = Len(out)
  /\ \A i_ \in 1..Len(ms) : (IF ms[i_].pk = << >> THEN TRUE ELSE ms[i_].pk[1] = out[i_].pk) /\ ms[i_].t = out[i_].t /\ (IF out[i_].raw THEN TRUE ELSE ms[i_].f = out[i_].f)
  /\ UNCHANGED svars
=============================================================================
