------------------------------ MODULE AdcCodec ------------------------------
(* Validation of recorded encodings and decodings of ADC messages and values. *)
EXTENDS AdcMsg, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc

Same(t_, d, r) == d.st = "ok" /\ Meaning(t_, d.f) = r.v
\* a recorded result of decoding
DecOk(t_, b_, d) ==
  LET r == Read(t_, b_) IN
  CASE r.st = "undef" -> d.st \in {"ok", "err"}
    [] r.st = "ok" -> Same(t_, d, r) \/ (t_ = "Status" /\ Same(t_, d, StatusAlt(b_)))
    [] OTHER -> d.st = "err"
\* the same message looked up by its command
RegOk(t_, d, g) ==
  IF t_ \notin Registered THEN TRUE
  ELSE IF d.st # "ok" THEN g.st = d.st ELSE g.st = "ok" /\ g.t = t_ /\ g.f = d.f
Sent(t_, b_, x) == LET ps_ == SplitByte(b_, SP) IN \E k_ \in Len(Positional(t_)) + 1 .. Len(ps_) : HasPrefix(ps_[k_], x.tag)
\* decoding into a message with values: what was sent replaces them, and what was not may stay
UsedOk(t_, b_, u) ==
  IF u.st = "none" \/ t_ \notin TableTypes THEN TRUE
  ELSE LET r == Read(t_, b_) IN
  CASE r.st = "undef" -> u.st \in {"ok", "err"}
    [] r.st = "ok" -> /\ u.st = "ok"
                      /\ \A i_ \in 1..Len(Schema[t_]) :
                           LET x == Schema[t_][i_] IN
                           \/ u.f[x.name] = r.v[x.name]
                           \/ x.tag # << >> /\ ~Sent(t_, b_, x) /\ u.f[x.name] = u.was[x.name]
    [] OTHER -> u.st = "err"
EncOk(t_, f, e) ==
  \/ e.st = "ok" /\ WireOk(t_, f, e.wire) /\ WireOk(t_, f, e.wire2)
  \/ e.st \in {"ok", "err"} /\ ~Rep(t_, f) /\ t_ # "AddFeatures"
Changed(e) == e.st # "none" /\ e.after # e.before
HasRaw(w) == HasByte(w, LF)

Wrong(C) ==
  IF C.k = "rt"
  THEN (IF Changed(C.enc) THEN {"the message was changed by encoding it"} ELSE {})
       \cup (IF EncOk(C.t, C.f, C.enc) THEN {} ELSE {"encoding"})
       \cup (IF Rep(C.t, C.f) /\ C.enc.st = "ok" /\ HasRaw(C.enc.wire) THEN {"not one line"} ELSE {})
       \cup (IF C.enc.st = "ok" /\ C.dec.st # "none" /\ ~DecOk(C.t, C.enc.wire, C.dec) THEN {"decoding"} ELSE {})
       \cup (IF C.reg.st # "none" /\ ~RegOk(C.t, C.dec, C.reg) THEN {"decoding by command"} ELSE {})
       \cup (IF Rep(C.t, C.f) /\ ~(C.enc.st = "ok" /\ C.dec.st = "ok" /\ Meaning(C.t, C.dec.f) = Meaning(C.t, C.f))
             THEN {"round trip"} ELSE {})
  ELSE (IF DecOk(C.t, C.body, C.dec) THEN {} ELSE {"decoding"})
       \cup (IF UsedOk(C.t, C.body, C.used) THEN {} ELSE {"decoding into a used message"})
       \cup (IF C.reg.st # "none" /\ ~RegOk(C.t, C.dec, C.reg) THEN {"decoding by command"} ELSE {})
       \cup (IF Changed(C.enc) THEN {"the message was changed by encoding it"} ELSE {})
       \cup (IF C.dec.st = "ok" /\ ~EncOk(C.t, C.dec.f, C.enc) THEN {"encoding"} ELSE {})
       \cup (IF C.dec.st = "ok" /\ C.enc.st = "ok" /\ Rep(C.t, C.dec.f)
                /\ ~(C.dec2.st = "ok" /\ Meaning(C.t, C.dec2.f) = Meaning(C.t, C.dec.f)) THEN {"second decoding"} ELSE {})

Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
