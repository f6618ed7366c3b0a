----------------------------- MODULE NmdcCodec -----------------------------
(* Validation of recorded encodings and decodings of NMDC messages.           *)
EXTENDS NmdcMsg, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE c

\* A recorded result of decoding against what the specification says.
DecOk(r, d) ==
  CASE r.st = "undef" -> d.st \in {"ok", "err"}
    [] r.st = "ok" -> d.st = "ok" /\ d.m.t = r.v.t /\ Sem(d.m.t, d.m.f) = r.v.f
    [] OTHER -> d.st = "err"

\* A recorded encoding of message (t, f).
EncOk(cs, t, f, e) ==
  LET r == Wire(cs, t, f) IN
  CASE r.st = "undef" -> e.st \in {"ok", "err"}
    [] r.st = "ok" -> e.st = "ok" /\ WireOneOf(cs, t, f, e.wire) /\ WireOneOf(cs, t, f, e.wire2)
    [] OTHER -> e.st = "err"

\* One frame: the delimiter only at the end
OneFrame(w) == w # << >> /\ w[Len(w)] = Delim /\ ~HasByte(Upto(w, Len(w) - 1), Delim)

Body(t, f, w) == LET n == Len(CmdOf(t, f)) IN
  IF n = 0 THEN Upto(w, Len(w) - 1) ELSE IF Len(w) = n + 2 THEN << >> ELSE SubSeq(w, n + 3, Len(w) - 1)

\* Decoding of a whole frame with nmdc.Unmarshal
FrameDecOk(cs, t, f, w, d) ==
  LET b == Body(t, f, w) r == DecodeMsg(cs, CmdOf(t, f), t = "Chat", b) IN
  IF HasByte(b, NUL) \/ HasByte(b, Delim) \/ (t = "Raw" /\ ~IsCmd(f.Typ)) \/ (t = "Chat" /\ (b = << >> \/ b[1] = DOLLAR)) THEN d.st \in {"ok", "err"}
  ELSE DecOk(r, d)

\* What is wrong with a case, {} if nothing is.
Wrong(C) ==
  IF C.k = "rt"
  THEN LET rep == Representable(C.cs, C.t, C.f) IN
       (IF C.enc.after = C.f THEN {} ELSE {"the message was changed by encoding it"})
       \cup (IF EncOk(C.cs, C.t, C.f, C.enc) THEN {} ELSE {"encoding"})
       \cup (IF rep /\ C.enc.st = "ok" /\ ~OneFrame(C.enc.wire) THEN {"not one frame"} ELSE {})
       \cup (IF C.enc.st = "ok" /\ ~FrameDecOk(C.cs, C.t, C.f, C.enc.wire, C.dec) THEN {"decoding"} ELSE {})
       \cup (IF rep /\ ~(C.enc.st = "ok" /\ C.dec.st = "ok" /\ C.dec.m.t = C.t /\ Sem(C.t, C.dec.m.f) = Norm(C.t, C.f))
             THEN {"round trip"} ELSE {})
  ELSE LET r == Rec1(Decode(C.cs, C.t, C.body), LAMBDA v : [t |-> C.t, f |-> v])
           rep == C.dec.st = "ok" /\ C.enc.st # "panic" /\ Representable(C.cs, C.t, C.dec.m.f)
       IN (IF DecOk(r, C.dec) THEN {} ELSE {"decoding"})
          \cup (IF C.dec.st = "ok" /\ ~EncOk(C.cs, C.t, C.dec.m.f, C.enc) THEN {"encoding"} ELSE {})
          \cup (IF C.enc.st # "none" /\ C.enc.after # C.enc.before THEN {"the message was changed by encoding it"} ELSE {})
          \cup (IF rep /\ ~(C.dec2.st = "ok" /\ C.dec2.m.t = C.t /\ Sem(C.t, C.dec2.m.f) = Norm(C.t, C.dec.m.f))
                THEN {"second decoding"} ELSE {})

Init == c = 1
Next == /\ c <= N
        /\ LET w == Wrong(Cases[c]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> c, id |-> Cases[c].id, wrong |-> w]))
        /\ c' = c + 1
        /\ IF c = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_c
=============================================================================
