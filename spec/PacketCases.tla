---------------------------- MODULE PacketCases ----------------------------
(* Validation of recorded decodings and encodings of ADC packets.             *)
EXTENDS AdcPacket, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc

\* d: the packet as decoded without its message, and what it says of itself
RawOk(l_, r, d) ==
  CASE r.st = "ok" -> d.st = "ok" /\ d.pk = r.v.pk /\ d.data = r.v.data /\ d.same
    [] r.st = "err" -> d.st = "err"
    [] OTHER -> d.st \in {"ok", "err"}
\* decoded with its message
FullOk(l_, r, d) ==
  CASE r.st = "ok" -> MsgMatches(r.v.pk.cmd, r.v.data, d.msg) /\ (d.msg.st = "ok" => d.pk = r.v.pk /\ d.same)
    [] r.st = "err" -> d.msg.st = "err"
    [] OTHER -> d.msg.st \in {"ok", "err"}
\* decoded into a message of type d.into
IntoOk(r, d) ==
  IF r.st # "ok" \/ d.st = "none" THEN TRUE
  ELSE IF CmdOfType[d.t] # r.v.pk.cmd THEN d.st = "err"
  ELSE LET x == Read(d.t, r.v.data) IN
       CASE x.st = "undef" -> d.st \in {"ok", "err"}
         [] x.st = "ok" -> d.st = "ok" /\ (Meaning(d.t, d.f) = x.v \/ (d.t = "Status" /\ LET a == StatusAlt(r.v.data) IN a.st = "ok" /\ d.f = a.v))
         [] OTHER -> d.st = "err"
\* decoded without its kind and command, into a packet used before
UsedOk(r, d) ==
  CASE d.st = "none" -> TRUE
    [] r.st = "ok" -> d.st = "ok" /\ d.pk = r.v.pk /\ d.data = r.v.data /\ d.same
    [] OTHER -> d.st \in {"ok", "err"}
Again(l_, r, d) ==   \* encoded again without changes
  IF r.st # "ok" THEN TRUE
  ELSE d.st = "ok" /\ (Canonical(l_, r) => SameLine(l_, d.line))

WrongLine(l_, C) ==
  LET r == ReadLine(l_) IN
  (IF RawOk(l_, r, C.raw) THEN {} ELSE {"decoding"})
  \cup (IF FullOk(l_, r, C.full) THEN {} ELSE {"decoding with the message"})
  \cup (IF \A i_ \in 1..Len(C.into) : IntoOk(r, C.into[i_]) THEN {} ELSE {"decoding into a message"})
  \cup (IF UsedOk(r, C.used) THEN {} ELSE {"decoding into a used packet"})
  \cup (IF Again(l_, r, C.again) THEN {} ELSE {"encoding again"})
  \cup (IF r.st = "ok" /\ C.full.msg.st = "ok" /\ Rep(C.full.msg.t, C.full.msg.f)
           /\ ~(C.full.enc.st = "ok" /\ LineOk(r.v.pk, C.full.msg.t, C.full.msg.f, C.full.enc.line))
        THEN {"encoding with the message"} ELSE {})

Wrong(C) ==
  IF C.k = "line" THEN WrongLine(C.line, C)
  ELSE \* built from values
    LET rep == Rep(C.t, C.f) /\ C.t # "AddFeatures" /\ PkRep(C.pk) IN
    (IF C.enc.st = "ok" /\ (Rep(C.t, C.f) => LineOk(C.pk, C.t, C.f, C.enc.line)) THEN {}
     ELSE IF C.enc.st = "err" /\ ~Rep(C.t, C.f) THEN {} ELSE {"encoding"})
    \cup (IF C.enc.st = "ok" /\ ~(C.before[1] = C.pk /\ C.before[2] /\ C.before[3] = [st |-> "ok", t |-> C.t, f |-> C.f]) THEN {"the packet as built"} ELSE {})
    \cup (IF C.after # C.before THEN {"the packet was changed by encoding it"} ELSE {})
    \cup (IF C.enc.st # "ok" THEN {} ELSE
          WrongLine(C.enc.line, C)
          \cup (IF rep /\ LET w == SubSeq(C.enc.line, Len(Heading(C.pk)) + 1, Len(C.enc.line) - 1)
                              d == IF w = << >> THEN w ELSE Tail(w) IN
                   DataRep(C.pk, d) /\ ~(C.raw.st = "ok" /\ C.raw.pk = C.pk /\ C.raw.data = d)
                THEN {"round trip"} ELSE {}))

Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
