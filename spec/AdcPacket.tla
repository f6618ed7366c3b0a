------------------------------ MODULE AdcPacket ------------------------------
(* ADC packets: a line of a kind, a command, addresses and a payload.         *)
EXTENDS AdcMsg

\* a packet: [kind |-> byte, src, dst, cid |-> << >> or bytes, sel |-> << << feature, wanted >>, ... >>, cmd |-> 3 bytes]
NoAddr(kind, cmd) == [kind |-> kind, src |-> << >>, dst |-> << >>, cid |-> << >>, sel |-> << >>, cmd |-> cmd]
KI == 73  KH == 72  KC == 67  KB == 66  KD == 68  KE == 69  KF == 70  KU == 85
KindSet == {KI, KH, KC, KB, KD, KE, KF, KU}
PLUS == 43
MINUS == 45

\* everything before the payload
Heading(pk) ==
  << pk.kind >> \o pk.cmd
  \o (IF pk.src = << >> THEN << >> ELSE << SP >> \o pk.src)
  \o (IF pk.dst = << >> THEN << >> ELSE << SP >> \o pk.dst)
  \o (IF pk.cid = << >> THEN << >> ELSE << SP >> \o B32Enc(pk.cid))
  \o Flatten(MapSeq(pk.sel, LAMBDA s_ : << SP, IF s_[2] THEN PLUS ELSE MINUS >> \o s_[1]))
Line(pk, data) == Heading(pk) \o (IF data = << >> THEN << >> ELSE << SP >> \o data) \o << LF >>
\* the same for a message, whose encoding may have several forms
LineOk(pk, t_, f, l_) ==
  LET h == Heading(pk) IN
  /\ HasPrefix(l_, h) /\ HasSuffix(l_, << LF >>) /\ Len(l_) > Len(h)
  /\ LET w == SubSeq(l_, Len(h) + 1, Len(l_) - 1) IN
     IF w = << >> THEN WireOk(t_, f, w)
     ELSE w[1] = SP /\ Len(w) > 1 /\ WireOk(t_, f, Tail(w))

Clean(x) == ~HasByte(x, SP) /\ ~HasByte(x, LF)
\* Result: [pk, data].  The rest of the line after an address starts with a separator.
Rest(x, n) == IF n < Len(x) THEN From(x, n + 2) ELSE << >>
SepAt(x, n) == n = Len(x) \/ (n < Len(x) /\ x[n + 1] = SP)

RECURSIVE ReadSel(_, _)
ReadSel(x, sel) ==
  IF x = << >> \/ x[1] \notin {PLUS, MINUS} THEN OkV([sel |-> sel, data |-> x])
  ELSE IF Len(x) < 5 \/ ~SepAt(x, 5) THEN ErrV
  ELSE IF ~Clean(SubSeq(x, 2, 5)) THEN Undef
  ELSE ReadSel(Rest(x, 5), Append(sel, << SubSeq(x, 2, 5), x[1] = PLUS >>))

Packet(pk, data) == OkV([pk |-> pk, data |-> data])
ReadRest(kind, cmd, x) ==
  LET p == NoAddr(kind, cmd) IN
  CASE kind \in {KI, KH, KC} -> Packet(p, x)
    [] kind \in {KB, KF} ->
         IF Len(x) < 4 \/ ~SepAt(x, 4) THEN ErrV
         ELSE IF kind = KB THEN Packet([p EXCEPT !.src = Upto(x, 4)], Rest(x, 4))
         ELSE LET r == ReadSel(Rest(x, 4), << >>) IN
              IF r.st # "ok" THEN r
              ELSE Packet([p EXCEPT !.src = Upto(x, 4), !.sel = r.v.sel], r.v.data)
    [] kind \in {KD, KE} ->
         IF Len(x) < 9 \/ x[5] # SP \/ ~SepAt(x, 9) THEN ErrV
         ELSE Packet([p EXCEPT !.src = Upto(x, 4), !.dst = SubSeq(x, 6, 9)], Rest(x, 9))
    [] kind = KU ->
         IF Len(x) < HashChars \/ ~SepAt(x, HashChars) THEN ErrV
         ELSE LET r == ReadHash(Upto(x, HashChars)) IN
              IF r.st # "ok" THEN r ELSE Packet([p EXCEPT !.cid = r.v], Rest(x, HashChars))
\* is the meaning of the line settled?  Line breaks inside, separators inside of names are not.
Odd(l_, r) ==
  \/ HasByte(Upto(l_, Len(l_) - 1), LF)
  \/ ~Clean(SubSeq(l_, 2, 4))
  \/ r.st = "ok" /\ (~Clean(r.v.pk.src) \/ ~Clean(r.v.pk.dst))
ReadLine(l_) ==
  IF Len(l_) < 5 \/ HasByte(l_, NUL) \/ l_[1] \notin KindSet \/ l_[Len(l_)] # LF THEN ErrV
  ELSE IF ~(l_[5] = SP \/ Len(l_) = 5) THEN (IF Odd(l_, ErrV) THEN Undef ELSE ErrV)
  ELSE LET x == SubSeq(l_, 6, Len(l_) - 1)
           r == ReadRest(l_[1], SubSeq(l_, 2, 4), x)
       IN IF Odd(l_, r) THEN Undef ELSE r
\* may the packet be put back into the line it came from?
Canonical(l_, r) == r.v.pk.cid = << >> \/ HasSub(l_, B32Enc(r.v.pk.cid))
\* up to a trailing separator before an empty payload
SameLine(l_, again) == again = l_ \/ (again # << >> /\ l_ = Upto(again, Len(again) - 1) \o << SP, LF >>)

\* The message of a packet, by its command
ReadMsg(cmd, data) ==
  IF cmd \in DOMAIN RegOf
  THEN LET r == Read(RegOf[cmd], data) IN
       CASE r.st = "ok" -> OkV([t |-> RegOf[cmd], f |-> r.v])
         [] OTHER -> r
  ELSE OkV([t |-> "Raw", f |-> [Type |-> cmd, Data |-> data]])
StatusCmd == TLCEval(B("STA"))
\* a message as recorded: [st, t, f]
MsgMatches(cmd, data, m) ==
  LET r == ReadMsg(cmd, data)
      same(v) == m.st = "ok" /\ m.t = v.t /\ Meaning(m.t, m.f) = v.f IN
  CASE r.st = "undef" -> m.st \in {"ok", "err"}
    [] r.st = "ok" -> same(r.v) \/ (cmd = StatusCmd /\ LET a == StatusAlt(data) IN a.st = "ok" /\ same([t |-> "Status", f |-> a.v]))
    [] OTHER -> m.st = "err"

\* what can be carried
PkRep(pk) ==
  /\ \A x \in {pk.src, pk.dst, pk.cmd} \cup {pk.sel[i_][1] : i_ \in 1..Len(pk.sel)} : Clean(x) /\ ~HasByte(x, NUL)
DataRep(pk, data) ==
  /\ ~HasByte(data, NUL) /\ ~HasByte(data, LF)
  /\ ~(pk.kind = KF /\ data # << >> /\ data[1] \in {PLUS, MINUS})
=============================================================================
