-------------------------------- MODULE Addr --------------------------------
(* Addresses of hubs: their parts, their meaning and their canonical form.      *)
(* An address is [scheme, user, host, port, path, query, frag]; a part that may   *)
(* be missing is a sequence of at most one text.                              *)
EXTENDS Bytes

ASlash == 47 AColon == 58 AAt == 64 AQuest == 63 AHash == 35 AOpen == 91 AClose == 93 APct == 37
AD(s_) == TLCEval(B(s_))
\* position of the first byte of a set from position i_ on, or n + 1
FirstIn(t_, S_, i_) == LET P_ == {p_ \in i_..Len(t_) : t_[p_] \in S_} IN IF P_ = {} THEN Len(t_) + 1 ELSE CHOOSE p_ \in P_ : \A q_ \in P_ : p_ <= q_
LastIn(t_, S_) == LET P_ == {p_ \in 1..Len(t_) : t_[p_] \in S_} IN IF P_ = {} THEN 0 ELSE CHOOSE p_ \in P_ : \A q_ \in P_ : p_ >= q_
Lower(t_) == [p_ \in 1..Len(t_) |-> IF t_[p_] \in 65..90 THEN t_[p_] + 32 ELSE t_[p_]]

SplitAuth(t_) ==
  LET at == LastIn(t_, {AAt})
      hp == SubSeq(t_, at + 1, Len(t_))
      cl == IF hp # << >> /\ hp[1] = AOpen THEN FirstIn(hp, {AClose}, 1) ELSE 0
      \* the port follows the last colon outside the brackets
      co == LastIn(hp, {AColon})
      cp_ == IF co > cl THEN co ELSE 0
  IN [user |-> IF at = 0 THEN << >> ELSE << SubSeq(t_, 1, at - 1) >>,
      host |-> IF cp_ = 0 THEN hp ELSE SubSeq(hp, 1, cp_ - 1),
      port |-> IF cp_ = 0 THEN << >> ELSE << SubSeq(hp, cp_ + 1, Len(hp)) >>]
\* The parts of a text. A scheme is what precedes "://" when no path, query or fragment does.
Split(t_) ==
  LET d_ == FirstIn(t_, {ASlash, AQuest, AHash}, 1)
      has == d_ > 1 /\ d_ + 1 <= Len(t_) /\ t_[d_] = ASlash /\ t_[d_ - 1] = AColon /\ t_[d_ + 1] = ASlash
      r_ == IF has THEN SubSeq(t_, d_ + 2, Len(t_)) ELSE t_
      h_ == FirstIn(r_, {AHash}, 1)
      q_ == FirstIn(SubSeq(r_, 1, h_ - 1), {AQuest}, 1)
      p_ == FirstIn(SubSeq(r_, 1, q_ - 1), {ASlash}, 1)
      au == SplitAuth(SubSeq(r_, 1, p_ - 1))
  IN [scheme |-> IF has THEN << SubSeq(t_, 1, d_ - 2) >> ELSE << >>,
      user |-> au.user, host |-> au.host, port |-> au.port,
      path |-> SubSeq(r_, p_, q_ - 1),
      query |-> IF q_ >= h_ THEN << >> ELSE << SubSeq(r_, q_ + 1, h_ - 1) >>,
      frag |-> IF h_ > Len(r_) THEN << >> ELSE << SubSeq(r_, h_ + 1, Len(r_)) >>]
Opt(pre, s_, post) == IF s_ = << >> THEN << >> ELSE pre \o s_[1] \o post
Join(a) == Opt(<< >>, a.scheme, AD("://")) \o Opt(<< >>, a.user, << AAt >>) \o a.host \o Opt(<< AColon >>, a.port, << >>) \o a.path
           \o Opt(<< AQuest >>, a.query, << >>) \o Opt(<< AHash >>, a.frag, << >>)

-----------------------------------------------------------------------------
(* What is specified                                                          *)
ALetters == (65..90) \cup (97..122)
ADigits  == 48..57
AName    == ALetters \cup ADigits \cup {45, 46, 95, 126}
AQueryCh == AName \cup {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 64, 47, 63}
IsHex(c_) == c_ \in ADigits \cup (65..70) \cup (97..102)
Over(t_, S_) == \A p_ \in 1..Len(t_) : t_[p_] \in S_
\* escaped text: of these bytes and escapes
Escaped(t_, S_) == \A p_ \in 1..Len(t_) : \/ t_[p_] \in S_
                                         \/ (t_[p_] = APct /\ p_ + 2 <= Len(t_) /\ IsHex(t_[p_ + 1]) /\ IsHex(t_[p_ + 2]))
APathCh  == AName \cup {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 64, 47}
\* a bracketed address: groups of hexadecimal digits
Groups == {AD("[::]"), AD("[::1]"), AD("[fe80::1]"), AD("[2001:DB8::a]"), AD("[1:2:3:4:5:6:7:8]"), AD("[::ffff:10.0.0.1]")}
NameHost(h_) == h_ # << >> /\ Over(h_, AName)
KnownScheme(s_) == s_ = << >> \/ (s_[1] # << >> /\ s_[1][1] \in ALetters /\ Over(s_[1], ALetters \cup ADigits))
KnownUser(u_) == u_ = << >> \/ (u_[1] # << >> /\ Over(u_[1], AName))
                 \/ LET i_ == FirstIn(u_[1], {AColon}, 1) IN i_ > 1 /\ i_ < Len(u_[1]) /\ Over(SubSeq(u_[1], 1, i_ - 1) \o SubSeq(u_[1], i_ + 1, Len(u_[1])), AName)
RECURSIVE PortNum(_)
PortNum(p_) == IF p_ = << >> THEN 0 ELSE 10 * PortNum(SubSeq(p_, 1, Len(p_) - 1)) + p_[Len(p_)] - 48
KnownPort(p_) == p_ = << >> \/ (Over(p_[1], ADigits) /\ Len(p_[1]) <= 6 /\ PortNum(p_[1]) <= 65535)
KnownPath(p_) == p_ = << >> \/ (p_[1] = ASlash /\ Escaped(p_, APathCh))
KnownText(q_) == q_ = << >> \/ Escaped(q_[1], AQueryCh)
\* Everything around the host is in the domain of this specification; so the host decides.
Around(a) == KnownScheme(a.scheme) /\ KnownUser(a.user) /\ KnownPort(a.port) /\ KnownPath(a.path) /\ KnownText(a.query) /\ KnownText(a.frag)

ANmdc == {AD("dchub"), AD("nmdc"), AD("nmdcs")}
AAdc  == {AD("adc"), AD("adcs")}
SchemeOf(a, kind_) == IF a.scheme # << >> THEN Lower(a.scheme[1]) ELSE IF kind_ = "adc" THEN << >> ELSE AD("dchub")
CanonScheme(s_) == IF s_ = AD("nmdc") THEN AD("dchub") ELSE s_
Supported(s_, kind_) == CASE kind_ = "adc" -> s_ \in AAdc [] kind_ = "nmdc" -> s_ \in ANmdc [] OTHER -> s_ \in ANmdc \cup AAdc
RECURSIVE NoSlash(_)
NoSlash(p_) == IF p_ # << >> /\ p_[Len(p_)] = ASlash THEN NoSlash(SubSeq(p_, 1, Len(p_) - 1)) ELSE p_
\* the canonical form, keeping the meaning
CanonAddr(a, kind_) == [a EXCEPT !.scheme = << CanonScheme(SchemeOf(a, kind_)) >>, !.path = NoSlash(a.path)]

\* Is an address refused, accepted, or is nothing said? kind_ tells which package is asked.
NormSt(a, kind_) ==
  LET s_ == SchemeOf(a, kind_) IN
  IF ~Around(a) THEN "any"
  ELSE IF ~Supported(s_, kind_) THEN "err"
  ELSE IF a.host = << >> THEN "err"
  ELSE IF s_ \in AAdc /\ (a.port = << >> \/ a.port[1] = << >>) THEN "err"
  ELSE IF a.host \notin Groups /\ ~NameHost(a.host) THEN "any"
  ELSE "ok"
\* an empty query, fragment or port may also be left out
Sure(a) == a.query # << << >> >> /\ a.frag # << << >> >> /\ a.port # << << >> >>
\* (a text like "adc:1" may be read as an address that names no host, which only normalising refuses)
ParseSt(a, kind_) ==
  IF ~Around(a) \/ (kind_ = "adc" /\ a.scheme = << >>) THEN "any"
  ELSE IF ~Supported(SchemeOf(a, kind_), kind_) THEN "err"
  ELSE IF NormSt(a, kind_) = "ok" THEN "ok" ELSE "any"
=============================================================================
