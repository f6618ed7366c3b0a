----------------------------- MODULE NmdcText -----------------------------
(* Text values of the NMDC protocol: escaping, unescaping, encodings, names. *)
EXTENDS Charset

\* Outcomes of decoding and encoding: "ok" with a value, "bad" (refused), "enc"
\* (text v is not valid in the current encoding), "undef" (not specified).
Val(v) == [st |-> "ok", v |-> v]
Bad == [st |-> "bad", v |-> << >>]
UnkEnc(v) == [st |-> "enc", v |-> v]
Undef == [st |-> "undef", v |-> << >>]
Then(r, F(_)) == IF r.st = "ok" THEN F(r.v) ELSE r
Lit(b) == Val(b)
\* concatenation of parts; the first part that fails decides
Cat(rs) ==
  IF \A i \in DOMAIN rs : rs[i].st = "ok" THEN Val(Flatten([i \in DOMAIN rs |-> rs[i].v]))
  ELSE rs[CHOOSE i \in DOMAIN rs : rs[i].st # "ok" /\ \A j \in 1..(i-1) : rs[j].st = "ok"]
\* decode all parts, the first part that fails decides
All(rs) ==
  IF \A i \in DOMAIN rs : rs[i].st = "ok" THEN Val([i \in DOMAIN rs |-> rs[i].v])
  ELSE rs[CHOOSE i \in DOMAIN rs : rs[i].st # "ok" /\ \A j \in 1..(i-1) : rs[j].st = "ok"]

Delim == 124
DOLLAR == 36
AMP == 38
LT == 60
GT == 62
BSL == 92
QM == 63
COMMA == 44
COLON == 58
SLASH == 47
EQ == 61
MaxName == 256

\* --- unescaping -----------------------------------------------------------
DcnTab == << << B("/%DCN000%/"), 0 >>, << B("/%DCN005%/"), 5 >>, << B("/%DCN036%/"), 36 >>,
             << B("/%DCN096%/"), 96 >>, << B("/%DCN124%/"), 124 >>, << B("/%DCN126%/"), 126 >> >>
DcnPref == B("/%DCN")
RECURSIVE Dcn(_)
Dcn(s) ==
  LET i == FindSub(s, DcnPref) IN
  IF i = 0 THEN s
  ELSE LET K == {k \in 1..6 : MatchAt(s, DcnTab[k][1], i)} IN
       IF K = {} THEN Upto(s, i) \o Dcn(From(s, i + 1))
       ELSE Append(Upto(s, i - 1), DcnTab[CHOOSE k \in K : TRUE][2]) \o Dcn(From(s, i + 10))

Entities == << << B("&amp;"), 38 >>, << B("&lt;"), 60 >>, << B("&gt;"), 62 >>, << B("&quot;"), 34 >> >>
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 16
RECURSIVE HexNum(_)
HexNum(s) == IF s = << >> THEN 0 ELSE HexNum(Upto(s, Len(s) - 1)) * 16 + HexVal(s[Len(s)])

\* What stands at an '&' (position i of s): [n] bytes are replaced by [v]; n = 0
\* if it is a plain '&'; def = FALSE if it is not specified what it means.
Entity(s, i, utf8) ==
  LET plain == [def |-> TRUE, n |-> 1, v |-> << AMP >>]
      un == [def |-> FALSE, n |-> 1, v |-> << AMP >>]
  IN
  IF i = Len(s) THEN plain
  ELSE IF s[i+1] = 35  \* '#'
  THEN LET semi == FindByteFrom(s, 59, i) IN
       IF semi = 0 \/ semi - i > 9 THEN un
       ELSE LET d == SubSeq(s, i + 2, semi - 1)
                hex == d # << >> /\ d[1] \in {88, 120}
                h == IF hex THEN Tail(d) ELSE d
                okd == h # << >> /\ (\A k \in DOMAIN h : IF hex THEN HexVal(h[k]) < 16 ELSE IsDigit(h[k]))
            IN IF ~okd THEN un
               ELSE LET r == IF hex THEN HexNum(h) ELSE DecVal(h) IN
                    IF r >= 1 /\ (r < 128 \/ (utf8 /\ r >= 160 /\ r < 1114112 /\ ~(r >= 55296 /\ r <= 57343)))
                    THEN [def |-> TRUE, n |-> semi - i + 1, v |-> Utf8Enc(r)]
                    ELSE un
  ELSE IF IsAlnum(s[i+1])
  THEN LET K == {k \in 1..4 : MatchAt(s, Entities[k][1], i)} IN
       IF K = {} THEN un
       ELSE LET k == CHOOSE k \in K : TRUE IN [def |-> TRUE, n |-> Len(Entities[k][1]), v |-> << Entities[k][2] >>]
  ELSE plain

RECURSIVE Html(_, _)
Html(s, utf8) ==
  LET i == FindByte(s, AMP) IN
  IF i = 0 THEN [def |-> TRUE, v |-> s]
  ELSE LET x == Entity(s, i, utf8)
           r == Html(From(s, i + x.n), utf8)
       IN [def |-> x.def /\ r.def, v |-> Upto(s, i - 1) \o x.v \o r.v]

Unescape(s, utf8) == Html(Dcn(s), utf8)

\* Is the meaning of all text in this message body specified?
TextDefined(cs, b) == Unescape(b, cs = "utf8").def

\* --- decoding ---------------------------------------------------------------
DecText(cs, b) ==
  LET u == Unescape(b, cs = "utf8") IN
  IF ~u.def THEN Undef
  ELSE IF CsDecFails(cs, u.v) THEN Bad
  ELSE LET d == CsDec(cs, u.v) IN
       IF ~d.def THEN Undef
       ELSE IF Utf8Valid(d.v) THEN Val(d.v) ELSE UnkEnc(d.v)
DecString(cs, b) == IF HasByte(b, NUL) THEN Bad ELSE DecText(cs, b)
NameBad == {DOLLAR, NUL, CR, LF, TAB}
DecName(cs, b) ==
  IF Len(b) > MaxName \/ (\E i \in DOMAIN b : b[i] \in NameBad) THEN Bad ELSE DecText(cs, b)

\* --- encoding ---------------------------------------------------------------
EscStringByte(c) ==
  CASE c = AMP -> B("&amp;") [] c = DOLLAR -> B("&#36;") [] c = Delim -> B("&#124;") [] OTHER -> << c >>
EscNameByte(c) ==
  CASE c = LT -> B("&lt;") [] c = GT -> B("&gt;") [] OTHER -> EscStringByte(c)
EncText(cs, t, F(_)) ==
  LET e == CsEnc(cs, t) IN IF ~e.def THEN Undef ELSE IF ~e.ok THEN Bad ELSE F(e.v)
EncString(cs, t) == EncText(cs, t, LAMBDA b : IF HasByte(b, NUL) THEN Bad ELSE Val(MapBytes(b, EscStringByte)))
EncName(cs, t) ==
  IF Len(t) > MaxName THEN Bad
  ELSE EncText(cs, t, LAMBDA b :
         IF \E i \in DOMAIN b : b[i] \in NameBad THEN Bad
         ELSE LET x == MapBytes(b, EscNameByte) IN IF Len(x) > MaxName THEN Bad ELSE Val(x))

\* --- what can be represented -------------------------------------------------
NoDcn(t) == ~HasSub(t, DcnPref)
TextOk(cs, t) ==
  /\ ~HasByte(t, NUL) /\ Utf8Valid(t) /\ NoDcn(t)
  /\ LET e == CsEnc(cs, t) IN e.def /\ e.ok
NameOk(cs, t) == TextOk(cs, t) /\ EncName(cs, t).st = "ok"
\* fields that are sent as they are
RawOk(t) == \A i \in DOMAIN t : t[i] \notin {NUL, Delim, DOLLAR, 32}
RawSpOk(t) == \A i \in DOMAIN t : t[i] \notin {NUL, Delim, DOLLAR}

\* --- numbers ------------------------------------------------------------------
\* unsigned number, surrounding spaces allowed
DecUint(b) ==
  LET t == Trim(b, {SP}) IN
  IF t = << >> \/ ~AllDigits(t) \/ ~DecLeq(Canon(t), MaxU64) THEN Bad ELSE Val(Canon(t))
\* signed number
DecInt(b) ==
  LET t == Trim(b, {SP})
      neg == t # << >> /\ t[1] = 45
      d == IF t # << >> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
  IN IF d = << >> \/ ~AllDigits(d) \/ ~DecLeq(Canon(d), IF neg THEN MinI64Abs ELSE MaxI64) THEN Bad
     ELSE Val(IF neg /\ Canon(d) # <<48>> THEN <<45>> \o Canon(d) ELSE Canon(d))

\* --- base32 -------------------------------------------------------------------
B32Char(v) == IF v < 26 THEN 65 + v ELSE 50 + (v - 26)
B32Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 50 /\ c <= 55 THEN c - 24 ELSE 32
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256 >>
BitOf(b, k) == LET i == (k \div 8) + 1 IN IF i > Len(b) THEN 0 ELSE (b[i] \div Pow2[8 - (k % 8)]) % 2
B32Enc(b) ==
  [i \in 1..((Len(b) * 8 + 4) \div 5) |->
     LET k == 5 * (i - 1) IN
     B32Char(16 * BitOf(b, k) + 8 * BitOf(b, k+1) + 4 * BitOf(b, k+2) + 2 * BitOf(b, k+3) + BitOf(b, k+4))]
B32Bit(t, k) == LET v == B32Val(t[(k \div 5) + 1]) IN (v \div Pow2[5 - (k % 5)]) % 2
\* n bytes from their text; unused bits of the last character do not matter
B32Dec(t, n) ==
  IF Len(t) # (n * 8 + 4) \div 5 \/ (\E i \in DOMAIN t : B32Val(t[i]) = 32) THEN Bad
  ELSE Val([i \in 1..n |-> LET k == 8 * (i - 1) IN
         128 * B32Bit(t, k) + 64 * B32Bit(t, k+1) + 32 * B32Bit(t, k+2) + 16 * B32Bit(t, k+3) +
         8 * B32Bit(t, k+4) + 4 * B32Bit(t, k+5) + 2 * B32Bit(t, k+6) + B32Bit(t, k+7)])
EncTTH(h) == Val(B32Enc(h))
DecTTH(t) == B32Dec(t, 24)
=============================================================================
