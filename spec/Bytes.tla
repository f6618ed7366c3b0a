------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.  Everything that is sent or       *)
(* received by go-dc is specified on these; numbers too wide for TLC are     *)
(* kept as their canonical decimal ASCII representation.                     *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Bitwise

\* --- ASCII literals ------------------------------------------------------
AsciiTab ==
  LET printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
  IN TLCEval([i \in 1..95 |-> SubSeq(printable, i, i)])
Ord == TLCEval([chr_ \in {AsciiTab[i] : i \in 1..95} |-> (CHOOSE i \in 1..95 : AsciiTab[i] = chr_) + 31])

\* B("abc") is the byte string of an ASCII literal
B(str) == TLCEval([i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]])

SP == 32
NUL == 0
LF == 10
CR == 13
TAB == 9

\* --- searching -------------------------------------------------------------
\* index of the first byte c at or after position from, 0 if there is none
FindByteFrom(s, c, from) ==
  IF from > Len(s) THEN 0
  ELSE LET i == CHOOSE i \in from..(Len(s)+1) : i = Len(s)+1 \/ s[i] = c
       IN IF i > Len(s) THEN 0 ELSE i
FindByte(s, c) == FindByteFrom(s, c, 1)

FindLastByte(s, c) ==
  IF \E i \in 1..Len(s) : s[i] = c
  THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in (i+1)..Len(s) : s[j] # c
  ELSE 0

MatchAt(s, sub, i) == i + Len(sub) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(sub) - 1) = sub

FindSubFrom(s, sub, from) ==
  LET last == Len(s) - Len(sub) + 1 IN
  IF from > last THEN 0
  ELSE LET i == CHOOSE i \in from..(last+1) : i = last+1 \/ MatchAt(s, sub, i)
       IN IF i > last THEN 0 ELSE i
FindSub(s, sub) == FindSubFrom(s, sub, 1)

FindLastSub(s, sub) ==
  LET I == {i \in 1..(Len(s) - Len(sub) + 1) : MatchAt(s, sub, i)}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

HasByte(s, c) == \E i \in 1..Len(s) : s[i] = c
HasSub(s, sub) == FindSub(s, sub) # 0
CountByte(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

From(s, i) == SubSeq(s, i, Len(s))          \* s[i..]
Upto(s, i) == SubSeq(s, 1, i)               \* s[..i] (inclusive)
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN Upto(s, Len(s) - Len(p)) ELSE s

\* strip bytes in set C from the right / the left
TrimRight(s, C) ==
  IF \A i \in 1..Len(s) : s[i] \in C THEN << >>
  ELSE Upto(s, CHOOSE i \in 1..Len(s) : s[i] \notin C /\ \A j \in (i+1)..Len(s) : s[j] \in C)
TrimLeft(s, C) ==
  IF \A i \in 1..Len(s) : s[i] \in C THEN << >>
  ELSE From(s, CHOOSE i \in 1..Len(s) : s[i] \notin C /\ \A j \in 1..(i-1) : s[j] \in C)
Trim(s, C) == TrimRight(TrimLeft(s, C), C)

\* --- splitting and joining ------------------------------------------------
RECURSIVE SplitByte(_, _)
SplitByte(s, c) ==
  LET i == FindByte(s, c) IN
  IF i = 0 THEN << s >> ELSE << Upto(s, i-1) >> \o SplitByte(From(s, i+1), c)

\* at most n parts, the last one is not split further
RECURSIVE SplitByteN(_, _, _)
SplitByteN(s, c, n) ==
  LET i == FindByte(s, c) IN
  IF n <= 1 \/ i = 0 THEN << s >> ELSE << Upto(s, i-1) >> \o SplitByteN(From(s, i+1), c, n-1)

RECURSIVE SplitSub(_, _)
SplitSub(s, sub) ==
  LET i == FindSub(s, sub) IN
  IF i = 0 THEN << s >> ELSE << Upto(s, i-1) >> \o SplitSub(From(s, i + Len(sub)), sub)

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)
JoinSep(ss, sep) == IF ss = << >> THEN << >> ELSE Flatten([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])
MapBytes(s, Op(_)) == Flatten([i \in 1..Len(s) |-> Op(s[i])])
SubstByte(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
FilterSeq(s, Test(_)) == SelectSeq(s, Test)
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* --- decimal numbers as byte strings ------------------------------------
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
\* canonical form: no leading zeros
Canon(s) == LET t == TrimLeft(s, {48}) IN IF t = << >> THEN <<48>> ELSE t
\* comparison of canonical decimals
DecLess(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
DecLeq(a, b) == a = b \/ DecLess(a, b)
MaxU64 == B("18446744073709551615")
MaxI64 == B("9223372036854775807")
MinI64Abs == B("9223372036854775808")
\* small numbers to and from TLC integers
RECURSIVE DecVal(_)
DecVal(s) == IF s = << >> THEN 0 ELSE DecVal(Upto(s, Len(s)-1)) * 10 + (s[Len(s)] - 48)
RECURSIVE ItoaNat(_)
ItoaNat(n) == IF n < 10 THEN << 48 + n >> ELSE ItoaNat(n \div 10) \o << 48 + (n % 10) >>
Itoa(n) == IF n < 0 THEN <<45>> \o ItoaNat(-n) ELSE ItoaNat(n)

\* --- UTF-8 -----------------------------------------------------------------
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
\* length of the valid UTF-8 sequence starting at position i; 0 if it is invalid
RuneLen(s, i) ==
  LET b == s[i] IN
  CASE b <= 127 -> 1
    [] b >= 194 /\ b <= 223 -> IF Cont(s, i+1) THEN 2 ELSE 0
    [] b >= 224 /\ b <= 239 ->
         IF /\ Cont(s, i+1) /\ Cont(s, i+2)
            /\ (b = 224 => s[i+1] >= 160)
            /\ (b = 237 => s[i+1] <= 159) THEN 3 ELSE 0
    [] b >= 240 /\ b <= 244 ->
         IF /\ Cont(s, i+1) /\ Cont(s, i+2) /\ Cont(s, i+3)
            /\ (b = 240 => s[i+1] >= 144)
            /\ (b = 244 => s[i+1] <= 143) THEN 4 ELSE 0
    [] OTHER -> 0
RuneAt(s, i) ==
  LET n == RuneLen(s, i) b == s[i] IN
  CASE n = 1 -> b
    [] n = 2 -> (b - 192) * 64 + (s[i+1] - 128)
    [] n = 3 -> (b - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)
    [] n = 4 -> (b - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + (s[i+3] - 128)
    [] OTHER -> 65533
RECURSIVE Utf8ValidFrom(_, _)
Utf8ValidFrom(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET n == RuneLen(s, i) IN n # 0 /\ Utf8ValidFrom(s, i + n)
Utf8Valid(s) == (\A i \in 1..Len(s) : s[i] <= 127) \/ Utf8ValidFrom(s, 1)
RECURSIVE RunesFrom(_, _)
RunesFrom(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE << RuneAt(s, i) >> \o RunesFrom(s, i + (IF RuneLen(s, i) = 0 THEN 1 ELSE RuneLen(s, i)))
\* code points of a valid UTF-8 string
Runes(s) == RunesFrom(s, 1)
Utf8Enc(r) ==
  CASE r < 128 -> << r >>
    [] r < 2048 -> << 192 + r \div 64, 128 + (r % 64) >>
    [] r < 65536 -> << 224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64) >>
    [] OTHER -> << 240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64) >>

\* --- outcomes -------------------------------------------------------------
\* The result of a partial operation is [ok |-> TRUE, v |-> value] or [ok |-> FALSE].
Ok(v) == [ok |-> TRUE, v |-> v]
Fail == [ok |-> FALSE, v |-> << >>]
=============================================================================
