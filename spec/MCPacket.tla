------------------------------ MODULE MCPacket ------------------------------
(* All small packets and all lines close to them.                             *)
EXTENDS AdcPacket, Json
CONSTANTS Sids, MaxSel, Emit

VARIABLE ln    \* << line >>, << packet, payload >>, or << >>

SidSet == {B("AAAB"), B("+TC4")}
SidsOf == TLCEval({ x \in SidSet : Sids = 2 \/ x = B("AAAB") })
CidSet == { Zeros(HashBytes), [i_ \in 1..HashBytes |-> 10 * i_] }
Feas == {B("TCP4"), B("+-Zz")}
Cmds == {B("MSG"), B("X+1")}
Datas == { << >>, B("a"), B(" "), B("a b"), B("+TCP4"), B("-"), B(" a"), B("a ") }
Sels == Seqs2(Feas \X BOOLEAN, MaxSel)
Addrs(kind) ==
  LET p == NoAddr(kind, B("MSG")) IN
  CASE kind \in {KI, KH, KC} -> { p }
    [] kind = KB -> { [p EXCEPT !.src = s_] : s_ \in SidsOf }
    [] kind \in {KD, KE} -> { [p EXCEPT !.src = s_, !.dst = d_] : s_ \in SidsOf, d_ \in SidsOf }
    [] kind = KF -> { [p EXCEPT !.src = s_, !.sel = l_] : s_ \in SidsOf, l_ \in Sels }
    [] kind = KU -> { [p EXCEPT !.cid = c_] : c_ \in CidSet }

\* one byte lost, changed or added
Bytes1 == {SP, LF, PLUS, NUL, 90, 97}
Near(l_) ==
  { Upto(l_, i_ - 1) \o From(l_, i_ + 1) : i_ \in 1..Len(l_) }
  \cup { [l_ EXCEPT ![i_] = b_] : i_ \in 1..Len(l_), b_ \in Bytes1 }
  \cup { Upto(l_, i_) \o << b_ >> \o From(l_, i_ + 1) : i_ \in 0..Len(l_), b_ \in Bytes1 }
  \cup { Upto(l_, i_) : i_ \in 0..Len(l_) } \cup { Append(Upto(l_, i_), LF) : i_ \in 0..Len(l_) }

Say(l_) == Emit => PrintT("SCEN " \o ToJson([l |-> l_]))
Init == ln = << >>
Next ==
  \/ /\ ln = << >>
     /\ \E kind \in KindSet, c_ \in Cmds, d_ \in Datas : \E a_ \in Addrs(kind) :
          LET pk == [a_ EXCEPT !.cmd = c_] IN ln' = << pk, d_ >> /\ Say(Line(pk, d_))
  \/ /\ Len(ln) = 2
     /\ \E l_ \in Near(Line(ln[1], ln[2])) : ln' = << l_ >> /\ Say(l_)
Spec == Init /\ [][Next]_ln

\* a packet that can be carried is read back as it was
RoundTrip ==
  Len(ln) = 2 =>
    LET r == ReadLine(Line(ln[1], ln[2])) IN
    PkRep(ln[1]) /\ DataRep(ln[1], ln[2]) => r.st = "ok" /\ r.v.pk = ln[1] /\ r.v.data = ln[2]
\* a line that is understood is written again as it was
SameAgain ==
  Len(ln) = 1 =>
    LET r == ReadLine(ln[1]) IN
    r.st = "ok" /\ Canonical(ln[1], r) =>
      \/ SameLine(ln[1], Line(r.v.pk, r.v.data))
      \/ Line(r.v.pk, r.v.data) = ln[1]
=============================================================================
