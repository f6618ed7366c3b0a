------------------------------- MODULE MCInfo -------------------------------
(* All groups with all extensions in several spellings, all statuses, small     *)
(* descriptions: laws of Info, and the cases for the real code.                *)
EXTENDS Info, Json
CONSTANTS Emit, Groups
VARIABLES kind, x, name
mvars == << kind, x, name >>
Stems == {"", ".", "a.", "a.mp3.", "A/b.", "a. "}
Up(s_) == [i_ \in 1..Len(s_) |-> IF s_[i_] \in 97..122 THEN s_[i_] - 32 ELSE s_[i_]]
Mixed(s_) == [i_ \in 1..Len(s_) |-> IF i_ = Len(s_) THEN s_[i_] ELSE Up(s_)[i_]]
Spell(s_) == {s_, Up(s_), Mixed(s_), s_ \o B("."), s_ \o B("x")}
MoreExts == AllExts \cup {"", "mp", "mp33", "exe ", "doc7"}
Init == kind = "start" /\ x = 0 /\ name = << >>
Next ==
  \/ kind = "start" /\ \E e_ \in MoreExts : \E st_ \in Stems : \E v_ \in Spell(B(st_) \o B(e_)) :
       kind' = "name" /\ name' = v_ /\ x' = 0
  \/ kind = "name" /\ x = 0 /\ \E g_ \in Groups : x' = g_ /\ kind' = "grp" /\ UNCHANGED name
  \/ kind = "start" /\ \E s_ \in 0..9, c_ \in 0..99 : kind' = "sta" /\ x' = s_ * 100 + c_ /\ UNCHANGED name
  \/ kind \in {"start", "norm"} /\ Len(name) < 5 /\ kind' = "norm" /\ x' = 0 /\ \E b_ \in {65, 32, 49, 46} : name' = Append(name, b_)
Spec == Init /\ [][Next]_mvars
ASSUME \A e_ \in AllExts : Cardinality({ i_ \in 1..6 : e_ \in Exts[i_] }) = 1
GroupLaws == kind = "grp" =>
  /\ Matches(0, name)
  /\ Matches(x, name) <=> (x = 0 \/ \E i_ \in 0..5 : Bit(x, i_) /\ Matches(2 ^ i_, name))
  /\ Cardinality({ i_ \in 0..5 : Matches(2 ^ i_, name) }) <= 1
StatusLaws == kind = "sta" => LET s == x \div 100 c == x % 100 IN
  /\ IsOk(s) => IsRecoverable(s)
  /\ (ErrKind(s, c) = "none") = IsOk(s)
NormLaws == kind = "norm" =>
  LET n == Normal(<< >>, name) IN
  /\ (n[1] = << >> => Normal(n[1], n[2]) = n \/ HasByte(n[2], SP)) /\ (n[1] # << >> => Normal(n[1], n[2]) = n)
  /\ (n[1] # << >> => n[1] \o << SP >> \o n[2] = name /\ ~HasByte(n[2], SP))
  /\ Normal(<< 65 >>, name) = << << 65 >>, name >>
Shown == IF Emit /\ kind \in {"grp", "sta", "norm"} THEN PrintT("SCEN " \o ToJson([k |-> kind, x |-> x, name |-> name])) ELSE TRUE
=============================================================================
