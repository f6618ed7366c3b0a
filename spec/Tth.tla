--------------------------------- MODULE Tth --------------------------------
(* Tiger tree hashes.  Hashes are compared as terms or names; the Tiger hash   *)
(* of a node (0x01 and the two hashes below) is a term or is looked up in a     *)
(* table T of << left, right, hash >> made with the Tiger primitive.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

BlockSize == 1024
Node(T, x_, y_) ==
  IF T = << >> THEN << -1 >> \o x_ \o y_ \o << -2 >>
  ELSE LET I == {i_ \in 1..Len(T) : T[i_][1] = x_ /\ T[i_][2] = y_} IN IF I = {} THEN 0 ELSE T[CHOOSE i_ \in I : TRUE][3]
NBlocks(len, bs) == IF len = 0 THEN 1 ELSE (len + bs - 1) \div bs
RECURSIVE Half(_, _)
Half(n_, p_) == IF 2 * p_ >= n_ THEN p_ ELSE Half(n_, 2 * p_)     \* the largest power of two below n_
\* the root over leaves a..b: full subtrees to the left
RECURSIVE RootOf(_, _, _, _)
RootOf(l_, a_, b_, T) ==
  IF a_ = b_ THEN l_[a_]
  ELSE LET m_ == a_ + Half(b_ - a_ + 1, 1) - 1 IN Node(T, RootOf(l_, a_, m_, T), RootOf(l_, m_ + 1, b_, T))
Root(l_, T) == RootOf(l_, 1, Len(l_), T)
\* one level up: neighbours are joined, an odd one is promoted
LevelUp(l_, T) ==
  [i_ \in 1..((Len(l_) + 1) \div 2) |-> IF 2 * i_ <= Len(l_) THEN Node(T, l_[2 * i_ - 1], l_[2 * i_]) ELSE l_[2 * i_ - 1]]
RECURSIVE Reduce(_, _)
Reduce(l_, T) == IF Len(l_) = 1 THEN l_[1] ELSE Reduce(LevelUp(l_, T), T)
=============================================================================
