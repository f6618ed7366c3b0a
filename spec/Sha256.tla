------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 over byte strings; a word is a pair of its halves.                  *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Bitwise

ShaK == << << 17034, 12184 >>, << 28983, 17553 >>, << 46528, 64463 >>, << 59829, 56229 >>, << 14678, 49755 >>, << 23025, 4593 >>, << 37439, 33444 >>, << 43804, 24277 >>,
         << 55303, 43672 >>, << 4739, 23297 >>, << 9265, 34238 >>, << 21772, 32195 >>, << 29374, 23924 >>, << 32990, 45566 >>, << 39900, 1703 >>, << 49563, 61812 >>,
         << 58523, 27073 >>, << 61374, 18310 >>, << 4033, 40390 >>, << 9228, 41420 >>, << 11753, 11375 >>, << 19060, 33962 >>, << 23728, 43484 >>, << 30457, 35034 >>,
         << 38974, 20818 >>, << 43057, 50797 >>, << 45059, 10184 >>, << 48985, 32711 >>, << 50912, 3059 >>, << 54695, 37191 >>, << 1738, 25425 >>, << 5161, 10599 >>,
         << 10167, 2693 >>, << 11803, 8504 >>, << 19756, 28156 >>, << 21304, 3347 >>, << 25866, 29524 >>, << 30314, 2747 >>, << 33218, 51502 >>, << 37490, 11397 >>,
         << 41663, 59553 >>, << 43034, 26187 >>, << 49739, 35696 >>, << 51052, 20899 >>, << 53650, 59417 >>, << 54937, 1572 >>, << 62478, 13701 >>, << 4202, 41072 >>,
         << 6564, 49430 >>, << 7735, 27656 >>, << 10056, 30540 >>, << 13488, 48309 >>, << 14620, 3251 >>, << 20184, 43594 >>, << 23452, 51791 >>, << 26670, 28659 >>,
         << 29839, 33518 >>, << 30885, 25455 >>, << 33992, 30740 >>, << 36039, 520 >>, << 37054, 65530 >>, << 42064, 27883 >>, << 48889, 41975 >>, << 50801, 30962 >> >>
ShaH == << << 27145, 58983 >>, << 47975, 44677 >>, << 15470, 62322 >>, << 42319, 62778 >>, << 20750, 21119 >>, << 39685, 26764 >>, << 8067, 55723 >>, << 23520, 52505 >> >>
WAdd(a, b) == LET l == a[2] + b[2] IN << (a[1] + b[1] + (l \div 65536)) % 65536, l % 65536 >>
WXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
WAnd(a, b) == << a[1] & b[1], a[2] & b[2] >>
WNot(a) == << 65535 - a[1], 65535 - a[2] >>
WShr(a, n) == LET p == 2 ^ n IN << a[1] \div p, (a[2] \div p) + (a[1] % p) * (2 ^ (16 - n)) >>      \* n < 16
WRot(a, n) ==
  IF n >= 16 THEN LET p == 2 ^ (n - 16) q == 2 ^ (32 - n) IN << (a[2] \div p) + (a[1] % p) * q, (a[1] \div p) + (a[2] % p) * q >>
  ELSE LET p == 2 ^ n q == 2 ^ (16 - n) IN << (a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q >>
X3(a, b, c_) == WXor(WXor(a, b), c_)
\* the message, padded to a multiple of 64 bytes
Padded(b_) == LET n == Len(b_) z == (119 - (n % 64)) % 64 IN
  b_ \o << 128 >> \o [i_ \in 1..z |-> 0] \o << 0, 0, 0, 0, 0, (n \div 8192) % 256 , (n \div 32) % 256, (n * 8) % 256 >>
WordAt(b_, i_) == << b_[i_] * 256 + b_[i_ + 1], b_[i_ + 2] * 256 + b_[i_ + 3] >>
Schedule(b_, at) ==
  FoldLeft(LAMBDA w_, t_ : Append(w_, WAdd(WAdd(X3(WRot(w_[t_-2], 17), WRot(w_[t_-2], 19), WShr(w_[t_-2], 10)), w_[t_-7]),
                                          WAdd(X3(WRot(w_[t_-15], 7), WRot(w_[t_-15], 18), WShr(w_[t_-15], 3)), w_[t_-16]))),
           [i_ \in 1..16 |-> WordAt(b_, at + 4 * (i_ - 1))], [i_ \in 1..48 |-> i_ + 16])
Round(s_, k_, w_) ==
  LET a == s_[1] b == s_[2] c_ == s_[3] e == s_[5] f == s_[6] g == s_[7]
      t1 == WAdd(WAdd(s_[8], X3(WRot(e, 6), WRot(e, 11), WRot(e, 25))), WAdd(WAdd(WXor(WAnd(e, f), WAnd(WNot(e), g)), k_), w_))
      t2 == WAdd(X3(WRot(a, 2), WRot(a, 13), WRot(a, 22)), X3(WAnd(a, b), WAnd(a, c_), WAnd(b, c_)))
  IN << WAdd(t1, t2), a, b, c_, WAdd(s_[4], t1), e, f, g >>
Compress(h_, b_, at) ==
  LET w_ == Schedule(b_, at) s_ == FoldLeft(LAMBDA x_, t_ : Round(x_, ShaK[t_], w_[t_]), h_, [i_ \in 1..64 |-> i_])
  IN [i_ \in 1..8 |-> WAdd(h_[i_], s_[i_])]
Sha256(b_) ==
  LET p_ == Padded(b_)
      h_ == FoldLeft(LAMBDA x_, j_ : Compress(x_, p_, 64 * j_ - 63), ShaH, [i_ \in 1..(Len(p_) \div 64) |-> i_])
  IN FoldLeft(LAMBDA o_, v_ : o_ \o << v_[1] \div 256, v_[1] % 256, v_[2] \div 256, v_[2] % 256 >>, << >>, h_)
=============================================================================
