------------------------------- MODULE MCLock -------------------------------
(* All short locks over bytes that exercise every escape.                      *)
EXTENDS Lock, Json
CONSTANTS MaxLen, Emit
VARIABLES lock, magic, noext
vars == << lock, magic, noext >>
Bytes_ == {0, 5, 36, 47, 65, 71, 96, 124, 126, 200, 255}
Magics == {0, 5, 171, 255}
Init == lock = << >> /\ magic \in Magics /\ noext \in BOOLEAN
Next == Len(lock) < MaxLen /\ \E b_ \in Bytes_ : lock' = Append(lock, b_) /\ UNCHANGED << magic, noext >>
Spec == Init /\ [][Next]_vars
F == [NoExt |-> noext, Lock |-> lock, PK |-> << >>, Ref |-> << >>]
L == LockText(F, FALSE)
K == KeyFor(L, magic)
Free == \A i \in 1..Len(K) : K[i] \notin Reserved
\* the peer can undo the escapes, and the bytes determine the lock
RECURSIVE Undo(_)
Undo(k_) == IF k_ = << >> THEN << >>
            ELSE IF HasPrefix(k_, B("/%DCN")) /\ Len(k_) >= 10 /\ SubSeq(k_, 9, 10) = B("%/")
                 THEN << DecVal(SubSeq(k_, 6, 8)) >> \o Undo(From(k_, 11))
                 ELSE << k_[1] >> \o Undo(From(k_, 2))
RECURSIVE Recover(_, _, _)
Recover(raw, first, i) == IF i > Len(raw) THEN << >> ELSE
  LET b == IF i = 1 THEN first ELSE Swap(raw[i]) ^^ first IN << b >> \o Recover(raw, b, i + 1)
Answers == Len(L) >= 2 => /\ Undo(K) = Mixed(L, magic)
                          /\ Recover(Undo(K), L[1], 1) = L
                          /\ Swap(Undo(K)[1]) = ((L[1] ^^ L[Len(L)]) ^^ L[Len(L)-1]) ^^ magic
Short == Len(L) < 2 => K = << >>
Scenario == Emit /\ PrintT("SCEN " \o ToJson([lock |-> lock, magic |-> magic, noext |-> noext]))
Shown == Scenario \/ TRUE
=============================================================================
