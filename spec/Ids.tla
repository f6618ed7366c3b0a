--------------------------------- MODULE Ids --------------------------------
(* Identifiers and their texts: session identifiers (20 bits, four characters  *)
(* of base32), and client, private and hash identifiers (24 bytes, 39 characters). *)
EXTENDS AdcMsg

SidText(v_) == [i_ \in 1..4 |-> B32Chars[1 + ((v_ \div Pow2(5 * (4 - i_))) % 32)]]
SidVal(t_) == B32Val[t_[1]] * 32768 + B32Val[t_[2]] * 1024 + B32Val[t_[3]] * 32 + B32Val[t_[4]]
\* any four bytes are taken for a session identifier
SidOf(t_) == IF Len(t_) = 4 THEN OkV(t_) ELSE ErrV

HexDigit(n_) == IF n_ < 10 THEN 48 + n_ ELSE 87 + n_
Hex(b_) == MapBytes(b_, LAMBDA v_ : << HexDigit(v_ \div 16), HexDigit(v_ % 16) >>)
HashText(b_) == B32Enc(b_)
\* bits of the last character that carry nothing
LooseEnd(t_) == B32Enc(B32Dec(t_)) # t_
HashOf(t_) == IF Len(t_) # HashChars \/ ~IsB32(t_) THEN ErrV
              ELSE IF LooseEnd(t_) THEN Undef ELSE OkV(B32Dec(t_))
=============================================================================
