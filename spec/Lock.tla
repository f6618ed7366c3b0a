-------------------------------- MODULE Lock --------------------------------
(* The challenge of the NMDC handshake and the key that answers it.           *)
EXTENDS NmdcMsg

\* bytes that must not appear on the wire inside a key
Reserved == {0, 5, 36, 96, 124, 126}
Esc(v_) == B("/%DCN") \o << 48 + (v_ \div 100), 48 + ((v_ \div 10) % 10), 48 + (v_ % 10) >> \o B("%/")
Swap(v_) == (v_ % 16) * 16 + (v_ \div 16)
\* what the key is computed from: the lock as it was on the wire
LockText(f, full) ==
  IF full THEN Encode("utf8", "Lock", f).v ELSE (IF f.NoExt THEN << >> ELSE ExtLock) \o f.Lock
\* each byte is mixed with the one before it, the first with the last two and a constant
Mixed(l_, magic) ==
  LET n == Len(l_) IN
  [i_ \in 1..n |-> Swap(IF i_ = 1 THEN ((l_[1] ^^ l_[n]) ^^ l_[n-1]) ^^ magic ELSE l_[i_] ^^ l_[i_-1])]
KeyFor(l_, magic) ==
  IF Len(l_) < 2 THEN << >> ELSE MapBytes(Mixed(l_, magic), LAMBDA v_ : IF v_ \in Reserved THEN Esc(v_) ELSE << v_ >>)
=============================================================================
