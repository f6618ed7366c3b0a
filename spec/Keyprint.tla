------------------------------ MODULE Keyprint ------------------------------
(* Key prints: digests of certificates as announced in addresses, and their     *)
(* verification on a connection.                                              *)
EXTENDS AdcMsg, Sha256

Print256(cert) == B("SHA256/") \o B32Enc(Sha256(cert))
Prints(chain) == MapSeq(chain, Print256)
\* A file is a sequence of items: blocks of some type, and other text around them.
Certs(items) == MapSeq(SelectSeq(items, LAMBDA x : x.type = B("CERTIFICATE")), LAMBDA x : x.data)
\* what reading a file gives
OfFile(items, fails) ==
  IF fails \/ Certs(items) = << >> THEN [st |-> "err", l |-> << >>] ELSE [st |-> "ok", l |-> Prints(Certs(items))]
\* verification of the chain a peer has presented
Verify(prints, kp) == \E i_ \in 1..Len(prints) : prints[i_] = kp
=============================================================================
