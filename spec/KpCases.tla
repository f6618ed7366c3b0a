------------------------------- MODULE KpCases ------------------------------
(* Validation of key prints and verifications of the real code.               *)
EXTENDS Keyprint, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
Must(c_, w_) == IF c_ THEN {} ELSE {w_}
\* the first value of a parameter
RECURSIVE FirstOf(_, _)
FirstOf(ps, key) == IF ps = << >> THEN << >> ELSE IF ps[1].key = key THEN ps[1].val ELSE FirstOf(SubSeq(ps, 2, Len(ps)), key)
WrongBytes(C) == Must(C.text = Print256(C.data), "print of bytes") \cup Must(C.after = C.data, "bytes were changed")
WrongCert(C)  == Must(C.prints = Prints(C.chain), "prints of a chain") \cup Must(C.after = C.chain, "chain was changed")
WrongFile(C)  == LET e_ == OfFile(C.items, C.fails) IN
  Must(C.st = e_.st, "result of reading a file") \cup Must(e_.st # "ok" \/ C.prints = e_.l, "prints of a file")
WrongUrl(C) == Must(C.text = FirstOf(C.params, B("kp")), "key print in an address")
WrongTls(C) ==
  LET ps == Prints(C.chain) IN
  Must(C.prints = ps, "prints of a connection")
  \cup UNION {LET v_ == C.verify[i_] IN
              Must(v_.prints = ps, "prints returned by verification")
              \cup Must(v_.ok = Verify(ps, v_.kp), "verdict")
              \cup Must(v_.ok \/ (v_.typed /\ v_.expected = v_.kp /\ v_.actual = ps), "report of a mismatch") : i_ \in 1..Len(C.verify)}
Wrong(C) == CASE C.k = "bytes" -> WrongBytes(C) [] C.k = "cert" -> WrongCert(C) [] C.k = "file" -> WrongFile(C)
              [] C.k = "url" -> WrongUrl(C) [] C.k = "tls" -> WrongTls(C)
              [] OTHER -> {"panic"}
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
