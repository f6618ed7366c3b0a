------------------------------ MODULE LockCases -----------------------------
(* Validation of keys computed by the real code.                              *)
EXTENDS Lock, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
KeyOk(C, r, text, magic) ==
  /\ r.st = "ok" /\ r.key = KeyFor(text, magic)
  \* and as a message
  /\ r.wire = FrameOf(B("Key"), r.key) /\ r.back = r.key
Wrong(C) ==
  LET short == LockText(C.f, FALSE) full == LockText(C.f, TRUE) IN
  (IF C.short.st = "ok" /\ C.short.text = short THEN {} ELSE {"lock text"})
  \cup (IF C.full.st = "ok" /\ C.full.text = full THEN {} ELSE {"full lock text"})
  \cup (IF KeyOk(C, C.def, short, 5) THEN {} ELSE {"key"})
  \cup (IF KeyOk(C, C.short, short, C.magic) THEN {} ELSE {"custom key"})
  \cup (IF KeyOk(C, C.full, full, C.magic) THEN {} ELSE {"key of the full lock"})
  \cup (IF C.after = C.f THEN {} ELSE {"the lock was changed"})
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
