----------------------------- MODULE InfoCases ------------------------------
(* Validation of answers recorded from the real code.                         *)
EXTENDS Info, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
HasPart(s_, p_) == \E i_ \in 0..(Len(s_) - Len(p_)) : SubSeq(s_, i_ + 1, i_ + Len(p_)) = p_
RECURSIVE LexLess(_, _)
LexLess(a_, b_) == b_ # << >> /\ (a_ = << >> \/ a_[1] < b_[1] \/ (a_[1] = b_[1] /\ LexLess(Tail(a_), Tail(b_))))
Sorted(l_) == \A i_ \in 1..(Len(l_) - 1) : LexLess(l_[i_], l_[i_ + 1])
Wrong(C) ==
  CASE C.k = "sta" ->
         (IF C.ok = IsOk(C.sev) THEN {} ELSE {"success"})
         \cup (IF C.rec = IsRecoverable(C.sev) THEN {} ELSE {"recoverable"})
         \cup (IF C.err = ErrKind(C.sev, C.code) THEN {} ELSE {"error"})
         \cup (IF C.err = "status" /\ ~(C.back = << C.sev, C.code, C.msg >> /\ HasPart(C.text, C.msg) /\ HasPart(C.text, C.num)) THEN {"what the error says"} ELSE {})
    [] C.k = "grp" ->
         (IF PlainName(C.name) => C.match = Matches(C.g, C.name) THEN {} ELSE {"match"})
    [] C.k = "bit" ->
         (IF C.is = HasBit(C.v, C.bit) THEN {} ELSE {"bit"})
    [] C.k = "norm" ->
         (IF << C.ap2, C.ve2 >> = Normal(C.ap, C.ve) THEN {} ELSE {"normalised"})
         \cup (IF << C.ap3, C.ve3 >> = Normal(C.ap2, C.ve2) THEN {} ELSE {"normalised again"})
         \cup (IF C.rest THEN {} ELSE {"other fields changed"})
    [] C.k = "chat" -> IF C.str = ChatText(C.name, C.text) THEN {} ELSE {"text"}
    [] C.k = "reg" ->
         (IF C.reg = Known(C.cmd) /\ C.regb = Known(C.cmd) THEN {} ELSE {"registered"})
         \cup (IF C.typ = C.cmd /\ C.raw = ~Known(C.cmd) THEN {} ELSE {"new message"})
    [] C.k = "regs" ->
         (IF SetOf(C.list) = KnownCmds /\ Sorted(C.list) THEN {} ELSE {"list of types"})
    [] C.k = "num" -> IF << C.name, C.val >> \in Nums THEN {} ELSE {"value"}
    [] C.k = "word" -> IF \E w_ \in Words : w_[1] = C.name /\ B(w_[2]) = C.val THEN {} ELSE {"value"}
    [] C.k = "consts" -> IF SetOf(C.list) = { w_[1] : w_ \in Nums } \cup { w_[1] : w_ \in Words } THEN {} ELSE {"names"}
    [] OTHER -> {"failed"}
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
