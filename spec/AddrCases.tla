----------------------------- MODULE AddrCases ------------------------------
(* Validation of addresses parsed and normalised by the real code.             *)
EXTENDS Addr, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Cases)
VARIABLE tc
Must(c_, w_) == IF c_ THEN {} ELSE {w_}
HexV(c_) == IF c_ \in 48..57 THEN c_ - 48 ELSE IF c_ \in 65..70 THEN c_ - 55 ELSE c_ - 87
RECURSIVE Unesc(_)
Unesc(t_) == IF t_ = << >> THEN << >>
             ELSE IF t_[1] = APct THEN << 16 * HexV(t_[2]) + HexV(t_[3]) >> \o Unesc(SubSeq(t_, 4, Len(t_)))
             ELSE << t_[1] >> \o Unesc(SubSeq(t_, 2, Len(t_)))
\* the parts of a parsed address
Meant(r_, a) ==
  /\ << r_.scheme >> = a.scheme
  /\ r_.user = a.user
  /\ r_.host = a.host \o Opt(<< AColon >>, a.port, << >>)
  /\ r_.path = a.path /\ r_.rawpath = Unesc(a.path)
  /\ << r_.query >> = (IF a.query = << >> THEN << << >> >> ELSE a.query)
  /\ << r_.frag >> = (IF a.frag = << >> THEN << << >> >> ELSE a.frag)
\* net/url does not read all zones it writes
Plain(a) == a.host = << >> \/ a.host[1] # AOpen \/ Over(a.host, AName \cup {AOpen, AClose, AColon, APct})
WrongKind(r_, a, kind_) ==
  LET st_ == NormSt(a, kind_) ps_ == ParseSt(a, kind_) IN
  Must(r_.norm.st # "panic" /\ r_.parse.st # "panic", kind_ \o ": panic")
  \cup Must(st_ = "any" \/ r_.norm.st = st_, kind_ \o ": verdict of normalising")
  \cup Must(ps_ = "any" \/ r_.parse.st = ps_, kind_ \o ": verdict of parsing")
  \cup Must(st_ # "ok" \/ ~Sure(a) \/ r_.norm.st # "ok" \/ r_.norm.text = Join(CanonAddr(a, kind_)), kind_ \o ": canonical form")
  \cup Must(ps_ # "ok" \/ ~Sure(a) \/ r_.parse.st # "ok" \/ Meant(r_.parse, CanonAddr(a, kind_)), kind_ \o ": parts")
  \* whatever the address: the canonical form is that of itself, and means the same
  \cup Must(r_.norm.st # "ok" \/ ~Plain(a) \/ (r_.again.st = "ok" /\ r_.again.text = r_.norm.text), kind_ \o ": not idempotent")
  \cup Must(r_.norm.st # "ok" \/ ~Plain(a) \/ r_.reparse = r_.parse, kind_ \o ": meaning changed")
Wrong(C) == LET a == Split(C.text) IN WrongKind(C.dc, a, "dc") \cup WrongKind(C.nmdc, a, "nmdc") \cup WrongKind(C.adc, a, "adc")
            \cup Must(Join(a) = C.text, "harness: text") \cup Must(~C.model \/ NormSt(a, "dc") # "any", "harness: domain")
Init == tc = 1
Next == /\ tc <= N
        /\ LET w == Wrong(Cases[tc]) IN
           IF w = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([case |-> tc, id |-> Cases[tc].id, wrong |-> w]))
        /\ tc' = tc + 1
        /\ IF tc = N THEN PrintT("DONE " \o ToString(N)) ELSE TRUE
Spec == Init /\ [][Next]_tc
=============================================================================
