-------------------------------- MODULE MCAdc --------------------------------
(* All ADC messages over small domains of field values: what can be carried   *)
(* survives, as one line, and named parameters mean the same in any order and *)
(* among others.  The messages (and parameter lists) are also given to the    *)
(* implementation.                                                            *)
EXTENDS AdcMsg, Json
CONSTANTS MaxSet,    \* at most this many named fields are not zero
          MaxParts,  \* parameter lists of at most this many parameters
          Emit

VARIABLE msg

T == { << >>, B("a"), B("a b"), << BSL >>, << BSL, 115 >>, << BSL, SP >>, << LF, BSL, BSL >>, B("ME1"), << 208, 150, 255, 0 >> }
T2 == { B("a"), << SP, BSL, 110 >>, B("ID") }
H1 == [i_ \in 1..24 |-> i_ * 10]
S1 == B("AAAB")
Dom(kind) ==   \* sequences, as the values are of different kinds
  CASE kind = "str" -> SetToSeq(T)
    [] kind = "int" -> << B("0"), B("1"), B("-20"), MaxI64 >>
    [] kind \in {"i16", "i32"} -> << B("0"), MaxOf[kind], << 45 >> \o MinAbsOf[kind] >>
    [] kind \in {"u16", "u32", "u64"} -> << B("0"), MaxOf[kind] >>
    [] kind = "u32p" -> << << >>, << B("0") >> >>
    [] kind = "i16s" -> << << >>, << B("1"), B("-1"), B("0") >> >>
    [] kind \in {"bool", "bint"} -> << FALSE, TRUE >>
    [] kind = "sid" -> << S1, B("777A"), Zeros(4) >>
    [] kind = "sidp" -> << << >>, << S1 >> >>
    [] kind \in {"cid", "hash"} -> << H1, Zeros(24), [i_ \in 1..24 |-> 255] >>
    [] kind \in {"cidp", "hashp"} -> << << >>, << H1 >>, << Zeros(24) >> >>
    [] kind = "strs" -> << << >>, << B("a") >>, << << >>, B("a b") >>, << << BSL, 110 >>, B("x"), B("x") >> >>
    [] kind = "ints" -> << << >>, << B("1"), B("-1"), B("0") >> >>
    [] kind = "strp" -> << << >>, << B("a b") >> >>
    [] kind = "intp" -> << << >>, << B("0") >>, << B("-7") >> >>
    [] kind = "feas" -> << << >>, << B("TCP4") >>, << B("TCP4"), B("+-12") >> >>
    [] kind = "path" -> << << << >> >>, << B("a"), << >>, B("b c") >>, << << BSL, 115 >> >> >>

Kinds == {"str", "int", "bool", "bint", "sid", "sidp", "cid", "hash", "cidp", "hashp", "strs", "ints", "strp", "intp", "feas", "path",
          "i16", "i32", "u16", "u32", "u64", "u32p", "i16s"}
DomOf == TLCEval([kind \in Kinds |-> Dom(kind)])
Named(t_) == {i_ \in 1..Len(Schema[t_]) : Schema[t_][i_].tag # << >>}
PosIdx(t_) == {i_ \in 1..Len(Schema[t_]) : Schema[t_][i_].tag = << >>}
\* a few fields are set at a time
TableMsgs(t_) ==
  LET sch == Schema[t_]
      names == {sch[i_].name : i_ \in 1..Len(sch)}
      idx(nm) == CHOOSE i_ \in 1..Len(sch) : sch[i_].name = nm
      k == IF Cardinality(Named(t_)) > 12 THEN MaxSet - 1 ELSE MaxSet
      sets == { {} } \cup UNION { { SetOf(x) : x \in [1..j_ -> Named(t_)] } : j_ \in 1..k }
  IN UNION { { [nm \in names |-> IF idx(nm) \in DOMAIN v THEN DomOf[sch[idx(nm)].kind][v[idx(nm)]] ELSE Zero(sch[idx(nm)].kind)] :
               v \in {f \in [SS \cup PosIdx(t_) -> 1..9] : \A i_ \in DOMAIN f : f[i_] <= Len(DomOf[sch[i_].kind])} } : SS \in sets }
Msgs(t_) ==
  CASE t_ \in TableTypes -> TableMsgs(t_)
    [] t_ \in NoArgs -> { << >> }
    [] t_ = "SIDAssign" -> [SID : {S1, B("7777")}]
    [] t_ = "GetPassword" -> [Salt : { << >>, << 0 >>, << 1, 255 >>, [i_ \in 1..3 |-> 7 * i_], [i_ \in 1..4 |-> 255], [i_ \in 1..5 |-> 32 * i_], H1 }]
    [] t_ \in {"GetRequest", "GetResponse"} -> [Type : {B("file"), << >>}, Path : T, Start : {B("0"), MaxI64}, Bytes : {B("-1"), B("5")}, Compressed : BOOLEAN]
    [] t_ = "Status" -> [Sev : {B("0"), B("1"), B("2"), B("10")}, Code : {B("0"), B("7"), B("40"), B("99")}, Msg : T]
    [] t_ = "Supported" -> [Features : { << >>, << << B("BASE"), TRUE >> >>, << << B("BASE"), FALSE >>, << B("TIGR"), TRUE >> >> }]
    [] t_ = "UserInfoMod" -> Seqs2([Tag : {B("NI"), << BSL, BSL >>, B("SS")}, Value : {<< >>, B("a b"), << BSL >>}], 2)

\* parameter lists, as other software may send them
Frag(t_) ==
  CASE t_ = "ChatMessage" -> { B("hi"), B("PMAAAB"), B("PM"), B("PMA"), B("ME1"), B("ME0"), B("ME"), B("MEx"), B("TS1.0"), B("TSx"), B("XX1"), << >> }
    [] t_ = "Disconnect" -> { B("AAAB"), B("IDAAAC"), B("ID"), B("TL-1"), B("MSa"), << 77, 83, BSL, 115 >>, B("DI1"), << >> }
    [] t_ = "ConnectRequest" -> { B("ADC/1.0"), B("3000"), B("30.5"), B("x"), B("123"), << >> }
    [] t_ = "SearchRequest" -> { B("ANa"), B("AN"), B("NOb"), B("EXc"), B("TO1"), B("GE1e3"), B("LEx"), B("TR") \o B32Enc(H1), B("TRAB"), B("TR") }
    [] t_ = "UserInfo" -> { B("NIa"), B("NI"), B("SS1"), B("SUTCP4"), B("SUTCP4,UDP4"), B("SU,"), B("SU"), B("ID") \o B32Enc(H1), B("ID"), B("HN1"), B("PD") }
    [] t_ = "UserCommand" -> { B("a/b"), B("/"), B("TTx"), B("CT3"), B("RM1"), B("RM"), B("SPx"), << >> }
    [] t_ = "GetRequest" -> { B("file"), B("0"), B("-1"), B("ZL1"), B("ZL0"), B("ZL"), B("RE1"), << >> }
    [] t_ = "Status" -> { B("0"), B("000"), B("140"), B("1405"), B("x"), B("a"), << BSL, 115 >>, << >> }
    [] t_ = "Supported" -> { B("ADBASE"), B("RMBASE"), B("ADTIGR"), B("RMTIGR"), B("AD"), B("ADBAS"), B("BASE") }
    [] t_ = "Custom" -> { B("a"), B("1"), B("0"), B("PSx"), B("PS"), B("PI0"), B("IL1"), B("IL"), B("ILx"), B("DIa/b"), B("ON1"), B("ON"), B("FEBASE"), B("FE,"), B("RQ1") }
FragTypes == {"ChatMessage", "Disconnect", "ConnectRequest", "SearchRequest", "UserInfo", "UserCommand", "GetRequest", "Status", "Supported", "Custom"}
MinParts(t_) == CASE t_ = "GetRequest" -> 4 [] t_ = "Custom" -> 2 [] OTHER -> 0

Init == msg \in { << t_ >> : t_ \in MsgTypes }
Next == /\ Len(msg) = 1
        /\ \/ \E f \in Msgs(msg[1]) :
                /\ msg' = << msg[1], "f", f >>
                /\ Emit => PrintT("SCEN " \o ToJson([k |-> "rt", t |-> msg[1], f |-> f]))
           \/ /\ msg[1] \in FragTypes
              /\ \E ps \in UNION { [1..k -> Frag(msg[1])] : k \in 1..(MaxParts + (IF MinParts(msg[1]) > 2 THEN 2 ELSE 0)) } :
                   /\ Len(ps) >= MinParts(msg[1])
                   /\ msg' = << msg[1], "b", ps >>
                   /\ Emit => PrintT("SCEN " \o ToJson([k |-> "body", t |-> msg[1], b |-> JoinSep(ps, << SP >>)]))
Spec == Init /\ [][Next]_msg

IsMsg == Len(msg) = 3 /\ msg[2] = "f"
IsBody == Len(msg) = 3 /\ msg[2] = "b"

\* C14
RoundTrip ==
  IsMsg /\ Rep(msg[1], msg[3]) =>
    LET w == WireOf(msg[1], msg[3]) d == Read(msg[1], w) IN
    ~HasByte(w, LF) /\ d.st = "ok" /\ d.v = Meaning(msg[1], msg[3])
ASSUME TextSurvives == \A a \in T : Unescape(Escape(a)) = a /\ ~HasByte(Escape(a), SP) /\ ~HasByte(Escape(a), LF)

\* C15: the order of differently named parameters and unknown ones do not matter
Swap(ps, i_) == [j_ \in 1..Len(ps) |-> IF j_ = i_ THEN ps[i_ + 1] ELSE IF j_ = i_ + 1 THEN ps[i_] ELSE ps[j_]]
Tag2(p_) == IF Len(p_) < 2 THEN p_ ELSE Upto(p_, 2)
Body(ps) == JoinSep(ps, << SP >>)
OrderFree ==
  LET t_ == msg[1] IN
  IsBody /\ t_ \in TableTypes =>
    LET ps == msg[3] np == Len(Positional(t_)) d == Read(t_, Body(ps)) IN
    /\ \A i_ \in (np + 1)..(Len(ps) - 1) : Tag2(ps[i_]) # Tag2(ps[i_ + 1]) => Read(t_, Body(Swap(ps, i_))) = d
    /\ \A i_ \in np..Len(ps) : np <= Len(ps) =>
         Read(t_, Body(Upto(ps, i_) \o << B("ZZz") >> \o From(ps, i_ + 1))) = (IF ps = << << >> >> THEN Read(t_, << >>) ELSE d)
    \* what was understood can be sent on
    /\ d.st = "ok" /\ Rep(t_, d.v) => LET d2 == Read(t_, WireOf(t_, d.v)) IN d2.st = "ok" /\ d2.v = d.v
=============================================================================
