------------------------------- MODULE AdcMsg -------------------------------
(* Messages of the ADC protocol: what each is encoded as and what a received  *)
(* parameter list means.  A message is a record of its fields; absent pointers *)
(* and lists are << >>, pointers to a value << value >>, numbers their decimal *)
(* form.  Results are "ok" with a value, "err", or "undef" where neither the   *)
(* protocol nor the library's documentation settles the outcome.              *)
EXTENDS Bytes

OkV(v) == [st |-> "ok", v |-> v]
ErrV   == [st |-> "err", v |-> << >>]
Undef  == [st |-> "undef", v |-> << >>]
Seqs2(S, k) == UNION { [1..j -> S] : j \in 0..k }

\* --- text ------------------------------------------------------------------
BSL == 92
Escape(txt) == MapBytes(txt, LAMBDA ch_ : CASE ch_ = BSL -> << BSL, BSL >>
                                        [] ch_ = SP  -> << BSL, 115 >>
                                        [] ch_ = LF  -> << BSL, 110 >>
                                        [] OTHER     -> << ch_ >>)
RECURSIVE UnescFrom(_, _)
UnescFrom(txt, i_) ==
  IF i_ > Len(txt) THEN << >>
  ELSE IF txt[i_] = BSL /\ i_ < Len(txt) /\ txt[i_ + 1] \in {BSL, 115, 110}
       THEN << CASE txt[i_ + 1] = BSL -> BSL [] txt[i_ + 1] = 115 -> SP [] OTHER -> LF >> \o UnescFrom(txt, i_ + 2)
       ELSE << txt[i_] >> \o UnescFrom(txt, i_ + 1)
Unescape(txt) == IF HasByte(txt, BSL) THEN UnescFrom(txt, 1) ELSE txt

\* --- base32 -----------------------------------------------------------------
B32Chars == TLCEval(B("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"))
B32Val   == TLCEval([ch_ \in SetOf(B32Chars) |-> (CHOOSE i_ \in 1..32 : B32Chars[i_] = ch_) - 1])
IsB32(s_) == \A i_ \in 1..Len(s_) : s_[i_] \in DOMAIN B32Val
EncLen(k) == (8 * k + 4) \div 5          \* characters for k bytes
DecLen(k) == (5 * k) \div 8              \* bytes in k characters
Pow2(k) == 2 ^ k
B32Dec(s_) ==
  LET g(i_) == IF i_ < Len(s_) THEN B32Val[s_[i_ + 1]] ELSE 0
  IN [j_ \in 1..DecLen(Len(s_)) |->
        LET p == 8 * (j_ - 1) q == p \div 5 o == p % 5
        IN ((g(q) * 1024 + g(q + 1) * 32 + g(q + 2)) \div Pow2(7 - o)) % 256]
B32Enc(b_) ==
  LET y(i_) == IF i_ < Len(b_) THEN b_[i_ + 1] ELSE 0
  IN [j_ \in 1..EncLen(Len(b_)) |->
        LET p == 5 * (j_ - 1) q == p \div 8 o == p % 8
        IN B32Chars[1 + (((y(q) * 256 + y(q + 1)) \div Pow2(11 - o)) % 32)]]
HashChars == 39
HashBytes == 24
Zeros(k) == [i_ \in 1..k |-> 0]

\* --- single values ---------------------------------------------------------
Signed(neg, digits) == IF neg /\ digits # << 48 >> THEN << 45 >> \o digits ELSE digits
Unsign(s_) == IF s_ # << >> /\ s_[1] \in {43, 45} THEN Tail(s_) ELSE s_
\* a decimal fraction or a number with an exponent stands for an integer if it is one
ReadFloat(neg, r) ==
  LET e == IF HasByte(r, 101) THEN FindByte(r, 101) ELSE FindByte(r, 69)
      mant == IF e = 0 THEN r ELSE Upto(r, e - 1)
      expo == IF e = 0 THEN << 48 >> ELSE From(r, e + 1)
      eneg == expo # << >> /\ expo[1] = 45
      ed == Unsign(expo)
      dot == FindByte(mant, 46)
      ip == IF dot = 0 THEN mant ELSE Upto(mant, dot - 1)
      fp == IF dot = 0 THEN << >> ELSE From(mant, dot + 1)
      all == TrimLeft(ip \o fp, {48})
      d == TrimRight(all, {48})
  IN IF ~(ip \o fp # << >> /\ AllDigits(ip \o fp) /\ ed # << >> /\ AllDigits(ed)) THEN ErrV
     ELSE IF d = << >> THEN OkV(<< 48 >>)
     ELSE IF Len(Canon(ed)) > 3 THEN Undef
     ELSE LET x == (IF eneg THEN -DecVal(ed) ELSE DecVal(ed)) - Len(fp) + (Len(all) - Len(d)) IN
          IF x < 0 THEN (IF Len(d) <= 15 /\ x > -300 THEN ErrV ELSE Undef)
          ELSE IF Len(d) + x >= 20 THEN ErrV
          ELSE IF Len(d) + x <= 15 THEN OkV(Signed(neg, d \o [i_ \in 1..x |-> 48]))
          ELSE Undef
ReadInt64(s_) ==
  LET neg == s_ # << >> /\ s_[1] = 45
      r == Unsign(s_)
      v == Canon(r)
  IN IF r # << >> /\ AllDigits(r)
     THEN IF DecLeq(v, IF neg THEN MinI64Abs ELSE MaxI64) THEN OkV(Signed(neg, v)) ELSE ErrV
     ELSE ErrV
ReadInt(s_) ==
  LET neg == s_ # << >> /\ s_[1] = 45
      r == Unsign(s_)
  IN IF r # << >> /\ AllDigits(r)
     THEN (IF neg /\ DecLess(MinI64Abs, Canon(r)) THEN Undef ELSE ReadInt64(s_))
     ELSE IF Len(r) >= 2 /\ r[1] = 48 /\ r[2] \in {120, 88} THEN Undef
     ELSE IF HasByte(r, 95) THEN Undef
     ELSE IF r = << >> THEN ErrV
     ELSE ReadFloat(neg, r)
\* numbers of other sizes
MaxOf == TLCEval([i16 |-> B("32767"), i32 |-> B("2147483647"), u16 |-> B("65535"), u32 |-> B("4294967295"), u64 |-> B("18446744073709551615")])
MinAbsOf == TLCEval([i16 |-> B("32768"), i32 |-> B("2147483648")])
ReadNum(kind, s_) ==
  IF kind \in {"u16", "u32", "u64"}
  THEN IF s_ # << >> /\ AllDigits(s_) THEN (IF DecLeq(Canon(s_), MaxOf[kind]) THEN OkV(Canon(s_)) ELSE ErrV)
       ELSE IF HasByte(s_, 46) \/ HasByte(s_, 101) \/ HasByte(s_, 69) THEN Undef ELSE ErrV
  ELSE LET r == ReadInt(s_) IN
       IF r.st # "ok" THEN r
       ELSE IF DecLeq(Unsign(r.v), IF r.v[1] = 45 THEN MinAbsOf[kind] ELSE MaxOf[kind]) THEN r ELSE ErrV
ReadBool(s_) == CASE s_ = << 48 >> -> OkV(FALSE) [] s_ = << 49 >> -> OkV(TRUE) [] OTHER -> ErrV
ReadSID(s_)  == IF Len(s_) = 4 THEN OkV(s_) ELSE ErrV
ReadHash(s_) == IF Len(s_) = HashChars /\ IsB32(s_) THEN OkV(B32Dec(s_)) ELSE ErrV
ReadFea(s_)  == IF Len(s_) = 4 THEN OkV(s_) ELSE ErrV

\* results of a sequence of readings
AllOf(rs) ==
  IF \E i_ \in 1..Len(rs) : rs[i_].st = "err" THEN ErrV
  ELSE IF \E i_ \in 1..Len(rs) : rs[i_].st = "undef" THEN Undef
  ELSE OkV([i_ \in 1..Len(rs) |-> rs[i_].v])
ReadSeq(s_, Op(_)) == AllOf([i_ \in 1..Len(s_) |-> Op(s_[i_])])
Opt1(s_, r) == IF s_ = << >> THEN OkV(<< >>) ELSE IF r.st = "ok" THEN OkV(<< r.v >>) ELSE r

ReadFeas(s_) == IF s_ = << >> THEN OkV(<< >>) ELSE ReadSeq(SplitByte(s_, 44), ReadFea)
ReadPath(s_) == OkV(MapSeq(SplitByte(s_, 47), Unescape))

\* --- kinds of fields -------------------------------------------------------
ListKinds == {"strs", "ints", "i16s"}
NumKinds == {"int", "i16", "i32", "u16", "u32", "u64"}
Zero(kind) ==
  CASE kind \in NumKinds -> << 48 >>
    [] kind \in {"bool", "bint"} -> FALSE
    [] kind = "sid" -> Zeros(4)
    [] kind \in {"cid", "hash"} -> Zeros(HashBytes)
    [] OTHER -> << >>
ReadVal(kind, s_) ==
  CASE kind = "str"  -> OkV(Unescape(s_))
    [] kind = "int"  -> IF s_ = << >> THEN OkV(<< 48 >>) ELSE ReadInt(s_)
    [] kind \in NumKinds -> IF s_ = << >> THEN OkV(<< 48 >>) ELSE ReadNum(kind, s_)
    [] kind = "bool" -> IF s_ = << >> THEN OkV(FALSE) ELSE ReadBool(s_)
    [] kind = "bint" -> ReadBool(s_)
    [] kind = "sid"  -> ReadSID(s_)
    [] kind = "sidp" -> Opt1(s_, ReadSID(s_))
    [] kind \in {"cid", "hash"} -> ReadHash(s_)
    [] kind \in {"cidp", "hashp"} -> Opt1(s_, ReadHash(s_))
    [] kind = "strp" -> Opt1(s_, OkV(Unescape(s_)))
    [] kind = "intp" -> Opt1(s_, ReadInt(s_))
    [] kind = "u32p" -> Opt1(s_, ReadNum("u32", s_))
    [] kind = "feas" -> ReadFeas(s_)
    [] kind = "path" -> ReadPath(s_)
ReadList(kind, ss) == ReadSeq(ss, LAMBDA s_ : ReadVal(CASE kind = "strs" -> "str" [] kind = "ints" -> "int" [] kind = "i16s" -> "i16", s_))

WriteVal(kind, v) ==
  CASE kind = "str" -> Escape(v)
    [] kind \in NumKinds -> v
    [] kind \in {"bool", "bint"} -> IF v THEN << 49 >> ELSE << 48 >>
    [] kind = "sid" -> v
    [] kind = "sidp" -> v[1]
    [] kind \in {"cid", "hash"} -> B32Enc(v)
    [] kind \in {"cidp", "hashp"} -> B32Enc(v[1])
    [] kind = "strp" -> Escape(v[1])
    [] kind \in {"intp", "u32p"} -> v[1]
    [] kind = "feas" -> JoinSep(v, << 44 >>)
    [] kind = "path" -> JoinSep(MapSeq(v, Escape), << 47 >>)

\* what can be carried by the protocol
Printable4(v) == ~HasByte(v, SP) /\ ~HasByte(v, LF)
ValRep(kind, v) ==
  CASE kind \in {"sid"} -> Printable4(v)
    [] kind = "sidp" -> v = << >> \/ Printable4(v[1])
    [] kind = "strp" -> v = << >> \/ v[1] # << >>
    [] kind = "feas" -> \A i_ \in 1..Len(v) : Printable4(v[i_]) /\ ~HasByte(v[i_], 44)
    [] kind = "path" -> v # << >> /\ \A i_ \in 1..Len(v) : ~HasByte(v[i_], 47)
    [] OTHER -> TRUE

\* --- message types ---------------------------------------------------------
F(name, tag, kind) == [name |-> name, tag |-> B(tag), kind |-> kind, req |-> FALSE]
Q(name, tag, kind) == [name |-> name, tag |-> B(tag), kind |-> kind, req |-> TRUE]
P(name, kind)      == [name |-> name, tag |-> << >>, kind |-> kind, req |-> TRUE]

Table ==
  [ ChatMessage |-> << P("Text", "str"), F("PM", "PM", "sidp"), F("Me", "ME", "bool"), F("TS", "TS", "int") >>,
    RevConnectRequest |-> << P("Proto", "str"), P("Token", "str") >>,
    ConnectRequest |-> << P("Proto", "str"), P("Port", "int"), P("Token", "str") >>,
    GetInfoRequest |-> << P("Type", "str"), P("Path", "str") >>,
    UserCommand |-> << P("Path", "path"), F("Command", "TT", "str"), F("Category", "CT", "int"), F("Remove", "RM", "int"),
                       F("Constrained", "CO", "int"), F("Separator", "SP", "int") >>,
    Password |-> << P("Hash", "hash") >>,
    Disconnect |-> << P("ID", "sid"), F("Message", "MS", "str"), F("By", "ID", "sid"), F("Duration", "TL", "int"), F("Redirect", "RD", "str") >>,
    SearchRequest |-> << F("Token", "TO", "str"), F("And", "AN", "strs"), F("Not", "NO", "strs"), F("Ext", "EX", "strs"),
                         F("Le", "LE", "int"), F("Ge", "GE", "int"), F("Eq", "EQ", "int"), F("Type", "TY", "int"),
                         F("TTH", "TR", "hashp"), F("Group", "GR", "int"), F("NoExt", "RX", "strs") >>,
    SearchResult |-> << F("Token", "TO", "str"), F("Path", "FN", "str"), F("Size", "SI", "int"), F("Slots", "SL", "int"), F("TTH", "TR", "hashp") >>,
    UserInfo |-> << F("Id", "ID", "cid"), F("Pid", "PD", "cidp"), Q("Name", "NI", "str"), F("Ip4", "I4", "str"), F("Ip6", "I6", "str"),
                    F("Udp4", "U4", "int"), F("Udp6", "U6", "int"), Q("ShareSize", "SS", "int"), Q("ShareFiles", "SF", "int"),
                    Q("Version", "VE", "str"), F("Application", "AP", "str"), F("MaxUpload", "US", "str"), F("MaxDownload", "DS", "str"),
                    Q("Slots", "SL", "int"), Q("SlotsFree", "FS", "int"), F("AutoSlotLimit", "AS", "int"), F("Email", "EM", "str"),
                    F("Desc", "DE", "str"), Q("HubsNormal", "HN", "int"), Q("HubsRegistered", "HR", "int"), Q("HubsOperator", "HO", "int"),
                    F("Token", "TO", "str"), F("Type", "CT", "int"), F("Away", "AW", "int"), F("Ref", "RF", "str"),
                    Q("Features", "SU", "feas"), F("KP", "KP", "str"), F("Address", "EA", "str") >>,
    HubInfo |-> << Q("Name", "NI", "str"), Q("Version", "VE", "str"), F("Application", "AP", "str"), F("Desc", "DE", "str"), F("Type", "CT", "int"),
                   F("Address", "HH", "str"), F("Website", "WS", "str"), F("Network", "NE", "str"), F("Owner", "OW", "str"), F("Users", "UC", "int"),
                   F("Share", "SS", "int"), F("Files", "SF", "int"), F("MinShare", "MS", "int"), F("MaxShare", "XS", "int"), F("MinSlots", "ML", "int"),
                   F("MaxSlots", "XL", "int"), F("UsersLimit", "MC", "int"), F("Uptime", "UP", "int"), F("MaxHubsUser", "XU", "int"),
                   F("MaxHubsReg", "XR", "int"), F("MaxHubsOp", "XO", "int") >>,
    \* a message of the user with fields of other kinds
    Custom |-> << P("A", "str"), P("N", "bint"), F("S", "PS", "strp"), F("I", "PI", "intp"), F("L", "IL", "ints"), F("Dir", "DI", "path"),
                  F("On", "ON", "bint"), F("T", "TH", "hash"), F("Fea", "FE", "feas"), Q("R", "RQ", "bool"),
                  F("H", "JH", "i16"), F("W", "JW", "i32"), F("Q", "JQ", "int"), F("UH", "KH", "u16"), F("UW", "KW", "u32"), F("UQ", "KQ", "u64"),
                  F("U", "KU", "u64"), F("PW", "KP", "u32p"), F("LW", "LH", "i16s") >>,
    Plugin |-> << P("A", "str"), F("B", "BB", "int"), Q("C", "CC", "str") >> ]
TableTypes == DOMAIN Table
Schema == TLCEval([t_ \in TableTypes |-> Table[t_]])
NoArgs == {"ZOn", "ZOff"}
Commands == [ ChatMessage |-> "MSG", RevConnectRequest |-> "RCM", ConnectRequest |-> "CTM", GetInfoRequest |-> "GFI", UserCommand |-> "CMD",
              Password |-> "PAS", Disconnect |-> "QUI", SearchRequest |-> "SCH", SearchResult |-> "RES", UserInfo |-> "INF", HubInfo |-> "INF",
              Custom |-> "XYZ", Plugin |-> "PLG", UserInfoMod |-> "INF", Supported |-> "SUP", Status |-> "STA", ZOn |-> "ZON", ZOff |-> "ZOF", SIDAssign |-> "SID",
              GetPassword |-> "GPA", GetRequest |-> "GET", GetResponse |-> "SND" ]
CmdOfType == TLCEval([t_ \in DOMAIN Commands |-> B(Commands[t_])])
MsgTypes == DOMAIN Commands
\* what a decoder that only knows the command makes of it
Registered == MsgTypes \ {"HubInfo", "Custom", "UserInfoMod"}
RegOf == TLCEval([k \in {CmdOfType[t_] : t_ \in Registered} |-> CHOOSE t_ \in Registered : CmdOfType[t_] = k])

\* --- encoding ---------------------------------------------------------------
Parts(t_, f) ==
  LET field(x) ==
        IF x.kind \in ListKinds
        THEN MapSeq(f[x.name], LAMBDA v : x.tag \o (IF x.kind = "strs" THEN Escape(v) ELSE v))
        ELSE IF ~x.req /\ f[x.name] = Zero(x.kind) THEN << >>
        ELSE << x.tag \o WriteVal(x.kind, f[x.name]) >>
  IN Flatten([i_ \in 1..Len(Schema[t_]) |-> field(Schema[t_][i_])])
AdMark == TLCEval(B("AD"))
RmMark == TLCEval(B("RM"))
FeaParts(fs) == MapSeq(fs, LAMBDA e : (IF e[2] THEN AdMark ELSE RmMark) \o e[1])
ZL1 == TLCEval(B("ZL1"))
ZL0 == TLCEval(B("ZL0"))
ZLp == TLCEval(B("ZL"))
Code2(v) == IF Len(v) = 1 THEN << 48 >> \o v ELSE v

WireOf(t_, f) ==
  CASE t_ \in TableTypes -> JoinSep(Parts(t_, f), << SP >>)
    [] t_ \in NoArgs -> << >>
    [] t_ = "SIDAssign" -> f.SID
    [] t_ = "GetPassword" -> B32Enc(f.Salt)
    [] t_ \in {"GetRequest", "GetResponse"} ->
         JoinSep(<< Escape(f.Type), Escape(f.Path), f.Start, f.Bytes >> \o (IF f.Compressed THEN << ZL1 >> ELSE << >>), << SP >>)
    [] t_ = "Status" -> f.Sev \o Code2(f.Code) \o << SP >> \o Escape(f.Msg)
    [] t_ = "Supported" -> JoinSep(FeaParts(f.Features), << SP >>)
    [] t_ \in {"UserInfoMod", "Fields"} -> JoinSep(MapSeq(f, LAMBDA e : e.Tag \o Escape(e.Value)), << SP >>)
    [] t_ = "Raw" -> f.Data
    [] t_ = "String" -> Escape(f)
    [] t_ = "Feature" -> f
    [] t_ = "ExtFeatures" -> WriteVal("feas", f)
    [] t_ = "Path" -> WriteVal("path", f)
    [] t_ = "BoolInt" -> WriteVal("bint", f)
    [] t_ = "SID" -> f
    [] t_ = "TTH" -> B32Enc(f)
    [] t_ = "ModFeatures" -> JoinSep(FeaParts(f), << SP >>)
    [] t_ = "AddFeatures" -> JoinSep(MapSeq(f, LAMBDA e : AdMark \o e), << SP >>)
\* sets of features have no order
WireOk(t_, f, w) ==
  IF t_ \in {"Supported", "ModFeatures"}
  THEN LET ps == FeaParts(IF t_ = "Supported" THEN f.Features ELSE f) IN
       IF ps = << >> THEN w = << >>
       ELSE Len(w) = Len(WireOf(t_, f)) /\ Len(SplitByte(w, SP)) = Len(ps) /\ SetOf(SplitByte(w, SP)) = SetOf(ps)
  ELSE w = WireOf(t_, f)

\* --- decoding ---------------------------------------------------------------
Positional(t_) == SelectSeq(Schema[t_], LAMBDA x : x.tag = << >>)
ReadTable(t_, b_) ==
  LET ps == SplitByte(b_, SP)
      np == Len(Positional(t_))
      rest == From(ps, np + 1)
      sch == Schema[t_]
      vals(x) == LET s_ == SelectSeq(rest, LAMBDA p_ : HasPrefix(p_, x.tag)) IN MapSeq(s_, LAMBDA p_ : From(p_, 3))
      \* positional fields come first in all messages
      field(i_) ==
        LET x == sch[i_] IN
        IF x.tag = << >> THEN ReadVal(x.kind, ps[i_])
        ELSE LET vs == vals(x) IN
             IF vs = << >> THEN OkV(Zero(x.kind))
             ELSE IF x.kind \in ListKinds THEN ReadList(x.kind, vs)
             ELSE IF Len(vs) > 1 THEN ErrV
             ELSE ReadVal(x.kind, vs[1])
      rs == [i_ \in 1..Len(sch) |-> field(i_)]
      r == AllOf(rs)
  IN IF Len(ps) < np THEN ErrV
     ELSE IF r.st # "ok" THEN r
     ELSE OkV([nm \in {sch[i_].name : i_ \in 1..Len(sch)} |-> r.v[CHOOSE i_ \in 1..Len(sch) : sch[i_].name = nm]])

\* a list of added and removed features; one that is listed both ways is not settled
ReadMods(b_) ==
  LET ps == SplitByte(b_, SP)
      get(mark) == MapSeq(SelectSeq(ps, LAMBDA p_ : HasPrefix(p_, mark)), LAMBDA p_ : Unescape(From(p_, 3)))
      ad == get(AdMark) rm == get(RmMark)
  IN IF \E x \in SetOf(ad) \cup SetOf(rm) : Len(x) # 4 THEN ErrV
     ELSE IF SetOf(ad) \cap SetOf(rm) # {} THEN Undef
     ELSE OkV({ << x, TRUE >> : x \in SetOf(ad) } \cup { << x, FALSE >> : x \in SetOf(rm) })

ReadStatus(b_) ==
  LET i_ == FindByte(b_, SP)
      code == IF i_ = 0 THEN b_ ELSE Upto(b_, i_ - 1)
      n == ReadInt64(code)
      rest == IF i_ = 0 THEN << >> ELSE From(b_, i_ + 1)
      d == n.v
  IN IF n.st # "ok" THEN ErrV
     ELSE IF d[1] = 45 THEN Undef
     ELSE OkV([Sev |-> IF Len(d) > 2 THEN Upto(d, Len(d) - 2) ELSE << 48 >>,
               Code |-> IF Len(d) > 2 THEN Canon(From(d, Len(d) - 1)) ELSE d,
               Msg |-> Unescape(rest)])
\* the description of a status ends at the first parameter after it; software that does not
\* escape spaces is why it may also be taken as a whole
StatusAlt(b_) ==
  LET ps == SplitByte(b_, SP) IN ReadStatus(JoinSep(Upto(ps, IF Len(ps) < 2 THEN Len(ps) ELSE 2), << SP >>))

ReadGet(b_) ==
  LET ps == SplitByte(b_, SP)
      zl == SelectSeq(From(ps, 5), LAMBDA p_ : HasPrefix(p_, ZLp))
      st == ReadInt64(ps[3])
      by == ReadInt64(ps[4])
  IN IF Len(ps) < 4 THEN ErrV
     ELSE IF st.st # "ok" \/ by.st # "ok" THEN ErrV
     ELSE IF \E i_ \in 1..Len(zl) : zl[i_] \notin {ZL0, ZL1} THEN ErrV
     ELSE IF Cardinality(SetOf(zl)) > 1 THEN Undef
     ELSE OkV([Type |-> Unescape(ps[1]), Path |-> Unescape(ps[2]), Start |-> st.v, Bytes |-> by.v, Compressed |-> ZL1 \in SetOf(zl)])

ReadFields(b_) ==
  IF b_ = << >> THEN OkV(<< >>)
  ELSE ReadSeq(SplitByte(b_, SP), LAMBDA p_ : IF Len(p_) < 2 THEN ErrV ELSE OkV([Tag |-> Upto(p_, 2), Value |-> Unescape(From(p_, 3))]))

Rec(name, r) == IF r.st = "ok" THEN OkV([x \in {name} |-> r.v]) ELSE r
Read(t_, b_) ==
  CASE t_ \in TableTypes -> ReadTable(t_, b_)
    [] t_ \in NoArgs -> OkV(<< >>)
    [] t_ = "SIDAssign" -> Rec("SID", ReadSID(b_))
    [] t_ = "GetPassword" -> IF EncLen(DecLen(Len(b_))) = Len(b_) /\ IsB32(b_) THEN OkV([Salt |-> B32Dec(b_)]) ELSE ErrV
    [] t_ \in {"GetRequest", "GetResponse"} -> ReadGet(b_)
    [] t_ = "Status" -> ReadStatus(b_)
    [] t_ = "Supported" -> Rec("Features", ReadMods(b_))
    [] t_ \in {"UserInfoMod", "Fields"} -> ReadFields(b_)
    [] t_ = "String" -> OkV(Unescape(b_))
    [] t_ = "Feature" -> ReadFea(b_)
    [] t_ = "ExtFeatures" -> ReadFeas(b_)
    [] t_ = "Path" -> ReadPath(b_)
    [] t_ = "BoolInt" -> ReadBool(b_)
    [] t_ = "SID" -> ReadSID(b_)
    [] t_ = "TTH" -> ReadHash(b_)
    [] t_ = "ModFeatures" -> ReadMods(b_)

\* The value of a decoded message; sets of features as sets
Meaning(t_, f) ==
  CASE t_ = "Supported" -> [Features |-> SetOf(f.Features)]
    [] t_ = "ModFeatures" -> SetOf(f)
    [] OTHER -> f

ModsRep(fs) == \A i_ \in 1..Len(fs) : Printable4(fs[i_][1]) /\ ~HasByte(fs[i_][1], BSL)
FieldsRep(fs) == \A i_ \in 1..Len(fs) : Printable4(fs[i_].Tag)
Rep(t_, f) ==
  CASE t_ \in TableTypes -> \A i_ \in 1..Len(Schema[t_]) : LET x == Schema[t_][i_] IN
                               (~x.req /\ f[x.name] = Zero(x.kind)) \/ ValRep(x.kind, f[x.name])
    [] t_ = "SIDAssign" -> Printable4(f.SID)
    [] t_ = "Status" -> f.Sev[1] # 45 /\ f.Code[1] # 45 /\ Len(f.Code) <= 2 /\ Len(f.Sev) <= 16
    [] t_ = "Supported" -> ModsRep(f.Features)
    [] t_ = "ModFeatures" -> ModsRep(f)
    [] t_ \in {"UserInfoMod", "Fields"} -> FieldsRep(f)
    [] t_ = "Feature" -> Printable4(f)
    [] t_ = "ExtFeatures" -> ValRep("feas", f)
    [] t_ = "Path" -> ValRep("path", f)
    [] t_ = "SID" -> Printable4(f)
    [] t_ = "AddFeatures" -> FALSE
    [] OTHER -> TRUE
=============================================================================
