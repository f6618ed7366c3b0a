------------------------------ MODULE NmdcMsg ------------------------------
(* NMDC messages: [t |-> command, f |-> fields].  Encode gives the body of the *)
(* frame, Decode reads one.  Field names are those of the Go structures,       *)
(* numbers are decimal byte strings (except the single bytes Mode and Flag).   *)
EXTENDS NmdcText

NoArgTypes  == {"GetTopic", "BadPass", "GetPass", "HubIsFull", "ZOn", "GetNickList", "MaxedOut"}
NameTypes   == {"Hello", "Kick", "Close", "ValidateNick", "ValidateDenide", "MyNick", "Quit", "LogedIn"}
\* XVerif is a command registered by the user of the library
StringTypes == {"HubName", "SetTopic", "MyPass", "BotINFO", "SetIcon", "SetLogo", "XVerif"}
NamesTypes  == {"OpList", "BotList"}
ErrTypes    == {"Failed", "Error"}
OtherTypes  == {"Chat", "To:", "MCTo", "UserCommand", "ForceMove", "Version", "Key", "HubTopic", "FailOver",
                "ConnectToMe", "RevConnectToMe", "ADCGET", "ADCSND", "Direction", "HubINFO", "Lock", "Search", "SR",
                "SA", "SP", "Supports", "UserIP", "MyINFO"}
Types == NoArgTypes \cup NameTypes \cup StringTypes \cup NamesTypes \cup ErrTypes \cup OtherTypes

\* the registered types by name of the command
CmdBytes == TLCEval([t \in Types |-> B(t)])
TypeByCmd == TLCEval([b \in {CmdBytes[t] : t \in Types \ {"Chat"}} |-> CHOOSE t \in Types : CmdBytes[t] = b])
TypeOf(cmd) == IF cmd \in DOMAIN TypeByCmd THEN TypeByCmd[cmd] ELSE "Raw"

ExtLock == B("EXTENDEDPROTOCOL")

\* ------------------------------------------------------------------ encoding
BoolFlag(b) == IF b THEN B("T") ELSE B("F")
RECURSIVE Inter(_, _)
\* results rs with a separator in between
Inter(rs, sep) == IF Len(rs) <= 1 THEN rs ELSE << rs[1], Lit(sep) >> \o Inter(Tail(rs), sep)

EncTag(f, extra) ==
  B("<") \o f.Client.Name \o B(" V:") \o f.Client.Version \o B(",M:")
  \o (IF f.Mode = 0 THEN B(" ") ELSE << f.Mode >>)
  \o B(",H:") \o f.HubsNormal \o B("/") \o f.HubsRegistered \o B("/") \o f.HubsOperator
  \o B(",S:") \o f.Slots
  \o Flatten([i \in DOMAIN extra |-> B(",") \o extra[i][1] \o B(":") \o extra[i][2]])
  \o B(">")

\* Extra parameters of MyINFO come in any order; extra is the one to use.
EncodeX(cs, t, f, extra) ==
  CASE t \in NoArgTypes -> Val(<< >>)
    [] t \in NameTypes -> EncName(cs, f.Name)
    [] t \in StringTypes -> EncString(cs, f.String)
    [] t \in NamesTypes ->
         IF f.Names = << >> THEN Val(B("$$"))
         ELSE Cat([i \in DOMAIN f.Names |-> Cat(<< EncName(cs, f.Names[i]), Lit(B("$$")) >>)])
    [] t \in ErrTypes -> IF f.Err = << >> THEN Val(<< >>) ELSE EncString(cs, f.Err[1])
    [] t = "Chat" ->
         Cat((IF f.Name = << >> THEN << >> ELSE << Lit(B("<")), EncName(cs, f.Name), Lit(B("> ")) >>)
             \o << EncString(cs, f.Text) >>)
    [] t = "To:" ->
         Cat(<< EncName(cs, f.To), Lit(B(" From: ")), EncName(cs, f.From), Lit(B(" $<")), EncName(cs, f.Name),
                Lit(B("> ")), EncString(cs, f.Text) >>)
    [] t = "MCTo" ->
         Cat(<< EncName(cs, f.To), Lit(B(" $")), EncName(cs, f.From), Lit(B(" ")), EncString(cs, f.Text) >>)
    [] t = "UserCommand" ->
         Cat(<< Lit(f.Typ \o B(" ") \o f.Context) >>
             \o (IF f.Path = << >> THEN << >>
                 ELSE << Lit(B(" ")) >> \o Inter([i \in DOMAIN f.Path |-> EncString(cs, f.Path[i])], << BSL >>))
             \o (IF f.Command = << >> THEN << >> ELSE << Lit(B(" $")), EncString(cs, f.Command) >>))
    [] t = "ForceMove" -> Val(f.Address)
    [] t = "Version" -> Val(f.Vers)
    [] t = "Key" -> Val(f.Key)
    [] t = "HubTopic" -> EncString(cs, f.Text)
    [] t = "FailOver" -> Val(JoinSep(f.Host, B(",")))
    [] t = "ConnectToMe" ->
         IF f.Targ = << >> \/ (f.Kind = B("1")) # (f.Src # << >>) \/ f.Kind \notin {B("0"), B("1"), B("2")} THEN Bad
         ELSE Cat(<< EncName(cs, f.Targ), Lit(B(" ") \o f.Address),
                     Lit(CASE f.Kind = B("1") -> B("N") [] f.Kind = B("2") -> B("R") [] OTHER -> << >>),
                     Lit(IF f.Secure THEN B("S") ELSE << >>) >>
                  \o (IF f.Kind = B("1") THEN << Lit(B(" ")), EncName(cs, f.Src) >> ELSE << >>))
    [] t = "RevConnectToMe" -> Cat(<< EncName(cs, f.From), Lit(B(" ")), EncName(cs, f.To) >>)
    [] t = "ADCGET" ->
         Cat(<< EncString(cs, f.ContentType), Lit(B(" ")), EncString(cs, f.Identifier),
                Lit(B(" ") \o f.Start \o B(" ") \o f.Length \o (IF f.Compressed THEN B(" ZL1") ELSE << >>)
                    \o (IF f.DownloadedBytes # << >> THEN B(" DB") \o f.DownloadedBytes[1] ELSE << >>)) >>)
    [] t = "ADCSND" ->
         Cat(<< EncString(cs, f.ContentType), Lit(B(" ")), EncString(cs, f.Identifier),
                Lit(B(" ") \o f.Start \o B(" ") \o f.Length \o (IF f.Compressed THEN B(" ZL1") ELSE << >>)) >>)
    [] t = "Direction" -> Val((IF f.Upload THEN B("Upload ") ELSE B("Download ")) \o f.Number)
    [] t = "HubINFO" ->
         Cat(Inter(<< EncString(cs, f.Name), Lit(f.Host), EncString(cs, f.Desc), Lit(f.I1), Lit(f.I2), Lit(f.I3), Lit(f.I4),
                      Lit(f.Soft.Name \o (IF f.Soft.Version = << >> THEN << >> ELSE B(" ") \o f.Soft.Version)),
                      EncString(cs, f.Owner), EncString(cs, f.State), Lit(f.Encoding) >>, << DOLLAR >>))
    [] t = "Lock" ->
         Val((IF f.NoExt THEN << >> ELSE ExtLock) \o f.Lock
             \o (IF f.PK # << >> THEN B(" Pk=") \o f.PK ELSE << >>)
             \o (IF f.Ref # << >> THEN (IF f.PK = << >> THEN B(" ") ELSE << >>) \o B("Ref=") \o f.Ref ELSE << >>))
    [] t = "Search" ->
         LET head == << IF f.Address # << >> THEN Lit(f.Address) ELSE Cat(<< Lit(B("Hub:")), EncName(cs, f.User) >>),
                        Lit(B(" ") \o (IF f.SizeRestricted THEN B("T?") \o BoolFlag(f.IsMaxSize) ELSE B("F?T"))
                            \o B("?") \o f.Size \o B("?")
                            \o (IF f.DataType = B("0") THEN B("1") ELSE f.DataType) \o B("?")) >>
         IN IF f.DataType = B("9")
            THEN IF f.TTH = << >> THEN Bad ELSE Cat(head \o << Lit(B("TTH:")), EncTTH(f.TTH[1]) >>)
            ELSE Cat(head \o << Then(EncString(cs, f.Pattern), LAMBDA p : Val(SubstByte(p, SP, DOLLAR))) >>)
    [] t = "SR" ->
         IF f.Path = << >> THEN Bad
         ELSE Cat(<< EncName(cs, f.From), Lit(B(" ")) >>
                  \o Inter([i \in DOMAIN f.Path |-> EncString(cs, f.Path[i])], << BSL >>)
                  \o << Lit((IF f.IsDir THEN << >> ELSE << 5 >> \o f.Size)
                            \o B(" ") \o f.FreeSlots \o B("/") \o f.TotalSlots \o << 5 >>),
                        IF f.TTH # << >> THEN Cat(<< Lit(B("TTH:")), EncTTH(f.TTH[1]) >>) ELSE EncString(cs, f.HubName),
                        Lit(B(" (") \o f.HubAddress \o B(")")) >>
                  \o (IF f.To = << >> THEN << >> ELSE << Lit(<< 5 >>), EncName(cs, f.To) >>))
    [] t = "SA" -> Cat(<< EncTTH(f.TTH), Lit(B(" ") \o f.Address) >>)
    [] t = "SP" -> Cat(<< EncTTH(f.TTH), Lit(B(" ")), EncName(cs, f.User) >>)
    [] t = "Supports" -> Val(JoinSep(f.Ext, << SP >>))
    [] t = "UserIP" ->
         Cat([i \in DOMAIN f.List |-> Cat(<< EncName(cs, f.List[i].Name), Lit(B(" ") \o f.List[i].IP \o B("$$")) >>)])
    [] t = "MyINFO" ->
         Cat(<< Lit(B("$ALL ")), EncName(cs, f.Name), Lit(B(" ")), EncString(cs, f.Desc), Lit(EncTag(f, extra)), Lit(B("$ $")),
                EncString(cs, f.Conn), Lit(<< IF f.Flag = 0 THEN 1 ELSE f.Flag >>), Lit(B("$")), EncString(cs, f.Email),
                Lit(B("$") \o f.ShareSize \o B("$")) >>)
    [] t = "Raw" -> Val(f.Data)

Encode(cs, t, f) == EncodeX(cs, t, f, IF t = "MyINFO" THEN f.Extra ELSE << >>)

\* A message on the wire.
FrameOf(typ, body) ==
  IF typ = << >> THEN Append(body, Delim)
  ELSE << DOLLAR >> \o typ \o (IF body = << >> THEN << >> ELSE << SP >> \o body) \o << Delim >>
CmdOf(t, f) == CASE t = "Chat" -> << >> [] t = "Raw" -> f.Typ [] OTHER -> CmdBytes[t]
Wire(cs, t, f) == Then(Encode(cs, t, f), LAMBDA b : Val(FrameOf(CmdOf(t, f), b)))
\* all encodings it may have
Perms(s) == IF Len(s) <= 1 THEN { s } ELSE {[i \in DOMAIN s |-> s[p[i]]] : p \in Permutations(DOMAIN s)}
WireOneOf(cs, t, f, w) ==
  IF t = "MyINFO"
  THEN \E x \in Perms(f.Extra) :
         LET r == EncodeX(cs, t, f, x) IN r.st = "ok" /\ w = FrameOf(B(t), r.v)
  ELSE LET r == Wire(cs, t, f) IN r.st = "ok" /\ w = r.v

\* ------------------------------------------------------------------ decoding
UniSpace == { <<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 129, 159>>, <<227, 128, 128>>,
              <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>> }
            \cup { << 226, 128, x >> : x \in 128..138 }
AsciiSpace == {9, 10, 11, 12, 13, 32}
\* a white space character at position i
SpaceAt(s, i) ==
  i <= Len(s) /\ (s[i] \in AsciiSpace \/ \E u \in UniSpace : MatchAt(s, u, i))
SpaceLen(s, i) == IF s[i] < 128 THEN 1 ELSE IF s[i] = 194 THEN 2 ELSE 3
RECURSIVE TrimSpaceL(_), TrimSpaceR(_)
TrimSpaceL(s) == IF s # << >> /\ SpaceAt(s, 1) THEN TrimSpaceL(From(s, 1 + SpaceLen(s, 1))) ELSE s
TrimSpaceR(s) ==
  IF s = << >> THEN s
  ELSE IF s[Len(s)] \in AsciiSpace THEN TrimSpaceR(Upto(s, Len(s) - 1))
  ELSE LET U == {u \in UniSpace : HasSuffix(s, u)} IN
       IF U = {} THEN s ELSE TrimSpaceR(Upto(s, Len(s) - Len(CHOOSE u \in U : TRUE)))
TrimSpace(s) == TrimSpaceR(TrimSpaceL(s))

Rec1(r, F(_)) == Then(r, LAMBDA v : Val(F(v)))

\* Where the name of a chat message ends: position of its '>' in s (after '<'), and the
\* position where the text begins.
RECURSIVE ChatName(_, _)
ChatName(s, from) ==
  LET G == {i \in from..Len(s) : s[i] \in {GT, CR, LF}}
      i == CHOOSE i \in G : \A j \in G : i <= j
  IN IF from > Len(s) \/ G = {} \/ s[i] # GT
     THEN IF from = 1 THEN << 0, 0 >> ELSE << from - 1, from >>
     ELSE IF i = Len(s) THEN << i, i + 1 >>
     ELSE IF SpaceAt(s, i + 1) THEN << i, i + 1 + SpaceLen(s, i + 1) >>
     ELSE ChatName(s, i + 1)

DecChat(cs, d) ==
  IF d # << >> /\ d[1] = LT
  THEN LET s == Tail(d)
           n == IF s = << >> THEN << 0, 0 >> ELSE ChatName(s, 1)
       IN IF n[1] = 0 THEN Bad
          ELSE Rec1(All(<< DecName(cs, Upto(s, n[1] - 1)), DecString(cs, From(s, n[2])) >>),
                    LAMBDA v : [Name |-> v[1], Text |-> v[2]])
  ELSE Rec1(DecString(cs, d), LAMBDA v : [Name |-> << >>, Text |-> v])

DecPM(cs, d) ==
  LET tok == B(" From: ")
      i == FindSub(d, tok) IN
  IF i = 0 THEN Bad
  ELSE Then(DecName(cs, Upto(d, i - 1)), LAMBDA to :
       LET d2 == From(d, i + 7) j == FindSub(d2, B(" $<")) IN
       IF j = 0 THEN Bad
       ELSE Then(DecName(cs, Upto(d2, j - 1)), LAMBDA from :
            LET d3 == From(d2, j + 3) k == FindSub(d3, B("> ")) IN
            IF k = 0 THEN Bad
            ELSE Rec1(All(<< DecName(cs, Upto(d3, k - 1)), DecString(cs, From(d3, k + 2)) >>),
                      LAMBDA v : [To |-> to, From |-> from, Name |-> v[1], Text |-> v[2]])))

DecMCTo(cs, d) ==
  LET i == FindSub(d, B(" $")) IN
  IF i = 0 THEN Bad
  ELSE Then(DecName(cs, Upto(d, i - 1)), LAMBDA to :
       LET d2 == From(d, i + 2) j == FindByte(d2, SP) IN
       IF j = 0 THEN Bad
       ELSE Rec1(All(<< DecName(cs, Upto(d2, j - 1)), DecString(cs, From(d2, j + 1)) >>),
                 LAMBDA v : [To |-> to, From |-> v[1], Text |-> v[2]]))

DecUserCommand(cs, d) ==
  LET a == SplitByteN(TrimSpace(d), SP, 3) IN
  IF Len(a) < 2 THEN Bad
  ELSE LET K == {k \in DOMAIN a[2] : ~IsDigit(a[2][k])}
           ctx == IF K = {} THEN a[2] ELSE Upto(a[2], (CHOOSE k \in K : \A j \in K : k <= j) - 1)
       IN Then(All(<< DecInt(a[1]), DecInt(ctx) >>), LAMBDA n :
          IF Len(a) = 2 THEN Val([Typ |-> n[1], Context |-> n[2], Path |-> << >>, Command |-> << >>])
          ELSE LET i == FindByte(a[3], DOLLAR) IN
               IF i < 2 THEN Bad
               ELSE Rec1(All(<< DecString(cs, TrimRight(Upto(a[3], i - 1), {SP})), DecString(cs, From(a[3], i + 1)) >>),
                         LAMBDA v : [Typ |-> n[1], Context |-> n[2],
                                     Path |-> FilterSeq(SplitByte(v[1], BSL), LAMBDA p : p # << >>),
                                     Command |-> v[2]]))

DecCTM(cs, d) ==
  LET i == FindByte(d, SP) IN
  IF i = 0 THEN Bad
  ELSE Then(DecName(cs, Upto(d, i - 1)), LAMBDA targ :
       LET d2 == From(d, i + 1)
           j == FindByte(d2, SP)
           a == IF j = 0 THEN d2 ELSE Upto(d2, j - 1)
           sec == HasSuffix(a, B("S"))
           a2 == TrimSuffix(a, B("S"))
           kind == IF HasSuffix(a2, B("N")) THEN B("1") ELSE IF HasSuffix(a2, B("R")) THEN B("2") ELSE B("0")
           addr == IF kind = B("0") THEN a2 ELSE Upto(a2, Len(a2) - 1)
       IN Rec1(IF j = 0 THEN Val(<< >>) ELSE DecName(cs, From(d2, j + 1)),
               LAMBDA src : [Targ |-> targ, Src |-> src, Address |-> addr, Kind |-> kind, Secure |-> sec]))

DecFileHead(cs, d) ==  \* content type, identifier, start, and the rest
  LET i == FindByte(d, SP) IN
  IF i = 0 THEN Bad
  ELSE Then(DecString(cs, Upto(d, i - 1)), LAMBDA ct :
       LET d2 == From(d, i + 1) j == FindByte(d2, SP) IN
       IF j = 0 THEN Bad
       ELSE Then(DecString(cs, Upto(d2, j - 1)), LAMBDA id :
            LET d3 == From(d2, j + 1) k == FindByte(d3, SP) IN
            IF k = 0 THEN Bad
            ELSE Rec1(DecUint(Upto(d3, k - 1)), LAMBDA st : << ct, id, st, SplitByteN(From(d3, k + 1), SP, 2) >>)))

DecADCGet(cs, d) ==
  Then(DecFileHead(cs, d), LAMBDA h :
    LET lenb == h[4][1]
        opts == IF Len(h[4]) = 1 THEN << >> ELSE SplitByte(h[4][2], SP)
        len == IF lenb = B("-1") THEN Val(lenb)
               ELSE LET u == DecUint(lenb) IN IF u.st = "ok" /\ ~DecLeq(u.v, MaxI64) THEN Bad ELSE u
        isDB(o) == HasPrefix(o, B("DB"))
        dbs == FilterSeq(opts, isDB)
        vals == [i \in DOMAIN dbs |-> DecUint(From(dbs[i], 3))]
    IN Then(len, LAMBDA l :
         IF \E i \in DOMAIN vals : vals[i].st # "ok" THEN Bad
         ELSE Val([ContentType |-> h[1], Identifier |-> h[2], Start |-> h[3], Length |-> l,
                   Compressed |-> \E i \in DOMAIN opts : opts[i] = B("ZL1"),
                   DownloadedBytes |-> IF vals = << >> THEN << >> ELSE << vals[Len(vals)].v >>])))

DecADCSnd(cs, d) ==
  Then(DecFileHead(cs, d), LAMBDA h :
    LET rest == IF Len(h[4]) = 1 THEN << >> ELSE h[4][2] IN
    Then(DecUint(h[4][1]), LAMBDA l :
      IF rest # << >> /\ rest # B("ZL1") THEN Bad
      ELSE Val([ContentType |-> h[1], Identifier |-> h[2], Start |-> h[3], Length |-> l, Compressed |-> rest # << >>])))

DecDirection(d) ==
  LET i == FindByte(d, SP) dir == Upto(d, i - 1) IN
  IF i = 0 \/ dir \notin {B("Upload"), B("Download")} THEN Bad
  ELSE Then(DecUint(From(d, i + 1)), LAMBDA n :
         IF DecLeq(B("1"), n) /\ DecLeq(n, B("32767")) THEN Val([Upload |-> dir = B("Upload"), Number |-> n]) ELSE Bad)

DecHubINFO(cs, d) ==
  LET a == SplitByteN(d, DOLLAR, 13)
      get(i) == IF i <= Len(a) THEN a[i] ELSE << >>
      str(i) == IF i <= Len(a) THEN DecString(cs, a[i]) ELSE Val(<< >>)
      int(i) == IF i <= Len(a) THEN DecInt(a[i]) ELSE Val(B("0"))
      soft == get(8)
      sp == FindLastByte(soft, SP)
  IN Rec1(All(<< str(1), str(3), int(4), int(5), int(6), int(7), str(9), str(10) >>), LAMBDA v :
       [Name |-> v[1], Host |-> get(2), Desc |-> v[2], I1 |-> v[3], I2 |-> v[4], I3 |-> v[5], I4 |-> v[6],
        Soft |-> [Name |-> IF sp = 0 THEN soft ELSE Upto(soft, sp - 1),
                  Version |-> IF sp = 0 THEN << >> ELSE From(soft, sp + 1)],
        Owner |-> v[7], State |-> v[8], Encoding |-> IF Len(a) = 11 THEN a[11] ELSE << >>])

DecLock(d) ==
  LET ext == HasPrefix(d, ExtLock)
      s == IF ext THEN From(d, Len(ExtLock) + 1) ELSE d
      i == FindByte(s, SP)
  IN IF i = 0 THEN Val([NoExt |-> ~ext, Lock |-> s, PK |-> << >>, Ref |-> << >>])
     ELSE LET r == From(s, i + 1)
              p == IF HasPrefix(r, B("Pk=")) THEN From(r, 4) ELSE r
              j == FindSub(p, B("Ref="))
          IN Val([NoExt |-> ~ext, Lock |-> Upto(s, i - 1), PK |-> IF j = 0 THEN p ELSE Upto(p, j - 1),
                  Ref |-> IF j = 0 THEN << >> ELSE From(p, j + 4)])

DecFlag(b) == CASE b = B("T") -> Val(TRUE) [] b = B("F") -> Val(FALSE) [] OTHER -> Bad

DecSearch(cs, d) ==
  LET i == FindByte(d, SP)
      who == Upto(d, i - 1)
      hub == HasPrefix(who, B("Hub:"))
      a == SplitByteN(From(d, i + 1), QM, 5)
  IN IF i = 0 THEN Bad
     ELSE Then(IF hub THEN DecName(cs, From(who, 5)) ELSE Val(<< >>), LAMBDA user :
          IF Len(a) < 5 THEN Bad
          ELSE LET neg == a[3] # << >> /\ a[3][1] = 45
                   size == IF a[3] = << >> THEN Val(B("0")) ELSE IF neg THEN DecUint(Tail(a[3])) ELSE DecUint(a[3])
               IN Then(All(<< DecFlag(a[1]), DecFlag(a[2]), size, DecUint(a[4]) >>), LAMBDA v :
                  LET r(tth, pat) == [Address |-> IF hub THEN << >> ELSE who, User |-> user,
                                      SizeRestricted |-> IF neg THEN FALSE ELSE v[1], IsMaxSize |-> v[2],
                                      Size |-> IF neg THEN B("0") ELSE v[3], DataType |-> v[4],
                                      Pattern |-> pat, TTH |-> tth]
                  IN IF v[4] = B("9")
                     THEN IF ~HasPrefix(a[5], B("TTH:")) THEN Bad
                          ELSE Rec1(DecTTH(TrimSuffix(From(a[5], 5), << DOLLAR >>)), LAMBDA h : r(<< h >>, << >>))
                     ELSE Rec1(DecString(cs, SubstByte(a[5], DOLLAR, SP)), LAMBDA p : r(<< >>, p))))

DecSlots(b) ==
  LET i == FindByte(b, SLASH) IN
  IF i = 0 THEN Bad ELSE All(<< DecInt(Upto(b, i - 1)), DecInt(From(b, i + 1)) >>)

\* the rest of a search result: TTH or name of the hub, address, target
DecSRTail(cs, d) ==
  LET tth == HasPrefix(d, B("TTH:"))
      i == IF tth THEN 44 ELSE FindSub(d, B(" ("))
      what == IF tth THEN SubSeq(d, 5, 43) ELSE Upto(d, i - 1)
  IN IF i = 0 \/ (tth /\ (Len(d) < 45 \/ d[44] # SP \/ d[45] # 40)) THEN Bad
     ELSE Then(IF tth THEN DecTTH(what) ELSE DecString(cs, what), LAMBDA w :
          LET e == From(d, i + 2)
              j == FindByte(e, 41)
              rest == From(e, j + 1)
          IN IF j = 0 \/ (rest # << >> /\ (rest[1] # 5 \/ Len(rest) = 1)) THEN Bad
             ELSE Rec1(IF rest = << >> THEN Val(<< >>) ELSE DecName(cs, Tail(rest)), LAMBDA to :
                    [HubName |-> IF tth THEN << >> ELSE w, TTH |-> IF tth THEN << w >> ELSE << >>,
                     HubAddress |-> Upto(e, j - 1), To |-> to]))

\* Without a size the result is a directory: "name path slots 0x05 ..."
DecSR(cs, d) ==
  LET i == FindByte(d, SP) IN
  IF i = 0 THEN Bad
  ELSE Then(DecName(cs, Upto(d, i - 1)), LAMBDA from :
       LET s == From(d, i + 1)
           j == FindByte(s, 5)
           p == Upto(s, j - 1)
           E == {k \in DOMAIN p : p[k] # SLASH /\ ~IsDigit(p[k])}
           last == CHOOSE k \in E : \A l \in E : l <= k
           dir == E # {} /\ HasByte(From(p, last + 1), SLASH)
           s2 == From(s, j + 1)
           k == FindByte(s2, 5)
           sas == Upto(s2, k - 1)
           m == FindByte(sas, SP)
           res(path, size, slots, rest) ==
             Then(DecString(cs, path), LAMBDA ps :
             Then(DecSlots(slots), LAMBDA sl :
             Then(DecSRTail(cs, rest), LAMBDA t :
               Val([From |-> from, Path |-> SplitByte(ps, BSL), IsDir |-> dir, Size |-> size,
                    FreeSlots |-> sl[1], TotalSlots |-> sl[2], HubName |-> t.HubName, TTH |-> t.TTH,
                    HubAddress |-> t.HubAddress, To |-> t.To]))))
       IN IF j = 0 THEN Bad
          ELSE IF dir THEN res(Upto(p, last - 1), B("0"), From(p, last + 1), s2)
          ELSE IF k = 0 \/ m = 0 THEN Bad
          ELSE Then(DecUint(Upto(sas, m - 1)), LAMBDA size : res(p, size, From(sas, m + 1), From(s2, k + 1))))

DecSA(d) ==
  IF Len(d) < 40 \/ d[40] # SP THEN Bad
  ELSE Rec1(DecTTH(Upto(d, 39)), LAMBDA h : [TTH |-> h, Address |-> From(d, 41)])
DecSP(cs, d) ==
  IF Len(d) < 40 \/ d[40] # SP THEN Bad
  ELSE Rec1(All(<< DecTTH(Upto(d, 39)), DecName(cs, From(d, 41)) >>), LAMBDA v : [TTH |-> v[1], User |-> v[2]])

DecNames(cs, d) ==
  LET s == TrimSuffix(d, B("$$")) IN
  IF s = << >> THEN Val(<< >>)
  ELSE LET a == SplitSub(s, B("$$")) IN All([i \in DOMAIN a |-> DecName(cs, a[i])])

DecUserIP(cs, d) ==
  LET s == TrimSuffix(TrimSuffix(d, << CR >>), B("$$")) IN
  IF s = << >> THEN Val(<< >>)
  ELSE LET a == SplitSub(s, B("$$"))
           one(x) == LET i == FindLastByte(x, SP) IN
                     Rec1(DecName(cs, IF i = 0 THEN x ELSE Upto(x, i - 1)),
                          LAMBDA n : [Name |-> n, IP |-> IF i = 0 THEN << >> ELSE From(x, i + 1)])
       IN All([i \in DOMAIN a |-> one(a[i])])

\* ---- MyINFO
NoTag == [Client |-> [Name |-> << >>, Version |-> << >>], Mode |-> 0, HubsNormal |-> B("0"), HubsRegistered |-> B("0"),
          HubsOperator |-> B("0"), Slots |-> B("0"), Extra |-> {}]
SetExtra(x, k, v) == [x EXCEPT !.Extra = {e \in @ : e[1] # k} \cup {<< k, v >>}]
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c

TagField(x, fld, first) ==
  LET i == FindByte(fld, COLON)
      key == Upto(fld, i - 1)
      val == From(fld, i + 1)
      c == Upper(key[1])
      hubs == SplitByte(val, SLASH)
  IN IF fld = << >> THEN Val(x)
     ELSE IF first /\ i = 0 THEN Val([x EXCEPT !.Client.Name = fld])
     ELSE IF i <= 1 THEN Bad
     ELSE IF Len(key) # 1 THEN Val(SetExtra(x, key, val))
     ELSE IF ~IsAlnum(key[1]) THEN Undef
     ELSE CASE c = 86 -> Val([x EXCEPT !.Client.Version = val])
            [] c = 77 -> Val([x EXCEPT !.Mode = IF Len(val) = 1 /\ val[1] # SP THEN val[1] ELSE 0])
            [] c = 72 ->
                 IF val = << >> THEN Val([x EXCEPT !.HubsNormal = B("1")])
                 ELSE IF Len(hubs) = 1 THEN Rec1(DecInt(val), LAMBDA n : [x EXCEPT !.HubsNormal = n])
                 ELSE IF Len(hubs) # 3 THEN Bad
                 ELSE Rec1(All([k \in 1..3 |-> DecInt(hubs[k])]),
                           LAMBDA n : [x EXCEPT !.HubsNormal = n[1], !.HubsRegistered = n[2], !.HubsOperator = n[3]])
            [] c = 83 -> Rec1(DecInt(val), LAMBDA n : [x EXCEPT !.Slots = n])
            [] OTHER -> Val(SetExtra(x, << c >>, val))

RECURSIVE TagFields(_, _, _)
TagFields(x, flds, k) ==
  IF k > Len(flds) THEN Val(x)
  ELSE Then(TagField(x, flds[k], k = 1), LAMBDA y : TagFields(y, flds, k + 1))

DecTag(tag) ==
  LET up == FindSub(tag, B(" V:"))
      i == IF up # 0 THEN up ELSE FindSub(tag, B(" v:"))
  IN TagFields([NoTag EXCEPT !.Client.Name = IF i = 0 THEN << >> ELSE Upto(tag, i - 1)],
               SplitByte(IF i = 0 THEN tag ELSE From(tag, i + 1), COMMA), 1)

DecMyINFO(cs, d) ==
  LET s == From(d, 6)
      i == FindByte(s, SP)
      a == SplitByte(From(s, i + 1), DOLLAR)
  IN IF ~HasPrefix(d, B("$ALL ")) \/ i = 0 THEN Bad
     ELSE Then(DecName(cs, Upto(s, i - 1)), LAMBDA name :
       IF Len(a) # 6 THEN Bad
       ELSE LET lt == FindLastByte(a[1], LT)
                tag == TrimSuffix(From(a[1], lt + 1), << GT >>)
                desc == IF lt = 0 THEN a[1] ELSE Upto(a[1], lt - 1)
                conn == a[3]
                share == IF a[5] = << >> THEN Val(B("0")) ELSE DecUint(a[5])
            IN IF lt # 0 /\ lt = Len(a[1]) THEN Bad
               ELSE Then(IF lt = 0 THEN Val(NoTag) ELSE DecTag(tag), LAMBDA x :
                    Then(DecString(cs, desc), LAMBDA ds :
                    IF Len(a[2]) # 1 THEN Bad
                    ELSE Then(IF conn = << >> THEN Val(<< >>) ELSE DecString(cs, Upto(conn, Len(conn) - 1)), LAMBDA cn :
                         Then(DecString(cs, a[4]), LAMBDA em :
                         IF share.st # "ok" THEN Undef
                         ELSE Val([Name |-> name, Desc |-> ds, Client |-> x.Client,
                                   Mode |-> IF lt # 0 THEN x.Mode ELSE IF a[2][1] = SP THEN 0 ELSE a[2][1],
                                   HubsNormal |-> x.HubsNormal, HubsRegistered |-> x.HubsRegistered,
                                   HubsOperator |-> x.HubsOperator, Slots |-> x.Slots, Extra |-> x.Extra,
                                   Conn |-> cn, Flag |-> IF conn = << >> THEN 0 ELSE conn[Len(conn)],
                                   Email |-> em, ShareSize |-> share.v]))))))

Decode(cs, t, d) ==
  CASE t \in NoArgTypes -> IF d = << >> THEN Val(<< >>) ELSE Bad
    [] t \in NameTypes -> Rec1(DecName(cs, d), LAMBDA n : [Name |-> n])
    [] t \in StringTypes -> Rec1(DecString(cs, d), LAMBDA s : [String |-> s])
    [] t \in NamesTypes -> Rec1(DecNames(cs, d), LAMBDA s : [Names |-> s])
    [] t \in ErrTypes -> Rec1(DecString(cs, d), LAMBDA s : [Err |-> IF s = << >> THEN << >> ELSE << s >>])
    [] t = "Chat" -> DecChat(cs, d)
    [] t = "To:" -> DecPM(cs, d)
    [] t = "MCTo" -> DecMCTo(cs, d)
    [] t = "UserCommand" -> DecUserCommand(cs, d)
    [] t = "ForceMove" -> Val([Address |-> d])
    [] t = "Version" -> Val([Vers |-> d])
    [] t = "Key" -> Val([Key |-> d])
    [] t = "HubTopic" -> Rec1(DecString(cs, d), LAMBDA s : [Text |-> s])
    [] t = "FailOver" -> Val([Host |-> IF d = << >> THEN << >> ELSE SplitByte(d, COMMA)])
    [] t = "ConnectToMe" -> DecCTM(cs, d)
    [] t = "RevConnectToMe" ->
         LET i == FindByte(d, SP) IN
         IF i = 0 THEN Bad
         ELSE Rec1(All(<< DecName(cs, Upto(d, i - 1)), DecName(cs, From(d, i + 1)) >>), LAMBDA v : [From |-> v[1], To |-> v[2]])
    [] t = "ADCGET" -> DecADCGet(cs, d)
    [] t = "ADCSND" -> DecADCSnd(cs, d)
    [] t = "Direction" -> DecDirection(d)
    [] t = "HubINFO" -> DecHubINFO(cs, d)
    [] t = "Lock" -> DecLock(d)
    [] t = "Search" -> DecSearch(cs, d)
    [] t = "SR" -> DecSR(cs, d)
    [] t = "SA" -> DecSA(d)
    [] t = "SP" -> DecSP(cs, d)
    [] t = "Supports" -> Val([Ext |-> FilterSeq(SplitByte(d, SP), LAMBDA x : x # << >>)])
    [] t = "UserIP" -> Rec1(DecUserIP(cs, d), LAMBDA l : [List |-> l])
    [] t = "MyINFO" -> DecMyINFO(cs, d)

\* Recorded messages have the extra parameters as a list.
Sem(t, f) == IF t = "MyINFO" THEN [f EXCEPT !.Extra = SetOf(f.Extra)] ELSE f

\* -------------------------------------------------------- what can be represented
NoSp(s) == ~HasByte(s, SP)
NonNeg(n) == n # << >> /\ n[1] # 45
SrPathPlain(cs, f) ==  \* a file must not look like a directory
  LET p == Cat(Inter([i \in DOMAIN f.Path |-> EncString(cs, f.Path[i])], << BSL >>)).v
      E == {k \in DOMAIN p : p[k] # SLASH /\ ~IsDigit(p[k])}
  IN E = {} \/ ~HasByte(From(p, (CHOOSE k \in E : \A l \in E : l <= k) + 1), SLASH)

TagRaw(s) == \A i \in DOMAIN s : s[i] \notin {NUL, Delim, DOLLAR, LT, GT, COMMA}
ExtraKeyOk(k) ==
  /\ k # << >> /\ TagRaw(k) /\ ~HasByte(k, COLON)
  /\ Len(k) = 1 => k[1] \in ((65..90) \cup (48..57)) \ {86, 77, 72, 83}

\* What can be the name of a command.
IsCmd(s) == /\ s # << >> /\ Len(s) <= 32
            /\ \A i \in DOMAIN s : IsAlnum(s[i]) \/ s[i] \in {47, 45, 95, 46, 58}

Representable(cs, t, f) ==
  CASE t \in NoArgTypes -> TRUE
    [] t \in NameTypes -> NameOk(cs, f.Name)
    [] t \in StringTypes -> TextOk(cs, f.String)
    [] t \in NamesTypes -> (\A i \in DOMAIN f.Names : NameOk(cs, f.Names[i])) /\ f.Names # << << >> >>
    [] t \in ErrTypes -> f.Err = << >> \/ TextOk(cs, f.Err[1])
    [] t = "Chat" ->
         /\ TextOk(cs, f.Text)
         /\ IF f.Name = << >> THEN f.Text # << >> /\ f.Text[1] # LT ELSE NameOk(cs, f.Name)
    [] t = "To:" -> /\ NameOk(cs, f.To) /\ NameOk(cs, f.From) /\ NameOk(cs, f.Name) /\ TextOk(cs, f.Text)
                    /\ ~HasSub(f.To, B(" From:"))
    [] t = "MCTo" -> NameOk(cs, f.To) /\ NameOk(cs, f.From) /\ NoSp(f.From) /\ TextOk(cs, f.Text)
    [] t = "UserCommand" ->
         /\ NonNeg(f.Context)
         /\ (f.Path = << >>) = (f.Command = << >>)
         /\ \A i \in DOMAIN f.Path : f.Path[i] # << >> /\ TextOk(cs, f.Path[i]) /\ ~HasByte(f.Path[i], BSL)
         /\ f.Path # << >> => f.Path[Len(f.Path)][Len(f.Path[Len(f.Path)])] # SP
         /\ TextOk(cs, f.Command)
         /\ f.Command # << >> => LET b == EncString(cs, f.Command).v IN TrimSpaceR(b) = b
    [] t = "ForceMove" -> RawSpOk(f.Address)
    [] t = "Version" -> RawSpOk(f.Vers)
    [] t = "Key" -> \A i \in DOMAIN f.Key : f.Key[i] \notin {NUL, Delim}
    [] t = "HubTopic" -> TextOk(cs, f.Text)
    [] t = "FailOver" -> f.Host # << << >> >> /\ \A i \in DOMAIN f.Host : RawSpOk(f.Host[i]) /\ ~HasByte(f.Host[i], COMMA)
    [] t = "ConnectToMe" ->
         /\ f.Targ # << >> /\ NameOk(cs, f.Targ) /\ NoSp(f.Targ)
         /\ RawOk(f.Address) /\ f.Address # << >> /\ IsDigit(f.Address[Len(f.Address)])
         /\ (f.Kind = B("1")) = (f.Src # << >>) /\ NameOk(cs, f.Src) /\ f.Kind \in {B("0"), B("1"), B("2")}
    [] t = "RevConnectToMe" -> NameOk(cs, f.From) /\ NoSp(f.From) /\ NameOk(cs, f.To)
    [] t = "ADCGET" -> /\ TextOk(cs, f.ContentType) /\ NoSp(f.ContentType) /\ TextOk(cs, f.Identifier) /\ NoSp(f.Identifier)
                       /\ NonNeg(f.Length) \/ f.Length = B("-1")
    [] t = "ADCSND" -> TextOk(cs, f.ContentType) /\ NoSp(f.ContentType) /\ TextOk(cs, f.Identifier) /\ NoSp(f.Identifier)
    [] t = "Direction" -> DecLeq(B("1"), f.Number) /\ DecLeq(f.Number, B("32767"))
    [] t = "HubINFO" ->
         /\ TextOk(cs, f.Name) /\ TextOk(cs, f.Desc) /\ TextOk(cs, f.Owner) /\ TextOk(cs, f.State)
         /\ RawSpOk(f.Host) /\ RawSpOk(f.Soft.Name) /\ RawSpOk(f.Soft.Version) /\ RawSpOk(f.Encoding)
         /\ NoSp(f.Soft.Version) /\ (f.Soft.Version = << >> => NoSp(f.Soft.Name))
    [] t = "Lock" ->
         /\ RawOk(f.Lock) /\ RawSpOk(f.PK) /\ RawSpOk(f.Ref) /\ ~HasSub(f.PK, B("Ref="))
         /\ f.NoExt => ~HasPrefix(f.Lock, ExtLock)
    [] t = "Search" ->
         /\ RawOk(f.Address) /\ ~HasPrefix(f.Address, B("Hub:"))
         /\ NameOk(cs, f.User) /\ NoSp(f.User) /\ (f.Address # << >> => f.User = << >>)
         /\ ~f.SizeRestricted => f.IsMaxSize
         /\ IF f.DataType = B("9") THEN f.TTH # << >> /\ f.Pattern = << >> ELSE f.TTH = << >> /\ TextOk(cs, f.Pattern)
    [] t = "SR" ->
         /\ NameOk(cs, f.From) /\ NoSp(f.From) /\ NameOk(cs, f.To)
         /\ f.Path # << >>
         /\ \A i \in DOMAIN f.Path : TextOk(cs, f.Path[i]) /\ ~HasByte(f.Path[i], BSL) /\ ~HasByte(f.Path[i], 5)
         /\ IF f.IsDir THEN f.Size = B("0") ELSE SrPathPlain(cs, f)
         /\ NonNeg(f.FreeSlots) /\ NonNeg(f.TotalSlots)
         /\ TextOk(cs, f.HubName) /\ ~HasSub(f.HubName, B(" (")) /\ ~HasPrefix(f.HubName, B("TTH:"))
         /\ f.TTH # << >> => f.HubName = << >>
         /\ RawSpOk(f.HubAddress) /\ ~HasByte(f.HubAddress, 41)
    [] t = "SA" -> RawSpOk(f.Address)
    [] t = "SP" -> NameOk(cs, f.User)
    [] t = "Supports" -> \A i \in DOMAIN f.Ext : f.Ext[i] # << >> /\ RawOk(f.Ext[i])
    [] t = "UserIP" -> \A i \in DOMAIN f.List : NameOk(cs, f.List[i].Name) /\ RawOk(f.List[i].IP)
    [] t = "MyINFO" ->
         /\ NameOk(cs, f.Name) /\ NoSp(f.Name) /\ TextOk(cs, f.Desc) /\ TextOk(cs, f.Conn) /\ TextOk(cs, f.Email)
         /\ TagRaw(f.Client.Version) /\ ~HasSub(f.Client.Name, B(" V:"))
         /\ \A i \in DOMAIN f.Client.Name : f.Client.Name[i] \notin {NUL, Delim, DOLLAR, LT}
         /\ f.Mode \notin {1} /\ f.Mode \notin {NUL + 32, Delim, DOLLAR, LT, GT, COMMA}
         /\ f.Flag \notin {Delim, DOLLAR}
         /\ \A i \in DOMAIN f.Extra : ExtraKeyOk(f.Extra[i][1]) /\ TagRaw(f.Extra[i][2])
    [] t = "Raw" -> /\ IsCmd(f.Typ) /\ TypeOf(f.Typ) = "Raw"
                    /\ \A i \in DOMAIN f.Data : f.Data[i] \notin {NUL, Delim}

\* The value a message has after being sent (fields with two spellings of the same value).
Norm(t, f) ==
  CASE t \in ErrTypes -> [f EXCEPT !.Err = IF f.Err = << << >> >> THEN << >> ELSE @]
    [] t = "Search" -> [f EXCEPT !.DataType = IF @ = B("0") THEN B("1") ELSE @]
    [] t = "MyINFO" -> [f EXCEPT !.Flag = IF @ = 0 THEN 1 ELSE @, !.Extra = SetOf(f.Extra)]
    [] OTHER -> f

\* Decoding that also covers unknown commands.
DecodeMsg(cs, cmd, chat, d) ==
  LET t == IF chat THEN "Chat" ELSE TypeOf(cmd) IN
  IF t = "Raw" THEN Val([t |-> "Raw", f |-> [Typ |-> cmd, Data |-> d]])
  ELSE Rec1(Decode(cs, t, d), LAMBDA v : [t |-> t, f |-> v])
=============================================================================
