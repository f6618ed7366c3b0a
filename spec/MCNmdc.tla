------------------------------- MODULE MCNmdc -------------------------------
(* All messages over small domains: whatever can be represented survives its  *)
(* encoding, as one frame.  The messages are also given to the implementation. *)
EXTENDS NmdcMsg, Json
CONSTANTS Charset_, Emit

VARIABLE m

Cyr == << 208, 150 >>                      \* a letter that exists in cp1251 and koi8-r
Gbk == << 228, 186, 133 >>                 \* a character with '|' as its second byte in GBK
Natl == IF Charset_ = "gbk" THEN Gbk ELSE Cyr
T == { << >>, B("a"), B("$"), B("|"), B("&"), B("<"), B("> "), B("&#36;"), B("&lt;|"), << LF >>, << SP >>, Natl, B("a b"), << NUL >>, << 255 >> }
T2 == { << >>, B("a"), B("$|"), B("&amp;"), << SP >> \o Natl }
Nm == { << >>, B("a"), B("a b"), B("<&>|"), Natl, B("$"), << TAB >>, [i \in 1..64 |-> AMP] }
Nm1 == { B("a"), B("x>|"), Natl }
R == { << >>, B("1.2.3.4:5"), B("x y") }
R1 == { << >>, B("1.2.3.4:5") }
Nums == { B("0"), B("7"), MaxU64 }
Ints == { B("0"), B("7"), MaxI64 }
H1 == [i \in 1..24 |-> i * 10]
Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Opt(S) == { << >> } \cup { << x >> : x \in S }

Msgs(t) ==
  CASE t \in NoArgTypes -> { << >> }
    [] t \in NameTypes -> [Name : Nm]
    [] t \in StringTypes -> [String : T]
    [] t \in NamesTypes -> [Names : Seqs({ << >>, B("a"), B("<&>|"), Natl }, 3)]
    [] t \in ErrTypes -> [Err : Opt(T)]
    [] t = "Chat" -> [Name : Nm, Text : T]
    [] t = "To:" -> [To : Nm1 \cup {B("a From:")}, From : Nm1 \cup {<<>>}, Name : Nm1 \cup {<<>>}, Text : T2]
    [] t = "MCTo" -> [To : Nm1 \cup {B("a b")}, From : Nm1 \cup {B("a b"), << >>}, Text : T]
    [] t = "UserCommand" -> [Typ : {B("0"), B("255"), B("-1")}, Context : {B("0"), B("15")}, Path : Seqs({B("a"), B("$ b"), Natl}, 2), Command : T]
    [] t = "ForceMove" -> [Address : R]
    [] t = "Version" -> [Vers : R]
    [] t = "Key" -> [Key : R \cup { <<5, 255, 36>> }]
    [] t = "HubTopic" -> [Text : T]
    [] t = "FailOver" -> [Host : Seqs(R, 3)]
    [] t = "ConnectToMe" -> [Targ : Nm1 \cup {<< >>, B("a b")}, Src : Nm1 \cup {<< >>, B("a b")}, Address : {B("1:2"), B("hS"), B("h")},
                             Kind : {B("0"), B("1"), B("2"), B("3")}, Secure : BOOLEAN]
    [] t = "RevConnectToMe" -> [From : Nm, To : Nm]
    [] t = "ADCGET" -> [ContentType : {B("file"), B("a|")}, Identifier : {B("TTH/A"), << >>, B("$"), Natl}, Start : Nums,
                        Length : Ints \cup {B("-1"), B("-2")}, Compressed : BOOLEAN, DownloadedBytes : Opt(Nums)]
    [] t = "ADCSND" -> [ContentType : {B("file"), B("a|")}, Identifier : {B("TTH/A"), << >>, B("$"), Natl}, Start : Nums,
                        Length : Nums, Compressed : BOOLEAN]
    [] t = "Direction" -> [Upload : BOOLEAN, Number : {B("0"), B("1"), B("32767"), B("32768")}]
    [] t = "HubINFO" -> [Name : T2, Host : R1, Desc : {B("a"), B("$|")}, I1 : {B("0"), B("-5")}, I2 : {B("0")}, I3 : {B("1")}, I4 : {MaxI64},
                         Soft : [Name : {B("a"), B("a b"), << >>}, Version : {<< >>, B("1.0"), B("1 0")}], Owner : {<< >>, Natl},
                         State : {<< >>, B("|")}, Encoding : R1]
    [] t = "Lock" -> [NoExt : BOOLEAN, Lock : R1 \cup {B("EXTENDEDPROTOCOLx"), B("a b")}, PK : R \cup {B("Pk="), B("aRef=")}, Ref : R \cup {B("Ref=")}]
    [] t = "Search" -> [Address : R1 \cup {B("Hub:x")}, User : {<< >>, B("a"), B("a b"), B("x?|")}, SizeRestricted : BOOLEAN, IsMaxSize : BOOLEAN,
                        Size : Nums, DataType : {B("0"), B("1"), B("9")}, Pattern : {<< >>, B("a b"), B("a?$ "), Natl, B("TTH:x")}, TTH : Opt({H1})]
    [] t = "SR" -> [From : {B("a"), B("x>")}, Path : Seqs({B("a"), B("b 1/2"), Natl, B("9/"), << >>, B("$")}, 2), IsDir : BOOLEAN, Size : {B("0"), MaxU64},
                    FreeSlots : {B("0"), B("-1")}, TotalSlots : {B("3")}, HubName : {<< >>, B("H b"), B("x (y)"), B("TTH:")}, TTH : Opt({H1}),
                    HubAddress : {B("1.2.3.4:5")}, To : {<< >>, B("a b")}]
    [] t = "SA" -> [TTH : {H1}, Address : R]
    [] t = "SP" -> [TTH : {H1}, User : Nm]
    [] t = "Supports" -> [Ext : Seqs({B("A"), B("Bc"), << >>}, 3)]
    [] t = "UserIP" -> [List : Seqs([Name : {B("a"), B("a b"), << >>, B("<|")}, IP : {B("1.1.1.1"), << >>}], 2)]
    [] t = "MyINFO" -> [Name : {B("a"), B("a b"), Natl}, Desc : {<< >>, B("$|"), B("<x>"), Natl}, Client : [Name : {B("a b"), << >>}, Version : {B("1"), << >>}],
                        Mode : {0, 65}, HubsNormal : {B("1")}, HubsRegistered : {B("-2")}, HubsOperator : {MaxI64}, Slots : {B("0")},
                        Extra : Seqs({<< B("O"), B("1") >>, << B("ab"), << >> >>}, 1) \cup { << << B("F"), B("1/2") >>, << B("ab"), B("x") >> >> },
                        Conn : {<< >>, B("|$&")}, Flag : {0, 1, 38, 255}, Email : {<< >>, Natl}, ShareSize : {B("0"), MaxU64}]
    [] t = "Raw" -> [Typ : {B("Foo"), B("x-y.z")}, Data : R \cup { <<255, 36>> }]

Init == m \in { << t >> : t \in Types \cup {"Raw"} }
Next == /\ Len(m) = 1
        /\ \E f \in Msgs(m[1]) :
             /\ m' = << m[1], f >>
             /\ Emit => PrintT("SCEN " \o ToJson([cs |-> Charset_, t |-> m[1], f |-> f]))
Spec == Init /\ [][Next]_m

\* C11, C10
RoundTrip ==
  Len(m) = 2 =>
  LET t == m[1] f == m[2] IN
  Representable(Charset_, t, f) =>
    LET w == Wire(Charset_, t, f) n == Len(CmdOf(t, f)) IN
    /\ w.st = "ok"
    /\ w.v[Len(w.v)] = Delim /\ ~HasByte(Upto(w.v, Len(w.v) - 1), Delim) /\ ~HasByte(w.v, NUL)
    /\ t = "Chat" => w.v[1] # DOLLAR /\ Len(w.v) > 1
    /\ LET b == IF n = 0 THEN Upto(w.v, Len(w.v) - 1) ELSE IF Len(w.v) = n + 2 THEN << >> ELSE SubSeq(w.v, n + 3, Len(w.v) - 1)
           d == DecodeMsg(Charset_, CmdOf(t, f), t = "Chat", b)
       IN d.st = "ok" /\ d.v.t = t /\ d.v.f = Norm(t, f)
=============================================================================
