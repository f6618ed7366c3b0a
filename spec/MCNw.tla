------------------------------- MODULE MCNw --------------------------------
(* A writing session followed by reading what was written: hooks of both      *)
(* sides decide anything; encodings may change at agreed points.              *)
EXTENDS NmdcWriteSession, NmdcReadSession, Json
CONSTANTS MaxBatches, MaxBatch, MaxHooks, Scen

VARIABLES stage, wire, hist, marks, nb
mvars == << stage, wire, hist, marks, nb >>

Cyr == <<208, 182>>   \* U+0436, in cp1251 but not in cp1250
Chat(n, t) == [t |-> "Chat", f |-> [Name |-> n, Text |-> t]]
Msgs == {
  Chat(B("n"), B("a|$b&#36;")), Chat(B("<n>"), Cyr), Chat(<< >>, B("$x")),
  [t |-> "HubName", f |-> [String |-> B("&amp;|")]], [t |-> "HubName", f |-> [String |-> Cyr]],
  [t |-> "Hello", f |-> [Name |-> B("a&b")]], [t |-> "Hello", f |-> [Name |-> B("a$b")]],
  [t |-> "GetTopic", f |-> << >>],
  [t |-> "Raw", f |-> [Typ |-> B("Foo"), Data |-> B("x y")]] }
Css == {"utf8", "cp1251", "cp1250"}

Init == /\ stage = "write" /\ wire = << >> /\ hist = << >> /\ marks = << >> /\ nb = 0
        /\ \E x \in {"utf8", "cp1251"}, h \in 0..MaxHooks :
             /\ WInit(x, h)
             /\ SessionInit(<< >>, x, [raw |-> 0, msg |-> h, ka |-> FALSE, enc |-> FALSE, uerr |-> FALSE, maxcmd |-> 32])
QuietR == UNCHANGED svars
Log(x) == hist' = Append(hist, x)

Write ==
  /\ stage = "write" /\ QuietR
  /\ \/ /\ nb < MaxBatches /\ nb' = nb + 1
        /\ \E n \in 0..MaxBatch : \E ms \in [1..n -> Msgs] : WriteCall(ms) /\ Log([k |-> "call", ms |-> ms])
        /\ UNCHANGED << stage, wire, marks >>
     \/ /\ \E r \in {"ok", "drop", "err"} : HookNext /\ WHook(whk, batch[j], r) /\ Log([k |-> "hook", i |-> whk, m |-> batch[j], ret |-> r])
        /\ UNCHANGED << stage, wire, marks, nb >>
     \/ WSilent /\ UNCHANGED mvars
     \/ /\ WriteRet(werr, pend, batch) /\ wire' = wire \o pend /\ Log([k |-> "ret", err |-> werr])
        /\ UNCHANGED << stage, marks, nb >>
     \/ /\ nb < MaxBatches /\ nb' = nb + 1 /\ WKeepAlive("", Append(pend, Delim)) /\ wire' = wire \o Append(pend, Delim)
        /\ Log([k |-> "ka"]) /\ UNCHANGED << stage, marks >>
     \/ /\ nb < MaxBatches /\ wph = "idle" /\ hist # << >> /\ hist[Len(hist)].k # "setenc"
        /\ \E x \in Css \ {wcs} : SetEnc(x) /\ marks' = Append(marks, [at |-> Len(acc), cs |-> x]) /\ Log([k |-> "setenc", cs |-> x])
        /\ UNCHANGED << stage, wire, nb >>
Turn == /\ stage = "write" /\ wph = "idle" /\ hist # << >> /\ stage' = "read" /\ in' = wire
        /\ UNCHANGED << wvars, pos, cs, H, ph, rq, cur, hk, res, out, wire, hist, marks, nb >>
\* the reader of the other side follows the same changes of the encoding; its hooks see everything
Agreed(n) == LET S == {i \in DOMAIN marks : marks[i].at <= n} IN
             IF S = {} THEN cs ELSE marks[CHOOSE i \in S : \A k \in S : k <= i].cs
Read ==
  /\ stage = "read" /\ UNCHANGED << wvars, mvars >>
  /\ \/ ph = "idle" /\ Agreed(Len(out)) # cs /\ SetCs(Agreed(Len(out)))
     \/ ph = "idle" /\ Agreed(Len(out)) = cs /\ pos <= Len(in) /\ Call([op |-> "read", types |-> << >>, cmds |-> << >>])
     \/ Silent
     \/ MsgHook(hk, cur.m, "ok")
     \/ Return(res)
Next == Write \/ Turn \/ Read
Spec == Init /\ [][Next]_<< wvars, svars, mvars >>

\* ---------------------------------------------------------------------------
Failing(m, enc) == Wire(enc, m.t, m.f).st # "ok"
\* one frame for each accepted message, and nothing else but keep-alives
Whole == wire \o pend
KaCount == Cardinality({i \in DOMAIN hist : hist[i].k = "ka"})
OneFrameEach == CountByte(Whole, Delim) = Len(acc) + KaCount
\* accepted is what all hooks have let through, in order
PassedAll ==
  nh > 0 =>
    LET P == SelectSeq(hist, LAMBDA x : x.k = "hook" /\ x.ret = "ok" /\ x.i = nh)
        sure == SelectSeq(P, LAMBDA x : \A y \in {"utf8", "cp1251", "cp1250"} : ~Failing(x.m, y))
    IN /\ \A i \in DOMAIN acc : \E k \in DOMAIN P : P[k].m = acc[i]
       /\ Len(acc) <= Len(P)
       /\ (stage = "read" => Len(acc) >= Len(sure))
HooksInOrder ==
  \A k \in DOMAIN hist :
    hist[k].k = "hook" /\ hist[k].i > 1 => hist[k-1].k = "hook" /\ hist[k-1].i = hist[k].i - 1 /\ hist[k-1].ret = "ok" /\ hist[k-1].m = hist[k].m
\* the peer reads exactly what was accepted
PeerPrefix == /\ Len(out) <= Len(acc)
              /\ \A i \in DOMAIN out : out[i].t = acc[i].t /\ out[i].f = Norm(acc[i].t, acc[i].f)
PeerAll == (stage = "read" /\ ph = "idle" /\ pos > Len(in)) => Len(out) = Len(acc)
PeerNoErrors == stage = "read" /\ ph = "ret" => res.err \in {"", "eof"}
Known == ph # "any" /\ wph # "any"
=============================================================================
