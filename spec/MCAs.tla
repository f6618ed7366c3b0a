-------------------------------- MODULE MCAs --------------------------------
(* An ADC session written by one side and read by the other: hooks of both     *)
(* sides decide anything, packets are asked for in any way.                   *)
EXTENDS AdcWriteSession, Json
CONSTANTS MaxWrites, MaxCalls, MaxHooks, Scen

VARIABLES in, pos, H, ph, rq, ll, hk, res, out
rvars == << in, pos, H, ph, rq, ll, hk, res, out >>
R == INSTANCE AdcReadSession

VARIABLES stage, hist, log, nw, nc
mvars == << stage, hist, log, nw, nc >>

Pk(kind, cmd) == NoAddr(kind, B(cmd))
Raw(cmd, d) == [Type |-> B(cmd), Data |-> d]
Mk(pk, t_, f) == [pk |-> pk, t |-> t_, f |-> f]
Chat(txt) == [Text |-> txt, PM |-> << >>, Me |-> FALSE, TS |-> << 48 >>]
A1 == B("AAAB")
Pks == { Mk(Pk(KI, "XYZ"), "Raw", Raw("XYZ", B("a +b"))),
         Mk([Pk(KB, "MSG") EXCEPT !.src = A1], "ChatMessage", Chat(<< SP, LF, BSL >>)),
         Mk(Pk(KI, "ZON"), "ZOn", << >>),
         Mk([Pk(KF, "MSG") EXCEPT !.src = A1, !.sel = << << B("TCP4"), TRUE >>, << B("NAT0"), FALSE >> >>], "ChatMessage", Chat(B("x"))),
         Mk([Pk(KE, "XYZ") EXCEPT !.src = A1, !.dst = B("BBBB")], "Raw", Raw("XYZ", << >>)),
         Mk(Pk(KC, "STA"), "Status", [Sev |-> B("1"), Code |-> B("7"), Msg |-> B("a b")]),
         Mk(Pk(KC, "SID"), "Raw", Raw("SID", B("AAA"))),        \* does not mean anything
         Mk(Pk(KH, "FAL"), "Fail", << >>) }
Ops == {"packet", "raw", "info", "client"}

Init == /\ stage = "write" /\ hist = << >> /\ log = << >> /\ nw = 0 /\ nc = 0
        /\ \E h \in 0..MaxHooks : WInit(h)
        /\ \E h \in 0..MaxHooks, k \in BOOLEAN : R!SessionInit(<< >>, [hooks |-> h, ka |-> k])
WriteStep ==
  /\ stage = "write" /\ UNCHANGED << rvars, stage, log, nc >>
  /\ \/ nw < MaxWrites /\ nw' = nw + 1 /\ \E m \in Pks : WriteCall(m) /\ hist' = Append(hist, [k |-> "call", l |-> << >>, r |-> ""])
     \/ nw < MaxWrites /\ nw' = nw + 1 /\ KeepAliveCall /\ hist' = Append(hist, [k |-> "call", l |-> << >>, r |-> ""])
     \/ WSilent /\ UNCHANGED << hist, nw >>
     \/ \E r \in {"ok", "drop", "err"} : WHook(whk, wl, r) /\ hist' = Append(hist, [k |-> "hook", l |-> wl, r |-> r]) /\ UNCHANGED nw
     \/ WRet(werr, << >>) /\ UNCHANGED << hist, nw >>
Turn == /\ stage = "write" /\ wph \in {"idle", "dead"} /\ (Scen => nw = MaxWrites) /\ stage' = "read" /\ in' = Flatten(acc)
        /\ UNCHANGED << wvars, pos, H, ph, rq, ll, hk, res, out, hist, log, nw, nc >>
Note(k, r) == log' = Append(log, [k |-> k, at |-> pos, i |-> IF k = "line" THEN hk ELSE 0, op |-> rq, ret |-> r])
Got(op, l_) ==   \* what a call returns
  LET x == ReadLine(l_) bad == [err |-> "other", pk |-> << >>, msg |-> [st |-> "err", t |-> "", f |-> << >>]]
      kindok == CASE op = "info" -> x.v.pk.kind = KI [] op = "client" -> x.v.pk.kind = KC [] OTHER -> TRUE
      m == IF op = "raw" THEN OkV([t |-> "Raw", f |-> [Type |-> x.v.pk.cmd, Data |-> x.v.data]]) ELSE ReadMsg(x.v.pk.cmd, x.v.data)
  IN IF x.st # "ok" THEN bad ELSE IF ~kindok \/ m.st # "ok" THEN bad
     ELSE [err |-> "", pk |-> x.v.pk, msg |-> [st |-> "ok", t |-> m.v.t, f |-> m.v.f]]
ReadStep ==
  /\ stage = "read" /\ UNCHANGED << wvars, stage, hist, nw >>
  /\ \/ nc < MaxCalls /\ nc' = nc + 1 /\ \E op \in Ops : R!ReadCall(op) /\ log' = Append(log, [k |-> "call", at |-> 0, i |-> 0, op |-> op, ret |-> ""])
     \/ R!Silent /\ UNCHANGED << log, nc >>
     \/ \E r \in {"ok", "drop", "err"} : R!LineHook(hk, ll, r) /\ Note("line", r) /\ UNCHANGED nc
     \/ \E r \in {"ok", "err"} : R!KeepAlive(r) /\ Note("ka", r) /\ UNCHANGED nc
     \/ /\ ph = "ret"
        /\ LET g == IF res = "packet" THEN Got(rq, ll) ELSE [err |-> res, pk |-> << >>, msg |-> [st |-> "err", t |-> "", f |-> << >>]] IN
           R!Return(g) /\ log' = Append(log, [k |-> "ret", at |-> IF res = "eof" THEN 0 ELSE pos, i |-> 0, op |-> rq, ret |-> g.err])
        /\ UNCHANGED nc
Over == stage = "read" /\ ph = "idle" /\ nc = MaxCalls
Emit ==
  /\ Scen /\ Over /\ stage' = "end"
  /\ PrintT("SCEN " \o ToJson([in |-> in, H |-> H, log |-> log]))
  /\ UNCHANGED << wvars, rvars, hist, log, nw, nc >>
Next == WriteStep \/ Turn \/ ReadStep \/ Emit
Spec == Init /\ [][Next]_<< wvars, rvars, mvars >>

\* ---------------------------------------------------------------------------
Reading == stage = "read"
Progress == Reading /\ ph # "idle" => ENABLED ReadStep
\* each accepted packet is one line of the stream
RECURSIVE SplitLines(_)
SplitLines(s_) == LET e_ == FindByte(s_, LF) IN IF e_ = 0 THEN << >> ELSE << Upto(s_, e_) >> \o SplitLines(From(s_, e_ + 1))
OneLineEach == Reading => SplitLines(in) = acc
\* nothing is written that a hook has refused or that has no encoding
PassedAll ==
  /\ Len(acc) <= nw
  /\ nh > 0 => \A i \in DOMAIN acc : Cardinality({j \in DOMAIN hist : hist[j].k = "hook" /\ hist[j].r = "ok" /\ hist[j].l = acc[i]}) >= nh
At(i) == Len(Flatten(Upto(acc, i))) + 1      \* the position after line i
Taken == {i \in DOMAIN acc : At(i) < pos \/ (At(i) = pos /\ ph = "idle")}
Entries(i) == SelectSeq(log, LAMBDA x : x.at = At(i))
HooksInOrder ==
  Reading => \A i \in DOMAIN acc :
    LET E == SelectSeq(Entries(i), LAMBDA x : x.k = "line") IN
    Len(E) <= H.hooks /\ \A j \in DOMAIN E : E[j].i = j /\ (j < Len(E) => E[j].ret = "ok")
\* each line is used up by exactly one call: dropped, kept alive, refused or returned
Accounted ==
  Reading => \A i \in Taken :
    LET E == Entries(i)
        rets == SelectSeq(E, LAMBDA x : x.k = "ret")
        drops == SelectSeq(E, LAMBDA x : x.ret = "drop")
        ka == acc[i] = << LF >>
        hookerr == \E j \in DOMAIN E : E[j].ret = "err"
    IN IF drops # << >> THEN rets = << >>
       ELSE IF hookerr THEN Len(rets) = 1 /\ rets[1].ret = "hook"
       ELSE IF ka THEN rets = << >> /\ (H.ka => \E j \in DOMAIN E : E[j].k = "ka")
       ELSE /\ Len(rets) = 1 /\ rets[1].ret = Got(rets[1].op, acc[i]).err
            /\ Len(SelectSeq(E, LAMBDA x : x.k = "line")) = H.hooks
\* what is returned are packets that were written, in order
Delivered ==
  (Reading /\ ph = "idle") =>
    LET O == SelectSeq(log, LAMBDA x : x.k = "ret" /\ x.ret = "") IN
    /\ Len(O) = Len(out)
    /\ \A j \in DOMAIN O : \E i \in DOMAIN acc :
         /\ At(i) = O[j].at
         /\ out[j].pk = ReadLine(acc[i]).v.pk
         /\ \E m \in Pks : m.t # "Fail" /\ out[j].pk = m.pk /\ Line(m.pk, WireOf(m.t, m.f)) = acc[i]
                           /\ (O[j].op # "raw" /\ out[j].t = m.t => out[j].f = m.f)
    /\ \A j \in 2..Len(O) : O[j-1].at < O[j].at
Known == wph # "any"
=============================================================================
