------------------------------- MODULE MCNr --------------------------------
(* All short sessions of NmdcReadSession: what hooks and call-backs may do,   *)
(* which frames may arrive and what may be asked for.                         *)
EXTENDS NmdcReadSession, Json
CONSTANTS MaxFrames, MaxCalls, MaxHooks, Scen

VARIABLES stage, log, ncalls, calls
mvars == << stage, log, ncalls, calls >>

Frames == { << >>, B("a"), B("<n> t"), B("$Hello n"), B("$Foo x"), B("$ x"), <<36, 209, 32, 97>>, <<36, 72, 0>>,
            <<36>> \o B("HubName ") \o <<255, 195>>, <<36>> \o B("HubName ") \o <<233>>, B("$Hello a$b"), B("$Abcdef") }
Asks == { [op |-> "read", types |-> << >>, cmds |-> << >>],
          [op |-> "to", types |-> << "Hello" >>, cmds |-> << << >> >>],
          [op |-> "to", types |-> << "Raw" >>, cmds |-> << B("Foo") >>],
          [op |-> "any", types |-> << "Chat", "HubName", "Chat" >>, cmds |-> << << >>, << >>, << >> >>] }
RECURSIVE Cat2(_)
Cat2(fs) == IF fs = << >> THEN << >> ELSE Head(fs) \o <<Delim>> \o Cat2(Tail(fs))

Hooks == [raw : 0..MaxHooks, msg : 0..MaxHooks, ka : BOOLEAN, enc : BOOLEAN, uerr : BOOLEAN, maxcmd : {5, 32}]

Init == /\ stage = "begin" /\ log = << >> /\ ncalls = 0 /\ calls = << >>
        /\ SessionInit(<< >>, "utf8", [raw |-> 0, msg |-> 0, ka |-> FALSE, enc |-> FALSE, uerr |-> FALSE, maxcmd |-> 32])

Begin ==
  /\ stage = "begin" /\ stage' = "stream"
  /\ \E h \in Hooks : H' = h
  /\ UNCHANGED << in, pos, cs, ph, rq, cur, hk, res, out, log, ncalls, calls >>
AddFrame ==
  /\ stage = "stream" /\ Len(log) < MaxFrames
  /\ \E f \in Frames : in' = in \o f \o <<Delim>> /\ log' = Append(log, f)
  /\ UNCHANGED << pos, cs, H, ph, rq, cur, hk, res, out, ncalls, stage, calls >>
Ready ==
  /\ stage = "stream" /\ log # << >> /\ (Scen => Len(log) = MaxFrames) /\ stage' = "run" /\ log' = << >>
  /\ \E t \in {<< >>, B("x")} : in' = in \o t
  /\ UNCHANGED << pos, cs, H, ph, rq, cur, hk, res, out, ncalls, calls >>

Note(k, i, ret) == log' = Append(log, [k |-> k, at |-> IF ret = "eof" THEN 0 ELSE pos, i |-> i, ret |-> ret])
Quiet == UNCHANGED << stage, ncalls, calls >>

Run ==
  /\ stage = "run"
  /\ \/ /\ ncalls < MaxCalls /\ \E a \in Asks : Call(a) /\ calls' = Append(calls, a)
        /\ ncalls' = ncalls + 1 /\ UNCHANGED << stage, log >>
     \/ \E r \in {"ok", "err"} : KeepAlive(r) /\ Note("ka", 0, r) /\ Quiet
     \/ \E r \in {"ok", "drop", "err"} : RawHook(hk, cur.cmd, cur.args, cur.chat, r) /\ Note("raw", hk, r) /\ Quiet
     \/ \E r \in {"err", "nil", "cp1251"} : EncFallback(cur.text, r) /\ Note("enc", 0, r) /\ Quiet
     \/ \E r \in {"skip", "err"} : UnmarshalError(cur.line, r) /\ Note("uerr", 0, r) /\ Quiet
     \/ \E r \in {"ok", "drop", "err"} : MsgHook(hk, cur.m, r) /\ Note("msg", hk, r) /\ Quiet
     \/ /\ ph = "ret" /\ Return([res EXCEPT !.err = IF @ = "bad" THEN "other" ELSE @])
        /\ Note("ret", 0, res.err) /\ Quiet
     \/ Silent /\ UNCHANGED << stage, log, ncalls, calls >>
Over == ph = "idle" /\ ncalls = MaxCalls
Emit ==
  /\ Scen /\ stage = "run" /\ Over /\ stage' = "end"
  /\ PrintT("SCEN " \o ToJson([in |-> in, H |-> H, calls |-> calls, log |-> log]))
  /\ UNCHANGED << svars, log, ncalls, calls >>
Next == Begin \/ AddFrame \/ Ready \/ Run \/ Emit
Spec == Init /\ [][Next]_<< svars, mvars >>

\* ---------------------------------------------------------------------------
Running == stage = "run"
\* a call can always be completed
Progress == Running /\ ph \notin {"idle"} => ENABLED Run

\* the terminated frames of the stream with the positions after them
RECURSIVE Split(_)
Split(from) ==
  LET e == FindByteFrom(in, Delim, from) IN
  IF e = 0 THEN << >> ELSE << [f |-> SubSeq(in, from, e - 1), at |-> e + 1] >> \o Split(e + 1)
Entries(at) == SelectSeq(log, LAMBDA x : x.at = at)
FrameAt(at) == LET S == Split(1) IN (S[CHOOSE i \in DOMAIN S : S[i].at = at]).f
Consumed == LET S == Split(1) IN {i \in DOMAIN S : S[i].at < pos \/ (S[i].at = pos /\ ph = "idle")}

\* 1, 2, ... until a hook does not say ok
HookRun(at, k, n) ==
  LET E == SelectSeq(log, LAMBDA x : x.at = at /\ x.k = k) IN
  /\ \A j \in DOMAIN E : E[j].i = j /\ (j < Len(E) => E[j].ret = "ok")
  /\ Len(E) <= n

\* hooks run in order, once per frame, until one of them refuses; nothing else happens to a refused frame
HookOrder ==
  Running => \A at \in {log[j].at : j \in DOMAIN log} :
    /\ HookRun(at, "raw", H.raw) /\ HookRun(at, "msg", H.msg)
    /\ LET E == Entries(at) IN
       \A i \in DOMAIN E :
         /\ (E[i].ret \in {"drop", "skip"} => i = Len(E))
         /\ (E[i].ret = "err" => i = Len(E) \/ (E[i+1].k = "ret" /\ E[i+1].ret = "hook"))
\* each frame that has been taken is accounted for: kept alive, dropped, failed or delivered
Outcome(at) ==
  LET E == Entries(at)
      f == FrameAt(at)
      R == SelectSeq(E, LAMBDA x : x.k = "ret")
      D == SelectSeq(E, LAMBDA x : x.ret \in {"drop", "skip"})
  IN IF f = << >> THEN (IF R = << >> THEN TRUE ELSE R[1].ret = "hook" /\ H.ka) /\ D = << >>
     ELSE Len(R) + Len(D) = 1
Accounted == Running => LET S == Split(1) IN \A i \in Consumed : Outcome(S[i].at)
\* what is delivered is what the frames mean, in order, and has passed all the hooks
Delivered ==
  (Running /\ ph = "idle") =>
    LET O == SelectSeq(log, LAMBDA x : x.k = "ret" /\ x.ret = "") IN
    /\ Len(O) = Len(out)
    /\ \A j \in DOMAIN O :
         LET f == FrameAt(O[j].at)
             E == Entries(O[j].at)
             sp == FindByte(f, SP)
             cmd == IF f[1] # DOLLAR THEN << >> ELSE IF sp = 0 THEN Tail(f) ELSE SubSeq(f, 2, sp - 1)
             args == IF f[1] # DOLLAR THEN f ELSE IF sp = 0 THEN << >> ELSE From(f, sp + 1)
         IN /\ \A i \in 1..(Len(E) - 1) : E[i].ret \in {"ok", "nil", "cp1251"}
            /\ Len(SelectSeq(E, LAMBDA x : x.k = "raw")) = H.raw
            /\ Len(SelectSeq(E, LAMBDA x : x.k = "msg")) = H.msg
            /\ LET d1 == DecodeMsg("utf8", cmd, f[1] # DOLLAR, args)
                   d2 == DecodeMsg("cp1251", cmd, f[1] # DOLLAR, args)
                   ask == \E i \in DOMAIN log : log[i].k = "enc" /\ log[i].ret = "cp1251" /\ log[i].at <= O[j].at
                   given == \E i \in DOMAIN E : E[i].k = "enc" /\ E[i].ret = "nil"
               IN IF given THEN d1.st = "enc"
                  ELSE IF ask THEN d2.st = "ok" /\ d2.v = out[j] ELSE d1.st = "ok" /\ d1.v = out[j]
            /\ (j > 1 => O[j-1].at < O[j].at)
\* the encoding changes only if the fallback says so, and stays
EncodingKept ==
  Running => cs = (IF \E i \in DOMAIN log : log[i].k = "enc" /\ log[i].ret = "cp1251" THEN "cp1251" ELSE "utf8")
\* consulted at most once for a frame
EncOnce == Running => \A at \in {log[j].at : j \in DOMAIN log} : Len(SelectSeq(log, LAMBDA x : x.at = at /\ x.k = "enc")) <= 1
NeverUnspecified == ph # "any"
=============================================================================
