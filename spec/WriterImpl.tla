----------------------------- MODULE WriterImpl -----------------------------
(* The line writer as it is built (lineproto/writer.go): a bufio.Writer of    *)
(* capacity C over either the transport or a compressor that holds back       *)
(* symbols, with time-out callback and hooks.  The transport, the callback    *)
(* and the hooks may fail at any point, after any number of symbols.  Every   *)
(* call must be a step of Writer (Conform).                                   *)
EXTENDS Writer, Json

CONSTANTS C, MaxOps, MaxFaults, Sizes, Timeds, HookNs, Show

VARIABLES
  wire,        \* symbols on the transport, in the order written: data, or "Z"/"E"/"S" marks as -1, -2, -3
  buf, berr,   \* buffered symbols; the buffer's sticky error
  zp, zhdr, zerr,  \* held back by the compressor; header written; its sticky error
  zon, err,    \* the writer's own state
  open,        \* not closed yet
  armed,
  pc, arg, log, todo,   \* call in progress: what is left to do
  data,        \* data on its way
  ev, ops, seen, faults, hist
ivars == << wire, buf, berr, zp, zhdr, zerr, zon, err, open, armed, pc, arg, log, todo, data, ev, ops, seen, faults, hist >>
all == << wvars, ivars >>
View == << wvars, wire, buf, berr, zp, zhdr, zerr, zon, err, open, armed, pc, arg, log, todo, data, ev, ops, seen, faults >>

\* what a peer can decode
RECURSIVE Dec(_, _, _)
Dec(s, inz, pend) ==
  IF s = << >> THEN << >>
  ELSE LET h == Head(s) t == Tail(s) IN
       CASE h = -1 -> Dec(t, TRUE, << >>)
         [] h = -2 -> pend \o Dec(t, FALSE, << >>)
         [] h = -3 -> pend \o Dec(t, TRUE, << >>)
         [] OTHER -> IF inz THEN Dec(t, TRUE, Append(pend, h)) ELSE << h >> \o Dec(t, FALSE, << >>)
Decoded(s) == Dec(s, FALSE, << >>)

Init ==
  /\ \E t \in Timeds, h \in HookNs : WriterInit(t, h)
  /\ wire = << >> /\ buf = << >> /\ berr = FALSE /\ zp = << >> /\ zhdr = FALSE /\ zerr = FALSE
  /\ zon = FALSE /\ err = FALSE /\ open = TRUE /\ armed = FALSE
  /\ pc = "idle" /\ arg = [e |-> ""] /\ log = << >> /\ todo = << >> /\ data = << >>
  /\ ev = [e |-> "", op |-> 0] /\ ops = 0 /\ seen = 0 /\ faults = 0 /\ hist = << >>

\* fresh symbols
Fresh(n) == [i \in 1..n |-> Len(acc) + i]

\* The body of each call, as a list of steps.
Timeout(body) == (IF timed THEN << "arm" >> ELSE << >>) \o body \o (IF timed THEN << "dis" >> ELSE << >>)
FlushSteps == Timeout(<< "bflush" >> \o (IF zon THEN << "zflush" >> ELSE << >>))
Body(e) ==
  CASE e = "line"    -> (IF hooks > 0 THEN << "hooks" >> ELSE << >>) \o Timeout(<< "bwrite" >>)
    [] e = "write"   -> (IF buf # << >> THEN FlushSteps ELSE << >>) \o Timeout(<< "raw" >>)
    [] e = "flush"   -> FlushSteps
    [] e = "enable"  -> FlushSteps \o << "zon" >>
    [] e = "disable" -> Timeout(<< "bflush", "zclose", "zoff" >>)
    [] e = "close"   -> Timeout(<< "bflush" >> \o (IF zon THEN << "zclose" >> ELSE << >>))

Begin(a) ==
  /\ arg' = a /\ log' = << >> /\ pc' = "run" /\ data' = a.d
  /\ todo' = IF (err /\ a.e # "close") \/ ~open THEN << "fail" >>
             ELSE IF Semantic(a) THEN << "fail" >>
             ELSE Body(a.e)
  /\ UNCHANGED << wvars, wire, buf, berr, zp, zhdr, zerr, zon, err, open, armed, ev, ops, seen, faults, hist >>
Invoke ==
  /\ pc = "idle" /\ ops < MaxOps
  /\ \/ \E n \in Sizes, e \in {"line", "write"} : Begin([e |-> e, d |-> Fresh(n)])
     \/ \E e \in {"flush", "disable", "close"} : Begin([e |-> e, d |-> << >>])
     \/ Begin([e |-> "enable", d |-> << >>, lvl |-> 6])

Top == IF todo = << >> THEN "end" ELSE Head(todo)

\* --- steps of a call -----------------------------------------------------
Done(e) ==
  /\ pc' = "idle" /\ ops' = ops + 1
  /\ LET dec == Decoded(wire') IN
     /\ ev' = arg @@ [err |-> e, delta |-> From(dec, seen + 1), log |-> log', op |-> ops']
     /\ seen' = Len(dec)
  /\ hist' = Append(hist, [e |-> arg.e, n |-> Len(arg.d), log |-> [i \in 1..Len(log') |->
                  IF log'[i].k = "hook" THEN [log'[i] EXCEPT !.d = << >>] ELSE log'[i]]])
Going == UNCHANGED << pc, ops, ev, seen, hist >>

Log(x) == log' = Append(log, x)

\* A write of s to the transport: all of it, or a part of it and an error.
\* Sets wire', log', faults'; ok tells the outcome.
Transport(s, ok) ==
  IF ok THEN wire' = wire \o s /\ Log([k |-> "w", n |-> Len(s), ok |-> TRUE]) /\ UNCHANGED faults
  ELSE /\ faults < MaxFaults /\ faults' = faults + 1
       /\ \E m \in 0..Len(s) : /\ wire' = wire \o Upto(s, m)
                              /\ Log([k |-> "w", n |-> Len(s), ok |-> FALSE, m |-> m])

\* The step fails: the error sticks, the window is closed and the call returns.
Fails ==
  /\ err' = TRUE
  /\ todo' = (IF timed /\ armed THEN << "dis", "fail" >> ELSE << "fail" >>) /\ Going

Hdr == IF zhdr THEN << >> ELSE << -1 >>
\* symbols s enter the compressor, which may emit some of what it holds
ToZ(s, ok) ==
  IF zerr THEN ~ok /\ UNCHANGED << wire, log, faults, zp, zhdr, zerr >>
  ELSE LET p == zp \o s IN
       \/ /\ ok /\ zp' = p /\ UNCHANGED << wire, log, faults, zhdr, zerr >>     \* keeps everything
       \/ \E m \in 1..Len(p) :
          /\ Transport(Hdr \o Upto(p, m), ok)
          /\ zp' = From(p, m + 1) /\ zhdr' = TRUE /\ zerr' = ~ok

\* symbols s leave the buffer
Out(s, ok) ==
  IF zon THEN ToZ(s, ok)
  ELSE Transport(s, ok) /\ UNCHANGED << zp, zhdr, zerr >>

Common == UNCHANGED << wvars, arg >>
Next1 == todo' = Tail(todo) /\ Going

StepArm ==
  /\ Top = "arm" /\ Common /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, zon, open, data >>
  /\ \/ Log([k |-> "arm", ok |-> TRUE]) /\ armed' = TRUE /\ Next1 /\ UNCHANGED << faults, err >>
     \/ /\ faults < MaxFaults /\ faults' = faults + 1
        /\ Log([k |-> "arm", ok |-> FALSE]) /\ UNCHANGED armed
        /\ err' = TRUE /\ todo' = << "fail" >> /\ Going
StepDis ==
  /\ Top = "dis" /\ Common /\ Next1
  /\ Log([k |-> "dis"]) /\ armed' = FALSE
  /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, zon, err, open, data, faults >>
StepHooks ==
  /\ Top = "hooks" /\ Common
  /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, zon, open, armed, data >>
  /\ \E j \in 1..hooks, v \in {"ok", "drop", "err"} :
     /\ (v = "ok" => j = hooks) /\ (v = "err" => faults < MaxFaults)
     /\ log' = log \o [i \in 1..j |-> [k |-> "hook", h |-> i, d |-> arg.d, r |-> IF i = j THEN v ELSE "ok"]]
     /\ faults' = faults + (IF v = "err" THEN 1 ELSE 0)
     /\ CASE v = "ok"   -> Next1 /\ UNCHANGED err
          [] v = "drop" -> todo' = << >> /\ Going /\ UNCHANGED err
          [] OTHER      -> err' = TRUE /\ todo' = << "hookfail" >> /\ Going
\* bufio.Write
StepBWrite ==
  /\ Top = "bwrite" /\ Common /\ UNCHANGED << zon, open, armed >>
  /\ IF berr THEN Fails /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, data, log, faults >>
     ELSE IF Len(data) > C - Len(buf)
     THEN IF buf = << >>
          THEN \E ok \in BOOLEAN :            \* large: bypasses the buffer
               /\ Out(data, ok) /\ data' = << >> /\ berr' = ~ok /\ UNCHANGED buf
               /\ IF ok THEN UNCHANGED << err, todo >> /\ Going ELSE Fails
          ELSE LET n == C - Len(buf) IN
               \E ok \in BOOLEAN :            \* fill and flush
               /\ Out(buf \o Upto(data, n), ok) /\ buf' = << >> /\ berr' = ~ok
               /\ data' = From(data, n + 1)
               /\ IF ok THEN UNCHANGED << err, todo >> /\ Going ELSE Fails
     ELSE /\ buf' = buf \o data /\ data' = << >> /\ Next1
          /\ UNCHANGED << wire, berr, zp, zhdr, zerr, log, faults, err >>
StepBFlush ==
  /\ Top = "bflush" /\ Common /\ UNCHANGED << zon, open, armed, data >>
  /\ IF berr THEN (IF arg.e = "close" THEN err' = TRUE /\ Next1 ELSE Fails)
                  /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, log, faults >>
     ELSE IF buf = << >> THEN Next1 /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, log, faults, err >>
     ELSE \E ok \in BOOLEAN :
          /\ Out(buf, ok) /\ buf' = << >> /\ berr' = ~ok
          /\ IF ok THEN Next1 /\ UNCHANGED err
             ELSE IF arg.e = "close" THEN err' = TRUE /\ Next1 ELSE Fails
StepRaw ==
  /\ Top = "raw" /\ Common /\ UNCHANGED << zon, open, armed, buf, berr, data >>
  /\ \E ok \in BOOLEAN :
     /\ Out(data, ok)
     /\ IF ok THEN Next1 /\ UNCHANGED err ELSE Fails
StepZFlush ==
  /\ Top = "zflush" /\ Common /\ UNCHANGED << zon, open, armed, buf, berr, data >>
  /\ IF zerr THEN Fails /\ UNCHANGED << wire, zp, zhdr, zerr, log, faults >>
     ELSE \E ok \in BOOLEAN :
          /\ Transport(Hdr \o zp \o << -3 >>, ok) /\ zp' = << >> /\ zhdr' = TRUE /\ zerr' = ~ok
          /\ IF ok THEN Next1 /\ UNCHANGED err ELSE Fails
StepZClose ==
  /\ Top = "zclose" /\ Common /\ UNCHANGED << zon, open, armed, buf, berr, data >>
  /\ IF zerr THEN Fails /\ UNCHANGED << wire, zp, zhdr, zerr, log, faults >>
     ELSE \E ok \in BOOLEAN :
          /\ Transport(Hdr \o zp \o << -2 >>, ok) /\ zp' = << >> /\ zhdr' = TRUE /\ zerr' = ~ok
          /\ IF ok THEN Next1 /\ UNCHANGED err ELSE Fails
StepZOn ==
  /\ Top = "zon" /\ Common /\ Next1 /\ zon' = TRUE /\ zp' = << >> /\ zhdr' = FALSE /\ zerr' = FALSE
  /\ UNCHANGED << wire, buf, berr, err, open, armed, data, log, faults >>
StepZOff ==
  /\ Top = "zoff" /\ Common /\ Next1 /\ zon' = FALSE
  /\ UNCHANGED << wire, buf, berr, zp, zhdr, zerr, err, open, armed, data, log, faults >>
Finish ==
  /\ Top \in {"end", "fail", "hookfail"}
  /\ LET e == IF todo = << >> THEN (IF err /\ arg.e = "close" /\ Faulted(log) THEN "other" ELSE "")
              ELSE IF Top = "hookfail" THEN "hook" ELSE "other" IN
     /\ UNCHANGED << wire, log >> /\ Done(e)
     /\ open' = (open /\ arg.e # "close") /\ err' = (err \/ arg.e = "close")
  /\ UNCHANGED << arg, buf, berr, zp, zhdr, zerr, zon, armed, todo, data, faults >>
  \* the abstract writer follows
  /\ WStep(ev')

Run == /\ pc = "run"
       /\ \/ StepArm \/ StepDis \/ StepHooks \/ StepBWrite \/ StepBFlush \/ StepRaw \/ StepZFlush
          \/ StepZClose \/ StepZOn \/ StepZOff \/ Finish

Stop == /\ Show /\ pc = "idle" /\ (ops = MaxOps)
        /\ PrintT("SCEN " \o ToJson([timed |-> timed, hooks |-> hooks, ops |-> hist]))
        /\ pc' = "end" /\ UNCHANGED << wvars, wire, buf, berr, zp, zhdr, zerr, zon, err, open, armed, arg, log, todo, data, ev, ops, seen, faults, hist >>
Next == Invoke \/ Run \/ Stop
Spec == Init /\ [][Next]_all

\* No call of the implementation is outside of the specification.
Conform == ~(/\ pc = "run" /\ Top \in {"end", "fail", "hookfail"} /\ ~ENABLED Finish)
BufBounded == Len(buf) <= C
Armed == pc = "idle" => ~armed
SameZ == pc = "idle" /\ ~failed /\ ~closed => z = zon
=============================================================================
