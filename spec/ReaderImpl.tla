----------------------------- MODULE ReaderImpl -----------------------------
(* The line reader as it is built (lineproto/reader.go): a plain buffer of C  *)
(* symbols over the transport, an inflater that pulls single bytes out of it, *)
(* a second buffer over the inflater, and the line assembled so far.  The     *)
(* transport cuts the stream as it likes.  Every outcome of a call must be a  *)
(* step of Reader (Conform).  Simulated behaviours are printed as scenarios   *)
(* that the harness replays on the real reader.                               *)
EXTENDS ReaderEv, Json

CONSTANTS
  C,          \* capacity of the read buffers
  Streams,    \* streams to choose from
  Lims,       \* limits to choose from
  MaxOps,     \* calls per session
  Tmps,       \* temporary errors and empty reads to be made, at most
  Show       \* print scenarios

D == 0        \* the delimiter; every other symbol is plain text

VARIABLES
  w,          \* wire symbols taken from the transport
  pb, cb,     \* buffered plain and inflated symbols
  cur,        \* "p" or "z": where lines are read from
  zst,        \* inflater: "none", "open", "ended", "broken"
  ln,         \* line assembled so far
  zacc,       \* what the inflater produced in this call of it
  pc, arg,    \* call in progress
  left,       \* bytes of a block left
  got,        \* data of a block handed out
  tmps,       \* temporary errors made so far
  ev, ops,    \* outcome of the last call, number of calls
  script, hist \* what the transport did, and the calls
ivars == << w, pb, cb, cur, zst, ln, zacc, pc, arg, left, got, tmps, ev, ops, script, hist >>
all == << rvars, ivars >>
View == << rvars, w, pb, cb, cur, zst, ln, zacc, pc, arg, left, got, tmps, ev, ops >>

\* --- the wire ----------------------------------------------------------
T(t, v) == [t |-> t, v |-> v]
ZoneWire(i) ==
  LET z == zones[i]
      zc == [j \in 1..z.zl |-> T("z", z.d[j])]
      pl == [j \in 1..(Len(z.d) - z.zl) |-> T("b", z.d[z.zl + j])]
  IN CASE i = 1 -> pl
       [] z.bad = "" -> << T("H", 0) >> \o zc \o << T("T", 0) >> \o pl
       [] z.bad = "sum" -> << T("H", 0) >> \o zc \o << T("X", 0) >>
       [] OTHER -> << T("H", 0) >> \o zc
Wire == Flatten([i \in 1..Len(zones) |-> ZoneWire(i)])
WLeft == Len(Wire) - w
Vals(s) == [i \in 1..Len(s) |-> s[i].v]

Init ==
  /\ \E s \in Streams, l \in Lims : ReaderInit(s, D, l)
  /\ w = 0 /\ pb = << >> /\ cb = << >> /\ cur = "p" /\ zst = "none" /\ ln = << >> /\ zacc = << >>
  /\ pc = "idle" /\ arg = [e |-> ""] /\ left = 0 /\ got = << >> /\ tmps = 0
  /\ ev = [e |-> "", d |-> << >>, err |-> ""] /\ ops = 0 /\ script = << >> /\ hist = << >>

\* The transport answers a read of at most cap symbols.  r: [n, err]
Answers(cap) ==
  {[n |-> n, err |-> ""] : n \in 1..(IF cap < WLeft THEN cap ELSE WLeft)}
  \cup (IF WLeft = 0 THEN {[n |-> 0, err |-> "eof"]} ELSE {})
  \cup (IF WLeft > 0 /\ WLeft <= cap THEN {[n |-> WLeft, err |-> "eof"]} ELSE {})
  \cup (IF tmps < Tmps THEN {[n |-> 0, err |-> ""]} ELSE {})
  \cup (IF tmps < Tmps /\ Len(zones) = 1
        THEN {[n |-> n, err |-> "tmp"] : n \in 0..(IF cap < WLeft THEN cap ELSE WLeft)} ELSE {})
Take(r) == /\ w' = w + r.n
           /\ tmps' = tmps + (IF r.err = "tmp" \/ (r.n = 0 /\ r.err = "") THEN 1 ELSE 0)
           /\ script' = Append(script, r)
Got(r) == SubSeq(Wire, w + 1, w + r.n)
NoTransport == UNCHANGED << w, tmps, script >>

\* --- calls ---------------------------------------------------------------
\* The caller mirrors the protocol: it switches compression on at the end of a zone and
\* otherwise never reads over it.
Invoke ==
  /\ pc = "idle" /\ ops < MaxOps
  /\ \/ /\ EndAt(off) # 0 \/ AtLast
        /\ pc' = "line" /\ arg' = [e |-> "line"] /\ UNCHANGED left
     \/ \E n \in 1..C+1 :
        /\ AtLast \/ n <= Len(Rest)
        /\ pc' = "raw" /\ arg' = [e |-> "read", n |-> n] /\ UNCHANGED left
     \/ \E sz \in 1..C+1 : \E m \in {0, 1, sz} :
        /\ (AtLast \/ sz <= Len(Rest)) /\ Tmps = 0
        /\ pc' = "bin" /\ arg' = [e |-> "bin", sz |-> sz, m |-> m] /\ left' = sz
     \/ /\ (~AtLast /\ Rest = << >>) \/ MustBeZ
        /\ pc' = "zon" /\ arg' = [e |-> "zon"] /\ UNCHANGED left
  /\ ln' = << >> /\ got' = << >> /\ zacc' = << >>
  /\ UNCHANGED << rvars, w, pb, cb, cur, zst, tmps, ev, ops, script, hist >>

\* The call returns: adv symbols of the zone are consumed.
Return(d, err, adv) ==
  /\ pc' = "idle" /\ ops' = ops + 1
  /\ ev' = arg @@ [d |-> d, err |-> err, log |-> << >>, asks |-> << >>, op |-> ops']
  /\ hist' = Append(hist, arg)
  /\ mode' = IF err = "other" /\ arg.e # "zon" THEN "lost" ELSE mode
  /\ off' = IF err = "other" THEN off ELSE off + adv
  /\ UNCHANGED << zones, delim, k, lim, arg, left >>
Stay == UNCHANGED << rvars, arg, left, got, ev, ops, hist >>

\* a line, from whichever buffer is current
ScanStep ==
  /\ pc = "line"
  /\ IF lim > 0 /\ Len(ln) >= lim
     THEN Return(<< >>, "other", 0) /\ NoTransport /\ UNCHANGED << pb, cb, cur, zst, ln, zacc, got >>
     ELSE LET b == IF cur = "p" THEN Vals(pb) ELSE cb
              i == FindByte(b, D)
              n == IF i = 0 THEN Len(b) ELSE i
          IN
          IF b # << >>
          THEN /\ IF cur = "p" THEN pb' = From(pb, n + 1) /\ UNCHANGED cb
                               ELSE cb' = From(cb, n + 1) /\ UNCHANGED pb
               /\ ln' = ln \o Upto(b, n)
               /\ IF i = 0 THEN Stay /\ UNCHANGED pc
                           ELSE Return(ln', "", Len(ln')) /\ UNCHANGED got
               /\ NoTransport /\ UNCHANGED << cur, zst, zacc >>
          ELSE IF cur = "p"
          THEN \E r \in Answers(C) :
               /\ Take(r)
               /\ IF r.n = 0 /\ r.err # ""
                  THEN Return(ln, r.err, Len(ln)) /\ UNCHANGED << pb, cb, cur, zst, ln, zacc, got >>
                  ELSE pb' = Got(r) /\ Stay /\ UNCHANGED << cb, cur, zst, ln, zacc, pc >>
          ELSE /\ NoTransport /\ UNCHANGED << pb, cb, ln >>
               /\ CASE zst = "ended"  -> cur' = "p" /\ zst' = "none" /\ Stay /\ UNCHANGED << pc, zacc >>
                    [] zst = "broken" -> Return(ln, "other", 0) /\ UNCHANGED << cur, zst, zacc, got >>
                    [] OTHER          -> pc' = "pull-line" /\ zacc' = << >> /\ Stay /\ UNCHANGED << cur, zst >>

\* The inflater is asked for at most cap symbols; it takes single symbols from the plain buffer.
PullCap == CASE pc = "pull-line" -> C
             [] pc = "pull-raw" -> arg.n
             [] OTHER -> left
PushOf(p) == CASE p = "pull-line" -> "push-line" [] p = "pull-raw" -> "push-raw" [] OTHER -> "push-bin"
Pull ==
  /\ pc \in {"pull-line", "pull-raw", "pull-bin"}
  /\ UNCHANGED << cb, cur, ln >> /\ Stay
  /\ \/ /\ pb = << >> /\ UNCHANGED << pc, zst, zacc >>
        /\ \E r \in Answers(C) :
           /\ ~(r.n = 0 /\ r.err = "eof") /\ Take(r) /\ pb' = Got(r)
     \/ /\ pb = << >> /\ WLeft = 0 /\ zst' = "broken" /\ pc' = PushOf(pc)
        /\ NoTransport /\ UNCHANGED << pb, zacc >>
     \/ /\ pb # << >> /\ NoTransport /\ pb' = Tail(pb)
        /\ CASE pb[1].t = "H" -> UNCHANGED << pc, zst, zacc >>
             [] pb[1].t = "z" ->
                  /\ zacc' = Append(zacc, pb[1].v) /\ UNCHANGED zst
                  \* it may return early
                  /\ \/ Len(zacc') < PullCap /\ UNCHANGED pc
                     \/ pc' = PushOf(pc)
             [] pb[1].t = "T" -> zst' = "ended" /\ pc' = PushOf(pc) /\ UNCHANGED zacc
             [] OTHER         -> zst' = "broken" /\ pc' = PushOf(pc) /\ UNCHANGED zacc

\* what the inflater returned goes to the buffer, or directly to the caller
PushLine ==
  /\ pc = "push-line" /\ cb' = zacc /\ pc' = "line" /\ zacc' = << >>
  /\ NoTransport /\ Stay /\ UNCHANGED << pb, cur, zst, ln >>

\* raw reads: the rest of a buffer, or bypass it
RawStep ==
  /\ pc = "raw" /\ UNCHANGED << ln, got, zacc >>
  /\ LET b == IF cur = "p" THEN Vals(pb) ELSE cb
         n == IF Len(b) < arg.n THEN Len(b) ELSE arg.n IN
     IF b # << >>
     THEN /\ IF cur = "p" THEN pb' = From(pb, n + 1) /\ UNCHANGED cb
                          ELSE cb' = From(cb, n + 1) /\ UNCHANGED pb
          /\ Return(Upto(b, n), "", n) /\ NoTransport /\ UNCHANGED << cur, zst >>
     ELSE IF cur = "p"
     THEN \E r \in Answers(arg.n) :
          Take(r) /\ Return(Vals(Got(r)), r.err, r.n) /\ UNCHANGED << pb, cb, cur, zst >>
     ELSE /\ NoTransport /\ UNCHANGED << pb, cb >>
          /\ CASE zst = "ended"  -> cur' = "p" /\ zst' = "none" /\ UNCHANGED << rvars, arg, left, ev, ops, hist, pc >>
               [] zst = "broken" -> Return(<< >>, "other", 0) /\ UNCHANGED << cur, zst >>
               [] OTHER          -> pc' = "pull-raw" /\ UNCHANGED << rvars, arg, left, ev, ops, hist, cur, zst >>
PushRaw ==
  /\ pc = "push-raw" /\ zacc' = << >> /\ NoTransport /\ UNCHANGED << pb, cb, zst, ln, got, cur >>
  /\ IF zacc # << >>
     THEN Return(zacc, IF zst = "broken" THEN "other" ELSE "", Len(zacc))
     ELSE pc' = "raw" /\ UNCHANGED << rvars, arg, left, ev, ops, hist >>

\* a block: raw reads until it is complete or the stream ends
BinStep ==
  /\ pc = "bin" /\ UNCHANGED << ln, zacc >>
  /\ LET b == IF cur = "p" THEN Vals(pb) ELSE cb
         n == IF Len(b) < left THEN Len(b) ELSE left
         Add(s) == IF Len(got) + Len(s) <= arg.m THEN got \o s ELSE got \o Upto(s, arg.m - Len(got))
         done == arg.sz - left IN
     IF left = 0
     THEN Return(got, "", arg.sz) /\ NoTransport /\ UNCHANGED << pb, cb, cur, zst, got >>
     ELSE IF b # << >>
     THEN /\ IF cur = "p" THEN pb' = From(pb, n + 1) /\ UNCHANGED cb
                          ELSE cb' = From(cb, n + 1) /\ UNCHANGED pb
          /\ got' = Add(Upto(b, n)) /\ left' = left - n
          /\ NoTransport /\ UNCHANGED << rvars, arg, ev, ops, hist, cur, zst, pc >>
     ELSE IF cur = "p"
     THEN \E r \in Answers(left) :
          /\ Take(r) /\ UNCHANGED << pb, cb, cur, zst >>
          /\ IF r.n = 0 /\ r.err = "eof"
             THEN Return(got, "", done) /\ UNCHANGED got
             ELSE /\ got' = Add(Vals(Got(r))) /\ left' = left - r.n
                  /\ UNCHANGED << rvars, arg, ev, ops, hist, pc >>
     ELSE /\ NoTransport /\ UNCHANGED << pb, cb, got >>
          /\ CASE zst = "ended"  -> cur' = "p" /\ zst' = "none" /\ UNCHANGED << rvars, arg, left, ev, ops, hist, pc >>
               [] zst = "broken" -> Return(<< >>, "other", 0) /\ UNCHANGED << cur, zst >>
               [] OTHER          -> pc' = "pull-bin" /\ UNCHANGED << rvars, arg, left, ev, ops, hist, cur, zst >>
PushBin ==
  /\ pc = "push-bin" /\ zacc' = << >> /\ NoTransport
  /\ got' = (IF Len(got) + Len(zacc) <= arg.m THEN got \o zacc ELSE got \o Upto(zacc, arg.m - Len(got)))
  /\ left' = left - Len(zacc) /\ pc' = "bin"
  /\ UNCHANGED << rvars, arg, ev, ops, hist, pb, cb, cur, zst, ln >>

\* EnableZlib checks the header of the section
ZonStep ==
  /\ pc = "zon" /\ UNCHANGED << ln, zacc, got >>
  /\ IF cur = "z"
     THEN Return(<< >>, "other", 0) /\ NoTransport /\ UNCHANGED << pb, cb, cur, zst >>
     ELSE IF pb = << >>
     THEN \E r \in Answers(C) :
          /\ ~(r.n = 0 /\ r.err = "eof") /\ Take(r) /\ pb' = Got(r)
          /\ UNCHANGED << rvars, arg, left, ev, ops, hist, cb, cur, zst, pc >>
     ELSE /\ pb[1].t = "H" /\ pb' = Tail(pb) /\ cb' = << >> /\ cur' = "z" /\ zst' = "open" /\ NoTransport
          /\ pc' = "idle" /\ ops' = ops + 1
          /\ ev' = [e |-> "zon", d |-> << >>, err |-> "", op |-> ops']
          /\ hist' = Append(hist, arg)
          /\ k' = k + 1 /\ off' = 0 /\ UNCHANGED << zones, delim, lim, mode, arg, left >>

Scenario ==
  PrintT("SCEN " \o ToJson([zones |-> zones, lim |-> lim, script |-> script, ops |-> hist]))
Stop ==
  /\ Show /\ pc = "idle" /\ (ops = MaxOps \/ mode # "ok") /\ Scenario
  /\ pc' = "end" /\ UNCHANGED << rvars, w, pb, cb, cur, zst, ln, zacc, arg, left, got, tmps, ev, ops, script, hist >>

Next == (mode = "ok" /\ Invoke) \/ ScanStep \/ Pull \/ PushLine \/ RawStep \/ PushRaw \/ BinStep \/ PushBin \/ ZonStep \/ Stop
Spec == Init /\ [][Next]_all

\* every returned call is allowed by the abstract reader
Conform == [][ev' # ev => EvStep(ev', 0, FALSE)]_all
BufsBounded == Len(pb) <= C /\ Len(cb) <= C
=============================================================================
