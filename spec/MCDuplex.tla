----------------------------- MODULE MCDuplex -------------------------------
(* One direction with its machinery: a write buffer over the transport or a compressor, a transport
   that cuts, a read buffer, an inflater that may hold back what it was given until a flush point.
   Shown: it does what Duplex says, and the reader waits only when all that was flushed has been
   handed out (Prompt); with a fair reader everything flushed is handed out (Arrives).

   Units are numbers: 10i+1, 10i+2 are the two halves of the i-th message (a message is handed out
   when its second half is there), 10i is a byte of a block.  On the wire a compressed unit u is
   100+u, and there are the marks of a compressed section, of which the head is a unit of its own. *)
EXTENDS Duplex, Integers, FiniteSets, TLC, Json
CONSTANTS CapW, CapR,  \* buffers
          MaxOps,      \* calls of the writer
          Emit,        \* print the sequences of calls
          Greedy       \* a reader that fills its buffer first (to see that Prompt tells)

ZHead == 1   ZSync == 2   ZEnd == 3
VARIABLES ops,                \* what the writer was asked to do
          dir,                \* the abstract direction
          bw, zon, zh, zp,    \* write buffer, compressor on, header written, units kept by it
          wire,
          rb, rz, ip, io,     \* read buffer; inflater: "off", "head", "on", "end"; kept by it, available
          line                \* half a message
vars == << ops, dir, bw, zon, zh, zp, wire, rb, rz, ip, io, line >>
wvars == << ops, bw, zon, zh, zp >>
rvars == << rb, rz, ip, io, line >>

Init == /\ ops = << >> /\ dir = Quiet /\ bw = << >> /\ zon = FALSE /\ zh = FALSE /\ zp = << >> /\ wire = << >>
        /\ rb = << >> /\ rz = "off" /\ ip = << >> /\ io = << >> /\ line = << >>

Items == Len(dir.sent)
\* the abstract units are << number, kind >>
Half(i) == << 10 * i + 1, 10 * i + 2 >>
Front(s, n) == SubSeq(s, 1, n)
Back(s, n)  == SubSeq(s, n + 1, Len(s))

\* w: [bw, zh, zp, wire]
Sink(w, us) == IF us = << >> THEN w
               ELSE IF ~zon THEN [w EXCEPT !.wire = @ \o us]
               ELSE [w EXCEPT !.wire = IF w.zh THEN @ ELSE Append(@, ZHead), !.zh = TRUE, !.zp = @ \o us]
\* a buffered writer passes on what does not fit
Put(w, us) == LET all == w.bw \o us
                  n   == (Len(all) \div CapW) * CapW
                  m   == IF n = Len(all) /\ n > 0 THEN n - CapW ELSE n
              IN [Sink(w, Front(all, m)) EXCEPT !.bw = Back(all, m)]
Drain(w) == [Sink(w, w.bw) EXCEPT !.bw = << >>]
Deflated(us) == [i_ \in 1..Len(us) |-> 100 + us[i_]]
Sync(w) == LET v == Drain(w) IN
           IF ~zon THEN v
           ELSE [v EXCEPT !.wire = (IF v.zh THEN @ ELSE Append(@, ZHead)) \o Append(Deflated(v.zp), ZSync), !.zh = TRUE, !.zp = << >>]
Finish(w) == LET v == Drain(w) IN
           [v EXCEPT !.wire = (IF v.zh THEN @ ELSE Append(@, ZHead)) \o Append(Deflated(v.zp), ZEnd), !.zh = FALSE, !.zp = << >>]
W == [bw |-> bw, zh |-> zh, zp |-> zp, wire |-> wire]
Becomes(w) == bw' = w.bw /\ zh' = w.zh /\ zp' = w.zp /\ wire' = w.wire
Op(o) == Len(ops) < MaxOps /\ ~dir.closed /\ ops' = Append(ops, o) /\ UNCHANGED rvars

Msg   == Op("m") /\ Becomes(Put(W, Half(Items + 1))) /\ dir' = Accept(dir, << << Items + 1, "msg" >> >>) /\ UNCHANGED zon
Byte  == Op("b") /\ dir' = Accept(dir, << << Items + 1, "byte" >> >>) /\ Becomes(Put(W, << 10 * (Items + 1) >>)) /\ UNCHANGED zon
Flush == Op("f") /\ Becomes(Sync(W)) /\ dir' = Flushed(dir) /\ UNCHANGED zon
\* the message that announces compression, then the switch
ZOn   == /\ ~zon /\ Op("z")
         /\ Becomes(Sync(Put(W, Half(Items + 1)))) /\ zon' = TRUE
         /\ dir' = SwitchedOn(Accept(dir, << << Items + 1, "zon" >>, << Items + 2, "head" >> >>))
ZOff  == zon /\ Op("o") /\ Becomes(Finish(W)) /\ zon' = FALSE /\ dir' = Flushed(dir)
Close == /\ ~dir.closed /\ Becomes(IF zon THEN Finish(W) ELSE Drain(W)) /\ dir' = CloseDir(dir) /\ zon' = FALSE
         /\ Len(ops) = MaxOps /\ UNCHANGED ops /\ UNCHANGED rvars
         /\ Emit => PrintT("SCEN " \o ToJson([ops |-> ops]))
\* the compressor may pass on what it keeps at any time
Spill == /\ zp # << >> /\ wire' = Append(wire, 100 + zp[1]) /\ zp' = Back(zp, 1)
         /\ UNCHANGED << ops, dir, bw, zon, zh >> /\ UNCHANGED rvars
Writer == Msg \/ Byte \/ Flush \/ ZOn \/ ZOff \/ Close \/ Spill

\* --- the reader ---
Handed(u) == \* unit u arrives at the assembly of messages
  LET i == u \div 10 h == u % 10 IN
  IF h = 1 THEN /\ line = << >> /\ line' = << u >> /\ UNCHANGED dir /\ rz' = rz
  ELSE LET un == IF h = 0 THEN << i, "byte" >> ELSE << i, dir.sent[i][2] >> IN
       /\ IF h = 2 THEN line = << u - 1 >> ELSE line = << >>
       /\ line' = << >>
       /\ CanDeliver(dir, << un >>)
       /\ dir' = Deliver(dir, << un >>)
       /\ rz' = IF h = 2 /\ un[2] = "zon" THEN "head" ELSE rz
\* the reader has something to work on without the transport
InHand == io # << >> \/ (rb # << >> /\ (Greedy => Len(rb) >= CapR)) \/ rz = "end"
Take ==
  /\ UNCHANGED wvars /\ UNCHANGED wire
  /\ IF io # << >> THEN Handed(io[1]) /\ io' = Back(io, 1) /\ UNCHANGED << rb, ip >>
     ELSE IF rz = "end" THEN rz' = "off" /\ UNCHANGED << dir, rb, ip, io, line >>
     ELSE /\ rb # << >> /\ (Greedy => Len(rb) >= CapR) /\ rb' = Back(rb, 1)
          /\ LET u == rb[1] IN
             CASE rz = "off"  -> u >= 10 /\ u < 100 /\ Handed(u) /\ UNCHANGED << ip, io >>
               [] rz = "head" -> /\ u = ZHead /\ rz' = "on" /\ UNCHANGED << ip, io, line >>
                                 /\ CanDeliver(dir, << << dir.nr + 1, "head" >> >>)
                                 /\ dir' = Deliver(dir, << << dir.nr + 1, "head" >> >>)
               [] rz = "on"   -> /\ u > 100 \/ u \in {ZSync, ZEnd}
                                 /\ UNCHANGED << dir, line >>
                                 /\ IF u > 100 THEN /\ rz' = rz
                                                    /\ \/ ip' = Append(ip, u - 100) /\ io' = io
                                                       \/ ip' = << >> /\ io' = Append(ip, u - 100)
                                    ELSE io' = ip /\ ip' = << >> /\ rz' = (IF u = ZEnd THEN "end" ELSE "on")
Fetch == /\ ~InHand /\ wire # << >>
         /\ \E n \in 1..Len(wire) : n + Len(rb) <= CapR /\ rb' = rb \o Front(wire, n) /\ wire' = Back(wire, n)
         /\ UNCHANGED << dir, rz, ip, io, line >> /\ UNCHANGED wvars
Reader == Take \/ Fetch
Next == Writer \/ Reader
Spec == Init /\ [][Next]_vars /\ WF_vars(Reader)

Waiting == ~InHand /\ wire = << >>
Prompt  == Waiting => CanWait(dir)
\* the reader is never stuck in front of something it cannot use
Usable  == InHand => ENABLED Take
Whole   == Waiting /\ dir.closed => CanEnd(dir) /\ line = << >> /\ rz # "on"
Arrives == \A j \in 1..2 * MaxOps : (dir.nf >= j) ~> (dir.nr >= j)
=============================================================================
