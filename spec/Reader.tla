------------------------------- MODULE Reader -------------------------------
(* What a line reader promises, independently of its buffers and of how the  *)
(* transport cuts the stream (properties C01, C02, C03; line hooks: C07).    *)
(*                                                                           *)
(* The incoming stream is described in "zones".  The first zone is plain.    *)
(* Every further zone starts with a compressed section, whose inflated       *)
(* content has length zl, directly followed by plain bytes; d is the logical *)
(* content of the whole zone (inflated section, then plain bytes).  A reader *)
(* moves to the next zone only by switching compression on exactly at the    *)
(* end of the current one.  bad tells what is wrong with the section of the  *)
(* last zone: "" nothing, "sum" only its checksum, "trunc" the stream ends   *)
(* inside of it (or its header is broken).                                   *)
EXTENDS Bytes

CONSTANT Slack        \* size of the read buffer: how far a line may exceed the limit

VARIABLES
  zones,              \* the incoming stream (constant during a session)
  delim,              \* line delimiter (constant during a session)
  k, off,             \* position: current zone and bytes of it consumed
  lim,                \* line length limit, <= 0: none
  mode                \* "ok"; "lost": limit exceeded or broken compression; "closed"

rvars == << zones, delim, k, off, lim, mode >>

Zone     == zones[k]
Rest     == From(Zone.d, off + 1)
EndAt(o) == FindByteFrom(Zone.d, delim, o + 1)       \* end of the line at o, 0 if incomplete
LineEnd  == EndAt(off)
AtLast   == k = Len(zones)
Healthy  == Zone.bad = ""
MayBeZ   == k > 1 /\ off <= Zone.zl                  \* compression is possibly still active
MustBeZ  == k > 1 /\ off < Zone.zl                   \* ... certainly

ReaderInit(zs, dl, mx) ==
  /\ zones = zs /\ delim = dl /\ k = 1 /\ off = 0 /\ lim = mx /\ mode = "ok"

Keep == UNCHANGED << zones, delim, lim >>
Lose == mode' = "lost" /\ UNCHANGED << k, off >> /\ Keep

\* The line starting at o is delivered (off <= o: lines in between were dropped by hooks).
LineOk(o, d) ==
  /\ mode = "ok" /\ EndAt(o) # 0
  /\ d = SubSeq(Zone.d, o + 1, EndAt(o))
  /\ lim > 0 => Len(d) <= lim + Slack
  /\ off' = EndAt(o) /\ UNCHANGED << k, mode >> /\ Keep

\* The stream ended: the unfinished tail is handed out with the error.
LineEof(o, d) ==
  /\ mode = "ok" /\ EndAt(o) = 0 /\ AtLast /\ Healthy
  /\ d = From(Zone.d, o + 1)
  /\ lim > 0 => Len(d) <= lim + Slack
  /\ off' = Len(Zone.d) /\ UNCHANGED << k, mode >> /\ Keep

\* A temporary transport error: what was consumed is handed out with it.
LineTmp(o, d) ==
  /\ mode = "ok" /\ IsPrefix(d, From(Zone.d, o + 1)) /\ ~HasByte(d, delim)
  /\ lim > 0 => Len(d) <= lim + Slack
  /\ off' = o + Len(d) /\ UNCHANGED << k, mode >> /\ Keep

\* The line starting at o is too long.
LineRefused(o) ==
  /\ mode = "ok" /\ lim > 0
  /\ IF EndAt(o) = 0 THEN Len(Zone.d) - o >= lim ELSE EndAt(o) - o > lim
  /\ Lose

\* The compressed section turns out to be broken while its content after o is read.
BrokenZ(o) ==
  /\ mode = "ok" /\ ~Healthy /\ MayBeZ
  /\ Zone.bad = "sum" => EndAt(o) = 0
  /\ Lose

\* A hook failed on the line starting at o.
LineHookErr(o) ==
  /\ mode = "ok" /\ EndAt(o) # 0
  /\ off' = EndAt(o) /\ UNCHANGED << k, mode >> /\ Keep

\* Raw reads of at most n bytes.
RawOk(n, d) ==
  /\ mode = "ok" /\ Len(d) <= n /\ IsPrefix(d, Rest)
  /\ off' = off + Len(d) /\ UNCHANGED << k, mode >> /\ Keep
RawEof(n, d) ==
  /\ RawOk(n, d) /\ AtLast /\ Healthy /\ off + Len(d) = Len(Zone.d)
RawBroken(n, d) ==
  /\ mode = "ok" /\ ~Healthy /\ MayBeZ /\ Len(d) <= n /\ IsPrefix(d, Rest)
  /\ Zone.bad = "sum" => d = Rest
  /\ Lose

\* A block of sz bytes is opened, m of its bytes are asked for, and it is closed.
Block(sz, m, d) ==
  /\ mode = "ok"
  /\ LET n == IF sz <= Len(Rest) THEN sz ELSE Len(Rest)
         r == IF m <= n THEN m ELSE n IN
     /\ (n < sz => AtLast /\ Healthy)
     /\ d = SubSeq(Zone.d, off + 1, off + r)
     /\ off' = off + n
  /\ UNCHANGED << k, mode >> /\ Keep
BlockBroken(sz) ==
  /\ mode = "ok" /\ ~Healthy /\ MayBeZ
  /\ Zone.bad = "sum" => sz >= Len(Rest)
  /\ Lose

ZOnOk ==
  /\ mode = "ok" /\ off = Len(Zone.d) /\ ~AtLast /\ ~MustBeZ
  /\ k' = k + 1 /\ off' = 0 /\ UNCHANGED mode /\ Keep
ZOnActive ==            \* switched on already: refused without any effect
  /\ mode = "ok" /\ MayBeZ /\ UNCHANGED rvars
ZOnBroken ==            \* the section does not even start correctly
  /\ mode = "ok" /\ off = Len(Zone.d) /\ ~AtLast /\ ~MustBeZ /\ zones[k+1].bad = "trunc"
  /\ Lose

SetLimit(n) == mode = "ok" /\ lim' = n /\ UNCHANGED << zones, delim, k, off, mode >>

Shut == mode # "closed" /\ mode' = "closed" /\ UNCHANGED << zones, delim, k, off, lim >>

\* --- line hooks ---------------------------------------------------------
\* log: the hook calls made during one read, << [h |-> number, d |-> line, r |-> verdict] >>.
\* All H hooks see a complete line, in order, until one of them drops or fails it.
\* Result: [ok, o (start of the line that was not dropped), end ("acc", "err", "none")]
RECURSIVE HookScan(_, _, _)
HookScan(log, o, H) ==
  IF log = << >> THEN [ok |-> TRUE, o |-> o, end |-> IF H = 0 THEN "acc" ELSE "none"]
  ELSE
    LET le == EndAt(o)
        line == SubSeq(Zone.d, o + 1, le)
        \* calls for this line: hooks 1..stop
        stop == CHOOSE j \in 1..Len(log) : /\ (j = Len(log) \/ j = H \/ log[j].r # "ok")
                                           /\ \A i \in 1..(j-1) : i # H /\ log[i].r = "ok"
        good == /\ le # 0 /\ stop <= H
                /\ \A i \in 1..stop : log[i].h = i /\ log[i].d = line
        v == log[stop].r
    IN IF ~good THEN [ok |-> FALSE, o |-> o, end |-> "none"]
       ELSE IF v = "drop" THEN HookScan(From(log, stop + 1), le, H)
       ELSE IF stop < Len(log) THEN [ok |-> FALSE, o |-> o, end |-> "none"]
       ELSE IF v = "err" THEN [ok |-> TRUE, o |-> o, end |-> "err"]
       ELSE IF stop = H THEN [ok |-> TRUE, o |-> o, end |-> "acc"]
       ELSE [ok |-> FALSE, o |-> o, end |-> "none"]
=============================================================================
