-------------------------------- MODULE MCTth -------------------------------
(* Hashing a stream: the source delivers any part of what is asked for, and    *)
(* fails anywhere; blocks are hashed as they fill up, and the list of leaves    *)
(* is then reduced in place.                                                  *)
EXTENDS Tth, Json
CONSTANTS MaxLen, MaxStutter, Bs, MaxLeaves, Emit

VARIABLES len,    \* length of the data
          src,    \* how much of it has been delivered
          buf,    \* what the current block holds, as positions
          st,     \* reading, reduce, done, failed
          lvl, i, top,   \* the list, reduced in place; top is the length of the current level
          leaves,  \* the list before the reduction
          stut, script
vars == << len, src, buf, st, lvl, i, top, leaves, stut, script >>

Leaf(b_) == << -3 >> \o b_ \o << -4 >>
Join(x_, y_) == Node(<< >>, x_, y_)
Range(a_, b_) == [j_ \in 1..(b_ - a_) |-> a_ + j_]
Block(j_) == Leaf(Range((j_ - 1) * Bs, IF j_ * Bs < len THEN j_ * Bs ELSE len))
Blocks == [j_ \in 1..NBlocks(len, Bs) |-> Block(j_)]

Init ==
  \/ /\ len \in 0..MaxLen /\ st = "read" /\ lvl = << >>
     /\ src = 0 /\ buf = << >> /\ i = 1 /\ top = 0 /\ leaves = << >> /\ stut = 0 /\ script = << >>
  \/ \* reduction of longer lists
     /\ ~Emit /\ len \in (MaxLen + 1)..MaxLeaves /\ st = "reduce"
     /\ lvl = [j_ \in 1..len |-> << j_ >>] /\ leaves = lvl /\ top = len
     /\ src = len /\ buf = << >> /\ i = 1 /\ stut = 0 /\ script = << >>
Say(k_, e_) == script' = IF Emit THEN Append(script, << k_, e_ >>) ELSE script
Full == Len(buf) = Bs
Over == IF buf = << >> /\ lvl # << >> THEN lvl ELSE Append(lvl, Leaf(buf))
Read ==
  /\ st = "read" /\ ~Full
  /\ \E k_ \in 0..(Bs - Len(buf)), e_ \in {"", "eof", "err"} :
       /\ src + k_ <= len
       /\ (e_ = "eof" => src + k_ = len)
       /\ IF k_ = 0 /\ e_ = "" THEN stut < MaxStutter /\ stut' = stut + 1 ELSE UNCHANGED stut
       /\ src' = src + k_ /\ Say(k_, e_)
       /\ LET b_ == buf \o Range(src, src + k_) IN
          CASE e_ = "err" -> st' = "failed" /\ buf' = b_ /\ UNCHANGED << lvl, top, leaves >>
            [] e_ = "eof" -> LET l_ == IF b_ = << >> /\ lvl # << >> THEN lvl ELSE Append(lvl, Leaf(b_)) IN
                             st' = "reduce" /\ lvl' = l_ /\ leaves' = l_ /\ top' = Len(l_) /\ buf' = << >>
            [] OTHER -> buf' = b_ /\ UNCHANGED << st, lvl, top, leaves >>
  /\ UNCHANGED << len, i >>
Flush == st = "read" /\ Full /\ lvl' = Append(lvl, Leaf(buf)) /\ buf' = << >> /\ UNCHANGED << len, src, st, i, top, leaves, stut, script >>
\* the reduction in place, pair by pair
Pair ==
  /\ st = "reduce" /\ top > 1
  /\ IF 2 * i - 1 <= top
     THEN /\ lvl' = [lvl EXCEPT ![i] = IF 2 * i <= top THEN Join(lvl[2 * i - 1], lvl[2 * i]) ELSE lvl[2 * i - 1]]
          /\ i' = i + 1 /\ UNCHANGED top
     ELSE top' = (top + 1) \div 2 /\ i' = 1 /\ UNCHANGED lvl
  /\ UNCHANGED << len, src, buf, st, leaves, stut, script >>
Done == st = "reduce" /\ top = 1 /\ st' = "done" /\ UNCHANGED << len, src, buf, lvl, i, top, leaves, stut, script >>
Next == Read \/ Flush \/ Pair \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LeavesRight == st \in {"reduce", "done"} /\ len <= MaxLen => leaves = Blocks
RootRight == st = "done" => lvl[1] = Root(leaves, << >>) /\ lvl[1] = Reduce(leaves, << >>)
AllRead == st \in {"reduce", "done"} => src = len
Scenario == Emit /\ st \in {"done", "failed"} /\ PrintT("SCEN " \o ToJson([len |-> len, script |-> script]))
Shown == Scenario \/ TRUE
Ends == <>(st \in {"done", "failed"} \/ stut = MaxStutter)
=============================================================================
