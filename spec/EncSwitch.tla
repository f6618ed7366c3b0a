----------------------------- MODULE EncSwitch ------------------------------
(* The encoding of a connection that is switched from another goroutine while messages are
   written (or read).  A switch takes effect at one moment between the beginning and the end of the
   call; a message uses the encoding that is current at one moment between its beginning and end, for
   all of its texts.

   A history is a sequence of events: a switch begins ("sb", cs) and ends ("se"), a message begins
   ("mb") and ends ("me").  Configs is the set of all explanations of a history so far; a history
   that has none does not conform. *)
EXTENDS Charset, FiniteSets

Cfg == [cur : Charsets, set : Charsets \cup {"none", "done"}, msg : Charsets \cup {"none", "open"}]

\* what may happen without an event
Effect(c) == IF c.set \in {"none", "done"} THEN {} ELSE {[c EXCEPT !.cur = c.set, !.set = "done"]}
Load(c)   == IF c.msg = "open" THEN {[c EXCEPT !.msg = c.cur]} ELSE {}
Silent(C_) == C_ \cup UNION {Effect(c) \cup Load(c) : c \in C_}
Closure(C_) == Silent(Silent(C_))   \* at most one of each, in either order

Start(cs) == {[cur |-> cs, set |-> "none", msg |-> "none"]}
SetBegin(C_, cs) == {[c EXCEPT !.set = cs] : c \in {c \in Closure(C_) : c.set = "none"}}
SetEnd(C_)       == {[c EXCEPT !.set = "none"] : c \in {c \in Closure(C_) : c.set = "done"}}
MsgBegin(C_)     == {[c EXCEPT !.msg = "open"] : c \in {c \in Closure(C_) : c.msg = "none"}}
\* Fits(cs): the message is what it is in this encoding
MsgEnd(C_, Fits(_)) == {[c EXCEPT !.msg = "none"] : c \in {c \in Closure(C_) : c.msg \notin {"none", "open"} /\ Fits(c.msg)}}
=============================================================================
