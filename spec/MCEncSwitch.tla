---------------------------- MODULE MCEncSwitch -----------------------------
(* One switches, one sends; the set of explanations of EncSwitch contains what really happened,
   and it leaves no choice where nothing overlaps. *)
EXTENDS EncSwitch, TLC
CONSTANTS MaxSets, MaxMsgs
VARIABLES cur, set, msg,   \* what really happens
          C,               \* the explanations
          sets, msgs,      \* how many so far
          clean            \* the encoding the running message must have, if no switch overlaps it
vars == << cur, set, msg, C, sets, msgs, clean >>
Cs == {"utf8", "cp1251", "koi8-r"}
Init == /\ cur = "utf8" /\ set = "none" /\ msg = "none" /\ C = Start("utf8") /\ sets = 0 /\ msgs = 0 /\ clean = "any"

SB == /\ set = "none" /\ sets < MaxSets /\ \E cs \in Cs : set' = cs /\ C' = SetBegin(C, cs)
      /\ sets' = sets + 1 /\ clean' = "any" /\ UNCHANGED << cur, msg, msgs >>
Eff == set \in Cs /\ cur' = set /\ set' = "done" /\ UNCHANGED << msg, C, sets, msgs, clean >>
SE == set = "done" /\ set' = "none" /\ C' = SetEnd(C) /\ UNCHANGED << cur, msg, sets, msgs, clean >>
MB == /\ msg = "none" /\ msgs < MaxMsgs /\ msg' = "open" /\ msgs' = msgs + 1 /\ C' = MsgBegin(C)
      /\ clean' = (IF set = "none" THEN cur ELSE "any") /\ UNCHANGED << cur, set, sets >>
Ld == msg = "open" /\ msg' = cur /\ UNCHANGED << cur, set, C, sets, msgs, clean >>
ME == /\ msg \in Cs /\ msg' = "none" /\ C' = MsgEnd(C, LAMBDA cs : cs = msg)
      /\ clean' = "any" /\ UNCHANGED << cur, set, sets, msgs >>
Next == SB \/ Eff \/ SE \/ MB \/ Ld \/ ME
Spec == Init /\ [][Next]_vars

Sound == [cur |-> cur, set |-> set, msg |-> msg] \in Closure(C)
Sharp == clean # "any" /\ msg # "none" =>
           /\ msg # "open" => msg = clean
           /\ \A cs \in Cs \ {clean} : MsgEnd(C, LAMBDA x : x = cs) = {}
Small == Cardinality(C) <= 4
=============================================================================
