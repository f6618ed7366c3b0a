----------------------------- MODULE MCFeatures -----------------------------
(* All short histories of two parties holding sets of a few names.            *)
EXTENDS Features, Json
CONSTANTS MaxRegs, MaxPuts, Emit
VARIABLES puts, first, hist
vars == << regs, puts, first, hist >>
Universe == {<< 65 >>, << 66 >>}
Mods == {m_ \in SUBSET (Universe \X BOOLEAN) : \A x, y \in m_ : x[1] = y[1] => x = y}
Do(h_) == hist' = IF Emit THEN Append(hist, h_) ELSE hist
Init == /\ puts = 0 /\ hist = << >>
        /\ \E a, b \in Mods : regs = << Mod(a), Mod(b) >> /\ first = << a, b >>
Steps ==
  \/ /\ Len(regs) < MaxRegs /\ UNCHANGED puts
     /\ \E a, b \in 1..Len(regs) :
          \/ Clone(a) /\ b = a /\ Do([op |-> "clone", a |-> a, b |-> a])
          \/ SetFrom(a, b) /\ Do([op |-> "setfrom", a |-> a, b |-> b])
          \/ Inter(a, b) /\ Do([op |-> "inter", a |-> a, b |-> b])
          \/ b = a /\ Wire(a, regs[a]) /\ Do([op |-> "wire", a |-> a, b |-> a])
  \/ /\ puts < MaxPuts /\ puts' = puts + 1
     /\ \E a \in 1..Len(regs) :
          \/ \E n_ \in Universe, on \in BOOLEAN : Put(a, n_, on) /\ Do([op |-> "put", a |-> a, name |-> n_, on |-> on])
          \/ \E b \in 1..Len(regs) : Receive(a, b) /\ Do([op |-> "receive", a |-> a, b |-> b])
Next == Steps /\ UNCHANGED first
\* histories for the real code
Scenario == Emit /\ Len(regs) = MaxRegs /\ PrintT("SCEN " \o ToJson([first |-> first, hist |-> hist]))
Shown == Scenario \/ TRUE
Spec == Init /\ [][Next]_vars

R(a) == regs[a].s
Idx == 1..Len(regs)
WellFormed == \A a \in Idx : \A x, y \in R(a) : x[1] = y[1] => x = y
\* the laws a program relies on
Laws ==
  \A a, b \in Idx :
    /\ Both(R(a), R(b)) = Both(R(b), R(a))
    /\ On(Both(R(a), R(b))) = On(R(a)) \cap On(R(b))
    /\ Both(R(a), R(a)) = {x \in R(a) : x[2]}
    /\ Over({}, R(a)) = R(a) /\ Over(R(a), {}) = R(a) /\ Over(R(a), R(a)) = R(a)
    /\ On(Over(R(a), R(b))) = (On(R(a)) \ (Names(R(b)) \ On(R(b)))) \cup On(R(b))
    /\ \A c_ \in Idx : Over(Over(R(a), R(b)), R(c_)) = Over(R(a), Over(R(b), R(c_)))
\* only the changes of the program itself change a set
Frame == [][\A a \in Idx : regs'[a] # regs[a] => puts' = puts + 1]_vars
=============================================================================
