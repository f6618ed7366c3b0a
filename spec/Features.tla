------------------------------ MODULE Features ------------------------------
(* Sets of features and extensions: of ADC with additions and removals (mod),  *)
(* lists of ADC features (ext), NMDC extensions (nm) and lists of them (sup).  *)
(* The registers are the sets a program holds; every operation but the         *)
(* explicit changes makes a new one and leaves the others as they are.         *)
EXTENDS Bytes

VARIABLE regs     \* sequence of [k, s, l]: s is a set of << name, on >>, l a list of names
Val(kind, set_, list_) == [k |-> kind, s |-> set_, l |-> list_]
Mod(set_) == Val("mod", set_, << >>)
Nm(set_) == Val("nm", set_, << >>)

Names(set_) == {x[1] : x \in set_}
On(set_) == {x[1] : x \in {y \in set_ : y[2]}}
\* an update over what was known before
Over(a, b) == {x \in a : x[1] \notin Names(b)} \cup b
Both(a, b) == {<< n_, TRUE >> : n_ \in On(a) \cap On(b)}
ListOn(l_) == {l_[i_] : i_ \in 1..Len(l_)}
\* names that can be on a list of features, and of extensions
FeaName(n_) == Len(n_) = 4 /\ \A i_ \in 1..4 : n_[i_] \notin {SP, LF, 0, 92, 44}
ExtName(n_) == Len(n_) > 0 /\ \A i_ \in 1..Len(n_) : n_[i_] \notin {SP, 124, 36}

FInit == regs = << >>
Make(v) == regs' = Append(regs, v)
Is(a, kind) == a \in 1..Len(regs) /\ regs[a].k = kind

Clone(a) == a \in 1..Len(regs) /\ regs[a].k \in {"mod", "nm"} /\ Make(regs[a])
SetFrom(a, b) == Is(a, "mod") /\ Is(b, "mod") /\ Make(Mod(Over(regs[a].s, regs[b].s)))
Inter(a, b) == /\ a \in 1..Len(regs) /\ regs[a].k \in {"mod", "nm"} /\ Is(b, regs[a].k)
               /\ Make(Val(regs[a].k, Both(regs[a].s, regs[b].s), << >>))
InterList(a, b) == Is(a, "nm") /\ Is(b, "sup") /\ Make(Nm(Both(regs[a].s, {<< n_, TRUE >> : n_ \in ListOn(regs[b].l)})))
\* the common names, however they are listed
InterSup(a, b, r) == /\ Is(a, "sup") /\ Is(b, "sup") /\ r.k = "sup" /\ ListOn(r.l) = ListOn(regs[a].l) \cap ListOn(regs[b].l)
                     /\ Make(r)
Query(a, n_, r) == /\ a \in 1..Len(regs) /\ UNCHANGED regs
                   /\ r = (IF regs[a].k \in {"mod", "nm"} THEN n_ \in On(regs[a].s) ELSE n_ \in ListOn(regs[a].l))
\* the names of the set, each once
ListOf(a, l_) == /\ a \in 1..Len(regs) /\ regs[a].k \in {"mod", "nm"} /\ UNCHANGED regs
                 /\ ListOn(l_) = On(regs[a].s) /\ Cardinality(ListOn(l_)) = Len(l_)
\* encoding, and decoding it again
Wire(a, r) == /\ a \in 1..Len(regs) /\ r = regs[a] /\ Make(r)
\* changes made by the program itself
Put(a, n_, on) == /\ a \in 1..Len(regs) /\ regs[a].k \in {"mod", "nm"}
                  /\ regs' = [regs EXCEPT ![a].s = Over(@, {<< n_, on >>})]
\* receiving the encoding of b into a
Receive(a, b) == Is(a, "mod") /\ Is(b, "mod") /\ regs' = [regs EXCEPT ![a].s = Over(@, regs[b].s)]
=============================================================================
