----------------------------- MODULE MCKeyprint -----------------------------
(* Every small chain, file and announced key print.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxChain, MaxItems, Emit
VARIABLES k, chain, items, kp, role
vars == << k, chain, items, kp, role >>
Ids == 1..3
\* announced: the print of a certificate (also one that is not in the chain), or something close to one
Kps == {<< "print", i >> : i \in Ids} \cup {<< "lower", 1 >>, << "bare", 1 >>, << "longer", 1 >>, << "shorter", 1 >>, << "empty", 1 >>, << "otherhash", 1 >>}
Kinds == {"cert", "key", "trusted", "text", "broken", "headers"}
SeqsUpTo(S_, n) == UNION {[1..m -> S_] : m \in 0..n}
Init ==
  \/ /\ k = "tls" /\ chain \in SeqsUpTo(Ids, MaxChain) /\ kp \in Kps /\ items = << >>
     /\ role \in {"client", "server"} /\ (chain = << >> => role = "server")
  \/ /\ k = "file" /\ items \in SeqsUpTo(Kinds \X {1, 2}, MaxItems) /\ chain = << >> /\ kp = << "empty", 1 >> /\ role = "none"
Spec == Init /\ [][UNCHANGED vars]_vars
Print1(c) == << "print", c >>
Match == \E i \in 1..Len(chain) : Print1(chain[i]) = kp
Sound == k = "tls" => (Match <=> \E i \in Ids : kp = << "print", i >> /\ \E j \in 1..Len(chain) : chain[j] = i)
Scenario == Emit /\ PrintT("SCEN " \o ToJson([k |-> k, chain |-> chain, items |-> items, kp |-> kp, role |-> role]))
Shown == Scenario \/ TRUE
=============================================================================
