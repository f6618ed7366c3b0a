------------------------------- MODULE MCAddr -------------------------------
(* All combinations of a few schemes, users, hosts, ports, paths and queries.    *)
EXTENDS Addr, Json, TLC
CONSTANT Emit, Few
VARIABLES a, done
O(S_) == {<< >>} \cup {<< AD(s_) >> : s_ \in S_}
Schemes == O({"dchub", "nmdc", "nmdcs", "adc", "adcs", "ADC", "NMDC", "Dchub", "AdcS", "http", "adcx", "nmdcx", "d", "ad", "dchubs"})
Users == O({"u", "u:p", "adc"})
Hosts == {AD(h_) : h_ \in {"", "h", "adc", "adcs", "dchub", "adc.example.com", "nmdc-hub", "10.0.0.1", "A.B", "[::]", "[fe80::1]", "[1:2:3:4:5:6:7:8]"}}
Ports == O({"", "1", "411", "65535"})
Paths == {AD(p_) : p_ \in {"", "/", "//", "/a", "/a/", "//a//b///", "/a%2F/", "/adc://x", "/a%20b%2Fc/", "/:1"}}
Queries == O({"", "kp=SHA256/AB", "x=adc://y:1/", "a=b&c=d/"})
Frags == O({"", "f", "adc://"})
None == [scheme |-> << >>, user |-> << >>, host |-> << >>, port |-> << >>, path |-> << >>, query |-> << >>, frag |-> << >>]
\* "h:" before a path "//x" reads as a scheme
Reads(b_) == b_.scheme # << >> \/ b_.port # << << >> >> \/ Len(b_.path) < 2 \/ b_.path[2] # ASlash
Init == done = FALSE /\ \E s_ \in Schemes, h_ \in Hosts : a = [None EXCEPT !.scheme = s_, !.host = h_]
Next == /\ ~done /\ done' = TRUE
        /\ \E u_ \in IF Few THEN O({"u:p"}) ELSE Users, p_ \in Ports, w_ \in Paths,
              q_ \in IF Few THEN O({"x=adc://y:1/"}) ELSE Queries, f_ \in IF Few THEN O({"f"}) ELSE Frags :
             a' = [a EXCEPT !.user = u_, !.port = p_, !.path = w_, !.query = q_, !.frag = f_]
        /\ Reads(a')
Spec == Init /\ [][Next]_<< a, done >>
Kinds_ == {"dc", "nmdc", "adc"}
\* the text determines the parts
Unambiguous == Split(Join(a)) = a
\* everything here is in the domain
Specified == \A k_ \in Kinds_ : NormSt(a, k_) # "any"
\* the canonical form is canonical, accepted, and means the same
Idempotent == \A k_ \in Kinds_ : NormSt(a, k_) = "ok" =>
  LET b_ == CanonAddr(a, k_) IN NormSt(b_, k_) = "ok" /\ CanonAddr(b_, k_) = b_ /\ Split(Join(b_)) = b_
\* the general functions agree with those of the protocol
Dispatch == /\ NormSt(a, "dc") = "ok" => \E k_ \in {"nmdc", "adc"} : NormSt(a, k_) = "ok" /\ CanonAddr(a, k_) = CanonAddr(a, "dc")
            /\ \A k_ \in {"nmdc", "adc"} : NormSt(a, k_) = "ok" => NormSt(a, "dc") = "ok"
\* no two protocols claim the same address
Apart == ~(NormSt(a, "nmdc") = "ok" /\ NormSt(a, "adc") = "ok")
\* no scheme means the default one; the alias and slashes make no difference
Same(b_) == \A k_ \in {"dc", "nmdc"} : NormSt(a, k_) = NormSt(b_, k_) /\ (NormSt(a, k_) = "ok" => CanonAddr(a, k_) = CanonAddr(b_, k_))
Default == a.scheme = << >> => Same([a EXCEPT !.scheme = << AD("dchub") >>]) /\ Same([a EXCEPT !.scheme = << AD("nmdc") >>])
Slashes == a.path # << >> => Same([a EXCEPT !.path = @ \o << ASlash >>])
Scenario == Emit /\ done /\ PrintT("SCEN " \o ToJson([text |-> Join(a)]))
Shown == Scenario \/ TRUE
=============================================================================
