-------------------------------- MODULE MCIds -------------------------------
(* Base32 over all short byte strings, session identifiers over a range, and   *)
(* whole identifiers that differ in few places.                                *)
EXTENDS Ids, Json
CONSTANTS SidStep, Emit
VARIABLES k, v
vars == << k, v >>
AllZero == [i \in 1..24 |-> 0]
\* a few bytes set at any place
Marks == {0, 1, 8, 16, 31, 128, 255}
Init ==
  \/ k = "sid" /\ \E n \in 0..((1048576 \div SidStep) - 1) : v = << n * SidStep + ((n * 7) % SidStep) >>
  \/ k = "short" /\ \/ \E a \in 0..255 : v = << a >>
                    \/ \E a \in {0, 1, 7, 8, 31, 32, 127, 128, 255}, b \in 0..255 : v \in {<< a, b >>, << b, a >>}
                    \/ \E a, b, c, d, e \in {0, 1, 128, 255} : v \in {<< a, b, c, d, e >>, << a, b, c, d >>, << a, b, c >>}
  \/ k = "id" /\ \E i, j \in 1..24, a, b \in Marks : v = [AllZero EXCEPT ![i] = a, ![j] = b]
Spec == Init /\ [][UNCHANGED vars]_vars
Sids == k = "sid" => /\ SidVal(SidText(v[1])) = v[1] /\ IsB32(SidText(v[1]))
                     /\ SidOf(SidText(v[1])) = OkV(SidText(v[1]))
Shorts == k = "short" => /\ Len(B32Enc(v)) = (8 * Len(v) + 4) \div 5 /\ IsB32(B32Enc(v)) /\ B32Dec(B32Enc(v)) = v
Whole == k = "id" => /\ Len(HashText(v)) = HashChars /\ HashOf(HashText(v)) = OkV(v)
Scenario == Emit /\ k # "short" /\ PrintT("SCEN " \o ToJson([k |-> k, v |-> v]))
Shown == Scenario \/ TRUE
=============================================================================
