------------------------------ MODULE MCTotal -------------------------------
(* All short bodies over the bytes and words that decoders look for: a body is    *)
(* received byte by byte and given to a decoder when it ends.                  *)
EXTENDS Total, Json, TLC
CONSTANTS MaxLen, Emit
VARIABLES fam, body, st
\* the symbols of each family of decoders; "" of the text stands for nothing
Symbols == [nmdc |-> {"$", "|", " ", "&", "<", ">", "?", "a", "1", "-", "\\", "/", "(", ")", ":", ",", "#"},
            adc  |-> {" ", "\n", "\\", "a", "A", "AAAA", "+", "-", "1", "AD", "RM", "NI", ",", "/", ".", "e"},
            addr |-> {":", "/", "?", "#", "@", "[", "]", "%", "a", "1", "adc", "://"}]
Init == fam \in DOMAIN Symbols /\ body = << >> /\ st = "receiving"
Receive == st = "receiving" /\ Len(body) < MaxLen /\ \E s_ \in Symbols[fam] : body' = Append(body, s_) /\ UNCHANGED << fam, st >>
Decode == st = "receiving" /\ st' \in Outcomes /\ UNCHANGED << fam, body >>
Next == Receive \/ Decode
Spec == Init /\ [][Next]_<< fam, body, st >> /\ WF_<< fam, body, st >>(Next)
\* a decoder that is called ends
Ends == <>(st \in Outcomes)
Scenario == Emit /\ st = "value" /\ PrintT("SCEN " \o ToJson([fam |-> fam, body |-> body]))
Shown == Scenario \/ TRUE
=============================================================================
