------------------------------ MODULE Utf8Table ------------------------------
(* the decoding automaton, printed *)
EXTENDS Utf8, TLC, Json
VARIABLE d
Init == d = Idle
Next == \E c \in Classes :
          /\ d' = Advance(d, c)
          /\ PrintT("T " \o ToJson([s |-> d, c |-> c, t |-> Advance(d, c), out |-> Accept(d, c)]))
Spec == Init /\ [][Next]_d
=============================================================================
