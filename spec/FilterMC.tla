------------------------------ MODULE FilterMC ------------------------------
(* Tokens up to N bytes: reading byte by byte finds what the definition asks for. *)
EXTENDS Filter, TLC
CONSTANT N
VARIABLES w, st
Init == w = <<>> /\ st = FInit
Symbols == {[c |-> c, v |-> b] : c \in Classes, b \in BOOLEAN}
\* once found it stays found, so words are only extended while it is not
Next == /\ Len(w) < N /\ ~st.yes
        /\ \E y \in Symbols : w' = Append(w, y) /\ st' = FStep(st, y)
Spec == Init /\ [][Next]_<<w, st>>
Agree == st.yes <=> Wanted(w)
\* what follows does not take it back
Stays == \A y \in Symbols : st.yes => FStep(st, y).yes
\* a token that is well-formed is judged unit by unit
Sync == WellFormed(ClassesOf(w)) => st.d = Idle
=============================================================================
