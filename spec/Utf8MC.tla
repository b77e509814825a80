------------------------------- MODULE Utf8MC -------------------------------
(* every byte-class string up to length N: the automaton and the grammar agree *)
EXTENDS Utf8, TLC
CONSTANT N
VARIABLES s, d, bad
vars == <<s, d, bad>>
Init == s = <<>> /\ d = Idle /\ bad = FALSE
Read(c) == /\ Len(s) < N
           /\ s' = Append(s, c)
           /\ bad' = (bad \/ Accept(d, c) = "bad")
           /\ d' = Advance(d, c)
Next == \E c \in Classes : Read(c)
Spec == Init /\ [][Next]_vars
Pending == IF d = Idle THEN <<>> ELSE SubSeq(s, Len(s) - d.n + 1, Len(s))
Agree == /\ (~bad /\ d = Idle) <=> WellFormed(s)
         /\ d # Idle => Prefix(Pending)
         /\ ~bad => WellFormed(SubSeq(s, 1, Len(s) - d.n))
=============================================================================
