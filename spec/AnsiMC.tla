------------------------------- MODULE AnsiMC -------------------------------
(***************************************************************************)
(* All byte strings up to length N: the byte-by-byte recogniser finds      *)
(* exactly the sequences of the grammar.  The state carries the recogniser *)
(* under the four option settings.                                         *)
(***************************************************************************)
EXTENDS AnsiMachine
CONSTANTS N, Alphabet
VARIABLE t
Init == t = <<>>
Next == \E c \in Alphabet : Len(t) < N /\ (t = <<>> \/ Lengths(SubSeq(t, 1, Len(t) - 1), TRUE, TRUE) = {}) /\ t' = Append(t, c)
Spec == Init /\ [][Next]_<<t>>
Bool == {TRUE, FALSE}
ASSUME Partition == /\ UNION {ClassBytes[c] : c \in Classes} = 0 .. 255
                    /\ \A c, d \in Classes : c # d => ClassBytes[c] \cap ClassBytes[d] = {}
Unique == \A o7, o8 \in Bool : Cardinality(Lengths(t, o7, o8)) <= 1
Agree  == \A o7, o8 \in Bool : AnsiLen(o7, o8, t) = SeqLen(t, o7, o8)
Off    == AnsiLen(FALSE, FALSE, t) = 0
\* each option recognises its own sequences only, and both together the union
Own    == /\ AnsiLen(TRUE, FALSE, t) > 0 => t[1] = "ESC"
          /\ AnsiLen(FALSE, TRUE, t) > 0 => t[1] \in {"CCSI", "COSC", "CSTR", "CST", "C1"}
          /\ AnsiLen(TRUE, TRUE, t) = IF AnsiLen(TRUE, FALSE, t) > 0 THEN AnsiLen(TRUE, FALSE, t) ELSE AnsiLen(FALSE, TRUE, t)
AllClasses == Classes
\* enough for every shape of sequence
FewClasses == {"ESC", "BSL", "BEL", "CAN", "RBR", "STR", "LBR", "INT", "PAR", "CST", "COSC", "CSTR"}
=============================================================================
