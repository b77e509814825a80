----------------------------- MODULE AnsiSegMC -----------------------------
(***************************************************************************)
(* Small texts mixing control sequences with clusters: what the options    *)
(* may and may not change.                                                 *)
(***************************************************************************)
EXTENDS AnsiSeg
CONSTANT N
B(c, k) == [c |-> c, k |-> k]
\* one-byte symbols, and two-byte characters whose second byte looks like a C1 control
Symbols == {<<B("ESC", "Control")>>, <<B("LBR", "Other")>>, <<B("RBR", "Other")>>, <<B("BSL", "Other")>>,
            <<B("BEL", "Control")>>, <<B("CAN", "Control")>>, <<B("PAR", "Other")>>, <<B("C0", "CR")>>, <<B("C0", "LF")>>,
            <<B("HI", "Extend"), B("CCSI", "")>>, <<B("HI", "Prepend"), B("CST", "")>>, <<B("HI", "Control"), B("C1", "")>>}
\* raw C1 bytes (ill-formed UTF-8): the ordinary rules see something of kind Other
Raw == {<<B("CCSI", "Other")>>, <<B("COSC", "Other")>>, <<B("CST", "Other")>>}
VARIABLES t, raw
Init == t = <<>> /\ raw = FALSE
Next == \E s \in Symbols \cup Raw : Len(t) < N /\ t' = t \o s /\ raw' = (raw \/ s \in Raw)
Spec == Init /\ [][Next]_<<t, raw>>
Bool == {TRUE, FALSE}
Plain == Tokens(t, FALSE, FALSE)
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE x[1] + Sum(Tail(x))
Lossless == \A o7, o8 \in Bool : LET x == Tokens(t, o7, o8) IN Sum(x) = Len(t) /\ \A i \in 1 .. Len(x) : x[i] > 0
NoEscSame == (\A i \in 1 .. Len(t) : t[i].c # "ESC") => Tokens(t, TRUE, FALSE) = Plain
WellFormedSame == ~raw => Tokens(t, FALSE, TRUE) = Plain /\ Tokens(t, TRUE, TRUE) = Tokens(t, TRUE, FALSE)
\* a text that starts with a sequence: the rest is segmented as a text of its own
Fresh == \A o7, o8 \in Bool : LET n == AnsiLen(o7, o8, Cls(t)) IN
            n > 0 => Tokens(t, o7, o8) = <<n>> \o Tokens(SubSeq(t, n + 1, Len(t)), o7, o8)
\* ESC always starts a token, whatever stands before it (unless inside a sequence): without
\* options every ESC is a token of its own
EscAlone == \A i \in 1 .. Len(t) : t[i].c = "ESC" =>
              LET x == Plain IN \E j \in 0 .. Len(x) : Sum(SubSeq(x, 1, j)) = i - 1 /\ x[j + 1] = 1
=============================================================================
