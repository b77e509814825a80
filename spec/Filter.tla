------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* The alphanumeric token filter.  A token is a sequence of bytes, each    *)
(* given by its class and, where a unit ends, by whether the code point is *)
(* a letter or number (on other bytes the flag means nothing).             *)
(*                                                                         *)
(* Wanted is declarative: somewhere there is a well-formed unit whose code *)
(* point is a letter or number.  FStep reads one byte at a time.           *)
(***************************************************************************)
EXTENDS Utf8

\* w: sequence of [c |-> class, v |-> BOOLEAN]
ClassesOf(w) == [i \in 1..Len(w) |-> w[i].c]
Wanted(w) == \E i \in 1..Len(w) : \E n \in 1..4 :
               /\ i + n - 1 <= Len(w)
               /\ Unit(SubSeq(ClassesOf(w), i, i + n - 1))
               /\ w[i + n - 1].v

FInit == [d |-> Idle, yes |-> FALSE]
\* an ASCII byte is a unit wherever it stands; a lead byte starts one wherever it stands
Ends(d, c) == c = "A" \/ Accept(d, c) = "unit"
FStep(st, y) == [d |-> Advance(st.d, y.c), yes |-> st.yes \/ (Ends(st.d, y.c) /\ y.v)]
=============================================================================
