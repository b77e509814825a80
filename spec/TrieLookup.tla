----------------------------- MODULE TrieLookup -----------------------------
(***************************************************************************)
(* The lookup functions of generated tries, at full size: what they say    *)
(* about the first unit of a byte sequence, given what has been inserted.  *)
(*   short: fewer bytes than the first one announces - value 0, size 0     *)
(*   value: a well-formed unit - the value inserted last, its length       *)
(*   zero:  anything else - value 0, a positive size                       *)
(*   open:  F5-F7 announce four bytes that cannot be well-formed: value 0  *)
(***************************************************************************)
EXTENDS Utf8

Announces(c) == IF c \in Leads THEN Length(c) ELSE 1
\* declarative, on a non-empty sequence of classes
Says(w) == IF w[1] = "F5" THEN "open"
           ELSE IF Len(w) < Announces(w[1]) THEN "short"
           ELSE IF Unit(SubSeq(w, 1, Announces(w[1]))) THEN "value"
           ELSE "zero"
\* one class at a time
LInit == [lead |-> "-", n |-> 0, ok |-> TRUE]
LStep(st, c) ==
  IF st.n = 0 THEN [lead |-> c, n |-> 1, ok |-> c = "A" \/ c \in Leads]
  ELSE IF st.n < Announces(st.lead)
  THEN [st EXCEPT !.n = @ + 1, !.ok = @ /\ c \in IF st.n = 1 THEN Second(st.lead) ELSE Trail]
  ELSE st
LSays(st) == IF st.lead = "F5" THEN "open" ELSE IF st.n < Announces(st.lead) THEN "short" ELSE IF st.ok THEN "value" ELSE "zero"

\* bytes
ClassOf(b) ==
  CASE b < 128 -> "A" [] b < 144 -> "T8" [] b < 160 -> "T9" [] b < 192 -> "TA" [] b < 194 -> "C0" [] b < 224 -> "L2"
    [] b = 224 -> "E0" [] b = 237 -> "ED" [] b < 240 -> "L3" [] b = 240 -> "F0" [] b < 244 -> "L4" [] b = 244 -> "F4"
    [] b < 248 -> "F5" [] OTHER -> "F8"
RECURSIVE Fold(_, _)
Fold(bs, acc) == IF bs = <<>> THEN acc ELSE Fold(Tail(bs), acc * 64 + (bs[1] % 64))
\* of a well-formed unit
CodePoint(bs) == IF Len(bs) = 1 THEN bs[1]
                 ELSE Fold(Tail(bs), IF Len(bs) = 2 THEN bs[1] % 32 ELSE IF Len(bs) = 3 THEN bs[1] % 16 ELSE bs[1] % 8)
=============================================================================
