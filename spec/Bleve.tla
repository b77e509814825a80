------------------------------- MODULE Bleve -------------------------------
(***************************************************************************)
(* The two Bleve-compatible token classifiers.  A token is a non-empty     *)
(* sequence of symbols [k, i]: a word kind, and whether the code point is  *)
(* an ideograph (Han, Hiragana or Katakana).                               *)
(*                                                                         *)
(* NumericDef and IdeographicDef say declaratively what is accepted; Step  *)
(* is an acceptor reading one symbol at a time, which TLC shows to be the  *)
(* same thing and whose transitions the driver runs on the real code.      *)
(***************************************************************************)
EXTENDS WordRules

N == {"Numeric"}
NE == {"Numeric", "ExtendNumLet"}
Mid == {"MidNum"} \cup MidNumLetQ
Props(y) == WKindProps[y.k]

\* first position after i that is not ignorable (Len+1: none)
RECURSIVE After(_, _)
After(w, i) == IF i + 1 > Len(w) THEN Len(w) + 1
               ELSE IF Has(Props(w[i + 1]), Ignorable) THEN After(w, i + 1) ELSE i + 1
MidAt(w, i) == /\ Has(Props(w[i]), Mid)
               /\ i > 1 /\ Has(Props(w[i - 1]), N)
               /\ After(w, i) <= Len(w) /\ Has(Props(w[After(w, i)]), N)
NumericDef(w) ==
  /\ Has(Props(w[1]), NE)
  /\ \A i \in 1..Len(w) :
       \/ Has(Props(w[i]), NE)
       \/ MidAt(w, i)
       \/ Has(Props(w[i]), Ignorable) /\ \E m \in 1..(i - 1) : MidAt(w, m) /\ i < After(w, m)
IdeographicDef(w) ==
  /\ w[1].i
  /\ \A i \in 1..Len(w) : w[i].i \/ Has(Props(w[i]), {"ExtendNumLet"} \cup Ignorable)

\* the acceptor: num in start, N, E (after a number, a connector), mid, no; ideo in start, yes, no
BInit == [num |-> "start", ideo |-> "start"]
NumStep(q, c) ==
  CASE q = "start" -> IF Has(c, N) THEN "N" ELSE IF Has(c, NE) THEN "E" ELSE "no"
    [] q = "N" -> IF Has(c, N) THEN "N" ELSE IF Has(c, NE) THEN "E" ELSE IF Has(c, Mid) THEN "mid" ELSE "no"
    [] q = "E" -> IF Has(c, N) THEN "N" ELSE IF Has(c, NE) THEN "E" ELSE "no"
    [] q = "mid" -> IF Has(c, N) THEN "N" ELSE IF Has(c, Ignorable) THEN "mid" ELSE "no"
    [] q = "no" -> "no"
IdeoStep(q, y) ==
  CASE q = "start" -> IF y.i THEN "yes" ELSE "no"
    [] q = "yes" -> IF y.i \/ Has(Props(y), {"ExtendNumLet"} \cup Ignorable) THEN "yes" ELSE "no"
    [] q = "no" -> "no"
BStep(st, y) == [num |-> NumStep(st.num, Props(y)), ideo |-> IdeoStep(st.ideo, y)]
NumericAccepts(st) == st.num \in {"N", "E"}
IdeographicAccepts(st) == st.ideo = "yes"

BSymbols == {[k |-> k, i |-> b] : k \in WKinds, b \in BOOLEAN}
=============================================================================
