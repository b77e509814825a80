------------------------------ MODULE BleveMC ------------------------------
(***************************************************************************)
(* Tokens up to length N: the acceptor decides what the definitions say.   *)
(* And the classifiers fit the segmenter they were made for: a sequence    *)
(* they call numeric has no word boundary inside, and every word of two or *)
(* more symbols made of numbers, connectors, mid-number punctuation between *)
(* numbers is one they accept, unless marks intervene.                     *)
(***************************************************************************)
EXTENDS Bleve, TLC
CONSTANTS N_, Symbols
VARIABLES w, st
Init == w = <<>> /\ st = BInit
Next == /\ Len(w) < N_
        /\ \E y \in Symbols : w' = Append(w, y) /\ st' = BStep(st, y)
Spec == Init /\ [][Next]_<<w, st>>

Agree == w # <<>> => /\ NumericAccepts(st) <=> NumericDef(w)
                     /\ IdeographicAccepts(st) <=> IdeographicDef(w)
Plain == [i \in 1..Len(w) |-> Props(w[i])]
OneWord == (w # <<>> /\ NumericDef(w)) => \A i \in 1..(Len(w) - 1) : WJoin("word", Plain, Plain, i)
\* words of numbers, connectors and punctuation only, starting with a number or connector
NumericWords ==
  (/\ w # <<>> /\ Has(Props(w[1]), NE)
   /\ \A i \in 1..Len(w) : Has(Props(w[i]), NE \cup Mid)
   /\ \A i \in 1..(Len(w) - 1) : WJoin("word", Plain, Plain, i)) => NumericDef(w)
Exclusive == (w # <<>> /\ (\A i \in 1..Len(w) : ~(w[i].i /\ Has(Props(w[i]), NE)))) => ~(NumericAccepts(st) /\ IdeographicAccepts(st))
\* one kind per role in either definition
Small == {[k |-> k, i |-> FALSE] : k \in {"Other", "Numeric", "ExtendNumLet", "MidNum", "SingleQuote", "MidNumLet", "MidLetter", "Extend", "Format", "ZWJ", "ALetter"}}
         \cup {[k |-> k, i |-> TRUE] : k \in {"Other", "Katakana", "ExtPict"}}
=============================================================================
