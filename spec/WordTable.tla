---- MODULE WordTable ----
(***************************************************************************)
(* The complete state graph of the word / phrase / joiner transducer; see  *)
(* GraphemeTable.                                                          *)
(***************************************************************************)
EXTENDS WordMachine, TLC, Json
CONSTANTS Alphabet, Tailoring
VARIABLES st
Init == st = WInit
Name(y) == IF y.f = "-" THEN y.k ELSE y.k \o "+" \o y.f
Next == \E y \in Alphabet :
          LET r == WStep(Tailoring, st, y) IN
            /\ st' = r.st
            /\ PrintT("T " \o ToJson([s |-> st, k |-> Name(y), t |-> r.st, here |-> r.here, pend |-> r.pend, rule |-> r.rule]))
Spec == Init /\ [][Next]_st
PlainKinds == {Sym(k, "-") : k \in WKinds}
JoinerKinds == {Sym(k, f) : k \in WKinds, f \in {"-", "L", "M", "LM"}}
====
