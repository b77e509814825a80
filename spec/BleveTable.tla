----------------------------- MODULE BleveTable -----------------------------
(* The complete state graph of the two acceptors, for the driver. *)
EXTENDS Bleve, TLC, Json
VARIABLE st
Name(y) == IF y.i THEN y.k \o "+i" ELSE y.k
Out(s) == << NumericAccepts(s), IdeographicAccepts(s) >>
Init == st = BInit
Next == \E y \in BSymbols :
          /\ st' = BStep(st, y)
          /\ PrintT("T " \o ToJson([s |-> st, k |-> Name(y), t |-> st', out |-> Out(st')]))
Spec == Init /\ [][Next]_st
=============================================================================
