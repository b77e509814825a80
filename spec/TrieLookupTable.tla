--------------------------- MODULE TrieLookupTable ---------------------------
EXTENDS TrieLookup, TLC, Json
VARIABLE st
Init == st = LInit
Next == \E c \in Classes : /\ st' = LStep(st, c)
                           /\ PrintT("T " \o ToJson([s |-> st, k |-> c, t |-> st', says |-> LSays(st')]))
Spec == Init /\ [][Next]_st
=============================================================================
