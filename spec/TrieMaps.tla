------------------------------ MODULE TrieMaps ------------------------------
(* Every map of the reduced model, as a suite for the real generator: the driver gives every reduced *)
(* byte a set of real ones.                                                                          *)
EXTENDS TrieMC, Json
Flat(x) == [e |-> x, v |-> m[x]]
Show == PrintT("T " \o ToJson([map |-> {Flat(x) : x \in {y \in DOMAIN m : m[y] # 0}}]))
SpecMaps == Init /\ [][Next]_m
=============================================================================
