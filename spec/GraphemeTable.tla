---- MODULE GraphemeTable ----
(***************************************************************************)
(* The complete state graph of the Grapheme transducer.  Exploring it with TLC *)
(* visits every reachable state and prints every transition once; the Go   *)
(* conformance driver runs that graph (not a re-implementation) as oracle. *)
(***************************************************************************)
EXTENDS GraphemeMachine, TLC, Json
VARIABLES st
Init == st = GInit
Next == \E k \in GKinds :
          LET r == GStep(st, k) IN
            /\ st' = r.st
            /\ PrintT("T " \o ToJson([s |-> st, k |-> k, t |-> r.st, here |-> r.here, pend |-> r.pend, rule |-> r.rule]))
Spec == Init /\ [][Next]_st
====
