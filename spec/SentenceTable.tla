---- MODULE SentenceTable ----
(***************************************************************************)
(* The complete state graph of the Sentence transducer.  Exploring it with TLC *)
(* visits every reachable state and prints every transition once; the Go   *)
(* conformance driver runs that graph (not a re-implementation) as oracle. *)
(***************************************************************************)
EXTENDS SentenceMachine, TLC, Json
VARIABLES st
Init == st = SInit
Next == \E k \in SKinds :
          LET r == SStep(st, k) IN
            /\ st' = r.st
            /\ PrintT("T " \o ToJson([s |-> st, k |-> k, t |-> r.st, here |-> r.here, pend |-> r.pend, rule |-> r.rule]))
Spec == Init /\ [][Next]_st
====
