----------------------------- MODULE FilterTable -----------------------------
(* The complete state graph of the filter, for the driver. *)
EXTENDS Filter, TLC, Json
VARIABLE st
Init == st = FInit
Next == \E c \in Classes, v \in BOOLEAN :
          /\ st' = FStep(st, [c |-> c, v |-> v])
          /\ PrintT("T " \o ToJson([s |-> st, k |-> c \o (IF v THEN "+" ELSE ""), t |-> st', out |-> <<st'.yes>>]))
Spec == Init /\ [][Next]_st
=============================================================================
