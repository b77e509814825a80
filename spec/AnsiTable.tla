----------------------------- MODULE AnsiTable -----------------------------
(* the recogniser (both options on) and the byte classes, printed *)
EXTENDS AnsiMachine, TLC, Json
VARIABLE s
Init == s = "start" /\ \A c \in Classes : PrintT("T " \o ToJson([class |-> c, bytes |-> ClassBytes[c]]))
Next == \E c \in Classes :
          /\ s \notin Ended
          /\ s' = AnsiStep(TRUE, TRUE, s, c)
          /\ PrintT("T " \o ToJson([s |-> s, c |-> c, t |-> s']))
Spec == Init /\ [][Next]_<<s>>
=============================================================================
