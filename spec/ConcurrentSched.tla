--------------------------- MODULE ConcurrentSched ---------------------------
(* every interleaving of the steps of N workers, S steps each *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, S
VARIABLE sched
Init == sched = <<>>
Taken(w) == Len(SelectSeq(sched, LAMBDA x : x = w))
Next == \E w \in 1 .. N : Taken(w) < S /\ sched' = Append(sched, w)
Spec == Init /\ [][Next]_<<sched>>
Emit == Len(sched) = N * S => PrintT("T " \o ToJson(sched))
=============================================================================
