----------------------------- MODULE FilterTrace -----------------------------
(***************************************************************************)
(* Calls of the real filter against the definition: one line per call,     *)
(* {"e":"start","w":[[class, "+" or "-"],..],"out":b}                      *)
(***************************************************************************)
EXTENDS Filter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Word(e) == [i \in 1..Len(e.w) |-> [c |-> e.w[i][1], v |-> e.w[i][2] = "+"]]
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1] IN (e.out <=> Wanted(Word(e))) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN PrintT("T " \o ToJson([matched |-> d - 1])) /\ d - 1 = Len(Trace)
=============================================================================
