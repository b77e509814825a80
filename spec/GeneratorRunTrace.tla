-------------------------- MODULE GeneratorRunTrace --------------------------
(***************************************************************************)
(* Runs of the real generator: {"e":"start"}, its fetches                  *)
(* {"e":"fetch","s":source,"good":0/1}, {"e":"disk"} when a file can not be*)
(* written, and {"e":"exit","rc":0/1,"state":[{"f":file,"s":state}]}.      *)
(***************************************************************************)
EXTENDS GeneratorRun, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, got, bad, disk
Init == l = 0 /\ got = {} /\ bad = FALSE /\ disk = FALSE
StateOf(e) == [f \in Files |-> LET i == CHOOSE i \in 1..Len(e.state) : e.state[i].f = f IN e.state[i].s]
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1] IN
             CASE e.e = "start" -> got' = {} /\ bad' = FALSE /\ disk' = FALSE
               [] e.e = "fetch" -> /\ got' = (IF e.good = 1 THEN got \cup {e.s} ELSE got)
                                   /\ bad' = (bad \/ e.good = 0) /\ UNCHANGED disk
               [] e.e = "disk" -> disk' = TRUE /\ UNCHANGED <<got, bad>>
               [] e.e = "exit" -> MayEnd(e.rc, got, bad, disk, StateOf(e)) = TRUE /\ UNCHANGED <<got, bad, disk>>
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, got, bad, disk>>
TraceAccepted == LET d == TLCGet("stats").diameter IN PrintT("T " \o ToJson([matched |-> d - 1])) /\ d - 1 = Len(Trace)
=============================================================================
