----------------------------- MODULE BleveTrace -----------------------------
(***************************************************************************)
(* Calls of the real classifiers against the declarative definitions: one  *)
(* line per call, {"e":"start","w":[[kind, ideograph],..],"num":b,"ideo":b}*)
(***************************************************************************)
EXTENDS Bleve, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Word(e) == [i \in 1..Len(e.w) |-> [k |-> e.w[i][1], i |-> e.w[i][2] = "i"]]
Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1]  w == Word(e) IN
             /\ (e.num <=> NumericDef(w)) = TRUE
             /\ (e.ideo <=> IdeographicDef(w)) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN PrintT("T " \o ToJson([matched |-> d - 1])) /\ d - 1 = Len(Trace)
=============================================================================
