--------------------------- MODULE GeneratorTrace ---------------------------
(***************************************************************************)
(* Runs of the real generator: {"e":"start"}, the lines of its data files  *)
(* {"e":"line","f":..,"p":..,"lo":..,"hi":..}, and lookups in what it wrote*)
(* {"e":"look","pkg":..,"r":..,"props":[..]}.                              *)
(***************************************************************************)
EXTENDS Generator, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lines
Init == l = 0 /\ lines = {}
Has(f, p, r) == \E x \in lines : x.f = f /\ x.p = p /\ x.lo <= r /\ r <= x.hi
Own(f) == {x.p : x \in {y \in lines : y.f = f}}
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1] IN
             IF e.e = "start" THEN lines' = {}
             ELSE IF e.e = "line" THEN lines' = lines \cup {[f |-> e.f, p |-> e.p, lo |-> e.lo, hi |-> e.hi]}
             ELSE /\ ({e.props[i] : i \in 1..Len(e.props)} = Expected(e.pkg, LAMBDA f, p : Has(f, p, e.r), Own)) = TRUE
                  /\ UNCHANGED lines
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, lines>>
TraceAccepted == LET d == TLCGet("stats").diameter IN PrintT("T " \o ToJson([matched |-> d - 1])) /\ d - 1 = Len(Trace)
=============================================================================
