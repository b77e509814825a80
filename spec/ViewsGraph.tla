----------------------------- MODULE ViewsGraph -----------------------------
(***************************************************************************)
(* Every state of the memory and one iterator, and every call and write    *)
(* from it, printed for the driver.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Kinds, FirstLen(_), Views
INSTANCE ViewsApi
VARIABLES mem, it
Init == mem = [i \in 1..N |-> CHOOSE k \in Kinds : TRUE] /\ it = NewView(0, N)
Row(op, a, b, m, s) == PrintT("T " \o ToJson([m |-> mem, s |-> it, op |-> op, a |-> a, b |-> b, n |-> m, t |-> s]))
Do(op, a, b, m, s) == mem' = m /\ it' = s /\ Row(op, a, b, m, s)
Next == \/ Do("Next", 0, 0, mem, Advance(mem, it))
        \/ Do("First", FirstToken(mem, it).lo, FirstToken(mem, it).hi, mem, it)
        \/ Do("Reset", 0, 0, mem, Restart(it))
        \/ \E v \in Views : Do("SetText", v[1], v[2], mem, NewView(v[1], v[2]))
        \/ \E i \in 1..N, k \in Kinds : k # mem[i] /\ Do("Write", i, k, [mem EXCEPT ![i] = k], it)
Spec == Init /\ [][Next]_<<mem, it>>
=============================================================================
