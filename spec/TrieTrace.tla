------------------------------ MODULE TrieTrace ------------------------------
(***************************************************************************)
(* Real insertions and real lookups in the emitted code:                   *)
(*  {"e":"start"}  {"e":"ins","r":cp,"v":"5","refused":false}  {"e":"look","b":[..],"v":"5","n":2} *)
(* Values are strings (they have up to 64 bits).  A value other than 0 for *)
(* what is no code point is refused, and nothing comes of it.              *)
(***************************************************************************)
EXTENDS TrieLookup, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
Scalar(r) == r <= 1114111 /\ ~(r >= 55296 /\ r <= 57343)
Init == l = 0 /\ m = <<>>
Right(e) == LET w == [i \in 1..Len(e.b) |-> ClassOf(e.b[i])]
                s == Says(w)
                n == Announces(w[1])
                r == CodePoint(SubSeq(e.b, 1, n))
            IN CASE s = "short" -> e.v = "0" /\ e.n = 0
                 [] s = "value" -> e.n = n /\ e.v = IF r \in DOMAIN m THEN m[r] ELSE "0"
                 [] s = "zero" -> e.v = "0" /\ e.n \in 1..n
                 [] s = "open" -> e.v = "0" /\ e.n \in 0..4
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1] IN
             IF e.e = "start" THEN m' = <<>>
             ELSE IF e.e = "ins" THEN e.refused = (e.v # "0" /\ ~Scalar(e.r)) /\ m' = IF e.v = "0" \/ e.refused THEN m ELSE (e.r :> e.v) @@ m
             ELSE Right(e) = TRUE /\ UNCHANGED m
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, m>>
TraceAccepted == LET d == TLCGet("stats").diameter IN PrintT("T " \o ToJson([matched |-> d - 1])) /\ d - 1 = Len(Trace)
=============================================================================
