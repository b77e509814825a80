--------------------------- MODULE ConcurrentTrace ---------------------------
(***************************************************************************)
(* Trace validation of interleaved histories: every worker behaves as the  *)
(* iterator of IteratorApi that it would be alone, and the memory is what  *)
(* it was.                                                                 *)
(*   {e:"start", its:[{texts, t, o}]}  workers; texts as in IteratorTrace  *)
(*   {e:"call", w, op, arg, ret, ok}                                       *)
(*   {e:"mem", same}                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cat, its
vars == <<i, cat, its>>
\* a text is <<worker, number>>
LenOf(t) == cat[t[1]].texts[t[2]].len
TokOf(t, o, p) == cat[t[1]].texts[t[2]].ends[o][p + 1]
INSTANCE IteratorApi WITH Length <- LenOf, TokEnd <- TokOf
E == Trace[i + 1]
Init == i = 0 /\ cat = <<>> /\ its = <<>>
Start == /\ E.e = "start" /\ cat' = E.its
         /\ its' = [w \in 1 .. Len(E.its) |-> [text |-> <<w, E.its[w].t>>, opt |-> E.its[w].o, start |-> 0, pos |-> 0]]
Do == /\ E.e = "call" /\ E.ok = 1
      /\ LET r == Call(its[E.w], E.op, IF E.op = "SetText" THEN <<E.w, E.arg>> ELSE E.arg) IN
           r.ret = E.ret /\ its' = [its EXCEPT ![E.w] = r.st]
      /\ UNCHANGED cat
Mem == E.e = "mem" /\ E.same = 1 /\ UNCHANGED <<cat, its>>
Next == i < Len(Trace) /\ (Start \/ Do \/ Mem) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
=============================================================================
