---------------------------- MODULE IteratorTrace ----------------------------
(***************************************************************************)
(* Trace validation of call histories on real iterators.                   *)
(*   {e:"start", texts:[{len, ends:[[end at byte p, or 0 if no token can    *)
(*      start there] per p] per option}], t, o}   a new iterator           *)
(*   {e:"call", op, arg, ret, ok}   ok: a returned value is that text      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cat, it
vars == <<i, cat, it>>
LenOf(t) == cat[t].len
TokOf(t, o, p) == cat[t].ends[o][p + 1]
INSTANCE IteratorApi WITH Length <- LenOf, TokEnd <- TokOf
E == Trace[i + 1]
Init == i = 0 /\ cat = <<>> /\ it = [text |-> 0, opt |-> 0, start |-> 0, pos |-> 0]
Start == E.e = "start" /\ cat' = E.texts /\ it' = [text |-> E.t, opt |-> E.o, start |-> 0, pos |-> 0]
Do == /\ E.e = "call" /\ E.ok = 1
      /\ LET r == Call(it, E.op, E.arg) IN r.ret = E.ret /\ it' = r.st
      /\ UNCHANGED cat
Next == i < Len(Trace) /\ (Start \/ Do) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
=============================================================================
