---------------------------- MODULE GenericTrace ----------------------------
(***************************************************************************)
(* Histories of calls on real iterators with a scripted split function:    *)
(*   {e:"start", len, script, short}     a new iterator                    *)
(*   {e:"call", op, arg, ret, seen, ok}                                    *)
(* ret: as in GenericIterator, [-1] for a panic; seen: what the function   *)
(* was given, [from, to] for each time it was asked; ok: values and what   *)
(* the function was given are those parts of the text, at end of input.    *)
(***************************************************************************)
EXTENDS GenericIterator, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, it, short
vars == <<i, it, short>>
E == Trace[i + 1]
Init == i = 0 /\ it = GNew(0, <<>>) /\ short = FALSE
Start == E.e = "start" /\ it' = GNew(E.len, E.script) /\ short' = (E.short = 1)
\* asking more than once is allowed as long as it is about the same thing
SeenOk(o) == IF o.seen = <<>> THEN Len(E.seen) = 0
             ELSE Len(E.seen) >= 1 /\ \A n \in 1..Len(E.seen) : E.seen[n] = o.seen
Do == /\ E.e = "call" /\ E.ok = 1
      /\ \E o \in GOutcomes(it, E.op, E.arg, short) : o.ret = E.ret /\ SeenOk(o) = TRUE /\ it' = o.st
      /\ UNCHANGED short
Next == i < Len(Trace) /\ (Start \/ Do) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
=============================================================================
