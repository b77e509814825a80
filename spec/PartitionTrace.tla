--------------------------- MODULE PartitionTrace ---------------------------
(***************************************************************************)
(* Trace validation: events recorded from the real iterators, split        *)
(* functions and scanners.                                                 *)
(*   {e:"start", len}             a new text                               *)
(*   {e:"from", p, b}             entry point p starts at byte b           *)
(*   {e:"tok", p, b, x, ok}       it reports [b, x); ok=1 when the value   *)
(*                                it returned is the text between them     *)
(*   {e:"end", p}                 it reports the end, without an error     *)
(***************************************************************************)
EXTENDS Partition, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
vars == <<i, st>>
E == Trace[i + 1]
Init == i = 0 /\ st = PInit(0)
Start == E.e = "start" /\ st' = PInit(E.len)
From == E.e = "from" /\ CanStart(st, E.b) /\ st' = Started(st, E.p, E.b)
Tok == E.e = "tok" /\ E.ok = 1 /\ CanToken(st, E.p, E.b, E.x) /\ st' = Tokened(st, E.p, E.x)
End == E.e = "end" /\ CanEnd(st, E.p) /\ st' = Ended(st, E.p)
Next == /\ i < Len(Trace)
        /\ Start \/ From \/ Tok \/ End
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
Names == {"FromString", "FromBytes", "SplitFunc", "FromReader", "restart", "First"}
=============================================================================
