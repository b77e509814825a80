----------------------------- MODULE ViewsTrace -----------------------------
(***************************************************************************)
(* Trace validation: real iterators, scanners and split functions, and a   *)
(* caller who keeps tokens and writes to the memory.                       *)
(*   {e:"start", mem:[bytes], its:[{lo, hi}]}                              *)
(*   {e:"next", w, fl, ret, lo, hi, bytes}  fl: length of the first token  *)
(*        of a fresh copy of what follows the position; lo, hi: where in   *)
(*        the caller's memory the token lies (0, 0 for a token elsewhere,  *)
(*        which no token is); bytes: what it shows                         *)
(*   {e:"first", w, fl, lo, hi, bytes}                                     *)
(*   {e:"reset", w}  {e:"set", w, lo, hi}  {e:"write", at, bytes}          *)
(*   {e:"held", k, bytes}   what the k-th token handed out shows now       *)
(* A scanner's memory is its own copy of the stream; the caller may write  *)
(* the current token only, and keeps text (a copy):                        *)
(*   {e:"stream", mem}  {e:"scan", fl, ret, bytes}  {e:"scribble", bytes}  *)
(*   {e:"text", k, bytes}   the k-th text handed out, now                  *)
(* Memory used for a text and for the same text many times over:           *)
(*   {e:"heap", small, large}                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, mem, its, held, kept
vars == <<i, mem, its, held, kept>>
E == Trace[i + 1]
Told(c) == E.fl
INSTANCE ViewsApi WITH FirstLen <- Told

Init == i = 0 /\ mem = <<>> /\ its = <<>> /\ held = <<>> /\ kept = <<>>
Start == /\ E.e = "start" /\ mem' = E.mem /\ held' = <<>> /\ kept' = <<>>
         /\ its' = [w \in DOMAIN E.its |-> NewView(E.its[w].lo, E.its[w].hi)]
Over(m, at, bs) == [k \in DOMAIN m |-> IF k > at /\ k <= at + Len(bs) THEN bs[k - at] ELSE m[k]]
Shows(t) == E.lo = t.lo /\ E.hi = t.hi /\ E.bytes = Cells(mem, t.lo, t.hi)
Go == /\ E.e = "next"
      /\ LET s == its[E.w]  t == Advance(mem, s) IN
           /\ E.ret = (IF HasMore(s) THEN 1 ELSE 0)
           /\ t.pos > t.start => Shows(Token(t))
           /\ its' = [its EXCEPT ![E.w] = t]
           /\ held' = IF E.ret = 1 THEN Append(held, Token(t)) ELSE held
      /\ UNCHANGED <<mem, kept>>
First == /\ E.e = "first"
         /\ LET t == FirstToken(mem, its[E.w]) IN t.hi > t.lo => Shows(t) /\ held' = Append(held, t)
         /\ UNCHANGED <<mem, its, kept>>
Again == E.e = "reset" /\ its' = [its EXCEPT ![E.w] = Restart(@)] /\ UNCHANGED <<mem, held, kept>>
Other == E.e = "set" /\ its' = [its EXCEPT ![E.w] = NewView(E.lo, E.hi)] /\ UNCHANGED <<mem, held, kept>>
Write == E.e = "write" /\ mem' = Over(mem, E.at, E.bytes) /\ UNCHANGED <<its, held, kept>>
Held == /\ E.e = "held" /\ E.bytes = Cells(mem, held[E.k].lo, held[E.k].hi)
        /\ UNCHANGED <<mem, its, held, kept>>

Stream == /\ E.e = "stream" /\ mem' = E.mem /\ its' = <<NewView(0, Len(E.mem))>> /\ held' = <<>> /\ kept' = <<>>
Scan == /\ E.e = "scan"
        /\ LET s == its[1]  t == Advance(mem, s) IN
             /\ E.ret = (IF HasMore(s) THEN 1 ELSE 0)
             /\ E.ret = 1 => E.bytes = Cells(mem, Token(t).lo, Token(t).hi)
             /\ its' = <<t>>
             /\ kept' = IF E.ret = 1 THEN Append(kept, E.bytes) ELSE kept
        /\ UNCHANGED <<mem, held>>
Scribble == /\ E.e = "scribble" /\ Len(E.bytes) = its[1].pos - its[1].start
            /\ mem' = Over(mem, its[1].start, E.bytes) /\ UNCHANGED <<its, held, kept>>
Text == E.e = "text" /\ E.bytes = kept[E.k] /\ UNCHANGED <<mem, its, held, kept>>

Heap == E.e = "heap" /\ E.large <= E.small + E.slack /\ UNCHANGED <<mem, its, held, kept>>

Next == i < Len(Trace) /\ (Start \/ Go \/ First \/ Again \/ Other \/ Write \/ Held \/ Stream \/ Scan \/ Scribble \/ Text \/ Heap) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
=============================================================================
