----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Several iterators (each as in IteratorApi) over the same memory, taking *)
(* steps in any interleaving.  A step reads the memory and the iterator's  *)
(* own state, writes its own state only and returns something.  Claim:     *)
(* what each iterator returns is what it would return running alone on     *)
(* the untouched memory, and the memory is never written.                  *)
(*                                                                         *)
(* Leak = TRUE gives the iterators one hidden register in common (the last *)
(* position at which any of them found a boundary), as a package-level     *)
(* cache would: the claim then fails, which shows it is not vacuous.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Workers, MaxOps, Leak
TextIds == {"b", "c"}
Len1(t) == CASE t = "b" -> 2 [] t = "c" -> 4
\* the text itself is memory: for each text the set of positions where tokens end
Memory == [t \in TextIds |-> IF t = "b" THEN {1, 2} ELSE {1, 3, 4}]
VARIABLES mem, st, hist, out, reg
vars == <<mem, st, hist, out, reg>>

EndIn(m, t, p) == CHOOSE q \in m[t] : q > p /\ \A x \in m[t] : x > p => q <= x
Tok(t, o, p) == EndIn(mem, t, p)
TokAlone(t, o, p) == EndIn(Memory, t, p)
L == INSTANCE IteratorApi WITH Length <- Len1, TokEnd <- Tok
A == INSTANCE IteratorApi WITH Length <- Len1, TokEnd <- TokAlone

Calls == {[op |-> "Next", arg |-> "-"], [op |-> "Value", arg |-> "-"], [op |-> "First", arg |-> "-"], [op |-> "Reset", arg |-> "-"]}
         \cup {[op |-> "SetText", arg |-> t] : t \in TextIds}
New1 == [text |-> "c", opt |-> 0, start |-> 0, pos |-> 0]
Init == /\ mem = Memory /\ reg = 0
        /\ st = [w \in Workers |-> New1]
        /\ hist = [w \in Workers |-> <<>>] /\ out = [w \in Workers |-> <<>>]
Step(w, c) ==
  /\ Len(hist[w]) < MaxOps
  /\ LET seen == IF Leak /\ c.op = "Next" /\ reg > st[w].pos /\ reg <= Len1(st[w].text)
                 THEN [ret |-> <<1>>, st |-> [st[w] EXCEPT !.start = st[w].pos, !.pos = reg]]
                 ELSE L!Call(st[w], c.op, c.arg)
     IN /\ st' = [st EXCEPT ![w] = seen.st]
        /\ hist' = [hist EXCEPT ![w] = Append(@, c)]
        /\ out' = [out EXCEPT ![w] = Append(@, seen.ret)]
        /\ reg' = IF Leak THEN seen.st.pos ELSE reg
        /\ UNCHANGED mem
Next == \E w \in Workers : \E c \in Calls : Step(w, c)
Spec == Init /\ [][Next]_vars

RECURSIVE Solo(_, _)
Solo(h, s) == IF h = <<>> THEN <<>>
              ELSE LET r == A!Call(s, h[1].op, h[1].arg) IN <<r.ret>> \o Solo(Tail(h), r.st)
Independent == \A w \in Workers : out[w] = Solo(hist[w], New1)
MemoryIntact == mem = Memory
OwnStateOnly == [][\A w \in Workers : hist'[w] = hist[w] => st'[w] = st[w] /\ out'[w] = out[w]]_vars
=============================================================================
