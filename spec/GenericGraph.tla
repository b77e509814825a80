---- MODULE GenericGraph ----
(* the state graph of GenericMC, printed once per state; GInit lines say where a history may start *)
EXTENDS GenericMC
VARIABLE x
GInit == /\ \E s \in Scripts : x = GNew(L, s)
         /\ it = 0 /\ last = 0 /\ toks = 0
Outs(c) == GOutcomes(x, c.op, c.arg, Shortcut)
GNext == \E c \in Calls :
           /\ PrintT("T " \o ToJson([s |-> x, op |-> c.op, arg |-> c.arg, outs |-> {[ret |-> o.ret, t |-> o.st, seen |-> o.seen] : o \in Outs(c)}]))
           /\ \E o \in Outs(c) : x' = o.st
           /\ UNCHANGED <<it, last, toks>>
GSpec == GInit /\ [][GNext]_<<x, it, last, toks>>
====
