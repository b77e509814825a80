---- MODULE IteratorGraph ----
(* the state graph of IteratorMC, printed once per state *)
EXTENDS IteratorMC
VARIABLE x
GInit == x = New("b", "off") /\ it = New("b", "off") /\ last = 0 /\ steps = 0
GNext == \E c \in Calls :
           LET r == Call(x, c.op, c.arg) IN
             /\ x' = r.st
             /\ UNCHANGED <<it, last, steps>>
             /\ PrintT("T " \o ToJson([s |-> x, op |-> c.op, arg |-> c.arg, ret |-> r.ret, t |-> r.st]))
GSpec == GInit /\ [][GNext]_<<x, it, last, steps>>
====
