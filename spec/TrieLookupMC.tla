---------------------------- MODULE TrieLookupMC ----------------------------
EXTENDS TrieLookup, TLC
CONSTANT N
VARIABLES w, st
Init == w = <<>> /\ st = LInit
Next == Len(w) < N /\ \E c \in Classes : w' = Append(w, c) /\ st' = LStep(st, c)
Spec == Init /\ [][Next]_<<w, st>>
Agree == w # <<>> => LSays(st) = Says(w)
\* what follows the first unit does not matter, and nothing well-formed is called anything else
Settled == (w # <<>> /\ LSays(st) \in {"value", "zero"}) => \A c \in Classes : LSays(LStep(st, c)) = LSays(st)
Finds == (\E n \in 1..4 : n <= Len(w) /\ Unit(SubSeq(w, 1, n))) <=> (w # <<>> /\ LSays(st) = "value")
\* every code point has one encoding: sampled at the edges of every lead class
Edges == {0, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65535, 65536, 262143, 262144, 1048575, 1048576, 1114111}
Enc(x) == IF x < 128 THEN <<x>>
          ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
          ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
          ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
ASSUME \A x \in Edges : /\ Unit([i \in 1..Len(Enc(x)) |-> ClassOf(Enc(x)[i])])
                        /\ CodePoint(Enc(x)) = x
=============================================================================
