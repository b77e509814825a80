------------------------------- MODULE TrieMC -------------------------------
(***************************************************************************)
(* Every map reachable by insertions: the tables give back what was        *)
(* inserted, for every string of bytes up to MaxLen.                       *)
(***************************************************************************)
EXTENDS Trie
CONSTANTS MaxLen
VARIABLE m
Init == m = [e \in Encodings |-> 0]
\* the last value other than 0 counts; inserting 0 does nothing
Insert(e, v) == m' = IF v = 0 THEN m ELSE [m EXCEPT ![e] = v]
\* what is no code point: 0 does nothing, and anything else is refused
Refuse(v) == UNCHANGED m
Next == (\E e \in Encodings, v \in Values \cup {0} : Insert(e, v)) \/ \E v \in Values \cup {0} : Refuse(v)
Spec == Init /\ [][Next]_m
Strings == UNION {[1..n -> Bytes] : n \in 1..MaxLen}
Right == LET tb == Tables(m) IN \A bs \in Strings : Wanted(m, bs, Lookup(tb, bs))
\* no block is stored twice, and none is lost
Shared == LET tb == Tables(m)
              nb == Cardinality(DOMAIN tb.values) \div B
              block(n) == [k \in 1..B |-> tb.values[n * B + k - 1]]
          IN \A x, y \in 3 .. (nb - 1) : x # y => block(x) # block(y)
W2 == (6 :> 2) @@ (7 :> 3)
W24 == (6 :> 3) @@ (7 :> 4)
=============================================================================
