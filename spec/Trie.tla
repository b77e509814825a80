-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The generated tries, at a reduced block size B.  "Bytes" are            *)
(* 0..2B-1 (ASCII), 2B..3B-1 (continuation), 3B..4B-1 (lead; Width[l] is   *)
(* the number of bytes l announces).  A map m gives every encoding the     *)
(* value inserted for it, 0 for none.                                      *)
(*                                                                         *)
(* Tables(m) is the layout the generator emits: value blocks and index     *)
(* blocks, both in one flat array each, equal blocks stored once, empty    *)
(* subtrees sharing the zero block, optionally blocks of one repeated      *)
(* value replaced by that value (a compacter, told apart by handles beyond *)
(* those of stored blocks).  Lookup(tb, bs) is the emitted function.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS B, Width, Values, Compacting

Ascii == 0 .. (2 * B - 1)
Cont == (2 * B) .. (3 * B - 1)
Lead == (3 * B) .. (4 * B - 1)
Bytes == 0 .. (4 * B - 1)
Encodings == {<<a>> : a \in Ascii} \cup UNION {{<<l>> \o c : c \in [1 .. (Width[l] - 1) -> Cont]} : l \in Lead}
Empty(m, p) == \A e \in DOMAIN m : m[e] # 0 => ~(Len(e) >= Len(p) /\ SubSeq(e, 1, Len(p)) = p)

------------------------------------------------------------------------------
\* tables under construction: ib, vb: blocks; ix, vx: what is stored where (content -> number);
\* a leaf is numbered <<0, block>> or <<1, value>> (compacted)
Leaf(p) == Len(p) = Width[p[1]] - 1
Vals(m, p) == [k \in 1..B |-> m[Append(p, 2 * B + k - 1)]]
Constant(v) == \A k \in 1..B : v[k] = v[1]
RECURSIVE Alloc(_, _, _), Kids(_, _, _, _)
\* children k.. of p: the state after, and the numbers of the children
Kids(m, p, k, st) ==
  IF k > B THEN [st |-> st, nums |-> <<>>]
  ELSE LET c == Append(p, (IF p = <<>> THEN 3 * B ELSE 2 * B) + k - 1)
           a == IF Empty(m, c) THEN [st |-> st, num |-> <<0, 0>>] ELSE Alloc(m, c, st)
           r == Kids(m, p, k + 1, a.st)
       IN [st |-> r.st, nums |-> <<a.num>> \o r.nums]
Alloc(m, p, st) ==
  IF Leaf(p)
  THEN LET v == Vals(m, p) IN
       IF v \in DOMAIN st.vx THEN [st |-> st, num |-> st.vx[v]]
       ELSE IF Compacting /\ Constant(v)
       THEN [st |-> [st EXCEPT !.vx = @ @@ (v :> <<1, v[1]>>)], num |-> <<1, v[1]>>]
       ELSE LET n == <<0, Len(st.vb) - 2>> IN
            [st |-> [st EXCEPT !.vb = Append(@, v), !.vx = @ @@ (v :> n), !.top = Len(st.vb) - 2], num |-> n]
  ELSE LET r == Kids(m, p, 1, st) IN
       IF r.nums \in DOMAIN r.st.ix THEN [st |-> r.st, num |-> <<0, r.st.ix[r.nums]>>]
       ELSE LET n == Len(r.st.ib) - 2 IN
            [st |-> [r.st EXCEPT !.ib = Append(@, r.nums), !.ix = @ @@ (r.nums :> n)], num |-> <<0, n>>]
Tables(m) ==
  LET zero == [k \in 1..B |-> 0]
      ascii == << [k \in 1..B |-> m[<<k - 1>>]], [k \in 1..B |-> m[<<B + k - 1>>]], zero >>
      none == [k \in 1..B |-> <<0, 0>>]
      st0 == [ib |-> <<none, none, none, none>>, vb |-> ascii, ix |-> <<>>, vx |-> <<>>, top |-> 0]
      r == Kids(m, <<>>, 1, st0)
      \* the root block is the fourth; stored blocks come first in the handles, then compacted values
      cut == r.st.top + 1
      num(x) == IF x[1] = 0 THEN x[2] ELSE cut + x[2]
      ib == [r.st.ib EXCEPT ![4] = r.nums]
  IN [values |-> [i \in 0 .. (Len(r.st.vb) * B - 1) |-> r.st.vb[(i \div B) + 1][(i % B) + 1]],
      index  |-> [i \in 0 .. (Len(ib) * B - 1) |-> num(ib[(i \div B) + 1][(i % B) + 1])],
      cut    |-> cut]

------------------------------------------------------------------------------
\* the emitted lookup function: value and size
LookupValue(tb, n, c) == IF ~Compacting \/ n < tb.cut THEN tb.values[n * B + c] ELSE n - tb.cut
RECURSIVE Descend(_, _, _, _)
Descend(tb, bs, k, i) ==          \* i: what the index says after k - 1 bytes
  LET c == bs[k] IN
  IF c \notin Cont THEN <<0, k - 1>>
  ELSE IF k = Width[bs[1]] THEN <<LookupValue(tb, i, c), k>>
  ELSE Descend(tb, bs, k + 1, tb.index[i * B + c])
Lookup(tb, bs) ==
  LET c == bs[1] IN
  IF c \in Ascii THEN <<tb.values[c], 1>>
  ELSE IF c \in Cont THEN <<0, 1>>
  ELSE IF Len(bs) < Width[c] THEN <<0, 0>>
  ELSE Descend(tb, bs, 2, tb.index[c])

------------------------------------------------------------------------------
\* what is wanted of it
Announced(c) == IF c \in Lead THEN Width[c] ELSE 1
Wanted(m, bs, r) ==
  LET n == Announced(bs[1]) IN
  IF Len(bs) < n THEN r = <<0, 0>>
  ELSE IF SubSeq(bs, 1, n) \in DOMAIN m THEN r = <<m[SubSeq(bs, 1, n)], n>>
  ELSE r[1] = 0 /\ r[2] \in 1..n
=============================================================================
