------------------------------ MODULE ViewsApi ------------------------------
(***************************************************************************)
(* Iterators as users of memory.  Memory is a sequence of cells; a text is *)
(* a part [lo, hi) of it, and texts may overlap.  An iterator owns nothing *)
(* but a text and two offsets: what it does next is decided by the cells   *)
(* from its position on, as they are at that moment, and a token is a part *)
(* of the memory, not a copy.  Whoever else owns the memory may write it   *)
(* between any two calls.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* FirstLen(c): number of cells in the first token of the non-empty text c
CONSTANTS FirstLen(_)

NewView(lo, hi) == [lo |-> lo, hi |-> hi, start |-> 0, pos |-> 0]
Cells(m, lo, hi) == SubSeq(m, lo + 1, hi)
Rest(m, s)  == Cells(m, s.lo + s.pos, s.hi)
Whole(m, s) == Cells(m, s.lo, s.hi)
Token(s)    == [lo |-> s.lo + s.start, hi |-> s.lo + s.pos]    \* what Value gives

HasMore(s) == s.pos < s.hi - s.lo
Advance(m, s) == IF HasMore(s) THEN [s EXCEPT !.start = s.pos, !.pos = s.pos + FirstLen(Rest(m, s))] ELSE s
FirstToken(m, s) == [lo |-> s.lo, hi |-> IF s.hi = s.lo THEN s.lo ELSE s.lo + FirstLen(Whole(m, s))]
Restart(s) == NewView(s.lo, s.hi)

\* the ends of the tokens still to come
RECURSIVE Segment(_)
Segment(c) == IF c = <<>> THEN <<>>
              ELSE LET n == FirstLen(c) IN <<n>> \o Segment(SubSeq(c, n + 1, Len(c)))
=============================================================================
