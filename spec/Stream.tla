------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Reader-based segmentation: a reader delivers a text in chunks, and may  *)
(* fail; a scanner hands the split function what it holds, [pos, got), and *)
(* the split function either commits to a first token or asks for more.    *)
(*                                                                         *)
(* The segmenter is a parameter: Init0 and Step0 of a transducer, Kinds    *)
(* its alphabet.  Positions are counted in half symbols, so that a chunk   *)
(* may end inside a code point (odd position).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Kinds, Init0, Step0(_, _), Slack

------------------------------------------------------------------------------
\* What is known about the first token after reading the symbols b.
\*   [end |-> e, sure |-> TRUE]   it has e symbols, whatever follows
\*   [end |-> e, sure |-> FALSE]  it may end after e symbols (undecided)
\*   [end |-> 0, ...]             it extends over all of b so far
RECURSIVE Run(_, _, _, _)
Run(b, i, st, cand) ==
  IF i > Len(b) THEN [end |-> cand, sure |-> FALSE, at |-> 0, st |-> st]
  ELSE LET r == Step0(st, b[i]) IN
       IF cand # 0 /\ r.pend = "B" THEN [end |-> cand, sure |-> TRUE, at |-> i, st |-> r.st]
       ELSE LET c == IF r.pend = "J" THEN 0 ELSE cand IN
            IF c = 0 /\ r.here = "B" THEN [end |-> i - 1, sure |-> TRUE, at |-> i, st |-> r.st]
            ELSE Run(b, i + 1, r.st, IF c = 0 /\ r.here = "P" THEN i - 1 ELSE c)
Known(b) == Run(b, 1, Init0, 0)

\* the first token of the complete text b
FirstEnd(b) == LET r == Known(b) IN IF r.end = 0 THEN Len(b) ELSE r.end

\* the split function may commit to e symbols, b being what it sees and more may follow:
\* no continuation (the next symbol being one of nx) can give another first token
MayCommit(b, e, nx) ==
  LET r == Known(b) IN
  \/ r.sure /\ e = r.end
  \/ ~r.sure /\ r.end # 0 /\ e = r.end /\ \A k \in nx : Step0(r.st, k).pend = "B"
  \/ ~r.sure /\ r.end = 0 /\ b # <<>> /\ e = Len(b) /\ \A k \in nx : Step0(r.st, k).here = "B"
\* it has seen enough
MustCommit(b) == LET r == Known(b) IN r.sure /\ Len(b) >= r.at + Slack

\* the tokens of a complete text, as ends
RECURSIVE Ends(_, _)
Ends(t, from) == IF from > Len(t) THEN <<>>
                 ELSE LET e == from - 1 + FirstEnd(SubSeq(t, from, Len(t))) IN <<e>> \o Ends(t, e + 1)
=============================================================================
