------------------------------ MODULE AnsiSeg ------------------------------
(***************************************************************************)
(* Grapheme segmentation with the ANSI options.  A text is a sequence of   *)
(* bytes, each with its byte class c and, where a code point starts, the   *)
(* code point's grapheme kind k ("" on continuation bytes).  At the start  *)
(* of a token a complete control sequence is the token; anything else is   *)
(* the first grapheme cluster of what remains, by the ordinary rules.      *)
(***************************************************************************)
EXTENDS AnsiMachine
LOCAL G == INSTANCE GraphemeMachine

Cls(t) == [i \in 1 .. Len(t) |-> t[i].c]
\* length in bytes of the first cluster of t from byte i on, the machine being in state g
RECURSIVE Cluster(_, _, _)
Cluster(t, i, g) ==
  IF i > Len(t) THEN Len(t)
  ELSE IF t[i].k = "" THEN Cluster(t, i + 1, g)
  ELSE LET r == G!GStep(g, t[i].k) IN
       IF r.here = "B" THEN i - 1 ELSE Cluster(t, i + 1, r.st)
FirstToken(t, o7, o8) ==
  LET n == AnsiLen(o7, o8, Cls(t)) IN IF n > 0 THEN n ELSE Cluster(t, 1, G!GInit)

RECURSIVE Tokens(_, _, _)
\* lengths of all tokens
Tokens(t, o7, o8) ==
  IF t = <<>> THEN <<>>
  ELSE LET n == FirstToken(t, o7, o8) IN <<n>> \o Tokens(SubSeq(t, n + 1, Len(t)), o7, o8)
=============================================================================
