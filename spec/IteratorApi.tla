----------------------------- MODULE IteratorApi -----------------------------
(***************************************************************************)
(* The iterator protocol, as seen by a caller.  A text is a length and,    *)
(* for every option setting, the end of the token that begins at each      *)
(* position at which one can begin.  The state of an iterator is the text, *)
(* the option setting and the current token [start, pos).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* Length(t), TokEnd(t, o, p): parameters
CONSTANTS Length(_), TokEnd(_, _, _)

New(t, o) == [text |-> t, opt |-> o, start |-> 0, pos |-> 0]

HasNext(s) == s.pos < Length(s.text)
DoNext(s)  == IF HasNext(s)
              THEN [s EXCEPT !.start = s.pos, !.pos = TokEnd(s.text, s.opt, s.pos)]
              ELSE s
\* the first token of the text, under the current options, wherever the iterator is
FirstLen(s) == IF Length(s.text) = 0 THEN 0 ELSE TokEnd(s.text, s.opt, 0)
DoReset(s) == [s EXCEPT !.start = 0, !.pos = 0]
DoSetText(s, t) == New(t, s.opt)
DoSetOpt(s, o) == [s EXCEPT !.opt = o]

\* one call: op, its argument, what it returns, and the state after it.
\* Values are given as the offsets [b, x) of the text they must equal.
Call(s, op, arg) ==
  CASE op = "Next"    -> [ret |-> IF HasNext(s) THEN <<1>> ELSE <<0>>, st |-> DoNext(s)]
    [] op = "Value"   -> [ret |-> <<s.start, s.pos>>, st |-> s]
    [] op = "Start"   -> [ret |-> <<s.start>>, st |-> s]
    [] op = "End"     -> [ret |-> <<s.pos>>, st |-> s]
    [] op = "First"   -> [ret |-> <<0, FirstLen(s)>>, st |-> s]
    [] op = "Reset"   -> [ret |-> <<>>, st |-> DoReset(s)]
    [] op = "SetText" -> [ret |-> <<>>, st |-> DoSetText(s, arg)]
    [] op = "SetOpt"  -> [ret |-> <<>>, st |-> DoSetOpt(s, arg)]
=============================================================================
