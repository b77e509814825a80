-------------------------- MODULE GenericIterator --------------------------
(***************************************************************************)
(* An iterator driven by a caller's split function.  The function is a     *)
(* script: at byte position p of the text it answers script[p + 1],        *)
(*   k > 0 an advance of k bytes (possibly beyond the text)                *)
(*   0, -1 a zero or negative advance                                      *)
(*   -2    an error (with no advance)     -3  an error with an advance of 1*)
(* State: the text (its length), the script, the current token [start,pos) *)
(* and mode: "ok"; "stuck" after a panic for an error or an advance <= 0,  *)
(* where Next asks again at the same place and the token is unspecified;   *)
(* "over" after an advance beyond the text, where only Reset and SetText   *)
(* are specified.                                                          *)
(* shortcut: the iterator may take a last single byte without asking.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

GNew(n, s) == [len |-> n, script |-> s, start |-> 0, pos |-> 0, mode |-> "ok"]
Answer(s, p) == s[p + 1]
Good(a, rest) == a >= 1 /\ a <= rest

\* outcomes of a call: what it returns, the state after it, and whether the function was asked
\* (asked: the range of the text it saw - always all that remains, and always at end of input)
Outcome(r, st, seen) == [ret |-> r, st |-> st, seen |-> seen]
Panic == <<-1>>

NextOutcomes(s, shortcut) ==
  IF s.mode = "over" THEN {}
  ELSE IF s.pos = s.len THEN {Outcome(<<0>>, s, <<>>)}
  ELSE LET a == Answer(s.script, s.pos)
           rest == s.len - s.pos
           seen == << s.pos, s.len >>
           asked == IF Good(a, rest) THEN Outcome(<<1>>, [s EXCEPT !.start = s.pos, !.pos = s.pos + a, !.mode = "ok"], seen)
                    ELSE Outcome(Panic, [s EXCEPT !.mode = IF a > rest THEN "over" ELSE "stuck"], seen)
       IN {asked} \cup (IF shortcut /\ rest = 1
                        THEN {Outcome(<<1>>, [s EXCEPT !.start = s.pos, !.pos = s.pos + 1, !.mode = "ok"], <<>>)} ELSE {})
\* the first token of the text; the iterator stays as it is
FirstOutcomes(s, shortcut) ==
  IF s.len = 0 THEN {Outcome(<<0, 0>>, s, <<>>)}
  ELSE LET a == Answer(s.script, 0)
           asked == Outcome(IF Good(a, s.len) THEN <<0, a>> ELSE Panic, s, << 0, s.len >>)
       IN {asked} \cup (IF shortcut /\ s.len = 1 THEN {Outcome(<<0, 1>>, s, <<>>)} ELSE {})

GOutcomes(s, op, arg, shortcut) ==
  CASE op = "Next"    -> NextOutcomes(s, shortcut)
    [] op = "First"   -> FirstOutcomes(s, shortcut)
    [] op = "Value"   -> IF s.mode = "ok" THEN {Outcome(<<s.start, s.pos>>, s, <<>>)} ELSE {}
    [] op = "Start"   -> IF s.mode = "ok" THEN {Outcome(<<s.start>>, s, <<>>)} ELSE {}
    [] op = "End"     -> IF s.mode = "ok" THEN {Outcome(<<s.pos>>, s, <<>>)} ELSE {}
    [] op = "Reset"   -> {Outcome(<<>>, GNew(s.len, s.script), <<>>)}
    [] op = "SetText" -> {Outcome(<<>>, GNew(arg, s.script), <<>>)}
    [] op = "Split"   -> IF s.mode = "over" THEN {} ELSE {Outcome(<<>>, [s EXCEPT !.script = arg], <<>>)}
=============================================================================
