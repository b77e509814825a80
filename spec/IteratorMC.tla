----------------------------- MODULE IteratorMC -----------------------------
(***************************************************************************)
(* Every history of calls on an iterator over five small texts and two     *)
(* option settings; the state graph is printed and walked on the real      *)
(* iterators.  "c" and "d" are texts in which the options matter.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
TextIds == {"e", "a", "b", "c", "d"}
Opts == {"off", "on"}
Len1(t) == CASE t = "e" -> 0 [] t = "a" -> 1 [] t = "b" -> 3 [] t = "c" -> 5 [] t = "d" -> 4
Tok1(t, o, p) == IF o = "on" /\ t = "c" /\ p = 1 THEN 4
                 ELSE IF o = "on" /\ t = "d" /\ p = 0 THEN 3
                 ELSE p + 1
INSTANCE IteratorApi WITH Length <- Len1, TokEnd <- Tok1

VARIABLES it, last, steps
vars == <<it, last, steps>>
Calls == {[op |-> o, arg |-> "-"] : o \in {"Next", "Value", "Start", "End", "First", "Reset"}}
         \cup {[op |-> "SetText", arg |-> t] : t \in TextIds}
         \cup {[op |-> "SetOpt", arg |-> o] : o \in Opts}
\* last: what the previous call was and returned; steps: successful Nexts since the text was (re)started
Init == it = New("b", "off") /\ last = [op |-> "new", ret |-> <<>>] /\ steps = 0
Do(c) == LET r == Call(it, c.op, c.arg) IN
         /\ it' = r.st
         /\ last' = [op |-> c.op, ret |-> r.ret]
         /\ steps' = IF c.op \in {"Reset", "SetText"} THEN 0
                     ELSE IF c.op = "Next" /\ r.ret = <<1>> THEN steps + 1 ELSE steps
Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars

\* the current token lies in the text; there is one exactly when Next has succeeded
InText == it.start <= it.pos /\ it.pos <= Len1(it.text)
Token == (steps > 0) <=> it.start < it.pos
Fresh == steps = 0 => it.start = 0 /\ it.pos = 0
Bounded == steps <= Len1(it.text)
\* reading changes nothing; Next fails only at the end, and then changes nothing; a token
\* starts where the previous one ended; options survive everything but SetOpt
Reading == [][last'.op \in {"Value", "Start", "End", "First"} => it' = it]_vars
AtEnd   == [][last'.op = "Next" /\ last'.ret = <<0>> => it' = it /\ it.pos = Len1(it.text)]_vars
Moves   == [][last'.op = "Next" /\ last'.ret = <<1>> =>
                 it'.start = it.pos /\ it'.pos > it'.start /\ it'.text = it.text]_vars
Options == [][last'.op # "SetOpt" => it'.opt = it.opt]_vars
Restart == [][last'.op \in {"Reset", "SetText"} => it' = New(it'.text, it.opt)]_vars

=============================================================================
