------------------------------ MODULE GenericMC ------------------------------
(***************************************************************************)
(* Every script over texts of up to L bytes, every history of calls; the   *)
(***************************************************************************)
EXTENDS GenericIterator, TLC, Json
CONSTANTS L, Shortcut
\* answers at position p: errors, bad advances, every good one, and one too many
Scripts == {s \in [1..L -> -3..(L + 1)] : \A i \in 1..L : s[i] <= L - i + 2}
\* a text shorter than L sees the same answers
Others == { [i \in 1..L |-> 1], [i \in 1..L |-> L - i + 1] }       \* byte by byte; all at once
VARIABLES it, last, toks
vars == <<it, last, toks>>
Calls == {[op |-> o, arg |-> 0] : o \in {"Next", "First", "Value", "Start", "End", "Reset"}}
         \cup {[op |-> "SetText", arg |-> n] : n \in 0..L}
         \cup {[op |-> "Split", arg |-> s] : s \in Others}
Init == /\ \E s \in Scripts : it = GNew(L, s)
        /\ last = [op |-> "new", ret |-> <<>>, seen |-> <<>>] /\ toks = 0
Do(c, o) == /\ it' = o.st
            /\ last' = [op |-> c.op, ret |-> o.ret, seen |-> o.seen]
            /\ toks' = IF c.op \in {"Reset", "SetText"} THEN 0 ELSE IF c.op = "Next" /\ o.ret = <<1>> THEN toks + 1 ELSE toks
Next == \E c \in Calls : \E o \in GOutcomes(it, c.op, c.arg, Shortcut) : Do(c, o)
Spec == Init /\ [][Next]_vars

InText == 0 <= it.start /\ it.start <= it.pos /\ it.pos <= it.len
Bounded == toks <= it.len                                          \* never loops
Moves == [][last'.op = "Next" /\ last'.ret = <<1>> => it'.start = it.pos /\ it'.pos > it.pos]_vars   \* never skips
Loud == [][last'.op = "Next" /\ last'.seen # <<>> /\ ~Good(Answer(it.script, it.pos), it.len - it.pos) => last'.ret = Panic]_vars
Remaining == [][last'.seen # <<>> => last'.seen = << IF last'.op = "First" THEN 0 ELSE it.pos, it.len >>]_vars
Peek == [][last'.op = "First" => it' = it]_vars
AllSeen == last.op = "Next" /\ last.ret = <<0>> => it.pos = it.len
=============================================================================
