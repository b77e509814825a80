------------------------------- MODULE WordMC -------------------------------
(***************************************************************************)
(* All texts up to length N over an alphabet of (kind, joiner flag): the   *)
(* transducer finds the same tokens as the declarative rules applied token *)
(* by token, and without joiners the rules applied to the whole text give  *)
(* the same boundaries (so restarting at a boundary loses nothing).        *)
(***************************************************************************)
EXTENDS WordMachine, TLC
CONSTANTS N, Alphabet, Tailoring
VARIABLES text, st, dec
vars == <<text, st, dec>>

\* every undecided position is the one before `mid', i.e. the latest "P"
LastP(d) == CHOOSE i \in 1..Len(d) : d[i] = "P" /\ \A j \in (i + 1)..Len(d) : d[j] # "P"
Settle(d, v) == IF v = "-" THEN d ELSE [d EXCEPT ![LastP(d)] = v]

Init == text = <<>> /\ st = WInit /\ dec = <<>>
Read(y) ==
  /\ Len(text) < N
  /\ LET r == WStep(Tailoring, st, y) IN
       /\ st' = r.st
       /\ dec' = Append(Settle(dec, r.pend), r.here)
  /\ text' = Append(text, y)
Next == \E y \in Alphabet : Read(y)
Spec == Init /\ [][Next]_vars

\* boundaries (positions before which a token starts) by the declarative rules, text complete
RECURSIVE Starts(_, _)
Starts(t, a) == IF a > Len(t) THEN {} ELSE {a} \cup Starts(t, TokenEnd(Tailoring, t, a) + 1)
RulesAgree == {i \in 1..Len(text) : dec[i] # "J"} = Starts(text, 1)

Plain(t) == [i \in 1..Len(t) |-> Raw(t[i])]
WholeText ==
  (\A i \in 1..Len(text) : text[i].f = "-") =>
    \A i \in 1..(Len(text) - 1) : WJoin(Tailoring, Plain(text), Plain(text), i) <=> dec[i + 1] = "J"
\* a phrase boundary is always a word boundary
Coarser ==
  (\A i \in 1..Len(text) : text[i].f = "-") =>
    \A i \in 1..(Len(text) - 1) : WJoin("word", Plain(text), Plain(text), i) => WJoin("phrase", Plain(text), Plain(text), i)
OneUndecided == Cardinality({i \in 1..Len(dec) : dec[i] = "P"}) = (IF st.want = {} THEN 0 ELSE 1)

PlainKinds == {Sym(k, "-") : k \in WKinds}
Flags == {"-", "L", "M", "LM"}
JoinerKinds == {Sym(k, f) : k \in WKinds, f \in Flags}
\* one kind per role, all flags
JoinerSmall == {Sym(k, f) : k \in {"Other", "LF", "CR", "ZWJ", "WSegSpace", "ALetter", "HebrewLetter", "Numeric", "RI", "ExtPict", "DoubleQuote"}, f \in Flags}
=============================================================================
