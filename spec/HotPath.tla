------------------------------ MODULE HotPath ------------------------------
(***************************************************************************)
(* The shortcuts the iterators take before (or instead of) asking the      *)
(* split function, over texts whose symbols say whether the shortcut knows *)
(* them (h):                                                               *)
(*                                                                         *)
(*  words      a run of ASCII letters and digits is a token when an ASCII  *)
(*             space or nothing follows;                                   *)
(*  phrases    a run of ASCII letters, digits and spaces belongs to the    *)
(*  sentences  token; the rest is asked for from the last of them on,      *)
(*             which is all the rules see of what lies before;             *)
(*  graphemes  an ASCII character other than CR is a token when an ASCII   *)
(*             character or nothing follows.                               *)
(*                                                                         *)
(* Sound: such an iterator finds the token of the rules.  Way names the    *)
(* shortcut; the ones besides "right" are mistakes one can make.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Seg, N, Way, Joiners
VARIABLE text

W == INSTANCE WordRules
S == INSTANCE SentenceRules
G == INSTANCE GraphemeRules

\* kinds that have members the shortcut knows
Known ==
  CASE Seg \in {"words", "phrases"} -> {"ALetter", "Numeric", "WSegSpace"}
    [] Seg = "sentences" -> {"Lower", "Upper", "Numeric", "Sp"}
    [] Seg = "graphemes" -> {"CR", "LF", "Control", "Other"}
Extra ==
  CASE Seg = "words" /\ Way = "mark" -> {"MidNumLet"}
    [] Seg = "phrases" /\ Way = "underscore" -> {"ExtendNumLet"}
    [] Seg = "sentences" /\ Way = "stop" -> {"ATerm"}
    [] OTHER -> {}
Kinds == CASE Seg \in {"words", "phrases"} -> W!WKinds [] Seg = "sentences" -> S!SKinds [] OTHER -> G!GKinds
\* joiners may be chosen among the characters the shortcut knows, too
Flags == IF Joiners THEN {"-", "L", "M"} ELSE {"-"}
Alphabet == {[k |-> k, h |-> h, f |-> f] : k \in Kinds, h \in BOOLEAN, f \in Flags}
Symbols == {y \in Alphabet : y.h => y.k \in Known \cup Extra}

IsSpace(y) == y.h /\ y.k \in {"WSegSpace", "Sp"}
IsAlnum(y) == y.h /\ ~IsSpace(y)

Init == text = <<>>
Next == /\ Len(text) < N
        /\ \E y \in Symbols : text' = Append(text, y)
Spec == Init /\ [][Next]_text

---------------------------------------------------------------------------
Ks(t) == [i \in 1..Len(t) |-> t[i].k]
Min(A) == CHOOSE a \in A : \A b \in A : a <= b
\* end of the first token of t by the rules
RuleEnd(t) ==
  CASE Seg = "words"     -> W!TokenEnd("word", [i \in 1..Len(t) |-> W!Sym(t[i].k, t[i].f)], 1)
    [] Seg = "phrases"   -> W!TokenEnd("phrase", [i \in 1..Len(t) |-> W!Sym(t[i].k, t[i].f)], 1)
    [] Seg = "sentences" -> Min({Len(t)} \cup {i \in 1..(Len(t) - 1) : ~S!SJoin(Ks(t), i)})
    [] OTHER             -> Min({Len(t)} \cup {i \in 1..(Len(t) - 1) : ~G!GJoin(Ks(t), i)})

\* length of the run of symbols at the start of t that satisfy P
RunOf(t, P(_)) == Min({Len(t)} \cup {i - 1 : i \in {j \in 1..Len(t) : ~P(t[j])}})
From(t, i) == SubSeq(t, i, Len(t))

\* [e: end of the first token, how: what found it]
Asked(t) == [e |-> RuleEnd(t), how |-> "asked"]
HotWords(t) ==
  LET run == RunOf(t, IsAlnum) IN
  IF run = 0 \/ (Joiners /\ Way # "always") THEN Asked(t)
  ELSE IF run = Len(t) \/ IsSpace(t[run + 1]) THEN [e |-> run, how |-> "run"]
  ELSE Asked(t)
HotRuns(t) ==
  LET run  == RunOf(t, LAMBDA y : y.h)
      skip == IF run = 0 THEN 0 ELSE IF Way = "noback" THEN run ELSE run - 1
  IN IF run = Len(t) THEN [e |-> run, how |-> "run"]
     ELSE IF run = 0 THEN Asked(t)
     ELSE [e |-> skip + RuleEnd(From(t, skip + 1)), how |-> "rest"]
HotGraphemes(t) ==
  IF t[1].h /\ (t[1].k # "CR" \/ Way = "cr") /\ (Len(t) = 1 \/ t[2].h \/ Way = "ahead")
  THEN [e |-> 1, how |-> "run"] ELSE Asked(t)
Hot(t) == CASE Seg = "words" -> HotWords(t) [] Seg \in {"phrases", "sentences"} -> HotRuns(t) [] OTHER -> HotGraphemes(t)

Sound == text # <<>> => Hot(text).e = RuleEnd(text)

\* every text with its first token, for the conformance runs
Says == IF text = <<>> THEN TRUE
        ELSE PrintT("T " \o ToJson([t |-> text, e |-> RuleEnd(text), how |-> Hot(text).how]))
============================================================================
