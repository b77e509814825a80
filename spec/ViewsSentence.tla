---- MODULE ViewsSentence ----
(* memory views: sentences *)
EXTENDS SentenceRules
FirstOf(c) == LET E[i \in 1..Len(c)] == IF i = Len(c) THEN i ELSE IF SJoin(c, i) THEN E[i + 1] ELSE i IN E[1]
CONSTANTS N, Kinds, Way, Views, Steps
VARIABLES mem, it, held, next, steps
INSTANCE ViewsMC WITH FirstLen <- FirstOf
Few == {"Lower", "ATerm", "Upper"}
Parts == {<<0, N>>, <<1, N>>, <<0, N - 2>>}
====
