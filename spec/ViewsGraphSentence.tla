---- MODULE ViewsGraphSentence ----
(* memory views: sentences, printed *)
EXTENDS SentenceRules
FirstOf(c) == LET E[i \in 1..Len(c)] == IF i = Len(c) THEN i ELSE IF SJoin(c, i) THEN E[i + 1] ELSE i IN E[1]
CONSTANTS N, Kinds, Views
VARIABLES mem, it
INSTANCE ViewsGraph WITH FirstLen <- FirstOf
Few == {"Lower", "ATerm", "Upper"}
Parts == {<<0, N>>, <<1, N>>, <<0, N - 2>>}
====
