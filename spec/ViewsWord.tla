---- MODULE ViewsWord ----
(* memory views: words *)
EXTENDS WordRules
FirstOf(c) == TokenEnd("word", [i \in DOMAIN c |-> Sym(c[i], "-")], 1)
CONSTANTS N, Kinds, Way, Views, Steps
VARIABLES mem, it, held, next, steps
INSTANCE ViewsMC WITH FirstLen <- FirstOf
Few == {"ALetter", "MidLetter", "WSegSpace"}
Parts == {<<0, N>>, <<1, N>>, <<0, N - 2>>}
====
