---- MODULE ViewsGraphPhrase ----
(* memory views: phrases, printed *)
EXTENDS WordRules
FirstOf(c) == TokenEnd("phrase", [i \in DOMAIN c |-> Sym(c[i], "-")], 1)
CONSTANTS N, Kinds, Views
VARIABLES mem, it
INSTANCE ViewsGraph WITH FirstLen <- FirstOf
Few == {"ALetter", "MidLetter", "WSegSpace"}
Parts == {<<0, N>>, <<1, N>>, <<0, N - 2>>}
====
