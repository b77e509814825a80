---- MODULE BoundPhrase ----
(* scanning phrases with a bounded buffer *)
EXTENDS WordMachine
CONSTANTS N, MaxEmpty, Slack, Kinds, Max
VARIABLES text, got, rd, pos, out, ask, sc, empty
PhraseStep(st, k) == WStep("phrase", st, Sym(k, "-"))
INSTANCE BoundMC WITH Init0 <- WInit, Step0 <- PhraseStep
Few == {"Other", "LF", "Extend", "ALetter", "HebrewLetter", "DoubleQuote", "MidLetter", "WSegSpace", "ExtPict"}
====
