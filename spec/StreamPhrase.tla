---- MODULE StreamPhrase ----
(* streaming of phrases *)
EXTENDS WordMachine
CONSTANTS N, MaxEmpty, Slack, Kinds
VARIABLES text, got, rd, pos, out, ask, sc, empty
PhraseStep(st, k) == WStep("phrase", st, Sym(k, "-"))
INSTANCE StreamMC WITH Init0 <- WInit, Step0 <- PhraseStep
Few == {"Other", "LF", "Extend", "ALetter", "HebrewLetter", "DoubleQuote", "MidLetter", "WSegSpace", "ExtPict"}
====
