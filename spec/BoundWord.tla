---- MODULE BoundWord ----
(* scanning words with a bounded buffer *)
EXTENDS WordMachine
CONSTANTS N, MaxEmpty, Slack, Kinds, Max
VARIABLES text, got, rd, pos, out, ask, sc, empty
WordStep(st, k) == WStep("word", st, Sym(k, "-"))
INSTANCE BoundMC WITH Init0 <- WInit, Step0 <- WordStep
Few == {"Other", "CR", "LF", "Extend", "ALetter", "Numeric", "MidNumLet", "MidNum", "RI"}
====
