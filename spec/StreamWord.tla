---- MODULE StreamWord ----
(* streaming of words *)
EXTENDS WordMachine
CONSTANTS N, MaxEmpty, Slack, Kinds
VARIABLES text, got, rd, pos, out, ask, sc, empty
WordStep(st, k) == WStep("word", st, Sym(k, "-"))
INSTANCE StreamMC WITH Init0 <- WInit, Step0 <- WordStep
Few == {"Other", "CR", "LF", "Extend", "ALetter", "Numeric", "MidNumLet", "MidNum", "RI"}
====
