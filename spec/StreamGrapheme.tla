---- MODULE StreamGrapheme ----
(* streaming of grapheme clusters *)
EXTENDS GraphemeMachine
CONSTANTS N, MaxEmpty, Slack, Kinds
VARIABLES text, got, rd, pos, out, ask, sc, empty
INSTANCE StreamMC WITH Init0 <- GInit, Step0 <- GStep
Few == {"Other", "CR", "LF", "Extend", "ZWJ", "RI", "ExtPict", "Prepend"}
====
