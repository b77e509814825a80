---- MODULE BoundGrapheme ----
(* scanning grapheme clusters with a bounded buffer *)
EXTENDS GraphemeMachine
CONSTANTS N, MaxEmpty, Slack, Kinds, Max
VARIABLES text, got, rd, pos, out, ask, sc, empty
INSTANCE BoundMC WITH Init0 <- GInit, Step0 <- GStep
Few == {"Other", "CR", "LF", "Extend", "ZWJ", "RI", "ExtPict", "Prepend"}
====
