---- MODULE StreamSentence ----
(* streaming of sentences *)
EXTENDS SentenceMachine
CONSTANTS N, MaxEmpty, Slack, Kinds
VARIABLES text, got, rd, pos, out, ask, sc, empty
INSTANCE StreamMC WITH Init0 <- SInit, Step0 <- SStep
Few == {"Other", "Sep", "Extend", "Lower", "Upper", "ATerm", "STerm", "Close", "Sp"}
====
