---- MODULE BoundSentence ----
(* scanning sentences with a bounded buffer *)
EXTENDS SentenceMachine
CONSTANTS N, MaxEmpty, Slack, Kinds, Max
VARIABLES text, got, rd, pos, out, ask, sc, empty
INSTANCE BoundMC WITH Init0 <- SInit, Step0 <- SStep
Few == {"Other", "Sep", "Extend", "Lower", "Upper", "ATerm", "STerm", "Close", "Sp"}
====
