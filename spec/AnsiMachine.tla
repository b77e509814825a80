---------------------------- MODULE AnsiMachine ----------------------------
(***************************************************************************)
(* The same sequences, recognised byte by byte from the start of a token.  *)
(* A step gives the next state, or ends the attempt:                       *)
(*   "acc"  the byte completes the sequence                                *)
(*   "pre"  the sequence was complete before the byte (cancelled)          *)
(*   "rej"  no sequence starts here                                        *)
(***************************************************************************)
EXTENDS AnsiGrammar
AnsiStates == {"start", "esc", "nf", "csi", "csii", "osc", "osce", "str", "stre", "osc8", "str8"}
Ended == {"acc", "pre", "rej"}
AnsiStep(o7, o8, s, c) ==
  CASE s = "start" -> IF c = "ESC" THEN (IF o7 THEN "esc" ELSE "rej")
                      ELSE IF ~o8 THEN "rej"
                      ELSE IF c = "CCSI" THEN "csi"
                      ELSE IF c = "COSC" THEN "osc8"
                      ELSE IF c = "CSTR" THEN "str8"
                      ELSE IF c \in {"CST", "C1"} THEN "acc"
                      ELSE "rej"
    [] s = "esc"   -> IF c = "LBR" THEN "csi"
                      ELSE IF c = "RBR" THEN "osc"
                      ELSE IF c = "STR" THEN "str"
                      ELSE IF c = "INT" THEN "nf"
                      ELSE IF c \in {"PAR", "BSL", "FE", "FS"} THEN "acc"
                      ELSE "rej"
    [] s = "nf"    -> IF c = "INT" THEN "nf" ELSE IF c \in Final \cup {"PAR"} THEN "acc" ELSE "rej"
    [] s = "csi"   -> IF c = "PAR" THEN "csi" ELSE IF c = "INT" THEN "csii" ELSE IF c \in Final THEN "acc" ELSE "rej"
    [] s = "csii"  -> IF c = "INT" THEN "csii" ELSE IF c \in Final THEN "acc" ELSE "rej"
    [] s \in {"osc", "osce"} ->
                      IF s = "osce" /\ c = "BSL" THEN "acc"
                      ELSE IF c = "BEL" THEN "acc"
                      ELSE IF c = "CAN" THEN "pre"
                      ELSE IF c = "ESC" THEN "osce" ELSE "osc"
    [] s \in {"str", "stre"} ->
                      IF s = "stre" /\ c = "BSL" THEN "acc"
                      ELSE IF c = "CAN" THEN "pre"
                      ELSE IF c = "ESC" THEN "stre" ELSE "str"
    [] s = "osc8"  -> IF c \in {"BEL", "CST"} THEN "acc" ELSE IF c = "CAN" THEN "pre" ELSE "osc8"
    [] s = "str8"  -> IF c = "CST" THEN "acc" ELSE IF c = "CAN" THEN "pre" ELSE "str8"

RECURSIVE AnsiRun(_, _, _, _, _)
\* length of the sequence at position i of t, 0 if none (at the end of the text: none)
AnsiRun(o7, o8, t, i, s) ==
  IF s = "acc" THEN i - 1
  ELSE IF s = "pre" THEN i - 2
  ELSE IF s = "rej" \/ i > Len(t) THEN 0
  ELSE AnsiRun(o7, o8, t, i + 1, AnsiStep(o7, o8, s, t[i]))
AnsiLen(o7, o8, t) == AnsiRun(o7, o8, t, 1, "start")
=============================================================================
