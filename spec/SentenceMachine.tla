-------------------------- MODULE SentenceMachine --------------------------
(***************************************************************************)
(* The sentence segmenter as a deterministic transducer.                   *)
(*   sot   : nothing read yet                                              *)
(*   sep   : "" | "CR" | "Sep" - what was just read                        *)
(*   ul    : the last unit is an Upper or Lower                            *)
(*   term  : "-" | "A" | "S" - we are inside ATerm/STerm Close* Sp*        *)
(*   phase : 0 at the terminator, 1 in Close*, 2 in Sp*                    *)
(*   ulA   : the terminator directly follows Upper or Lower (SB7)          *)
(*   und   : a position is undecided (SB8 is looking for a Lower)          *)
(* Output as in WordMachine.                                               *)
(***************************************************************************)
EXTENDS SentenceRules

SInit == [sot |-> TRUE, sep |-> "", ul |-> FALSE, term |-> "-", phase |-> 0, ulA |-> FALSE, und |-> FALSE]

\* k starts a token, or continues one in which no terminator is pending
Plain(st, k) ==
  [ sot   |-> FALSE,
    sep   |-> IF k = "CR" THEN "CR" ELSE IF k \in ParaSep THEN "Sep" ELSE "",
    ul    |-> k \in {"Upper", "Lower"},
    term  |-> IF k = "ATerm" THEN "A" ELSE IF k = "STerm" THEN "S" ELSE "-",
    phase |-> 0,
    ulA   |-> k = "ATerm" /\ st.ul,
    und   |-> FALSE ]

\* k is a Close or Sp inside ATerm/STerm Close* Sp*
Trailing(st, k) == [st EXCEPT !.ul = FALSE, !.ulA = FALSE, !.phase = IF k = "Sp" THEN 2 ELSE 1]

SRule(st, k) ==
  IF st.sot THEN "SB1"
  ELSE IF st.sep = "CR" /\ k = "LF" THEN "SB3"
  ELSE IF st.sep # "" THEN "SB4"
  ELSE IF k \in SIgnore THEN "SB5"
  ELSE IF st.und THEN (IF k = "Lower" THEN "SB8 found" ELSE IF k \in SStops THEN "SB8 not found" ELSE "SB8 looking")
  ELSE IF st.term = "-" THEN "SB998"
  ELSE IF st.term = "A" /\ st.phase = 0 /\ k = "Numeric" THEN "SB6"
  ELSE IF st.term = "A" /\ st.phase = 0 /\ k = "Upper" /\ st.ulA THEN "SB7"
  ELSE IF st.term = "A" /\ k = "Lower" THEN "SB8"
  ELSE IF k \in {"SContinue"} \cup SATerm THEN "SB8a"
  ELSE IF st.phase <= 1 /\ k \in {"Close", "Sp"} \cup ParaSep THEN "SB9"
  ELSE IF st.phase = 2 /\ k \in {"Sp"} \cup ParaSep THEN "SB10"
  ELSE IF st.term = "A" /\ k \notin SStops THEN "SB8 look"
  ELSE "SB11"

SStep(st, k) ==
  LET r == SRule(st, k)
      p == Plain(st, k)
  IN
  CASE r = "SB1"  -> [st |-> Plain(SInit, k), here |-> "S", pend |-> "-", rule |-> r]
    [] r = "SB3"  -> [st |-> [p EXCEPT !.sep = "Sep"], here |-> "J", pend |-> "-", rule |-> r]
    [] r = "SB4"  -> [st |-> Plain(SInit, k), here |-> "B", pend |-> "-", rule |-> r]
    [] r = "SB5"  -> [st |-> st, here |-> "J", pend |-> "-", rule |-> r]
    [] r = "SB8 found"     -> [st |-> p, here |-> "J", pend |-> "J", rule |-> r]
    [] r = "SB8 not found" -> [st |-> p, here |-> "J", pend |-> "B", rule |-> r]
    [] r = "SB8 looking"   -> [st |-> st, here |-> "J", pend |-> "-", rule |-> r]
    [] r \in {"SB9", "SB10"} /\ k \in {"Close", "Sp"} ->
                     [st |-> Trailing(st, k), here |-> "J", pend |-> "-", rule |-> r]
    [] r = "SB8 look"      -> [st |-> [p EXCEPT !.und = TRUE], here |-> "P", pend |-> "-", rule |-> r]
    [] r = "SB11" -> [st |-> Plain(SInit, k), here |-> "B", pend |-> "-", rule |-> r]
    [] OTHER      -> [st |-> p, here |-> "J", pend |-> "-", rule |-> r]
=============================================================================
