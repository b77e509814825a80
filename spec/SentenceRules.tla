--------------------------- MODULE SentenceRules ---------------------------
(***************************************************************************)
(* Declarative transcription of the sentence boundary rules of UAX #29     *)
(* (Unicode 17), SB1..SB998, over sequences of Sentence_Break kinds.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

SKinds == {"Other", "CR", "LF", "Sep", "Extend", "Format", "Sp", "Lower", "Upper",
           "OLetter", "Numeric", "ATerm", "SContinue", "STerm", "Close"}
ParaSep   == {"Sep", "CR", "LF"}
SIgnore   == {"Extend", "Format"}
SATerm    == {"ATerm", "STerm"}
SStops    == {"OLetter", "Upper", "Lower"} \cup ParaSep \cup SATerm

\* SB5: the text up to i as a sequence of units; Extend and Format disappear into the
\* unit before them, except at the start of text and after a paragraph separator
RECURSIVE Units(_, _)
Units(s, i) ==
  IF i = 0 THEN <<>>
  ELSE LET u == Units(s, i - 1) IN
       IF s[i] \in SIgnore /\ u # <<>> /\ u[Len(u)] \notin ParaSep THEN u ELSE Append(u, s[i])

\* longest prefix of u that remains once a trailing run of K is dropped
RECURSIVE Drop(_, _)
Drop(u, K) == IF u = <<>> \/ u[Len(u)] \notin K THEN u ELSE Drop(SubSeq(u, 1, Len(u) - 1), K)
Drop1(u, K) == IF u = <<>> \/ u[Len(u)] \notin K THEN u ELSE SubSeq(u, 1, Len(u) - 1)
LastIn(u, K) == u # <<>> /\ u[Len(u)] \in K

\* first kind at or after position i that can stop SB8's (not ...)* run; "" if none
RECURSIVE FirstStop(_, _)
FirstStop(s, i) == IF i > Len(s) THEN "" ELSE IF s[i] \in SStops THEN s[i] ELSE FirstStop(s, i + 1)

SJoin(s, i) ==
  LET a == s[i]
      b == s[i + 1]
      u == Units(s, i)
      uCl   == Drop(u, {"Close"})                  \* SATerm Close*
      uSpCl == Drop(Drop(u, {"Sp"}), {"Close"})    \* SATerm Close* Sp*
      uAll  == Drop(Drop(Drop1(u, ParaSep), {"Sp"}), {"Close"})  \* SATerm Close* Sp* ParaSep?
  IN
  IF a = "CR" /\ b = "LF" THEN TRUE                                             \* SB3
  ELSE IF a \in ParaSep THEN FALSE                                              \* SB4
  ELSE IF b \in SIgnore THEN TRUE                                               \* SB5
  ELSE IF LastIn(u, {"ATerm"}) /\ b = "Numeric" THEN TRUE                       \* SB6
  ELSE IF LastIn(u, {"ATerm"}) /\ b = "Upper"
          /\ LastIn(SubSeq(u, 1, Len(u) - 1), {"Upper", "Lower"}) THEN TRUE     \* SB7
  ELSE IF LastIn(uSpCl, {"ATerm"}) /\ FirstStop(s, i + 1) = "Lower" THEN TRUE   \* SB8
  ELSE IF LastIn(uSpCl, SATerm) /\ b \in {"SContinue"} \cup SATerm THEN TRUE    \* SB8a
  ELSE IF LastIn(uCl, SATerm) /\ b \in {"Close", "Sp"} \cup ParaSep THEN TRUE   \* SB9
  ELSE IF LastIn(uSpCl, SATerm) /\ b \in {"Sp"} \cup ParaSep THEN TRUE          \* SB10
  ELSE IF LastIn(uAll, SATerm) THEN FALSE                                       \* SB11
  ELSE TRUE                                                                     \* SB998
=============================================================================
