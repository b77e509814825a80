-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 at the level of byte classes.                                     *)
(*  - WellFormed / Units: the declarative grammar (Unicode Table 3-7)      *)
(*  - a decoding automaton that reads one byte class at a time             *)
(* The automaton is what the generated lookup functions, the split          *)
(* functions ("the rune extends past the data") and the test generator of  *)
(* ill-formed input are measured against.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* 00-7F | 80-8F | 90-9F | A0-BF | C0-C1 | C2-DF | E0 | E1-EC,EE-EF | ED | F0 | F1-F3 | F4 | F5-F7 | F8-FF
Classes == {"A", "T8", "T9", "TA", "C0", "L2", "E0", "L3", "ED", "F0", "L4", "F4", "F5", "F8"}
Trail == {"T8", "T9", "TA"}
Second(l) == CASE l = "L2" -> Trail [] l = "L3" -> Trail [] l = "L4" -> Trail
               [] l = "E0" -> {"TA"} [] l = "ED" -> {"T8", "T9"}
               [] l = "F0" -> {"T9", "TA"} [] l = "F4" -> {"T8"} [] OTHER -> {}
Length(l) == CASE l = "A" -> 1 [] l = "L2" -> 2 [] l \in {"E0", "L3", "ED"} -> 3
               [] l \in {"F0", "L4", "F4"} -> 4 [] OTHER -> 0
Leads == {"L2", "E0", "L3", "ED", "F0", "L4", "F4"}

------------------------------------------------------------------------------
\* declarative: u is the encoding of one code point
Unit(u) ==
  /\ Len(u) >= 1 /\ Length(u[1]) = Len(u)
  /\ Len(u) >= 2 => u[2] \in Second(u[1])
  /\ \A i \in 3..Len(u) : u[i] \in Trail
\* u can be completed to one
Prefix(u) ==
  /\ Len(u) >= 1 /\ u[1] \in Leads /\ Len(u) < Length(u[1])
  /\ Len(u) >= 2 => u[2] \in Second(u[1])
  /\ \A i \in 3..Len(u) : u[i] \in Trail
RECURSIVE WellFormed(_)
WellFormed(s) == \/ s = <<>>
                 \/ \E n \in 1..4 : n <= Len(s) /\ Unit(SubSeq(s, 1, n)) /\ WellFormed(SubSeq(s, n + 1, Len(s)))

------------------------------------------------------------------------------
\* the automaton: lead class (or "-") and the number of bytes of the unit so far
Idle == [lead |-> "-", n |-> 0]
\* reading class c in state d: "unit" completed, "more" needed, "bad"
Accept(d, c) ==
  IF d = Idle
  THEN IF c = "A" THEN "unit" ELSE IF c \in Leads THEN "more" ELSE "bad"
  ELSE LET ok == IF d.n = 1 THEN c \in Second(d.lead) ELSE c \in Trail
       IN IF ~ok THEN "bad" ELSE IF d.n + 1 = Length(d.lead) THEN "unit" ELSE "more"
\* a bad byte ends the unit; when it is not itself a trail byte it is looked at again
Advance(d, c) ==
  LET a == Accept(d, c) IN
  IF a = "unit" THEN Idle
  ELSE IF a = "more" THEN [lead |-> IF d = Idle THEN c ELSE d.lead, n |-> d.n + 1]
  ELSE IF d # Idle /\ c \in Leads THEN [lead |-> c, n |-> 1]
  ELSE Idle
=============================================================================
