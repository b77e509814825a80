--------------------------- MODULE GraphemeRules ---------------------------
(***************************************************************************)
(* Declarative transcription of the extended grapheme cluster rules of     *)
(* UAX #29 (Unicode 17), GB1..GB999, over sequences of code-point kinds.   *)
(* A kind is the SET of segmentation properties a code point carries       *)
(* (Grapheme_Cluster_Break, Extended_Pictographic, Indic_Conjunct_Break).  *)
(* Nothing here knows how the Go code works: every rule quantifies over    *)
(* positions of the whole text.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* name -> property set; every combination that occurs in Unicode 17
GKindProps == [
  Other        |-> {},
  CR           |-> {"CR"},
  LF           |-> {"LF"},
  Control      |-> {"Control"},
  ExtendOnly   |-> {"Extend"},                        \* U+200C
  Extend       |-> {"Extend", "InCBExtend"},
  Linker       |-> {"Extend", "InCBLinker"},
  ZWJ          |-> {"ZWJ", "InCBExtend"},
  Consonant    |-> {"InCBConsonant"},
  RI           |-> {"RI"},
  Prepend      |-> {"Prepend"},
  SpacingMark  |-> {"SpacingMark"},
  L            |-> {"L"},
  V            |-> {"V"},
  T            |-> {"T"},
  LV           |-> {"LV"},
  LVT          |-> {"LVT"},
  ExtPict      |-> {"ExtPict"} ]
GKinds == DOMAIN GKindProps

LOCAL Has(k, props) == GKindProps[k] \cap props # {}

\* length of the maximal run of kinds in K ending at position i
RECURSIVE RunEnding(_, _, _)
RunEnding(s, i, K) == IF i = 0 \/ s[i] \notin K THEN 0 ELSE 1 + RunEnding(s, i - 1, K)

\* TRUE iff there is NO boundary between s[i] and s[i+1]  (1 <= i < Len(s))
GJoin(s, i) ==
  LET a == s[i]
      b == s[i + 1]
  IN
  IF a = "CR" /\ b = "LF" THEN TRUE                                          \* GB3
  ELSE IF Has(a, {"Control", "CR", "LF"}) THEN FALSE                          \* GB4
  ELSE IF Has(b, {"Control", "CR", "LF"}) THEN FALSE                          \* GB5
  ELSE IF a = "L" /\ b \in {"L", "V", "LV", "LVT"} THEN TRUE                  \* GB6
  ELSE IF a \in {"LV", "V"} /\ b \in {"V", "T"} THEN TRUE                     \* GB7
  ELSE IF a \in {"LVT", "T"} /\ b = "T" THEN TRUE                             \* GB8
  ELSE IF Has(b, {"Extend", "ZWJ"}) THEN TRUE                                 \* GB9
  ELSE IF b = "SpacingMark" THEN TRUE                                         \* GB9a
  ELSE IF a = "Prepend" THEN TRUE                                             \* GB9b
  ELSE IF /\ b = "Consonant"                                                  \* GB9c
          /\ \E j \in 1..i :
               /\ s[j] = "Consonant"
               /\ \A k \in (j + 1)..i : Has(s[k], {"InCBExtend", "InCBLinker"})
               /\ \E k \in (j + 1)..i : Has(s[k], {"InCBLinker"}) THEN TRUE
  ELSE IF /\ b = "ExtPict" /\ a = "ZWJ"                                       \* GB11
          /\ \E j \in 1..(i - 1) :
               /\ s[j] = "ExtPict"
               /\ \A k \in (j + 1)..(i - 1) : Has(s[k], {"Extend"}) THEN TRUE
  ELSE IF /\ a = "RI" /\ b = "RI"                                             \* GB12 GB13
          /\ RunEnding(s, i, {"RI"}) % 2 = 1 THEN TRUE
  ELSE FALSE                                                                  \* GB999
=============================================================================
