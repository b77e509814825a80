-------------------------- MODULE GraphemeMachine --------------------------
(***************************************************************************)
(* The grapheme segmenter as a deterministic transducer: it reads one code *)
(* point kind per step and decides the boundary before it.  State is what  *)
(* a streaming implementation has to remember since the last boundary.     *)
(*   last : kind just read ("" at start of text)                           *)
(*   incb : 0 none / 1 consonant seen / 2 consonant and linker seen (GB9c) *)
(*   pict : 0 none / 1 ExtPict Extend* / 2 ExtPict Extend* ZWJ (GB11)      *)
(*   ri   : parity of the current RI run (GB12, GB13)                      *)
(* A step yields [st, out]; out.here is "S" (start of text), "J" (no       *)
(* boundary before this code point) or "B"; graphemes need no lookahead so *)
(* out.pend (resolution of an earlier undecided position) is always "-".   *)
(***************************************************************************)
EXTENDS GraphemeRules

GInit == [last |-> "", incb |-> 0, pict |-> 0, ri |-> 0]

LOCAL Props(k) == IF k = "" THEN {} ELSE GKindProps[k]

\* One operator per rule, so that a trace can be explained by rule name
GRule(st, k) ==
  LET a == Props(st.last)
      b == GKindProps[k]
  IN CASE st.last = ""                                            -> "GB1"
       [] st.last # "" /\ "CR" \in a /\ "LF" \in b                 -> "GB3"
       [] st.last # "" /\ ~("CR" \in a /\ "LF" \in b)
            /\ (a \cup b) \cap {"Control", "CR", "LF"} # {}        -> "GB4-5"
       [] OTHER ->
            IF "L" \in a /\ b \cap {"L","V","LV","LVT"} # {} THEN "GB6"
            ELSE IF a \cap {"LV","V"} # {} /\ b \cap {"V","T"} # {} THEN "GB7"
            ELSE IF a \cap {"LVT","T"} # {} /\ "T" \in b THEN "GB8"
            ELSE IF b \cap {"Extend","ZWJ"} # {} THEN "GB9"
            ELSE IF "SpacingMark" \in b THEN "GB9a"
            ELSE IF "Prepend" \in a THEN "GB9b"
            ELSE IF st.incb = 2 /\ "InCBConsonant" \in b THEN "GB9c"
            ELSE IF st.pict = 2 /\ "ExtPict" \in b THEN "GB11"
            ELSE IF st.ri = 1 /\ "RI" \in b THEN "GB12-13"
            ELSE "GB999"

GJoinRules == {"GB3", "GB6", "GB7", "GB8", "GB9", "GB9a", "GB9b", "GB9c", "GB11", "GB12-13"}

GAfter(st, k) ==
  LET b == GKindProps[k] IN
  [ last |-> k,
    incb |-> IF "InCBConsonant" \in b THEN 1
             ELSE IF "InCBLinker" \in b THEN (IF st.incb >= 1 THEN 2 ELSE 0)
             ELSE IF "InCBExtend" \in b THEN st.incb
             ELSE 0,
    pict |-> IF "ExtPict" \in b THEN 1
             ELSE IF "ZWJ" \in b THEN (IF st.pict = 1 THEN 2 ELSE 0)
             ELSE IF "Extend" \in b THEN (IF st.pict = 1 THEN 1 ELSE 0)
             ELSE 0,
    ri   |-> IF "RI" \in b THEN 1 - st.ri ELSE 0 ]

GStep(st, k) ==
  LET r == GRule(st, k) IN
  [ st   |-> GAfter(st, k),
    here |-> IF r = "GB1" THEN "S" ELSE IF r \in GJoinRules THEN "J" ELSE "B",
    pend |-> "-",
    rule |-> r ]
=============================================================================
