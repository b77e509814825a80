---------------------------- MODULE WordMachine ----------------------------
(***************************************************************************)
(* The word/phrase segmenter as a deterministic transducer.  It reads one  *)
(* symbol (kind plus joiner flag) per step.                                *)
(*   sot  : nothing read yet                                               *)
(*   last : the CR/LF/Newline/WSegSpace/ZWJ-ness of the symbol just read   *)
(*   p, q : the previous base and the base before it, reduced to the       *)
(*          properties later rules look at (WB4 ignores the rest)          *)
(*   ri   : parity of RIs joined so far in this token                      *)
(*   want : {} or the properties that the next base must have for the      *)
(*          undecided position before `mid' not to be a boundary (WB6,     *)
(*          WB7b, WB12 - the rules that look ahead)                        *)
(*   mid  : the symbol at that undecided position                          *)
(* A step yields                                                           *)
(*   here : "S" start, "J" joined to the previous, "B" boundary before it, *)
(*          "P" undecided                                                  *)
(*   pend : how this symbol settles an undecided position: "J", "B", "-"   *)
(* At end of text an undecided position is a boundary.                     *)
(***************************************************************************)
EXTENDS WordRules, FiniteSets

NoSym == [k |-> "", f |-> "-"]
WInit == [sot |-> TRUE, last |-> {}, p |-> {}, q |-> {}, ri |-> 0, want |-> {}, mid |-> NoSym]

LastProps == {"CR", "LF", "Newline", "WSegSpace", "ZWJ"}
PProps(tl) == AHL(tl) \cup {"Numeric", "Katakana", "ExtendNumLet", "MidLetter", "MidNum", "MidNumLet",
                            "SingleQuote", "DoubleQuote", "RI"}
              \cup (IF tl = "phrase" THEN {"WSegSpace"} ELSE {})
QProps(tl) == AHL(tl) \cup {"Numeric"}

\* a token starts with symbol y
Start(tl, y) ==
  LET c == First(y) IN
  [ sot |-> FALSE, last |-> c \cap LastProps,
    p |-> IF Has(c, Ignorable) THEN {} ELSE c \cap PProps(tl),
    q |-> {}, ri |-> 0, want |-> {}, mid |-> NoSym ]

\* symbol with properties c is added to the current token
Extended(tl, st, c, riNew) ==
  IF Has(c, Ignorable)
  THEN [st EXCEPT !.last = c \cap LastProps]
  ELSE [st EXCEPT !.last = c \cap LastProps, !.p = c \cap PProps(tl), !.q = st.p \cap QProps(tl), !.ri = riNew]

\* what may follow so that the position before c is joined by a lookahead rule
Wanted(tl, p, c) ==
  (IF Has(p, AHL(tl)) /\ Has(c, {"MidLetter"} \cup MidNumLetQ) THEN AHL(tl) ELSE {})          \* WB6
  \cup (IF Has(p, {"HebrewLetter"}) /\ Has(c, {"DoubleQuote"}) THEN {"HebrewLetter"} ELSE {}) \* WB7b
  \cup (IF Has(p, {"Numeric"}) /\ Has(c, {"MidNum"} \cup MidNumLetQ) THEN {"Numeric"} ELSE {}) \* WB12

\* the rule that decides the position before c, no position being undecided
WRule(tl, st, c) ==
  LET p == st.p  q == st.q  a == st.last
      ahl == AHL(tl)
      wd == {"Numeric"} \cup ahl \cup (IF tl = "phrase" THEN {"WSegSpace"} ELSE {})
  IN IF Has(p, ahl) /\ Has(c, ahl \cup {"Numeric"}) THEN "WB5/9"
     ELSE IF Has(a, {"CR"}) /\ Has(c, {"LF"}) THEN "WB3"
     ELSE IF Has(a, NewlineProps) THEN "WB3a"
     ELSE IF Has(c, NewlineProps) THEN "WB3b"
     ELSE IF Has(a, {"ZWJ"}) /\ Has(c, {"ExtPict"}) THEN "WB3c"
     ELSE IF Has(a, {"WSegSpace"}) /\ Has(c, {"WSegSpace"}) THEN "WB3d"
     ELSE IF Has(c, Ignorable) THEN "WB4"
     ELSE IF Has(q, ahl) /\ Has(p, {"MidLetter"} \cup MidNumLetQ) /\ Has(c, ahl) THEN "WB7"
     ELSE IF Has(p, {"HebrewLetter"}) /\ Has(c, {"SingleQuote"}) THEN "WB7a"
     ELSE IF Has(q, {"HebrewLetter"}) /\ Has(p, {"DoubleQuote"}) /\ Has(c, {"HebrewLetter"}) THEN "WB7c"
     ELSE IF Has(p, wd) /\ Has(c, wd) THEN "WB8/10"
     ELSE IF Has(q, {"Numeric"}) /\ Has(p, {"MidNum"} \cup MidNumLetQ) /\ Has(c, {"Numeric"}) THEN "WB11"
     ELSE IF Has(p, {"Katakana"}) /\ Has(c, {"Katakana"}) THEN "WB13"
     ELSE IF Has(p, ahl \cup {"Numeric", "Katakana", "ExtendNumLet"}) /\ Has(c, {"ExtendNumLet"}) THEN "WB13a"
     ELSE IF Has(p, {"ExtendNumLet"}) /\ Has(c, ahl \cup {"Numeric", "Katakana"}) THEN "WB13b"
     ELSE IF Has(p, {"RI"}) /\ Has(c, {"RI"}) /\ st.ri = 0 THEN "WB15-16"
     ELSE IF Wanted(tl, p, c) # {} THEN "WB6/7b/12"
     ELSE "WB999"

WBreakRules == {"WB3a", "WB3b", "WB999"}

\* no undecided position
Decide(tl, st, y) ==
  LET c == Later(y)
      r == WRule(tl, st, c)
  IN IF r = "WB6/7b/12"
     THEN [ st |-> [Extended(tl, st, c, 0) EXCEPT !.want = Wanted(tl, st.p, c), !.mid = y],
            here |-> "P", pend |-> "-", rule |-> r ]
     ELSE IF r \in WBreakRules
     THEN [ st |-> Start(tl, y), here |-> "B", pend |-> "-", rule |-> r ]
     ELSE [ st |-> Extended(tl, st, c, IF r = "WB15-16" THEN 1 ELSE 0),
            here |-> "J", pend |-> "-", rule |-> r ]

\* the undecided position turns out to be a boundary: the token restarts at mid, and
\* only ignorables (of which `last' is the latest) have been read since
Restarted(tl, st) == [Start(tl, st.mid) EXCEPT !.last = st.last]

WStep(tl, st, y) ==
  IF st.sot THEN [ st |-> Start(tl, y), here |-> "S", pend |-> "-", rule |-> "WB1" ]
  ELSE IF st.want = {} THEN Decide(tl, st, y)
  ELSE LET c == Later(y) IN
       IF Has(Raw(y), Ignorable)
       THEN [ st |-> [st EXCEPT !.last = c \cap LastProps], here |-> "J", pend |-> "-", rule |-> "WB4" ]
       ELSE IF Has(Raw(y), st.want)
       THEN [ st |-> Extended(tl, [st EXCEPT !.want = {}, !.mid = NoSym], c, 0),
              here |-> "J", pend |-> "J", rule |-> "WB7/7c/11" ]
       ELSE LET d == Decide(tl, Restarted(tl, st), y) IN [d EXCEPT !.pend = "B"]
=============================================================================
