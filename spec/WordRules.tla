----------------------------- MODULE WordRules -----------------------------
(***************************************************************************)
(* Declarative transcription of the word boundary rules of UAX #29         *)
(* (Unicode 17), WB1..WB999, and of this library's two tailorings:         *)
(*                                                                         *)
(*  - phrases (tailoring = "phrase"): Extended_Pictographic counts as a    *)
(*    letter, and WSegSpace joins letters, numbers and other WSegSpace     *)
(*    (WB8-10 extended);                                                   *)
(*  - joiners: a caller-chosen code point is a letter when it is the first *)
(*    of a token (Leading) and a MidNumLet anywhere later (Middle).        *)
(*                                                                         *)
(* A kind is the set of properties of a code point.  Rules are evaluated   *)
(* on a text given as a sequence of property sets, `s', plus the           *)
(* untailored sets `raw' that lookahead consults.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

WKindProps == [
  Other          |-> {},
  CR             |-> {"CR"},
  LF             |-> {"LF"},
  Newline        |-> {"Newline"},
  Extend         |-> {"Extend"},
  Format         |-> {"Format"},
  ZWJ            |-> {"ZWJ"},
  WSegSpace      |-> {"WSegSpace"},
  ALetter        |-> {"ALetter"},
  ALetterPict    |-> {"ALetter", "ExtPict"},
  HebrewLetter   |-> {"HebrewLetter"},
  Numeric        |-> {"Numeric"},
  Katakana       |-> {"Katakana"},
  ExtendNumLet   |-> {"ExtendNumLet"},
  MidLetter      |-> {"MidLetter"},
  MidNum         |-> {"MidNum"},
  MidNumLet      |-> {"MidNumLet"},
  SingleQuote    |-> {"SingleQuote"},
  DoubleQuote    |-> {"DoubleQuote"},
  RI             |-> {"RI"},
  ExtPict        |-> {"ExtPict"} ]
WKinds == DOMAIN WKindProps

AHL(tailoring)  == {"ALetter", "HebrewLetter"} \cup (IF tailoring = "phrase" THEN {"ExtPict"} ELSE {})
MidNumLetQ      == {"MidNumLet", "SingleQuote"}
Ignorable       == {"Extend", "Format", "ZWJ"}
NewlineProps    == {"Newline", "CR", "LF"}

Has(p, props) == p \cap props # {}

\* WB4: the base that position i belongs to (0: none - start of text or after a newline)
RECURSIVE BaseAt(_, _)
BaseAt(s, i) ==
  IF i = 0 THEN 0
  ELSE IF ~Has(s[i], Ignorable) THEN i
  ELSE LET j == BaseAt(s, i - 1) IN
       IF j = 0 \/ Has(s[j], NewlineProps) THEN 0 ELSE j
\* WB4: first non-ignorable at or after i (0: none)
RECURSIVE NextBase(_, _)
NextBase(s, i) ==
  IF i > Len(s) THEN 0 ELSE IF ~Has(s[i], Ignorable) THEN i ELSE NextBase(s, i + 1)
PropsAt(s, i) == IF i = 0 THEN {} ELSE s[i]

\* number of consecutive RI bases ending at base i
RECURSIVE RIRun(_, _)
RIRun(s, i) == IF i = 0 \/ ~Has(s[i], {"RI"}) THEN 0
               ELSE 1 + RIRun(s, BaseAt(s, i - 1))

\* TRUE iff there is NO boundary between positions i and i+1
WJoin(tl, s, raw, i) ==
  LET a  == s[i]
      b  == s[i + 1]
      pi == BaseAt(s, i)
      p  == PropsAt(s, pi)                       \* previous base
      q  == IF pi = 0 THEN {} ELSE PropsAt(s, BaseAt(s, pi - 1))   \* the base before it
      n  == PropsAt(raw, NextBase(raw, i + 2))   \* the base after s[i+1]
      ahl == AHL(tl)
      sp  == IF tl = "phrase" THEN {"WSegSpace"} ELSE {}
  IN
  IF Has(p, ahl) /\ Has(b, ahl \cup {"Numeric"}) THEN TRUE                        \* LJ (see below)
  ELSE IF Has(a, {"CR"}) /\ Has(b, {"LF"}) THEN TRUE                              \* WB3
  ELSE IF Has(a, NewlineProps) THEN FALSE                                          \* WB3a
  ELSE IF Has(b, NewlineProps) THEN FALSE                                          \* WB3b
  ELSE IF Has(a, {"ZWJ"}) /\ Has(b, {"ExtPict"}) THEN TRUE                         \* WB3c
  ELSE IF Has(a, {"WSegSpace"}) /\ Has(b, {"WSegSpace"}) THEN TRUE                 \* WB3d
  ELSE IF Has(b, Ignorable) THEN TRUE                                              \* WB4
  ELSE IF Has(p, ahl) /\ Has(b, ahl) THEN TRUE                                     \* WB5
  ELSE IF Has(p, ahl) /\ Has(b, {"MidLetter"} \cup MidNumLetQ) /\ Has(n, ahl) THEN TRUE          \* WB6
  ELSE IF Has(q, ahl) /\ Has(p, {"MidLetter"} \cup MidNumLetQ) /\ Has(b, ahl) THEN TRUE          \* WB7
  ELSE IF Has(p, {"HebrewLetter"}) /\ Has(b, {"SingleQuote"}) THEN TRUE            \* WB7a
  ELSE IF Has(p, {"HebrewLetter"}) /\ Has(b, {"DoubleQuote"}) /\ Has(n, {"HebrewLetter"}) THEN TRUE \* WB7b
  ELSE IF Has(q, {"HebrewLetter"}) /\ Has(p, {"DoubleQuote"}) /\ Has(b, {"HebrewLetter"}) THEN TRUE \* WB7c
  ELSE IF Has(p, {"Numeric"} \cup ahl \cup sp) /\ Has(b, {"Numeric"} \cup ahl \cup sp) THEN TRUE \* WB8-10 (+ phrases)
  ELSE IF Has(q, {"Numeric"}) /\ Has(p, {"MidNum"} \cup MidNumLetQ) /\ Has(b, {"Numeric"}) THEN TRUE \* WB11
  ELSE IF Has(p, {"Numeric"}) /\ Has(b, {"MidNum"} \cup MidNumLetQ) /\ Has(n, {"Numeric"}) THEN TRUE \* WB12
  ELSE IF Has(p, {"Katakana"}) /\ Has(b, {"Katakana"}) THEN TRUE                   \* WB13
  ELSE IF Has(p, ahl \cup {"Numeric", "Katakana", "ExtendNumLet"}) /\ Has(b, {"ExtendNumLet"}) THEN TRUE \* WB13a
  ELSE IF Has(p, {"ExtendNumLet"}) /\ Has(b, ahl \cup {"Numeric", "Katakana"}) THEN TRUE \* WB13b
  ELSE IF Has(p, {"RI"}) /\ Has(b, {"RI"}) /\ RIRun(s, pi) % 2 = 1 THEN TRUE       \* WB15-16
  ELSE FALSE                                                                       \* WB999

\* LJ only matters for a Leading joiner that is itself a newline: being a letter by the
\* caller's choice, it joins the word after it.  On untailored kinds it is WB5/WB9.
---------------------------------------------------------------------------
(* Symbols: a kind together with the caller's joiner choice for that code  *)
(* point.  flag is "-" (neither), "L" (Leading), "M" (Middle) or "LM".     *)
Sym(k, f) == [k |-> k, f |-> f]
First(sym) == WKindProps[sym.k] \cup (IF sym.f \in {"L", "LM"} THEN {"ALetter", "HebrewLetter"} ELSE {})
Later(sym) == WKindProps[sym.k] \cup (IF sym.f \in {"M", "LM"} THEN {"MidNumLet"} ELSE {})
Raw(sym)   == WKindProps[sym.k]

\* the view of text t that a token starting at position a has of it
ViewFrom(t, a) == [i \in 1..(Len(t) - a + 1) |-> IF i = 1 THEN First(t[a]) ELSE Later(t[a + i - 1])]
RawFrom(t, a)  == [i \in 1..(Len(t) - a + 1) |-> Raw(t[a + i - 1])]

\* end (inclusive) of the token that starts at a: the last position before the first boundary
RECURSIVE TokenEnd(_, _, _)
TokenEnd(tl, t, a) ==
  LET v == ViewFrom(t, a)
      r == RawFrom(t, a)
      n == Len(v)
      E[i \in 1..n] == IF i = n THEN n ELSE IF WJoin(tl, v, r, i) THEN E[i + 1] ELSE i
  IN a + E[1] - 1
=============================================================================
