---------------------------- MODULE AnsiGrammar ----------------------------
(***************************************************************************)
(* ECMA-48 control functions, declaratively: which byte strings are        *)
(* complete control sequences, in their 7-bit (ESC ...) and 8-bit (C1)     *)
(* representations, with the conventions the package documents (OSC may    *)
(* end with BEL; CAN and SUB cancel a control string and stay outside it). *)
(* Strings are over byte classes; every definition talks about a whole     *)
(* string, none about how one reads it.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* the classes partition the 256 bytes (checked in AnsiMC)
ClassBytes == [
  BEL   |-> {7},
  CAN   |-> {24, 26},                                  \* CAN, SUB
  ESC   |-> {27},
  C0    |-> (0 .. 31) \ {7, 24, 26, 27},
  INT   |-> 32 .. 47,                                  \* intermediates
  PAR   |-> 48 .. 63,                                  \* parameters
  LBR   |-> {91},                                      \* [
  BSL   |-> {92},                                      \* \
  RBR   |-> {93},                                      \* ]
  STR   |-> {80, 88, 94, 95},                          \* P X ^ _
  FE    |-> (64 .. 95) \ {91, 92, 93, 80, 88, 94, 95},
  FS    |-> 96 .. 126,
  DEL   |-> {127},
  CCSI  |-> {155},
  COSC  |-> {157},
  CSTR  |-> {144, 152, 158, 159},
  CST   |-> {156},
  C1    |-> (128 .. 159) \ {155, 157, 144, 152, 158, 159, 156},
  HI    |-> 160 .. 255 ]
Classes == DOMAIN ClassBytes

Final == {"LBR", "BSL", "RBR", "STR", "FE", "FS"}        \* 40-7E
All(w, i, j, S) == \A k \in i .. j : w[k] \in S

\* w[i..] is params* inters* final, to the end of w
CsiBody(w, i) ==
  /\ Len(w) >= i /\ w[Len(w)] \in Final
  /\ \E k \in i - 1 .. Len(w) - 1 : All(w, i, k, {"PAR"}) /\ All(w, k + 1, Len(w) - 1, {"INT"})

\* the payload w[i..j] contains nothing that would end or cancel it
StAt(w, k) == k + 1 <= Len(w) /\ w[k] = "ESC" /\ w[k + 1] = "BSL"
Open7(w, i, j, bel) == \A k \in i .. j : w[k] # "CAN" /\ (bel => w[k] # "BEL") /\ ~(k < j /\ StAt(w, k))
Open8(w, i, j, bel) == \A k \in i .. j : w[k] \notin {"CAN", "CST"} /\ (bel => w[k] # "BEL")

\* complete control strings introduced by w[1..i-1]
String7(w, i, bel) ==
  \/ Len(w) >= i + 1 /\ StAt(w, Len(w) - 1) /\ Open7(w, i, Len(w) - 2, bel)
       /\ ~(Len(w) - 2 >= i /\ StAt(w, Len(w) - 2))
  \/ bel /\ Len(w) >= i /\ w[Len(w)] = "BEL" /\ Open7(w, i, Len(w) - 1, bel)
String8(w, i, bel) ==
  /\ Len(w) >= i
  /\ w[Len(w)] \in {"CST"} \cup (IF bel THEN {"BEL"} ELSE {})
  /\ Open8(w, i, Len(w) - 1, bel)

Whole7(w) ==
  /\ Len(w) >= 2 /\ w[1] = "ESC"
  /\ \/ w[2] = "LBR" /\ CsiBody(w, 3)
     \/ w[2] = "RBR" /\ String7(w, 3, TRUE)
     \/ w[2] = "STR" /\ String7(w, 3, FALSE)
     \/ Len(w) = 2 /\ w[2] \in {"PAR", "BSL", "FE", "FS"}
     \/ Len(w) >= 3 /\ All(w, 2, Len(w) - 1, {"INT"}) /\ w[Len(w)] \in Final \cup {"PAR"}
Whole8(w) ==
  /\ Len(w) >= 1
  /\ \/ w[1] = "CCSI" /\ CsiBody(w, 2)
     \/ w[1] = "COSC" /\ String8(w, 2, TRUE)
     \/ w[1] = "CSTR" /\ String8(w, 2, FALSE)
     \/ Len(w) = 1 /\ w[1] \in {"CST", "C1"}
\* a control string that the next byte cancels
Cancelled7(w) == Len(w) >= 2 /\ w[1] = "ESC" /\ w[2] \in {"RBR", "STR"} /\ Open7(w, 3, Len(w), w[2] = "RBR")
Cancelled8(w) == Len(w) >= 1 /\ w[1] \in {"COSC", "CSTR"} /\ Open8(w, 2, Len(w), w[1] = "COSC")

Lengths(t, o7, o8) ==
  {n \in 1 .. Len(t) :
     LET w == SubSeq(t, 1, n) IN
     \/ o7 /\ (Whole7(w) \/ (n < Len(t) /\ t[n + 1] = "CAN" /\ Cancelled7(w)))
     \/ o8 /\ (Whole8(w) \/ (n < Len(t) /\ t[n + 1] = "CAN" /\ Cancelled8(w)))}
SeqLen(t, o7, o8) == LET L == Lengths(t, o7, o8) IN IF L = {} THEN 0 ELSE CHOOSE n \in L : TRUE
=============================================================================
