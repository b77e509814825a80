----------------------------- MODULE GraphemeMC -----------------------------
(***************************************************************************)
(* All texts up to length N: the transducer decides every position exactly *)
(* as the declarative rules do (RulesAgree), and segmentation restarts     *)
(* cleanly at every boundary (Restartable), which is what makes a token-   *)
(* at-a-time iterator correct.                                             *)
(***************************************************************************)
EXTENDS GraphemeMachine
CONSTANTS N, Alphabet
VARIABLES text, st, dec
vars == <<text, st, dec>>

Init == text = <<>> /\ st = GInit /\ dec = <<>>
Read(k) ==
  /\ Len(text) < N
  /\ LET r == GStep(st, k) IN
       /\ st' = r.st
       /\ dec' = Append(dec, r.here)
  /\ text' = Append(text, k)
Next == \E k \in Alphabet : Read(k)
Spec == Init /\ [][Next]_vars

\* only the last position is new in each state; earlier ones were checked in the prefix
RulesAgree == Len(text) >= 2 => (dec[Len(text)] = "J" <=> GJoin(text, Len(text) - 1))
StartOnly  == Len(text) >= 1 => dec[1] = "S"
Restartable ==
  LET n == Len(text) IN
  n >= 2 =>
    \A b \in 2..(n - 1) : dec[b] = "B" =>
       (GJoin(SubSeq(text, b, n), n - b) <=> dec[n] = "J")
AllKinds == GKinds
=============================================================================
