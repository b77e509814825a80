----------------------------- MODULE SentenceMC -----------------------------
(***************************************************************************)
(* All texts up to length N: the transducer decides every position as the  *)
(* declarative rules do, and a token found by looking only at the text     *)
(* from its own start on is the token the whole-text rules give.           *)
(***************************************************************************)
EXTENDS SentenceMachine, FiniteSets
CONSTANTS N, Alphabet
VARIABLES text, st, dec
vars == <<text, st, dec>>

LastP(d) == CHOOSE i \in 1..Len(d) : d[i] = "P" /\ \A j \in (i + 1)..Len(d) : d[j] # "P"
Settle(d, v) == IF v = "-" THEN d ELSE [d EXCEPT ![LastP(d)] = v]

Init == text = <<>> /\ st = SInit /\ dec = <<>>
Read(k) ==
  /\ Len(text) < N
  /\ LET r == SStep(st, k) IN
       /\ st' = r.st
       /\ dec' = Append(Settle(dec, r.pend), r.here)
  /\ text' = Append(text, k)
Next == \E k \in Alphabet : Read(k)
Spec == Init /\ [][Next]_vars

RulesAgree == \A i \in 1..(Len(text) - 1) : SJoin(text, i) <=> dec[i + 1] = "J"
Restartable ==
  \A b \in 2..Len(text) : dec[b] \in {"B", "P"} =>
     \A i \in b..(Len(text) - 1) :
        SJoin(SubSeq(text, b, Len(text)), i - b + 1) <=> dec[i + 1] = "J"
OneUndecided == Cardinality({i \in 1..Len(dec) : dec[i] = "P"}) = (IF st.und THEN 1 ELSE 0)
AllKinds == SKinds
=============================================================================
