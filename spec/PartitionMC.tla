---------------------------- MODULE PartitionMC ----------------------------
(* every text length up to N, every interleaving of two entry points with restarts *)
EXTENDS Partition, TLC
CONSTANTS N, MaxRestarts
VARIABLES st, rep, restarts
vars == <<st, rep, restarts>>
Init == /\ \E n \in 0..N : st = PInit(n)
        /\ rep = [s \in Sources |-> <<>>]
        /\ restarts = 0
Tok(s) == \E e \in 1..st.len :
            /\ CanToken(st, s, st.pos[s], e)
            /\ st' = Tokened(st, s, e)
            /\ rep' = [rep EXCEPT ![s] = Append(@, <<st.pos[s], e>>)]
            /\ UNCHANGED restarts
End(s) == CanEnd(st, s) /\ st' = Ended(st, s) /\ UNCHANGED <<rep, restarts>>
Restart(s) == /\ restarts < MaxRestarts
              /\ \E b \in st.known : st' = Started(st, s, b)
              /\ rep' = [rep EXCEPT ![s] = <<>>]
              /\ restarts' = restarts + 1
Next == \E s \in Sources : Tok(s) \/ End(s) \/ Restart(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Sources : WF_vars(Tok(s) \/ End(s))

\* what is reported is contiguous, non-empty, inside the text
Contiguous == \A s \in Sources : \A i \in 1..Len(rep[s]) :
                 /\ rep[s][i][1] < rep[s][i][2] /\ rep[s][i][2] <= st.len
                 /\ i > 1 => rep[s][i][1] = rep[s][i-1][2]
\* a finished source that started at 0 has reported the whole text, and any two agree
Whole(s) == st.done[s] /\ (rep[s] = <<>> \/ rep[s][1][1] = 0)
Lossless == \A s \in Sources : st.done[s] /\ Len(rep[s]) > 0 => rep[s][Len(rep[s])][2] = st.len
Suffix(a, b) == \E k \in 0..Len(b) : SubSeq(b, k + 1, Len(b)) = a
Agreement == \A s, t \in Sources : st.done[s] /\ st.done[t] => Suffix(rep[s], rep[t]) \/ Suffix(rep[t], rep[s])
Terminates == <>(\A s \in Sources : st.done[s])
=============================================================================
