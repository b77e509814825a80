------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* What every entry point of a segmenter does with a text of Length bytes: *)
(* it reports tokens as [start, end) pairs until the text is used up.      *)
(*                                                                         *)
(* One token sequence belongs to the text (`ends', discovered by whichever *)
(* entry point gets there first); every entry point - string, bytes, split *)
(* function, reader, and fresh iterators started at a boundary - reports   *)
(* exactly that sequence (from its starting point on), each token          *)
(* non-empty and beginning where the previous one ended.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Sources            \* names of entry points

\* state: len, known (boundaries discovered), front (how far they are known),
\* pos[src] (bytes reported so far, per source), done[src]
PInit(n) == [len |-> n, known |-> {0}, front |-> 0, pos |-> [s \in Sources |-> 0], done |-> [s \in Sources |-> FALSE]]

\* source s starts (or restarts) at a boundary
CanStart(st, b) == b \in st.known
Started(st, s, b) == [st EXCEPT !.pos[s] = b, !.done[s] = FALSE]

\* source s reports the token [b, e)
CanToken(st, s, b, e) ==
  /\ ~st.done[s]
  /\ b = st.pos[s] /\ e > b /\ e <= st.len
  /\ IF b < st.front
     THEN e \in st.known /\ \A x \in st.known : ~(b < x /\ x < e)
     ELSE b = st.front
Tokened(st, s, e) == [st EXCEPT !.pos[s] = e, !.known = @ \cup {e}, !.front = IF e > @ THEN e ELSE @]

\* source s reports the end
CanEnd(st, s) == ~st.done[s] /\ st.pos[s] = st.len
Ended(st, s) == [st EXCEPT !.done[s] = TRUE]
=============================================================================
