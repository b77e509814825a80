------------------------------- MODULE BoundMC -------------------------------
(***************************************************************************)
(* The scanner of StreamMC with a buffer of Max half symbols: it reads no  *)
(* more than fits, and when the buffer is full and the split function asks *)
(* for more it stops with an error (sc = "toolong").                       *)
(***************************************************************************)
EXTENDS StreamMC
CONSTANT Max
Held == got - 2 * pos

BRead == Held < Max /\ Read /\ got' - 2 * pos <= Max
TooLong == /\ sc = "scan" /\ rd = "open" /\ ask /\ Held >= Max
           /\ sc' = "toolong"
           /\ UNCHANGED <<text, got, rd, pos, out, ask, empty>>
BNext == BRead \/ More \/ Commit \/ Drain \/ Done \/ TooLong
BSpec == Init /\ [][BNext]_vars /\ WF_vars(BNext)

------------------------------------------------------------------------------
\* never more in the buffer than it holds
Bounded == Held <= Max
\* whatever happens, what was reported is right
NeverWrong == sc # "done" /\ rd = "open" => PrefixOf(out, Ends(text, 1))
\* what is given up on is what does not fit: the token and what decides it
Window == SubSeq(text, pos + 1, (2 * pos + Max) \div 2)
OnlyTooLong == sc = "toolong" => /\ Held = Max
                                 /\ 2 * Len(text) >= 2 * pos + Max
                                 /\ ~MustCommit(Window)
\* a text all of whose tokens fit is scanned to the end
Starts == {0} \cup {Ends(text, 1)[i] : i \in 1..Len(Ends(text, 1))}
Fits == \A p \in Starts : \/ 2 * (Len(text) - p) < Max
                          \/ MustCommit(SubSeq(text, p + 1, (2 * p + Max) \div 2))
EnoughIsEnough == Fits => sc # "toolong"
Stops == <>(sc # "scan")
==============================================================================
