------------------------------ MODULE StreamMC ------------------------------
(***************************************************************************)
(* The scanner against every reader: every text up to N symbols, every     *)
(* chunking (in half symbols, empty reads included), end of file or an     *)
(* error at any point, alone or with the last data; and every choice the   *)
(* contract leaves to the split function.                                  *)
(***************************************************************************)
EXTENDS Stream, TLC
CONSTANTS N, MaxEmpty

VARIABLES text,   \* what the reader would deliver
          got,    \* half symbols delivered
          rd,     \* "open", "eof", "err"
          pos,    \* symbols consumed as tokens
          out,    \* ends of the tokens reported
          ask,    \* the split function has asked for more
          sc,     \* "scan", "done"
          empty   \* empty reads so far
vars == <<text, got, rd, pos, out, ask, sc, empty>>

Init == /\ text \in UNION {[1..n -> Kinds] : n \in 0..N}
        /\ got = 0 /\ rd = "open" /\ pos = 0 /\ out = <<>> /\ ask = TRUE /\ sc = "scan" /\ empty = 0

Read == /\ sc = "scan" /\ rd = "open" /\ ask
        /\ \E n \in 0..(2 * Len(text) - got) : \E e \in {"open", "eof", "err"} :
             /\ (n = 0 /\ e = "open") => empty < MaxEmpty
             /\ e = "eof" => got + n = 2 * Len(text)
             /\ got' = got + n /\ rd' = e
             /\ empty' = IF n = 0 THEN empty + 1 ELSE empty
        /\ ask' = FALSE
        /\ UNCHANGED <<text, pos, out, sc>>

Buf == SubSeq(text, pos + 1, got \div 2)
\* what the next symbol can be (a half delivered one is what it is)
Nx == IF got % 2 = 1 THEN {text[got \div 2 + 1]} ELSE Kinds

More == /\ sc = "scan" /\ rd = "open" /\ ~ask
        /\ ~MustCommit(Buf)
        /\ ask' = TRUE
        /\ UNCHANGED <<text, got, rd, pos, out, sc, empty>>
Commit == /\ sc = "scan" /\ rd = "open" /\ ~ask
          /\ \E e \in 1..Len(Buf) : MayCommit(Buf, e, Nx) /\ pos' = pos + e /\ out' = Append(out, pos + e)
          /\ UNCHANGED <<text, got, rd, ask, sc, empty>>
\* no more will come: what is left is a complete text (a half symbol at the end, cut off
\* by an error, goes with the last token and is not modelled further)
Drain == /\ sc = "scan" /\ rd # "open" /\ Len(Buf) > 0
         /\ LET e == FirstEnd(Buf) IN pos' = pos + e /\ out' = Append(out, pos + e)
         /\ UNCHANGED <<text, got, rd, ask, sc, empty>>
Done == /\ sc = "scan" /\ rd # "open" /\ Len(Buf) = 0
        /\ sc' = "done"
        /\ UNCHANGED <<text, got, rd, pos, out, ask, empty>>
Next == Read \/ More \/ Commit \/ Drain \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
\* every token reported so far is a token of the whole delivered text, whatever else comes:
\* while reading, of the whole text; at the end, of what was delivered
Delivered == SubSeq(text, 1, got \div 2)
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ChunkingInvisible == rd = "open" => PrefixOf(out, Ends(text, 1))
NothingLost == sc = "done" => out = Ends(Delivered, 1)
AllWhenNoError == sc = "done" /\ rd = "eof" => out = Ends(text, 1)
\* a commitment holds for every continuation, and is demanded only when one is possible
Sound == rd = "open" => \A e \in 1..Len(Buf) : MayCommit(Buf, e, Kinds) =>
            \A k \in Kinds : FirstEnd(Append(Buf, k)) = e
MustImpliesMay == MustCommit(Buf) => MayCommit(Buf, Known(Buf).end, Kinds)
\* the transducer is as prompt as can be: undecided means some continuation differs
Prompt == LET r == Known(Buf) IN
            ~r.sure /\ r.end # 0 => \E k \in Kinds, j \in Kinds :
                 FirstEnd(Append(Append(Buf, k), j)) # r.end
Finishes == <>(sc = "done")
=============================================================================
