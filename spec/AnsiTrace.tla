----------------------------- MODULE AnsiTrace -----------------------------
(***************************************************************************)
(* Trace validation: tokens of real grapheme iterators under the options.  *)
(*   {e:"start", o7, o8, text:[{c, k}]}    k = "?" in ill-formed stretches *)
(*   {e:"tok", x}  the next token ends at byte x                           *)
(*   {e:"end"}                                                             *)
(* What the ordinary rules make of ill-formed bytes is left open.          *)
(***************************************************************************)
EXTENDS AnsiSeg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, text, opt, pos
vars == <<i, text, opt, pos>>
E == Trace[i + 1]
Init == i = 0 /\ text = <<>> /\ opt = <<FALSE, FALSE>> /\ pos = 0
Start == E.e = "start" /\ text' = E.text /\ opt' = <<E.o7 = 1, E.o8 = 1>> /\ pos' = 0
Rest == SubSeq(text, pos + 1, Len(text))
Tok == /\ E.e = "tok" /\ E.x > pos /\ E.x <= Len(text)
       /\ LET n == AnsiLen(opt[1], opt[2], Cls(Rest)) IN
            IF n > 0 THEN E.x = pos + n
            ELSE LET \* a sequence may end inside a character: what is left of it is ill-formed too
                     bad == {j \in 1 .. Len(Rest) : Rest[j].k = "?" \/ \A m \in 1 .. j : Rest[m].k = ""}
                     stop == IF bad = {} THEN Len(Rest) ELSE CHOOSE j \in bad : \A b \in bad : j <= b
                     \* the cluster, decided on the well-formed stretch only
                     c == IF bad = {} THEN FirstToken(Rest, FALSE, FALSE)
                          ELSE FirstToken(SubSeq(Rest, 1, stop - 1), FALSE, FALSE)
                 IN IF bad = {} \/ c < stop - 1 THEN E.x = pos + c ELSE E.x >= pos + c
       /\ pos' = E.x /\ UNCHANGED <<text, opt>>
End == E.e = "end" /\ pos = Len(text) /\ UNCHANGED <<text, opt, pos>>
Next == i < Len(Trace) /\ (Start \/ Tok \/ End) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
=============================================================================
