------------------------------ MODULE SegTrace ------------------------------
(***************************************************************************)
(* Validates a recorded segmentation of the real library against the       *)
(* transducers.  The trace (ndjson) has one line per event:                *)
(*   {"e":"start","id":n}                    a new text                    *)
(*   {"e":"sym","k":kind,"f":flag,"cut":b}   the next code point; b says   *)
(*                           whether the library put a boundary before it  *)
(*   {"e":"end"}                             end of text                   *)
(* The trace is accepted iff every line is a step of the specification.    *)
(* Which transducer is a field of "start": "g" graphemes, "w" words (with  *)
(* joiners), "p" phrases, "s" sentences.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
G == INSTANCE GraphemeMachine
W == INSTANCE WordMachine
S == INSTANCE SentenceMachine

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,       \* position in Trace
          which,   \* transducer in use
          st,      \* its state
          claim    \* what the library did at the undecided position: 1 (cut) or 0, or 2 if there is none
vars == <<l, which, st, claim>>

NoState == "none"
Init == l = 1 /\ which = "-" /\ st = NoState /\ claim = 2
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Start ==
  /\ IsEvent("start")
  /\ which = "-"
  /\ which' = Trace[l].m
  /\ st' = IF Trace[l].m = "g" THEN G!GInit ELSE IF Trace[l].m = "s" THEN S!SInit ELSE W!WInit
  /\ claim' = 2

Step(w, s, ev) ==
  IF w = "g" THEN G!GStep(s, ev.k)
  ELSE IF w = "s" THEN S!SStep(s, ev.k)
  ELSE W!WStep(IF w = "p" THEN "phrase" ELSE "word", s, W!Sym(ev.k, ev.f))

Read ==
  /\ IsEvent("sym")
  /\ LET ev == Trace[l]
         r  == Step(which, st, ev)
     IN /\ r.pend = "J" => claim = 0
        /\ r.pend = "B" => claim = 1
        /\ r.here = "J" => ev.cut = 0
        /\ r.here \in {"B", "S"} => ev.cut = 1
        /\ claim' = IF r.here = "P" THEN ev.cut ELSE IF r.pend # "-" THEN 2 ELSE claim
        /\ st' = r.st
  /\ UNCHANGED which

End ==
  /\ IsEvent("end")
  /\ claim \in {1, 2}       \* an undecided position at end of text is a boundary
  /\ st' = NoState /\ which' = "-" /\ claim' = 2

Next == Start \/ Read \/ End
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  /\ PrintT("T " \o ToJson([matched |-> d - 1, length |-> Len(Trace)]))
  /\ d - 1 = Len(Trace)
=============================================================================
