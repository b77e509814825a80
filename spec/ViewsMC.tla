------------------------------ MODULE ViewsMC ------------------------------
(***************************************************************************)
(* An iterator, a reader's scanner and their caller, who writes to the     *)
(* memory between calls.                                                   *)
(*                                                                         *)
(* Way says how tokens are made: "view" is the claim.  The others are what *)
(* must not be, and fail (checked when the specification was written, see  *)
(* DESIGN.md): "copy" gives copies of the cells, "ahead" decides the end   *)
(* of the next token one call early, "shared" keeps the token in a buffer  *)
(* of its own that the next token overwrites.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Kinds, FirstLen(_), Way, Views, Steps
INSTANCE ViewsApi

VARIABLES mem,    \* the caller's cells
          it,     \* the iterator
          held,   \* tokens the caller keeps: [lo, hi, was: cells when taken, shows: what looking at it gives, dirty: cells written since]
          next,   \* "ahead": the end decided early (0: none)
          steps
vars == <<mem, it, held, next, steps>>

Init == /\ mem \in [1..N -> Kinds] /\ \E v \in Views : it = NewView(v[1], v[2])
        /\ held = <<>> /\ next = 0 /\ steps = 0

Look(h, m, s) == CASE Way = "copy" -> h.was
                   [] Way = "shared" -> IF s.pos > s.start THEN SubSeq(Cells(m, s.lo + s.start, s.hi), 1, h.hi - h.lo) ELSE h.was
                   [] OTHER -> Cells(m, h.lo, h.hi)
Shown(hs, m, s) == [i \in DOMAIN hs |-> [hs[i] EXCEPT !.shows = Look(hs[i], m, s)]]
Tick == steps < Steps /\ steps' = steps + 1
After(m, s) == /\ mem' = m /\ it' = s /\ held' = Shown(held, m, s)

Go == /\ LET s == IF Way = "ahead" /\ next > it.pos /\ next <= it.hi - it.lo
                  THEN [it EXCEPT !.start = it.pos, !.pos = next] ELSE Advance(mem, it)
         IN /\ After(mem, s)
            /\ next' = IF HasMore(s) THEN s.pos + FirstLen(Rest(mem, s)) ELSE 0
Take == /\ Len(held) < 2
        /\ \E t \in {Token(it), FirstToken(mem, it)} :
             /\ t.lo < t.hi
             /\ held' = Append(held, [lo |-> t.lo, hi |-> t.hi, was |-> Cells(mem, t.lo, t.hi),
                                      shows |-> Cells(mem, t.lo, t.hi), dirty |-> {}])
        /\ UNCHANGED <<mem, it, next>>
Again == After(mem, Restart(it)) /\ next' = 0
Other == \E v \in Views : After(mem, NewView(v[1], v[2])) /\ next' = 0
Write == \E i \in 1..N, k \in Kinds :
           /\ k # mem[i]
           /\ LET m == [mem EXCEPT ![i] = k] IN
                /\ mem' = m /\ UNCHANGED <<it, next>>
                /\ held' = Shown([j \in DOMAIN held |-> [held[j] EXCEPT !.dirty = @ \cup {i}]], m, it)
Next == Tick /\ (Go \/ Take \/ Again \/ Other \/ Write)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
InText == it.start <= it.pos /\ it.pos <= it.hi - it.lo
\* a held token shows the memory it came from as it is now, which is as it was except where the
\* caller has written
HeldShows == \A i \in DOMAIN held :
  /\ held[i].shows = Cells(mem, held[i].lo, held[i].hi)
  /\ \A k \in 1..(held[i].hi - held[i].lo) : held[i].shows[k] # held[i].was[k] => (held[i].lo + k) \in held[i].dirty
\* only the caller writes
IsGo == it' # it /\ it'.start = it.pos /\ it'.lo = it.lo /\ it'.hi = it.hi
\* the next token is the first of what the memory holds from the position on, at that moment
FromNow == [][IsGo /\ it.pos < it'.pos /\ mem' = mem /\ Len(held') = Len(held) /\ HasMore(it)
              => it'.pos - it.pos = FirstLen(Rest(mem, it))]_vars
\* writing behind the position (in tokens already given, or outside the text) changes nothing that
\* is still to come; nor does a token depend on what lies behind the end of the text
Behind == [][(mem' # mem /\ \A i \in 1..N : mem'[i] # mem[i] => i <= it.lo + it.pos \/ i > it.hi)
             => Segment(Rest(mem', it')) = Segment(Rest(mem, it))]_vars
\* a walk without writes gives the tokens of the text, and starting again gives them again
OnlyCallerWrites == [][mem' # mem => it' = it]_vars
=============================================================================
