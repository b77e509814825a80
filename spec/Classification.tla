--------------------------- MODULE Classification ---------------------------
(***************************************************************************)
(* The Unicode 17 classification this specification is about, and what was *)
(* observed of the library: for every scalar value, the kinds whose        *)
(* behaviour the code point showed in each package.  The trace has one     *)
(* line per maximal range on which nothing changes:                        *)
(*   {lo, hi, g:[kinds], w:[kinds], p:[kinds], s:[kinds]}                  *)
(* in ascending order; it must cover all scalar values and every observed  *)
(* set must contain the kind that Unicode assigns.  Joint lists relations  *)
(* between the three annexes' properties, which must hold on every range.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
DataG == JsonDeserialize(IOEnv.DATA_G)
DataW == JsonDeserialize(IOEnv.DATA_W)
DataS == JsonDeserialize(IOEnv.DATA_S)

VARIABLES i,          \* lines read
          cp,         \* next scalar value
          jg, jw, js  \* next data range of each annex
vars == <<i, cp, jg, jw, js>>

\* the ranges of D ahead of cp; what is not listed is Other
Skip(D, j, at) == IF j <= Len(D) /\ D[j].hi < at THEN j + 1 ELSE j
Kind(D, j, lo) == IF j <= Len(D) /\ D[j].lo <= lo THEN D[j].k ELSE "Other"
Uniform(D, j, lo, hi) == IF j > Len(D) THEN TRUE ELSE IF D[j].lo <= lo THEN hi <= D[j].hi ELSE hi < D[j].lo
In(k, seq) == \E n \in 1 .. Len(seq) : seq[n] = k

ExtendG == {"Extend", "ExtendOnly", "Linker"}
Hangul == {"L", "V", "T", "LV", "LVT"}
Iff(a, b) == (a /\ b) \/ (~a /\ ~b)
Joint(lo, hi, g, w, s) ==
  /\ Iff(g = "CR", w = "CR") /\ Iff(g = "CR", s = "CR") /\ (g = "CR" => lo = 13 /\ hi = 13)
  /\ Iff(g = "LF", w = "LF") /\ Iff(g = "LF", s = "LF") /\ (g = "LF" => lo = 10 /\ hi = 10)
  /\ Iff(g = "ZWJ", w = "ZWJ") /\ (g = "ZWJ" => lo = 8205 /\ hi = 8205 /\ s = "Extend")
  /\ Iff(g = "RI", w = "RI") /\ (g = "RI" => lo >= 127462 /\ hi <= 127487)
  /\ Iff(g = "ExtPict", w \in {"ExtPict", "ALetterPict"})
  /\ g \in Hangul => w = "ALetter" /\ s = "OLetter"
  /\ g = "LV" => lo = hi /\ lo >= 44032 /\ lo <= 55203 /\ (lo - 44032) % 28 = 0
  /\ g = "LVT" => lo >= 44032 /\ hi <= 55203 /\ (lo - 44032) % 28 >= 1 /\ ((lo - 44032) % 28) + (hi - lo) <= 27
  /\ g \in ExtendG => w = "Extend"
  /\ g = "SpacingMark" => w = "Extend" \/ lo \in {3635, 3763}
  /\ s = "Extend" => w \in {"Extend", "ZWJ"}
  /\ w = "Extend" /\ s # "Extend" => lo >= 127995 /\ hi <= 127999          \* emoji modifiers
  /\ w = "Numeric" => s = "Numeric"
  /\ w = "Newline" => g = "Control"
  /\ w = "WSegSpace" => s = "Sp"
  /\ w = "Format" => s = "Format"

Init == i = 0 /\ cp = 0 /\ jg = 1 /\ jw = 1 /\ js = 1
Next ==
  /\ i < Len(Trace)
  /\ LET e == Trace[i + 1] IN
       /\ e.lo = cp /\ e.hi >= e.lo
       /\ Uniform(DataG, jg, e.lo, e.hi) /\ Uniform(DataW, jw, e.lo, e.hi) /\ Uniform(DataS, js, e.lo, e.hi)
       /\ LET g == Kind(DataG, jg, e.lo)
              w == Kind(DataW, jw, e.lo)
              s == Kind(DataS, js, e.lo)
          IN /\ In(g, e.g) /\ In(w, e.w) /\ In(w, e.p) /\ In(s, e.s)
             /\ Joint(e.lo, e.hi, g, w, s) = TRUE     \* one value, not a choice of steps
       /\ cp' = IF e.hi = 55295 THEN 57344 ELSE e.hi + 1
       /\ jg' = Skip(DataG, jg, cp') /\ jw' = Skip(DataW, jw, cp') /\ js' = Skip(DataS, js, cp')
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1
      \* a trace that stops early is short of a line
      whole == Len(Trace) > 0 /\ Trace[Len(Trace)].hi = 1114111
  IN PrintT("T " \o ToJson([matched |-> IF whole THEN matched ELSE 0])) /\ matched = Len(Trace)
=============================================================================
