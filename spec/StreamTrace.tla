----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Trace validation of real scanners.  Events:                             *)
(*   {e:"start", m, syms:[{k,f}], w:[bytes], max}   a text; m names the     *)
(*        segmenter, max the size the scanner's buffer may grow to          *)
(*   {e:"read", n, end}         the reader delivered n bytes; end is "open", *)
(*                              "eof" or "err"                              *)
(*   {e:"split", len, eof, adv, ok, nx}  the split function saw len bytes;  *)
(*        ok: its token is the adv bytes (nothing when adv = 0) and no error;*)
(*        nx: what a partially delivered code point can be ([] = anything)  *)
(*   {e:"tok", b, x}            the scanner reported [b, x)                 *)
(*   {e:"done", err}            Scan returned false; err: 0 Err() is nil,   *)
(*                              1 the reader's error, 2 the token is too    *)
(*                              long                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Slack
G == INSTANCE GraphemeMachine
W == INSTANCE WordMachine
S == INSTANCE SentenceMachine
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, t, got, rd, pos, adv
vars == <<i, t, got, rd, pos, adv>>

GStep(st, y) == G!GStep(st, y.k)
SStep(st, y) == S!SStep(st, y.k)
WStep(st, y) == W!WStep("word", st, y)
PStep(st, y) == W!WStep("phrase", st, y)
Plain(K) == {[k |-> k, f |-> "-"] : k \in K}
SG == INSTANCE Stream WITH Kinds <- Plain(G!GKinds), Init0 <- G!GInit, Step0 <- GStep
SS == INSTANCE Stream WITH Kinds <- Plain(S!SKinds), Init0 <- S!SInit, Step0 <- SStep
SW == INSTANCE Stream WITH Kinds <- Plain(W!WKinds), Init0 <- W!WInit, Step0 <- WStep
SP == INSTANCE Stream WITH Kinds <- Plain(W!WKinds), Init0 <- W!WInit, Step0 <- PStep
AllKinds(m) == Plain(IF m = "g" THEN G!GKinds ELSE IF m = "s" THEN S!SKinds ELSE W!WKinds)
FirstEnd(m, b) == CASE m = "g" -> SG!FirstEnd(b) [] m = "s" -> SS!FirstEnd(b) [] m = "w" -> SW!FirstEnd(b) [] m = "p" -> SP!FirstEnd(b)
MayCommit(m, b, e, nx) == CASE m = "g" -> SG!MayCommit(b, e, nx) [] m = "s" -> SS!MayCommit(b, e, nx)
                            [] m = "w" -> SW!MayCommit(b, e, nx) [] m = "p" -> SP!MayCommit(b, e, nx)
MustCommit(m, b) == CASE m = "g" -> SG!MustCommit(b) [] m = "s" -> SS!MustCommit(b)
                      [] m = "w" -> SW!MustCommit(b) [] m = "p" -> SP!MustCommit(b)

E == Trace[i + 1]
NoText == [m |-> "-", syms |-> <<>>, off |-> <<0>>, max |-> 0]
RECURSIVE Offsets(_, _)
Offsets(w, o) == IF w = <<>> THEN <<o>> ELSE <<o>> \o Offsets(Tail(w), o + Head(w))
\* off[j] is the byte at which symbol j starts; off[n+1] the length
Len0 == Len(t.syms)
IndexOf(b) == {j \in 1..(Len0 + 1) : t.off[j] = b}       \* symbol starting at byte b
Whole(b) == CHOOSE j \in 0..Len0 : t.off[j + 1] <= b /\ (j < Len0 => t.off[j + 2] > b)  \* symbols wholly before byte b

Init == i = 0 /\ t = NoText /\ got = 0 /\ rd = "open" /\ pos = 0 /\ adv = 0
Start == /\ E.e = "start"
         /\ t' = [m |-> E.m, syms |-> E.syms, off |-> Offsets(E.w, 0), max |-> E.max]
         /\ got' = 0 /\ rd' = "open" /\ pos' = 0 /\ adv' = 0
Read == /\ E.e = "read" /\ rd = "open"
        /\ got' = got + E.n /\ rd' = E.end
        /\ got + E.n <= t.off[Len0 + 1]
        /\ got + E.n - pos <= t.max         \* no more than the buffer holds
        /\ UNCHANGED <<t, pos, adv>>
Split == /\ E.e = "split" /\ E.ok = 1
         /\ adv = 0                          \* the previous token has been reported
         /\ E.len <= got - pos
         /\ LET a == CHOOSE j \in IndexOf(pos) : TRUE
                z == Whole(pos + E.len)
                b == SubSeq(t.syms, a, z)
                partial == pos + E.len > t.off[z + 1]
                nx == IF partial /\ Len(E.nx) > 0 THEN {E.nx[k] : k \in 1..Len(E.nx)} ELSE AllKinds(t.m)
            IN IF E.eof = 1
               THEN \/ E.len = 0 /\ E.adv = 0
                    \/ b # <<>> /\ E.adv = t.off[a + FirstEnd(t.m, b)] - pos
               ELSE \/ E.adv = 0 /\ ~MustCommit(t.m, b)
                    \/ E.adv > 0 /\ \E e \in 1..Len(b) : E.adv = t.off[a + e] - pos /\ MayCommit(t.m, b, e, nx)
         /\ E.eof = 1 => rd # "open"
         /\ adv' = E.adv
         /\ UNCHANGED <<t, got, rd, pos>>
Tok == /\ E.e = "tok" /\ adv > 0
       /\ E.b = pos /\ E.x = pos + adv
       /\ pos' = E.x /\ adv' = 0
       /\ UNCHANGED <<t, got, rd>>
Done == /\ E.e = "done" /\ adv = 0
        /\ IF E.err = 2 THEN rd = "open" /\ got - pos = t.max  \* and the last answer was "more"
                        ELSE rd # "open" /\ pos = got /\ E.err = (IF rd = "err" THEN 1 ELSE 0)
        /\ UNCHANGED <<t, got, rd, pos, adv>>
Next == i < Len(Trace) /\ (Start \/ Read \/ Split \/ Tok \/ Done) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1 IN
  PrintT("T " \o ToJson([matched |-> matched])) /\ matched = Len(Trace)
=============================================================================
