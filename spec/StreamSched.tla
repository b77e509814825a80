----------------------------- MODULE StreamSched -----------------------------
(***************************************************************************)
(* The reader schedules of StreamMC, printed: every way to deliver Units   *)
(* units (at most), with up to MaxEmpty empty reads, ending in EOF or in   *)
(* an error after any of them, alone or together with data.  The driver    *)
(* maps units to byte ranges and replays each schedule on real scanners.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Units, MaxEmpty
VARIABLES sched, got, empty, over
vars == <<sched, got, empty, over>>
Init == sched = <<>> /\ got = 0 /\ empty = 0 /\ over = FALSE
Read(n, e) ==
  /\ ~over
  /\ (n = 0 /\ e = "open") => empty < MaxEmpty
  /\ e = "eof" => got + n = Units
  /\ sched' = Append(sched, [n |-> n, e |-> e])
  /\ got' = got + n
  /\ empty' = IF n = 0 /\ e = "open" THEN empty + 1 ELSE empty
  /\ over' = (e # "open")
  /\ e # "open" => PrintT("T " \o ToJson(sched'))
Next == \E n \in 0..(Units - got) : \E e \in {"open", "eof", "err"} : Read(n, e)
Spec == Init /\ [][Next]_vars
=============================================================================
