--------------------------- MODULE GeneratorRunMC ---------------------------
(***************************************************************************)
(* The generator as it goes: fetch by fetch, writing each file as soon as  *)
(* it has what the file is made of.  Any fetch may be refused, be answered *)
(* by an error page, break off or hold a line that makes no sense; any     *)
(* write may fail half way; the generator may try again (Retries).         *)
(* Every plan of faults along the way is printed for the real generator.   *)
(***************************************************************************)
EXTENDS GeneratorRun, TLC, Json
CONSTANTS Retries, MaxFaults
VARIABLES at, got, bad, disk, state, rc, tries, plan
vars == <<at, got, bad, disk, state, rc, tries, plan>>

\* source, and the file written once it is there ("-" none)
Steps == <<[s |-> "emoji-data.txt", f |-> "-"], [s |-> "DerivedCoreProperties.txt", f |-> "-"],
           [s |-> "WordBreakProperty.txt", f |-> "words/trie.go"], [s |-> "WordBreakTest.txt", f |-> "words/unicode_test.go"],
           [s |-> "WordBreakProperty.txt", f |-> "phrases/trie.go"],
           [s |-> "GraphemeBreakProperty.txt", f |-> "graphemes/trie.go"], [s |-> "GraphemeBreakTest.txt", f |-> "graphemes/unicode_test.go"],
           [s |-> "SentenceBreakProperty.txt", f |-> "sentences/trie.go"], [s |-> "SentenceBreakTest.txt", f |-> "sentences/unicode_test.go"]>>
Kinds == {"refuse", "status", "cut", "garble"}

Init == /\ at = 1 /\ got = {} /\ bad = FALSE /\ disk = FALSE /\ state = [f \in Files |-> "old"]
        /\ rc = 99 /\ tries = 0 /\ plan = <<>>
Running == rc = 99 /\ at <= Len(Steps)
Step == Steps[at]
Good == /\ Running
        /\ got' = got \cup {Step.s} /\ at' = at + 1 /\ tries' = 0
        /\ IF Step.f = "-" THEN UNCHANGED <<state, disk, rc, plan>>
           ELSE \/ state' = [state EXCEPT ![Step.f] = "new"] /\ UNCHANGED <<disk, rc, plan>>
                \/ /\ state' = [state EXCEPT ![Step.f] = "part"] /\ disk' = TRUE /\ rc' = 1
                   /\ plan' = Append(plan, [n |-> at, k |-> "disk"])
        /\ UNCHANGED bad
Bad == /\ Running /\ Len(plan) < MaxFaults
       /\ \E k \in Kinds : plan' = Append(plan, [n |-> at, k |-> k])
       /\ bad' = TRUE
       /\ \/ tries < Retries /\ tries' = tries + 1 /\ UNCHANGED rc
          \/ rc' = 1 /\ UNCHANGED tries
       /\ UNCHANGED <<at, got, disk, state>>
End == /\ rc = 99 /\ at > Len(Steps) /\ rc' = 0
       /\ UNCHANGED <<at, got, bad, disk, state, tries, plan>>
\* once it has ended (but for ones that were retried, which are only modelled)
Say == rc \in {0, 1} /\ tries = 0 /\ PrintT("T " \o ToJson(plan)) /\ rc' = rc + 10 /\ UNCHANGED <<at, got, bad, disk, state, tries, plan>>
Next == Good \/ Bad \/ End \/ Say
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == rc # 99
Allowed == Ended => MayEnd(rc % 10, got, bad, disk, state)
\* a failed source leaves the files made of it as they were
Untouched == \A f \in Files : ~(Needs(f) \subseteq got) => state[f] = "old"
NeverMixed == ~disk => \A f \in Files : state[f] \in {"old", "new"}
OnlyWhenAll == rc % 10 = 0 /\ Ended => got = Sources
Ends == <>(rc # 99)
=============================================================================
