---------------------------- MODULE GeneratorRun ----------------------------
(***************************************************************************)
(* A run of the table generator against sources that may fail: which files *)
(* may have changed when it ends, and what its exit says.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Files == {"words/trie.go", "words/unicode_test.go", "phrases/trie.go", "graphemes/trie.go",
          "graphemes/unicode_test.go", "sentences/trie.go", "sentences/unicode_test.go"}
\* the data files a written file is made of
Needs(f) == CASE f = "words/trie.go" -> {"emoji-data.txt", "WordBreakProperty.txt"}
              [] f = "phrases/trie.go" -> {"emoji-data.txt", "WordBreakProperty.txt"}
              [] f = "graphemes/trie.go" -> {"emoji-data.txt", "DerivedCoreProperties.txt", "GraphemeBreakProperty.txt"}
              [] f = "sentences/trie.go" -> {"SentenceBreakProperty.txt"}
              [] f = "words/unicode_test.go" -> {"WordBreakTest.txt"}
              [] f = "graphemes/unicode_test.go" -> {"GraphemeBreakTest.txt"}
              [] f = "sentences/unicode_test.go" -> {"SentenceBreakTest.txt"}
Sources == UNION {Needs(f) : f \in Files}

\* got: the sources fetched whole at least once; bad: some fetch went wrong;
\* disk: a file could not be written; state[f]: "old" as before, "new" what the sources say,
\* "part" neither
MayEnd(rc, got, bad, disk, state) ==
  /\ rc = 0 => \A f \in Files : state[f] = "new"
  /\ rc # 0 => bad \/ disk
  /\ \A f \in Files : /\ state[f] = "new" => Needs(f) \subseteq got
                      /\ state[f] = "part" => disk
=============================================================================
