------------------------------ MODULE Generator ------------------------------
(***************************************************************************)
(* The table generator.  Sources are data files: lines that give a range   *)
(* of code points a property.  Packages are what is written.               *)
(*                                                                         *)
(* Expected says which properties a package's table gives a code point;    *)
(* the pipeline (GeneratorMC) works through the sources in order, carries  *)
(* the pictographs and the conjunct-break sets over, numbers the           *)
(* properties, adds up bits per code point and reads them back.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Packages == {"words", "phrases", "graphemes", "sentences"}
SourceOf(pkg) == CASE pkg = "words" -> "Word" [] pkg = "phrases" -> "Word" [] pkg = "graphemes" -> "Grapheme" [] pkg = "sentences" -> "Sentence"
InCBs == {"InCB_Consonant", "InCB_Linker", "InCB_Extend"}
\* has(f, p): the code point is given property p in file f; own(f): the properties of file f
Expected(pkg, has(_, _), own(_)) ==
  {p \in own(SourceOf(pkg)) : has(SourceOf(pkg), p)}
  \cup (IF pkg # "sentences" /\ has("Emoji", "Extended_Pictographic") THEN {"Extended_Pictographic"} ELSE {})
  \cup (IF pkg = "graphemes" THEN {p \in InCBs : has("InCB", p)} ELSE {})
  \cup (IF pkg = "words" /\ (has("Word", "Katakana") \/ has("Scripts", "HanHiragana")) THEN {"BleveIdeographic"} ELSE {})
=============================================================================
