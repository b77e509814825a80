#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IT = ["graphemes/iterator.go", "words/iterator.go", "phrases/iterator.go", "sentences/iterator.go"]
SP = ["graphemes/splitfunc.go", "words/splitfunc.go", "phrases/splitfunc.go", "sentences/splitfunc.go"]
RD = ["graphemes/reader.go", "words/reader.go", "phrases/reader.go", "sentences/reader.go"]
TR = ["graphemes/trie.go", "words/trie.go", "phrases/trie.go", "sentences/trie.go"]

prop("C01", "Segmentation of any bytes is a lossless, terminating partition",
 "For every byte sequence, well-formed UTF-8 or not, each of the four segmenters (graphemes, words, phrases, sentences) terminates without panicking or reporting an error, whether it reads a string, a byte slice, or an io.Reader. The tokens it yields are non-empty and, concatenated in order, are exactly the input. Every token equals the input between its reported start and end offsets, the first token starts at 0, each token starts where the previous one ended, and the last ends at the input's length.",
 ["inputs"], "all byte sequences, including truncated, overlong and stray-continuation UTF-8, and empty input; all entry points; ANSI options and joiners on or off",
 "The fuzz tests check round-tripping of a few hundred seeds; a truncation or look-ahead slip shows only for particular byte patterns at particular positions.",
 IT + SP + RD + TR, [("advance and width bookkeeping", "splitFunc in */splitfunc.go"), ("truncated-rune handling at end of input", "w == 0 branches in */splitfunc.go and */seek.go"), ("ASCII hot paths", "Iterator.Next in */iterator.go")],
 ["Iterator.Next/Value/Start/End", "SplitFunc", "Scanner.Scan"])

prop("C02", "Grapheme boundaries follow UAX #29 (Unicode 17) for every text",
 "For every well-formed UTF-8 text, the grapheme tokens are exactly the extended grapheme clusters defined by UAX #29 rules GB1-GB999 with the Unicode 17 property data, including Indic conjuncts, emoji ZWJ sequences, flags, Hangul syllables, prepended marks and CR LF. This holds for texts of any length, for any number of repeated marks or flags, and on every entry point (string, bytes, split function, reader).",
 ["inputs"], "all well-formed UTF-8 texts of any length",
 "The conformance file has about a thousand short samples; rules with unbounded left context (GB9c, GB11, GB12/13) and the ASCII shortcut interact on inputs no sample contains.",
 ["graphemes/splitfunc.go", "graphemes/iterator.go", "graphemes/trie.go", "graphemes/reader.go"],
 [("rule cascade with look-behind state", "graphemes/splitfunc.go splitFunc"), ("ASCII hot path", "graphemes/iterator.go Next"), ("property trie", "graphemes/trie.go lookup")],
 ["token boundaries"], [("incb", "progress through an Indic conjunct", "graphemes/splitfunc.go"), ("regionalIndicatorCount", "flag parity", "graphemes/splitfunc.go")])

prop("C03", "Word boundaries follow UAX #29 (Unicode 17) for every text",
 "For every well-formed UTF-8 text, without joiners, the word tokens are exactly the segments defined by UAX #29 rules WB1-WB999 with the Unicode 17 property data, where Extend, Format and ZWJ after a base are ignored (WB4) over any distance, also inside the look-ahead of WB6, WB7b and WB12. This holds for texts of any length and on every entry point (string, bytes, split function, reader).",
 ["inputs"], "all well-formed UTF-8 texts of any length",
 "The conformance file samples short sequences; look-behind over ignored code points, two-sided rules and the alphanumeric shortcut interact on inputs no sample contains.",
 ["words/splitfunc.go", "words/seek.go", "words/iterator.go", "words/trie.go", "words/reader.go"],
 [("rule cascade with last/last-but-one base", "words/splitfunc.go"), ("look-ahead skipping ignorables", "words/seek.go subsequent"), ("alphanumeric hot path", "words/iterator.go Next")],
 ["token boundaries"], [("lastExIgnore, lastLastExIgnore", "the two previous bases", "words/splitfunc.go"), ("regionalIndicatorCount", "flag parity", "words/splitfunc.go")])

prop("C04", "Sentence boundaries follow UAX #29 (Unicode 17) for every text",
 "For every well-formed UTF-8 text, the sentence tokens are exactly the segments defined by UAX #29 rules SB1-SB998 with the Unicode 17 property data, including the unbounded look-ahead of SB8 and the ATerm/STerm Close* Sp* look-behind, with Extend and Format ignored (SB5). This holds for texts of any length and on every entry point (string, bytes, split function, reader).",
 ["inputs"], "all well-formed UTF-8 texts of any length",
 "The conformance file samples short sequences; SB8's look-ahead, the five look-behind registers and the alphanumeric/space shortcut that re-enters one byte back interact on inputs no sample contains.",
 ["sentences/splitfunc.go", "sentences/seek.go", "sentences/iterator.go", "sentences/trie.go", "sentences/reader.go"],
 [("rule cascade with look-behind registers", "sentences/splitfunc.go"), ("SB8 look-ahead", "sentences/splitfunc.go and seek.go"), ("alphanumeric/space hot path backing up one byte", "sentences/iterator.go Next")],
 ["token boundaries"], [("lastExIgnoreSpClose etc.", "what precedes, ignoring Sp and Close", "sentences/splitfunc.go")])

prop("C05", "Phrase boundaries are the documented word-rule tailoring, for every text",
 "For every well-formed UTF-8 text, the phrase tokens are exactly the segments given by the UAX #29 word rules with two tailorings: pictographs (Extended_Pictographic) count as letters, and white space (WSegSpace) joins adjacent letters, numbers, pictographs and white space. Consequently every phrase boundary is also a word boundary of the same text. This holds for texts of any length and on every entry point (string, bytes, split function, reader).",
 ["inputs"], "all well-formed UTF-8 texts of any length",
 "There is no conformance file for phrases; the tests use a handful of English examples.",
 ["phrases/splitfunc.go", "phrases/seek.go", "phrases/iterator.go", "phrases/trie.go", "phrases/reader.go"],
 [("tailored rule cascade", "phrases/splitfunc.go"), ("look-ahead skipping ignorables", "phrases/seek.go"), ("alphanumeric/space hot path backing up one byte", "phrases/iterator.go Next")],
 ["token boundaries"])

prop("C06", "All entry points of a segmenter give the same tokens",
 "For every byte sequence, iterating over a string, over a byte slice, applying the exported split function repeatedly (at end of input), scanning an io.Reader, and - in words - an iterator over a named string or byte type, give the same token sequence. The first-token query returns the first of those tokens (the empty value for empty input) without disturbing the iterator, and starting a fresh iterator at any token boundary of the text gives the remaining tokens.",
 ["inputs"], "all byte sequences; all pairs of entry points; all token boundaries as restart points",
 "Tests compare entry points on a few fixed documents; the shortcuts exist only in the iterators, so a slip in one entry point needs an input on which the shortcut and the rules interact.",
 IT + SP + RD, [("ASCII hot paths present only in the iterators", "Iterator.Next in */iterator.go"), ("type-generic split function and lookup", "splitFunc in */splitfunc.go, lookup in */trie.go"), ("First on a copy", "Iterator.First in */iterator.go")],
 ["FromString, FromBytes, SplitFunc, FromReader, First"])

prop("C07", "Streaming gives the same tokens for every chunking of the input",
 "For every byte sequence and every way an io.Reader may deliver it (chunks of any size, cut inside code points, empty reads, data together with EOF), scanning yields the same tokens as segmenting the whole input at once, provided the scanner's buffer can hold the token and what must be seen to decide it. Given only a prefix of the input, the split function either asks for more or returns exactly the first token of every continuation. It does not ask for more once the prefix decides the boundary and holds a little beyond it, so streams far longer than the buffer can be scanned.",
 ["schedules", "inputs"], "all texts x all chunkings x all prefixes",
 "Tests read whole files through one reader; which prefix the split function sees depends on buffer growth and read sizes that tests do not control.",
 SP + RD + ["words/seek.go", "phrases/seek.go", "sentences/seek.go"], [("request-more returns when the decision depends on unseen data", "atEOF checks in */splitfunc.go and */seek.go"), ("incomplete rune detection", "lookup in */trie.go")],
 ["Scanner.Scan/Bytes", "SplitFunc(data, false)"])

prop("C08", "A failing reader loses nothing that was delivered, and the error is reported",
 "When an io.Reader fails with an error after delivering some bytes, scanning still yields exactly the tokens of the bytes delivered, then stops and reports that error (none for io.EOF). Scanning on after the end stays stopped.",
 ["fault_sequences", "schedules"], "all texts x all failure points x all chunkings, error alone or together with data",
 "No test injects a read error.",
 RD + SP, [("scanner wrapping", "FromReader in */reader.go"), ("atEOF handling", "*/splitfunc.go")], ["Scanner.Scan/Err"])

prop("C09", "Iterators obey their protocol through every history of calls",
 "Through every sequence of calls on an iterator, advancing moves to the next token of the current text, value and offsets describe the current token, reading them or asking for the first token changes nothing, reset returns to the beginning of the text, and setting a new text behaves as a new iterator over that text with the same options. At the end, advancing keeps returning false and does not change the last token's value and offsets; before the first advance the value is empty and both offsets are 0.",
 ["histories"], "all call sequences over Next, Value, Start, End, First, Reset, SetText and the options, at any point of iteration, for all four packages, strings and bytes",
 "Tests use each call once, in the usual order.",
 IT, [("start/pos bookkeeping", "Iterator methods in */iterator.go"), ("First works on a copy", "Iterator.First")],
 ["all Iterator methods"], [("start, pos", "the current token", "*/iterator.go"), ("AnsiEscapeSequences*", "options kept across SetText and Reset", "graphemes/iterator.go")])

prop("C10", "Iterators are independent of each other and never write to the input",
 "Any number of iterators, scanners and split-function calls, over the same or different data, on one goroutine in any interleaving or on many goroutines at once, each yield what they would yield alone, without data races. The library never modifies the caller's bytes, joiner rune lists or ANSI options.",
 ["schedules", "histories"], "all interleavings of several iterators, scanners and split calls; concurrent use on distinct iterators",
 "Tests use one iterator at a time; hidden shared state shows only under interleaving.",
 IT + SP + RD + ["words/joiners.go", "graphemes/ansi.go"], [("no package-level mutable state", "*/splitfunc.go, */iterator.go"), ("slicing instead of copying", "Iterator.Value")],
 ["tokens of each iterator", "input bytes afterwards", "race detector"])

prop("C11", "7-bit ANSI escape sequences are single graphemes exactly when enabled",
 "With the 7-bit option on, whenever a grapheme starts at ESC and a complete ECMA-48 7-bit sequence follows (CSI with parameters, intermediates, final; OSC ended by BEL or ESC \\; DCS, SOS, PM, APC ended by ESC \\; both kinds cancelled before CAN or SUB; two-byte Fe, Fs and Fp; nF with intermediates and a final), that whole sequence and nothing more is one grapheme, for payloads of any length and content. An incomplete or malformed sequence is segmented as if the option were off at that point, and the text after a sequence is segmented as a fresh text.",
 ["inputs"], "all texts with 7-bit control sequences, complete, cancelled, malformed or cut off at any byte",
 "Tests list some sequences; each form has its own terminators, byte ranges and cut-off behaviour.",
 ["graphemes/ansi.go", "graphemes/iterator.go"], [("sequence length functions", "graphemes/ansi.go"), ("dispatch before the ASCII hot path", "graphemes/iterator.go Next")],
 ["grapheme boundaries with AnsiEscapeSequences"])

prop("C12", "8-bit C1 control sequences are single graphemes exactly when enabled",
 "With the 8-bit option on, whenever a grapheme starts at a C1 byte (0x80-0x9F) a complete 8-bit sequence (CSI 0x9B; OSC 0x9D ended by BEL or 0x9C; DCS, SOS, PM, APC ended by 0x9C; both kinds cancelled before CAN or SUB; any other C1 byte alone) is one grapheme, for payloads of any length and content. An incomplete or malformed sequence is segmented as if the option were off at that point, and the bytes 0x80-0x9F inside well-formed multi-byte characters outside a sequence are never taken for controls.",
 ["inputs"], "all byte sequences with C1 controls, complete, cancelled, malformed or cut off at any byte",
 "Tests list some sequences; each form has its own terminators, byte ranges and cut-off behaviour.",
 ["graphemes/ansi8.go", "graphemes/ansi.go", "graphemes/iterator.go"], [("sequence length functions", "graphemes/ansi8.go"), ("dispatch before the ASCII hot path", "graphemes/iterator.go Next")],
 ["grapheme boundaries with AnsiEscapeSequences8Bit"])

prop("C13", "ANSI options affect nothing but the sequences they name",
 "Turning on the 7-bit option changes nothing in a text without ESC, and turning on the 8-bit option changes nothing in a well-formed UTF-8 text; neither option recognises or terminates the other's sequences. With both off (the default), ESC and C1 bytes are segmented by the ordinary grapheme rules. With both on, each sequence is recognised as it would be with its own option alone.",
 ["inputs", "configurations"], "all texts x the four option combinations",
 "Tests run each option on its own examples; interaction with ordinary clusters, with each other and with the hot path is untested.",
 ["graphemes/iterator.go", "graphemes/ansi.go", "graphemes/ansi8.go"], [("option tests in Next", "graphemes/iterator.go")], ["grapheme boundaries under each option combination"])

prop("C14", "Joiners join exactly the chosen runes, the same way on every entry point",
 "For every text and every choice of leading and middle joiner runes (line breaks aside), the word tokens are those of the word rules where a leading joiner that is the first code point of a token counts as a letter, and a middle joiner elsewhere in a token counts as a mid-word punctuation (joined between letters and between digits, not otherwise). Iterators over strings, bytes and named types and the reader-based scanner agree, joiners stay in force after resetting or changing the text, and with no joiners set nothing changes.",
 ["inputs", "configurations"], "all texts x all joiner sets (ASCII or not, overlapping, redundant, spaces, marks, newlines, letters)",
 "Tests cover a few typical joiners; the ASCII shortcut, look-ahead and custom split interact only for particular joiners (this found a defect, repaired).",
 ["words/joiners.go", "words/splitfunc.go", "words/iterator.go", "words/reader.go"], [("property tweaking in the cascade", "words/splitfunc.go"), ("Iterator.Joiners, Scanner.Joiners", "words/joiners.go, words/reader.go"), ("hot path disabled under a custom split", "words/iterator.go Next")],
 ["word boundaries with Joiners"])

prop("C15", "Every code point is classified by its Unicode 17 property, in every package",
 "For each of the 1,112,064 Unicode scalar values, every segmenter treats the code point according to its Unicode 17 break property (grapheme, word, sentence; Extended_Pictographic; Indic_Conjunct_Break), wherever it stands relative to code points of any other class, and treats unassigned code points as Other. String and byte inputs agree. Code points whose classes are shared by several packages (CR, LF, ZWJ, regional indicators, pictographs) are recognised identically in each.",
 ["inputs"], "all 1,112,064 scalar values x all four packages x contexts distinguishing any two classes",
 "The conformance files contain a few hundred code points; one wrong trie entry among 1.1 million is invisible to them.",
 TR, [("generated property tries", "*/trie.go lookup")], ["token boundaries around the code point"])

prop("C16", "Bleve-compatible classifiers accept exactly the documented token shapes",
 "The numeric classifier accepts a non-empty token exactly when it starts with a number or connector (Numeric, ExtendNumLet), consists of numbers and connectors, and otherwise contains only mid-number punctuation directly after a number and - ignoring Extend, Format, ZWJ - directly before a number. The ideographic classifier accepts a non-empty token exactly when it starts with an ideograph (Han, Hiragana or Katakana) and continues with ideographs, connectors, Extend, Format or ZWJ only.",
 ["inputs"], "all tokens, of any length, over all code points",
 "Tests use a few tokens.",
 ["words/bleve_compat.go", "words/trie.go"], [("numeric cascade", "words/bleve_compat.go BleveNumeric"), ("ideographic loop", "words/bleve_compat.go BleveIdeographic")], ["BleveNumeric, BleveIdeographic"])

prop("C17", "Iterators with a caller's split function follow it faithfully and fail loudly",
 "An iterator driven by a caller-supplied split function (the words iterator and the generic internal iterator) yields exactly the tokens that function's advances delimit, always passing it the remaining data and end-of-input. If the function returns an error, a non-positive advance, or an advance beyond the data, the iterator panics instead of looping, skipping or returning out-of-range data.",
 ["histories", "inputs"], "all split functions (as scripts of advances and errors) x all texts x call histories",
 "Tests use one well-behaved split function.",
 ["internal/iterators/iterator.go", "words/iterator.go"], [("advance checks", "Next and First"), ("single-byte shortcut", "internal/iterators/iterator.go Next")], ["tokens, panics, arguments seen by the split function"])

prop("C18", "Generated tries return the inserted value for every code point",
 "For every set of (code point, value) insertions and every choice of compacters, the trie the generator emits looks up, for every well-formed UTF-8 code point, the value inserted last (0 when none; inserting 0 does nothing, and another value for what is no code point, such as a surrogate, is refused) and the encoded length, whatever follows. An input shorter than its lead byte announces gives value 0 and size 0; any other malformed input gives value 0 and a positive size no larger than the announced length. No lookup in a non-empty input panics.",
 ["inputs", "programs"], "all insertion sets (dense, sparse, repeated or similar blocks, all UTF-8 lengths, all value widths, any order) x all code points and malformed inputs",
 "The generator's tests are excluded from the build and check a few fixed tables; block sharing by checksum merged different blocks (repaired).",
 ["internal/gen/triegen/triegen.go", "internal/gen/triegen/compact.go", "internal/gen/triegen/print.go"], [("block sharing and compaction", "internal/gen/triegen/triegen.go computeOffsets"), ("emitted lookup", "internal/gen/triegen/print.go")], ["the generated lookup functions"])

prop("C19", "The alphanumeric filter accepts exactly tokens with a letter or number",
 "For every byte slice, the alphanumeric filter returns true exactly when the slice contains at least one well-formed code point that is a Unicode letter or number, wherever it stands; it terminates without panicking on malformed input.",
 ["inputs"], "all byte slices, all code points, all positions",
 "No test covers the filter.",
 ["internal/iterators/filter/filter.go"], [("rune loop", "filter.AlphaNumeric")], ["filter result"])

prop("C20", "The generator's tables say what its data files say",
 "Run on any set of Unicode data files in the published format, the table generator writes for each package a compilable table in which every code point has exactly the properties its files give it: the break property file's for each package, Extended_Pictographic from the emoji file for words, phrases and graphemes, Indic_Conjunct_Break for graphemes, and for words BleveIdeographic for Katakana, Han and Hiragana. Byte and string lookups agree, each property has its own bit whatever their number (up to 64), and the break tests it writes are those of the test files, in order.",
 ["inputs", "programs"], "all data files: any properties (1 to 64), ranges, comments, overlaps; all code points",
 "The generator has no tests at all; a wrong range or a dropped property shows only in tables nobody reads.",
 ["internal/gen/main.go", "internal/gen/triegen/print.go"], [("parsing and merging", "internal/gen/main.go generateTrie, getRuneRange"), ("writing tables and tests", "internal/gen/main.go writeTrie, writeTests")], ["the generated trie.go and unicode_test.go files"])

prop("C21", "A token too long for the scanner's buffer is an error, not a wrong token",
 "For every text, every chunking and every buffer size, the tokens a scanner yields before it first stops are exactly the leading tokens of the text: none is ever cut, shortened or changed because the buffer is full. Either the scanner yields all of them, or it stops and Err() reports bufio.ErrTooLong, which happens only where the buffer, filled with what follows the last token, does not hold the next token and a little beyond what decides its end. It never reads further ahead than the buffer it was given.",
 ["inputs", "schedules", "configurations"], "all texts x all buffer sizes (set with Buffer, or the default) x all chunkings and reader faults",
 "Every test uses the default buffer on small texts; what happens when a token of tens of kilobytes, or any token in a small buffer, meets the limit is not exercised.",
 SP + RD + ["words/seek.go", "phrases/seek.go", "sentences/seek.go"], [("request-more returns, whatever the length of the data", "*/splitfunc.go, */seek.go"), ("the embedded scanner and its buffer", "FromReader in */reader.go, Scanner.Joiners in words/reader.go")],
 ["Scanner.Scan/Bytes/Err", "io.Reader.Read"])

prop("C22", "A generator run that fails says so and spoils no table",
 "Run twice on the same data files, the generator writes the same files. When a data file can not be fetched (no connection, an HTTP error status, a transfer that breaks off), holds a line whose code points can not be read, or an output file can not be written, the run exits with a failure, and whatever it says, a run exits successfully only when every table and test file has been written in full from complete data. A table or test file whose sources did not arrive whole is left as it was, and unless writing itself fails no file is left half way between.",
 ["fault_sequences", "inputs"], "all fetches x refused, error statuses with any body, breaks after any byte, malformed lines at any place; unwritable outputs; several faults in one run; all data files",
 "The generator has no tests, and nobody runs it against a failing server; a swallowed error shows as a quietly wrong table.",
 ["internal/gen/main.go"], [("fetching and parsing before writing", "internal/gen/main.go generateTrie, generateTests"), ("writing", "internal/gen/main.go writeTrie, writeTests")], ["exit status", "the generated files"])

prop("C23", "Tokens are the caller's own memory, made without copying or allocating",
 "Iterators over a byte slice, and split functions, hand out parts of the caller's slice itself: a token kept shows that part of the memory through every later call, and what the caller writes in tokens already handed out (or anywhere behind the position or outside the text) changes no later token, while each next token is made from the bytes ahead as they are at that moment. The first-token query, a reset and a newly set text read the memory anew; a scanner's token may be written over before the next scan without changing any later token, and texts it handed out never change. Walking a string or byte slice, with or without joiners or ANSI options, allocates no memory that grows with the text, and a scanner none beyond its buffer.",
 ["histories", "inputs"], "all histories of calls on several iterators over overlapping parts of one slice, interleaved with writes by the caller, in every configuration; all streams whose tokens are written over; all texts",
 "Tests read each token once, at once, from memory nobody changes; a cached boundary, a remembered token or a copy gives the same answers there, and allocations are measured only by benchmarks nobody compares.",
 IT + RD + SP + ["words/joiners.go"], [("tokens are sub-slices", "Iterator.Value, Iterator.First in */iterator.go; the returns of */splitfunc.go"), ("nothing is remembered but start and pos", "Iterator.Next, Reset, SetText in */iterator.go"), ("joiner look-ups without conversions", "words/splitfunc.go decodeRune, words/joiners.go runesContain")],
 ["Iterator.Next/Value/First", "SplitFunc", "Scanner.Bytes/Text", "runtime.MemStats"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
