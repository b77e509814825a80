"""What each check runs: TLC modules, tables for the driver, driver runs."""

GRAPHEME = {"name": "GraphemeTable", "module": "GraphemeTable"}
WORD = {"name": "WordTable", "module": "WordTable"}
PHRASE = {"name": "PhraseTable", "module": "WordTable"}
SENTENCE = {"name": "SentenceTable", "module": "SentenceTable"}
JOINER = {"name": "JoinerTable", "module": "WordTable"}
UTF8 = {"name": "Utf8Table", "module": "Utf8Table"}
SCHED = {"name": "StreamSched", "module": "StreamSched"}
ALL = [GRAPHEME, WORD, PHRASE, SENTENCE]

UNICODE = "spec/data is the Unicode 17 classification (cross-checked at development time against ICU 78, see DESIGN.md)"
WELLFORMED = "rules are decided on well-formed UTF-8; ill-formed input is covered by C01, C06 and C07 only"

STREAM_MC = [{"name": "Stream" + k, "module": "Stream" + k, "set_thorough": {"N": 4}} for k in ("Grapheme", "Word", "Phrase", "Sentence")]

VIEWS_MC = [{"name": "Views" + k, "module": "Views" + k, "set_thorough": {"N": 4, "Steps": 6}} for k in ("Grapheme", "Word", "Phrase", "Sentence")]

BOUND_MC = [{"name": "Bound" + k, "module": "Bound" + k, "set_thorough": {"N": 4, "Slack": 1, "Max": 7}} for k in ("Grapheme", "Word", "Phrase", "Sentence")]

ANSI_MC = [{"name": "AnsiMC", "module": "AnsiMC", "set_thorough": {"N": 5}},
           {"name": "AnsiMCDeep", "module": "AnsiMC", "set_thorough": {"N": 6}},
           {"name": "AnsiSegMC", "module": "AnsiSegMC", "set_thorough": {"N": 5}}]


def hot(seg):
    return {"name": "Hot-" + seg, "module": "HotPath", "cfg": {"file": "HotPathTable", "set": {"Seg": '"%s"' % seg}}}


def hot_mc(name, n=None):
    return {"name": name, "module": "HotPath", "set_thorough": {"N": n} if n else {}}


PLAN = {
    "C02": {
        "level": "model_checking",
        "mc": [{"name": "GraphemeMC", "module": "GraphemeMC", "set": {"N": 4}, "set_thorough": {"N": 5}}, hot_mc("HotGraphemes", 5)],
        "tables": [GRAPHEME, hot("graphemes")],
        "assumptions": [UNICODE, WELLFORMED],
    },
    "C03": {
        "level": "model_checking",
        "mc": [{"name": "WordMC", "module": "WordMC", "set": {"N": 4}, "set_thorough": {"N": 5}}, hot_mc("HotWords", 5)],
        "tables": [WORD, hot("words")],
        "assumptions": [UNICODE, WELLFORMED],
    },
    "C04": {
        "level": "model_checking",
        "mc": [{"name": "SentenceMC", "module": "SentenceMC", "set": {"N": 4}, "set_thorough": {"N": 6}}, hot_mc("HotSentences", 5)],
        "tables": [SENTENCE, hot("sentences")],
        "assumptions": [UNICODE, WELLFORMED],
    },
    "C05": {
        "level": "model_checking",
        "mc": [{"name": "PhraseMC", "module": "WordMC", "set": {"N": 4}, "set_thorough": {"N": 5}}, hot_mc("HotPhrases", 5)],
        "tables": [PHRASE, WORD, hot("phrases")],
        "assumptions": [UNICODE, WELLFORMED],
    },
    "C01": {
        "level": "model_checking",
        "mc": [{"name": "PartitionMC", "module": "PartitionMC"}, {"name": "Utf8MC", "module": "Utf8MC"}],
        "tables": ALL + [JOINER, UTF8],
        "assumptions": ["ill-formed texts are drawn from the byte-class automaton of Utf8.tla (every state and transition, prefixes, damaged and truncated well-formed texts) and random bytes, not all byte sequences"],
    },
    "C06": {
        "level": "model_checking",
        "mc": [{"name": "PartitionMC", "module": "PartitionMC"}, {"name": "Utf8MC", "module": "Utf8MC"}],
        "tables": ALL + [JOINER, UTF8],
        "assumptions": ["the entry points are compared with each other; that they are right is C02-C05"],
    },
    "C07": {
        "level": "model_checking",
        "mc": STREAM_MC,
        "tables": ALL + [JOINER, SCHED],
        "assumptions": ["chunkings: all schedules of StreamSched over short texts, and random chunkings of long ones", "the token plus look-ahead fits the scanner's buffer"],
    },
    "C08": {
        "level": "model_checking",
        "mc": STREAM_MC,
        "tables": ALL + [JOINER, SCHED],
        "assumptions": ["readers obey the io.Reader contract"],
    },
    "C21": {
        "level": "model_checking",
        "mc": BOUND_MC,
        "tables": ALL + [JOINER],
        "assumptions": ["readers obey the io.Reader contract", "that giving up was right is decided on well-formed text"],
    },
    "C14": {
        "level": "model_checking",
        "mc": [{"name": "JoinerMC", "module": "WordMC"}, hot_mc("HotJoiners")],
        "tables": [WORD, JOINER],
        "assumptions": [UNICODE, WELLFORMED],
    },
    "C23": {
        "level": "model_checking",
        "mc": VIEWS_MC,
        "tables": ALL + [JOINER] + [{"name": "ViewsGraph" + k, "module": "ViewsGraph" + k} for k in ("Grapheme", "Word", "Phrase", "Sentence")],
        "assumptions": ["the tokens of a text are those of a fresh iterator over a copy; that they are right is C02-C05",
                        "memory used is counted by the Go runtime, for texts up to 240 kB"],
    },
    "C09": {
        "level": "model_checking",
        "mc": [{"name": "IteratorMC", "module": "IteratorMC"}],
        "tables": ALL + [JOINER] + [{"name": "IteratorGraph", "module": "IteratorGraph"}],
        "assumptions": ["the tokens of a text are those of a fresh iterator; that they are right is C02-C05"],
    },
    "C10": {
        "level": "model_checking",
        "mc": [{"name": "Concurrent", "module": "Concurrent", "set_thorough": {"MaxOps": 4}}],
        "tables": ALL + [{"name": "ConcurrentSched", "module": "ConcurrentSched"}],
        "build": [{"name": "drv"}, {"key": "drv-race", "name": "drv", "race": True}],
        "run": [{"build": "drv"}, {"build": "drv-race", "args": ["-part", "race"], "race": True}],
        "assumptions": ["interleavings at the granularity of calls are enumerated; within calls, goroutine schedules are the Go scheduler's, watched by the race detector"],
    },
    "C11": {
        "level": "model_checking",
        "mc": ANSI_MC,
        "tables": [GRAPHEME, {"name": "AnsiTable", "module": "AnsiTable"}],
        "assumptions": [UNICODE, "between sequences, well-formed text is judged by the grapheme machine; ill-formed text by what the library does with the options off"],
    },
    "C12": {
        "level": "model_checking",
        "mc": ANSI_MC,
        "tables": [GRAPHEME, {"name": "AnsiTable", "module": "AnsiTable"}],
        "assumptions": [UNICODE, "between sequences, well-formed text is judged by the grapheme machine; ill-formed text by what the library does with the options off"],
    },
    "C13": {
        "level": "model_checking",
        "mc": ANSI_MC,
        "tables": [GRAPHEME, {"name": "AnsiTable", "module": "AnsiTable"}],
        "assumptions": [UNICODE, "between sequences, well-formed text is judged by the grapheme machine; ill-formed text by what the library does with the options off"],
    },
    "C15": {
        "level": "model_checking",
        "tables": ALL,
        "trace_env": {"DATA_G": "grapheme.json", "DATA_W": "word.json", "DATA_S": "sentence.json"},
        "assumptions": [UNICODE],
        "rule": "the behaviour of every scalar value in distinguishing contexts on the real segmenters; TLC checks the observed classes against the classification",
    },
    "C16": {
        "level": "model_checking",
        "mc": [{"name": "BleveMC", "module": "BleveMC", "set_thorough": {"N_": 6}}],
        "tables": [{"name": "BleveTable", "module": "BleveTable"}, UTF8],
        "assumptions": [UNICODE, "ideographs: Word_Break=Katakana and the Unicode 17 scripts Han and Hiragana", "the empty token is left open; ill-formed tokens are only required to return"],
    },
    "C17": {
        "level": "model_checking",
        "mc": [{"name": "GenericMC", "module": "GenericMC", "set_thorough": {"L": 4}}],
        "tables": [WORD, {"name": "GenericGraph", "module": "GenericGraph"}, {"name": "GenericGraphStrict", "module": "GenericGraph"}],
        "assumptions": ["split functions are functions of the remaining text (scripts by position), over texts of up to 3 bytes exhaustively and longer ones at random",
                        "the internal iterator may take a last single byte without asking the function, as it documents"],
        "rule": "every script x every history of calls of the printed graph up to a length, on the real iterators; recorded histories over longer texts validated by TLC",
    },
    "C19": {
        "level": "model_checking",
        "mc": [{"name": "FilterMC", "module": "FilterMC", "set_thorough": {"N": 5}}],
        "tables": [{"name": "FilterTable", "module": "FilterTable"}, UTF8],
        "assumptions": ["letters and numbers are those of the Go toolchain's tables (categories L and N), read without the library's shortcuts"],
    },
    "C18": {
        "level": "model_checking",
        "mc": [{"name": "TrieMC", "module": "TrieMC"}, {"name": "TrieCompact", "module": "TrieMC"}, {"name": "TrieLookupMC", "module": "TrieLookupMC"}],
        "mc_thorough": [{"name": "TrieDeep", "module": "TrieMC"}],
        "tables": [{"name": "TrieMaps2", "module": "TrieMaps"}, {"name": "TrieMaps4", "module": "TrieMaps"}, {"name": "TrieLookupTable", "module": "TrieLookupTable"}],
        "custom": "tries",
        "assumptions": ["single tries, as emitted (the constructor and handles for several tries in one structure are emitted as comments)",
                        "the integer type the caller declares is wide enough for the values and for the numbers of blocks"],
        "rule": "insertion sets (maps of the reduced model, embedded at full size; edges, runs, similar and checksum-alike blocks, random, whole Unicode) fed to the generator, the emitted code compiled, and every code point, every pair of bytes and words of byte classes looked up",
    },
    "C20": {
        "level": "model_checking",
        "mc": [{"name": "GeneratorMC", "module": "GeneratorMC"}],
        "tables": [],
        "custom": "generator",
        "assumptions": ["data files in the published format: lines end with a newline, comments hold no semicolon, test files have no empty lines",
                        "Han and Hiragana are those of the Go toolchain (as the generator takes them)"],
        "rule": "made-up and real-like data files served to the real generator in a scratch directory; the packages it writes compiled, and every code point looked up from bytes and from strings",
    },
    "C22": {
        "level": "model_checking",
        "mc": [{"name": "GeneratorRunMC", "module": "GeneratorRunMC", "set_thorough": {"MaxFaults": 4, "Retries": 2}}],
        "tables": [{"name": "GeneratorRunPlans", "module": "GeneratorRunMC"}],
        "custom": "failures",
        "assumptions": ["what the data files say is what a run without faults writes (C20)", "faults: refused connections, error statuses, transfers that break off with an error, lines whose code points can not be read, files that can not be written"],
        "rule": "every fault of the printed plans, with many error pages, cuts and garbled lines, on runs of the real generator in scratch directories over made-up data files; TLC validates what each run fetched, wrote and said",
    },
}
