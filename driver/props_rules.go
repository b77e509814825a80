package main

// C02..C05: segmentation rules

func loadSeg(s *seg, machineName, dataName string) *seg {
	s.m = loadMachine(machineName, table(machineName))
	s.mn = s.m.minimise()
	s.kind = kindTable(s.m, loadRanges(data(dataName)))
	s.fillReps()
	res.info(machineName+" machine", map[string]int{"states": len(s.m.states), "transitions": len(s.m.states) * len(s.m.syms), "minimal_states": len(s.mn.rep), "symbols": len(s.m.syms)})
	return s
}

func theSeg(name string) *seg {
	switch name {
	case "graphemes":
		return loadSeg(segGraphemes(), "GraphemeTable", "grapheme")
	case "words":
		return loadSeg(segWords(), "WordTable", "word")
	case "phrases":
		return loadSeg(segPhrases(), "PhraseTable", "word")
	case "sentences":
		return loadSeg(segSentences(), "SentenceTable", "sentence")
	}
	return nil
}

var segNames = []string{"graphemes", "words", "phrases", "sentences"}

func rulesProp(name string) func() {
	return func() {
		s := theSeg(name)
		L := 4
		if thorough() {
			L = 5
		}
		suiteShort(s, L, pickN(1, 2))
		suiteStates(s, pickN(1, 2))
		small := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66}
		mid := []int{127, 128, 129, 130, 255, 256, 257, 258}
		big := []int{1023, 1024, 1025, 4095, 4096, 4097}
		huge := []int{16384, 16385, 32767, 32768, 65535, 65536, 65537}
		suitePump(s, small, thorough(), true)
		suitePump(s, mid, thorough(), !(name == "sentences"))
		if name != "sentences" || thorough() {
			suitePump(s, big, false, false)
		}
		if name != "sentences" && thorough() {
			suitePump(s, huge, false, false)
		}
		if name == "sentences" {
			// looking ahead makes long sentences quadratic in this library
			suiteLoops(s, []int{511, 512, 1000, 1024, 2000, 2048, 4096}, pickN(9000, 40000))
			suiteLoops(s, []int{8192, 10000, 16384, 32768}, pickN(300, 1500))
		} else {
			suiteLoops(s, []int{512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32767, 32768}, pickN(15000, 60000))
			suiteLoops(s, []int{65535, 65536, 100000, 131072}, pickN(1200, 6000))
		}
		suiteGiants(s, pickN(64, 240))
		suiteSweep(s, pickN(1, 3))
		suiteSweepASCII(s)
		suiteNotable(s)
		suiteLiterals(s, pickN(300000, 4000000))
		suiteEverywhere(s, pickN(4, 1))
		suiteBlocks(s, pickN(300, 2000))
		suiteRandom(s, pickN(300000, 6000000), 60)
		suiteRandom(s, pickN(20000, 400000), 500)
		suiteASCII(s)
		suiteHot(s, pickN(40, 300))
		suiteRuns(s, []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}, 2)
		suiteOffsets(s, pickN(160, 2000))
		traceSeg(s, map[string]string{"graphemes": "g", "words": "w", "phrases": "p", "sentences": "s"}[name], pickN(6000, 60000))
	}
}

func init() {
	props["C02"] = rulesProp("graphemes")
	props["C03"] = rulesProp("words")
	props["C04"] = rulesProp("sentences")
	props["C05"] = rulesProp("phrases")
}
