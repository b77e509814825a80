// Writes data files in the format of the Unicode Character Database, and beside them what they say.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type line struct {
	F, P   string
	Lo, Hi rune
}
type test struct {
	Input    []byte
	Expected [][]byte
}
type set struct {
	Name  string
	Lines []line
	Tests map[string][]test
}

var (
	dir  = flag.String("dir", "", "")
	data = flag.String("data", "", "")
	seed = flag.Int64("seed", 1, "")
	n    = flag.Int("n", 10, "")
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "datasets:", err)
		os.Exit(2)
	}
}

var fileOf = map[string]string{"Emoji": "emoji-data.txt", "InCB": "DerivedCoreProperties.txt", "Word": "WordBreakProperty.txt", "Grapheme": "GraphemeBreakProperty.txt", "Sentence": "SentenceBreakProperty.txt"}

func scalar(x rune) bool { return x >= 0 && x <= 0x10FFFF && (x < 0xD800 || x > 0xDFFF) }

// comment is what may stand behind a value: anything but a semicolon
func comment(r *rand.Rand, l line) string {
	s := []string{" # ", "# ", "          # ", "\t# ", " #"}[r.Intn(5)]
	bits := []string{"Lu ", "L& ", "[" + fmt.Sprint(l.Hi-l.Lo+1) + "] ", "E0.6 ", "(x#x) ", "(@) ", "COMMERCIAL AT ", "@missing ", "LETTER..OTHER ", "<control-0041>..<control-005A> ", "0041..005A ", "(\u231A..\u231B) ", "InCB ", "Extended_Pictographic ", "\"", "NUMBER SIGN ", "(\U0001F600) ", "\u00f7 \u00d7 ", "0x41 ", "%d %s ", "\\ ", "Other "}
	for k := r.Intn(7); k > 0; k-- {
		s += bits[r.Intn(len(bits))]
	}
	return s
}

func write(r *rand.Rand, s *set, d string, order bool) {
	must(os.MkdirAll(filepath.Join(d, "ucd"), 0o755))
	must(os.MkdirAll(filepath.Join(d, "internal", "gen"), 0o755))
	for _, p := range []string{"words", "phrases", "graphemes", "sentences"} {
		must(os.MkdirAll(filepath.Join(d, p), 0o755))
		// what an earlier version left, sometimes longer than what comes
		for _, f := range []string{"trie.go", "unicode_test.go"} {
			if n := []int{0, 0, 40, 400000}[r.Intn(4)]; n > 0 && (p != "phrases" || f == "trie.go") {
				must(os.WriteFile(filepath.Join(d, p, f), []byte("package "+p+"\n\nvar old = 1\n"+strings.Repeat("// old\n", n)), 0o644))
			}
		}
	}
	for f, name := range fileOf {
		var b bytes.Buffer
		fmt.Fprintf(&b, "# %s\n# Date: 2025-08-01; made up\n\n# @missing: 0000..10FFFF; Other\n", name)
		last := ""
		for _, l := range s.Lines {
			if l.F != f {
				continue
			}
			if l.P != last {
				b.WriteString("\n# ================================================\n\n")
				last = l.P
			}
			cp := fmt.Sprintf("%04X", l.Lo)
			if l.Hi != l.Lo || r.Intn(30) == 0 {
				cp = fmt.Sprintf("%04X..%04X", l.Lo, l.Hi)
			}
			if strings.HasPrefix(l.P, "InCB_") {
				fmt.Fprintf(&b, "%-14s; InCB; %s%s\n", cp, strings.TrimPrefix(l.P, "InCB_"), comment(r, l))
			} else {
				fmt.Fprintf(&b, "%-14s; %s%s\n", cp, l.P, comment(r, l))
			}
			for r.Intn(40) == 0 {
				b.WriteString([]string{"\n", "#\n", "# 0041; Nothing # of the kind\n", "#0041..005A ; ALetter\n"}[r.Intn(4)])
			}
		}
		b.WriteString("\n# Total code points: 0\n\n# EOF\n")
		must(os.WriteFile(filepath.Join(d, "ucd", name), b.Bytes(), 0o644))
	}
	for k, ts := range s.Tests {
		var b bytes.Buffer
		fmt.Fprintf(&b, "# %sBreakTest\n#\n# ÷ wherever there is a break opportunity, and\n", k)
		for _, t := range ts {
			b.WriteString("÷")
			for _, e := range t.Expected {
				for i, x := range []rune(string(e)) {
					if i > 0 {
						b.WriteString(" ×")
					}
					fmt.Fprintf(&b, " %04X", x)
				}
				b.WriteString(" ÷")
			}
			b.WriteString([]string{"\t#  ÷ [0.2] LATIN (Other) × [9.0] COMBINING (Extend) ÷ [0.3]\n", "\t# ÷ [0.2] NUMBER SIGN (#) \"quoted\" `back` \\ {0x41} []uint8{0x61}\n", " # \n", "\t#  ÷ [0.2] <CARRIAGE RETURN (CR)> (CR) ÷ [4.0] <START OF HEADING> (Control) ÷ [0.3]\n"}[r.Intn(4)])
		}
		fmt.Fprintf(&b, "#\n# Lines: %d\n#\n# EOF\n", len(ts))
		must(os.WriteFile(filepath.Join(d, "ucd", k+"BreakTest.txt"), b.Bytes(), 0o644))
	}
	b, err := json.Marshal(s)
	must(err)
	must(os.WriteFile(filepath.Join(d, "set.json"), b, 0o644))
}

func tests(r *rand.Rand, n int) map[string][]test {
	m := map[string][]test{}
	for _, k := range []string{"Word", "Grapheme", "Sentence"} {
		for i := 0; i < n; i++ {
			var t test
			for j := 1 + r.Intn(5); j > 0; j-- {
				var e []byte
				for l := 1 + r.Intn(4); l > 0; l-- {
					x := rune(r.Intn(0x300))
					switch r.Intn(4) {
					case 0:
						x = rune(r.Intn(0x10000))
					case 1:
						x = rune(r.Intn(0x110000))
					}
					if !scalar(x) {
						x = '\n'
					}
					e = append(e, string(x)...)
				}
				t.Expected = append(t.Expected, e)
				t.Input = append(t.Input, e...)
			}
			m[k] = append(m[k], t)
			if r.Intn(8) == 0 {
				m[k] = append(m[k], m[k][r.Intn(len(m[k]))]) // the same again
			}
		}
	}
	return m
}

// partition gives disjoint random ranges to properties
func partition(r *rand.Rand, f string, names []string, ranges int, big bool) (out []line) {
	seen := map[rune]bool{}
	for i := 0; i < ranges; i++ {
		var lo rune
		switch r.Intn(6) {
		case 0:
			lo = rune(r.Intn(0x80))
		case 1:
			lo = rune(0x80 + r.Intn(0x780))
		case 2, 3:
			lo = rune(0x800 + r.Intn(0xF800))
		case 4:
			lo = rune(0x10000 + r.Intn(0x100000))
		case 5:
			lo = []rune{0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0x3F, 0x40, 0xFFF, 0x1000, 0xFFFFF}[r.Intn(15)]
		}
		hi := lo
		switch r.Intn(4) {
		case 0:
			hi = lo + rune(r.Intn(100))
		case 1:
			hi = lo + rune(r.Intn(10))
		case 2:
			if big {
				hi = lo + rune(r.Intn(9000))
			}
		}
		ok := true
		for x := lo; x <= hi; x++ {
			if !scalar(x) || seen[x] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for x := lo; x <= hi; x++ {
			seen[x] = true
		}
		p := names[r.Intn(len(names))]
		if i < len(names) {
			p = names[i]
		}
		out = append(out, line{f, p, lo, hi})
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].P != out[j].P {
			return out[i].P < out[j].P
		}
		return out[i].Lo < out[j].Lo
	})
	return
}

// within gives properties of another file to parts of ranges there are
func within(r *rand.Rand, of []line, f string, names []string, n int) (out []line) {
	for i := 0; i < n; i++ {
		l := of[r.Intn(len(of))]
		lo := l.Lo + rune(r.Intn(int(l.Hi-l.Lo)+1))
		hi := lo + rune(r.Intn(int(l.Hi-lo)+1))
		if r.Intn(2) == 0 || hi-lo > 500 {
			hi = lo
		}
		out = append(out, line{f, names[r.Intn(len(names))], lo, hi})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].P < out[j].P })
	return
}

// apart leaves one value of Indic_Conjunct_Break per code point
func apart(ls []line) (out []line) {
	seen := map[rune]bool{}
next:
	for _, l := range ls {
		if strings.HasPrefix(l.P, "InCB_") {
			for x := l.Lo; x <= l.Hi; x++ {
				if seen[x] {
					continue next
				}
			}
			for x := l.Lo; x <= l.Hi; x++ {
				seen[x] = true
			}
		}
		out = append(out, l)
	}
	return
}

func names(r *rand.Rand, k int) []string {
	base := []string{"A_B", "AC", "MidLetter", "Mid_Z", "ALetter", "Katakana", "CR", "LF", "Extend", "Regional_Indicator", "Format", "Hebrew_Letter", "MidNumLet", "ExtendNumLet", "ZWJ", "SContinue", "Double_Quote", "E_Base_GAZ", "LV", "LVT", "Numeric", "Sp", "STerm", "ATerm", "Upper", "Lower"}
	r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	for len(base) < k {
		base = append(base, fmt.Sprintf([]string{"Prop_%d_x", "Prop%d", "P_%d", "a%d_b"}[r.Intn(4)], len(base)))
	}
	return base[:k]
}

type rng struct {
	Lo, Hi rune
	K      string
}

// gappy gives one property a range of so many code points, or so many ranges of one
func gappy(r *rand.Rand, s *set, f, p string, k int, one bool) {
	taken := map[rune]bool{}
	for _, l := range s.Lines {
		if l.F == f {
			for x := l.Lo; x <= l.Hi; x++ {
				taken[x] = true
			}
		}
	}
	at := rune(0x20000 + r.Intn(0x1000))
	if one {
		for x := at; x < at+rune(k); x++ {
			if taken[x] {
				at, x = x+1, x
			}
		}
		if at+rune(k) <= 0x10FFFF {
			s.Lines = append(s.Lines, line{f, p, at, at + rune(k) - 1})
		}
		return
	}
	for ; k > 0 && at <= 0x10FFFF; at += 2 {
		if !taken[at] {
			s.Lines = append(s.Lines, line{f, p, at, at})
			k--
		}
	}
}

// about makes a set about a constant of the code
func about(r *rand.Rand, s *set, cs []uint64, how int) {
	f := []string{"Word", "Grapheme", "Sentence"}[r.Intn(3)]
	p := "Other_Prop"
	for _, l := range s.Lines {
		if l.F == f && r.Intn(3) == 0 {
			p = l.P
			break
		}
	}
	if how%2 == 0 && r.Intn(4) == 0 {
		f, p = "Emoji", "Extended_Pictographic"
	}
	switch how {
	case 0:
		gappy(r, s, f, p, sizeOf(r, cs, 2, 300000), true)
	case 1:
		gappy(r, s, f, p, sizeOf(r, cs, 2, 3000), false)
	case 2: // where they are
		for _, c := range cs {
			for d := uint64(0); d < 3; d++ {
				x := rune(c + d - 1)
				ok := c <= 0x10FFFF && scalar(x)
				for _, l := range s.Lines {
					if l.F == f && l.Lo <= x && x <= l.Hi {
						ok = false
					}
				}
				if ok && r.Intn(2) == 0 {
					s.Lines = append(s.Lines, line{f, p, x, x})
				}
			}
		}
	case 3:
		n := sizeOf(r, cs, 1, 3000)
		for k, ts := range tests(r, n) {
			s.Tests[k] = ts[:n]
		}
	case 4: // long tests
		for k := range s.Tests {
			var t test
			a, b := sizeOf(r, cs, 1, 2000), 1
			if r.Intn(2) == 0 {
				a, b = b, a
			}
			for i := 0; i < a; i++ {
				var e []byte
				for j := 0; j < b; j++ {
					e = append(e, string(rune(0x61+r.Intn(0x500)))...)
				}
				t.Expected = append(t.Expected, e)
				t.Input = append(t.Input, e...)
			}
			s.Tests[k] = append(s.Tests[k], t)
		}
	}
	sort.SliceStable(s.Lines, func(i, j int) bool { return s.Lines[i].F == s.Lines[j].F && s.Lines[i].P < s.Lines[j].P })
}

func main() {
	flag.Parse()
	cs := codeConstants()
	r := rand.New(rand.NewSource(*seed*104729 + 5))
	for i := 0; i < *n; i++ {
		s := &set{Name: fmt.Sprintf("ds%d", i), Tests: tests(r, r.Intn(40)+1)}
		if i == 0 {
			// like the real files
			for f, k := range map[string]string{"word": "Word", "grapheme": "Grapheme", "sentence": "Sentence"} {
				b, err := os.ReadFile(filepath.Join(*data, f+".json"))
				must(err)
				var rs []rng
				must(json.Unmarshal(b, &rs))
				var mine []line
				for _, x := range rs {
					p := strings.NewReplacer("+", "_and_", "-", "_").Replace(x.K)
					mine = append(mine, line{k, p, x.Lo, x.Hi})
				}
				sort.SliceStable(mine, func(a, b int) bool { return mine[a].P < mine[b].P })
				s.Lines = append(s.Lines, mine...)
			}
			s.Lines = append(s.Lines, line{"Emoji", "Emoji", 0x23, 0x23}, line{"Emoji", "Extended_Pictographic", 0xA9, 0xA9}, line{"Emoji", "Extended_Pictographic", 0xAE, 0xAE}, line{"Emoji", "Extended_Pictographic", 0x1F600, 0x1F64F},
				line{"InCB", "Lowercase", 0x61, 0x7A}, line{"InCB", "InCB_Consonant", 0x915, 0x939}, line{"InCB", "InCB_Linker", 0x94D, 0x94D}, line{"InCB", "InCB_Extend", 0x300, 0x36F})
		} else {
			// how many properties decides the integer type
			k := []int{1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 22, 27, 28, 29, 30, 31, 32, 40, 59}[(i*5+int(*seed))%23]
			ranges := 6 + k + r.Intn(12)
			big := false
			if k > 8 {
				ranges = 20 + r.Intn(300)
				big = true
			}
			for _, f := range []string{"Word", "Grapheme", "Sentence"} {
				ns := names(r, k)
				if f == "Grapheme" && k == 1 {
					ns = names(r, 2)
				}
				s.Lines = append(s.Lines, partition(r, f, ns, ranges, big)...)
			}
			// these overlap the properties above
			emoji := append(within(r, s.Lines, "Emoji", []string{"Extended_Pictographic", "Emoji"}, 1+r.Intn(12)), partition(r, "Emoji", []string{"Extended_Pictographic", "Emoji", "Emoji_Modifier"}, 8+r.Intn(20), false)...)
			emoji = append(emoji, line{"Emoji", "Emoji_Presentation", emoji[0].Lo, emoji[0].Hi})
			incb := append(within(r, s.Lines, "InCB", []string{"InCB_Consonant", "InCB_Linker", "InCB_Extend", "Math"}, 1+r.Intn(12)), partition(r, "InCB", []string{"InCB_Consonant", "InCB_Linker", "InCB_Extend", "Math", "Alphabetic"}, 10+r.Intn(20), false)...)
			incb = append(apart(incb), line{"InCB", "Cased", incb[0].Lo, incb[0].Hi})
			s.Lines = append(append(s.Lines, emoji...), incb...)
			// a single code point with a property
			if i%5 == 3 {
				f, p := "InCB", []string{"InCB_Consonant", "InCB_Linker", "InCB_Extend"}[r.Intn(3)]
				if i%2 == 0 {
					p = "InCB_Consonant"
				}
				if i%3 == 0 {
					f, p = "Emoji", "Extended_Pictographic"
				}
				var keep []line
				for _, l := range s.Lines {
					if l.P != p {
						keep = append(keep, l)
					}
				}
				x := []rune{0x41, 0x905, 0x2603, 0x1F600, 0x10FFFF}[r.Intn(5)]
				s.Lines = append(keep, line{f, p, x, x})
			}
		}
		if i > 0 {
			about(r, s, cs, i%5)
		}
		// the generator insists on these
		has := map[string]bool{}
		for _, l := range s.Lines {
			has[l.P] = true
		}
		if !has["Extended_Pictographic"] {
			s.Lines = append(s.Lines, line{"Emoji", "Extended_Pictographic", 0x2600, 0x2604})
		}
		if !has["InCB_Consonant"] {
			s.Lines = append(s.Lines, line{"InCB", "InCB_Consonant", 0x915, 0x917})
		}
		write(r, s, filepath.Join(*dir, s.Name), true)
	}
}
