package main

// C14: joiners

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/clipperhouse/uax29/v2/words"
)

type joinCfg struct {
	Middle  []rune `json:"middle"`
	Leading []rune `json:"leading"`
	Nil     bool   `json:"nil,omitempty"` // a nil *Joiners
}

func (j joinCfg) String() string {
	if j.Nil {
		return "Joiners(nil)"
	}
	return fmt.Sprintf("Joiners{Middle: %+q, Leading: %+q}", string(j.Middle), string(j.Leading))
}
func joinersOf[T ~string | ~[]byte](j joinCfg) *words.Joiners[T] {
	if j.Nil {
		return nil
	}
	return &words.Joiners[T]{Middle: j.Middle, Leading: j.Leading}
}

type namedString string
type namedBytes []byte

// named adaptors: an iterator over a named type seen as one over the plain type
type nsIter struct{ *words.Iterator[namedString] }

func (n nsIter) Value() string    { return string(n.Iterator.Value()) }
func (n nsIter) First() string    { return string(n.Iterator.First()) }
func (n nsIter) SetText(t string) { n.Iterator.SetText(namedString(t)) }

type nbIter struct{ *words.Iterator[namedBytes] }

func (n nbIter) Value() []byte    { return []byte(n.Iterator.Value()) }
func (n nbIter) First() []byte    { return []byte(n.Iterator.First()) }
func (n nbIter) SetText(t []byte) { n.Iterator.SetText(namedBytes(t)) }

var (
	joinMachine *machine
	joinMin     *minimal
	joinBase    []uint8 // code point -> unflagged symbol
)

func loadJoiners() {
	joinMachine = loadMachine("JoinerTable", table("JoinerTable"))
	joinMin = joinMachine.minimise()
	joinBase = kindTable(joinMachine, loadRanges(data("word")))
	res.info("JoinerTable machine", map[string]int{"states": len(joinMachine.states), "minimal_states": len(joinMin.rep), "symbols": len(joinMachine.syms)})
}

// segJoiners: words under a joiner configuration; named selects iterators over named types
func segJoiners(cfg joinCfg, named bool) *seg {
	s := &seg{name: "words", note: cfg.String(), extra: cfg}
	if named {
		s.str = func(t string) iterOf[string] {
			it := &words.Iterator[namedString]{}
			it.Joiners(joinersOf[namedString](cfg))
			it.SetText(namedString(t))
			return nsIter{it}
		}
		s.byt = func(t []byte) iterOf[[]byte] {
			it := &words.Iterator[namedBytes]{}
			it.Joiners(joinersOf[namedBytes](cfg))
			it.SetText(namedBytes(t))
			return nbIter{it}
		}
		s.note += " on named types"
	} else {
		s.str = func(t string) iterOf[string] {
			it := words.FromString(t)
			it.Joiners(joinersOf[string](cfg))
			return it
		}
		s.byt = func(t []byte) iterOf[[]byte] {
			it := words.FromBytes(t)
			it.Joiners(joinersOf[[]byte](cfg))
			return it
		}
	}
	s.rd = func(r io.Reader) scanner {
		sc := words.FromReader(r)
		sc.Joiners(joinersOf[[]byte](cfg))
		return sc
	}
	s.m, s.mn = joinMachine, joinMin
	s.kind = append([]uint8(nil), joinBase...)
	if !cfg.Nil {
		flags := map[rune]string{}
		for _, r := range cfg.Leading {
			flags[r] = "+L"
		}
		for _, r := range cfg.Middle {
			if flags[r] == "+L" || flags[r] == "+LM" {
				flags[r] = "+LM"
			} else {
				flags[r] = "+M"
			}
		}
		for r, f := range flags {
			if r < 0 || r > 0x10FFFF || isSurrogate(int(r)) {
				continue
			}
			k, ok := s.m.symIdx[s.m.syms[joinBase[r]]+f]
			if !ok {
				fatal("no joiner symbol for %U", r)
			}
			s.kind[r] = uint8(k)
		}
	}
	s.fillReps()
	return s
}

// kinds of the base alphabet -> code points
func baseReps() [][]rune {
	out := make([][]rune, len(joinMachine.syms))
	for c := 0; c < 0x110000; c++ {
		if !isSurrogate(c) {
			out[joinBase[c]] = append(out[joinBase[c]], rune(c))
		}
	}
	return out
}

// line breaks chosen as joiners are left open: whether "letter" or "line break" wins depends on the
// order in which an implementation asks
func isLineBreak(r rune) bool {
	switch r {
	case '\n', '\r', '\v', '\f', 0x85, 0x2028, 0x2029:
		return true
	}
	return false
}

// notableCfg flags some of the notable code points, and a few of every kind
func notableCfg(r *rand.Rand) joinCfg {
	c := fullCfg(r, 1)
	for _, x := range notables() {
		switch r.Intn(24) {
		case 0:
			c.Leading = append(c.Leading, x)
		case 1:
			c.Middle = append(c.Middle, x)
		case 2:
			c.Leading = append(c.Leading, x)
			c.Middle = append(c.Middle, x)
		}
	}
	return c
}

func withoutLineBreaks(c joinCfg) joinCfg {
	for _, p := range []*[]rune{&c.Leading, &c.Middle} {
		var out []rune
		for _, r := range *p {
			if !isLineBreak(r) {
				out = append(out, r)
			}
		}
		*p = out
	}
	return c
}

// a configuration that gives every kind joiners of every flag
func fullCfg(r *rand.Rand, per int) joinCfg {
	var c joinCfg
	for _, rs := range baseReps() {
		if len(rs) < 4 {
			for _, x := range rs {
				switch r.Intn(4) {
				case 0:
					c.Leading = append(c.Leading, x)
				case 1:
					c.Middle = append(c.Middle, x)
				case 2:
					c.Leading = append(c.Leading, x)
					c.Middle = append(c.Middle, x)
				}
			}
			continue
		}
		perm := r.Perm(len(rs) - 1)
		n := 0
		take := func() rune { n++; return rs[1+perm[(n-1)%len(perm)]] }
		for i := 0; i < per && n+4 < len(perm); i++ {
			c.Leading = append(c.Leading, take())
			c.Middle = append(c.Middle, take())
			b := take()
			c.Leading = append(c.Leading, b)
			c.Middle = append(c.Middle, b)
		}
	}
	return c
}

func randomCfg(r *rand.Rand) joinCfg {
	var c joinCfg
	pool := "-@#./_+&'\":,; \t\n\r%$!?*~aZ5\u05D0\u05BE\u3042\u30A2\u4E00\u0301\u200D\u00AD\U0001F1E6\U0001F600\u2019\u00B7\u2028\u2003\u2044é£\U0001D400\x00"
	rs := []rune(pool)
	all := []*[]rune{&c.Leading, &c.Middle}
	for _, p := range all {
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			if r.Intn(4) == 0 {
				x := r.Intn(0x110000)
				if !isSurrogate(x) {
					*p = append(*p, rune(x))
				}
				continue
			}
			*p = append(*p, rs[r.Intn(len(rs))])
		}
		if n > 0 && r.Intn(6) == 0 { // listed twice
			*p = append(*p, (*p)[0])
		}
	}
	if r.Intn(3) == 0 {
		c.Leading = append(c.Leading, c.Middle...)
	}
	return c
}

// padTo lists other code points too, in any order and some more than once, as many as some constant of
// the code says
func padTo(r *rand.Rand, rs []rune) []rune {
	xs := lits().small
	if ys := litSizes(litSmall, 5000); len(ys) > 0 && r.Intn(2) == 0 {
		xs = ys
	}
	n := 20
	if len(xs) > 0 {
		n = xs[r.Intn(len(xs))]
	}
	out := append([]rune{}, rs...)
	for len(out) < n {
		x := r.Intn(0x3000)
		if r.Intn(3) == 0 {
			x = r.Intn(0x110000)
		}
		if !isSurrogate(x) && !isLineBreak(rune(x)) {
			out = append(out, rune(x))
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// texts that like the configured joiners
func suiteJoinerTexts(s *seg, cfg joinCfg, n int, r *rand.Rand, c *checker) {
	alpha := s.alphabet()
	p := s.picker()
	var flagged []rune
	flagged = append(append(flagged, cfg.Leading...), cfg.Middle...)
	ascii := []string{"a", "b1", "Zz", "7", "42", " ", "  ", ".", "'", "-", "_", "\n", "é", "\u0301", "\u05D0", "ｱ", "3.1"}
	for i := 0; i < n && !stopped(); i++ {
		var b strings.Builder
		for k := 1 + r.Intn(10); k > 0; k-- {
			switch x := r.Intn(5); {
			case x == 0 && len(flagged) > 0:
				b.WriteRune(flagged[r.Intn(len(flagged))])
			case x == 1:
				b.WriteRune(p.pick(r, alpha[r.Intn(len(alpha))]))
			case x == 2 && len(flagged) > 0:
				b.WriteString(ascii[r.Intn(len(ascii))])
				b.WriteRune(flagged[r.Intn(len(flagged))])
				b.WriteString(ascii[r.Intn(len(ascii))])
			default:
				b.WriteString(ascii[r.Intn(len(ascii))])
			}
		}
		paths := pStr | pBytes
		if i%4 == 0 {
			paths = pAll
		}
		if f := c.check(b.String(), paths); f != nil {
			report("words: joiner texts", c, f, paths)
		}
	}
}

func propJoiners() {
	loadJoiners()
	rng := rand.New(rand.NewSource(subSeed("joiners", 0)))
	// 1. everything that can be told apart, every flag on every kind
	for round := 0; round < pickN(1, 4); round++ {
		cfg := withoutLineBreaks(fullCfg(rng, 1))
		s := segJoiners(cfg, false)
		suiteShort(s, 2, pickN(2, 6))
		suiteShort(s, 3, pickN(2, 8))
		suiteStates(s, 1)
		suiteStates(s, 2)
		suitePump(s, []int{2, 3, 5, 8, 17, 33, 65}, false, false)
		suiteSweepASCII(s)
		suiteBlocks(s, pickN(60, 600))
		suiteLoops(s, []int{128, 255, 256, 512, 1024, 4096, 16384, 65536, 131072}, pickN(2000, 20000))
		suiteGiants(s, pickN(24, 100))
		suiteRandom(s, pickN(100000, 800000), 60)
		if round == 0 {
			traceSeg(s, "w", pickN(6000, 60000))
			suiteSweepPlain(s)
			if thorough() {
				suiteShort(s, 4, 1)
			}
		}
		n := segJoiners(cfg, true)
		suiteShort(n, 2, 1)
		suiteStates(n, 1)
		suiteRandom(n, pickN(40000, 300000), 60)
	}
	// the code points an implementation may single out, some of them flagged
	for round := 0; round < pickN(2, 6); round++ {
		s := segJoiners(withoutLineBreaks(notableCfg(rng)), false)
		suiteNotable(s)
		suiteEverywhere(s, pickN(64, 32))
		suiteLiterals(s, pickN(100000, 1000000))
	}
	// 2. many configurations, typical and odd ones
	fixed := []joinCfg{
		{}, {Nil: true}, {Middle: []rune{}, Leading: []rune{}},
		{Middle: []rune("@-/"), Leading: []rune("#.")}, {Middle: []rune{' '}}, {Leading: []rune{' '}}, {Leading: []rune{'a', '1'}},
		{Middle: []rune{'a', '1'}}, {Middle: []rune{0x1F1E6}, Leading: []rune{0x1F1E7}}, {Middle: []rune{0x301}, Leading: []rune{0x301}},
		{Middle: []rune{'.', '\''}}, {Leading: []rune{'.'}}, {Middle: []rune{0x200D}, Leading: []rune{0x1F1E6}},
		{Middle: []rune{0xFFFD}, Leading: []rune{0xFFFD}}, {Middle: []rune{-1, 0xD800, 0x110000}, Leading: []rune{-1, 0xDFFF}},
	}
	nc := pickN(120, 1200)
	name := "words: joiner configurations"
	parallel(name, func(w int, r *rand.Rand) int64 {
		var n int64
		for i := w; i < nc+len(fixed) && !stopped(); i += nWorkers {
			var cfg joinCfg
			if i < len(fixed) {
				cfg = fixed[i]
			} else {
				cfg = randomCfg(r)
				if i%5 == 4 { // as many as a constant of the code
					cfg.Leading = padTo(r, cfg.Leading)
				}
				if i%5 > 2 {
					cfg.Middle = padTo(r, cfg.Middle)
				}
				cfg = withoutLineBreaks(cfg)
			}
			s := segJoiners(cfg, i%4 == 3)
			c := newChecker(s)
			suiteJoinerTexts(s, cfg, pickN(1500, 3000), r, c)
			if i < 20 || i%8 == 0 {
				b := make([]byte, 0, 3)
				for x := 0; x < 128; x++ {
					for y := 0; y < 128; y++ {
						b = append(b[:0], byte(x), byte(y))
						if f := c.check(string(b), pStr|pBytes); f != nil {
							report(name, c, f, pStr|pBytes)
						}
						b = append(b, 'a')
						if f := c.check(string(b), pStr); f != nil {
							report(name, c, f, pStr)
						}
					}
				}
			}
			n += c.runs
		}
		return n
	})
}

// every code point once, unflagged or not, between letters and at the start
func suiteSweepPlain(s *seg) {
	name := "words: every code point under joiners"
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
			if isSurrogate(cp) {
				continue
			}
			for _, t := range []string{"a" + string(rune(cp)) + "a", "1" + string(rune(cp)) + "1", string(rune(cp)) + "a"} {
				if f := c.check(t, pStr); f != nil {
					report(name, c, f, pStr)
				}
			}
		}
		return c.runs
	})
}

func init() {
	props["C14"] = propJoiners
	replayers["C14"] = func(f *failure, raw map[string]json.RawMessage) {
		loadJoiners()
		var cfg joinCfg
		json.Unmarshal(raw["extra"], &cfg)
		for _, named := range []bool{false, true} {
			c := newChecker(segJoiners(cfg, named))
			res.count("replay", 1)
			if g := c.check(f.Text, pAll); g != nil {
				g.Suite = "replay"
				res.fail(g)
			}
		}
	}
}
