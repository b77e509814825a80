package main

// Test suites derived from the TLC transducers: which texts are run.  The expected result
// always comes from the transducer (checker.oracle).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// edge representatives: first and last code point, ASCII ones, one per UTF-8 length
func (s *seg) edgeReps(k int) []rune {
	all := s.reps[k]
	if len(all) == 0 {
		return nil
	}
	var out []rune
	add := func(r rune) {
		for _, x := range out {
			if x == r {
				return
			}
		}
		out = append(out, r)
	}
	wid := map[int]bool{}
	for _, r := range all {
		if r < 0x80 && len(out) < 6 {
			add(r)
		}
		if w := utf8.RuneLen(r); !wid[w] {
			wid[w] = true
			add(r)
		}
	}
	add(all[len(all)-1])
	return out
}

// picker chooses code points for kinds.  Its style makes whole texts alike: implementations have
// fast paths for ASCII, or for one script, which texts of unrelated code points hardly enter.
type picker struct {
	s     *seg
	edges [][]rune
	style int  // 0: a new style for every text; else one of the below
	home  rune // styleHome: first code point of a block of 64
}

const (
	styleAny = 1 + iota
	styleASCII
	styleHome
)

func (s *seg) picker() *picker {
	s.once.Do(func() {
		p := &picker{s: s}
		for k := range s.reps {
			p.edges = append(p.edges, s.edgeReps(k))
		}
		s.pick = p
	})
	return s.pick
}

// styled: a picker for texts of one style
func (p *picker) styled(r *rand.Rand) *picker {
	if p.style != 0 {
		return p
	}
	q := *p
	switch x := r.Intn(8); {
	case x < 4:
		q.style = styleAny
	case x < 6:
		q.style = styleASCII
	default:
		q.style = styleHome
		k := r.Intn(len(p.s.reps))
		for len(p.s.reps[k]) == 0 {
			k = r.Intn(len(p.s.reps))
		}
		q.home = p.s.reps[k][r.Intn(len(p.s.reps[k]))] &^ 63
		if r.Intn(3) == 0 {
			q.home = 0x80 + rune(r.Intn(30))*64
		}
	}
	return &q
}

// in: the code points of kind k in [lo, hi)
func (p *picker) in(k uint8, lo, hi rune) []rune {
	a := p.s.reps[k]
	i := sort.Search(len(a), func(i int) bool { return a[i] >= lo })
	j := sort.Search(len(a), func(i int) bool { return a[i] >= hi })
	return a[i:j]
}

func (p *picker) pick(r *rand.Rand, k uint8) rune {
	switch p.style {
	case styleASCII:
		if a := p.in(k, 0, 0x80); len(a) > 0 && r.Intn(10) != 0 {
			return a[r.Intn(len(a))]
		}
	case styleHome:
		if r.Intn(10) != 0 {
			if a := p.in(k, p.home, p.home+64); len(a) > 0 && r.Intn(3) != 0 {
				return a[r.Intn(len(a))]
			}
			if a := p.in(k, 0, 0x80); len(a) > 0 {
				return a[r.Intn(len(a))]
			}
		}
	}
	if r.Intn(5) < 2 {
		e := p.edges[k]
		return e[r.Intn(len(e))]
	}
	a := p.s.reps[k]
	return a[r.Intn(len(a))]
}
func (p *picker) first(k uint8, i int) rune {
	e := p.edges[k]
	return e[i%len(e)]
}
func (p *picker) text(r *rand.Rand, w []uint8) string {
	if p.style == 0 {
		p = p.styled(r)
	}
	var b strings.Builder
	for _, k := range w {
		b.WriteRune(p.pick(r, k))
	}
	return b.String()
}

// usable symbols: those with a representative
func (s *seg) alphabet() []uint8 {
	var a []uint8
	for k := range s.reps {
		if len(s.reps[k]) > 0 {
			a = append(a, uint8(k))
		}
	}
	return a
}

type reporter struct {
	suite string
	c     *checker
}

func report(suite string, c *checker, f *failure, paths int) {
	f.Suite = suite
	g := shrink(c, f, paths)
	g.Suite = suite
	res.fail(g)
}

// shrink removes code points while the text still fails
func shrink(c *checker, f *failure, paths int) *failure {
	if c.s.m == nil || f.What == "does not terminate" {
		return f
	}
	best := f
	budget := 3000
	if len(f.Text) > 200000 {
		budget = 60
	}
	for size := len(f.Text) / 2; size >= 1; {
		improved := false
		rs := []rune(best.Text)
		if size > len(rs) {
			size = len(rs)
		}
		if size == 0 {
			break
		}
		for i := 0; i+size <= len(rs) && budget > 0; {
			cand := string(rs[:i]) + string(rs[i+size:])
			budget--
			if g := c.check(cand, paths|pFresh); g != nil {
				best = g
				rs = []rune(cand)
				improved = true
			} else {
				i += size
			}
		}
		if budget <= 0 {
			break
		}
		if size == 1 {
			if !improved {
				break
			}
			continue
		}
		size /= 2
	}
	return best
}

func forEachWord(alpha []uint8, n int, w, of int, f func([]uint8) bool) {
	total := 1
	for i := 0; i < n; i++ {
		total *= len(alpha)
	}
	buf := make([]uint8, n)
	for x := w; x < total; x += of {
		y := x
		for i := 0; i < n; i++ {
			buf[i] = alpha[y%len(alpha)]
			y /= len(alpha)
		}
		if !f(buf) {
			return
		}
	}
}

// all words of length 1..L over the kinds, `variants' choices of code points each
func suiteShort(s *seg, L, variants int) {
	p := s.picker()
	alpha := s.alphabet()
	name := fmt.Sprintf("%s: every kind sequence of length <= %d", s.name, L)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for n := 1; n <= L; n++ {
			v := variants
			if n == 1 {
				v = 30
			} else if n == 2 {
				v = variants * 4
			}
			forEachWord(alpha, n, w, nWorkers, func(word []uint8) bool {
				for j := 0; j < v; j++ {
					paths := pStr | pSplit
					if j%3 == 1 || n <= 2 {
						paths |= pBytes
					}
					if j == 0 && (n <= 3) {
						paths = pAll
					}
					t := p.text(r, word)
					if f := c.check(t, paths); f != nil {
						report(name, c, f, paths)
					}
				}
				return !stopped()
			})
		}
		return c.runs
	})
}

// W-method: reach every state, apply every word of length <= k, then every characterising word
func suiteStates(s *seg, k int) {
	p := s.picker()
	alpha := s.alphabet()
	mn := s.mn
	has := map[uint8]bool{}
	for _, a := range alpha {
		has[a] = true
	}
	usable := func(w []uint8) bool {
		for _, x := range w {
			if !has[x] {
				return false
			}
		}
		return true
	}
	name := fmt.Sprintf("%s: every state x every %d kinds x characterising suffix", s.name, k)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		i := 0
		for _, a := range mn.access {
			if !usable(a) {
				continue
			}
			forEachWord(alpha, k, 0, 1, func(mid []uint8) bool {
				i++
				if i%nWorkers != w {
					return true
				}
				for _, suf := range mn.w {
					if !usable(suf) {
						continue
					}
					word := append(append(append([]uint8{}, a...), mid...), suf...)
					if f := c.check(p.text(r, word), pStr|pSplit); f != nil {
						report(name, c, f, pStr|pSplit)
					}
				}
				return !stopped()
			})
		}
		return c.runs
	})
}

// pumping: reach every state, go round every loop of length 1 and 2 many times, then look
func suitePump(s *seg, sizes []int, pairs bool, sufAll bool) {
	p := s.picker()
	alpha := s.alphabet()
	mn := s.mn
	m := s.m
	has := map[uint8]bool{}
	for _, a := range alpha {
		has[a] = true
	}
	type job struct{ a, loop []uint8 }
	var jobs []job
	for ci, a := range mn.access {
		ok := true
		for _, x := range a {
			ok = ok && has[x]
		}
		if !ok {
			continue
		}
		st := mn.rep[ci]
		// a loop may be entered after one lap
		for _, x := range alpha {
			s1 := int(m.t[st][x].next)
			s2 := int(m.t[s1][x].next)
			if mn.class[s1] == mn.class[st] || mn.class[s2] == mn.class[s1] || mn.class[s2] == mn.class[st] {
				jobs = append(jobs, job{a, []uint8{x}})
			}
			if !pairs {
				continue
			}
			for _, y := range alpha {
				t2 := int(m.t[s1][y].next)
				if x != y && mn.class[t2] == mn.class[st] {
					jobs = append(jobs, job{a, []uint8{x, y}})
				}
			}
		}
	}
	name := fmt.Sprintf("%s: every state x loop pumped up to %d times x suffix", s.name, sizes[len(sizes)-1])
	sufs := mn.w
	if sufAll {
		sufs = nil
		for _, x := range alpha {
			sufs = append(sufs, []uint8{x})
		}
	}
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for ji := w; ji < len(jobs); ji += nWorkers {
			j := jobs[ji]
			for _, n := range sizes {
				p := p.styled(r)
				lap := p.text(r, j.loop)
				if n <= 40 {
					lap = ""
				}
				var body string
				if lap == "" {
					var b strings.Builder
					for i := 0; i < n; i++ {
						b.WriteString(p.text(r, j.loop))
					}
					body = b.String()
				} else {
					body = strings.Repeat(lap, n)
				}
				pre := p.text(r, j.a)
				for _, suf := range sufs {
					ok := true
					for _, x := range suf {
						ok = ok && has[x]
					}
					if !ok {
						continue
					}
					paths := pStr | pSplit
					if f := c.check(pre+body+p.text(r, suf), paths); f != nil {
						report(name, c, f, paths)
					}
					if stopped() {
						return c.runs
					}
				}
			}
		}
		return c.runs
	})
}

// loopTexts makes texts with very long tokens: a random loop of up to five kinds in a random state,
// gone round until the text has about one of the sizes (in bytes), behind a random prefix, before a
// random suffix
type loopTexts struct {
	s      *seg
	p      *picker
	alpha  []uint8
	has    map[uint8]bool
	states []int
	open   []int // those in which a boundary is undecided
	sizes  []int
	sure   bool // only loops in which every boundary is decided at once
	look   bool // only loops in which none is decided, and each lap is looked at once
}

func newLoopTexts(s *seg, sizes []int) *loopTexts {
	return loopsOf(s, sizes, false)
}

func loopsOf(s *seg, sizes []int, sure bool) *loopTexts {
	l := &loopTexts{s: s, p: s.picker(), alpha: s.alphabet(), has: map[uint8]bool{}, sizes: sizes, sure: sure}
	for _, a := range l.alpha {
		l.has[a] = true
	}
	for ci, a := range s.mn.access {
		if l.canMake(a) {
			l.states = append(l.states, ci)
			if len(l.deciding(ci, pendJ)) > 0 {
				l.open = append(l.open, ci)
			}
		}
	}
	return l
}

// deciding: the kinds which decide the open boundary so
func (l *loopTexts) deciding(ci int, how uint8) (ks []uint8) {
	for _, x := range l.alpha {
		if l.s.m.t[l.s.mn.rep[ci]][x].pend == how {
			ks = append(ks, x)
		}
	}
	return
}

func (l *loopTexts) canMake(w []uint8) bool {
	for _, x := range w {
		// behind a full stop, the library looks ahead from every space
		if !l.has[x] || l.sure && l.s.m.syms[x] == "ATerm" {
			return false
		}
	}
	return true
}

// again: does the library look ahead anew at each of these
func (l *loopTexts) again(w []uint8) bool {
	for _, x := range w {
		if n := l.s.m.syms[x]; n == "ATerm" || n == "Sp" || n == "Close" {
			return true
		}
	}
	return false
}

func (l *loopTexts) text(r *rand.Rand) string {
	s, p, alpha, sizes := l.s, l.p.styled(r), l.alpha, l.sizes
	mn, m := s.mn, s.m
	for {
		ci := l.states[r.Intn(len(l.states))]
		open := l.look || len(l.open) > 0 && r.Intn(3) == 0 && !l.sure
		if open {
			ci = l.open[r.Intn(len(l.open))]
		}
		var loop []uint8
		for try := 0; try < 400 && loop == nil; try++ {
			k := 1 + r.Intn(5)
			st := mn.rep[ci]
			var w []uint8
			for j := 0; j < k; j++ {
				x := alpha[r.Intn(len(alpha))]
				w = append(w, x)
				if open && m.t[st][x].pend != pendNone || l.sure && (m.t[st][x].pend != pendNone || m.t[st][x].here == outP) {
					w = nil
					break
				}
				st = int(m.t[st][x].next)
			}
			if len(w) == 0 || !l.canMake(w) || l.look && l.again(w) {
				continue
			}
			if mn.class[st] == mn.class[mn.rep[ci]] {
				loop = w
			}
		}
		if loop == nil {
			continue
		}
		size := sizes[r.Intn(len(sizes))]
		lap := p.text(r, loop)
		// the length of the whole, or the number of laps, hits the size about exactly
		laps := size
		if r.Intn(2) == 0 {
			laps = size/len(lap) + r.Intn(3) - 1
		}
		if m := sizes[len(sizes)-1] * 2; laps*len(lap) > m {
			laps = m / len(lap)
		}
		if laps < 1 {
			laps = 1
		}
		pre := p.text(r, mn.access[ci])
		if b := s.randomWord(r, alpha, 8, nil); r.Intn(3) == 0 && l.canMake(b) {
			pre = p.text(r, b) + pre
		}
		suf := s.randomWord(r, alpha, 6, nil)
		if r.Intn(2) == 0 {
			suf = mn.w[r.Intn(len(mn.w))]
		}
		if open && r.Intn(3) != 0 {
			ks := l.deciding(ci, pendJ)
			suf = append([]uint8{ks[r.Intn(len(ks))]}, suf...)
		}
		if l.canMake(suf) {
			return pre + strings.Repeat(lap, laps) + p.text(r, suf)
		}
	}
}

func suiteLoops(s *seg, sizes []int, n int) {
	l := newLoopTexts(s, sizes)
	name := fmt.Sprintf("%s: random loops of up to five kinds repeated up to %d bytes", s.name, sizes[len(sizes)-1])
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for i := w; i < n && !stopped(); i += nWorkers {
			paths := pStr | pSplit
			if i%4 == 0 {
				paths = pStr | pBytes | pSplit
			}
			if f := c.check(l.text(r), paths); f != nil {
				report(name, c, f, paths)
			}
		}
		return c.runs
	})
}

// suiteGiants: tokens of megabytes, or as many short ones, where a boundary needs no look-ahead (which
// the library may look for again and again), and look-aheads of megabytes
func suiteGiants(s *seg, n int) {
	giants(loopsOf(s, giantSizes(), true), n, "loops")
	l := newLoopTexts(s, giantSizes())
	if l.look = len(l.open) > 0; l.look {
		giants(l, n/2, "loops in look-aheads")
	}
}

func giants(l *loopTexts, n int, what string) {
	s := l.s
	name := fmt.Sprintf("%s: %s repeated up to %d bytes", s.name, what, l.sizes[len(l.sizes)-1])
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for i := w; i < n && !stopped(); i += nWorkers {
			paths := pStr | pSplit
			if i%4 == 0 {
				paths = pStr | pBytes | pSplit
			}
			t := l.text(r)
			if f := c.check(t, paths); f != nil {
				report(name, c, f, paths)
				break
			}
		}
		return c.runs
	})
}

func giantSizes() []int {
	if thorough() {
		return []int{1 << 19, 1000000, 1 << 20, 1<<20 + 1, 1 << 21, 5000000, 1 << 23, 10000000, 1 << 24, 1<<24 + 1}
	}
	return []int{1 << 18, 300000, 1 << 19, 1000000, 1 << 20, 1<<20 + 1, 1 << 21}
}

// every code point in contexts that tell any two kinds apart
func suiteSweep(s *seg, reps int) {
	p := s.picker()
	ctxs := s.mn.contexts(nil)
	name := fmt.Sprintf("%s: every code point x %d distinguishing contexts", s.name, len(ctxs))
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for cp := w; cp < 0x110000; cp += nWorkers {
			if isSurrogate(cp) {
				continue
			}
			for i, x := range ctxs {
				for v := 0; v < reps; v++ {
					t := p.text(r, x[0]) + string(rune(cp)) + p.text(r, x[1])
					paths := pStr | pSplit
					if (cp/nWorkers+i)%16 == 0 {
						paths = pStr | pBytes | pSplit | pScan
					}
					if f := c.check(t, paths); f != nil {
						report(name, c, f, paths)
					}
				}
			}
			if stopped() {
				break
			}
		}
		return c.runs
	})
	res.mu.Lock()
	var list []string
	for _, x := range ctxs {
		list = append(list, s.m.word(x[0])+" <cp> "+s.m.word(x[1]))
	}
	res.Info[s.name+" sweep contexts"] = list
	res.mu.Unlock()
}

// every code point within ASCII, where fast paths end
func suiteSweepASCII(s *seg) {
	pres := []string{"", "a", "1", " ", "ab ", "A.", "a b"}
	sufs := []string{"", "a", "1", " a", ".", "\n", " "}
	name := fmt.Sprintf("%s: every code point in %d ASCII contexts", s.name, len(pres)*len(sufs))
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
			if isSurrogate(cp) {
				continue
			}
			some := 1
			if cp >= 0x30000 && cp&0xFF00 != 0xE0000 && !thorough() {
				some = 16
			}
			x := string(rune(cp))
			for i, pre := range pres {
				for j, suf := range sufs {
					if some > 1 && r.Intn(some) != 0 {
						continue
					}
					paths := pStr
					if (cp/nWorkers+i+j)%8 == 0 {
						paths = pBytes | pSplit
					}
					if f := c.check(pre+x+suf, paths); f != nil {
						report(name, c, f, paths)
					}
				}
			}
		}
		return c.runs
	})
}

// texts of ASCII and the code points of one block of 64 (the same lead bytes), for every block
func suiteBlocks(s *seg, n int) {
	name := fmt.Sprintf("%s: texts of ASCII and one block of 64 code points", s.name)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		var rs []rune
		for b := w; b < 0x110000/64 && !stopped(); b += nWorkers {
			if isSurrogate(b * 64) {
				continue
			}
			texts := n
			if b >= 0x30000/64 && b>>2 != 0xE0000>>8 && b&15 != 0 {
				texts = 1 + n/8
			}
			for i := 0; i < texts; i++ {
				rs = rs[:0]
				style := r.Intn(3)
				for l := 2 + r.Intn(16); l > 0; l-- {
					switch x := r.Intn(10); {
					case x < 3+style*2:
						a := "aZ09 .,'_\"-!?)(\n\rbcdefgh  "
						rs = append(rs, rune(a[r.Intn(len(a))]))
					case x < 9:
						rs = append(rs, rune(b*64+r.Intn(64)))
					default:
						rs = append(rs, rune(r.Intn(0x80)))
					}
				}
				paths := pStr | pSplit
				if i%4 == 0 {
					paths = pStr | pBytes
				}
				if f := c.check(string(rs), paths); f != nil {
					report(name, c, f, paths)
				}
			}
		}
		return c.runs
	})
}

// random long texts: a walk over kinds that likes to stay inside tokens
func suiteRandom(s *seg, n, maxLen int) {
	p := s.picker()
	alpha := s.alphabet()
	name := fmt.Sprintf("%s: random texts up to %d code points", s.name, maxLen)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		var word []uint8
		for i := w; i < n && !stopped(); i += nWorkers {
			word = s.randomWord(r, alpha, maxLen, word[:0])
			paths := pStr | pSplit
			switch i % 8 {
			case 0:
				paths = pAll
			case 1, 2, 3:
				paths |= pBytes
			}
			t := p.text(r, word)
			if f := c.check(t, paths); f != nil {
				report(name, c, f, paths)
			}
			if i < 3 {
				res.sample(fmt.Sprintf("%s %.60q -> token ends %v", s.name, t, head(c.want, 12)))
			}
		}
		return c.runs
	})
}

func head(a []int, n int) []int {
	if len(a) > n {
		a = a[:n]
	}
	return clone(a)
}

func (s *seg) randomWord(r *rand.Rand, alpha []uint8, maxLen int, word []uint8) []uint8 {
	L := 1 + r.Intn(maxLen)
	if r.Intn(3) == 0 {
		L = 1 + r.Intn(8)
	}
	// a random sub-alphabet makes long tokens and repeated interactions likely
	sub := alpha
	if r.Intn(4) != 0 {
		k := 2 + r.Intn(5)
		sub = make([]uint8, k)
		for i := range sub {
			sub[i] = alpha[r.Intn(len(alpha))]
		}
	}
	st := s.m.init
	for len(word) < L {
		k := sub[r.Intn(len(sub))]
		// prefer symbols that do not break
		for try := 0; try < 3 && s.m.t[st][k].here == outB && r.Intn(4) != 0; try++ {
			k = sub[r.Intn(len(sub))]
		}
		rep := 1
		if r.Intn(10) == 0 {
			rep = 1 + r.Intn(9)
		}
		for ; rep > 0; rep-- {
			word = append(word, k)
			st = int(s.m.t[st][k].next)
		}
	}
	return word
}

// all ASCII texts of length <= 3
func suiteASCII(s *seg) {
	name := s.name + ": every ASCII text of length <= 3"
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		b := make([]byte, 3)
		for a := w; a < 128; a += nWorkers {
			for x := -1; x < 128; x++ {
				for y := -1; y < 128; y++ {
					b = append(b[:0], byte(a))
					if x >= 0 {
						b = append(b, byte(x))
						if y >= 0 {
							b = append(b, byte(y))
						}
					} else if y >= 0 {
						continue
					}
					if f := c.check(string(b), pStr|pBytes); f != nil {
						report(name, c, f, pStr|pBytes)
					}
				}
			}
			if stopped() {
				break
			}
		}
		return c.runs
	})
}

// runs of ASCII letters, digits and spaces of many lengths, then up to two more kinds
func suiteRuns(s *seg, lens []int, post int) {
	p := s.picker()
	alpha := s.alphabet()
	name := s.name + ": ASCII runs then further kinds"
	shapes := []string{"a", "Z", "7", " ", "ab ", "a1", "1 ", "A.", "a  b"}
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		i := 0
		for _, n := range lens {
			for _, sh := range shapes {
				run := strings.Repeat(sh, n/len(sh)+1)[:n]
				for _, pre := range append([]uint8{255}, alpha...) {
					i++
					if i%nWorkers != w {
						continue
					}
					lead := ""
					if pre != 255 {
						if post > 1 && n > 8 {
							continue
						}
						lead = string(p.pick(r, pre))
					}
					for pl := 0; pl <= post; pl++ {
						if pre != 255 && pl > 1 {
							continue
						}
						forEachWord(alpha, pl, 0, 1, func(word []uint8) bool {
							t := lead + run + p.text(r, word)
							if f := c.check(t, pStr|pSplit|pBytes); f != nil {
								report(name, c, f, pStr|pSplit|pBytes)
							}
							return !stopped()
						})
					}
				}
			}
		}
		return c.runs
	})
}

// the same token content at many offsets: texts concatenated after a long prefix
func suiteOffsets(s *seg, n int) {
	p := s.picker()
	alpha := s.alphabet()
	name := s.name + ": long documents"
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		var word []uint8
		for i := w; i < n && !stopped(); i += nWorkers {
			target := 3000 << uint(r.Intn(7)) // 3 KB .. 192 KB
			if s.name == "sentences" && target > 50000 {
				target = 50000
			}
			var b strings.Builder
			for b.Len() < target {
				word = s.randomWord(r, alpha, 60, word[:0])
				b.WriteString(p.text(r, word))
				if r.Intn(3) == 0 {
					b.WriteString(strings.Repeat("lorem ipsum dolor sit amet 12 ", r.Intn(4)))
				}
			}
			paths := pStr | pBytes | pSplit | pScan
			if f := c.check(b.String(), paths); f != nil {
				report(name, c, f, paths)
			}
		}
		return c.runs
	})
}

// ------------------------------------------------------------------ shortcuts

// isHot: the characters the iterators take shortcuts for (HotPath.tla)
func (s *seg) isHot(r rune) bool {
	if s.name == "graphemes" {
		return r < 0x80
	}
	return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || '0' <= r && r <= '9' || r == ' '
}

// suiteHot runs the texts of HotPath.tla: every short mix of characters a shortcut knows with those
// it does not, at the start of a text and behind other tokens, the known runs short and long
func suiteHot(s *seg, variants int) {
	type sym struct {
		K string `json:"k"`
		H bool   `json:"h"`
	}
	type line struct {
		T   []sym  `json:"t"`
		E   int    `json:"e"`
		How string `json:"how"`
	}
	var lines []line
	hows := map[string]int{}
	eachPrinted(table("Hot-"+s.name), func(b []byte) {
		var l line
		if err := json.Unmarshal(b, &l); err != nil {
			fatal("HotPath: %v in %s", err, b)
		}
		lines = append(lines, l)
		hows[l.How]++
	})
	if len(lines) < 100 {
		fatal("HotPath: %d texts", len(lines))
	}
	res.info(s.name+" shortcuts: texts by what finds the first token", hows)
	hot, cold := make([][]rune, len(s.reps)), make([][]rune, len(s.reps))
	for k, all := range s.reps {
		for _, r := range all {
			if s.isHot(r) {
				hot[k] = append(hot[k], r)
			} else if len(cold[k]) < 400 || r%97 == 0 {
				cold[k] = append(cold[k], r)
			}
		}
	}
	m := s.m
	name := fmt.Sprintf("%s: every mix of up to 3 characters with and without a shortcut", s.name)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		pick := func(y sym) rune {
			set := cold
			if y.H {
				set = hot
			}
			a := set[m.symIdx[y.K]]
			if len(a) == 0 {
				return -1
			}
			if !y.H && r.Intn(3) == 0 {
				if e := s.picker().pick(r, uint8(m.symIdx[y.K])); !s.isHot(e) {
					return e
				}
			}
			return a[r.Intn(len(a))]
		}
		laps := []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 300}
		for i := w; i < len(lines) && !stopped(); i += nWorkers {
			l := lines[i]
			for v := 0; v < variants; v++ {
				// as printed; the first token is that of the specification
				var b, long strings.Builder
				end, ok := 0, true
				lap := laps[r.Intn(len(laps))]
				for j, y := range l.T {
					x := pick(y)
					if x < 0 {
						ok = false
						break
					}
					b.WriteRune(x)
					if j+1 == l.E {
						end = b.Len()
					}
					long.WriteRune(x)
					if y.H {
						for n := 1; n < lap; n++ {
							long.WriteRune(pick(y))
						}
					}
				}
				if !ok {
					break
				}
				want := c.oracle(b.String())
				if len(want) == 0 || want[0] != end {
					fatal("HotPath and %s disagree on %q: %d, %v", s.name, b.String(), end, want)
				}
				for j, t := range []string{b.String(), long.String(), b.String() + long.String(), long.String() + b.String()} {
					paths := pStr | pBytes
					if v == 0 && j == 0 {
						paths = pAll
					}
					if f := c.check(t, paths); f != nil {
						report(name, c, f, paths)
					}
				}
			}
		}
		return c.runs
	})
}
