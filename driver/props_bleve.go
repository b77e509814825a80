package main

// C16: the Bleve-compatible classifiers

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"
)

type classifier struct {
	a     *acceptor
	kind  []uint8
	alpha []uint8
	reps  [][]rune
	funcs []func([]byte) bool
	names []string
}

func (c *classifier) fill(skip map[rune]bool) {
	c.reps = make([][]rune, len(c.a.syms))
	for r := 0; r < 0x110000; r++ {
		if !isSurrogate(r) && !skip[rune(r)] {
			k := c.kind[r]
			c.reps[k] = append(c.reps[k], rune(r))
		}
	}
	c.alpha = nil
	for k := range c.reps {
		if len(c.reps[k]) > 0 {
			c.alpha = append(c.alpha, uint8(k))
		}
	}
	c.a.reach(c.alpha)
}

func (c *classifier) pick(r *rand.Rand, k uint8) rune {
	a := c.reps[k]
	switch r.Intn(6) {
	case 0:
		return a[0]
	case 1:
		return a[len(a)-1]
	}
	return a[r.Intn(len(a))]
}
func (c *classifier) text(r *rand.Rand, w []uint8) string {
	var b strings.Builder
	for _, k := range w {
		b.WriteRune(c.pick(r, k))
	}
	return b.String()
}

func (c *classifier) call(i int, t string) (v bool, e string) {
	defer func() {
		if x := recover(); x != nil {
			e = fmt.Sprintf("panics: %v", x)
		}
	}()
	b := withTail(nil, t, len(t)*7+i) // a token is mostly a part of a text
	v = c.funcs[i](b)
	if string(b) != t {
		e = "changes its argument"
	}
	return
}

// check compares the classifiers with the state that the token leads to
func (c *classifier) check(suite, t string, st int) *failure {
	for i := range c.funcs {
		v, e := c.call(i, t)
		if e != "" {
			return &failure{Suite: suite, Path: c.names[i], What: e, Text: t}
		}
		if v != c.a.out[st][i] {
			return &failure{Suite: suite, Path: c.names[i], What: fmt.Sprintf("returns %v, want %v", v, c.a.out[st][i]), Text: t}
		}
	}
	return nil
}

func (c *classifier) ofText(t string) int {
	s := c.a.init
	for _, r := range t {
		s = int(c.a.next[s][c.kind[r]])
	}
	return s
}

// fail shrinks by dropping code points
func (c *classifier) fail(f *failure) {
	for changed := true; changed; {
		changed = false
		rs := []rune(f.Text)
		if len(rs) > 400 {
			break
		}
		for i := range rs {
			t := string(rs[:i]) + string(rs[i+1:])
			if t == "" {
				continue
			}
			if g := c.check(f.Suite, t, c.ofText(t)); g != nil {
				f, changed = g, true
				break
			}
		}
	}
	res.fail(f)
}

func loadBleve() *classifier {
	c := &classifier{a: loadAcceptor("BleveTable", 2),
		funcs: []func([]byte) bool{words.BleveNumeric, words.BleveIdeographic}, names: []string{"BleveNumeric", "BleveIdeographic"}}
	ideo := make([]bool, 0x110000)
	for _, r := range loadRanges(data("ideographic")) {
		for x := r.Lo; x <= r.Hi; x++ {
			ideo[x] = true
		}
	}
	name := make([]string, 0x110000)
	for _, r := range loadRanges(data("word")) {
		for x := r.Lo; x <= r.Hi; x++ {
			name[x] = r.K
		}
	}
	c.kind = make([]uint8, 0x110000)
	for x := range c.kind {
		n := name[x]
		if n == "" {
			n = "Other"
		}
		if ideo[x] {
			n += "+i"
		}
		k, ok := c.a.symIdx[n]
		if !ok {
			fatal("no symbol %s", n)
		}
		c.kind[x] = uint8(k)
	}
	c.fill(nil)
	return c
}

// sweep puts every code point into contexts that tell the symbols apart.  A code point that
// behaves throughout as if it were not an ideograph is reported by range.
func (c *classifier) sweep(suite string) map[rune]bool {
	ctxs := c.a.contexts(c.alpha)
	for _, p := range c.a.access {
		ctxs = append(ctxs, [2][]uint8{p, nil})
	}
	res.info("contexts in which every code point is put", len(ctxs))
	plain := make([]int, len(c.a.syms))
	for k, n := range c.a.syms {
		plain[k] = -1
		if strings.HasSuffix(n, "+i") {
			plain[k] = c.a.symIdx[strings.TrimSuffix(n, "+i")]
		}
	}
	var mu sync.Mutex
	missing := map[rune]bool{}
	parallel(suite, func(w int, r *rand.Rand) int64 {
		var n int64
		for x := w; x < 0x110000 && !stopped(); x += nWorkers {
			if isSurrogate(x) {
				continue
			}
			k := c.kind[x]
			var bad *failure
			asPlain := plain[k] >= 0
			for _, cx := range ctxs {
				pre, suf := c.text(r, cx[0]), c.text(r, cx[1])
				// the neighbours may be among those the library does not know
				for try := 0; try < 20 && c.odd(pre+suf); try++ {
					pre, suf = c.text(r, cx[0]), c.text(r, cx[1])
				}
				t := pre + string(rune(x)) + suf
				n++
				b := c.a.run(c.a.init, cx[0])
				if f := c.check(suite, t, c.a.run(int(c.a.next[b][k]), cx[1])); f != nil {
					bad = f
				}
				if asPlain && c.check(suite, t, c.a.run(int(c.a.next[b][plain[k]]), cx[1])) != nil {
					asPlain = false
				}
			}
			if bad != nil {
				if asPlain {
					mu.Lock()
					missing[rune(x)] = true
					mu.Unlock()
				} else {
					c.fail(bad)
				}
			}
		}
		return n
	})
	return missing
}

// odd: some ideograph in t alone is not classified as one
func (c *classifier) odd(t string) bool {
	for _, r := range t {
		if strings.HasSuffix(c.a.syms[c.kind[r]], "+i") {
			if v, e := c.call(1, string(r)); e != "" || !v {
				return true
			}
		}
	}
	return false
}

func reportMissing(missing map[rune]bool) {
	for x := rune(0); x < 0x110000; x++ {
		if !missing[x] {
			continue
		}
		lo := x
		for missing[x+1] {
			x++
		}
		t := string(lo)
		res.fail(&failure{Path: "BleveIdeographic", Suite: "every code point", What: fmt.Sprintf("U+%04X..U+%04X are not recognised as ideographs", lo, x),
			Group: fmt.Sprintf("U+%04X..U+%04X", lo, x), Text: t})
	}
}

func (c *classifier) words(suite string, L, variants int) {
	for n := 1; n <= L; n++ {
		n := n
		parallel(fmt.Sprintf("%s, length %d", suite, n), func(w int, r *rand.Rand) int64 {
			var runs int64
			forEachWord(c.alpha, n, w, nWorkers, func(word []uint8) bool {
				st := c.a.run(c.a.init, word)
				for v := 0; v < variants; v++ {
					runs++
					if f := c.check(suite, c.text(r, word), st); f != nil {
						c.fail(f)
					}
				}
				return !stopped()
			})
			return runs
		})
	}
}

func (c *classifier) long(suite string, n, maxLen int) {
	// symbols that keep some classifier undecided, by state
	live := make([][]uint8, len(c.a.states))
	dead := func(s int) bool {
		for _, k := range c.alpha {
			if int(c.a.next[s][k]) != s {
				return false
			}
		}
		return true
	}
	for s := range live {
		for _, k := range c.alpha {
			if !dead(int(c.a.next[s][k])) {
				live[s] = append(live[s], k)
			}
		}
	}
	parallel(suite, func(w int, r *rand.Rand) int64 {
		var runs int64
		for i := w; i < n && !stopped(); i += nWorkers {
			l := 1 + r.Intn(maxLen)
			var word []uint8
			s := c.a.init
			for len(word) < l {
				k := c.alpha[r.Intn(len(c.alpha))]
				if len(live[s]) > 0 && r.Intn(60) > 0 {
					k = live[s][r.Intn(len(live[s]))]
				}
				word = append(word, k)
				s = int(c.a.next[s][k])
			}
			runs++
			if f := c.check(suite, c.text(r, word), s); f != nil {
				c.fail(f)
			}
		}
		return runs
	})
}

func (c *classifier) pump(suite string, sizes []int) {
	parallel(suite, func(w int, r *rand.Rand) int64 {
		var runs int64
		i := 0
		for _, acc := range c.a.access {
			for _, x := range c.alpha {
				for _, y := range append([]int{-1}, ints(c.alpha)...) {
					i++
					if i%nWorkers != w || stopped() {
						continue
					}
					for _, size := range sizes {
						word := append([]uint8{}, acc...)
						for j := 0; j < size; j++ {
							word = append(word, x)
							if y >= 0 {
								word = append(word, uint8(y))
							}
						}
						base := c.text(r, word)
						for _, z := range append([]int{-1}, ints(c.alpha)...) {
							ww, t := word, base
							if z >= 0 {
								ww = append(append([]uint8{}, word...), uint8(z))
								t += string(c.pick(r, uint8(z)))
							}
							runs++
							if f := c.check(suite, t, c.a.run(c.a.init, ww)); f != nil {
								c.fail(f)
							}
						}
					}
				}
			}
		}
		return runs
	})
}

// pumpLong: one or two symbols repeated very often
func (c *classifier) pumpLong(suite string, sizes []int, n int) {
	parallel(suite, func(w int, r *rand.Rand) int64 {
		var runs int64
		for i := w; i < n && !stopped(); i += nWorkers {
			acc := c.a.access[r.Intn(len(c.a.access))]
			x := uint8(c.alpha[r.Intn(len(c.alpha))])
			y := x
			if r.Intn(2) == 0 {
				y = uint8(c.alpha[r.Intn(len(c.alpha))])
			}
			word := append([]uint8{}, acc...)
			for size := sizes[r.Intn(len(sizes))]; size > 0; size-- {
				word = append(word, x, y)
			}
			for k := r.Intn(3); k > 0; k-- {
				word = append(word, uint8(c.alpha[r.Intn(len(c.alpha))]))
			}
			lap := c.text(r, []uint8{x, y})
			t := c.text(r, acc) + strings.Repeat(lap, (len(word)-len(acc))/2)
			if r.Intn(2) == 0 || (len(word)-len(acc))%2 != 0 {
				t = c.text(r, word)
			} else {
				word = word[:len(acc)+(len(word)-len(acc))/2*2]
				for j := len(acc); j < len(word); j += 2 {
					word[j], word[j+1] = x, y
				}
			}
			runs++
			if f := c.check(suite, t, c.a.run(c.a.init, word)); f != nil {
				c.fail(f)
			}
		}
		return runs
	})
}

func ints(a []uint8) (out []int) {
	for _, x := range a {
		out = append(out, int(x))
	}
	return
}

// illFormed: any bytes; the classifiers return
func (c *classifier) illFormed(suite string, n int) {
	u := loadUtf8()
	shapes := u.shapes(2)
	parallel(suite, func(w int, r *rand.Rand) int64 {
		var runs int64
		sl := newSlot()
		at := ""
		for i := w; i < n && !stopped(); i += nWorkers {
			t := u.instance(r, shapes[i%len(shapes)])
			if i%2 == 1 {
				var word []uint8
				for j := r.Intn(6); j >= 0; j-- {
					word = append(word, c.alpha[r.Intn(len(c.alpha))])
				}
				t = c.text(r, word) + t
				if i%4 == 1 {
					t = t[:len(t)-1-r.Intn(min2(3, len(t)))]
				}
			}
			runs++
			for j := range c.funcs {
				at = c.names[j]
				sl.watch(c.names[j], &at, t, nil)
				_, e := c.call(j, t)
				sl.unwatch()
				if e != "" {
					res.fail(&failure{Suite: suite, Path: c.names[j], What: e, Text: t})
				}
			}
		}
		return runs
	})
}

func (c *classifier) trace(name string, n int) {
	t := newTracer(name)
	if t == nil {
		return
	}
	r := rand.New(rand.NewSource(subSeed("trace "+name, 0)))
	emit := func(text string) {
		var w [][]string
		for _, x := range text {
			k := c.a.syms[c.kind[x]]
			f := "-"
			if strings.HasSuffix(k, "+i") {
				k, f = strings.TrimSuffix(k, "+i"), "i"
			}
			w = append(w, []string{k, f})
		}
		num, e1 := c.call(0, text)
		ideo, e2 := c.call(1, text)
		if e1 != "" || e2 != "" {
			return
		}
		t.emit(ev{"e": "start", "hex": fmt.Sprintf("%x", text), "w": w, "num": num, "ideo": ideo})
	}
	// real tokens of the segmenter, and words of the acceptor
	good := func(text string) string {
		var b strings.Builder
		for _, x := range text {
			if len(c.reps[c.kind[x]]) > 0 {
				b.WriteRune(x)
			}
		}
		return b.String()
	}
	for t.n < n {
		s := c.a.init
		var word []uint8
		for j := r.Intn(10); j >= 0; j-- {
			k := c.alpha[r.Intn(len(c.alpha))]
			for try := 0; try < 6 && !c.a.out[c.a.next[s][k]][0] && !c.a.out[c.a.next[s][k]][1]; try++ {
				k = c.alpha[r.Intn(len(c.alpha))]
			}
			word = append(word, k)
			s = int(c.a.next[s][k])
		}
		text := good(c.text(r, word))
		emit(text)
		it := words.FromString(text)
		for it.Next() {
			emit(it.Value())
		}
	}
	t.close()
}

func init() {
	props["C16"] = func() {
		c := loadBleve()
		missing := c.sweep("every code point")
		reportMissing(missing)
		c.fill(missing)
		c.words("every word of symbols", pickN(4, 4), pickN(1, 4))
		c.long("long tokens", pickN(200000, 3000000), 60)
		c.pump("repetition", []int{1, 2, 7, pickN(40, 200)})
		c.pumpLong("long repetition", []int{64, 128, 256, 500, 512, 1024, 2048, 5000, 35000}, pickN(4000, 60000))
		c.pumpLong("tokens of megabytes", []int{100000, 300000, 1 << 18, 1 << 20}, pickN(24, 160))
		if more := litSizes(litSmall, 1<<20); len(more) > 0 {
			c.pumpLong("constants of the code as lengths", more, pickN(3000, 20000))
		}
		c.illFormed("ill-formed tokens return", pickN(200000, 2000000))
		c.trace("BleveTrace-calls", pickN(4000, 20000))
	}
	replayers["C16"] = func(f *failure, _ map[string]json.RawMessage) {
		c := loadBleve()
		if !utf8.ValidString(f.Text) {
			for i := range c.funcs {
				if _, e := c.call(i, f.Text); e != "" {
					res.fail(&failure{Path: c.names[i], What: e, Text: f.Text})
				}
			}
			return
		}
		if g := c.check("replay", f.Text, c.ofText(f.Text)); g != nil {
			res.fail(g)
		}
	}
}
