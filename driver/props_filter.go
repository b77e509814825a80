package main

// C19: the alphanumeric filter

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
)

type filterWorld struct {
	a     *acceptor
	plus  [256]int // class of a byte as symbols, without and with the flag
	minus [256]int
	alnum []bool
	byLen [5][2][]rune // code points by encoded length and answer
}

func loadFilter() *filterWorld {
	w := &filterWorld{a: loadAcceptor("FilterTable", 1), alnum: make([]bool, 0x110000)}
	for b := 0; b < 256; b++ {
		var ok1, ok2 bool
		w.minus[b], ok1 = w.a.symIdx[classOf(byte(b))]
		w.plus[b], ok2 = w.a.symIdx[classOf(byte(b))+"+"]
		if !ok1 || !ok2 {
			fatal("no symbol for byte %x", b)
		}
	}
	// the tables themselves, not the functions with their shortcuts
	for _, t := range []*unicode.RangeTable{unicode.L, unicode.N} {
		for _, r := range t.R16 {
			for x := int(r.Lo); x <= int(r.Hi); x += int(r.Stride) {
				w.alnum[x] = true
			}
		}
		for _, r := range t.R32 {
			for x := int(r.Lo); x <= int(r.Hi); x += int(r.Stride) {
				w.alnum[x] = true
			}
		}
	}
	for x := 0; x < 0x110000; x++ {
		if !isSurrogate(x) {
			n := utf8.RuneLen(rune(x))
			w.byLen[n][b2i(w.alnum[x])] = append(w.byLen[n][b2i(w.alnum[x])], rune(x))
		}
	}
	return w
}

// symbols of a token: the flag of a byte is what the well-formed unit ending there says
func (w *filterWorld) symbols(t string) []int {
	out := make([]int, len(t))
	for i := range out {
		out[i] = w.minus[t[i]]
	}
	for i := 0; i < len(t); {
		r, n := utf8.DecodeRuneInString(t[i:])
		if !(r == utf8.RuneError && n <= 1) && w.alnum[r] {
			out[i+n-1] = w.plus[t[i+n-1]]
		}
		i += n
	}
	return out
}

func (w *filterWorld) want(t string) bool {
	s := w.a.init
	for _, k := range w.symbols(t) {
		s = int(w.a.next[s][k])
	}
	return w.a.out[s][0]
}

func (w *filterWorld) call(t string) (v bool, e string) {
	defer func() {
		if x := recover(); x != nil {
			e = fmt.Sprintf("panics: %v", x)
		}
	}()
	b := append(make([]byte, 0, len(t)+8), t...)
	// what lies behind the token is not part of it
	for i := len(t); i < cap(b); i++ {
		b[:cap(b)][i] = "Z9z\xC3\xA9"[i%5]
	}
	v = filter.AlphaNumeric(b)
	if string(b) != t {
		e = "changes its argument"
	}
	return
}

func (w *filterWorld) check(suite, t string) *failure {
	v, e := w.call(t)
	want := w.want(t)
	if e == "" && v != want {
		e = fmt.Sprintf("returns %v, want %v", v, want)
	}
	if e == "" {
		return nil
	}
	return &failure{Suite: suite, Path: "AlphaNumeric", What: e, Text: t}
}

func (w *filterWorld) fail(f *failure) {
	for changed := true; changed; {
		changed = false
		for i := range f.Text {
			if g := w.check(f.Suite, f.Text[:i]+f.Text[i+1:]); g != nil {
				f, changed = g, true
				break
			}
		}
	}
	res.fail(f)
}

// instance of a word of symbols: random bytes of the classes, the wanted flags where units end
func (w *filterWorld) instance(r *rand.Rand, u *utf8auto, cls []string) string {
	b := []byte(u.instance(r, cls))
	for i := 0; i < len(b); {
		_, n := utf8.DecodeRune(b[i:])
		x, _ := utf8.DecodeRune(b[i:])
		if n > 1 || b[i] < 0x80 {
			// often a unit that says nothing, so that the rest matters
			if r.Intn(3) > 0 && w.alnum[x] {
				lead := classOf(b[i])
				for try := 0; try < 30; try++ {
					c := w.byLen[n][0][r.Intn(len(w.byLen[n][0]))]
					e := string(c)
					if classOf(e[0]) == lead {
						copy(b[i:], e)
						break
					}
				}
			}
		}
		i += n
	}
	return string(b)
}

func init() {
	props["C19"] = func() {
		w := loadFilter()
		u := loadUtf8()
		sl := make([]*slot, nWorkers)
		for i := range sl {
			sl[i] = newSlot()
		}
		at := "filter"
		try := func(k int, suite, t string) {
			sl[k].watch("AlphaNumeric", &at, t, nil)
			if f := w.check(suite, t); f != nil {
				w.fail(f)
			}
			sl[k].unwatch()
		}
		// contexts: nothing that counts around the code point
		around := []string{"", " ", "\xC2", "\xE2\x80", "\xF0\x9F\x98", "\x80", "\xFF", "\xE0", "\xED\xA0\x80", "\u0301", "\u20AC", "\U0001F600", "\x00", "...", "\uFFFD", "\xC0\xAF", "\xF4\x90\x80\x80"}
		parallel("every code point in contexts", func(k int, r *rand.Rand) int64 {
			var n int64
			for x := k; x < 0x110000 && !stopped(); x += nWorkers {
				if isSurrogate(x) {
					continue
				}
				s := string(rune(x))
				for i, p := range around {
					n += 3
					try(k, "every code point in contexts", p+s)
					try(k, "every code point in contexts", s+p)
					try(k, "every code point in contexts", p+s+around[(i+x)%len(around)])
				}
			}
			return n
		})
		parallel("every string of up to 3 bytes", func(k int, r *rand.Rand) int64 {
			var n int64
			if k == 0 {
				try(k, "every string of up to 3 bytes", "")
				for a := 0; a < 256; a++ {
					try(k, "every string of up to 3 bytes", string([]byte{byte(a)}))
				}
				n += 257
			}
			for a := k; a < 256; a += nWorkers {
				for b := 0; b < 256 && !stopped(); b++ {
					try(k, "every string of up to 3 bytes", string([]byte{byte(a), byte(b)}))
					for c := 0; c < 256; c++ {
						try(k, "every string of up to 3 bytes", string([]byte{byte(a), byte(b), byte(c)}))
					}
					n += 257
				}
			}
			return n
		})
		L := pickN(5, 6)
		parallel(fmt.Sprintf("every word of byte classes of length %d", L), func(k int, r *rand.Rand) int64 {
			var n int64
			alpha := make([]uint8, len(u.classes))
			for i := range alpha {
				alpha[i] = uint8(i)
			}
			cls := make([]string, L)
			forEachWord(alpha, L, k, nWorkers, func(word []uint8) bool {
				for i, c := range word {
					cls[i] = u.classes[c]
				}
				for v := 0; v < 2; v++ {
					n++
					try(k, "words of byte classes", w.instance(r, u, cls))
				}
				return !stopped()
			})
			return n
		})
		litLens := append(append([]int{}, lits().small...), litSizes(litSmall, 1<<21)...)
		parallel("constants of the code as lengths", func(k int, r *rand.Rand) int64 {
			var n int64
			total := 0
			for i := 0; i < pickN(400000, 4000000)/nWorkers && total < pickN(64<<20, 640<<20) && !stopped() && len(litLens) > 0; i++ {
				l := litLens[r.Intn(len(litLens))]
				var b []byte
				m := 1 + r.Intn(4)
				for len(b)+m <= l {
					c := w.byLen[m][0]
					b = append(b, string(c[r.Intn(len(c))])...)
				}
				for len(b) < l {
					b = append(b, " \x80"[r.Intn(2)])
				}
				if x := lits().runes; len(x) > 0 && r.Intn(2) == 0 {
					b = append(b, string(x[r.Intn(len(x))])...)
				}
				if r.Intn(2) == 0 {
					c := w.byLen[m][1]
					b = append(b, string(c[r.Intn(len(c))])...)
				}
				if r.Intn(2) == 0 {
					b = append(b, "\x80. \xC2"[:r.Intn(5)]...)
				}
				total += len(b)
				n++
				try(k, "constants of the code as lengths", string(b))
			}
			return n
		})
		parallel("long tokens", func(k int, r *rand.Rand) int64 {
			var n int64
			for i := 0; i < pickN(20000, 400000)/nWorkers && !stopped(); i++ {
				var b []byte
				limit := 400
				if i%16 == 0 {
					limit = []int{1024, 5000, 9000, 20000}[r.Intn(4)]
				}
				if i%512 == 0 {
					limit = 150000
				}
				if i%1024 == 1 {
					limit = 5 << 20
				}
				for l := 1 + r.Intn(1+r.Intn(limit)); len(b) < l; {
					m := 1 + r.Intn(4)
					c := w.byLen[m][0]
					b = append(b, string(c[r.Intn(len(c))])...)
					if r.Intn(4) == 0 {
						b = append(b, "\x80\xC2\xE2\xF0\xFF\xED"[r.Intn(6)])
					}
				}
				if r.Intn(2) == 0 {
					// one that counts, anywhere between units or at the very end
					m := 1 + r.Intn(4)
					c := w.byLen[m][1]
					e := string(c[r.Intn(len(c))])
					at := len(b)
					if r.Intn(3) > 0 {
						for at = r.Intn(len(b) + 1); at < len(b) && b[at]&0xC0 == 0x80; at++ {
						}
					}
					b = append(b[:at], append([]byte(e), b[at:]...)...)
				}
				n++
				try(k, "long tokens", string(b))
				if len(b) > 1 {
					n++
					try(k, "long tokens", string(b[:len(b)-1]))
				}
			}
			return n
		})
		t := newTracer("FilterTrace-calls")
		if t == nil {
			return
		}
		r := rand.New(rand.NewSource(subSeed("trace filter", 0)))
		for t.n < pickN(4000, 20000) {
			var cls []string
			for l := r.Intn(14); l >= 0; l-- {
				cls = append(cls, u.classes[r.Intn(len(u.classes))])
			}
			text := w.instance(r, u, cls)
			if r.Intn(2) == 0 {
				m := 1 + r.Intn(4)
				text += string(w.byLen[m][r.Intn(2)][0])
			}
			v, e := w.call(text)
			if e != "" {
				continue
			}
			var word [][]string
			for i, k := range w.symbols(text) {
				f := "-"
				if k == w.plus[text[i]] {
					f = "+"
				}
				word = append(word, []string{classOf(text[i]), f})
			}
			t.emit(ev{"e": "start", "hex": fmt.Sprintf("%x", text), "w": word, "out": v})
		}
		t.close()
	}
	replayers["C19"] = func(f *failure, _ map[string]json.RawMessage) {
		if g := loadFilter().check("replay", f.Text); g != nil {
			res.fail(g)
		}
	}
}
