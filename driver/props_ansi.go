package main

// C11-C13: ANSI control sequences.  The recogniser and the byte classes are the ones TLC printed
// (AnsiTable); between sequences the grapheme machine (GraphemeTable) decides.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/graphemes"
)

const (
	ansiAcc = -1
	ansiPre = -2
	ansiRej = -3
)

type ansiMachine struct {
	states  []string
	idx     map[string]int
	classes []string
	bytes   map[string][]byte
	class   [256]string
	next    [][256]int // by byte
	access  [][]byte   // a byte string reaching each state
}

func loadAnsi() *ansiMachine {
	a := &ansiMachine{idx: map[string]int{}, bytes: map[string][]byte{}}
	get := func(s string) int {
		switch s {
		case "acc":
			return ansiAcc
		case "pre":
			return ansiPre
		case "rej":
			return ansiRej
		}
		if i, ok := a.idx[s]; ok {
			return i
		}
		a.idx[s] = len(a.states)
		a.states = append(a.states, s)
		a.next = append(a.next, [256]int{})
		return a.idx[s]
	}
	type row struct{ s, c, t string }
	var rows []row
	eachPrinted(table("AnsiTable"), func(b []byte) {
		var r struct {
			S, C, T string
			Class   string
			Bytes   []int
		}
		if json.Unmarshal(b, &r) != nil {
			fatal("bad AnsiTable line")
		}
		if r.Class != "" {
			if a.bytes[r.Class] == nil {
				a.classes = append(a.classes, r.Class)
				for _, x := range r.Bytes {
					a.bytes[r.Class] = append(a.bytes[r.Class], byte(x))
					a.class[x] = r.Class
				}
			}
			return
		}
		rows = append(rows, row{r.S, r.C, r.T})
	})
	get("start")
	for _, r := range rows {
		get(r.s)
		get(r.t)
	}
	for _, r := range rows {
		for _, x := range a.bytes[r.c] {
			a.next[get(r.s)][x] = get(r.t)
		}
	}
	a.access = make([][]byte, len(a.states))
	a.access[0] = []byte{}
	for q := []int{0}; len(q) > 0; q = q[1:] {
		s := q[0]
		for x := 0; x < 256; x++ {
			t := a.next[s][x]
			if t > 0 && a.access[t] == nil {
				a.access[t] = append(append([]byte{}, a.access[s]...), byte(x))
				q = append(q, t)
			}
		}
	}
	for i := range a.access {
		if a.access[i] == nil {
			fatal("AnsiTable: state %s is not reached", a.states[i])
		}
	}
	return a
}

// seq is the length of the control sequence at the start of t (0: none)
func (a *ansiMachine) seq(t string, o ansiCfg) int {
	if t == "" || (t[0] == 0x1b && !o.O7) || (t[0] >= 0x80 && !o.O8) {
		return 0
	}
	s := 0
	for i := 0; i < len(t); i++ {
		switch n := a.next[s][t[i]]; n {
		case ansiAcc:
			return i + 1
		case ansiPre:
			return i
		case ansiRej:
			return 0
		default:
			s = n
		}
	}
	return 0
}

type ansiChecker struct {
	a     *ansiMachine
	g     *seg
	opts  []ansiCfg
	is    []iterOf[string]
	ib    []iterOf[[]byte]
	plain *graphemes.Iterator[string]
	want  []int
	got   []int
	buf   []byte
	slot  *slot
	runs  int64
	// what was exercised
	seqs, incomplete int64
}

func newAnsiChecker(a *ansiMachine, g *seg, opts []ansiCfg) *ansiChecker {
	c := &ansiChecker{a: a, g: g, opts: opts, slot: newSlot(), plain: graphemes.FromString("")}
	for _, o := range opts {
		s := segAnsi(o.O7, o.O8)
		c.is = append(c.is, s.str(""))
		c.ib = append(c.ib, s.byt(nil))
	}
	return c
}

// cluster: length of the first grapheme cluster of t by the grapheme machine, t being well-formed
func (c *ansiChecker) cluster(t string) int {
	m := c.g.m
	st := m.init
	for i, r := range t {
		tr := &m.t[st][c.g.kind[r]]
		if tr.here == outB {
			return i
		}
		st = int(tr.next)
	}
	return len(t)
}

// expect: the tokens of text.  On ill-formed text the ordinary rules are what the library does
// with the options off.
func (c *ansiChecker) expect(text string, o ansiCfg) []int {
	c.want = c.want[:0]
	valid := utf8.ValidString(text)
	for p := 0; p < len(text); {
		n := c.a.seq(text[p:], o)
		if n > 0 {
			c.seqs++
		} else {
			if text[p] == 0x1b || (text[p] >= 0x80 && text[p] <= 0x9f) {
				c.incomplete++
			}
			switch {
			case valid:
				n = c.cluster(text[p:])
			default:
				c.plain.SetText(text[p:])
				c.plain.Next()
				n = c.plain.End()
			}
			if n <= 0 {
				n = len(text) - p
			}
		}
		p += n
		c.want = append(c.want, p)
	}
	return c.want
}

func (c *ansiChecker) check(text string) (f *failure) {
	stage := ""
	var o ansiCfg
	c.slot.watch("graphemes", &stage, text, nil)
	note := func() string { return fmt.Sprintf("AnsiEscapeSequences=%v AnsiEscapeSequences8Bit=%v", o.O7, o.O8) }
	defer func() {
		c.slot.unwatch()
		if r := recover(); r != nil {
			f = &failure{Seg: "graphemes", Path: stage, Text: text, What: fmt.Sprintf("panic: %v", r), Note: note(), Extra: o}
		}
	}()
	c.buf = withTail(c.buf, text, int(c.runs))
	for i := range c.opts {
		o = c.opts[i]
		c.runs++
		stage = "options off"
		want := c.expect(text, o)
		for k := 0; k < 2; k++ {
			var e string
			if k == 0 {
				stage = "FromString"
				c.is[i].SetText(text)
				c.got, e = walkStr(c.is[i], text, c.got[:0])
			} else {
				stage = "FromBytes"
				c.ib[i].SetText(c.buf)
				c.got, e = walkBytes(c.ib[i], text, c.got[:0])
			}
			if e == "" && !sameInts(c.got, want) {
				e = "wrong tokens"
			}
			if e == "" {
				stage += " First"
				var v string
				if k == 0 {
					v = c.is[i].First()
				} else {
					v = string(c.ib[i].First())
				}
				w := 0
				if len(want) > 0 {
					w = want[0]
				}
				if v != text[:w] {
					e = fmt.Sprintf("First()=%+q", v)
				}
			}
			if e != "" {
				s := segAnsi(o.O7, o.O8)
				c.is[i], c.ib[i] = s.str(""), s.byt(nil)
				return &failure{Seg: "graphemes", Path: stage, Text: text, What: e, Want: clone(want), Got: clone(c.got), Note: note(), Extra: o}
			}
		}
	}
	return nil
}

func (c *ansiChecker) report(suite string, f *failure) {
	best := f
	for size := len(f.Text) / 2; size >= 1; {
		improved := false
		for i := 0; i+size <= len(best.Text); {
			if g := c.check(best.Text[:i] + best.Text[i+size:]); g != nil {
				best, improved = g, true
			} else {
				i += size
			}
		}
		if size > 1 {
			size /= 2
		} else if !improved {
			break
		}
	}
	best.Suite = suite
	res.fail(best)
}

// what follows a sequence or a failed attempt
var ansiTails = []string{"", "x", "\u0301", "\u200d\U0001F680", "\r\n", "\U0001F3FD", "\x1b[m", "\x9b", "\u0903z", "\x18", "\\", "\a", "\u0085", "\x85", "\x9c", "\x1b\\"}

// classWords calls f with every string of one byte per class, of length k
func (a *ansiMachine) classWords(k int, pick func(class string) byte, w, of int, f func(b []byte) bool) {
	b := make([]byte, k)
	n := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == k {
			n++
			if n%of != w {
				return true
			}
			return f(b)
		}
		for _, c := range a.classes {
			b[i] = pick(c)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

type ansiScope struct {
	opts  []ansiCfg
	noESC bool // texts without ESC
	valid bool // well-formed texts only
}

func (sc *ansiScope) takes(t string) bool {
	if sc.noESC && strings.IndexByte(t, 0x1b) >= 0 {
		return false
	}
	if sc.valid && !utf8.ValidString(t) {
		return false
	}
	return true
}

func suiteAnsi(a *ansiMachine, g *seg, sc *ansiScope, depth, randoms int, pumps []int) {
	stat := func(c *ansiChecker) {
		res.mu.Lock()
		for k, v := range map[string]int64{"sequences met": c.seqs, "incomplete or malformed starts met": c.incomplete} {
			x, _ := res.Info[k].(int64)
			res.Info[k] = x + v
		}
		res.mu.Unlock()
	}
	// every state of the recogniser, every class word after it, a tail
	parallel("recogniser state x class words", func(w int, r *rand.Rand) int64 {
		c := newAnsiChecker(a, g, sc.opts)
		defer stat(c)
		bad := 0
		for s := range a.states {
			for k := 0; k <= depth; k++ {
				a.classWords(k, func(cl string) byte { x := a.bytes[cl]; return x[r.Intn(len(x))] }, w, nWorkers, func(b []byte) bool {
					t := string(a.access[s]) + string(b) + ansiTails[r.Intn(len(ansiTails))]
					if r.Intn(4) == 0 {
						t = bit(r) + t
					}
					if !sc.takes(t) {
						return true
					}
					if f := c.check(t); f != nil {
						bad++
						c.report("recogniser state x class words", f)
					}
					return bad < 3 && !stopped()
				})
			}
		}
		return c.runs
	})
	// every byte in every state
	parallel("recogniser state x every byte", func(w int, r *rand.Rand) int64 {
		c := newAnsiChecker(a, g, sc.opts)
		defer stat(c)
		bad := 0
		n := 0
		for s := range a.states {
			for x := 0; x < 256; x++ {
				for _, y := range []string{"", "\x1b\\", "\a", "\x9c", "m", "x", "\x18", "0m", " m", "\x1b\a"} {
					for _, z := range ansiTails {
						if n++; n%nWorkers != w || bad > 2 || stopped() {
							continue
						}
						t := string(a.access[s]) + string([]byte{byte(x)}) + y + z
						if !sc.takes(t) {
							continue
						}
						if f := c.check(t); f != nil {
							bad++
							c.report("recogniser state x every byte", f)
						}
					}
				}
			}
		}
		return c.runs
	})
	// pumped payloads
	parallel("pumped payloads", func(w int, r *rand.Rand) int64 {
		c := newAnsiChecker(a, g, sc.opts)
		defer stat(c)
		bad := 0
		n := 0
		for _, size := range pumps {
			for s := 1; s < len(a.states); s++ {
				// classes that stay in a loop at s
				for _, cl := range a.classes {
					if n++; n%nWorkers != w || bad > 2 || stopped() {
						continue
					}
					x := a.bytes[cl]
					if a.next[s][x[0]] < 0 {
						continue
					}
					// payloads of introducers make unterminated text quadratic, in oracle and library
					if size > 600 && a.next[0][x[0]] != ansiRej {
						continue
					}
					pay := strings.Repeat(string(x[r.Intn(len(x)):][:1]), size)
					for _, end := range []string{"", "\x1b\\", "\a", "\x18", "\x9c", "m", "\x1b", " q", "\x7f"} {
						if size > 100000 && r.Intn(pickN(4, 2)) != 0 {
							continue
						}
						t := string(a.access[s]) + pay + end + ansiTails[r.Intn(len(ansiTails))]
						if size < 5000 && r.Intn(3) == 0 {
							t = bit(r) + t + t
						}
						if !sc.takes(t) {
							continue
						}
						if f := c.check(t); f != nil {
							bad++
							c.report("pumped payloads", f)
						}
					}
				}
			}
		}
		return c.runs
	})
	// sequences between clusters, cut off at every byte, damaged
	parallel("random mixtures", func(w int, r *rand.Rand) int64 {
		c := newAnsiChecker(a, g, sc.opts)
		defer stat(c)
		p := g.picker()
		alpha := g.alphabet()
		bad := 0
		for k := 0; k < randoms && bad < 3 && !stopped(); k++ {
			var sb strings.Builder
			for j := 1 + r.Intn(5); j > 0; j-- {
				switch r.Intn(4) {
				case 0:
					sb.WriteString(p.text(r, g.randomWord(r, alpha, 5, nil)))
				case 1:
					sb.WriteString(bit(r))
				default:
					sb.WriteString(a.randomSeq(r, p, alpha))
				}
			}
			t := sb.String()
			if r.Intn(5) == 0 {
				t = damage(r, t)
			}
			if sc.noESC {
				t = strings.ReplaceAll(t, "\x1b", "")
			}
			if sc.valid && !utf8.ValidString(t) {
				t = strings.ToValidUTF8(t, "")
			}
			cuts := []int{len(t)}
			if r.Intn(10) == 0 && len(t) < 60 {
				for i := range t {
					cuts = append(cuts, i)
				}
			}
			for _, n := range cuts {
				if !sc.takes(t[:n]) {
					continue
				}
				if f := c.check(t[:n]); f != nil {
					bad++
					c.report("random mixtures", f)
					break
				}
			}
		}
		return c.runs
	})
}

// randomSeq walks the recogniser at random, staying alive most of the time; payload bytes come
// from real characters often
func (a *ansiMachine) randomSeq(r *rand.Rand, p *picker, alpha []uint8) string {
	var b []byte
	starts := []byte{0x1b, 0x1b, 0x1b, 0x9b, 0x9d, 0x90, 0x98, 0x9e, 0x9f, 0x85, 0x9c}
	b = append(b, starts[r.Intn(len(starts))])
	s := a.next[0][b[0]]
	for n := 0; s > 0 && n < 14; n++ {
		var x byte
		if len(b) > 1 && r.Intn(4) == 0 && (a.states[s] == "osc" || a.states[s] == "str" || a.states[s] == "osc8" || a.states[s] == "str8") {
			t := p.text(r, []uint8{alpha[r.Intn(len(alpha))]})
			for i := 0; i < len(t) && s > 0; i++ {
				b = append(b, t[i])
				s = a.next[s][t[i]]
			}
			continue
		}
		for try := 0; try < 6; try++ {
			c := a.bytes[a.classes[r.Intn(len(a.classes))]]
			x = c[r.Intn(len(c))]
			if a.next[s][x] != ansiRej {
				break
			}
		}
		b = append(b, x)
		s = a.next[s][x]
	}
	return string(b)
}

func traceAnsi(a *ansiMachine, g *seg, sc *ansiScope, events int) {
	tr := newTracer("AnsiTrace-" + strings.ToLower(*flagProp))
	if tr == nil {
		return
	}
	defer tr.close()
	r := rand.New(rand.NewSource(subSeed("ansi trace", 0)))
	p := g.picker()
	alpha := g.alphabet()
	n := 0
	for tr.n < events {
		t := bit(r) + a.randomSeq(r, p, alpha) + p.text(r, g.randomWord(r, alpha, 4, nil))
		if r.Intn(2) == 0 {
			t += a.randomSeq(r, p, alpha) + bit(r)
		}
		if sc.noESC {
			t = strings.ReplaceAll(t, "\x1b", "")
		}
		if sc.valid && !utf8.ValidString(t) {
			t = strings.ToValidUTF8(t, "")
		}
		o := sc.opts[r.Intn(len(sc.opts))]
		n++
		tr.ansi(a, g, t, o)
	}
	res.info("traced texts", n)
}

func (t *tracer) ansi(a *ansiMachine, g *seg, text string, o ansiCfg) {
	bs := make([]ev, 0, len(text))
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRuneInString(text[i:])
		k := "?"
		if r != utf8.RuneError || w > 1 {
			k = g.m.syms[g.kind[r]]
		}
		for j := 0; j < w; j++ {
			bs = append(bs, ev{"c": a.class[text[i+j]], "k": k})
			k = ""
		}
		i += w
	}
	t.emit(ev{"e": "start", "o7": b2i(o.O7), "o8": b2i(o.O8), "text": bs, "hex": fmt.Sprintf("%x", text), "seg": "graphemes"})
	defer func() {
		if x := recover(); x != nil {
			t.emit(ev{"e": "panic"})
		}
	}()
	it := segAnsi(o.O7, o.O8).str(text)
	for k := 0; k < 2*len(text)+4 && it.Next(); k++ {
		t.emit(ev{"e": "tok", "x": it.End()})
	}
	t.emit(ev{"e": "end"})
}

var ansiScopes = map[string]*ansiScope{
	"C11": {opts: []ansiCfg{{true, false}}},
	"C12": {opts: []ansiCfg{{false, true}}},
	"C13": {opts: []ansiCfg{{false, false}, {true, true}}},
}

func init() {
	for id := range ansiScopes {
		id := id
		props[id] = func() {
			a := loadAnsi()
			g := theSeg("graphemes")
			g.picker()
			suiteAnsi(a, g, ansiScopes[id], pickN(3, 4), pickN(40000, 1200000), pumpSizes())
			if id == "C13" {
				// the options on texts without anything they name
				suiteAnsi(a, g, &ansiScope{opts: []ansiCfg{{true, false}}, noESC: true}, 2, pickN(20000, 400000), nil)
				suiteAnsi(a, g, &ansiScope{opts: []ansiCfg{{false, true}}, valid: true}, 2, pickN(20000, 400000), nil)
				suiteC1InCharacters(g)
			}
			traceAnsi(a, g, ansiScopes[id], pickN(2500, 12000))
		}
		replayers[id] = func(f *failure, raw map[string]json.RawMessage) {
			var o ansiCfg
			json.Unmarshal(raw["extra"], &o)
			c := newAnsiChecker(loadAnsi(), theSeg("graphemes"), []ansiCfg{o})
			res.count("replay", 1)
			if g := c.check(f.Text); g != nil {
				res.fail(g)
			}
		}
	}
}

func pumpSizes() []int {
	p := []int{2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70001, 300000, 1 << 20, 1<<20 + 1}
	p = append(p, some(litSizes(litSmall, 1<<20), 24)...)
	if thorough() {
		for i := 10; i < 600; i++ {
			p = append(p, i)
		}
		p = append(p, 1<<22, 1<<24+1)
	}
	return p
}

// suiteC1InCharacters: every scalar value, alone and among others, is the same with and without
// the 8-bit option (its bytes may well look like C1 controls)
func suiteC1InCharacters(g *seg) {
	parallel("every code point under the options", func(w int, r *rand.Rand) int64 {
		c := newAnsiChecker(loadAnsi(), g, []ansiCfg{{false, false}, {true, false}, {false, true}, {true, true}})
		bad := 0
		for cp := w; cp < 0x110000; cp += nWorkers {
			if isSurrogate(cp) || cp == 0x1b || stopped() {
				continue
			}
			if f := c.check("a" + string(rune(cp)) + "\u0301" + string(rune(cp))); f != nil {
				if bad++; bad < 3 {
					c.report("every code point under the options", f)
				}
			}
		}
		return c.runs
	})
}
