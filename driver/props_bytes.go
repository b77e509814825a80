package main

// C01 (lossless partition of any bytes) and C06 (entry points agree)

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"github.com/clipperhouse/uax29/v2/graphemes"
)

// segAnsi: graphemes with options; no split function or reader takes them
func segAnsi(o7, o8 bool) *seg {
	s := segGraphemes()
	s.str = func(t string) iterOf[string] {
		it := graphemes.FromString(t)
		it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o7, o8
		return it
	}
	s.byt = func(t []byte) iterOf[[]byte] {
		it := graphemes.FromBytes(t)
		it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o7, o8
		return it
	}
	if o7 || o8 {
		s.split = nil
		s.rd = nil
		s.note = fmt.Sprintf("AnsiEscapeSequences=%v AnsiEscapeSequences8Bit=%v", o7, o8)
		s.extra = ansiCfg{o7, o8}
	}
	return s
}

type ansiCfg struct {
	O7 bool `json:"o7"`
	O8 bool `json:"o8"`
}

// a group of configurations that must all give the tokens of the first one's FromString
type group struct {
	key  string
	segs []*seg
}

// allGroups also loads alphabets for text generation
func allGroups() []*group {
	var gs []*group
	gs = append(gs, &group{"graphemes", []*seg{theSeg("graphemes")}})
	g := gs[0].segs[0]
	like := func(s *seg, of *seg) *seg {
		s.m, s.mn, s.kind, s.reps = of.m, of.mn, of.kind, of.reps
		return s
	}
	for _, o := range []ansiCfg{{true, false}, {false, true}, {true, true}} {
		gs = append(gs, &group{fmt.Sprintf("graphemes/%v/%v", o.O7, o.O8), []*seg{like(segAnsi(o.O7, o.O8), g)}})
	}
	w := theSeg("words")
	loadJoiners()
	wg := &group{"words", []*seg{w}}
	for _, c := range []joinCfg{{}, {Nil: true}} {
		for _, n := range []bool{false, true} {
			wg.segs = append(wg.segs, like(segJoiners(c, n), w))
		}
	}
	gs = append(gs, wg)
	for i, c := range []joinCfg{
		{Middle: []rune("@-/ 1a"), Leading: []rune("#.9 ")},
		{Middle: []rune("\u00e9\u0301\u2013\u4e00\U0001F600\uFFFD"), Leading: []rune("\u2026\u00ad\U0001F1E6\uFFFD")},
	} {
		gs = append(gs, &group{fmt.Sprintf("words/joiners%d", i), []*seg{like(segJoiners(c, false), w), like(segJoiners(c, true), w)}})
	}
	gs = append(gs, &group{"phrases", []*seg{theSeg("phrases")}}, &group{"sentences", []*seg{theSeg("sentences")}})
	return gs
}

type anyChecker struct {
	g     *group
	cs    []*checker
	ref   []int
	got   []int
	agree bool // C06; otherwise only losslessness (C01)
	slot  *slot
	runs  int64
}

func newAnyChecker(g *group, agree bool) *anyChecker {
	a := &anyChecker{g: g, agree: agree, slot: newSlot()}
	for _, s := range g.segs {
		a.cs = append(a.cs, newChecker(s))
	}
	return a
}

// all runs text through every configuration and entry point of the group
func (a *anyChecker) all(text string, full bool) *failure {
	a.runs++
	paths := pStr | pBytes | pSplit
	if full {
		paths = pAll
	}
	var want []int
	if a.agree {
		var f *failure
		if a.ref, f = a.refEnds(text); f != nil {
			return f
		}
		want = a.ref
	}
	for _, c := range a.cs {
		ps := paths
		if c.s.rd == nil {
			ps &^= pScan
		}
		if f := c.compare(text, want, ps); f != nil {
			if a.agree && f.What == "wrong tokens" {
				f.What = "tokens differ from those of FromString"
			}
			return f
		}
	}
	if a.agree && full {
		return a.restarts(text, want)
	}
	return nil
}

func (a *anyChecker) refEnds(text string) (ends []int, f *failure) {
	s := a.g.segs[0]
	stage := "FromString"
	a.slot.watch(s.name, &stage, text, s.extra)
	defer func() {
		a.slot.unwatch()
		if r := recover(); r != nil {
			f = &failure{Seg: s.name, Path: stage, Text: text, What: fmt.Sprintf("panic: %v", r), Note: s.note, Extra: s.extra}
		}
	}()
	ends, e := walkStr(s.str(text), text, a.ref[:0])
	if e != "" {
		return ends, &failure{Seg: s.name, Path: stage, Text: text, What: e, Note: s.note, Extra: s.extra}
	}
	return ends, nil
}

// restarts: from every boundary a fresh iterator gives the remaining tokens
func (a *anyChecker) restarts(text string, want []int) (f *failure) {
	s := a.g.segs[0]
	stage := "restart"
	a.slot.watch(s.name, &stage, text, s.extra)
	b := 0
	defer func() {
		a.slot.unwatch()
		if r := recover(); r != nil {
			f = &failure{Seg: s.name, Path: stage, Text: text, What: fmt.Sprintf("panic on text[%d:]: %v", b, r), Note: s.note, Extra: s.extra}
		}
	}()
	is, ib := s.str(""), s.byt(nil)
	buf := withTail(nil, text, len(want))
	step := 1
	if len(want) > 40 {
		step = len(want) / 20
	}
	for i := 0; i+1 < len(want); i += step {
		b = want[i]
		var e string
		is.SetText(text[b:])
		a.got, e = walkStr(is, text[b:], a.got[:0])
		for k := 0; k < 2; k++ {
			if e != "" {
				return &failure{Seg: s.name, Path: stage, Text: text, What: fmt.Sprintf("on text[%d:]: %s", b, e), Note: s.note, Extra: s.extra}
			}
			ok := len(a.got) == len(want)-i-1
			for j := 0; ok && j < len(a.got); j++ {
				ok = a.got[j]+b == want[i+1+j]
			}
			if !ok {
				for j := range a.got {
					a.got[j] += b
				}
				return &failure{Seg: s.name, Path: stage, Text: text, What: fmt.Sprintf("a fresh iterator at boundary %d does not give the remaining tokens", b),
					Want: clone(want[i+1:]), Got: clone(a.got), Note: s.note, Extra: s.extra}
			}
			if k == 0 {
				ib.SetText(buf[b:])
				a.got, e = walkBytes(ib, text[b:], a.got[:0])
			}
		}
	}
	return nil
}

// shrinkBytes removes bytes while the text still fails
func (a *anyChecker) report(suite string, f *failure) {
	f.Suite = suite
	best := f
	if f.What != "does not terminate" {
		budget := 4000
		from := time.Now()
		for size := len(f.Text) / 2; size >= 1 && budget > 0; {
			improved := false
			for i := 0; i+size <= len(best.Text) && budget > 0; {
				budget--
				if time.Since(from) > 15*time.Second {
					budget = 0
				}
				if g := a.all(best.Text[:i]+best.Text[i+size:], true); g != nil {
					best = g
					improved = true
				} else {
					i += size
				}
			}
			if size == 1 && !improved {
				break
			}
			if size > 1 {
				size /= 2
			}
		}
	}
	best.Suite = suite
	if best.Extra == nil {
		best.Extra = map[string]string{}
	}
	best.Group = a.g.key
	res.fail(best)
}

func anyProp(agree bool) func() {
	return func() {
		u := loadUtf8()
		gs := allGroups()
		shapes := u.shapes(2)
		for _, g := range gs {
			g := g
			s := g.segs[0]
			p := s.picker()
			alpha := s.alphabet()
			// 1. every ill-formed shape x every kind before and after
			name := g.key + ": every ill-formed UTF-8 shape between every two kinds"
			parallel(name, func(w int, r *rand.Rand) int64 {
				a := newAnyChecker(g, agree)
				rounds := pickN(1, 8)
				for i := w; i < len(shapes)*rounds && !stopped(); i += nWorkers {
					sh := shapes[i%len(shapes)]
					for pre := -1; pre < len(alpha); pre++ {
						var t string
						if pre >= 0 {
							t = string(p.pick(r, alpha[pre]))
						}
						if r.Intn(3) == 0 {
							t = bit(r) + t
						}
						t += u.instance(r, sh)
						if pre%2 == 0 {
							t += string(p.pick(r, alpha[r.Intn(len(alpha))]))
						}
						if r.Intn(4) == 0 {
							t += bit(r)
						}
						if f := a.all(t, pre%8 == 0); f != nil {
							a.report(name, f)
						}
					}
				}
				return a.runs
			})
			// 2. damaged texts, truncated code points
			name2 := g.key + ": damaged and truncated random texts"
			parallel(name2, func(w int, r *rand.Rand) int64 {
				a := newAnyChecker(g, agree)
				var word []uint8
				for i := w; i < pickN(60000, 900000) && !stopped(); i += nWorkers {
					word = s.randomWord(r, alpha, 30, word[:0])
					t := p.text(r, word)
					switch i / nWorkers % 4 {
					case 0:
						t = damage(r, t)
					case 1:
						t = t + truncated(r, p, alpha)
					case 2:
						t = bit(r) + truncated(r, p, alpha) + t + bit(r) + truncated(r, p, alpha)
					}
					if f := a.all(t, i%3 == 0); f != nil {
						a.report(name2, f)
					}
				}
				return a.runs
			})
			// 3. every text of two bytes, random texts of few bytes
			name3 := g.key + ": every text of <= 2 bytes, random bytes"
			parallel(name3, func(w int, r *rand.Rand) int64 {
				a := newAnyChecker(g, agree)
				b := make([]byte, 0, 64)
				for x := w; x < 256; x += nWorkers {
					for y := -1; y < 256; y++ {
						b = append(b[:0], byte(x))
						if y >= 0 {
							b = append(b, byte(y))
						}
						if f := a.all(string(b), true); f != nil {
							a.report(name3, f)
						}
						b = append(b, "a1 .\n\r'"[r.Intn(7)], byte(r.Intn(256)))
						if f := a.all(string(b), false); f != nil {
							a.report(name3, f)
						}
					}
					if stopped() {
						break
					}
				}
				if w == 0 {
					if f := a.all("", true); f != nil {
						a.report(name3, f)
					}
				}
				for i := 0; i < pickN(10000, 200000) && !stopped(); i++ {
					b = b[:0]
					for k := r.Intn(24); k >= 0; k-- {
						c := u.classes[r.Intn(len(u.classes))]
						b = append(b, u.instance(r, []string{c})...)
					}
					if f := a.all(string(b), i%4 == 0); f != nil {
						a.report(name3, f)
					}
				}
				return a.runs
			})
			// 4. ASCII shortcuts: runs, then anything
			name4 := g.key + ": ASCII runs before and after anything"
			parallel(name4, func(w int, r *rand.Rand) int64 {
				a := newAnyChecker(g, agree)
				for i := w; i < pickN(60000, 600000) && !stopped(); i += nWorkers {
					t := ""
					for k := 1 + r.Intn(4); k > 0; k-- {
						t += bit(r)
						if r.Intn(2) == 0 {
							t += string(p.pick(r, alpha[r.Intn(len(alpha))]))
						}
					}
					if r.Intn(5) == 0 {
						t += truncated(r, p, alpha)
					}
					if f := a.all(t, i%3 == 0); f != nil {
						a.report(name4, f)
					}
				}
				return a.runs
			})
			// 6. every kind sequence of length 3; every state x kind x characterising suffix
			name6 := g.key + ": kind sequences from the state graph"
			parallel(name6, func(w int, r *rand.Rand) int64 {
				a := newAnyChecker(g, agree)
				n := 0
				try := func(word []uint8) bool {
					n++
					if f := a.all(p.text(r, word), n%5 == 0); f != nil {
						a.report(name6, f)
					}
					return !stopped()
				}
				for l := 1; l <= pickN(3, 4); l++ {
					forEachWord(alpha, l, w, nWorkers, try)
				}
				var word []uint8
				for i, acc := range s.mn.access {
					if i%nWorkers != w {
						continue
					}
					for _, k := range alpha {
						for _, k2 := range alpha {
							for _, suf := range s.mn.w {
								word = append(append(append(word[:0], acc...), k, k2), suf...)
								if !try(word) {
									return a.runs
								}
							}
						}
					}
				}
				return a.runs
			})
			// 7. every code point in distinguishing contexts
			if len(g.segs) != 2 && !strings.Contains(g.key, "/true") {
				ctxs := s.mn.contexts(nil)
				name7 := g.key + ": every code point"
				parallel(name7, func(w int, r *rand.Rand) int64 {
					a := newAnyChecker(g, agree)
					for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
						if isSurrogate(cp) {
							continue
						}
						for i, x := range ctxs {
							if !thorough() && (cp/nWorkers+i)%3 != 0 {
								continue
							}
							if f := a.all(p.text(r, x[0])+string(rune(cp))+p.text(r, x[1]), (cp/nWorkers+i)%32 == 0); f != nil {
								a.report(name7, f)
							}
						}
					}
					return a.runs
				})
			}
			// 5. long
			name5 := g.key + ": long texts"
			parallel(name5, func(w int, r *rand.Rand) int64 {
				a := newAnyChecker(g, agree)
				var word []uint8
				for i := w; i < pickN(32, 400) && !stopped(); i += nWorkers {
					var sb strings.Builder
					target := 3000 << uint(r.Intn(6))
					if g.key == "sentences" && target > 50000 {
						target = 50000
					}
					for sb.Len() < target {
						word = s.randomWord(r, alpha, 60, word[:0])
						t := p.text(r, word)
						if r.Intn(4) == 0 {
							t = damage(r, t)
						}
						sb.WriteString(t + bit(r))
					}
					if f := a.all(sb.String(), true); f != nil {
						a.report(name5, f)
					}
				}
				return a.runs
			})
			// 9. long tokens: every loop of one or two kinds, to lengths around powers of two
			suiteLongTokens(g, agree, p, alpha)
			if s.name == "sentences" {
				suiteLongLoops(g, agree, []int{512, 1024, 4096}, pickN(1500, 10000))
				suiteLongLoops(g, agree, []int{8192, 10000, 16384, 32768}, pickN(150, 1000))
			} else {
				suiteLongLoops(g, agree, []int{512, 1024, 4096}, pickN(1500, 10000))
				suiteLongLoops(g, agree, []int{8192, 16384, 32768, 65536, 131072}, pickN(150, 2000))
			}
			longLoops(g, loopsOf(g.segs[0], giantSizes(), true), agree, pickN(16, 80))
			suiteLitAny(g, agree, pickN(30000, 400000))
			// 8. streams longer than the scanner's buffer go through whatever they begin with or hold
			if !agree && s.rd != nil {
				name8 := g.key + ": every ill-formed UTF-8 shape in a stream longer than the scanner's buffer"
				filler := strings.Repeat("End. Next (one)\n\u00e9t\u00e9, 1.5? \U0001F469\u200D\U0001F680 \u4e16\u754c! ", 1500)
				parallel(name8, func(w int, r *rand.Rand) int64 {
					slot := newSlot()
					var n int64
					var got []int
					for i := w; i < len(shapes) && !stopped(); i += nWorkers {
						for _, s := range g.segs {
							if s.rd == nil {
								continue
							}
							n++
							size := 3000 + r.Intn(3000)
							if i/nWorkers%16 == 0 {
								size = 70000
							}
							t := u.instance(r, shapes[i])
							switch r.Intn(3) {
							case 0:
								t = bit(r) + t
							case 1:
								t = filler[:r.Intn(200)] + t
							}
							t += filler[r.Intn(90):][:size]
							sc := s.rd(&chunkReader{data: t, r: r, max: 5000})
							if size < 70000 {
								sc.Buffer(make([]byte, 0, 16), 2048)
							}
							f := func() (f *failure) {
								stage := "FromReader"
								slot.watch(s.name, &stage, t, s.extra)
								defer func() {
									slot.unwatch()
									if x := recover(); x != nil {
										f = &failure{Seg: s.name, Path: stage, Text: t, What: fmt.Sprintf("panic: %v", x), Note: s.note, Extra: s.extra}
									}
								}()
								var e string
								if got, e = walkScanner(sc, t, got[:0]); e != "" {
									return &failure{Seg: s.name, Path: stage, Text: t, What: "with a smaller buffer than text: " + e, Note: s.note, Extra: s.extra}
								}
								return nil
							}()
							if f != nil {
								f.Suite, f.Group = name8, g.key
								if f.Extra == nil {
									f.Extra = map[string]string{}
								}
								res.fail(f)
							}
						}
					}
					return n
				})
			}
		}
		tracePartition(gs, u, pickN(8000, 60000))
	}
}

// suiteLongTokens: texts whose length comes from going round one loop, so that most are a
// single token, sized around the powers of two where buffers, windows and counters end
func suiteLongTokens(g *group, agree bool, p *picker, alpha []uint8) {
	var loops [][]uint8
	for _, x := range alpha {
		loops = append(loops, []uint8{x})
	}
	for _, x := range alpha {
		for _, y := range alpha {
			if x != y {
				loops = append(loops, []uint8{x, y})
			}
		}
	}
	singles := len(alpha)
	name := g.key + ": loops of kinds up to long tokens"
	// the library decodes runes of named byte types by way of a copy of the text
	var gp group
	for _, s := range g.segs {
		if !strings.Contains(s.note, "named") {
			gp.segs = append(gp.segs, s)
		}
	}
	gp.key = g.key
	parallel(name, func(w int, r *rand.Rand) int64 {
		a, plain := newAnyChecker(g, agree), newAnyChecker(&gp, agree)
		for i := w; i < len(loops) && !stopped(); i += nWorkers {
			if i >= singles && !thorough() && r.Intn(4) != 0 {
				continue
			}
			lo, hi := 7, 14
			if i < singles || thorough() {
				hi = 17
			}
			for e := lo; e <= hi; e++ {
				if e < 14 && r.Intn(3) != 0 {
					continue
				}
				size := 1<<uint(e) + r.Intn(40) - 8
				lap := p.text(r, loops[i])
				for len(lap) < 64 && r.Intn(2) == 0 {
					lap += p.text(r, loops[i])
				}
				var b strings.Builder
				if r.Intn(2) == 0 {
					b.WriteString(string(p.pick(r, alpha[r.Intn(len(alpha))])))
				}
				for b.Len() < size {
					b.WriteString(lap)
				}
				for k := r.Intn(3); k > 0; k-- {
					b.WriteString(string(p.pick(r, alpha[r.Intn(len(alpha))])))
				}
				t := b.String()
				switch r.Intn(8) {
				case 0:
					t = bit(r) + t
				case 1:
					t += truncated(r, p, alpha)
				}
				x := a
				if size > 20000 {
					x = plain
				}
				if f := x.all(t, r.Intn(2) == 0); f != nil {
					x.report(name, f)
				}
			}
		}
		plain.runs += a.runs
		return plain.runs
	})
}

// suiteLongLoops: texts with long tokens and look-aheads, some damaged
func suiteLongLoops(g *group, agree bool, sizes []int, n int) {
	longLoops(g, newLoopTexts(g.segs[0], sizes), agree, n)
}

func longLoops(g *group, l *loopTexts, agree bool, n int) {
	sizes := l.sizes
	name := fmt.Sprintf("%s: random loops of up to five kinds repeated up to %d bytes", g.key, sizes[len(sizes)-1])
	var gp group
	for _, s := range g.segs {
		if !strings.Contains(s.note, "named") || sizes[len(sizes)-1] < 5000 {
			gp.segs = append(gp.segs, s)
		}
	}
	gp.key = g.key
	parallel(name, func(w int, r *rand.Rand) int64 {
		a := newAnyChecker(&gp, agree)
		for i := w; i < n && !stopped(); i += nWorkers {
			t := l.text(r)
			if l.sure && strings.Contains(t, "\x1b") {
				continue // many unfinished sequences are looked through again and again
			}
			switch r.Intn(8) {
			case 0:
				if !l.sure {
					t = damage(r, t)
				}
			case 1:
				t += truncated(r, l.p, l.alpha)
			}
			if f := a.all(t, r.Intn(3) == 0); f != nil {
				a.report(name, f)
			}
		}
		return a.runs
	})
}

// tracePartition records what every entry point does, for TLC
func tracePartition(gs []*group, u *utf8auto, n int) {
	t := newTracer("PartitionTrace-all")
	if t == nil {
		return
	}
	defer t.close()
	r := rand.New(rand.NewSource(subSeed("partition trace", 0)))
	texts := 0
	for t.n < n {
		g := gs[r.Intn(len(gs))]
		s := g.segs[0]
		p := s.picker()
		alpha := s.alphabet()
		text := p.text(r, s.randomWord(r, alpha, 12, nil))
		switch r.Intn(3) {
		case 0:
			text = damage(r, text)
		case 1:
			text = bit(r) + text + u.instance(r, u.access[r.Intn(len(u.access))])
		}
		texts++
		t.partition(g, text, r)
	}
	res.info("traced texts", texts)
}

func (t *tracer) partition(g *group, text string, r *rand.Rand) {
	defer func() {
		if x := recover(); x != nil {
			t.emit(ev{"e": "panic"})
		}
	}()
	t.emit(ev{"e": "start", "len": len(text), "seg": g.key, "hex": hex.EncodeToString([]byte(text))})
	limit := len(text)*2 + 4
	it := g.segs[0].str(text)
	var bounds = []int{0}
	iter := func(p string, from int, it iterOf[string], text string, base int) {
		t.emit(ev{"e": "from", "p": p, "b": from})
		for k := 0; k < limit && it.Next(); k++ {
			b, x := it.Start(), it.End()
			ok := 0
			if b >= 0 && x <= len(text) && b <= x && it.Value() == text[b:x] {
				ok = 1
			}
			t.emit(ev{"e": "tok", "p": p, "b": b + base, "x": x + base, "ok": ok})
			bounds = append(bounds, x+base)
		}
		t.emit(ev{"e": "end", "p": p})
	}
	iter("FromString", 0, it, text, 0)
	s := g.segs[r.Intn(len(g.segs))]
	t.emit(ev{"e": "from", "p": "FromBytes", "b": 0})
	ib := s.byt([]byte(text))
	for k := 0; k < limit && ib.Next(); k++ {
		b, x := ib.Start(), ib.End()
		t.emit(ev{"e": "tok", "p": "FromBytes", "b": b, "x": x, "ok": b2i(string(ib.Value()) == text[b:x])})
	}
	t.emit(ev{"e": "end", "p": "FromBytes"})
	if s.split != nil {
		t.emit(ev{"e": "from", "p": "SplitFunc", "b": 0})
		buf := []byte(text)
		pos := 0
		for k := 0; k < limit && pos < len(buf); k++ {
			adv, tok, err := s.split(buf[pos:], true)
			ok := b2i(err == nil && adv > 0 && pos+adv <= len(buf) && string(tok) == string(buf[pos:pos+adv]))
			t.emit(ev{"e": "tok", "p": "SplitFunc", "b": pos, "x": pos + adv, "ok": ok})
			if ok == 0 {
				break
			}
			pos += adv
		}
		t.emit(ev{"e": "end", "p": "SplitFunc"})
	}
	if s.rd != nil {
		t.emit(ev{"e": "from", "p": "FromReader", "b": 0})
		sc := s.rd(&chunkReader{data: text, r: r})
		pos := 0
		for k := 0; k < limit && sc.Scan(); k++ {
			tok := sc.Bytes()
			e := pos + len(tok)
			t.emit(ev{"e": "tok", "p": "FromReader", "b": pos, "x": e, "ok": b2i(e <= len(text) && text[pos:e] == string(tok))})
			pos = e
		}
		if sc.Err() != nil {
			t.emit(ev{"e": "error"})
		}
		t.emit(ev{"e": "end", "p": "FromReader"})
	}
	b := bounds[r.Intn(len(bounds))]
	iter("restart", b, g.segs[0].str(text[b:]), text[b:], b)
	b = bounds[r.Intn(len(bounds))]
	if b < len(text) {
		v := g.segs[0].str(text[b:]).First()
		t.emit(ev{"e": "from", "p": "First", "b": b})
		t.emit(ev{"e": "tok", "p": "First", "b": b, "x": b + len(v), "ok": b2i(strings.HasPrefix(text[b:], v))})
	}
}

// chunkReader delivers data in random pieces
type chunkReader struct {
	data string
	pos  int
	r    *rand.Rand
	max  int
}

func (c *chunkReader) Read(b []byte) (int, error) {
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	n := 1 + c.r.Intn(5)
	if c.max > 0 {
		n = 1 + c.r.Intn(c.max)
	}
	if n > len(b) {
		n = len(b)
	}
	if n > len(c.data)-c.pos {
		n = len(c.data) - c.pos
	}
	copy(b, c.data[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}

func init() {
	props["C01"] = func() {
		anyProp(false)()
		if !stopped() {
			suiteGigabytes()
		}
	}
	props["C06"] = anyProp(true)
	rep := func(agree bool) func(f *failure, raw map[string]json.RawMessage) {
		return func(f *failure, raw map[string]json.RawMessage) {
			for _, g := range allGroups() {
				if f.Group != "" && g.key != f.Group {
					continue
				}
				a := newAnyChecker(g, agree)
				res.count("replay", 1)
				if f.Path == "FromReader" && strings.HasPrefix(f.What, "with a smaller buffer") {
					for _, s := range g.segs {
						if s.rd == nil {
							continue
						}
						sc := s.rd(strings.NewReader(f.Text))
						if len(f.Text) < 64000 {
							sc.Buffer(make([]byte, 0, 16), 2048)
						}
						if _, e := walkScanner(sc, f.Text, nil); e != "" {
							res.fail(&failure{Seg: s.name, Path: f.Path, Text: f.Text, What: "with a smaller buffer than text: " + e, Note: s.note, Extra: s.extra, Group: g.key})
						}
					}
				}
				if x := a.all(f.Text, true); x != nil {
					x.Group = g.key
					res.fail(x)
				}
			}
		}
	}
	replayers["C01"] = rep(false)
	replayers["C06"] = rep(true)
}
