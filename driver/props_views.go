package main

// C23: tokens are views of the caller's memory (ViewsMC.tla).  The state graphs that TLC printed
// are walked on real iterators over a byte slice that the walk itself writes to; longer histories,
// scanners whose tokens are scribbled over, and the memory used by walks are recorded and judged
// by TLC (ViewsTrace).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/words"
)

// place: where in mem the slice t lies; -1 if elsewhere
func place(mem, t []byte) int {
	if len(t) == 0 || len(mem) == 0 {
		return -1
	}
	a, b := uintptr(unsafe.Pointer(&mem[0])), uintptr(unsafe.Pointer(&t[0]))
	if b < a || b+uintptr(len(t)) > a+uintptr(len(mem)) {
		return -1
	}
	return int(b - a)
}

// viewSeg: an iterator over bytes in some configuration
type viewSeg struct {
	name string
	mk   func([]byte) iterOf[[]byte]
}

func viewSegs(joiners bool) []viewSeg {
	var out []viewSeg
	for _, s := range []*seg{segGraphemes(), segWords(), segPhrases(), segSentences()} {
		out = append(out, viewSeg{s.name, s.byt})
	}
	out = append(out, viewSeg{"words named type", func(b []byte) iterOf[[]byte] {
		it := &words.Iterator[namedBytes]{}
		it.Joiners(nil)
		it.SetText(b)
		return nbIter{it}
	}})
	if joiners {
		for _, c := range []joinCfg{{Middle: []rune("-@"), Leading: []rune("#.")}, {Middle: []rune(" 1\u0301"), Leading: []rune("-\u4e00")}} {
			c := c
			out = append(out, viewSeg{"words " + c.String(), func(b []byte) iterOf[[]byte] {
				it := words.FromBytes(b)
				it.Joiners(joinersOf[[]byte](c))
				return it
			}})
		}
		for _, o := range []ansiCfg{{true, false}, {true, true}} {
			out = append(out, viewSeg{fmt.Sprintf("graphemes %+v", o), segAnsi(o.O7, o.O8).byt})
		}
	}
	return out
}

// ---------------------------------------------------------------- the printed graphs

type viewState struct {
	mem            []string
	lo, hi, st, ps int
	edges          []viewEdge
}
type viewEdge struct {
	op   string
	a, b int
	kind string
	next int
}
type viewGraph struct {
	name   string
	states []viewState
	starts []int // nothing done yet, any memory
}

func loadViewGraph(name string) *viewGraph {
	g := &viewGraph{name: name}
	idx := map[string]int{}
	type spos struct{ Lo, Hi, Start, Pos int }
	get := func(m []string, s spos) int {
		k := fmt.Sprint(m, s)
		if i, ok := idx[k]; ok {
			return i
		}
		idx[k] = len(g.states)
		g.states = append(g.states, viewState{mem: m, lo: s.Lo, hi: s.Hi, st: s.Start, ps: s.Pos})
		if s == (spos{0, len(m), 0, 0}) {
			g.starts = append(g.starts, idx[k])
		}
		return idx[k]
	}
	eachPrinted(table("ViewsGraph"+name), func(b []byte) {
		var r struct {
			M, N []string
			S, T spos
			Op   string
			A    int
			B    json.RawMessage
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fatal("bad ViewsGraph line: %v", err)
		}
		e := viewEdge{op: r.Op, a: r.A, next: get(r.N, r.T)}
		if r.Op == "Write" {
			json.Unmarshal(r.B, &e.kind)
		} else {
			json.Unmarshal(r.B, &e.b)
		}
		s := get(r.M, r.S)
		g.states[s].edges = append(g.states[s].edges, e)
	})
	for i := range g.states {
		// advancing first: it is call 0 in every state
		es := g.states[i].edges
		for j := range es {
			if es[j].op == "Next" {
				es[0], es[j] = es[j], es[0]
			}
		}
	}
	if len(g.starts) == 0 {
		fatal("ViewsGraph%s has no initial state", name)
	}
	return g
}

// viewWorld: a graph with a real segmenter and characters of one width for its kinds
type viewWorld struct {
	g     *viewGraph
	s     viewSeg
	chars map[string]string
	w     int
}

func viewWorlds() []*viewWorld {
	var out []*viewWorld
	graphs := map[string]*viewGraph{}
	for _, n := range []string{"Word", "Phrase", "Grapheme", "Sentence"} {
		graphs[n] = loadViewGraph(n)
		res.info("ViewsGraph"+n, map[string]int{"states": len(graphs[n].states), "starts": len(graphs[n].starts)})
	}
	segs := map[string]viewSeg{}
	for _, s := range viewSegs(false) {
		segs[s.name] = s
	}
	add := func(g, s string, c ...string) {
		m := map[string]string{}
		for i := 0; i < len(c); i += 2 {
			m[c[i]] = c[i+1]
		}
		out = append(out, &viewWorld{g: graphs[g], s: segs[s], chars: m, w: len(c[1])})
	}
	for _, s := range []string{"words", "words named type"} {
		add("Word", s, "ALetter", "a", "MidLetter", ":", "WSegSpace", " ")
		add("Word", s, "ALetter", "\u1e00", "MidLetter", "\ufe13", "WSegSpace", "\u2003")
	}
	add("Phrase", "phrases", "ALetter", "a", "MidLetter", ":", "WSegSpace", " ")
	add("Phrase", "phrases", "ALetter", "\u1e00", "MidLetter", "\ufe55", "WSegSpace", "\u3000")
	add("Grapheme", "graphemes", "Consonant", "\u0915", "Linker", "\u094d", "Other", "\u4e00")
	add("Sentence", "sentences", "Lower", "a", "ATerm", ".", "Upper", "A")
	add("Sentence", "sentences", "Lower", "\u1e01", "ATerm", "\u2024", "Upper", "\u1e00")
	return out
}

type viewHeld struct {
	t        []byte
	at, size int
}

// history: from memory `start', follow the edges chosen by pick (negative: stop)
func (v *viewWorld) history(start int, pick func(step, n int) int) (f *failure) {
	g := v.g
	s := start
	var log []string
	var picks []int
	mem := []byte{}
	for _, k := range g.states[s].mem {
		mem = append(mem, v.chars[k]...)
	}
	log = append(log, fmt.Sprintf("memory %+q", mem))
	fail := func(what string) *failure {
		return &failure{Seg: v.s.name, Suite: "memory histories", What: what, Note: strings.Join(log, "; "),
			Extra: map[string]interface{}{"graph": g.name, "start": start, "picks": picks, "width": v.w}}
	}
	defer func() {
		if r := recover(); r != nil {
			f = fail(fmt.Sprintf("panic: %v", r))
		}
	}()
	want := append([]byte(nil), mem...)
	it := v.s.mk(mem[:len(mem):len(mem)])
	var held []viewHeld
	keep := func(what string, t []byte, lo, hi int) string {
		lo, hi = lo*v.w, hi*v.w
		if !bytes.Equal(t, want[lo:hi]) {
			return fmt.Sprintf("%s is %+q, want %+q", what, t, want[lo:hi])
		}
		if lo < hi {
			if p := place(mem, t); p != lo {
				return fmt.Sprintf("%s is not bytes %d to %d of the caller's memory", what, lo, hi)
			}
			if len(held) < 12 {
				held = append(held, viewHeld{t, lo, hi - lo})
			}
		}
		return ""
	}
	for step := 0; ; step++ {
		es := g.states[s].edges
		i := pick(step, len(es))
		if i < 0 {
			return nil
		}
		picks = append(picks, i)
		e := es[i]
		n := g.states[e.next]
		switch e.op {
		case "Next":
			log = append(log, "Next")
			was := g.states[s]
			if got, w := it.Next(), was.ps < was.hi-was.lo; got != w {
				return fail(fmt.Sprintf("Next()=%v, want %v", got, w))
			}
		case "First":
			log = append(log, "First")
			if m := keep("First()", it.First(), e.a, e.b); m != "" {
				return fail(m)
			}
		case "Reset":
			log = append(log, "Reset")
			it.Reset()
		case "SetText":
			log = append(log, fmt.Sprintf("SetText(memory[%d:%d])", e.a*v.w, e.b*v.w))
			it.SetText(mem[e.a*v.w : e.b*v.w])
		case "Write":
			log = append(log, fmt.Sprintf("write %+q at %d", v.chars[e.kind], (e.a-1)*v.w))
			copy(mem[(e.a-1)*v.w:], v.chars[e.kind])
			copy(want[(e.a-1)*v.w:], v.chars[e.kind])
		}
		s = e.next
		if it.Start() != n.st*v.w || it.End() != n.ps*v.w {
			return fail(fmt.Sprintf("at [%d,%d), want [%d,%d)", it.Start(), it.End(), n.st*v.w, n.ps*v.w))
		}
		if m := keep("Value()", it.Value(), n.lo+n.st, n.lo+n.ps); m != "" {
			return fail(m)
		}
		if !bytes.Equal(mem, want) {
			return fail(fmt.Sprintf("the memory is %+q, want %+q", mem, want))
		}
		for _, h := range held {
			if !bytes.Equal(h.t, want[h.at:h.at+h.size]) {
				return fail(fmt.Sprintf("a token kept from [%d,%d) shows %+q, the memory there is %+q", h.at, h.at+h.size, h.t, want[h.at:h.at+h.size]))
			}
		}
	}
}

func (v *viewWorld) report(f *failure) {
	x := f.Extra.(map[string]interface{})
	start, picks := x["start"].(int), x["picks"].([]int)
	run := func(p []int) *failure {
		return v.history(start, func(step, n int) int {
			if step >= len(p) || p[step] >= n {
				return -1
			}
			return p[step]
		})
	}
	best := f
	for again := true; again; {
		again = false
		for i := range picks {
			c := append(append([]int(nil), picks[:i]...), picks[i+1:]...)
			if g := run(c); g != nil {
				best, picks, again = g, g.Extra.(map[string]interface{})["picks"].([]int), true
				break
			}
		}
	}
	res.fail(best)
}

func suiteViewHistories(L, walks, walkLen int) {
	for _, v := range viewWorlds() {
		v := v
		parallel("memory histories "+v.s.name, func(wk int, r *rand.Rand) int64 {
			var n int64
			bad := 0
			sl := newSlot()
			at := ""
			sl.watch(v.s.name, &at, "memory histories", nil)
			defer sl.unwatch()
			ctr := make([]int, L)
			for i, s := range v.g.starts {
				if i%nWorkers != wk || bad > 2 || stopped() {
					continue
				}
				for d := range ctr {
					ctr[d] = 0
				}
				sl.watch(v.s.name, &at, "memory histories", nil)
				for {
					var sizes [8]int
					f := v.history(s, func(step, m int) int {
						if step >= L {
							return -1
						}
						sizes[step] = m
						return ctr[step]
					})
					n++
					if f != nil {
						bad++
						v.report(f)
						break
					}
					d := L - 1
					for ; d >= 0; d-- {
						if ctr[d]++; ctr[d] < sizes[d] {
							break
						}
						ctr[d] = 0
					}
					if d < 0 {
						break
					}
				}
			}
			for k := 0; k < walks && bad < 3 && !stopped(); k++ {
				n++
				m := 1 + r.Intn(walkLen)
				f := v.history(v.g.starts[r.Intn(len(v.g.starts))], func(step, e int) int {
					if step >= m {
						return -1
					}
					if r.Intn(3) == 0 {
						return 0 // advance
					}
					return r.Intn(e)
				})
				if f != nil {
					bad++
					v.report(f)
				}
			}
			return n
		})
	}
}

// ---------------------------------------------------------------- histories on longer texts

func byteInts(b []byte) []int {
	o := make([]int, len(b))
	for i, x := range b {
		o[i] = int(x)
	}
	return o
}

// freshLen: the first token of a copy of c
func (v viewSeg) freshLen(c []byte) int {
	if len(c) == 0 {
		return 0
	}
	it := v.mk(append([]byte(nil), c...))
	if !it.Next() {
		return 0
	}
	return it.End()
}

func randomBytes(r *rand.Rand, s *seg, n int) []byte {
	var b []byte
	for len(b) < n {
		for _, t := range liveTexts(r, s, 2) {
			b = append(b, t...)
		}
		b = append(b, "a b"[r.Intn(3)])
	}
	return b[:n]
}

func (v viewSeg) random(r *rand.Rand, s *seg, n int, tr *tracer) (f *failure) {
	mem := randomBytes(r, s, 8+r.Intn(40))
	want := append([]byte(nil), mem...)
	part := func() (int, int) {
		a, b := r.Intn(len(mem)+1), r.Intn(len(mem)+1)
		if a > b {
			a, b = b, a
		}
		if r.Intn(3) == 0 {
			return 0, len(mem)
		}
		return a, b
	}
	type user struct {
		it             iterOf[[]byte]
		lo, hi, st, ps int
	}
	var us []*user
	var log []string
	log = append(log, fmt.Sprintf("memory %+q", mem))
	var its []ev
	for i := 1 + r.Intn(2); i >= 0; i-- {
		lo, hi := part()
		us = append(us, &user{it: v.mk(mem[lo:hi]), lo: lo, hi: hi})
		its = append(its, ev{"lo": lo, "hi": hi})
		log = append(log, fmt.Sprintf("iterator %d over [%d:%d]", len(us)-1, lo, hi))
	}
	if tr != nil {
		tr.emit(ev{"e": "start", "mem": byteInts(mem), "its": its, "seg": v.name})
	}
	emit := func(e ev) {
		if tr != nil {
			tr.emit(e)
		}
	}
	fail := func(what string) *failure {
		if len(log) > 100 {
			log = append(log[:1], log[len(log)-99:]...)
		}
		return &failure{Seg: v.name, Suite: "memory histories on longer texts", What: what, Extra: map[string]interface{}{"history": log}}
	}
	defer func() {
		if x := recover(); x != nil {
			emit(ev{"e": "panic"})
			f = fail(fmt.Sprintf("panic: %v", x))
		}
	}()
	var held []viewHeld
	show := func(t []byte) ev {
		p := place(mem, t)
		if p < 0 {
			return ev{"lo": 0, "hi": 0, "bytes": byteInts(t)}
		}
		return ev{"lo": p, "hi": p + len(t), "bytes": byteInts(t)}
	}
	token := func(what string, t []byte, lo, hi int) *failure {
		if lo < hi && (place(mem, t) != lo || len(t) != hi-lo) {
			return fail(fmt.Sprintf("%s is not bytes %d to %d of the caller's memory", what, lo, hi))
		}
		if !bytes.Equal(t, want[lo:hi]) {
			return fail(fmt.Sprintf("%s is %+q, want %+q", what, t, want[lo:hi]))
		}
		if lo < hi {
			held = append(held, viewHeld{t, lo, hi - lo})
		}
		return nil
	}
	for k := 0; k < n; k++ {
		w := r.Intn(len(us))
		u := us[w]
		switch op := r.Intn(14); {
		case op < 6:
			fl := v.freshLen(want[u.lo+u.ps : u.hi])
			log = append(log, fmt.Sprintf("Next(%d)", w))
			ok := u.it.Next()
			t := u.it.Value()
			e := show(t)
			e["e"], e["w"], e["fl"], e["ret"] = "next", w+1, fl, b2i(ok)
			emit(e)
			if ok != (u.ps < u.hi-u.lo) {
				return fail(fmt.Sprintf("Next()=%v at %d of %d", ok, u.ps, u.hi-u.lo))
			}
			if ok {
				u.st, u.ps = u.ps, u.ps+fl
				if f := token("Value()", t, u.lo+u.st, u.lo+u.ps); f != nil {
					return f
				}
				if u.it.Start() != u.st || u.it.End() != u.ps {
					return fail(fmt.Sprintf("at [%d,%d), want [%d,%d)", u.it.Start(), u.it.End(), u.st, u.ps))
				}
			}
		case op == 6:
			if u.lo == u.hi {
				continue
			}
			fl := v.freshLen(want[u.lo:u.hi])
			log = append(log, fmt.Sprintf("First(%d)", w))
			t := u.it.First()
			e := show(t)
			e["e"], e["w"], e["fl"] = "first", w+1, fl
			emit(e)
			if f := token("First()", t, u.lo, u.lo+fl); f != nil {
				return f
			}
		case op == 7:
			if r.Intn(3) > 0 {
				continue
			}
			log = append(log, fmt.Sprintf("Reset(%d)", w))
			u.it.Reset()
			u.st, u.ps = 0, 0
			emit(ev{"e": "reset", "w": w + 1})
		case op == 8:
			if r.Intn(3) > 0 {
				continue
			}
			u.lo, u.hi = part()
			u.st, u.ps = 0, 0
			log = append(log, fmt.Sprintf("SetText(%d, [%d:%d])", w, u.lo, u.hi))
			u.it.SetText(mem[u.lo:u.hi])
			emit(ev{"e": "set", "w": w + 1, "lo": u.lo, "hi": u.hi})
		case op < 12:
			// the caller writes: somewhere, or in a token already given
			at := r.Intn(len(mem))
			b := randomBytes(r, s, 1+r.Intn(6))
			if len(held) > 0 && r.Intn(2) == 0 {
				h := held[len(held)-1-r.Intn(minInt(len(held), 3))]
				at = h.at
				for len(b) < h.size {
					b = append(b, b...)
				}
				b = b[:h.size]
			}
			if at+len(b) > len(mem) {
				b = b[:len(mem)-at]
			}
			log = append(log, fmt.Sprintf("write %+q at %d", b, at))
			copy(mem[at:], b)
			copy(want[at:], b)
			emit(ev{"e": "write", "at": at, "bytes": byteInts(b)})
		default:
			if len(held) == 0 {
				continue
			}
			i := r.Intn(len(held))
			h := held[i]
			emit(ev{"e": "held", "k": i + 1, "bytes": byteInts(h.t)})
			if !bytes.Equal(h.t, want[h.at:h.at+h.size]) {
				return fail(fmt.Sprintf("a token kept from [%d,%d) shows %+q, the memory there is %+q", h.at, h.at+h.size, h.t, want[h.at:h.at+h.size]))
			}
		}
		if !bytes.Equal(mem, want) {
			return fail(fmt.Sprintf("the memory is %+q, want %+q", mem, want))
		}
	}
	return nil
}

// scribbled: a scanner whose tokens the caller overwrites, or a split function's
func scribbled(s *seg, text []byte, sched []readStep, split bool, r *rand.Rand, tr *tracer) (f *failure) {
	v := viewSeg{s.name, s.byt}
	own := append([]byte(nil), text...) // what the reader, or the split function, is given
	fail := func(what string, a ...interface{}) *failure {
		return &failure{Seg: s.name, Text: string(text), Suite: "tokens written over", What: fmt.Sprintf(what, a...), Note: s.note, Extra: map[string]interface{}{"split": split}}
	}
	emit := func(e ev) {
		if tr != nil {
			tr.emit(e)
		}
	}
	defer func() {
		if x := recover(); x != nil {
			emit(ev{"e": "panic"})
			f = fail("panic: %v", x)
		}
	}()
	emit(ev{"e": "stream", "mem": byteInts(text), "seg": s.name})
	var sc scanner
	if !split {
		sc = s.rd(&scheduled{data: own, sched: sched})
	}
	pos := 0
	var kept []string
	for {
		fl := v.freshLen(text[pos:])
		var t []byte
		ok := false
		if split {
			if pos < len(own) {
				adv, tok, err := s.split(own[pos:], true)
				if err != nil || adv != len(tok) {
					return fail("split gives %d, %+q, %v", adv, tok, err)
				}
				if place(own, tok) != pos {
					return fail("the token at %d is not the caller's memory", pos)
				}
				t, ok = tok, true
			}
		} else if ok = sc.Scan(); ok {
			t = sc.Bytes()
		}
		emit(ev{"e": "scan", "fl": fl, "ret": b2i(ok), "bytes": byteInts(t)})
		if ok != (pos < len(text)) {
			return fail("stopped at %d of %d, or went on", pos, len(text))
		}
		if !ok {
			break
		}
		if !bytes.Equal(t, text[pos:pos+fl]) {
			return fail("the token at %d is %+q, want %+q", pos, t, text[pos:pos+fl])
		}
		pos += fl
		if split {
			kept = append(kept, string(t))
		} else {
			kept = append(kept, sc.Text())
		}
		// write over the token, all of it
		b := randomBytes(r, s, len(t))
		copy(t, b)
		emit(ev{"e": "scribble", "bytes": byteInts(b)})
	}
	p := 0
	for i, k := range kept {
		if tr != nil && r.Intn(3) == 0 {
			emit(ev{"e": "text", "k": i + 1, "bytes": byteInts([]byte(k))})
		}
		if k != string(text[p:p+len(k)]) {
			return fail("a text kept became %+q", k)
		}
		p += len(k)
	}
	return nil
}

// scheduled delivers data in pieces
type scheduled struct {
	data  []byte
	sched []readStep
}

func (q *scheduled) Read(p []byte) (int, error) {
	n := len(q.data)
	if len(q.sched) > 0 {
		n = minInt(n, q.sched[0].N)
		q.sched = q.sched[1:]
	}
	n = copy(p, q.data[:minInt(n, len(q.data))])
	q.data = q.data[n:]
	if n == 0 && len(q.data) == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func suiteViewRandom(rounds, calls, events int) {
	segs := map[string]*seg{}
	for _, n := range famNames {
		segs[n] = theSeg(n)
		segs[n].picker()
	}
	base := func(v viewSeg) *seg { return segs[strings.Fields(v.name)[0]] }
	all := viewSegs(true)
	js := joinerStreamSegs()
	streams := func(r *rand.Rand, tr *tracer) *failure {
		s := segs[famNames[r.Intn(4)]]
		text := randomBytes(r, s, 1+r.Intn(60))
		run := s
		split := r.Intn(2) == 0
		if s.name == "words" && r.Intn(3) == 0 {
			run, split = js[r.Intn(len(js))], false
		}
		return scribbled(run, text, steps(r, len(text), 1+r.Intn(8), "eof"), split, r, tr)
	}
	parallel("memory histories on longer texts", func(wk int, r *rand.Rand) int64 {
		sl := newSlot()
		at := ""
		var n int64
		bad := 0
		for k := 0; k < rounds && bad < 4 && !stopped(); k++ {
			sl.watch("", &at, "memory histories on longer texts", nil)
			for _, v := range all {
				n++
				if f := v.random(r, base(v), calls, nil); f != nil {
					bad++
					res.fail(f)
				}
				if f := streams(r, nil); f != nil {
					bad++
					res.fail(f)
				}
			}
			sl.unwatch()
		}
		return n
	})
	tr := newTracer("ViewsTrace-all")
	if tr == nil {
		return
	}
	defer tr.close()
	suiteHeap(tr)
	r := rand.New(rand.NewSource(subSeed("views trace", 0)))
	for tr.n < events && !stopped() {
		for _, v := range all {
			v.random(r, base(v), 40, tr)
			streams(r, tr)
		}
	}
}

// ---------------------------------------------------------------- memory used

// mallocs: allocations and bytes of one run of f, the least of a few
func mallocs(f func()) (n, b uint64) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	n, b = ^uint64(0), ^uint64(0)
	for k := 0; k < 4; k++ {
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&z)
		if x := z.Mallocs - a.Mallocs; x < n {
			n = x
		}
		if x := z.TotalAlloc - a.TotalAlloc; x < b {
			b = x
		}
	}
	return
}

func drain[T any](it iterOf[T]) {
	for it.Next() {
		_ = it.Value()
		_ = it.Start()
		_ = it.End()
	}
}

func suiteHeap(tr *tracer) {
	r := rand.New(rand.NewSource(subSeed("heap", 0)))
	const times = 40
	check := func(name, unit string, slackN, slackB uint64, walk func(t string) func()) {
		sn, sb := mallocs(walk(unit))
		ln, lb := mallocs(walk(strings.Repeat(unit, times)))
		res.count("memory used by walks", 1)
		tr.emit(ev{"e": "heap", "what": name + ": allocations", "small": sn, "large": ln, "slack": slackN})
		tr.emit(ev{"e": "heap", "what": name + ": bytes", "small": sb, "large": lb, "slack": slackB})
		if ln > sn+slackN || lb > sb+slackB {
			res.fail(&failure{Seg: name, Suite: "memory used by walks", Text: unit,
				What: fmt.Sprintf("%d allocations (%d bytes) for a text, %d (%d bytes) for %d times that text", sn, sb, ln, lb, times)})
		}
	}
	for _, n := range famNames {
		s := theSeg(n)
		for i := 0; i < 3; i++ {
			unit := ""
			switch i {
			case 0:
				for len(unit) < 6000 {
					unit += bit(r)
				}
			case 1:
				p := s.picker()
				for len(unit) < 6000 {
					unit += p.text(r, s.randomWord(r, s.alphabet(), 12, nil))
				}
			case 2:
				unit = string(randomBytes(r, s, 6000))
			}
			str := func(mk func(string) iterOf[string]) func(string) func() {
				return func(t string) func() {
					it := mk(t)
					return func() { it.Reset(); drain(it); it.First() }
				}
			}
			byt := func(mk func([]byte) iterOf[[]byte]) func(string) func() {
				return func(t string) func() {
					it := mk([]byte(t))
					return func() { it.Reset(); drain(it); it.First() }
				}
			}
			check(n+" string", unit, 16, 8192, str(s.str))
			check(n+" bytes", unit, 16, 8192, byt(s.byt))
			check(n+" split function", unit, 16, 8192, func(t string) func() {
				b := []byte(t)
				return func() {
					for p := 0; p < len(b); {
						a, _, _ := s.split(b[p:], true)
						if a <= 0 {
							return
						}
						p += a
					}
				}
			})
			check(n+" scanner", unit, 64, 400000, func(t string) func() {
				return func() {
					sc := s.rd(strings.NewReader(t))
					for sc.Scan() {
						_ = sc.Bytes()
					}
				}
			})
			switch n {
			case "words":
				for _, c := range []joinCfg{{Middle: []rune("-@\u2014"), Leading: []rune("#.\u4e00")}} {
					j := segJoiners(c, false)
					check("words with joiners, string", unit, 16, 8192, str(j.str))
					check("words with joiners, bytes", unit, 16, 8192, byt(j.byt))
					check("words with joiners, scanner", unit, 64, 400000, func(t string) func() {
						return func() {
							sc := j.rd(strings.NewReader(t))
							for sc.Scan() {
								_ = sc.Bytes()
							}
						}
					})
				}
			case "graphemes":
				a := segAnsi(true, true)
				check("graphemes with ANSI options, string", unit, 16, 8192, str(a.str))
				check("graphemes with ANSI options, bytes", unit, 16, 8192, byt(a.byt))
			}
		}
	}
}

func init() {
	props["C23"] = func() {
		suiteViewHistories(4, pickN(4000, 40000), 120)
		suiteViewRandom(pickN(1500, 30000), 80, pickN(10000, 40000))
		suiteLitMemory(pickN(20000, 300000))
	}
	replayers["C23"] = func(f *failure, raw map[string]json.RawMessage) {
		var x struct {
			Graph string `json:"graph"`
			Start int    `json:"start"`
			Picks []int  `json:"picks"`
			Width int    `json:"width"`
		}
		if json.Unmarshal(raw["extra"], &x) != nil || x.Graph == "" {
			fatal("this finding is replayed by running the check with the seed in the file")
		}
		for _, v := range viewWorlds() {
			if v.s.name != f.Seg || v.g.name != x.Graph || v.w != x.Width {
				continue
			}
			res.count("replay", 1)
			if g := v.history(x.Start, func(step, n int) int {
				if step >= len(x.Picks) || x.Picks[step] >= n {
					return -1
				}
				return x.Picks[step]
			}); g != nil {
				res.fail(g)
			}
		}
	}
}
