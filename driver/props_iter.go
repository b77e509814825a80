package main

// C09: the iterator protocol.  The state graph that TLC printed for IteratorGraph is walked on
// the real iterators by every call sequence up to a length and by long random walks; histories
// over longer texts are recorded and judged by TLC (IteratorTrace).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/words"
)

// apiIter is one real iterator, with texts and options given by number
type apiIter struct {
	next       func() bool
	value      func() string
	first      func() string
	start, end func() int
	reset      func()
	setText    func(t int)
	setOpt     func(o int)
}

// bind says how to make real iterators for a set of texts
type bind struct {
	name  string
	texts []string
	nopt  int
	mk    func(t, o int) *apiIter
	mem   func() bool // the memory behind the texts is as it was (nil: it cannot be written)
}

func adapt[T string | []byte](texts []T, it iterOf[T], setOpt func(it iterOf[T], o int)) *apiIter {
	return &apiIter{
		next:  it.Next,
		value: func() string { return string(it.Value()) },
		first: func() string { return string(it.First()) },
		start: it.Start, end: it.End, reset: it.Reset,
		setText: func(t int) { it.SetText(texts[t]) },
		setOpt:  func(o int) { setOpt(it, o) },
	}
}

// binds for one configuration: strings and bytes
func bindsOf(name string, texts []string, nopt int, mkS func(string) iterOf[string], mkB func([]byte) iterOf[[]byte],
	optS func(iterOf[string], int), optB func(iterOf[[]byte], int)) []*bind {
	var bs [][]byte
	for _, x := range texts {
		// exact capacity: reading past the end would show
		b := make([]byte, len(x))
		copy(b, x)
		bs = append(bs, b)
	}
	return []*bind{
		{name: name + "/string", texts: texts, nopt: nopt, mk: func(t, o int) *apiIter {
			it := mkS(texts[t])
			if o != 0 {
				optS(it, o)
			}
			return adapt(texts, it, optS)
		}},
		{name: name + "/bytes", texts: texts, nopt: nopt, mk: func(t, o int) *apiIter {
			it := mkB(bs[t])
			if o != 0 {
				optB(it, o)
			}
			return adapt(bs, it, optB)
		}, mem: func() bool {
			for i, b := range bs {
				if string(b) != texts[i] {
					return false
				}
			}
			return true
		}},
	}
}

func ansiBinds(name string, texts []string, opts []ansiCfg) []*bind {
	return bindsOf(name, texts, len(opts),
		func(t string) iterOf[string] { return graphemes.FromString(t) },
		func(t []byte) iterOf[[]byte] { return graphemes.FromBytes(t) },
		func(it iterOf[string], o int) {
			g := it.(*graphemes.Iterator[string])
			g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = opts[o].O7, opts[o].O8
		},
		func(it iterOf[[]byte], o int) {
			g := it.(*graphemes.Iterator[[]byte])
			g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = opts[o].O7, opts[o].O8
		})
}

func joinerBinds(name string, texts []string, opts []joinCfg) []*bind {
	bs := bindsOf(name, texts, len(opts),
		func(t string) iterOf[string] { return words.FromString(t) },
		func(t []byte) iterOf[[]byte] { return words.FromBytes(t) },
		func(it iterOf[string], o int) { it.(*words.Iterator[string]).Joiners(joinersOf[string](opts[o])) },
		func(it iterOf[[]byte], o int) { it.(*words.Iterator[[]byte]).Joiners(joinersOf[[]byte](opts[o])) })
	named := bindsOf(name+"/named", texts, len(opts),
		func(t string) iterOf[string] {
			it := &words.Iterator[namedString]{}
			it.Joiners(nil)
			it.SetText(namedString(t))
			return nsIter{it}
		},
		func(t []byte) iterOf[[]byte] {
			it := &words.Iterator[namedBytes]{}
			it.Joiners(nil)
			it.SetText(namedBytes(t))
			return nbIter{it}
		},
		func(it iterOf[string], o int) { it.(nsIter).Joiners(joinersOf[namedString](opts[o])) },
		func(it iterOf[[]byte], o int) { it.(nbIter).Joiners(joinersOf[namedBytes](opts[o])) })
	return append(bs, named...)
}

func plainBinds(s *seg, name string, texts []string) []*bind {
	return bindsOf(name, texts, 1, s.str, s.byt, nil, nil)
}

// ---------------------------------------------------------------- the printed graph

type iterEdge struct {
	op   string
	arg  int
	ret  []int
	next int
	opt  bool // a SetOpt edge
}
type iterGraph struct {
	texts, opts []string
	text        []int // state -> text
	edges       [][]iterEdge
	init        int
}

// order of texts: as in IteratorMC
var graphTexts = []string{"e", "a", "b", "c", "d"}
var graphOpts = []string{"off", "on"}

func loadIterGraph() *iterGraph {
	g := &iterGraph{}
	idx := map[string]int{}
	pos := func(l []string, s string) int {
		for i, x := range l {
			if x == s {
				return i
			}
		}
		fatal("unexpected %q in IteratorGraph", s)
		return -1
	}
	get := func(b json.RawMessage) int {
		var s struct {
			Start, Pos int
			Text, Opt  string
		}
		if json.Unmarshal(b, &s) != nil {
			fatal("bad IteratorGraph line")
		}
		k := fmt.Sprintf("%s %s %d %d", s.Text, s.Opt, s.Start, s.Pos)
		if i, ok := idx[k]; ok {
			return i
		}
		idx[k] = len(g.edges)
		g.edges = append(g.edges, nil)
		g.text = append(g.text, pos(graphTexts, s.Text))
		return idx[k]
	}
	seen := map[string]bool{}
	eachPrinted(table("IteratorGraph"), func(b []byte) {
		if seen[string(b)] {
			return
		}
		seen[string(b)] = true
		var r struct {
			S, T    json.RawMessage
			Op, Arg string
			Ret     []int
		}
		if json.Unmarshal(b, &r) != nil {
			fatal("bad IteratorGraph line")
		}
		s, t := get(r.S), get(r.T)
		e := iterEdge{op: r.Op, ret: r.Ret, next: t}
		switch r.Op {
		case "SetText":
			e.arg = pos(graphTexts, r.Arg)
		case "SetOpt":
			e.arg = pos(graphOpts, r.Arg)
			e.opt = true
		}
		g.edges[s] = append(g.edges[s], e)
	})
	i, ok := idx["b off 0 0"]
	if !ok {
		fatal("IteratorGraph has no initial state")
	}
	g.init = i
	// the same call has the same number in every state
	for s := range g.edges {
		es := g.edges[s]
		for i := range es {
			for j := i + 1; j < len(es); j++ {
				if es[j].op < es[i].op || es[j].op == es[i].op && es[j].arg < es[i].arg {
					es[i], es[j] = es[j], es[i]
				}
			}
		}
		if len(es) != len(g.edges[g.init]) {
			fatal("IteratorGraph: state %d has %d calls", s, len(es))
		}
	}
	return g
}

// graphBind gives the graph's texts as concatenations of units, each of which is a token
type graphBind struct {
	*bind
	off [][]int // text -> unit -> byte offset
}

func unitsOf(us [][]string) (texts []string, off [][]int) {
	for _, u := range us {
		o := []int{0}
		t := ""
		for _, x := range u {
			t += x
			o = append(o, len(t))
		}
		texts = append(texts, t)
		off = append(off, o)
	}
	return
}

func graphBinds() []*graphBind {
	var out []*graphBind
	add := func(us [][]string, mk func(texts []string) []*bind) {
		texts, off := unitsOf(us)
		for _, b := range mk(texts) {
			out = append(out, &graphBind{b, off})
		}
	}
	an := func(o ansiCfg, name string) func([]string) []*bind {
		return func(t []string) []*bind { return ansiBinds(name, t, []ansiCfg{{}, o}) }
	}
	add([][]string{{}, {"z"}, {"a", "b", "c"}, {"x", "\x1b", "[", "m", "y"}, {"\x1b", "[", "m", "y"}}, an(ansiCfg{true, false}, "graphemes ascii"))
	add([][]string{{}, {"\r\n"}, {"e\u0301", "\U0001F44D\U0001F3FD", "\U0001F1E6\U0001F1E7"}, {"\u0915\u094D\u0937", "\x1b", "]", "\a", "\u1100\u1161"}, {"\x1b", "P", "\x1b\\"[:1], "\\"}}[:4], offOnly(an(ansiCfg{true, true}, "graphemes wide")))
	jn := func(m, l string) func([]string) []*bind {
		return func(t []string) []*bind {
			return joinerBinds("words", t, []joinCfg{{}, {Middle: []rune(m), Leading: []rune(l)}})
		}
	}
	add([][]string{{}, {"a"}, {"a", " ", "b"}, {" ", "a", "-", "b", " "}, {"a", "-", "b", " "}}, jn("-", ""))
	add([][]string{{}, {"hello"}, {"don't", " ", "3.14"}, {"\r\n", "\u00e9t\u00e9", "\u2014", "\u05d0\u0308", "\u4e00"}, {"na\u00efve", "\u2014", "1", "\U0001F469\u200D\U0001F680"}}, offOnly(jn("\u2014", "")))
	add([][]string{{}, {"#"}, {"a", " ", "b"}, {" ", "@", "-", "b", " "}, {"@", "-", "b", " "}}, jn("-", "@"))
	add([][]string{{}, {"a b 1"}, {"ab c", ".", " d"}, {"a", "!", "?", "\u4e00", "\n"}, {"\U0001F600 a", ",", "\r\n", "1,5 b\u0301"}}, func(t []string) []*bind { return plainBinds(segPhrases(), "phrases", t) })
	add([][]string{{}, {"Ab c"}, {"A b. ", "C d? ", "E"}, {"\n", "1.5! ", "A\r\n", "e.g. x\u2029", "\u00c9."}, {"Hi.\u0308\" ", "Yo\u3002", "\u3042\n", "a b"}}, func(t []string) []*bind { return plainBinds(segSentences(), "sentences", t) })
	names := map[string]int{}
	for _, b := range out {
		if names[b.name]++; names[b.name] > 1 {
			b.name += fmt.Sprintf(" #%d", names[b.name])
		}
	}
	return out
}

// the wide grapheme texts and the wide words have no option-dependent token like the graph's c
// and d: options exist but stay off
func offOnly(f func([]string) []*bind) func([]string) []*bind {
	return func(t []string) []*bind {
		bs := f(t)
		for _, b := range bs {
			b.nopt = 1
		}
		return bs
	}
}

// ---------------------------------------------------------------- walking

type apiWalker struct {
	b    *graphBind
	g    *iterGraph
	slot *slot
	at   string
}

func opName(e iterEdge) string {
	switch e.op {
	case "SetText":
		return "SetText(" + graphTexts[e.arg] + ")"
	case "SetOpt":
		return "SetOpt(" + graphOpts[e.arg] + ")"
	}
	return e.op
}

// do performs one call and compares; "" is fine
func (w *apiWalker) do(it *apiIter, s int, e iterEdge) string {
	off := w.b.off[w.g.text[s]]
	text := w.b.texts[w.g.text[s]]
	num := func(got int) string {
		if got != off[e.ret[0]] {
			return fmt.Sprintf("%s()=%d, want %d", e.op, got, off[e.ret[0]])
		}
		return ""
	}
	val := func(got string) string {
		if want := text[off[e.ret[0]]:off[e.ret[1]]]; got != want {
			return fmt.Sprintf("%s()=%+q, want %+q", e.op, got, want)
		}
		return ""
	}
	switch e.op {
	case "Next":
		if got := it.next(); got != (e.ret[0] == 1) {
			return fmt.Sprintf("Next()=%v", got)
		}
	case "Value":
		return val(it.value())
	case "First":
		return val(it.first())
	case "Start":
		return num(it.start())
	case "End":
		return num(it.end())
	case "Reset":
		it.reset()
	case "SetText":
		it.setText(e.arg)
	case "SetOpt":
		it.setOpt(e.arg)
	}
	return ""
}

// history runs calls (edge numbers) on a fresh iterator; observe adds every reading call after each
func (w *apiWalker) history(calls []int, observe bool) (f *failure) {
	var done []string
	fail := func(what string) *failure {
		return &failure{Seg: w.b.name, Suite: "call histories", What: what, Note: "texts " + fmt.Sprintf("%+q", w.b.texts),
			Extra: histReplay{Calls: calls, Observe: observe, Ops: strings.Join(done, " ")}}
	}
	defer func() {
		if r := recover(); r != nil {
			f = fail(fmt.Sprintf("panic: %v", r))
		}
	}()
	it := w.b.mk(2, 0)
	s := w.g.init
	es := w.g.edges[s]
	for _, c := range calls {
		e := es[c]
		if what := w.do(it, s, e); what != "" {
			for _, x := range calls {
				done = append(done, opName(es[x]))
			}
			return fail(what)
		}
		s = e.next
		es = w.g.edges[s]
		if observe {
			for k := 0; k < 2; k++ {
				for _, e := range es {
					switch e.op {
					case "Value", "Start", "End", "First":
						if what := w.do(it, s, e); what != "" {
							for _, x := range calls {
								done = append(done, opName(es[x]))
							}
							return fail(what)
						}
					}
				}
			}
		}
	}
	return nil
}

type histReplay struct {
	Calls   []int  `json:"calls"`
	Observe bool   `json:"observe"`
	Ops     string `json:"ops"`
}

// calls available to the binding
func (w *apiWalker) alphabet() []int {
	var a []int
	for i, e := range w.g.edges[w.g.init] {
		if e.opt && w.b.nopt < 2 {
			continue
		}
		if e.op == "SetText" && e.arg >= len(w.b.texts) {
			continue
		}
		a = append(a, i)
	}
	return a
}

func (w *apiWalker) report(f *failure) {
	h := f.Extra.(histReplay)
	best := f
	for again := true; again; {
		again = false
		for i := range h.Calls {
			c := append(append([]int(nil), h.Calls[:i]...), h.Calls[i+1:]...)
			if g := w.history(c, h.Observe); g != nil {
				best, h, again = g, g.Extra.(histReplay), true
				break
			}
		}
	}
	best.Suite = f.Suite
	res.fail(best)
}

func suiteHistories(L, walks, walkLen int) {
	g := loadIterGraph()
	binds := graphBinds()
	for _, b := range binds {
		b := b
		cover := map[int]bool{}
		parallel("histories "+b.name, func(wk int, r *rand.Rand) int64 {
			w := &apiWalker{b: b, g: g, slot: newSlot()}
			w.slot.watch(b.name, &w.at, "call histories", nil)
			defer w.slot.unwatch()
			alpha := w.alphabet()
			calls := make([]int, L)
			var n int64
			bad := 0
			var rec func(d int)
			rec = func(d int) {
				if d == L {
					n++
					if f := w.history(calls, n%8 == 0); f != nil {
						if bad++; bad < 4 {
							w.report(f)
						}
					}
					if n%1024 == 0 {
						w.slot.watch(b.name, &w.at, "call histories", nil)
					}
					return
				}
				for i, c := range alpha {
					if d == 0 && i%nWorkers != wk || bad > 3 || stopped() {
						continue
					}
					calls[d] = c
					rec(d + 1)
				}
			}
			rec(0)
			for k := 0; k < walks && bad < 4 && !stopped(); k++ {
				long := make([]int, 1+r.Intn(walkLen))
				for i := range long {
					long[i] = alpha[r.Intn(len(alpha))]
					// favour advancing
					if r.Intn(3) == 0 {
						for j, e := range g.edges[g.init] {
							if e.op == "Next" {
								long[i] = j
							}
						}
					}
				}
				n++
				if f := w.history(long, r.Intn(2) == 0); f != nil {
					bad++
					w.report(f)
				}
			}
			return n
		})
		// which edges the sequences of length L reach (by construction from the graph)
		reach := map[int]bool{g.init: true}
		w := &apiWalker{b: b, g: g}
		al := w.alphabet()
		front := []int{g.init}
		for d := 0; d < L; d++ {
			var nx []int
			for _, s := range front {
				for _, c := range al {
					cover[s*100+c] = true
					t := g.edges[s][c].next
					if !reach[t] {
						reach[t] = true
						nx = append(nx, t)
					}
				}
			}
			front = nx
		}
		res.info("graph coverage "+b.name, map[string]int{"states": len(reach), "edges": len(cover)})
	}
	total := 0
	for _, es := range g.edges {
		total += len(es)
	}
	res.info("IteratorGraph", map[string]int{"states": len(g.edges), "edges": total})
}

// ---------------------------------------------------------------- histories on longer texts

// liveBind: a binding together with the token ends (by option and position) of its texts, as
// given by fresh iterators
type liveBind struct {
	*bind
	ends [][][]int // text, option, position
}

func (b *bind) live() (l *liveBind, f *failure) {
	l = &liveBind{bind: b}
	t, p := 0, 0
	defer func() {
		if r := recover(); r != nil {
			f = &failure{Seg: b.name, Text: b.texts[t], Suite: "histories on longer texts", What: fmt.Sprintf("panic on text[%d:]: %v", p, r)}
		}
	}()
	for t = range b.texts {
		text := b.texts[t]
		per := make([][]int, b.nopt)
		for o := range per {
			per[o] = make([]int, len(text)+1)
		}
		need := make([]bool, len(text)+1)
		need[0] = true
		for p = 0; p < len(text); p++ {
			if !need[p] {
				continue
			}
			for o := 0; o < b.nopt; o++ {
				e := b.tokenAt(text[p:], o)
				if e <= 0 || p+e > len(text) {
					return nil, &failure{Seg: b.name, Text: text, Suite: "histories on longer texts", What: fmt.Sprintf("a fresh iterator on text[%d:] gives no token", p)}
				}
				per[o][p] = p + e
				need[p+e] = true
			}
		}
		l.ends = append(l.ends, per)
	}
	return l, nil
}

// tokenAt: length of the first token of t under option o, by a fresh iterator
func (b *bind) tokenAt(t string, o int) int {
	fresh := b.fresh(t)
	it := fresh.mk(0, o)
	if !it.next() {
		return 0
	}
	return it.end()
}

// fresh: the same configuration over another text
func (b *bind) fresh(t string) *bind { return rebind[b.name](t) }

var rebind = map[string]func(string) *bind{}

func liveFamilies() map[string]func(texts []string) []*bind {
	ans := []ansiCfg{{}, {true, false}, {false, true}, {true, true}}
	jos := []joinCfg{{Nil: true}, {Middle: []rune("-@\u2014"), Leading: []rune("#.")}, {Middle: []rune("#1 "), Leading: []rune("-\u0301\u4e00")}}
	return map[string]func([]string) []*bind{
		"graphemes": func(t []string) []*bind { return ansiBinds("graphemes", t, ans) },
		"words":     func(t []string) []*bind { return joinerBinds("words", t, jos) },
		"phrases":   func(t []string) []*bind { return plainBinds(segPhrases(), "phrases", t) },
		"sentences": func(t []string) []*bind { return plainBinds(segSentences(), "sentences", t) },
	}
}

var famNames = []string{"graphemes", "words", "phrases", "sentences"}

func loadRebind(fams map[string]func([]string) []*bind) {
	for _, n := range famNames {
		fam := fams[n]
		for i, b := range fam([]string{""}) {
			i := i
			rebind[b.name] = func(t string) *bind { return fam([]string{t})[i] }
		}
	}
}

var ansiBits = []string{"\x1b[31m", "\x1b]0;t\a", "\x1b]x\x1b\\", "\x1bP1\x1b\\", "\x1b(B", "\x1b7", "\x1b", "\x1b[", "\u0085", "\x9b1m", "\x9d;\x9c", "\x90x\x9c", "\x85", "\x1b]\x18"}
var joinBits = []string{"-", "@", "#", ".", "a-b", "#a", "1-2", "\u2014", "a\u2014b", "-a", " "}

func liveTexts(r *rand.Rand, s *seg, n int) []string {
	var ts []string
	p := s.picker()
	alpha := s.alphabet()
	for i := 0; i < n; i++ {
		var sb strings.Builder
		for k := r.Intn(6); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				sb.WriteString(p.text(r, s.randomWord(r, alpha, 6, nil)))
			case 1:
				if s.name == "graphemes" {
					sb.WriteString(ansiBits[r.Intn(len(ansiBits))])
				} else {
					sb.WriteString(joinBits[r.Intn(len(joinBits))])
				}
			case 2:
				x := damage(r, p.text(r, s.randomWord(r, alpha, 3, nil)))
				sb.WriteString(x)
			default:
				sb.WriteString(bit(r))
			}
			if sb.Len() > 48 {
				break
			}
		}
		ts = append(ts, sb.String())
	}
	return ts
}

// apiCall: one call, its result in the terms of IteratorApi
type apiCall struct {
	op  string
	arg int
	ret []int
	ok  bool
	say string
}

// perform makes the call on the real iterator; text and span are used to express a value as the
// offsets it should have
func perform(it *apiIter, op string, arg int, text string, b, x int) apiCall {
	c := apiCall{op: op, arg: arg, ret: []int{}, ok: true}
	val := func(v string) {
		c.say = v
		c.ret = []int{b, x}
		c.ok = b <= x && x <= len(text) && v == text[b:x]
	}
	switch op {
	case "Next":
		c.ret = []int{b2i(it.next())}
	case "Value":
		val(it.value())
	case "First":
		val(it.first())
	case "Start":
		c.ret = []int{it.start()}
	case "End":
		c.ret = []int{it.end()}
	case "Reset":
		it.reset()
	case "SetText":
		it.setText(arg)
	case "SetOpt":
		it.setOpt(arg)
	}
	return c
}

// randomHistory runs a history on a real iterator next to a Go rendering of IteratorApi; with a
// tracer the same history is written down for TLC, which judges it by itself
func (l *liveBind) randomHistory(r *rand.Rand, n int, tr *tracer) (f *failure) {
	t, o := r.Intn(len(l.texts)), r.Intn(l.nopt)
	if tr != nil {
		var cat []ev
		for i, x := range l.texts {
			cat = append(cat, ev{"len": len(x), "ends": l.ends[i]})
		}
		tr.emit(ev{"e": "start", "texts": cat, "t": t + 1, "o": o + 1, "seg": l.name})
	}
	var log []string
	fail := func(what string) *failure {
		if len(log) > 120 {
			log = log[len(log)-120:]
		}
		return &failure{Seg: l.name, Suite: "histories on longer texts", What: what, Note: fmt.Sprintf("texts %+q", l.texts), Extra: map[string]interface{}{"history": log}}
	}
	defer func() {
		if x := recover(); x != nil {
			if tr != nil {
				tr.emit(ev{"e": "panic"})
			}
			f = fail(fmt.Sprintf("panic: %v", x))
		}
	}()
	it := l.mk(t, o)
	log = append(log, fmt.Sprintf("new(%d,%d)", t, o))
	start, pos := 0, 0
	for k := 0; k < n; k++ {
		op := []string{"Next", "Next", "Next", "Next", "Value", "Start", "End", "First", "Reset", "SetText", "SetOpt"}[r.Intn(11)]
		if (op == "Reset" || op == "SetText") && r.Intn(3) > 0 {
			op = "Next"
		}
		arg := 0
		switch op {
		case "SetText":
			arg = r.Intn(len(l.texts))
		case "SetOpt":
			if l.nopt < 2 {
				op = "Value"
			} else {
				arg = r.Intn(l.nopt)
			}
		}
		text := l.texts[t]
		b, x := start, pos
		if op == "First" {
			b, x = 0, l.ends[t][o][0]
		}
		log = append(log, op+"("+strconv.Itoa(arg)+")")
		c := perform(it, op, arg, text, b, x)
		if tr != nil {
			tr.emit(ev{"e": "call", "op": op, "arg": arg + 1, "ret": c.ret, "ok": b2i(c.ok)})
		}
		switch op {
		case "Next":
			has := pos < len(text)
			if (c.ret[0] == 1) != has {
				return fail(fmt.Sprintf("Next()=%v at %d of %d", c.ret[0] == 1, pos, len(text)))
			}
			if has {
				start, pos = pos, l.ends[t][o][pos]
			}
		case "Value", "First":
			if !c.ok {
				return fail(fmt.Sprintf("%s()=%+q, want text[%d:%d]", op, c.say, b, x))
			}
		case "Start":
			if c.ret[0] != start {
				return fail(fmt.Sprintf("Start()=%d, want %d", c.ret[0], start))
			}
		case "End":
			if c.ret[0] != pos {
				return fail(fmt.Sprintf("End()=%d, want %d", c.ret[0], pos))
			}
		case "Reset":
			start, pos = 0, 0
		case "SetText":
			t, start, pos = arg, 0, 0
		case "SetOpt":
			o = arg
		}
	}
	return nil
}

func suiteLive(rounds, calls, events int) {
	fams := liveFamilies()
	loadRebind(fams)
	names := famNames
	segs := map[string]*seg{}
	for _, n := range names {
		segs[n] = theSeg(n)
		segs[n].picker()
	}
	make1 := func(r *rand.Rand) []*liveBind {
		n := names[r.Intn(len(names))]
		var out []*liveBind
		for _, b := range fams[n](append(liveTexts(r, segs[n], 4), "")) {
			l, f := b.live()
			if f != nil {
				res.fail(f)
				continue
			}
			out = append(out, l)
		}
		return out
	}
	parallel("histories on longer texts", func(wk int, r *rand.Rand) int64 {
		sl := newSlot()
		at := ""
		var n int64
		bad := 0
		for k := 0; k < rounds && bad < 4 && !stopped(); k++ {
			sl.watch("", &at, "histories on longer texts", nil)
			for _, l := range make1(r) {
				for j := 0; j < 4; j++ {
					n++
					if f := l.randomHistory(r, calls, nil); f != nil {
						bad++
						res.fail(f)
						break
					}
				}
			}
			sl.unwatch()
		}
		return n
	})
	tr := newTracer("IteratorTrace-all")
	if tr == nil {
		return
	}
	defer tr.close()
	r := rand.New(rand.NewSource(subSeed("iterator trace", 0)))
	hist := 0
	for tr.n < events && !stopped() {
		for _, l := range make1(r) {
			l.randomHistory(r, 40, tr)
			hist++
		}
	}
	res.info("traced histories", hist)
}

func init() {
	props["C09"] = func() {
		suiteHistories(pickN(5, 6), pickN(1000, 20000), 300)
		suiteLive(pickN(120, 3000), 150, pickN(4000, 40000))
		suiteLitHistories(pickN(12000, 200000))
	}
	replayers["C09"] = func(f *failure, raw map[string]json.RawMessage) {
		var h histReplay
		if json.Unmarshal(raw["extra"], &h) != nil || len(h.Calls) == 0 {
			fatal("this finding is replayed by running the check with the seed in the file")
		}
		g := loadIterGraph()
		for _, b := range graphBinds() {
			if b.name != f.Seg {
				continue
			}
			w := &apiWalker{b: b, g: g}
			res.count("replay", 1)
			if x := w.history(h.Calls, h.Observe); x != nil {
				res.fail(x)
			}
		}
	}
}
