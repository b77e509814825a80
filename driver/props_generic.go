package main

// C17: iterators driven by a caller's split function.  The function answers from a script; the
// state graph that TLC printed (GenericGraph) says what every call must then do.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

// scripted is the caller's function, seen from outside
type scripted struct {
	text   string
	script []int
	seen   [][2]int
	wrong  string // what the iterator passed that it should not have
	r      *rand.Rand
}

var splitErrors = []error{errors.New("caller's error"), io.EOF, bufio.ErrFinalToken, io.ErrUnexpectedEOF}

func (s *scripted) answer(data string, atEOF bool) (int, error) {
	if !atEOF {
		s.wrong = "the function is told that more may come"
	}
	from := len(s.text) - len(data)
	if from < 0 || s.text[from:] != data {
		s.wrong = fmt.Sprintf("the function is given %+q, which does not end the text %+q", data, s.text)
		from = 0
	}
	s.seen = append(s.seen, [2]int{from, len(s.text)})
	if len(data) == 0 {
		s.wrong = "the function is asked about nothing"
		return 0, nil
	}
	rest := len(data)
	switch a := s.script[from]; {
	case a == -3:
		return 1, splitErrors[s.r.Intn(len(splitErrors))]
	case a == -2:
		return 0, splitErrors[s.r.Intn(len(splitErrors))]
	case a == -1:
		return []int{-1, -2, -rest, -from - 1, math.MinInt64}[s.r.Intn(5)], nil
	case a > rest:
		return []int{rest + 1, rest + 1, rest + 2, rest + 7, math.MaxInt64, math.MaxInt64 - from}[s.r.Intn(6)], nil
	default:
		return a, nil
	}
}

// genIter is an iterator under a scripted function
type genIter struct {
	s       *scripted
	next    func() bool
	first   func() string
	value   func() string
	start   func() int
	end     func() int
	reset   func()
	setText func(string)
	split   func([]int)
}

type genBind struct {
	name  string
	short bool
	mk    func(text string, script []int, r *rand.Rand) *genIter
}

type splitter[T ~string | ~[]byte] interface {
	Next() bool
	First() T
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
}

func genBindOf[T ~string | ~[]byte](name string, short bool, mk func(f func(T, bool) (int, T, error), text T) (splitter[T], func(func(T, bool) (int, T, error)))) *genBind {
	return &genBind{name, short, func(text string, script []int, r *rand.Rand) *genIter {
		s := &scripted{text: text, script: script, r: r}
		f := func() func(d T, atEOF bool) (int, T, error) {
			return func(d T, atEOF bool) (int, T, error) {
				n, err := s.answer(string(d), atEOF)
				var tok T
				// the token returned by the function is not what the iterator goes by
				if len(d) > 1 && r.Intn(2) == 0 {
					tok = d[1:]
				}
				return n, tok, err
			}
		}
		conv := func(t string) T {
			// with room behind it, which must never show
			return T(append(make([]byte, 0, len(t)+16), t...))
		}
		it, set := mk(f(), conv(text))
		return &genIter{s: s,
			next: it.Next, first: func() string { return string(it.First()) }, value: func() string { return string(it.Value()) },
			start: it.Start, end: it.End, reset: it.Reset,
			setText: func(t string) { s.text = t; it.SetText(conv(t)) },
			split:   func(sc []int) { s.script = sc; set(f()) }}
	}}
}

func wordsGen[T ~string | ~[]byte](name string, mk func(T) *words.Iterator[T]) *genBind {
	return genBindOf(name, false, func(f func(T, bool) (int, T, error), text T) (splitter[T], func(func(T, bool) (int, T, error))) {
		it := mk(text)
		it.Split(f)
		return it, func(f func(T, bool) (int, T, error)) { it.Split(f) }
	})
}

func internalGen[T ~string | ~[]byte](name string) *genBind {
	return genBindOf(name, true, func(f func(T, bool) (int, T, error), text T) (splitter[T], func(func(T, bool) (int, T, error))) {
		it := iterators.New(iterators.SplitFunc[T](f), text)
		return it, func(f func(T, bool) (int, T, error)) { it.Split(f) }
	})
}

func genBinds() []*genBind {
	return []*genBind{
		wordsGen("words/string", words.FromString),
		wordsGen("words/bytes", words.FromBytes),
		wordsGen("words/named string", func(t namedString) *words.Iterator[namedString] {
			it := &words.Iterator[namedString]{}
			it.SetText(t)
			return it
		}),
		wordsGen("words/named bytes", func(t namedBytes) *words.Iterator[namedBytes] {
			it := &words.Iterator[namedBytes]{}
			it.SetText(t)
			return it
		}),
		wordsGen("words/joiners first", func(t string) *words.Iterator[string] {
			it := words.FromString(t)
			it.Joiners(&words.Joiners[string]{Middle: []rune("-"), Leading: []rune("#a")})
			return it
		}),
		internalGen[string]("internal/string"),
		internalGen[[]byte]("internal/bytes"),
		internalGen[namedString]("internal/named string"),
	}
}

type genOut struct {
	ret, seen []int
	next      int
}
type genEdge struct {
	op  string
	arg []int // SetText: [n]; Split: the script
	out []genOut
}
type genGraph struct {
	length, pos []int
	script      [][]int
	mode        []string
	edges       [][]genEdge
	inits       []int
}

func loadGenGraph(name string) *genGraph {
	g := &genGraph{}
	idx := map[string]int{}
	isInit := map[int]bool{}
	get := func(b json.RawMessage) int {
		var s struct {
			Start, Pos, Len int
			Script          []int
			Mode            string
		}
		if json.Unmarshal(b, &s) != nil {
			fatal("bad %s line", name)
		}
		key := fmt.Sprint(s)
		if i, ok := idx[key]; ok {
			return i
		}
		i := len(g.edges)
		idx[key] = i
		g.length = append(g.length, s.Len)
		g.pos = append(g.pos, s.Pos)
		g.script = append(g.script, s.Script)
		g.mode = append(g.mode, s.Mode)
		g.edges = append(g.edges, nil)
		if s.Start == 0 && s.Pos == 0 && s.Mode == "ok" && s.Len == len(s.Script) {
			isInit[i] = true
			g.inits = append(g.inits, i)
		}
		return i
	}
	seen := map[string]bool{}
	eachPrinted(table(name), func(b []byte) {
		if seen[string(b)] {
			return
		}
		seen[string(b)] = true
		var r struct {
			S    json.RawMessage
			Op   string
			Arg  json.RawMessage
			Outs []struct {
				Ret, Seen []int
				T         json.RawMessage
			}
		}
		if json.Unmarshal(b, &r) != nil {
			fatal("bad %s line %s", name, b)
		}
		e := genEdge{op: r.Op}
		if r.Op == "Split" {
			if json.Unmarshal(r.Arg, &e.arg) != nil {
				fatal("bad %s line %s", name, b)
			}
		} else {
			var n int
			if json.Unmarshal(r.Arg, &n) != nil {
				fatal("bad %s line %s", name, b)
			}
			e.arg = []int{n}
		}
		s := get(r.S)
		for _, o := range r.Outs {
			e.out = append(e.out, genOut{o.Ret, o.Seen, get(o.T)})
		}
		g.edges[s] = append(g.edges[s], e)
	})
	n := len(g.edges[g.inits[0]])
	for s := range g.edges {
		if len(g.edges[s]) != n {
			fatal("%s: state %d has %d calls, not %d", name, s, len(g.edges[s]), n)
		}
		es := g.edges[s]
		key := func(e genEdge) string { return fmt.Sprint(e.op, e.arg) }
		for i := range es {
			for j := i + 1; j < n; j++ {
				if key(es[j]) < key(es[i]) {
					es[i], es[j] = es[j], es[i]
				}
			}
		}
	}
	return g
}

// callGen performs one call and gives what the specification speaks about
func callGen(it *genIter, op string, arg []int, texts []string) (ret []int, what string) {
	s := it.s
	s.seen, s.wrong = nil, ""
	defer func() {
		if x := recover(); x != nil {
			ret = []int{-1}
		}
		if what == "" {
			what = s.wrong
		}
	}()
	span := func(b int, v string) []int {
		if b < 0 || b+len(v) > len(s.text) || s.text[b:b+len(v)] != v {
			what = fmt.Sprintf("%s()=%+q is not in the text there", op, v)
			return []int{-9, -9}
		}
		return []int{b, b + len(v)}
	}
	switch op {
	case "Next":
		ret = []int{b2i(it.next())}
	case "First":
		ret = span(0, it.first())
	case "Value":
		ret = span(it.start(), it.value())
	case "Start":
		ret = []int{it.start()}
	case "End":
		ret = []int{it.end()}
	case "Reset":
		it.reset()
		ret = []int{}
	case "SetText":
		it.setText(texts[arg[0]])
		ret = []int{}
	case "Split":
		it.split(arg)
		ret = []int{}
	}
	return
}

func seenOK(want []int, got [][2]int) bool {
	if len(want) == 0 {
		return len(got) == 0
	}
	for _, x := range got {
		if x[0] != want[0] || x[1] != want[1] {
			return false
		}
	}
	return len(got) > 0
}

type genReplay struct {
	Bind   string   `json:"bind"`
	Texts  []string `json:"texts"`
	Script []int    `json:"script"`
	Calls  []int    `json:"calls"`
	Ops    string   `json:"ops"`
	Seed   int64    `json:"seed"`
}

// genHistory runs calls from an initial state of the graph
func genHistory(g *genGraph, b *genBind, texts []string, init int, calls []int, seed int64) *failure {
	r := rand.New(&tinySource{uint64(seed)})
	it := b.mk(texts[g.length[init]], g.script[init], r)
	s := init
	for i, c := range calls {
		e := g.edges[s][c]
		if len(e.out) == 0 {
			continue // unspecified here
		}
		ret, what := callGen(it, e.op, e.arg, texts)
		nx := -1
		if what == "" {
			for _, o := range e.out {
				if sameInts(o.ret, ret) && seenOK(o.seen, it.s.seen) {
					nx = o.next
				}
			}
			if nx < 0 {
				what = fmt.Sprintf("%s %v gives %v after asking about %v; the specification allows %s", e.op, e.arg, ret, it.s.seen, showOuts(e.out))
			}
		}
		if what != "" {
			var ops []string
			t := init
			for _, c := range calls[:i+1] {
				ops = append(ops, fmt.Sprint(g.edges[t][c].op, g.edges[t][c].arg))
			}
			return &failure{Seg: b.name, Suite: "call histories", What: what, Text: texts[g.length[init]],
				Note: fmt.Sprintf("answers by position %v (0, -1: advance <= 0; -2, -3: error)", g.script[init]), Extra: genReplay{b.name, texts, g.script[init], calls[:i+1], strings.Join(ops, " "), seed}}
		}
		s = nx
	}
	return nil
}

func showOuts(os []genOut) string {
	var b []string
	for _, o := range os {
		b = append(b, fmt.Sprintf("%v after asking about %v", o.ret, o.seen))
	}
	return strings.Join(b, " or ")
}

// tinySource is a cheap random source
type tinySource struct{ x uint64 }

func (s *tinySource) Seed(v int64) { s.x = uint64(v) }
func (s *tinySource) Int63() int64 {
	s.x += 0x9E3779B97F4A7C15
	z := s.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return int64((z ^ (z >> 31)) >> 1)
}

var genTexts = [][]string{
	{"", "a", "ab", "a1b"},
	{"", " ", "a ", "a b"},
	{"", "\x80", "\u00e9", "\u4e16"},
	{"", "#", "#a", "a-b"},
}

func reportGen(g *genGraph, b *genBind, f *failure, init int) {
	x := f.Extra.(genReplay)
	for again := true; again; {
		again = false
		for i := range x.Calls {
			c := append(append([]int(nil), x.Calls[:i]...), x.Calls[i+1:]...)
			if h := genHistory(g, b, x.Texts, init, c, x.Seed); h != nil {
				f, x, again = h, h.Extra.(genReplay), true
				break
			}
		}
	}
	res.fail(f)
}

func suiteGeneric(L, walks, walkLen int) {
	gs := map[bool]*genGraph{true: loadGenGraph("GenericGraph"), false: loadGenGraph("GenericGraphStrict")}
	for short, g := range gs {
		edges := 0
		for _, es := range g.edges {
			edges += len(es)
		}
		res.info(fmt.Sprintf("GenericGraph shortcut=%v", short), map[string]int{"states": len(g.edges), "edges": edges, "scripts": len(g.inits)})
	}
	for _, b := range genBinds() {
		b := b
		g := gs[b.short]
		parallel("histories "+b.name, func(w int, r *rand.Rand) int64 {
			var n int64
			bad := 0
			n0 := len(g.edges[0])
			calls := make([]int, L)
			for ti, texts := range genTexts {
				for ii, init := range g.inits {
					if (ii+ti)%nWorkers != w || bad > 3 || stopped() {
						continue
					}
					var rec func(d int)
					rec = func(d int) {
						if bad > 3 {
							return
						}
						if d == L {
							n++
							if f := genHistory(g, b, texts, init, calls, n); f != nil {
								bad++
								reportGen(g, b, f, init)
							}
							return
						}
						for c := 0; c < n0; c++ {
							calls[d] = c
							rec(d + 1)
						}
					}
					rec(0)
					for k := 0; k < walks && bad < 4; k++ {
						long := make([]int, 1+r.Intn(walkLen))
						for i := range long {
							long[i] = r.Intn(n0)
							if r.Intn(3) == 0 {
								for j, e := range g.edges[init] {
									if e.op == "Next" {
										long[i] = j
									}
								}
							}
						}
						n++
						if f := genHistory(g, b, texts, init, long, r.Int63()); f != nil {
							bad++
							reportGen(g, b, f, init)
						}
					}
				}
			}
			return n
		})
	}
}

// genScript answers for a text of n bytes: mostly good advances
func genScript(r *rand.Rand, n int) []int {
	s := make([]int, n)
	bad := r.Intn(3) == 0
	for p := range s {
		rest := n - p
		switch {
		case bad && r.Intn(8) == 0:
			s[p] = -3 + r.Intn(4)
		case bad && r.Intn(12) == 0:
			s[p] = rest + 1
		case r.Intn(6) == 0:
			s[p] = rest
		default:
			s[p] = 1 + r.Intn(min2(rest, 9))
		}
	}
	return s
}

// longer texts and scripts, judged by TLC
func traceGeneric(n int) {
	t := newTracer("GenericTrace-histories")
	if t == nil {
		return
	}
	r := rand.New(rand.NewSource(subSeed("trace generic", 0)))
	bs := genBinds()
	sg := segWords()
	loadSeg(sg, "WordTable", "word")
	p := sg.picker()
	alpha := sg.alphabet()
	ops := []string{"Next", "Next", "Next", "Next", "Next", "Value", "Start", "End", "First", "Reset", "SetText", "Split"}
	for t.n < n {
		b := bs[r.Intn(len(bs))]
		var texts []string
		max := 0
		for i := 0; i < 4; i++ {
			x := p.text(r, sg.randomWord(r, alpha, 12, nil))
			switch r.Intn(6) {
			case 0, 1:
				x = strings.Repeat("ab1 ", r.Intn(8)) + "z"
			case 2, 3:
				x = damage(r, x)
			case 4:
				if x = anyBytes(r); len(x) > 200 {
					x = x[:200]
				}
			}
			if len(x) > max {
				max = len(x)
			}
			texts = append(texts, x)
		}
		script := genScript(r, max)
		x := texts[r.Intn(len(texts))]
		it := b.mk(x, script, r)
		t.emit(ev{"e": "start", "len": len(x), "script": script, "short": b2i(b.short), "seg": b.name, "hex": fmt.Sprintf("%x", x)})
		mode := "ok"
		n := len(x)
		for k := 4 + r.Intn(40); k > 0; k-- {
			op := ops[r.Intn(len(ops))]
			// what is unspecified is not called
			if mode != "ok" && (op == "Value" || op == "Start" || op == "End") || mode == "over" && op != "Reset" && op != "SetText" {
				continue
			}
			var arg interface{} = 0
			var a []int
			switch op {
			case "SetText":
				i := r.Intn(len(texts))
				a, arg = []int{i}, len(texts[i])
				n = len(texts[i])
			case "Split":
				a = genScript(r, max)
				arg = a
			}
			pos := it.end()
			ret, what := callGen(it, op, a, texts)
			seen := it.s.seen
			if seen == nil {
				seen = [][2]int{}
			}
			t.emit(ev{"e": "call", "op": op, "arg": arg, "ret": ret, "seen": seen, "ok": b2i(what == ""), "why": what})
			switch op {
			case "Next":
				if len(ret) == 1 && ret[0] == -1 {
					mode = "stuck"
					if pos >= 0 && pos < n && it.s.script[pos] > n-pos {
						mode = "over"
					}
				} else {
					mode = "ok"
				}
			case "Reset", "SetText":
				mode = "ok"
			}
		}
	}
	t.close()
}

// anyBytes: text of any bytes, mostly short
func anyBytes(r *rand.Rand) string {
	n := 1 + r.Intn(12)
	switch r.Intn(40) {
	case 0:
		n = 1 + r.Intn(70000)
	case 1, 2, 3:
		n = 1 + r.Intn(5000)
	case 4, 5, 6, 7, 8, 9:
		n = 1 + r.Intn(100)
	}
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch {
		case mode == 0 || mode == 3 && r.Intn(3) == 0:
			b[i] = byte(r.Intn(256))
		case mode == 1:
			b[i] = "ab1 .\n\x00"[r.Intn(7)]
		default:
			b[i] = "a\xc3\xa9\xe4\xb8\x96\x80 \xff"[r.Intn(9)]
		}
	}
	return string(b)
}

// suiteScripted: texts of any bytes and length.  What GenericIterator says of Next (NextOutcomes:
// the token is what the answer at pos delimits; a bad answer panics; the internal iterator may take
// a last byte without asking) applied from the start to the end of a text.
func suiteScripted(n int) {
	for _, b := range genBinds() {
		b := b
		name := "walks over any bytes, " + b.name
		parallel(name, func(w int, r *rand.Rand) int64 {
			var runs int64
			bad := 0
			for i := w; i < n && bad < 3 && !stopped(); i += nWorkers {
				runs++
				t := anyBytes(r)
				script := genScript(r, len(t))
				if len(t) > 200 {
					for p := range script {
						if script[p] > 0 && script[p] <= len(t)-p && r.Intn(2) == 0 {
							script[p] = 1 + r.Intn(min2(len(t)-p, 1+len(t)/4))
						}
					}
				}
				if f := scriptedWalk(b, t, script, r); f != nil {
					bad++
					f.Suite = name
					res.fail(f)
				}
			}
			return runs
		})
	}
}

// suiteLitScripted: constants of the code as sizes of texts, as advances, as positions of bad answers and
// as numbers of calls
func suiteLitScripted(n int) {
	sizes := append(append([]int{}, lits().small...), litSizes(litSmall, 1<<17)...)
	bigs := litSizes(litSmall, 1<<17)
	if len(sizes) == 0 {
		return
	}
	for _, b := range genBinds() {
		b := b
		name := "constants of the code as advances, sizes and positions, " + b.name
		parallel(name, func(w int, r *rand.Rand) int64 {
			var runs int64
			bad := 0
			size := func() int {
				if len(bigs) > 0 && r.Intn(2) == 0 {
					return bigs[r.Intn(len(bigs))]
				}
				return sizes[r.Intn(len(sizes))]
			}
			total := 0
			for i := w; i < n && bad < 3 && total < pickN(24<<20, 240<<20) && !stopped(); i += nWorkers {
				runs++
				t := anyBytes(r)
				m := size()
				switch r.Intn(4) {
				case 0:
					m += 1 + r.Intn(9)
				case 1:
					m += size()
				}
				if m > 1<<17 {
					m = 1 << 17
				}
				t = strings.Repeat(t, 1+m/len(t))[:m]
				if r.Intn(3) == 0 {
					t = strings.Repeat([]string{"a", "b ", "1", " "}[r.Intn(4)], m)[:m]
				}
				total += m
				script := make([]int, m)
				step := 1 + r.Intn(3)
				k := size()
				mode := r.Intn(4)
				odd := [3]int{-3 + r.Intn(4), m + 1, -3 + r.Intn(4)}
				for p := range script {
					rest := m - p
					a := step
					switch mode {
					case 0: // advances of the size
						if a = k; r.Intn(4) == 0 {
							a = 1 + r.Intn(9)
						}
					case 1: // at the position
						if p == k || p == k-1 {
							a = size()
						}
					case 2: // a bad answer there
						if p == k || p >= k && p < k+step && r.Intn(2) == 0 {
							a = odd[r.Intn(3)]
							script[p] = a
							continue
						}
					default:
						a = 1 + r.Intn(3)
					}
					script[p] = min2(a, rest)
				}
				if f := scriptedWalk(b, t, script, r); f != nil {
					bad++
					f.Suite = name
					res.fail(f)
				}
			}
			return runs
		})
	}
}

// walkReplay: a walk over a text under a script
type walkReplay struct {
	Bind string `json:"bind"`
	Walk []int  `json:"walk"`
}

func scriptedWalk(b *genBind, t string, script []int, r *rand.Rand) *failure {
	fail := func(f string, a ...interface{}) *failure {
		return &failure{Seg: b.name, What: fmt.Sprintf(f, a...), Text: t, Extra: walkReplay{b.name, script}}
	}
	it := b.mk(t, script, r)
	for pos := 0; ; {
		ret, what := callGen(it, "Next", nil, nil)
		if what != "" {
			return fail("Next at %d: %s", pos, what)
		}
		if pos == len(t) {
			if !sameInts(ret, []int{0}) || len(it.s.seen) > 0 {
				return fail("Next at the end gives %v after asking about %v", ret, it.s.seen)
			}
			return nil
		}
		a, rest := script[pos], len(t)-pos
		mayskip := b.short && rest == 1
		if !seenOK([]int{pos, len(t)}, it.s.seen) && !(mayskip && len(it.s.seen) == 0) {
			return fail("Next at %d of %d asked about %v", pos, len(t), it.s.seen)
		}
		if a <= 0 || a > rest {
			if !(mayskip && sameInts(ret, []int{1}) && it.end() == len(t)) && !sameInts(ret, []int{-1}) {
				return fail("Next at %d of %d gives %v when the function answers %d", pos, len(t), ret, a)
			}
			return nil
		}
		if !sameInts(ret, []int{1}) || it.start() != pos || it.end() != pos+a || it.value() != t[pos:pos+a] {
			return fail("Next at %d of %d gives %v, [%d,%d) when the function answers %d", pos, len(t), ret, it.start(), it.end(), a)
		}
		pos += a
	}
}

// suiteBorrowed: the packages' own split functions driven by these iterators
func suiteBorrowed(n int) {
	fs := map[string]bufio.SplitFunc{"graphemes": graphemes.SplitFunc, "words": words.SplitFunc, "phrases": phrases.SplitFunc, "sentences": sentences.SplitFunc}
	sg := segWords()
	loadSeg(sg, "WordTable", "word")
	for name, f := range fs {
		name, f := name, f
		parallel("the split function of "+name, func(w int, r *rand.Rand) int64 {
			p := sg.picker()
			alpha := sg.alphabet()
			var runs int64
			fb := func(d []byte, e bool) (int, []byte, error) { return f(d, e) }
			fsx := func(d string, e bool) (int, string, error) {
				n, _, err := f([]byte(d), e)
				return n, d, err
			}
			for i := w; i < n && !stopped(); i += nWorkers {
				t := p.text(r, sg.randomWord(r, alpha, 30, nil))
				if i/nWorkers%3 == 0 {
					t = damage(r, t) + bit(r)
				}
				want, e := walkSplit(f, []byte(t), nil)
				if e != "" {
					continue
				}
				ws := words.FromString(t)
				ws.Split(fsx)
				wb := words.FromBytes([]byte(t))
				wb.Split(fb)
				for path, walk := range map[string]func() ([]int, string){
					"words/string":    func() ([]int, string) { return walkStr(keepText[string]{ws}, t, nil) },
					"words/bytes":     func() ([]int, string) { return walkBytes(keepText[[]byte]{wb}, t, nil) },
					"internal/string": func() ([]int, string) { return walkStr(iterators.New(fsx, t), t, nil) },
					"internal/bytes":  func() ([]int, string) { return walkBytes(iterators.New(fb, []byte(t)), t, nil) },
				} {
					runs++
					got, e := walkSafe(walk)
					if e != "" || !sameInts(got, want) {
						res.fail(&failure{Seg: "split function of " + name, Path: path, Suite: "borrowed split functions", What: "tokens differ from the function's " + e, Text: t, Want: want, Got: got})
					}
				}
			}
			return runs
		})
	}
}

type keepText[T any] struct{ iterOf[T] }

func init() {
	props["C17"] = func() {
		suiteGeneric(pickN(3, 4), pickN(20, 400), 30)
		suiteScripted(pickN(12000, 150000))
		suiteLitScripted(pickN(4000, 40000))
		suiteBorrowed(pickN(20000, 200000))
		traceGeneric(pickN(6000, 30000))
	}
	replayers["C17"] = func(f *failure, raw map[string]json.RawMessage) {
		var y walkReplay
		if json.Unmarshal(raw["extra"], &y) == nil && y.Walk != nil {
			for _, b := range genBinds() {
				if b.name == y.Bind {
					if h := scriptedWalk(b, f.Text, y.Walk, rand.New(rand.NewSource(1))); h != nil {
						res.fail(h)
					}
				}
			}
			return
		}
		var x genReplay
		if json.Unmarshal(raw["extra"], &x) != nil || x.Bind == "" {
			fatal("not a call history")
		}
		for _, b := range genBinds() {
			if b.name != x.Bind {
				continue
			}
			g := loadGenGraph(map[bool]string{true: "GenericGraph", false: "GenericGraphStrict"}[b.short])
			for _, i := range g.inits {
				if sameInts(g.script[i], x.Script) {
					if h := genHistory(g, b, x.Texts, i, x.Calls, x.Seed); h != nil {
						res.fail(h)
					}
				}
			}
		}
	}
}
