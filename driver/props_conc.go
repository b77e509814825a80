package main

// C10: independence.  Every interleaving that TLC printed (ConcurrentSched) is run with workers of
// every kind on shared memory, and each worker must return what it returns alone; the memory, the
// joiner lists and the options must stay as they were.  With -part race, the same workers run on
// goroutines of their own (a build with the race detector).

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

var flagPart = flag.String("part", "", "part of the property to run")

// sharedMem is what all workers of a run look at
type sharedMem struct {
	bufs  [][]byte // each with something behind its length
	want  [][]byte // full capacity contents
	texts []string
	jb    *words.Joiners[[]byte]
	js    *words.Joiners[string]
	lists [4][]rune
	wantL [4][]rune
}

func newShared(texts []string) *sharedMem {
	m := &sharedMem{texts: texts}
	for _, t := range texts {
		b := make([]byte, len(t), len(t)+40)
		copy(b, t)
		tail := b[len(t):cap(b)]
		copy(tail, "\u0301\u200d-a\u094d\x1b[0m behind the end \xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff")
		m.bufs = append(m.bufs, b)
		m.want = append(m.want, append([]byte(nil), b[:cap(b)]...))
	}
	lists := []string{"-@\u2014", "#.", "'1", "$\u0301"}
	for i, l := range lists {
		x := append(make([]rune, 0, 16), []rune(l)...)
		for j := range x[len(x):cap(x)] {
			x[len(x):cap(x)][j] = 'z'
		}
		m.lists[i] = x
		m.wantL[i] = append([]rune(nil), x[:cap(x)]...)
	}
	m.jb = &words.Joiners[[]byte]{Middle: m.lists[0], Leading: m.lists[1]}
	m.js = &words.Joiners[string]{Middle: m.lists[2], Leading: m.lists[3]}
	return m
}

func (m *sharedMem) intact() string {
	for i, b := range m.bufs {
		if !bytes.Equal(b[:cap(b)], m.want[i]) {
			return fmt.Sprintf("the caller's bytes were changed: %+q became %+q (length %d)", m.want[i], b[:cap(b)], len(b))
		}
	}
	for i, l := range m.lists {
		if string(l[:cap(l)]) != string(m.wantL[i]) {
			return fmt.Sprintf("a joiner list was changed: %+q became %+q", string(m.wantL[i]), string(l[:cap(l)]))
		}
	}
	same := func(a, b []rune) bool { return string(a) == string(b) }
	if !same(m.jb.Middle, m.lists[0]) || !same(m.jb.Leading, m.lists[1]) || !same(m.js.Middle, m.lists[2]) || !same(m.js.Leading, m.lists[3]) {
		return "a Joiners value was changed"
	}
	return ""
}

// actor: a kind of worker.  mk makes a fresh one on the memory; each call of the result makes one
// library call chosen by op and describes what it returned.
type actor struct {
	name string
	mk   func(m *sharedMem, t int) func(op int) string
}

func iterActor[T string | []byte](name string, src func(m *sharedMem, t int) T, mk func(m *sharedMem, t T) iterOf[T]) actor {
	return actor{name, func(m *sharedMem, t int) func(int) string {
		it := mk(m, src(m, t))
		var kept []T
		var keptWas []string
		return func(op int) string {
			switch op % 12 {
			case 8:
				return "First " + string(it.First())
			case 9:
				it.Reset()
				return "Reset"
			case 10:
				it.SetText(src(m, (t+op/12)%len(m.texts)))
				return "SetText"
			case 11:
				// values handed out earlier are still what they were
				for i := range kept {
					if string(kept[i]) != keptWas[i] {
						return fmt.Sprintf("an earlier Value changed from %q to %q", keptWas[i], string(kept[i]))
					}
				}
				return "kept"
			}
			ok := it.Next()
			v := it.Value()
			if len(kept) < 64 {
				kept = append(kept, v)
				keptWas = append(keptWas, string(v))
			}
			return fmt.Sprintf("Next %v [%d:%d] %q", ok, it.Start(), it.End(), string(v))
		}
	}}
}

func strSrc(m *sharedMem, t int) string { return m.texts[t] }
func bytSrc(m *sharedMem, t int) []byte { return m.bufs[t] }

func splitActor(name string, f bufio.SplitFunc) actor {
	return actor{name, func(m *sharedMem, t int) func(int) string {
		pos := 0
		return func(op int) string {
			d := m.bufs[t]
			if pos >= len(d) {
				pos = 0
			}
			if op%3 == 0 {
				// a prefix, more to come
				n := pos + 1 + op%(len(d)-pos+1)
				if n > len(d) {
					n = len(d)
				}
				adv, tok, err := f(d[pos:n], false)
				return fmt.Sprintf("split(%d:%d) %d %q %v", pos, n, adv, tok, err)
			}
			adv, tok, err := f(d[pos:], true)
			s := fmt.Sprintf("split(%d:) %d %q %v", pos, adv, tok, err)
			pos += adv
			return s
		}
	}}
}

func scanActor(name string, own bool, rd func(m *sharedMem, r *bytes.Reader) scanner) actor {
	if own {
		name += " with a buffer"
	}
	return actor{name, func(m *sharedMem, t int) func(int) string {
		sc := rd(m, bytes.NewReader(m.bufs[t]))
		if own {
			sc.Buffer(make([]byte, 0, 16), 1<<16)
		}
		return func(op int) string {
			ok := sc.Scan()
			return fmt.Sprintf("Scan %v %q %v", ok, sc.Text(), sc.Err())
		}
	}}
}

func actors() []actor {
	var as []actor
	for _, o := range []ansiCfg{{}, {true, false}, {false, true}, {true, true}} {
		o := o
		as = append(as,
			iterActor(fmt.Sprintf("graphemes/string%v", o), strSrc, func(_ *sharedMem, t string) iterOf[string] {
				it := graphemes.FromString(t)
				it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o.O7, o.O8
				return it
			}),
			iterActor(fmt.Sprintf("graphemes/bytes%v", o), bytSrc, func(_ *sharedMem, t []byte) iterOf[[]byte] {
				it := graphemes.FromBytes(t)
				it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o.O7, o.O8
				return it
			}))
	}
	as = append(as,
		iterActor("words/string", strSrc, func(_ *sharedMem, t string) iterOf[string] { return words.FromString(t) }),
		iterActor("words/bytes", bytSrc, func(_ *sharedMem, t []byte) iterOf[[]byte] { return words.FromBytes(t) }),
		iterActor("words/string joiners", strSrc, func(m *sharedMem, t string) iterOf[string] {
			it := words.FromString(t)
			it.Joiners(m.js)
			return it
		}),
		iterActor("words/bytes joiners", bytSrc, func(m *sharedMem, t []byte) iterOf[[]byte] {
			it := words.FromBytes(t)
			it.Joiners(m.jb)
			return it
		}),
		iterActor("words/named joiners", strSrc, func(m *sharedMem, t string) iterOf[string] {
			it := &words.Iterator[namedString]{}
			it.Joiners(&words.Joiners[namedString]{Middle: m.lists[0], Leading: m.lists[3]})
			it.SetText(namedString(t))
			return nsIter{it}
		}),
		iterActor("words/bytes split", bytSrc, func(m *sharedMem, t []byte) iterOf[[]byte] {
			it := words.FromBytes(t)
			it.Split(phrases.SplitFunc)
			return it
		}),
		iterActor("iterators/string", strSrc, func(_ *sharedMem, t string) iterOf[string] {
			return iterators.New(func(d string, eof bool) (int, string, error) {
				n, _, err := words.SplitFunc([]byte(d), eof)
				return n, d[:n], err
			}, t)
		}),
		iterActor("iterators/bytes", bytSrc, func(_ *sharedMem, t []byte) iterOf[[]byte] {
			return iterators.New(iterators.SplitFunc[[]byte](sentences.SplitFunc), t)
		}),
		iterActor("phrases/string", strSrc, func(_ *sharedMem, t string) iterOf[string] { return phrases.FromString(t) }),
		iterActor("phrases/bytes", bytSrc, func(_ *sharedMem, t []byte) iterOf[[]byte] { return phrases.FromBytes(t) }),
		iterActor("sentences/string", strSrc, func(_ *sharedMem, t string) iterOf[string] { return sentences.FromString(t) }),
		iterActor("sentences/bytes", bytSrc, func(_ *sharedMem, t []byte) iterOf[[]byte] { return sentences.FromBytes(t) }),
		splitActor("graphemes.SplitFunc", graphemes.SplitFunc),
		splitActor("words.SplitFunc", words.SplitFunc),
		splitActor("phrases.SplitFunc", phrases.SplitFunc),
		splitActor("sentences.SplitFunc", sentences.SplitFunc),
		actor{"classifiers", func(m *sharedMem, t int) func(int) string {
			return func(op int) string {
				d := m.bufs[(t+op)%len(m.bufs)]
				if len(d) == 0 {
					return ""
				}
				x := d[op%len(d):]
				return fmt.Sprint(words.BleveNumeric(x), words.BleveIdeographic(x), filter.AlphaNumeric(x))
			}
		}})
	for _, own := range []bool{false, true} {
		as = append(as,
			scanActor("graphemes.FromReader", own, func(_ *sharedMem, r *bytes.Reader) scanner { return graphemes.FromReader(r) }),
			scanActor("words.FromReader", own, func(_ *sharedMem, r *bytes.Reader) scanner { return words.FromReader(r) }),
			scanActor("words.FromReader joiners", own, func(m *sharedMem, r *bytes.Reader) scanner {
				s := words.FromReader(r)
				s.Joiners(m.jb)
				return s
			}),
			scanActor("phrases.FromReader", own, func(_ *sharedMem, r *bytes.Reader) scanner { return phrases.FromReader(r) }),
			scanActor("sentences.FromReader", own, func(_ *sharedMem, r *bytes.Reader) scanner { return sentences.FromReader(r) }),
		)
	}
	return as
}

// program of one worker: actor, text, and its calls split into batches, one per scheduled step
type program struct {
	a       actor
	t       int
	batches [][]int
}

func (p *program) solo(m *sharedMem) (out [][]string) {
	f := p.a.mk(m, p.t)
	for _, b := range p.batches {
		var o []string
		for _, op := range b {
			o = append(o, f(op))
		}
		out = append(out, o)
	}
	return out
}

func concTexts(r *rand.Rand, segs []*seg) []string {
	var ts []string
	for i := 0; i < 3; i++ {
		s := segs[r.Intn(len(segs))]
		p := s.picker()
		t := p.text(r, s.randomWord(r, s.alphabet(), 10, nil)) + bit(r) + ansiBits[r.Intn(len(ansiBits))] + bit(r) + joinBits[r.Intn(len(joinBits))]
		if r.Intn(4) == 0 {
			t = damage(r, t)
		}
		if r.Intn(3) == 0 {
			t += strings.Repeat(bit(r), 1+r.Intn(6))
		}
		if r.Intn(24) == 0 {
			t = strings.Repeat(t, 1+r.Intn(60))
		}
		if r.Intn(8) == 0 { // a constant of the code
			t = litPiece(r, 1<<15) + t
		}
		if t == "" {
			t = "a"
		}
		ts = append(ts, t)
	}
	return ts
}

// litPiece: a token, run or text of the size of a constant of the code
func litPiece(r *rand.Rand, max int) string {
	xs := lits().small
	if ys := litSizes(litSmall, max); len(ys) > 0 && r.Intn(3) > 0 {
		xs = ys
	}
	if len(xs) == 0 {
		return ""
	}
	n := xs[r.Intn(len(xs))]
	switch r.Intn(4) {
	case 0:
		return strings.Repeat("a", n)
	case 1:
		return strings.Repeat([]string{"a ", "\n", "\u4E16", "1,"}[r.Intn(4)], n)
	}
	return litUnit(n)
}

func randPrograms(r *rand.Rand, as []actor, n, steps int, fixed []int) []*program {
	var ps []*program
	for i := 0; i < n; i++ {
		a := as[r.Intn(len(as))]
		if i < len(fixed) {
			a = as[fixed[i]]
		} else if i > 0 && r.Intn(2) == 0 {
			a = ps[i-1].a
		}
		t := 0
		if r.Intn(3) == 0 {
			t = r.Intn(3)
		}
		p := &program{a: a, t: t}
		for k := 0; k < steps; k++ {
			var b []int
			for j := 1 + r.Intn(3); j > 0; j-- {
				b = append(b, r.Intn(1200))
			}
			p.batches = append(p.batches, b)
		}
		ps = append(ps, p)
	}
	return ps
}

func loadInterleavings() (out [][]int) {
	eachPrinted(table("ConcurrentSched"), func(b []byte) {
		var s []int
		if json.Unmarshal(b, &s) != nil {
			fatal("bad ConcurrentSched line")
		}
		for i := range s {
			s[i]--
		}
		out = append(out, s)
	})
	if len(out) == 0 {
		fatal("no interleavings")
	}
	return
}

type concReplay struct {
	Actors []string  `json:"actors"`
	Texts  []string  `json:"texts"`
	On     []int     `json:"text_of_worker"`
	Calls  [][][]int `json:"calls"`
	Sched  []int     `json:"schedule"`
}

func interleaved(m *sharedMem, ps []*program, want [][][]string, sched []int) (f *failure) {
	fail := func(what string) *failure {
		rp := concReplay{Sched: sched, Texts: m.texts}
		for _, p := range ps {
			rp.Actors = append(rp.Actors, p.a.name)
			rp.On = append(rp.On, p.t)
			rp.Calls = append(rp.Calls, p.batches)
		}
		return &failure{Suite: "interleavings", What: what, Text: m.texts[0], Extra: rp}
	}
	w := 0
	defer func() {
		if r := recover(); r != nil {
			f = fail(fmt.Sprintf("worker %d (%s) panics: %v", w, ps[w].a.name, r))
		}
	}()
	at := make([]int, len(ps))
	fs := make([]func(int) string, len(ps))
	for w = range ps {
		if w%2 == 0 {
			fs[w] = ps[w].a.mk(m, ps[w].t)
		}
	}
	for _, w = range sched {
		p := ps[w]
		if fs[w] == nil {
			fs[w] = p.a.mk(m, p.t)
		}
		for i, op := range p.batches[at[w]] {
			if got := fs[w](op); got != want[w][at[w]][i] {
				return fail(fmt.Sprintf("worker %d (%s), call %d of step %d: %s; alone: %s", w, p.a.name, i, at[w], got, want[w][at[w]][i]))
			}
		}
		at[w]++
	}
	if e := m.intact(); e != "" {
		return fail(e)
	}
	return nil
}

func soloAll(m *sharedMem, ps []*program) (want [][][]string, f *failure) {
	w := 0
	defer func() {
		if r := recover(); r != nil {
			f = &failure{Suite: "alone", What: fmt.Sprintf("%s panics: %v", ps[w].a.name, r), Text: m.texts[0], Extra: map[string]interface{}{"texts": m.texts}}
		}
	}()
	for w = range ps {
		want = append(want, ps[w].solo(m))
	}
	if e := m.intact(); e != "" {
		return nil, &failure{Suite: "alone", What: e, Text: m.texts[0], Extra: map[string]interface{}{"texts": m.texts}}
	}
	return want, nil
}

func suiteInterleavings(segs []*seg, rounds int) {
	scheds := loadInterleavings()
	as := actors()
	n, steps := 0, 0
	for _, w := range scheds[0] {
		if w+1 > n {
			n = w + 1
		}
		if w == 0 {
			steps++
		}
	}
	parallel("interleavings", func(wk int, r *rand.Rand) int64 {
		sl := newSlot()
		at := ""
		var runs int64
		bad := 0
		one := func(fixed []int) {
			m := newShared(concTexts(r, segs))
			ps := randPrograms(r, as, n, steps, fixed)
			sl.watch("", &at, m.texts[0], nil)
			defer sl.unwatch()
			want, f := soloAll(m, ps)
			if f != nil {
				bad++
				res.fail(f)
				return
			}
			// all schedules for one in eight, a sample for the rest
			k := 40
			if runs%8 == 0 {
				k = len(scheds)
			}
			for j := 0; j < k; j++ {
				s := scheds[j%len(scheds)]
				if k < len(scheds) {
					s = scheds[r.Intn(len(scheds))]
				}
				runs++
				if f := interleaved(m, ps, want, s); f != nil {
					bad++
					res.fail(f)
					return
				}
			}
		}
		// every pair of kinds
		c := 0
		for i := range as {
			for j := range as {
				if c++; c%nWorkers == wk && bad < 3 && !stopped() {
					one([]int{i, j})
				}
			}
		}
		for k := 0; k < rounds && bad < 3 && !stopped(); k++ {
			one(nil)
		}
		return runs
	})
	res.info("interleavings printed by TLC", len(scheds))
	res.info("kinds of worker", len(as))
}

// suiteGoroutines: the same programs at once
func suiteGoroutines(segs []*seg, rounds, par int) {
	as := actors()
	r := rand.New(rand.NewSource(subSeed("goroutines", 0)))
	var runs int64
	sl := newSlot()
	at := ""
	for k := 0; k < rounds && !stopped(); k++ {
		m := newShared(concTexts(r, segs))
		var fixed []int
		if k%2 == 0 {
			// all of one kind
			for i := 0; i < par; i++ {
				fixed = append(fixed, k/2%len(as))
			}
		}
		ps := randPrograms(r, as, par, 6, fixed)
		var want [][][]string
		var wf *failure
		if k%4 > 1 {
			if want, wf = soloAll(m, ps); wf != nil {
				res.fail(wf)
				break
			}
		}
		sl.watch("", &at, m.texts[0], nil)
		n, ok := atOnce("goroutines", m, ps, want, 3)
		runs += n
		sl.unwatch()
		if !ok {
			break
		}
	}
	res.count("goroutines", runs)
}

// atOnce runs the programs on goroutines of their own; want is what they return alone, found out afterwards
// when it is nil: first-use effects (lazily built tables, say) meet concurrency when nothing ran before
func atOnce(suite string, m *sharedMem, ps []*program, want [][][]string, reps int) (runs int64, ok bool) {
	got := make([][][]string, len(ps))
	errs := make([]string, len(ps))
	var wg sync.WaitGroup
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = fmt.Sprintf("panic: %v", x)
				}
			}()
			for rep := 0; rep < reps; rep++ {
				got[i] = ps[i].solo(m)
			}
		}(i)
	}
	wg.Wait()
	if want == nil {
		var wf *failure
		if want, wf = soloAll(m, ps); wf != nil {
			res.fail(wf)
			return runs, false
		}
	}
	fail := func(what string) {
		res.fail(&failure{Suite: suite, What: what, Text: m.texts[0], Extra: map[string]interface{}{"texts": m.texts}})
	}
	for i := range ps {
		runs++
		if errs[i] == "" {
			a, b := fmt.Sprint(got[i]), fmt.Sprint(want[i])
			if a != b {
				errs[i] = fmt.Sprintf("returned %s; alone: %s", a, b)
			}
		}
		if errs[i] != "" {
			fail(fmt.Sprintf("worker %d (%s) %s", i, ps[i].a.name, errs[i]))
		}
	}
	if e := m.intact(); e != "" {
		fail(e)
	}
	return runs, true
}

// rawCalls: whole walks without anything that orders goroutines (fmt's pools do), so that the race detector
// sees two first uses of the same thing as unordered whenever they happen
func rawCalls(m *sharedMem) []func(t int) int {
	var fs []func(t int) int
	str := func(mk func(t string) iterOf[string]) {
		fs = append(fs, func(t int) (n int) {
			it := mk(m.texts[t])
			n = len(it.First())
			for it.Next() {
				n += it.End() - it.Start() + len(it.Value())
			}
			it.Reset()
			it.SetText(m.texts[(t+1)%len(m.texts)])
			for it.Next() {
				n++
			}
			return n
		})
	}
	byt := func(mk func(t []byte) iterOf[[]byte]) {
		fs = append(fs, func(t int) (n int) {
			it := mk(m.bufs[t])
			n = len(it.First())
			for it.Next() {
				n += it.End() - it.Start() + len(it.Value())
			}
			it.Reset()
			it.SetText(m.bufs[(t+1)%len(m.bufs)])
			for it.Next() {
				n++
			}
			return n
		})
	}
	split := func(f bufio.SplitFunc) {
		fs = append(fs, func(t int) (n int) {
			for d := m.bufs[t]; len(d) > 0; n++ {
				f(d[:len(d)/2], false)
				adv, _, _ := f(d, true)
				d = d[adv:]
			}
			return n
		})
	}
	scan := func(mk func(t []byte) scanner) {
		fs = append(fs, func(t int) (n int) {
			for sc := mk(m.bufs[t]); sc.Scan(); n++ {
				n += len(sc.Text())
			}
			return n
		})
	}
	for _, o := range []ansiCfg{{}, {true, false}, {false, true}, {true, true}} {
		o := o
		str(func(t string) iterOf[string] {
			it := graphemes.FromString(t)
			it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o.O7, o.O8
			return it
		})
		byt(func(t []byte) iterOf[[]byte] {
			it := graphemes.FromBytes(t)
			it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = o.O7, o.O8
			return it
		})
	}
	str(func(t string) iterOf[string] { return words.FromString(t) })
	byt(func(t []byte) iterOf[[]byte] { return words.FromBytes(t) })
	str(func(t string) iterOf[string] { it := words.FromString(t); it.Joiners(m.js); return it })
	byt(func(t []byte) iterOf[[]byte] { it := words.FromBytes(t); it.Joiners(m.jb); return it })
	str(func(t string) iterOf[string] {
		it := &words.Iterator[namedString]{}
		it.Joiners(&words.Joiners[namedString]{Middle: m.lists[0], Leading: m.lists[3]})
		it.SetText(namedString(t))
		return nsIter{it}
	})
	str(func(t string) iterOf[string] { return phrases.FromString(t) })
	byt(func(t []byte) iterOf[[]byte] { return phrases.FromBytes(t) })
	str(func(t string) iterOf[string] { return sentences.FromString(t) })
	byt(func(t []byte) iterOf[[]byte] { return sentences.FromBytes(t) })
	byt(func(t []byte) iterOf[[]byte] { return iterators.New(iterators.SplitFunc[[]byte](words.SplitFunc), t) })
	split(graphemes.SplitFunc)
	split(words.SplitFunc)
	split(phrases.SplitFunc)
	split(sentences.SplitFunc)
	scan(func(t []byte) scanner { return graphemes.FromReader(bytes.NewReader(t)) })
	scan(func(t []byte) scanner { return words.FromReader(bytes.NewReader(t)) })
	scan(func(t []byte) scanner { s := words.FromReader(bytes.NewReader(t)); s.Joiners(m.jb); return s })
	scan(func(t []byte) scanner { return phrases.FromReader(bytes.NewReader(t)) })
	scan(func(t []byte) scanner { return sentences.FromReader(bytes.NewReader(t)) })
	fs = append(fs, func(t int) (n int) {
		for d := m.bufs[t]; len(d) > 0; d = d[1:] {
			for _, x := range [][]byte{d, d[:1], d[:len(d)/2], d[:minInt(len(d), 4)]} {
				if words.BleveNumeric(x) || words.BleveIdeographic(x) || filter.AlphaNumeric(x) {
					n++
				}
			}
		}
		return n
	})
	return fs
}

// suiteRaw: the very first calls of the process: each kind of call on each short text is made by all goroutines
// at about the same moment
func suiteRaw(segs []*seg) {
	r := rand.New(rand.NewSource(subSeed("raw", 0)))
	m := newShared(richPieces(r, segs))
	fs := rawCalls(m)
	sl := newSlot()
	at := ""
	sl.watch("", &at, m.texts[0], nil)
	defer sl.unwatch()
	const par = 4
	var got [par][]int
	var errs [par]string
	bad := false
	for i := range fs {
		for t := 0; t < len(m.texts) && !bad && !stopped(); t++ {
			var wg, ready sync.WaitGroup
			var open int32
			ready.Add(par)
			for g := 0; g < par; g++ {
				wg.Add(1)
				if i == 0 && t == 0 {
					got[g] = make([]int, len(fs)*len(m.texts))
				}
				go func(g int) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							errs[g] = fmt.Sprintf("panic: %v", x)
						}
					}()
					ready.Done()
					for k := 0; atomic.LoadInt32(&open) == 0; k++ {
						if k > 1000 {
							runtime.Gosched()
						}
					}
					got[g][i*len(m.texts)+t] = fs[i](t)
				}(g)
			}
			ready.Wait()
			atomic.StoreInt32(&open, 1)
			wg.Wait()
			for g := range errs {
				bad = bad || errs[g] != ""
			}
		}
	}
	for g := range got {
		for i := range got[g] {
			if bad || stopped() {
				break
			}
			if want := fs[i/len(m.texts)](i % len(m.texts)); got[g][i] != want {
				errs[g] = fmt.Sprintf("kind of call %d on %q counts %d; alone: %d", i/len(m.texts), m.texts[i%len(m.texts)], got[g][i], want)
				bad = true
			}
		}
		if errs[g] != "" {
			res.fail(&failure{Suite: "first walks", What: fmt.Sprintf("goroutine %d: %s", g, errs[g]), Text: m.texts[0], Extra: map[string]interface{}{"texts": m.texts}})
			return
		}
	}
	if e := m.intact(); e != "" {
		res.fail(&failure{Suite: "first walks", What: e, Text: m.texts[0], Extra: map[string]interface{}{"texts": m.texts}})
	}
	res.count("first walks", par*int64(len(fs)*len(m.texts)))
}

// richPieces: short texts that together hold every kind of code point
func richPieces(r *rand.Rand, segs []*seg) (ts []string) {
	for _, s := range segs {
		p := s.picker()
		for _, x := range s.alphabet() {
			ts = append(ts, p.text(r, []uint8{x})+p.text(r, s.randomWord(r, s.alphabet(), 3, nil)))
		}
		ts = append(ts, ansiBits[r.Intn(len(ansiBits))]+bit(r)+joinBits[r.Intn(len(joinBits))])
	}
	for _, n := range append(some(lits().small, 8), some(litSizes(litSmall, 1<<17), 8)...) {
		ts = append(ts, litUnit(n)+"\n"+strings.Repeat("a", n))
	}
	return ts
}

// richTexts: every kind of code point, in many orders
func richTexts(segs []*seg) (ts []string) {
	r := rand.New(rand.NewSource(subSeed("rich", 0)))
	for i := 0; i < 3; i++ {
		ts = append(ts, strings.Join(richPieces(r, segs), ""))
	}
	return ts
}

// suiteCold: the first calls of every kind, each on two goroutines at once, over texts
// that hold every kind of code point
func suiteCold(segs []*seg) {
	m := newShared(richTexts(segs))
	r := rand.New(rand.NewSource(subSeed("cold", 0)))
	var ps []*program
	for _, a := range actors() {
		var b []int
		for k := 0; k < 400; k++ {
			op := 12*r.Intn(100) + r.Intn(8)
			if k%50 == 49 {
				op += 8
			}
			b = append(b, op)
		}
		ps = append(ps, &program{a: a, batches: [][]int{b}}, &program{a: a, batches: [][]int{b}})
	}
	sl := newSlot()
	at := ""
	sl.watch("", &at, m.texts[0], nil)
	n, _ := atOnce("first calls", m, ps, nil, 1)
	sl.unwatch()
	res.count("first calls", n)
}

// ---------------------------------------------------------------- traces

func traceConcurrent(segs []*seg, events int) {
	tr := newTracer("ConcurrentTrace-all")
	if tr == nil {
		return
	}
	defer tr.close()
	r := rand.New(rand.NewSource(subSeed("concurrent trace", 0)))
	fams := liveFamilies()
	loadRebind(fams)
	hist := 0
	for tr.n < events && !stopped() {
		n := 2 + r.Intn(3)
		var ls []*liveBind
		texts := append(liveTexts(r, segs[r.Intn(len(segs))], 2), liveTexts(r, segs[r.Intn(len(segs))], 1)...)
		fam := famNames[r.Intn(len(famNames))]
		for len(ls) < n {
			if r.Intn(3) == 0 {
				fam = famNames[r.Intn(len(famNames))]
			}
			bs := fams[fam](texts)
			l, f := bs[r.Intn(len(bs))].live()
			if f != nil {
				res.fail(f)
				return
			}
			ls = append(ls, l)
		}
		traceOne(r, ls, 60, tr)
		hist++
	}
	res.info("traced interleaved histories", hist)
}

func traceOne(r *rand.Rand, ls []*liveBind, n int, tr *tracer) {
	type state struct {
		it         *apiIter
		t, o       int
		start, pos int
	}
	var ss []*state
	var its []ev
	for _, l := range ls {
		s := &state{t: r.Intn(len(l.texts)), o: r.Intn(l.nopt)}
		var cat []ev
		for i, x := range l.texts {
			cat = append(cat, ev{"len": len(x), "ends": l.ends[i]})
		}
		its = append(its, ev{"texts": cat, "t": s.t + 1, "o": s.o + 1, "kind": l.name})
		ss = append(ss, s)
	}
	tr.emit(ev{"e": "start", "its": its})
	defer func() {
		if x := recover(); x != nil {
			tr.emit(ev{"e": "panic"})
		}
	}()
	for i, s := range ss {
		s.it = ls[i].mk(s.t, s.o)
	}
	for k := 0; k < n; k++ {
		w := r.Intn(len(ss))
		s, l := ss[w], ls[w]
		op := []string{"Next", "Next", "Next", "Next", "Next", "Value", "Start", "End", "First", "Reset", "SetText", "SetOpt"}[r.Intn(12)]
		arg := 0
		switch op {
		case "SetText":
			arg = r.Intn(len(l.texts))
		case "SetOpt":
			if l.nopt < 2 {
				op = "Next"
			} else {
				arg = r.Intn(l.nopt)
			}
		}
		b, x := s.start, s.pos
		if op == "First" {
			b, x = 0, l.ends[s.t][s.o][0]
		}
		c := perform(s.it, op, arg, l.texts[s.t], b, x)
		tr.emit(ev{"e": "call", "w": w + 1, "op": op, "arg": arg + 1, "ret": c.ret, "ok": b2i(c.ok)})
		switch op {
		case "SetText":
			s.t = arg
		case "SetOpt":
			s.o = arg
		}
		s.start, s.pos = s.it.start(), s.it.end()
	}
	same := 1
	for _, l := range ls {
		if l.mem != nil && !l.mem() {
			same = 0
		}
	}
	tr.emit(ev{"e": "mem", "same": same})
}

func init() {
	props["C10"] = func() {
		var segs []*seg
		for _, n := range famNames {
			segs = append(segs, theSeg(n))
		}
		if *flagPart == "race" {
			suiteRaw(segs)
			suiteCold(segs)
			suiteGoroutines(segs, pickN(400, 6000), 8)
			return
		}
		suiteInterleavings(segs, pickN(250, 6000))
		suiteGoroutines(segs, pickN(1500, 20000), 8)
		traceConcurrent(segs, pickN(4000, 40000))
	}
	replayers["C10"] = func(f *failure, raw map[string]json.RawMessage) {
		var rp concReplay
		if json.Unmarshal(raw["extra"], &rp) != nil || len(rp.Actors) == 0 {
			fatal("this finding is replayed by running the check with the seed in the file")
		}
		m := newShared(rp.Texts)
		var ps []*program
		for i, n := range rp.Actors {
			for _, a := range actors() {
				if a.name == n {
					ps = append(ps, &program{a: a, t: rp.On[i], batches: rp.Calls[i]})
				}
			}
		}
		res.count("replay", 1)
		want, g := soloAll(m, ps)
		if g == nil {
			g = interleaved(m, ps, want, rp.Sched)
		}
		if g != nil {
			res.fail(g)
		}
	}
}
