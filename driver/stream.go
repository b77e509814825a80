package main

// C07 (streaming) and C08 (reader faults)

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"
)

// slack: code points beyond the deciding one that the split function may want to see
const slack = 3

// known mirrors Stream!Known: the first token after reading syms
type knownT struct {
	end  int  // 0: extends over everything so far
	sure bool // decided
	at   int  // symbols read when it was decided
	st   int
}

func (m *machine) known(syms []uint8) knownT {
	st, cand := m.init, 0
	for i, k := range syms {
		t := &m.t[st][k]
		if cand != 0 && t.pend == pendB {
			return knownT{cand, true, i + 1, int(t.next)}
		}
		if t.pend == pendJ {
			cand = 0
		}
		if cand == 0 && t.here == outB {
			return knownT{i, true, i + 1, int(t.next)}
		}
		if cand == 0 && t.here == outP {
			cand = i
		}
		st = int(t.next)
	}
	return knownT{cand, false, 0, st}
}

// readStep is one delivery
type readStep struct {
	N   int    `json:"n"`
	End string `json:"e"`
}

func loadSchedules() [][]readStep {
	var out [][]readStep
	eachPrinted(table("StreamSched"), func(b []byte) {
		var s []readStep
		if json.Unmarshal(b, &s) != nil {
			fatal("bad schedule")
		}
		out = append(out, s)
	})
	if len(out) == 0 {
		fatal("no schedules")
	}
	return out
}

func units(s []readStep) int {
	n := 0
	for _, x := range s {
		n += x.N
	}
	return n
}

// schedReader delivers a text according to a byte-level schedule
type schedReader struct {
	text  string
	sched []readStep // N in bytes
	err   error      // what "err" means
	i     int
	pos   int
	part  int // bytes of sched[i] already delivered
	over  bool
	more  bool // went on behind an error
	log   func(n int, end string)
	calls int
}

func (s *schedReader) Read(b []byte) (int, error) {
	s.calls++
	if s.over || s.i >= len(s.sched) {
		s.over = true
		// what is read behind an error must not be seen
		if len(s.sched) > 0 && s.sched[len(s.sched)-1].End == "err" && !s.more {
			s.more = true
			return copy(b, "more "), nil
		}
		return 0, io.EOF
	}
	x := s.sched[s.i]
	n := x.N - s.part
	end := x.End
	if n > len(b) {
		n = len(b)
		end = "open"
	}
	copy(b, s.text[s.pos:s.pos+n])
	if n < len(b) {
		// a reader may use all of b as scratch space
		copy(b[n:], tails[(s.calls+s.pos)%len(tails)])
	}
	s.pos += n
	if s.part+n < x.N {
		s.part += n
		end = "open"
	} else {
		s.i++
		s.part = 0
	}
	if s.log != nil {
		s.log(n, end)
	}
	switch end {
	case "eof":
		s.over = true
		return n, io.EOF
	case "err":
		s.over = true
		return n, s.err
	}
	return n, nil
}

var errReader = errors.New("reader failed")

// scale maps the units of a schedule to byte cuts of text; returns the byte schedule and how
// many bytes are delivered
func scale(sched []readStep, cuts []int) ([]readStep, int) {
	out := make([]readStep, len(sched))
	u, pos := 0, 0
	for i, x := range sched {
		u += x.N
		to := cuts[u]
		out[i] = readStep{to - pos, x.End}
		pos = to
	}
	return out, pos
}

type streamer struct {
	s     *seg
	c     *checker
	kinds map[string][]uint8
	runs  int64
	got   []int
	ref   []int
	ib    iterOf[[]byte]
	rdErr error
	kind  int // the kind of reader, for replays
}

func newStreamer(s *seg) *streamer {
	return &streamer{s: s, c: newChecker(s), kinds: map[string][]uint8{}, ib: s.byt(nil), rdErr: errReader, kind: -1}
}

// first token of text according to the library
func (z *streamer) first(text string) int { return len(z.s.byt([]byte(text)).First()) }

type streamCfg struct {
	Sched []readStep  `json:"sched"`
	Cap   int         `json:"cap"`
	Max   int         `json:"max"`
	Cfg   interface{} `json:"joiners,omitempty"`
	Pre   int         `json:"prefix,omitempty"`
	Err   int         `json:"err,omitempty"`
	Cont  string      `json:"cont,omitempty"`
	Kind  int         `json:"reader,omitempty"`
}

// schedule runs text through a real scanner under a byte schedule
func (z *streamer) schedule(text string, sched []readStep, cap0, max int) (f *failure) {
	z.runs++
	n := units(sched)
	text = text[:n]
	stage := "FromReader"
	fails := sched[len(sched)-1].End == "err"
	kind := z.kind
	if kind < 0 {
		kind = kindFor(z.runs, fails)
	}
	if kind > 0 {
		stage = "FromReader of " + readerKinds[kind].name
	}
	extra := streamCfg{Sched: sched, Cap: cap0, Max: max, Cfg: z.s.extra, Err: errIndex(z.rdErr), Kind: kind}
	z.c.slot.watch(z.s.name, &stage, text, extra)
	defer func() {
		z.c.slot.unwatch()
		if r := recover(); r != nil {
			f = &failure{Seg: z.s.name, Path: stage, Text: text, What: fmt.Sprintf("panic: %v", r), Note: z.s.note, Extra: extra}
		}
	}()
	fail := func(what string) *failure {
		return &failure{Seg: z.s.name, Path: stage, Text: text, What: what, Want: clone(z.ref), Got: clone(z.got), Note: z.s.note, Extra: extra}
	}
	z.ib.SetText([]byte(text))
	var e string
	if z.ref, e = walkBytes(z.ib, text, z.ref[:0]); e != "" {
		z.ib = z.s.byt(nil)
		return nil // not a streaming matter; C01 reports it
	}
	rd, done := readerKinds[kind].wrap(&schedReader{text: text, sched: sched, err: z.rdErr})
	if done != nil {
		defer done()
	}
	sc := z.s.rd(rd)
	if max > 0 {
		sc.Buffer(make([]byte, 0, cap0), max)
	}
	want := error(nil)
	if fails {
		want = z.rdErr
	}
	z.got = z.got[:0]
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		if len(t) == 0 || pos+len(t) > len(text) || text[pos:pos+len(t)] != string(t) {
			return fail(fmt.Sprintf("Scanner token %q at %d is not the text there", t, pos))
		}
		if string(t) != sc.Text() {
			return fail("Scanner.Text() differs from Bytes()")
		}
		pos += len(t)
		z.got = append(z.got, pos)
	}
	if !sameInts(z.got, z.ref) {
		if err := sc.Err(); err != nil && err != want {
			return fail(fmt.Sprintf("scanning stopped at %d of %d with error %v", pos, len(text), err))
		}
		if want != nil {
			return fail("tokens are not those of the bytes delivered before the error")
		}
		return fail("tokens differ from those of the whole text")
	}
	if err := sc.Err(); err != want && !(want != nil && errors.Is(err, want)) {
		return fail(fmt.Sprintf("Err() is %v, want %v", err, want))
	}
	for k := 0; k < 3; k++ {
		if sc.Scan() {
			return fail(fmt.Sprintf("Scan succeeds after the end, token %q", sc.Bytes()))
		}
	}
	if err := sc.Err(); err != want && !(want != nil && errors.Is(err, want)) {
		return fail(fmt.Sprintf("Err() after the end is %v, want %v", err, want))
	}
	return nil
}

// passing is an error that says it may pass
type passing struct{ timeout, temporary bool }

func (passing) Error() string     { return "not now" }
func (p passing) Timeout() bool   { return p.timeout }
func (p passing) Temporary() bool { return p.temporary }

var faultErrs = []error{errReader, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", errReader),
	passing{true, false}, passing{false, true}, passing{true, true}, context.DeadlineExceeded, context.Canceled,
	os.ErrDeadlineExceeded, os.ErrClosed, io.ErrShortBuffer, io.ErrNoProgress, bufio.ErrTooLong, syscall.EINTR, syscall.EAGAIN,
	&os.PathError{Op: "read", Path: "text", Err: syscall.EIO}, fmt.Errorf("at the end: %w", io.ErrUnexpectedEOF), fmt.Errorf("wrapped: %w", io.EOF)}

func errIndex(e error) int {
	for i, x := range faultErrs {
		if x == e {
			return i
		}
	}
	return 0
}

// cpRange: the code points whose encoding starts with partial
func cpRange(partial string) (lo, hi int) {
	b := partial[0]
	var n int
	switch {
	case b < 0xC0:
		return 1, 0
	case b < 0xE0:
		n, lo = 2, int(b&0x1F)
	case b < 0xF0:
		n, lo = 3, int(b&0x0F)
	case b < 0xF8:
		n, lo = 4, int(b&0x07)
	default:
		return 1, 0
	}
	if len(partial) > n {
		return 1, 0
	}
	hi = lo
	for i := 1; i < n; i++ {
		if i < len(partial) {
			lo, hi = lo<<6|int(partial[i]&0x3F), hi<<6|int(partial[i]&0x3F)
		} else {
			lo, hi = lo<<6, hi<<6|0x3F
		}
	}
	if min := []int{0, 0, 0x80, 0x800, 0x10000}[n]; lo < min {
		lo = min
	}
	if hi > 0x10FFFF {
		hi = 0x10FFFF
	}
	return lo, hi
}

// nextKinds: the kinds of all code points whose encoding starts with partial
func (z *streamer) nextKinds(partial string) []uint8 {
	if ks, ok := z.kinds[partial]; ok {
		return ks
	}
	set := map[uint8]bool{}
	if partial == "" {
		for k, r := range z.s.reps {
			if len(r) > 0 {
				set[uint8(k)] = true
			}
		}
	} else {
		lo, hi := cpRange(partial)
		for c := lo; c <= hi; c++ {
			if !isSurrogate(c) {
				set[z.s.kind[c]] = true
			}
		}
	}
	var ks []uint8
	for k := range z.s.m.syms {
		if set[uint8(k)] {
			ks = append(ks, uint8(k))
		}
	}
	z.kinds[partial] = ks
	return ks
}

// complete returns a code point of kind k that starts with partial
func (z *streamer) complete(r *rand.Rand, partial string, k uint8) string {
	all := z.s.reps[k]
	if partial == "" {
		return string(all[r.Intn(len(all))])
	}
	lo, hi := cpRange(partial)
	a := sort.Search(len(all), func(i int) bool { return int(all[i]) >= lo })
	b := sort.Search(len(all), func(i int) bool { return int(all[i]) > hi })
	if a < b {
		return string(all[a+r.Intn(b-a)])
	}
	return partial
}

// prefixes checks the contract of the split function on every prefix of a well-formed text
// (split(prefix, false)); only some prefixes when the text is long
func (z *streamer) prefixes(r *rand.Rand, text string) (f *failure) {
	stage := "SplitFunc(prefix, atEOF=false)"
	z.c.slot.watch(z.s.name, &stage, text, nil)
	p := 0
	cont := ""
	defer func() {
		z.c.slot.unwatch()
		if x := recover(); x != nil {
			f = &failure{Seg: z.s.name, Path: stage, Text: text, What: fmt.Sprintf("panic on text[:%d]: %v", p, x), Note: z.s.note, Extra: streamCfg{Pre: p, Cfg: z.s.extra, Cont: cont}}
		}
	}()
	fail := func(what string) *failure {
		return &failure{Seg: z.s.name, Path: stage, Text: text, What: what, Note: z.s.note, Extra: streamCfg{Pre: p, Cfg: z.s.extra, Cont: cont}}
	}
	if len(text) == 0 {
		return nil
	}
	buf := []byte(text)
	valid := isValid(text)
	// symbols and offsets
	c := z.c
	c.syms, c.off = c.syms[:0], c.off[:0]
	if valid {
		for i, x := range text {
			c.syms = append(c.syms, z.s.kind[x])
			c.off = append(c.off, i)
		}
		c.off = append(c.off, len(text))
	}
	firstText := z.first(text)
	whole := 0
	limit := len(text)
	for p = 1; p <= limit; p++ {
		z.runs++
		adv, tok, err := z.s.split(buf[:p:p], false)
		if err != nil {
			return fail(fmt.Sprintf("SplitFunc(text[:%d], false) gives error %v", p, err))
		}
		if adv < 0 || adv > p {
			return fail(fmt.Sprintf("SplitFunc(text[:%d], false) advances %d", p, adv))
		}
		if adv == 0 && tok != nil {
			return fail(fmt.Sprintf("SplitFunc(text[:%d], false) asks for more and returns a token %q", p, tok))
		}
		if adv > 0 && string(tok) != text[:adv] {
			return fail(fmt.Sprintf("SplitFunc(text[:%d], false) advances %d with token %q", p, adv, tok))
		}
		if adv > 0 && adv != firstText {
			return fail(fmt.Sprintf("SplitFunc(text[:%d], false) commits to %d bytes, the text's first token has %d", p, adv, firstText))
		}
		if !valid {
			if adv > 0 {
				if x := z.tryConts(r, text[:p], adv, nil, "", &cont, 4); x >= 0 {
					return fail(fmt.Sprintf("SplitFunc(text[:%d], false) commits to %d bytes, but with %+q following the first token has %d", p, adv, cont, x))
				}
			}
			continue
		}
		for whole < len(c.syms) && c.off[whole+1] <= p {
			whole++
		}
		partial := text[c.off[whole]:p]
		kn := z.s.m.known(c.syms[:whole])
		if adv > 0 {
			if x := z.tryConts(r, text[:p], adv, &kn, partial, &cont, 2); x >= 0 {
				return fail(fmt.Sprintf("SplitFunc(text[:%d], false) commits to %d bytes, but with %+q following the first token has %d", p, adv, cont, x))
			}
			if kn.sure && whole > kn.at+2*slack && p < limit {
				// decided long ago; further prefixes only repeat this
				if p+60 < limit && r.Intn(4) != 0 {
					p += 1 + r.Intn(50)
				}
			}
			continue
		}
		if kn.sure && whole >= kn.at+slack {
			// the specification says this is decided; does the library agree for every continuation?
			e := c.off[kn.end]
			if z.first(text[:p]) == e && z.tryConts(r, text[:p], e, &kn, partial, &cont, 12) < 0 {
				cont = ""
				return fail(fmt.Sprintf("SplitFunc(text[:%d], false) asks for more, %d code points after the one that decides that the first token has %d bytes", p, whole-kn.at, e))
			}
		}
	}
	return nil
}

// tryConts looks for a continuation of prefix whose first token is not adv bytes long; it
// returns that token's length, or -1
func (z *streamer) tryConts(r *rand.Rand, prefix string, adv int, kn *knownT, partial string, cont *string, n int) int {
	try := func(s string) int {
		if x := z.first(prefix + s); x != adv {
			*cont = s
			return x
		}
		return -1
	}
	if x := try(""); x >= 0 {
		return x
	}
	*cont = ""
	if kn != nil {
		if kn.sure && adv < len(prefix) && n <= 2 && r.Intn(8) != 0 {
			return -1
		}
		// every possible next kind, then each kind after it when undecided
		for _, k := range z.nextKinds(partial) {
			a := z.complete(r, partial, k)
			if len(a) < len(partial) {
				continue
			}
			a = a[len(partial):]
			if x := try(a); x >= 0 {
				return x
			}
			if !kn.sure || n > 2 {
				for i := 0; i < 3; i++ {
					k2 := z.nextKinds("")
					if x := try(a + z.complete(r, "", k2[r.Intn(len(k2))])); x >= 0 {
						return x
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		s := bit(r) + bit(r)
		if r.Intn(2) == 0 {
			s = string([]byte{byte(0x80 + r.Intn(64)), byte(r.Intn(256))}) + s
		}
		if x := try(s); x >= 0 {
			return x
		}
	}
	*cont = ""
	return -1
}

// need: the largest number of bytes a scanner must hold to get through text, by the specification
func (z *streamer) need(text string) int {
	c := z.c
	c.oracle(text)
	max := 0
	start := 0
	j := 0
	for start < len(c.syms) {
		kn := z.s.m.known(c.syms[start:])
		to := len(c.syms)
		next := to
		if kn.sure {
			to = start + kn.at + slack
			next = start + kn.end
		} else if kn.end > 0 {
			next = start + kn.end
		}
		if to > len(c.syms) {
			to = len(c.syms)
		}
		if n := c.off[to] - c.off[start]; n > max {
			max = n
		}
		start = next
		j++
	}
	return max
}

// ---------------------------------------------------------------- suites

func cutsOf(r *rand.Rand, n, units int) []int {
	cuts := make([]int, units+1)
	for i := 1; i < units; i++ {
		cuts[i] = r.Intn(n + 1)
	}
	cuts[units] = n
	for i := 1; i <= units; i++ {
		for j := i; j > 1 && cuts[j] < cuts[j-1]; j-- {
			cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
		}
	}
	return cuts
}

func (z *streamer) report(suite string, f *failure, again func(t string) *failure) {
	f.Suite = suite
	best := f
	if again != nil && f.What != "does not terminate" {
		for size := len(best.Text) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Text); {
				if g := again(best.Text[:i] + best.Text[i+size:]); g != nil {
					best = g
				} else {
					i += size
				}
			}
		}
	}
	best.Suite = suite
	if z.s.extra != nil {
		best.Group = "joiners"
	}
	res.fail(best)
}

// schedules x texts
func suiteSchedules(s *seg, scheds [][]readStep, n int, fault bool) {
	p := s.picker()
	alpha := s.alphabet()
	U := 0
	for _, x := range scheds {
		if u := units(x); u > U {
			U = u
		}
	}
	var use [][]readStep
	for _, x := range scheds {
		if (x[len(x)-1].End == "err") == fault {
			use = append(use, x)
		}
	}
	name := fmt.Sprintf("%s: every reader schedule of %d units x texts", s.label(), U)
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		var word []uint8
		for i := w; i < n && !stopped(); i += nWorkers {
			word = s.randomWord(r, alpha, 3+r.Intn(30), word[:0])
			t := p.text(r, word)
			switch r.Intn(8) {
			case 0:
				t = damage(r, t)
			case 1:
				t = bit(r) + t + bit(r)
			case 2:
				t += truncated(r, p, alpha)
			}
			cuts := cutsOf(r, len(t), U)
			for si, sch := range use {
				if fault {
					z.rdErr = faultErrs[si%len(faultErrs)]
				}
				b, _ := scale(sch, cuts)
				cap0, max := 0, 0
				if si%3 == 0 {
					cap0, max = 1+r.Intn(8), 4096+len(t)
				}
				if f := z.schedule(t, b, cap0, max); f != nil {
					z.report(name, f, nil)
				}
			}
		}
		return z.runs
	})
}

func (s *seg) label() string {
	if s.note != "" {
		return s.name + " with " + s.note
	}
	return s.name
}

// every composition of short texts; each kind sequence of length 2..3
func suiteCompositions(s *seg, maxBytes int, fault bool, every int) {
	p := s.picker()
	alpha := s.alphabet()
	name := fmt.Sprintf("%s: every chunking of short texts", s.label())
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		try := func(t string) {
			if len(t) == 0 || len(t) > maxBytes {
				return
			}
			top := len(t)
			from := top
			if fault {
				from = 0
			}
			for d := from; d <= top; d++ {
				for m := 0; m < 1<<uint(max0(d-1)); m++ {
					var sch []readStep
					last := 0
					for i := 1; i < d; i++ {
						if m&(1<<uint(i-1)) != 0 {
							sch = append(sch, readStep{i - last, "open"})
							last = i
						}
					}
					end := "eof"
					if fault {
						end = "err"
					}
					if m%2 == 0 || fault && m%3 == 0 {
						sch = append(sch, readStep{d - last, end})
					} else {
						sch = append(sch, readStep{d - last, "open"}, readStep{0, end})
					}
					if f := z.schedule(t, sch, 1+m%3, 4096); f != nil {
						z.report(name, f, nil)
					}
				}
			}
		}
		i := 0
		for l := 1; l <= 4; l++ {
			forEachWord(alpha, l, w, nWorkers, func(word []uint8) bool {
				i++
				if l == 4 && i%(every*23) != 0 || l == 3 && i%every != 0 {
					return true
				}
				try(p.text(r, word))
				return !stopped()
			})
		}
		for i := 0; i < 400/every && !stopped(); i++ {
			t := bit(r) + bit(r)
			if r.Intn(2) == 0 {
				t = damage(r, t+truncated(r, p, alpha))
			}
			try(t)
		}
		return z.runs
	})
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

// the split function's contract on every prefix
func suitePrefixes(s *seg, n int) {
	p := s.picker()
	alpha := s.alphabet()
	name := s.label() + ": split function on every prefix"
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		try := func(t string) bool {
			if f := z.prefixes(r, t); f != nil {
				z.report(name, f, func(u string) *failure { return z.prefixes(r, u) })
			}
			return !stopped()
		}
		for l := 1; l <= pickN(3, 4); l++ {
			forEachWord(alpha, l, w, nWorkers, func(word []uint8) bool { return try(p.text(r, word)) })
		}
		// state graph: access words, two kinds, characterising words, then plenty more
		tail := "xyz1 abc. "
		var word []uint8
		for i, acc := range s.mn.access {
			if i%nWorkers != w {
				continue
			}
			for _, k := range alpha {
				for _, k2 := range alpha {
					word = append(append(word[:0], acc...), k, k2)
					t := p.text(r, word)
					if len(s.mn.w) > 0 {
						t += p.text(r, s.mn.w[r.Intn(len(s.mn.w))])
					}
					if !try(t + tail) {
						return z.runs
					}
				}
				for _, laps := range []int{5, 30} {
					if !try(p.text(r, acc) + strings.Repeat(string(p.pick(r, k)), laps) + string(p.pick(r, alpha[r.Intn(len(alpha))])) + tail) {
						return z.runs
					}
				}
			}
		}
		for i := w; i < n && !stopped(); i += nWorkers {
			word = s.randomWord(r, alpha, 40, word[:0])
			t := p.text(r, word)
			if i%5 == 0 {
				t = damage(r, t)
			}
			try(t)
		}
		// every kind repeated for long after a decided boundary
		for i, k := range alpha {
			if i%nWorkers != w {
				continue
			}
			for _, k0 := range alpha {
				try(string(p.pick(r, k0)) + strings.Repeat(string(p.pick(r, k)), 200) + "z")
			}
		}
		return z.runs
	})
}

// every code point: cut inside, before and after it
func suiteCutCodePoints(s *seg) {
	name := s.label() + ": every code point cut at every byte"
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
			if isSurrogate(cp) {
				continue
			}
			e := string(rune(cp))
			t := "a" + e + "b"
			full := []byte(t)
			first := z.first(t)
			for q := 1; q <= len(t); q++ {
				z.runs++
				adv, _, err := s.split(full[:q:q], false)
				if err != nil || adv != 0 && adv != first {
					z.report(name, &failure{Seg: s.name, Path: "SplitFunc(prefix, atEOF=false)", Text: t,
						What: fmt.Sprintf("SplitFunc(text[:%d], false)=%d,%v but the first token has %d bytes", q, adv, err, first), Extra: streamCfg{Pre: q}}, nil)
				}
			}
			for q := 1; q < len(e); q++ {
				z.runs++
				if adv, _, _ := s.split([]byte(e[:q]), false); adv != 0 {
					z.report(name, &failure{Seg: s.name, Path: "SplitFunc(prefix, atEOF=false)", Text: t,
						What: fmt.Sprintf("SplitFunc commits to %d bytes of an incomplete code point %q", adv, e[:q]), Extra: streamCfg{Pre: q}}, nil)
				}
			}
		}
		return z.runs
	})
}

// random chunkings of longer texts, buffers as small as the specification allows
func suiteLongStreams(s *seg, n int, fault bool) {
	p := s.picker()
	alpha := s.alphabet()
	name := s.label() + ": long texts, random chunkings, tight buffers"
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		var word []uint8
		for i := w; i < n && !stopped(); i += nWorkers {
			var b strings.Builder
			target := 50 << uint(r.Intn(8))
			for b.Len() < target {
				word = s.randomWord(r, alpha, 50, word[:0])
				b.WriteString(p.text(r, word))
				b.WriteString(bit(r))
			}
			t := b.String()
			tight := 0
			if !fault && i%2 == 0 && z.c.check(t, pBytes) == nil {
				tight = z.need(t) + 1
			}
			if tight == 0 && r.Intn(3) == 0 {
				t = damage(r, t)
			}
			if fault {
				t = t[:r.Intn(len(t)+1)]
			}
			var sch []readStep
			left := len(t)
			big := 1 + r.Intn(1+len(t)/2)
			for left > 0 {
				k := 1 + r.Intn(big)
				if k > left {
					k = left
				}
				if r.Intn(20) == 0 {
					sch = append(sch, readStep{0, "open"})
				}
				sch = append(sch, readStep{k, "open"})
				left -= k
			}
			end := "eof"
			if fault {
				end = "err"
				z.rdErr = faultErrs[r.Intn(len(faultErrs))]
			}
			if len(sch) > 0 && r.Intn(2) == 0 && sch[len(sch)-1].N > 0 {
				sch[len(sch)-1].End = end
			} else {
				sch = append(sch, readStep{0, end})
			}
			cap0, max := 1+r.Intn(64), len(t)+4096
			if tight > 0 {
				max = tight
				if cap0 > max {
					cap0 = max
				}
			}
			if f := z.schedule(t, sch, cap0, max); f != nil {
				z.report(name, f, nil)
			}
		}
		return z.runs
	})
}

// tokens and look-aheads far longer than usual, in a few pieces
func suiteLoopStreams(s *seg, sizes []int, n int, fault bool) {
	loopStreams(newLoopTexts(s, sizes), n, fault)
}

func loopStreams(l *loopTexts, n int, fault bool) {
	s, sizes := l.s, l.sizes
	name := fmt.Sprintf("%s: loops repeated up to %d bytes, in pieces", s.label(), sizes[len(sizes)-1])
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		for i := w; i < n && !stopped(); i += nWorkers {
			t := l.text(r)
			if fault {
				t = t[:len(t)-r.Intn(1+minInt(len(t), 12))]
			}
			var sch []readStep
			for left := len(t); left > 0; {
				k := 1 + r.Intn(1+left)
				if r.Intn(3) == 0 {
					k = 1 + r.Intn(12)
				}
				if k > left || len(sch) > 12 {
					k = left
				}
				sch = append(sch, readStep{k, "open"})
				left -= k
			}
			end := "eof"
			if fault {
				end = "err"
				z.rdErr = faultErrs[r.Intn(len(faultErrs))]
			}
			if len(sch) > 0 && r.Intn(2) == 0 {
				sch[len(sch)-1].End = end
			} else {
				sch = append(sch, readStep{0, end})
			}
			if f := z.schedule(t, sch, 1+r.Intn(64), len(t)+4096); f != nil {
				z.report(name, f, nil)
			}
		}
		return z.runs
	})
}

// streams far longer than the scanner's default buffer
func suiteHuge(s *seg, sizes []int) {
	p := s.picker()
	alpha := s.alphabet()
	name := s.label() + ": streams longer than the default buffer"
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		var word []uint8
		for si, size := range sizes {
			for kind := 0; kind < 4; kind++ {
				if (si*4+kind)%nWorkers != w || stopped() {
					continue
				}
				var b strings.Builder
				for b.Len() < size {
					word = s.randomWord(r, alpha, 50, word[:0])
					t := p.text(r, word)
					if z.need(t) < 3000 {
						b.WriteString(t)
					}
					b.WriteString(" End. Next one\n")
				}
				t := b.String()
				if z.c.check(t, pBytes) != nil || z.need(t) > 60000 {
					continue // the rules are checked elsewhere
				}
				step := []int{1, 7, 4096, 100000}[kind]
				if step == 1 && size > 300000 {
					step = 3
				}
				var sch []readStep
				for left := len(t); left > 0; left -= step {
					k := step
					if k > left {
						k = left
					}
					sch = append(sch, readStep{k, "open"})
				}
				sch = append(sch, readStep{0, "eof"})
				if f := z.schedule(t, sch, 0, 0); f != nil {
					f.Extra = streamCfg{Sched: nil}
					z.report(name, f, nil)
				}
			}
		}
		return z.runs
	})
}

// ---------------------------------------------------------------- traces

func (t *tracer) stream(z *streamer, which, text string, sched []readStep, max int) {
	s := z.s
	var syms []ev
	var wid []int
	for _, r := range text {
		k, f := s.m.syms[s.kind[r]], "-"
		if j := strings.IndexByte(k, '+'); j >= 0 {
			k, f = k[:j], k[j+1:]
		}
		syms = append(syms, ev{"k": k, "f": f})
		wid = append(wid, utf8.RuneLen(r))
	}
	t.emit(ev{"e": "start", "m": which, "seg": s.name, "hex": fmt.Sprintf("%x", text), "syms": syms, "w": wid, "max": max})
	rd := &schedReader{text: text, sched: sched, err: errReader}
	rd.log = func(n int, end string) { t.emit(ev{"e": "read", "n": n, "end": end}) }
	pos := 0
	sc := bufio.NewScanner(rd)
	sc.Buffer(make([]byte, 0, minInt(8, max)), max)
	sc.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := s.split(data, atEOF)
		ok := b2i(err == nil && adv >= 0 && adv <= len(data) && (adv == 0 && tok == nil || adv > 0 && string(tok) == string(data[:adv])))
		nx := []ev{}
		if adv > 0 && !atEOF {
			// a partially delivered code point: what it can be
			end := pos + len(data)
			st := end
			for st > pos && !utf8.RuneStart(text[st-1]) {
				st--
			}
			if st > pos {
				st--
			}
			part := text[st:end]
			if !utf8.FullRuneInString(part) {
				for _, k := range z.nextKinds(part) {
					nx = append(nx, ev{"k": s.m.syms[k], "f": "-"})
				}
			}
		}
		t.emit(ev{"e": "split", "len": len(data), "eof": b2i(atEOF), "adv": adv, "ok": ok, "nx": nx})
		return adv, tok, err
	})
	for k := 0; k < 4*len(text)+8 && sc.Scan(); k++ {
		b := pos
		pos += len(sc.Bytes())
		t.emit(ev{"e": "tok", "b": b, "x": pos})
	}
	end := 0
	switch err := sc.Err(); {
	case errors.Is(err, errReader):
		end = 1
	case errors.Is(err, bufio.ErrTooLong):
		end = 2
	case err != nil:
		end = 3
	}
	t.emit(ev{"e": "done", "err": end})
}

func traceStreams(segs []*seg, n int, fault bool) {
	t := newTracer("StreamTrace-all")
	if t == nil {
		return
	}
	defer t.close()
	r := rand.New(rand.NewSource(subSeed("stream trace", 0)))
	scheds := loadSchedules()
	U := 0
	for _, x := range scheds {
		if u := units(x); u > U {
			U = u
		}
	}
	zs := map[string]*streamer{}
	texts := 0
	for try := 0; t.n < n && try < 100000; try++ {
		s := segs[r.Intn(len(segs))]
		z := zs[s.name]
		if z == nil {
			z = newStreamer(s)
			zs[s.name] = z
		}
		p := s.picker()
		text := p.text(r, s.randomWord(r, s.alphabet(), 14, nil))
		sch := scheds[r.Intn(len(scheds))]
		isErr := sch[len(sch)-1].End == "err"
		if isErr != fault {
			continue
		}
		b, d := scale(sch, cutsOf(r, len(text), U))
		if isErr && (!isValid(text[:d])) {
			continue
		}
		if isErr {
			text = text[:d]
		}
		if text == "" || z.c.check(text, pBytes) != nil {
			continue // what the tokens are is decided elsewhere
		}
		texts++
		t.stream(z, map[string]string{"graphemes": "g", "words": "w", "phrases": "p", "sentences": "s"}[s.name], text, b, 4096+len(text))
	}
	res.info("traced streams", texts)
}

func joinerStreamSegs() []*seg {
	loadJoiners()
	var out []*seg
	for _, c := range []joinCfg{
		{Middle: []rune("@-/ "), Leading: []rune("#.")},
		{Middle: []rune("\u2013é1a"), Leading: []rune("\u2026é1 ")},
	} {
		c := c
		s := segJoiners(c, false)
		j := joinersOf[[]byte](c)
		// the scanner's split function, captured through the public API: a scanner with these joiners
		// is asked for its first token over a reader that never ends
		_ = j
		out = append(out, s)
	}
	return out
}

func streamProp(fault bool) func() {
	return func() {
		scheds := loadSchedules()
		var segs []*seg
		for _, n := range segNames {
			segs = append(segs, theSeg(n))
		}
		for _, s := range segs {
			if !fault {
				suitePrefixes(s, pickN(12000, 150000))
				suiteCutCodePoints(s)
				if s.name == "sentences" {
					suiteHuge(s, []int{200000})
				} else {
					suiteHuge(s, []int{200000, pickN(1000000, 6000000)})
				}
			}
			suiteSchedules(s, scheds, pickN(2400, 20000), fault)
			suiteCompositions(s, 9, fault, pickN(3, 1))
			suiteLongStreams(s, pickN(2000, 20000), fault)
			suiteLoopStreams(s, []int{63, 64, 127, 128, 255, 256, 511, 512, 1000, 1024, 2000, 2048}, pickN(12000, 60000), fault)
			suiteLoopStreams(s, []int{4095, 4096, 8192, 16384}, pickN(400, 4000), fault)
			if s.name != "sentences" {
				suiteLoopStreams(s, []int{32768, 65535, 65536, 100000, 131072}, pickN(200, 1500), fault)
			}
			loopStreams(loopsOf(s, giantSizes(), true), pickN(24, 120), fault)
			suiteLitStreams(s, pickN(20000, 200000), fault)
		}
		for _, s := range joinerStreamSegs() {
			suiteSchedules(s, scheds, pickN(800, 8000), fault)
			suiteCompositions(s, 8, fault, pickN(8, 2))
			suiteLongStreams(s, pickN(600, 6000), fault)
			suiteLoopStreams(s, []int{64, 128, 256, 512, 1024, 4096, 16384}, pickN(3000, 16000), fault)
			suiteLitStreams(s, pickN(4000, 40000), fault)
		}
		traceStreams(segs, pickN(6000, 50000), fault)
	}
}

func init() {
	props["C07"] = streamProp(false)
	props["C08"] = streamProp(true)
	rep := func(f *failure, raw map[string]json.RawMessage) {
		var sc struct {
			streamCfg
			Joiners *joinCfg `json:"joiners"`
		}
		json.Unmarshal(raw["extra"], &sc)
		var s *seg
		if sc.Joiners != nil {
			loadJoiners()
			s = segJoiners(*sc.Joiners, false)
		} else {
			s = theSeg(f.Seg)
		}
		z := newStreamer(s)
		if sc.Err < len(faultErrs) {
			z.rdErr = faultErrs[sc.Err]
		}
		z.kind = sc.Kind
		res.count("replay", 1)
		if len(sc.Sched) > 0 {
			if x := z.schedule(f.Text, sc.Sched, sc.Cap, sc.Max); x != nil {
				res.fail(x)
			}
			return
		}
		if x := z.prefixes(rand.New(rand.NewSource(1)), f.Text); x != nil {
			res.fail(x)
		}
	}
	replayers["C07"] = rep
	replayers["C08"] = rep
	_ = words.SplitFunc
}
