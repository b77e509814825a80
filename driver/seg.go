package main

// The four packages behind one face.

import (
	"bufio"
	"fmt"
	"io"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

type iterOf[T any] interface {
	Next() bool
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
	First() T
}

type scanner interface {
	Scan() bool
	Bytes() []byte
	Text() string
	Err() error
	Buffer([]byte, int)
}

type seg struct {
	name  string
	str   func(string) iterOf[string]
	byt   func([]byte) iterOf[[]byte]
	split bufio.SplitFunc // nil when the configuration has no exported split function
	rd    func(io.Reader) scanner
	m     *machine
	mn    *minimal
	kind  []uint8     // code point -> symbol
	reps  [][]rune    // symbol -> code points
	note  string      // configuration, for reports
	extra interface{} // configuration, for replay
	once  sync.Once
	pick  *picker
}

func (s *seg) fillReps() {
	s.reps = make([][]rune, len(s.m.syms))
	for c := 0; c < 0x110000; c++ {
		if isSurrogate(c) {
			continue
		}
		k := s.kind[c]
		s.reps[k] = append(s.reps[k], rune(c))
	}
}

func segGraphemes() *seg {
	return &seg{name: "graphemes",
		str:   func(t string) iterOf[string] { return graphemes.FromString(t) },
		byt:   func(t []byte) iterOf[[]byte] { return graphemes.FromBytes(t) },
		split: graphemes.SplitFunc,
		rd:    func(r io.Reader) scanner { return graphemes.FromReader(r) }}
}
func segWords() *seg {
	return &seg{name: "words",
		str:   func(t string) iterOf[string] { return words.FromString(t) },
		byt:   func(t []byte) iterOf[[]byte] { return words.FromBytes(t) },
		split: words.SplitFunc,
		rd:    func(r io.Reader) scanner { return words.FromReader(r) }}
}
func segPhrases() *seg {
	return &seg{name: "phrases",
		str:   func(t string) iterOf[string] { return phrases.FromString(t) },
		byt:   func(t []byte) iterOf[[]byte] { return phrases.FromBytes(t) },
		split: phrases.SplitFunc,
		rd:    func(r io.Reader) scanner { return phrases.FromReader(r) }}
}
func segSentences() *seg {
	return &seg{name: "sentences",
		str:   func(t string) iterOf[string] { return sentences.FromString(t) },
		byt:   func(t []byte) iterOf[[]byte] { return sentences.FromBytes(t) },
		split: sentences.SplitFunc,
		rd:    func(r io.Reader) scanner { return sentences.FromReader(r) }}
}

// ---------------------------------------------------------------- observing

// Each observer returns the token ends, or an error text when the observation itself is
// inconsistent (a gap, an overlap, a Value that is not the text between Start and End, ...).

func walkStr(it iterOf[string], text string, dst []int) ([]int, string) {
	end := 0
	n := 0
	for it.Next() {
		s, e := it.Start(), it.End()
		if s != end || e <= s || e > len(text) {
			return dst, fmt.Sprintf("token %d has Start=%d End=%d after previous End=%d (len %d)", n, s, e, end, len(text))
		}
		if v := it.Value(); v != text[s:e] {
			return dst, fmt.Sprintf("token %d Value=%q but text[%d:%d]=%q", n, v, s, e, text[s:e])
		}
		dst = append(dst, e)
		end = e
		n++
	}
	if end != len(text) {
		return dst, fmt.Sprintf("iteration ended at %d of %d", end, len(text))
	}
	return dst, ""
}

func walkBytes(it iterOf[[]byte], text string, dst []int) ([]int, string) {
	end := 0
	n := 0
	for it.Next() {
		s, e := it.Start(), it.End()
		if s != end || e <= s || e > len(text) {
			return dst, fmt.Sprintf("token %d has Start=%d End=%d after previous End=%d (len %d)", n, s, e, end, len(text))
		}
		if v := it.Value(); string(v) != text[s:e] {
			return dst, fmt.Sprintf("token %d Value=%q but text[%d:%d]=%q", n, v, s, e, text[s:e])
		}
		dst = append(dst, e)
		end = e
		n++
	}
	if end != len(text) {
		return dst, fmt.Sprintf("iteration ended at %d of %d", end, len(text))
	}
	return dst, ""
}

func walkSplit(f bufio.SplitFunc, b []byte, dst []int) ([]int, string) {
	pos := 0
	for pos < len(b) {
		adv, tok, err := f(b[pos:], true)
		if err != nil {
			return dst, fmt.Sprintf("SplitFunc error at %d: %v", pos, err)
		}
		if adv <= 0 || adv > len(b)-pos {
			return dst, fmt.Sprintf("SplitFunc advance %d at %d of %d", adv, pos, len(b))
		}
		if string(tok) != string(b[pos:pos+adv]) {
			return dst, fmt.Sprintf("SplitFunc token %q is not the %d bytes it advances over at %d", tok, adv, pos)
		}
		pos += adv
		dst = append(dst, pos)
	}
	return dst, ""
}

func walkScanner(sc scanner, text string, dst []int) ([]int, string) {
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		if len(t) == 0 || pos+len(t) > len(text) || text[pos:pos+len(t)] != string(t) {
			return dst, fmt.Sprintf("Scanner token %q at %d is not the text there", t, pos)
		}
		pos += len(t)
		dst = append(dst, pos)
	}
	if err := sc.Err(); err != nil {
		return dst, fmt.Sprintf("Scanner error at %d of %d: %v", pos, len(text), err)
	}
	if pos != len(text) {
		return dst, fmt.Sprintf("Scanner ended at %d of %d", pos, len(text))
	}
	return dst, ""
}

const (
	pStr = 1 << iota
	pBytes
	pSplit
	pScan
	pFirst
	pFresh // use fresh iterators instead of reusing them through SetText
	pAll   = pStr | pBytes | pSplit | pScan | pFirst | pFresh
)

// checker is one worker's view of a seg: it owns reusable iterators and buffers.
type checker struct {
	s        *seg
	is       iterOf[string]
	ib       iterOf[[]byte]
	want     []int
	got      []int
	syms     []uint8
	off      []int
	buf      []byte
	runs     int64
	toks     int64
	syn      int64
	ruleHits []int64
	slot     *slot
}

func newChecker(s *seg) *checker {
	c := &checker{s: s, is: s.str(""), ib: s.byt(nil), slot: newSlot()}
	if s.m != nil {
		c.ruleHits = make([]int64, len(s.m.rules))
	}
	return c
}

// oracle computes the expected token ends (byte offsets) of well-formed text.
func (c *checker) oracle(text string) []int {
	c.syms = c.syms[:0]
	c.off = c.off[:0]
	for i := 0; i < len(text); {
		r, w := rune(text[i]), 1
		if r >= utf8.RuneSelf {
			r, w = utf8.DecodeRuneInString(text[i:])
		}
		c.syms = append(c.syms, c.s.kind[r])
		c.off = append(c.off, i)
		i += w
	}
	c.off = append(c.off, len(text))
	c.want = c.s.m.ends(c.syms, c.want[:0])
	for i, e := range c.want {
		c.want[i] = c.off[e]
	}
	c.syn += int64(len(c.syms))
	return c.want
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// what lies in memory behind the end of a byte slice is no part of the text
var tails = []string{"\u0301a", "a", "1", " ", ".a", "\u200D\U0001F466", "\U0001F1E6\U0001F1E7", "\n", "\x80\x80\x80\x80", "m", "\x1b\\", "\x07", "\x9c", "_", "'\u05D0", "\x00", "\u0308\u093F\u094D\u0915"}

func withTail(buf []byte, text string, k int) []byte {
	pre := "a\r\u200D"[:k%4] // nor is what lies before it, and it starts anywhere
	buf = append(append(buf[:0], pre...), text...)
	n := len(buf)
	buf = append(buf, tails[k%len(tails)]...)
	return buf[len(pre):n]
}

// within: a text as a part of a greater one
func within(text string, k int) string {
	p := 1 + k%7
	return ("\u200D1\r\u0301a"[8-p:] + text + tails[k%len(tails)])[p : p+len(text)]
}

// check runs text through the chosen entry points and compares with the oracle.
func (c *checker) check(text string, paths int) *failure {
	return c.compare(text, c.oracle(text), paths)
}

func (c *checker) compare(text string, want []int, paths int) (f *failure) {
	stage := ""
	c.slot.watch(c.s.name, &stage, text, c.s.extra)
	defer func() {
		c.slot.unwatch()
		if r := recover(); r != nil {
			f = &failure{Seg: c.s.name, Path: stage, Text: text, What: fmt.Sprintf("panic: %v", r), Want: clone(want), Note: c.s.note, Extra: c.s.extra}
		}
	}()
	fail := func(what string) *failure {
		return &failure{Seg: c.s.name, Path: stage, Text: text, What: what, Want: clone(want), Got: clone(c.got), Note: c.s.note, Extra: c.s.extra}
	}
	one := func(e string) *failure {
		if e != "" {
			return fail(e)
		}
		if want != nil && !sameInts(c.got, want) {
			return fail("wrong tokens")
		}
		return nil
	}
	c.runs++
	c.toks += int64(len(want))
	var e string
	if paths&pStr != 0 {
		stage = "FromString"
		it := c.is
		if c.runs%16 == 3 {
			text = within(text, int(c.runs>>4))
		}
		if paths&pFresh != 0 {
			it = c.s.str(text)
		} else {
			it.SetText(text)
		}
		c.got, e = walkStr(it, text, c.got[:0])
		if f := one(e); f != nil {
			c.is = c.s.str("")
			return f
		}
	}
	if paths&(pBytes|pSplit) != 0 {
		c.buf = withTail(c.buf, text, int(c.runs))
	}
	if paths&pBytes != 0 {
		stage = "FromBytes"
		it := c.ib
		if paths&pFresh != 0 {
			it = c.s.byt(c.buf)
		} else {
			it.SetText(c.buf)
		}
		c.got, e = walkBytes(it, text, c.got[:0])
		if f := one(e); f != nil {
			c.ib = c.s.byt(nil)
			return f
		}
	}
	if paths&pSplit != 0 && c.s.split != nil {
		stage = "SplitFunc"
		c.got, e = walkSplit(c.s.split, c.buf, c.got[:0])
		if f := one(e); f != nil {
			return f
		}
	}
	if paths&pScan != 0 {
		stage = "FromReader"
		sc := c.s.rd(strings.NewReader(text))
		if len(text) > 60000 {
			sc.Buffer(make([]byte, 0, 4096), len(text)*2+4096)
		}
		c.got, e = walkScanner(sc, text, c.got[:0])
		if f := one(e); f != nil {
			return f
		}
	}
	if paths&pFirst != 0 {
		stage = "First"
		fw := want
		if fw == nil {
			fw, e = walkStr(c.s.str(text), text, nil)
		}
		v := c.s.str(text).First()
		c.got = append(c.got[:0], len(v))
		w := 0
		if len(fw) > 0 {
			w = fw[0]
		}
		if len(v) != w || v != text[:w] {
			return fail(fmt.Sprintf("First()=%q, want %q", v, text[:w]))
		}
		vb := c.s.byt(withTail(nil, text, int(c.runs))).First()
		if string(vb) != text[:w] {
			return fail(fmt.Sprintf("First()=%q on bytes, want %q", vb, text[:w]))
		}
	}
	return nil
}

func clone(a []int) []int { return append([]int(nil), a...) }
