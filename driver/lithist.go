package main

// Constants of the code as lengths of tokens, offsets and numbers of calls in the histories of C09
// and the memory of C23.

import (
	"fmt"
	"math/rand"
	"strings"
	"unsafe"
)

// litUnit: one token of n bytes, for each segmenter
func litUnit(n int) string {
	switch {
	case n <= 0:
		return ""
	case n%2 == 1:
		return "a" + strings.Repeat("\u0301", n/2)
	}
	return "\u00e9" + strings.Repeat("\u0301", n/2-1)
}

// exact: a text with a token or offset of the size, or so many tokens
func (l *litTexts) exact(r *rand.Rand) string {
	n := l.size(r)
	rest := l.p.text(r, l.s.randomWord(r, l.alpha, 12, nil))
	switch r.Intn(8) {
	case 0, 1:
		return litUnit(n) + "\n" + rest
	case 2:
		return litUnit(n-1) + "\n" + rest
	case 3:
		return strings.Repeat("\n", n) + rest
	case 4, 5:
		return strings.Repeat("a", n-1) + "\n" + rest
	case 6:
		return rest + "\n" + strings.Repeat("7", n) + "\n" + rest
	}
	return l.text(r)
}

func noBytes[T string | []byte](v T) bool { return len(v) == 0 }

// litHistory goes through a text, and calls everything where a constant of the code is met
func litHistory[T string | []byte](it iterOf[T], conv func(string) T, text, other string, ends []int, at map[int]bool, r *rand.Rand) string {
	what := func(s string, i int) string {
		return fmt.Sprintf("%s: Start=%d End=%d Value of %d bytes, at token %d", s, it.Start(), it.End(), len(it.Value()), i)
	}
	leaves := 0
	visits := 0
	it.SetText(conv(text))
	for {
		for k := 0; k < 2; k++ {
			if it.Start() != 0 || it.End() != 0 || !noBytes(it.Value()) {
				return what("before the first advance", 0)
			}
			if f := it.First(); string(f) != text[:first(ends)] {
				return fmt.Sprintf("First has %d bytes before the first advance", len(f))
			}
		}
		b := 0
		again := false
		for i := 0; i <= len(ends) && !again; i++ {
			ok := it.Next()
			if i == len(ends) {
				last := 0
				if i > 1 {
					last = ends[i-2]
				}
				for k := 0; k < 3; k++ {
					if ok || i > 0 && (it.Start() != last || it.End() != len(text) || string(it.Value()) != text[last:]) {
						return what("at the end", i)
					}
					ok = it.Next()
				}
				break
			}
			e := ends[i]
			if !ok || it.Start() != b || it.End() != e {
				return what(fmt.Sprintf("should be at [%d, %d)", b, e), i)
			}
			if !at[i] && !at[b] && !at[e] && !at[e-b] && r.Intn(200) != 0 {
				b = e
				continue
			}
			if visits++; visits < 60 || r.Intn(40) == 0 {
				for k := 0; k < 2; k++ {
					if string(it.Value()) != text[b:e] || it.Start() != b || it.End() != e {
						return what(fmt.Sprintf("should be at [%d, %d)", b, e), i)
					}
					if f := it.First(); string(f) != text[:ends[0]] {
						return fmt.Sprintf("First has %d bytes at token %d", len(f), i)
					}
				}
			}
			b = e
			if leaves < 6 && (at[b-len(it.Value())] || r.Intn(8) == 0) && r.Intn(1+len(ends)/400) == 0 {
				leaves++
				again = true
			}
		}
		if !again && leaves > 0 {
			return ""
		}
		if !again {
			leaves = 9 // once more, from the end
		}
		switch r.Intn(4) {
		case 0:
			it.Reset()
		case 1:
			it.SetText(conv(text))
		case 2:
			it.SetText(conv(other))
			if it.Start() != 0 || it.End() != 0 || !noBytes(it.Value()) {
				return what("after a new text", 0)
			}
			for k := r.Intn(3); k > 0; k-- {
				it.Next()
			}
			it.SetText(conv(text))
		default:
			it.Reset()
			it.Reset()
		}
		if leaves > 9 {
			return ""
		}
	}
}

func first(ends []int) int {
	if len(ends) == 0 {
		return 0
	}
	return ends[0]
}

func litSet() map[int]bool {
	m := map[int]bool{}
	for _, x := range lits().small {
		if x > 8 {
			m[x] = true
		}
	}
	for _, x := range lits().big {
		m[x] = true
	}
	return m
}

func suiteLitHistories(n int) {
	at := litSet()
	for _, g := range allGroups() {
		l := newLitTexts(g.segs[0], 1<<18)
		name := g.key + ": histories where constants of the code are met"
		for _, s := range g.segs {
			s := s
			if strings.Contains(s.note, "named") {
				continue
			}
			parallel(name, func(w int, r *rand.Rand) int64 {
				c := newChecker(s)
				var runs int64
				total := 0
				for i := w; i < n && total < pickN(6<<20, 60<<20) && !stopped(); i += nWorkers {
					t, o := l.exact(r), l.exact(r)
					if len(t) > 10000 && strings.Count(t, "\x1b") > 50 {
						continue
					}
					if len(o) > 400 {
						o = "ab cd."
					}
					total += len(t)
					runs++
					f := func() (f *failure) {
						stage := "FromString"
						c.slot.watch(s.name, &stage, t, s.extra)
						defer func() {
							c.slot.unwatch()
							if x := recover(); x != nil {
								f = &failure{Seg: s.name, Path: stage, Text: t, What: fmt.Sprintf("panic: %v", x), Note: s.note}
							}
						}()
						ends, e := walkStr(s.str(t), t, nil)
						if e != "" {
							return nil // C01
						}
						if e = litHistory[string](s.str(""), func(x string) string { return x }, t, o, ends, at, r); e == "" {
							stage = "FromBytes"
							e = litHistory[[]byte](s.byt(nil), func(x string) []byte { return withTail(nil, x, len(x)) }, t, o, ends, at, r)
						}
						if e != "" {
							return &failure{Seg: s.name, Path: stage, Text: t, What: e, Note: s.note}
						}
						return nil
					}()
					if f != nil {
						f.Suite = name
						res.fail(f)
						return runs
					}
				}
				return runs
			})
		}
	}
}

func strPtr(s string) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s)) }
func bytPtr(b []byte) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&b)) }

// litMemory: every token is the caller's memory, and what is written in those handed out changes none
func litMemory(s *seg, t string, ends []int, r *rand.Rand, k int) (path, what string) {
	path = "FromString"
	is := s.str(t)
	b := 0
	base := uintptr(strPtr(t))
	for _, e := range ends {
		if !is.Next() {
			return path, "stops early"
		}
		if v := is.Value(); len(v) != e-b || uintptr(strPtr(v)) != base+uintptr(b) {
			return path, fmt.Sprintf("the token [%d, %d) is not that part of the text", b, e)
		}
		b = e
	}
	path = "FromBytes"
	buf := withTail(nil, t, k)
	base = uintptr(bytPtr(buf))
	ib := s.byt(buf)
	if v := ib.First(); len(v) != first(ends) || len(v) > 0 && uintptr(bytPtr(v)) != base {
		return path, "First is not the beginning of the slice"
	}
	scramble := r.Intn(2) == 0
	b = 0
	for _, e := range ends {
		if !ib.Next() {
			return path, "stops early"
		}
		v := ib.Value()
		if len(v) != e-b || uintptr(bytPtr(v)) != base+uintptr(b) || ib.Start() != b || ib.End() != e {
			return path, fmt.Sprintf("the token [%d, %d) is not that part of the slice, or changed by what was written behind the position", b, e)
		}
		if scramble {
			for i := range v {
				v[i] = "\u0301Z7\n"[r.Intn(5)]
			}
		}
		b = e
	}
	if s.split != nil {
		path = "SplitFunc"
		buf = withTail(buf, t, k+1)
		base = uintptr(bytPtr(buf))
		b = 0
		for _, e := range ends {
			n, v, err := s.split(buf[b:], true)
			if err != nil || n != e-b || len(v) != n || uintptr(bytPtr(v)) != base+uintptr(b) {
				return path, fmt.Sprintf("the token [%d, %d) is not that part of the slice", b, e)
			}
			if scramble {
				for i := range v {
					v[i] = 'x'
				}
			}
			b = e
		}
	}
	return "", ""
}

func suiteLitMemory(n int) {
	for _, g := range allGroups() {
		l := newLitTexts(g.segs[0], 1<<18)
		name := g.key + ": the memory of tokens where constants of the code are met"
		for _, s := range g.segs {
			s := s
			if strings.Contains(s.note, "named") {
				continue
			}
			parallel(name, func(w int, r *rand.Rand) int64 {
				c := newChecker(s)
				var runs int64
				total := 0
				for i := w; i < n && total < pickN(8<<20, 80<<20) && !stopped(); i += nWorkers {
					t := l.exact(r)
					if len(t) > 10000 && strings.Count(t, "\x1b") > 50 {
						continue
					}
					total += len(t)
					runs++
					stage := "memory"
					c.slot.watch(s.name, &stage, t, s.extra)
					ends, e := walkStr(s.str(t), t, nil)
					if e == "" {
						if path, what := litMemory(s, t, ends, r, i); what != "" {
							c.slot.unwatch()
							res.fail(&failure{Suite: name, Seg: s.name, Path: path, Text: t, What: what, Note: s.note})
							return runs
						}
					}
					c.slot.unwatch()
				}
				return runs
			})
		}
	}
}
