package main

// C21: a scanner whose buffer is too small says so, and never reports a wrong token (BoundMC.tla)

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
	"unicode/utf8"
)

var givenUp int64

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// bounded runs text through a real scanner whose buffer may grow to max bytes
// (0: the default buffer)
func (z *streamer) bounded(text string, sched []readStep, cap0, max int) (f *failure) {
	z.runs++
	n := units(sched)
	text = text[:n]
	stage := "FromReader"
	extra := streamCfg{Sched: sched, Cap: cap0, Max: max, Cfg: z.s.extra, Err: errIndex(z.rdErr)}
	if len(sched) > 200 {
		extra.Sched = nil
	}
	z.c.slot.watch(z.s.name, &stage, text, extra)
	defer func() {
		z.c.slot.unwatch()
		if r := recover(); r != nil {
			f = &failure{Seg: z.s.name, Path: stage, Text: text, What: fmt.Sprintf("panic: %v", r), Note: z.s.note, Extra: extra}
		}
	}()
	fail := func(what string) *failure {
		return &failure{Seg: z.s.name, Path: stage, Text: text, What: fmt.Sprintf("with a buffer of %d bytes: ", max) + what,
			Want: clone(z.ref), Got: clone(z.got), Note: z.s.note, Extra: extra}
	}
	z.ib.SetText([]byte(text))
	var e string
	if z.ref, e = walkBytes(z.ib, text, z.ref[:0]); e != "" {
		z.ib = z.s.byt(nil)
		return nil // C01 reports it
	}
	rd := &schedReader{text: text, sched: sched, err: z.rdErr}
	sc := z.s.rd(rd)
	if z.runs%3 == 0 {
		sc = z.s.rd(ableReader{rd})
	}
	size := bufio.MaxScanTokenSize
	if max > 0 {
		sc.Buffer(make([]byte, 0, cap0), max)
		size = max
	}
	want := error(nil)
	if sched[len(sched)-1].End == "err" {
		want = z.rdErr
	}
	z.got = z.got[:0]
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		if max > 0 && rd.pos-pos > size {
			return fail(fmt.Sprintf("the scanner read %d bytes beyond its last token", rd.pos-pos))
		}
		if len(t) == 0 || pos+len(t) > len(text) || text[pos:pos+len(t)] != string(t) {
			return fail(fmt.Sprintf("token %q at %d is not the text there", t, pos))
		}
		pos += len(t)
		z.got = append(z.got, pos)
		if i := len(z.got) - 1; i >= len(z.ref) || z.ref[i] != pos {
			return fail(fmt.Sprintf("token %d is %d bytes long, which is not that token", i, len(t)))
		}
	}
	if max > 0 && rd.pos-pos > size {
		return fail(fmt.Sprintf("the scanner read %d bytes beyond its last token", rd.pos-pos))
	}
	err := sc.Err()
	if errors.Is(err, bufio.ErrTooLong) {
		atomic.AddInt64(&givenUp, 1)
	}
	if pos == len(text) && !errors.Is(err, bufio.ErrTooLong) {
		if err != want && !(want != nil && errors.Is(err, want)) {
			return fail(fmt.Sprintf("Err() is %v, want %v", err, want))
		}
	} else if !errors.Is(err, bufio.ErrTooLong) {
		return fail(fmt.Sprintf("scanning stopped at %d of %d with error %v", pos, len(text), err))
	} else if len(text)-pos < size {
		return fail(fmt.Sprintf("given up at %d of %d, although the rest fits", pos, len(text)))
	} else if kn, have, ok := z.decided(text[pos : pos+size]); ok && kn.sure && have >= kn.at+slack && z.c.check(text, pBytes) == nil {
		return fail(fmt.Sprintf("given up at %d, although the buffer holds the token there and what decides it", pos))
	}
	// (a bufio.Scanner asked again behind ErrTooLong goes on with what it holds: not judged)
	if e2 := sc.Err(); e2 != err {
		return fail(fmt.Sprintf("Err() is %v, it was %v", e2, err))
	}
	return nil
}

// decided: what the window says about its first token
func (z *streamer) decided(window string) (knownT, int, bool) {
	for k := 0; k < 4 && window != ""; k++ {
		if r, w := utf8.DecodeLastRuneInString(window); r != utf8.RuneError || w > 1 {
			break
		}
		window = window[:len(window)-1]
	}
	if !isValid(window) {
		return knownT{}, 0, false
	}
	var syms []uint8
	for _, r := range window {
		syms = append(syms, z.s.kind[r])
	}
	return z.s.m.known(syms), len(syms), true
}

// steps cuts n bytes into chunks of up to k bytes
func steps(r *rand.Rand, n, k int, end string) []readStep {
	var sch []readStep
	for n > 0 {
		c := k
		if r.Intn(3) == 0 {
			c = 1 + r.Intn(k)
		}
		c = minInt(c, n)
		sch = append(sch, readStep{c, "open"})
		n -= c
	}
	if len(sch) > 0 && r.Intn(2) == 0 {
		sch[len(sch)-1].End = end
	} else {
		sch = append(sch, readStep{0, end})
	}
	return sch
}

func suiteBounded(s *seg, n int) {
	p := s.picker()
	alpha := s.alphabet()
	ends := []string{"eof", "eof", "eof", "err"}
	run := func(z *streamer, r *rand.Rand, name, t string, k, cap0, max int) {
		z.rdErr = faultErrs[r.Intn(len(faultErrs))]
		if errors.Is(z.rdErr, bufio.ErrTooLong) {
			z.rdErr = errReader
		}
		sch := steps(r, len(t), k, ends[r.Intn(len(ends))])
		if f := z.bounded(t, sch, cap0, max); f != nil {
			z.report(name, f, nil)
		}
	}
	name := s.label() + ": short texts, every buffer size"
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		i := 0
		for l := 1; l <= 4; l++ {
			forEachWord(alpha, l, w, nWorkers, func(word []uint8) bool {
				i++
				if l == 4 && i%pickN(20, 3) != 0 {
					return true
				}
				t := p.text(r, word)
				if i%7 == 0 {
					t += bit(r)
				}
				for max := 1; max <= len(t)+1; max++ {
					if l >= 3 && !thorough() && r.Intn(3) != 0 {
						continue
					}
					run(z, r, name, t, 1+r.Intn(len(t)), r.Intn(max+1), max)
				}
				return !stopped()
			})
		}
		return z.runs
	})
	name2 := s.label() + ": random texts, buffers about as large as they must be"
	parallel(name2, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		var word []uint8
		for i := w; i < n && !stopped(); i += nWorkers {
			word = s.randomWord(r, alpha, 3+r.Intn(60), word[:0])
			t := p.text(r, word)
			if r.Intn(2) == 0 {
				t = bit(r) + t + bit(r)
			}
			if t == "" {
				continue
			}
			need := z.need(t)
			if r.Intn(6) == 0 {
				t = damage(r, t)
			}
			max := 1 + r.Intn(need+3)
			if r.Intn(2) == 0 {
				max = max0(need-3+r.Intn(6)) + 1
			}
			run(z, r, name2, t, 1+r.Intn(len(t)+1), r.Intn(max+1), max)
		}
		return z.runs
	})
	name3 := s.label() + ": tokens too long for the buffer"
	sizes := []int{16, 100, 128, 256, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 0, 1 << 20}
	sizes = append(sizes, some(litSizes(litSmall, 1<<19), 12)...)
	parallel(name3, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		for k := w; k < pickN(8, 40)*len(alpha)*len(alpha); k += nWorkers {
			i, j := k%len(alpha), k/len(alpha)%len(alpha)
			if stopped() {
				break
			}
			{
				if i != j && r.Intn(len(alpha)/2) != 0 {
					continue
				}
				lap := string(p.pick(r, alpha[i]))
				if i != j {
					lap += string(p.pick(r, alpha[j]))
				}
				for _, max := range sizes {
					size := max
					if max == 0 {
						size = bufio.MaxScanTokenSize
					}
					if size > 500000 && (s.name == "sentences" || i != j || r.Intn(6) != 0) {
						continue
					}
					if size > 5000 && i != j && r.Intn(pickN(6, 2)) != 0 {
						continue
					}
					var b strings.Builder
					for q := r.Intn(4); q > 0; q-- {
						b.WriteString(p.text(r, s.randomWord(r, alpha, 4, nil)))
						b.WriteString(bit(r))
					}
					long := 0
					switch r.Intn(3) {
					case 0:
						long = size/2 + r.Intn(size)
					case 1:
						long = size - 8 + r.Intn(20)
					case 2:
						long = size + r.Intn(3*size)
					}
					for from := b.Len(); b.Len()-from < long; {
						b.WriteString(lap)
					}
					for q := r.Intn(4); q > 0; q-- {
						b.WriteString(p.text(r, s.randomWord(r, alpha, 4, nil)))
					}
					t := b.String()
					if r.Intn(10) == 0 && size < 5000 {
						t = damage(r, t)
					}
					cap0 := 0
					if max > 0 {
						cap0 = r.Intn(minInt(max, 64) + 1)
					}
					run(z, r, name3, t, 1+len(t)/(1+r.Intn(6)), cap0, max)
				}
			}
		}
		return z.runs
	})
}

func traceBounded(segs []*seg, n int) {
	t := newTracer("StreamTrace-bounded")
	if t == nil {
		return
	}
	defer t.close()
	r := rand.New(rand.NewSource(subSeed("bounded trace", 0)))
	texts, long := 0, 0
	zs := map[string]*streamer{}
	for try := 0; t.n < n && try < 100000; try++ {
		s := segs[r.Intn(len(segs))]
		z := zs[s.name]
		if z == nil {
			z = newStreamer(s)
			zs[s.name] = z
		}
		text := s.picker().text(r, s.randomWord(r, s.alphabet(), 14, nil))
		if text == "" || z.c.check(text, pBytes) != nil {
			continue
		}
		need := z.need(text)
		max := 1 + r.Intn(need+2)
		if r.Intn(3) == 0 {
			max = need + r.Intn(2)
		}
		if max < need {
			long++
		}
		end := "eof"
		sch := steps(r, len(text), 1+r.Intn(len(text)), end)
		if r.Intn(4) == 0 {
			sch[len(sch)-1].End = "err"
		}
		texts++
		t.stream(z, map[string]string{"graphemes": "g", "words": "w", "phrases": "p", "sentences": "s"}[s.name], text, sch, max)
	}
	res.info("traced streams", texts)
	res.info("traced streams with a token too long for the buffer, or nearly", long)
}

func init() {
	props["C21"] = func() {
		var segs []*seg
		for _, n := range segNames {
			segs = append(segs, theSeg(n))
		}
		for _, s := range segs {
			suiteBounded(s, pickN(200000, 3000000))
		}
		for _, s := range joinerStreamSegs() {
			suiteBounded(s, pickN(60000, 600000))
		}
		res.info("scans given up for lack of buffer", atomic.LoadInt64(&givenUp))
		traceBounded(segs, pickN(6000, 50000))
	}
	replayers["C21"] = func(f *failure, raw map[string]json.RawMessage) {
		var sc struct {
			streamCfg
			Joiners *joinCfg `json:"joiners"`
		}
		json.Unmarshal(raw["extra"], &sc)
		s := theSeg(f.Seg)
		if sc.Joiners != nil {
			loadJoiners()
			s = segJoiners(*sc.Joiners, false)
		}
		z := newStreamer(s)
		if sc.Err < len(faultErrs) {
			z.rdErr = faultErrs[sc.Err]
		}
		res.count("replay", 1)
		if len(sc.Sched) == 0 {
			sc.Sched = []readStep{{len(f.Text), "eof"}}
		}
		if x := z.bounded(f.Text, sc.Sched, sc.Cap, sc.Max); x != nil {
			res.fail(x)
		}
	}
}
