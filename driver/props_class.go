package main

// C15: the classification of every scalar value, observed through the segmenters

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
)

// sigWorld interns candidate sets
type sigWorld struct {
	mu   sync.Mutex
	ids  map[string]int
	sets [][]string
}

func (w *sigWorld) id(set []string) int {
	k := fmt.Sprint(set)
	w.mu.Lock()
	defer w.mu.Unlock()
	if i, ok := w.ids[k]; ok {
		return i
	}
	w.ids[k] = len(w.sets)
	w.sets = append(w.sets, set)
	return len(w.sets) - 1
}

// observe gives, for every scalar value, the kinds whose predicted behaviour in the contexts is
// the one the library shows
func observe(s *seg, sw *sigWorld, ctxs [][2][]uint8, suite string) []int32 {
	obs := make([]int32, 0x110000)
	p := s.picker()
	nk := len(s.m.syms)
	// predicted[ctx][kind]: boundaries as a bit set over symbol positions
	pred := make([][]uint64, len(ctxs))
	for i, x := range ctxs {
		pred[i] = make([]uint64, nk)
		for k := 0; k < nk; k++ {
			w := append(append(append([]uint8{}, x[0]...), uint8(k)), x[1]...)
			for _, e := range s.m.ends(w, nil) {
				pred[i][k] |= 1 << uint(e)
			}
		}
	}
	parallel(suite, func(w int, r *rand.Rand) int64 {
		is, ib := s.str(""), s.byt(nil)
		sl := newSlot()
		at := ""
		var got []int
		var buf []byte
		var runs int64
		for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
			if isSurrogate(cp) {
				continue
			}
			var ok [64]bool
			for k := 0; k < nk; k++ {
				ok[k] = true
			}
			for i, x := range ctxs {
				pre, suf := p.text(r, x[0]), p.text(r, x[1])
				t := pre + string(rune(cp)) + suf
				sl.watch(s.name, &at, t, nil)
				runs++
				var e string
				if (cp+i)&1 == 0 {
					is.SetText(t)
					got, e = walkSafe(func() ([]int, string) { return walkStr(is, t, got[:0]) })
				} else {
					buf = append(buf[:0], t...)
					ib.SetText(buf)
					got, e = walkSafe(func() ([]int, string) { return walkBytes(ib, t, got[:0]) })
				}
				sl.unwatch()
				var bits uint64
				if e == "" {
					j, n := 0, 0
					for o := range t {
						for j < len(got) && got[j] < o {
							j++
							bits = 1 << 63 // inside a code point
						}
						if j < len(got) && got[j] == o {
							bits |= 1 << uint(n)
							j++
						}
						n++
					}
					bits |= 1 << uint(n)
				} else {
					bits = 1 << 63
					is, ib = s.str(""), s.byt(nil)
				}
				for k := 0; k < nk; k++ {
					if pred[i][k] != bits {
						ok[k] = false
					}
				}
			}
			var set []string
			for k := 0; k < nk; k++ {
				if ok[k] {
					set = append(set, s.m.syms[k])
				}
			}
			sort.Strings(set)
			obs[cp] = int32(sw.id(set))
			if !ok[s.kind[cp]] {
				res.fail(&failure{Seg: s.name, Suite: suite, Text: string(rune(cp)),
					What: fmt.Sprintf("U+%04X is %s in Unicode 17; in %s it behaves as %v", cp, s.m.syms[s.kind[cp]], s.name, set)})
			}
		}
		return runs
	})
	return obs
}

func walkSafe(f func() ([]int, string)) (ends []int, e string) {
	defer func() {
		if r := recover(); r != nil {
			e = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// moreContexts: every state of the minimal machine before the code point, every distinguishing
// word after it
func (mn *minimal) moreContexts() (out [][2][]uint8) {
	for _, a := range mn.access {
		out = append(out, [2][]uint8{a, {}})
		for _, w := range mn.w {
			out = append(out, [2][]uint8{a, w})
		}
	}
	return out
}

func init() {
	props["C15"] = func() {
		sw := &sigWorld{ids: map[string]int{}}
		names := map[string]string{"graphemes": "g", "words": "w", "phrases": "p", "sentences": "s"}
		obs := map[string][]int32{}
		for _, n := range famNames {
			s := theSeg(n)
			s.picker()
			ctxs := s.mn.contexts(nil)
			k := len(ctxs)
			if thorough() {
				ctxs = append(ctxs, s.mn.moreContexts()...)
			} else {
				// the same for every run of a seed, different for others
				more := s.mn.moreContexts()
				r := rand.New(rand.NewSource(subSeed("contexts "+n, 0)))
				for _, i := range r.Perm(len(more))[:16] {
					ctxs = append(ctxs, more[i])
				}
			}
			res.info(n+" contexts", map[string]int{"distinguishing": k, "all": len(ctxs)})
			obs[n] = observe(s, sw, ctxs, n+": observed class of every scalar value")
			suiteNeighbours(s, pickN(1, 4))
		}
		// ranges
		tr := newTracer("Classification-all")
		if tr == nil {
			return
		}
		defer tr.close()
		var kinds [4][]uint8
		for i, n := range famNames {
			kinds[i] = theSeg(n).kind
		}
		same := func(a, b int) bool {
			for i, n := range famNames {
				if obs[n][a] != obs[n][b] || kinds[i][a] != kinds[i][b] {
					return false
				}
			}
			return true
		}
		for lo := 0; lo < 0x110000; {
			if lo == 0xD800 {
				lo = 0xE000
			}
			hi := lo
			for hi+1 < 0x110000 && hi != 0xD7FF && same(lo, hi+1) {
				hi++
			}
			e := ev{"lo": lo, "hi": hi}
			for _, n := range famNames {
				set := sw.sets[obs[n][lo]]
				if set == nil {
					set = []string{}
				}
				e[names[n]] = set
			}
			tr.emit(e)
			lo = hi + 1
		}
		res.info("ranges given to TLC", tr.n)
		amb := map[string]bool{}
		for _, n := range famNames {
			for _, o := range obs[n] {
				if len(sw.sets[o]) > 1 {
					amb[fmt.Sprint(n, " ", sw.sets[o])] = true
				}
			}
		}
		var l []string
		for k := range amb {
			l = append(l, k)
		}
		sort.Strings(l)
		res.info("kinds no text can tell apart", l)
	}
}

// suiteNeighbours: every code point next to itself, to the ones after it and to itself again after
// a mark (two lookups of the same blocks in one text)
func suiteNeighbours(s *seg, reps int) {
	p := s.picker()
	alpha := s.alphabet()
	name := s.name + ": every code point among its neighbours"
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
			if isSurrogate(cp) {
				continue
			}
			x := string(rune(cp))
			y := string(rune(cp ^ 1))
			z := string(rune((cp + 64) % 0x110000))
			if isSurrogate(cp^1) || isSurrogate((cp+64)%0x110000) {
				y, z = x, x
			}
			for v := 0; v < reps; v++ {
				a, b := p.text(r, []uint8{alpha[r.Intn(len(alpha))]}), p.text(r, []uint8{alpha[r.Intn(len(alpha))], alpha[r.Intn(len(alpha))]})
				for _, t := range []string{x + x + y, a + x + "\u0301" + x + z + b} {
					if f := c.check(t, pStr|pBytes); f != nil {
						report(name, c, f, pStr|pBytes)
					}
				}
			}
		}
		return c.runs
	})
}
