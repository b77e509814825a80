// Compares what the generator wrote with what its data files say.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

type pkg struct {
	bytes  func([]byte) (uint64, int)
	str    func(string) (uint64, int)
	consts map[string]uint64
}
type gotTest struct {
	Input    []byte
	Expected [][]byte
}
type line struct {
	F, P   string
	Lo, Hi rune
}
type set struct {
	Name  string
	Lines []line
	Tests map[string][]gotTest
}
type failure struct {
	Suite string      `json:"suite"`
	What  string      `json:"what"`
	Note  string      `json:"config"`
	Hex   string      `json:"text_hex"`
	Extra interface{} `json:"extra"`
}

var (
	trace = flag.String("trace", "", "")
	out   = flag.String("out", "", "")
	seed  = flag.Int64("seed", 1, "")
	tier  = flag.String("tier", "quick", "")

	mu       sync.Mutex
	failures []*failure
	nfail    int
	suites   = map[string]int64{}
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "properties:", err)
		os.Exit(2)
	}
}

func fail(s *set, suite, what string, r rune) {
	mu.Lock()
	defer mu.Unlock()
	nfail++
	if len(failures) < 40 {
		var near []line
		for _, l := range s.Lines {
			if l.Lo <= r && r <= l.Hi {
				near = append(near, l)
			}
		}
		failures = append(failures, &failure{Suite: suite, What: what, Note: s.Name, Hex: fmt.Sprintf("%x", string(r)), Extra: map[string]interface{}{"lines": near, "dataset": s.Name, "seed": *seed, "tier": *tier}})
	}
}

// expected: what Generator.tla calls Expected, as bit sets per code point
func expected(s *set, name string, p *pkg) (want []uint64, all uint64) {
	want = make([]uint64, 0x110000)
	put := func(prop string, lo, hi rune) {
		b, ok := p.consts[prop]
		if !ok || b == 0 {
			fail(s, "constants", fmt.Sprintf("package %s: property %s has no bit", name, prop), lo)
			return
		}
		for x := lo; x <= hi; x++ {
			want[x] |= b
		}
	}
	src := map[string]string{"words": "Word", "phrases": "Word", "graphemes": "Grapheme", "sentences": "Sentence"}[name]
	for _, l := range s.Lines {
		switch {
		case l.F == src:
			put(l.P, l.Lo, l.Hi)
			if name == "words" && l.P == "Katakana" {
				put("BleveIdeographic", l.Lo, l.Hi)
			}
		case l.F == "Emoji" && l.P == "Extended_Pictographic" && name != "sentences":
			put(l.P, l.Lo, l.Hi)
		case l.F == "InCB" && strings.HasPrefix(l.P, "InCB_") && name == "graphemes":
			put(l.P, l.Lo, l.Hi)
		}
	}
	if name == "words" {
		for x := rune(0); x < 0x110000; x++ {
			if unicode.Is(unicode.Han, x) || unicode.Is(unicode.Hiragana, x) {
				put("BleveIdeographic", x, x)
			}
		}
	}
	seen := uint64(0)
	for n, b := range p.consts {
		if b&(b-1) != 0 || seen&b != 0 {
			fail(s, "constants", fmt.Sprintf("package %s: the bit of property %s, %#x, is not its own", name, n, b), 0)
		}
		seen |= b
	}
	return want, seen
}

// safe turns a panic into a size no lookup returns
func safe(f func() (uint64, int)) (v uint64, n int) {
	defer func() {
		if x := recover(); x != nil {
			v, n = 0, -1
		}
	}()
	return f()
}

func (p *pkg) names(v uint64) (out []string) {
	for n, b := range p.consts {
		if v&b != 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return
}

func main() {
	flag.Parse()
	var todo []func()
	sets := map[string]*set{}
	var order []string
	for d := range packages {
		order = append(order, d)
	}
	sort.Strings(order)
	for _, d := range order {
		b, err := os.ReadFile(filepath.Join(d, "set.json"))
		must(err)
		s := &set{}
		must(json.Unmarshal(b, s))
		sets[d] = s
		ps := packages[d]
		for name, p := range ps {
			name, p := name, p
			todo = append(todo, func() {
				want, _ := expected(s, name, p)
				var n int64
				for x := rune(0); x < 0x110000; x++ {
					if x >= 0xD800 && x < 0xE000 {
						continue
					}
					e := string(x)
					n += 2
					v, w := safe(func() (uint64, int) { return p.bytes([]byte(e)) })
					if v != want[x] || w != len(e) {
						fail(s, "every code point, bytes", fmt.Sprintf("package %s: lookup of %U gives %v, %d, want %v, %d", name, x, p.names(v), w, p.names(want[x]), len(e)), x)
						break
					}
					v, w = safe(func() (uint64, int) { return p.str(e + "?") })
					if v != want[x] || w != len(e) {
						fail(s, "every code point, string", fmt.Sprintf("package %s: lookup of %U gives %v, %d, want %v, %d", name, x, p.names(v), w, p.names(want[x]), len(e)), x)
						break
					}
				}
				// bytes that are no code point: nothing, and bytes and strings agree
				r := rand.New(rand.NewSource(*seed))
				for i := 0; i < 200000; i++ {
					e := []byte(string(rune(r.Intn(0x110000))))
					e[r.Intn(len(e))] = byte(r.Intn(256))
					e = e[:1+r.Intn(len(e))]
					n++
					v, w := safe(func() (uint64, int) { return p.bytes(e) })
					v2, w2 := safe(func() (uint64, int) { return p.str(string(e)) })
					if w < 0 || w2 < 0 {
						fail(s, "malformed", fmt.Sprintf("package %s: lookup of % x panics", name, e), 0)
						break
					}
					if v != v2 || w != w2 {
						fail(s, "bytes and strings", fmt.Sprintf("package %s: lookup of % x gives %#x, %d from bytes and %#x, %d from a string", name, e, v, w, v2, w2), 0)
						break
					}
					if !utf8.FullRune(e) || !utf8.Valid(e[:max1(w)]) {
						if v != 0 {
							fail(s, "malformed", fmt.Sprintf("package %s: lookup of % x gives %v", name, e, p.names(v)), 0)
							break
						}
					}
				}
				mu.Lock()
				suites["lookups of every code point and of damaged ones"] += n
				mu.Unlock()
			})
		}
		for k, want := range s.Tests {
			k, want := k, want
			got := tests[d][strings.ToLower(k)+"s"]
			todo = append(todo, func() {
				if len(got) != len(want) {
					fail(s, "test cases", fmt.Sprintf("%d test cases of %sBreakTest became %d", len(want), k, len(got)), 0)
					return
				}
				for i := range want {
					ok := bytes.Equal(got[i].Input, want[i].Input) && len(got[i].Expected) == len(want[i].Expected)
					for j := 0; ok && j < len(want[i].Expected); j++ {
						ok = bytes.Equal(got[i].Expected[j], want[i].Expected[j])
					}
					if !ok {
						fail(s, "test cases", fmt.Sprintf("test case %d of %sBreakTest: %q became %q", i, k, want[i].Expected, got[i].Expected), 0)
						return
					}
				}
				mu.Lock()
				suites["test cases"] += int64(len(want))
				mu.Unlock()
			})
		}
	}
	ch := make(chan func())
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	for _, f := range todo {
		ch <- f
	}
	close(ch)
	wg.Wait()

	if *trace != "" {
		f, err := os.Create(filepath.Join(*trace, "GeneratorTrace-lookups.ndjson"))
		must(err)
		w := bufio.NewWriter(f)
		emit := func(v interface{}) {
			b, _ := json.Marshal(v)
			w.Write(append(b, '\n'))
		}
		r := rand.New(rand.NewSource(*seed))
		for _, d := range order {
			s := sets[d]
			if len(s.Lines) > 400 {
				continue
			}
			emit(map[string]interface{}{"e": "start", "dataset": d})
			for _, l := range s.Lines {
				emit(map[string]interface{}{"e": "line", "f": l.F, "p": l.P, "lo": l.Lo, "hi": l.Hi})
			}
			for _, t := range []*unicode.RangeTable{unicode.Han, unicode.Hiragana} {
				for _, x := range t.R16 {
					for y := x.Lo; y <= x.Hi; y += x.Stride {
						hi := y
						if x.Stride == 1 {
							hi = x.Hi
						}
						emit(map[string]interface{}{"e": "line", "f": "Scripts", "p": "HanHiragana", "lo": y, "hi": hi})
						if x.Stride == 1 {
							break
						}
					}
				}
				for _, x := range t.R32 {
					for y := x.Lo; y <= x.Hi; y += x.Stride {
						hi := y
						if x.Stride == 1 {
							hi = x.Hi
						}
						emit(map[string]interface{}{"e": "line", "f": "Scripts", "p": "HanHiragana", "lo": y, "hi": hi})
						if x.Stride == 1 {
							break
						}
					}
				}
			}
			for i := 0; i < 150; i++ {
				l := s.Lines[r.Intn(len(s.Lines))]
				x := []rune{l.Lo, l.Hi, l.Lo - 1, l.Hi + 1, 0x4E00, 0x3042, l.Lo + (l.Hi-l.Lo)/2}[r.Intn(7)]
				if x < 0 || x > 0x10FFFF || (x >= 0xD800 && x < 0xE000) {
					continue
				}
				name := []string{"words", "phrases", "graphemes", "sentences"}[r.Intn(4)]
				p := packages[d][name]
				v, _ := safe(func() (uint64, int) { return p.bytes([]byte(string(x))) })
				props := p.names(v)
				if props == nil {
					props = []string{}
				}
				emit(map[string]interface{}{"e": "look", "pkg": name, "r": x, "props": props})
			}
		}
		must(w.Flush())
		must(f.Close())
	}
	var evals int64
	for _, n := range suites {
		evals += n
	}
	b, err := json.MarshalIndent(map[string]interface{}{"nfail": nfail, "failures": failures, "evaluations": evals, "suites": suites, "distinct": len(order),
		"info": map[string]interface{}{"datasets": len(order)}}, "", " ")
	must(err)
	must(os.WriteFile(*out, b, 0o644))
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}
