// Looks up everything in the tries that have been emitted, and compares with what was inserted.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

type kase struct {
	Name    string
	Family  string
	Compact int
	Width   int
	Ins     [][2]uint64
	Err     string
}

type failure struct {
	Suite string      `json:"suite"`
	What  string      `json:"what"`
	Hex   string      `json:"text_hex"`
	Note  string      `json:"config"`
	Extra interface{} `json:"extra"`
	n     int
}

var (
	tables = flag.String("tables", "", "TLC output")
	trace  = flag.String("trace", "", "")
	out    = flag.String("out", "", "")
	seed   = flag.Int64("seed", 1, "")
	tier   = flag.String("tier", "quick", "")

	mu       sync.Mutex
	failures []*failure
	nfail    int
	suites   = map[string]int64{}
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "lookups:", err)
		os.Exit(2)
	}
}

// the acceptor of spec/TrieLookupTable
type auto struct {
	next  []map[string]int
	says  []string
	bytes map[string][]byte
	cls   []string
}

func load() *auto {
	a := &auto{bytes: map[string][]byte{}}
	idx := map[string]int{}
	get := func(raw json.RawMessage) int {
		var v interface{}
		must(json.Unmarshal(raw, &v))
		s, _ := json.Marshal(v)
		if i, ok := idx[string(s)]; ok {
			return i
		}
		idx[string(s)] = len(a.next)
		a.next = append(a.next, map[string]int{})
		a.says = append(a.says, "")
		return len(a.next) - 1
	}
	f, err := os.Open(filepath.Join(*tables, "TrieLookupTable.out"))
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), `"T `) {
			continue
		}
		s, err := strconv.Unquote(sc.Text())
		must(err)
		var r struct {
			S, T    json.RawMessage
			K, Says string
		}
		must(json.Unmarshal([]byte(s[2:]), &r))
		from, to := get(r.S), get(r.T)
		a.next[from][r.K] = to
		a.says[to] = r.Says
	}
	for b := 0; b < 256; b++ {
		c := classOf(byte(b))
		if len(a.bytes[c]) == 0 {
			a.cls = append(a.cls, c)
		}
		a.bytes[c] = append(a.bytes[c], byte(b))
	}
	for i := range a.next {
		if len(a.next[i]) != len(a.cls) {
			must(fmt.Errorf("state %d has %d of %d transitions", i, len(a.next[i]), len(a.cls)))
		}
	}
	return a
}

func classOf(b byte) string {
	switch {
	case b < 0x80:
		return "A"
	case b < 0x90:
		return "T8"
	case b < 0xA0:
		return "T9"
	case b < 0xC0:
		return "TA"
	case b < 0xC2:
		return "C0"
	case b < 0xE0:
		return "L2"
	case b == 0xE0:
		return "E0"
	case b == 0xED:
		return "ED"
	case b < 0xF0:
		return "L3"
	case b == 0xF0:
		return "F0"
	case b < 0xF4:
		return "L4"
	case b == 0xF4:
		return "F4"
	case b < 0xF8:
		return "F5"
	}
	return "F8"
}

type target struct {
	k    *kase
	f    func([]byte) (uint64, int)
	want []uint64
	done bool
}

func (t *target) call(b []byte) (v uint64, n int, e string) {
	defer func() {
		if x := recover(); x != nil {
			e = fmt.Sprintf("panics: %v", x)
		}
	}()
	v, n = t.f(b)
	return
}

func (t *target) fail(suite, what string, b []byte) {
	mu.Lock()
	defer mu.Unlock()
	nfail++
	if t.done {
		return
	}
	t.done = true // one per trie
	c := *t.k
	f := &failure{Suite: suite, What: what, Hex: hex.EncodeToString(b), Note: fmt.Sprintf("%s, %d insertions, compacters %d", c.Family, len(c.Ins), c.Compact), n: len(c.Ins)}
	if len(c.Ins) <= 20000 {
		f.Extra = c
	}
	failures = append(failures, f)
}

func (t *target) check(a *auto, suite string, b []byte) {
	v, n, e := t.call(b)
	if e != "" {
		t.fail(suite, "lookup "+e, b)
		return
	}
	s := 0
	for _, x := range b {
		s = a.next[s][classOf(x)]
	}
	ann := 1
	if c := b[0]; c >= 0xF0 && c < 0xF8 {
		ann = 4
	} else if c >= 0xE0 && c < 0xF0 {
		ann = 3
	} else if c >= 0xC2 && c < 0xE0 {
		ann = 2
	}
	switch a.says[s] {
	case "short":
		if v != 0 || n != 0 {
			t.fail(suite, fmt.Sprintf("lookup returns %#x, %d for a truncated unit, want 0, 0", v, n), b)
		}
	case "zero":
		if v != 0 || n < 1 || n > ann {
			t.fail(suite, fmt.Sprintf("lookup returns %#x, %d for malformed bytes, want 0 and 1..%d", v, n, ann), b)
		}
	case "open":
		if v != 0 || n < 0 || n > 4 {
			t.fail(suite, fmt.Sprintf("lookup returns %#x, %d for malformed bytes", v, n), b)
		}
	case "value":
		r, w := utf8.DecodeRune(b)
		if v != t.want[r] || n != w {
			t.fail(suite, fmt.Sprintf("lookup of %U returns %#x, %d, want %#x, %d", r, v, n, t.want[r], w), b)
		}
	}
}

func scalar(x uint64) bool { return x <= 0x10FFFF && (x < 0xD800 || x > 0xDFFF) }

func main() {
	flag.Parse()
	a := load()
	f, err := os.Open("cases.json")
	must(err)
	var cases []*kase
	must(json.NewDecoder(bufio.NewReaderSize(f, 1<<20)).Decode(&cases))
	f.Close()
	funcs := map[string]func([]byte) (uint64, int){}
	for _, p := range packages {
		for k, v := range p {
			funcs[k] = v
		}
	}
	families := map[string]int64{}
	var ts []*target
	for _, k := range cases {
		t := &target{k: k, f: funcs[k.Name]}
		fam := k.Family
		if strings.HasPrefix(fam, "map ") {
			fam = "maps of the reduced model"
		}
		families[fam]++
		if k.Err != "" {
			t.fail("generation", "the generator "+k.Err, nil)
			continue
		}
		if t.f == nil {
			must(fmt.Errorf("no lookup for %s", k.Name))
		}
		ts = append(ts, t)
	}
	var wg sync.WaitGroup
	ch := make(chan *target)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(*seed*31 + int64(w)))
			want := make([]uint64, 0x110000)
			buf := make([]byte, 0, 16)
			for t := range ch {
				for i := range want {
					want[i] = 0
				}
				for _, x := range t.k.Ins {
					if x[1] != 0 && scalar(x[0]) {
						want[x[0]] = x[1] // the last one counts
					}
				}
				t.want = want
				var n1, n2, n3 int64
				for x := rune(0); x < 0x110000; x++ {
					if x >= 0xD800 && x < 0xE000 {
						continue
					}
					n1++
					buf = utf8.AppendRune(buf[:0], x)
					w := len(buf)
					if x&3 == 1 {
						buf = append(buf, byte(x>>3)) // what follows does not matter
					}
					v, n, e := t.call(buf)
					if e != "" {
						t.fail("every code point", "lookup "+e, buf)
						break
					}
					if v != want[x] || n != w {
						t.fail("every code point", fmt.Sprintf("lookup of %U returns %#x, %d, want %#x, %d", x, v, n, want[x], w), buf)
						break
					}
				}
				// cut and malformed
				for i := 0; i < 65536; i++ {
					n2++
					buf = append(buf[:0], byte(i>>8), byte(i))
					t.check(a, "every pair of bytes", buf)
					if i < 256 {
						t.check(a, "every byte", buf[1:])
					}
				}
				var rec func(d int)
				rec = func(d int) {
					if d > 0 {
						t.check(a, "words of byte classes", buf)
						n3++
					}
					if d == 5 {
						return
					}
					for _, c := range a.cls {
						bs := a.bytes[c]
						buf = append(buf[:d], bs[r.Intn(len(bs))])
						if d == 4 && r.Intn(20) > 0 {
							continue
						}
						rec(d + 1)
						buf = buf[:d]
					}
				}
				buf = buf[:0]
				rec(0)
				// near what was inserted
				for k := 0; k < 3000 && len(t.k.Ins) > 0; k++ {
					x := rune(t.k.Ins[r.Intn(len(t.k.Ins))][0])
					if !scalar(uint64(x)) {
						continue
					}
					buf = utf8.AppendRune(buf[:0], x)
					switch r.Intn(4) {
					case 0:
						buf = buf[:1+r.Intn(len(buf))]
					case 1:
						buf[r.Intn(len(buf))] = byte(r.Intn(256))
					case 2:
						i := r.Intn(len(buf))
						buf[i] ^= 1 << uint(r.Intn(8))
					case 3:
						buf = append(buf, byte(r.Intn(256)))
					}
					n3++
					t.check(a, "damaged encodings of inserted code points", buf)
				}
				mu.Lock()
				suites["every code point in every trie"] += n1
				suites["every pair of bytes in every trie"] += n2
				suites["words of byte classes and damaged encodings"] += n3
				mu.Unlock()
			}
		}(w)
	}
	for _, t := range ts {
		ch <- t
	}
	close(ch)
	wg.Wait()

	traced := 0
	if *trace != "" {
		f, err := os.Create(filepath.Join(*trace, "TrieTrace-lookups.ndjson"))
		must(err)
		w := bufio.NewWriter(f)
		r := rand.New(rand.NewSource(*seed))
		emit := func(v interface{}) {
			b, _ := json.Marshal(v)
			w.Write(append(b, '\n'))
		}
		limit := 15000
		if *tier == "thorough" {
			limit = 60000
		}
		lines := 0
		for _, t := range ts {
			if t.done || len(t.k.Ins) > 120 || lines > limit {
				continue
			}
			traced++
			emit(map[string]interface{}{"e": "start", "trie": t.k.Family})
			for _, x := range t.k.Ins {
				// the maker saw to it that such are refused
				emit(map[string]interface{}{"e": "ins", "r": x[0], "v": fmt.Sprint(x[1]), "refused": !scalar(x[0]) && x[1] != 0})
			}
			look := func(b []byte) {
				v, n, e := t.call(b)
				if e != "" {
					return
				}
				bs := make([]int, len(b))
				for i := range b {
					bs[i] = int(b[i])
				}
				lines++
				emit(map[string]interface{}{"e": "look", "b": bs, "v": fmt.Sprint(v), "n": n})
			}
			for _, x := range t.k.Ins {
				if !scalar(x[0]) {
					continue
				}
				for _, y := range []rune{rune(x[0]), rune(x[0]) + 64, rune(x[0]) ^ 1} {
					if y <= 0x10FFFF && (y < 0xD800 || y > 0xDFFF) {
						look([]byte(string(y)))
					}
				}
				b := []byte(string(rune(x[0])))
				b[r.Intn(len(b))] = byte(r.Intn(256))
				look(b[:1+r.Intn(len(b))])
			}
			lines += len(t.k.Ins)
		}
		must(w.Flush())
		must(f.Close())
	}

	sort.SliceStable(failures, func(i, j int) bool { return failures[i].n < failures[j].n })
	if len(failures) > 40 {
		failures = failures[:40]
	}
	var evals int64
	for _, n := range suites {
		evals += n
	}
	res := map[string]interface{}{"nfail": nfail, "failures": failures, "evaluations": evals, "suites": suites, "distinct": len(ts),
		"info": map[string]interface{}{"tries by family": families, "tries in the trace": traced}}
	b, err := json.MarshalIndent(res, "", " ")
	must(err)
	must(os.WriteFile(*out, b, 0o644))
}
