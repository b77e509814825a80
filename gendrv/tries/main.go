// Feeds insertion sets to the trie generator of the current tree and writes what it emits as Go
// packages, with the insertions in a file for the program that looks everything up.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/clipperhouse/uax29/v2/internal/gen/triegen"
)

type ins struct {
	R rune
	V uint64
}

type kase struct {
	Name    string
	Family  string
	Compact int
	Width   int
	Ins     [][2]uint64 // in order
	Err     string
}

var (
	dir    = flag.String("dir", "", "where to write")
	seed   = flag.Int64("seed", 1, "")
	tier   = flag.String("tier", "quick", "")
	tables = flag.String("tables", "", "TLC output")
	data   = flag.String("data", "", "classification data")
	replay = flag.String("replay", "", "a file with one case")
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "maker:", err)
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- compacters

// constant stores a block of one repeated value as that value
type constant struct {
	name string
	vals []uint64
}

func (c *constant) Size(v []uint64) (int, bool) {
	for _, x := range v {
		if x != v[0] {
			return 0, false
		}
	}
	return 8, true
}
func (c *constant) Store(v []uint64) uint32 {
	c.vals = append(c.vals, v[0])
	return uint32(len(c.vals) - 1)
}
func (c *constant) Print(w io.Writer) error {
	fmt.Fprintf(w, "var %sVals = []uint64{", c.name)
	for _, x := range c.vals {
		fmt.Fprintf(w, "%d, ", x)
	}
	_, err := fmt.Fprintf(w, "}\nfunc %s(n uint32, b byte) uint64 { return %sVals[n] }\n", c.name, c.name)
	return err
}
func (c *constant) Handler() string { return c.name }

// sparse stores a block with few values other than 0 as a list
type sparse struct {
	name   string
	blocks [][][2]uint64
}

func (c *sparse) list(v []uint64) (l [][2]uint64) {
	for i, x := range v {
		if x != 0 {
			l = append(l, [2]uint64{uint64(i), x})
		}
	}
	return
}
func (c *sparse) Size(v []uint64) (int, bool) { n := len(c.list(v)); return 4 * n, n <= 3 }
func (c *sparse) Store(v []uint64) uint32 {
	c.blocks = append(c.blocks, c.list(v))
	return uint32(len(c.blocks) - 1)
}
func (c *sparse) Print(w io.Writer) error {
	fmt.Fprintf(w, "var %sLists = [][][2]uint64{", c.name)
	for _, b := range c.blocks {
		fmt.Fprint(w, "{")
		for _, x := range b {
			fmt.Fprintf(w, "{%d, %d}, ", x[0], x[1])
		}
		fmt.Fprint(w, "}, ")
	}
	_, err := fmt.Fprintf(w, "}\nfunc %s(n uint32, b byte) uint64 {\nfor _, x := range %sLists[n] {\nif x[0] == uint64(b-0x80) {\nreturn x[1]\n}\n}\nreturn 0\n}\n", c.name, c.name)
	return err
}
func (c *sparse) Handler() string { return c.name }

// ---------------------------------------------------------------- cases

var cases []*kase

func add(family string, compact int, in []ins) {
	k := &kase{Family: family, Compact: compact}
	for _, x := range in {
		k.Ins = append(k.Ins, [2]uint64{uint64(x.R), x.V})
	}
	cases = append(cases, k)
}

// width: enough for the values and for the numbers of the blocks, however they are stored
func (k *kase) width() int {
	need := uint64(0)
	pre := map[string]bool{}
	for _, x := range k.Ins {
		if !scalar(rune(x[0])) {
			continue
		}
		if x[1] > need {
			need = x[1]
		}
		s := string(rune(x[0]))
		for i := 1; i < len(s); i++ {
			pre[s[:i]] = true
		}
	}
	if b := uint64(2*len(pre) + 10); b > need {
		need = b
	}
	switch {
	case need < 1<<8:
		return 8
	case need < 1<<16:
		return 16
	case need < 1<<32:
		return 32
	}
	return 64
}

func refused(t *triegen.Trie, r rune, v uint64) (yes bool) {
	defer func() { yes = recover() != nil }()
	t.Insert(r, v)
	return
}

func (k *kase) gen() (out []byte, err string) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Sprintf("panics: %v", x)
		}
	}()
	t := triegen.NewTrie(k.Name)
	for _, x := range k.Ins {
		if !scalar(rune(x[0])) && x[1] != 0 {
			if !refused(t, rune(x[0]), x[1]) {
				return nil, fmt.Sprintf("takes %#x for %U, which is no code point to insert", x[1], x[0])
			}
			continue
		}
		t.Insert(rune(x[0]), x[1])
	}
	var opts []triegen.Option
	if k.Compact&1 != 0 {
		opts = append(opts, triegen.Compact(&constant{name: k.Name + "Const"}))
	}
	if k.Compact&2 != 0 {
		opts = append(opts, triegen.Compact(&sparse{name: k.Name + "Sparse"}))
	}
	var b bytes.Buffer
	if _, e := t.Gen(&b, opts...); e != nil {
		return nil, "error: " + e.Error()
	}
	return b.Bytes(), ""
}

var edges = []rune{0, 1, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF}

func scalar(r rune) bool { return r >= 0 && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF) }

func randRune(r *rand.Rand) rune {
	for {
		var x rune
		switch r.Intn(5) {
		case 0:
			x = rune(r.Intn(0x80))
		case 1:
			x = rune(0x80 + r.Intn(0x780))
		case 2:
			x = rune(0x800 + r.Intn(0xF800))
		case 3:
			x = rune(0x10000 + r.Intn(0x100000))
		case 4:
			x = edges[r.Intn(len(edges))] + rune(r.Intn(3)-1)
		}
		if scalar(x) {
			return x
		}
	}
}

func randValue(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(1 + r.Intn(3))
	case 1:
		return uint64(1 + r.Intn(255))
	case 2:
		return []uint64{0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFFFF, 1 << 32, 1 << 63, 1<<64 - 1}[r.Intn(8)]
	case 3:
		return 1 << uint(r.Intn(64))
	case 4:
		return uint64(r.Int63())
	}
	return 1 << uint(r.Intn(22))
}

// loadMaps reads the maps of the reduced model
func loadMaps(name string) (out [][]struct {
	E []int
	V uint64
}) {
	f, err := os.Open(filepath.Join(*tables, name+".out"))
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, `"T `) {
			continue
		}
		s, err := strconv.Unquote(l)
		must(err)
		var m struct {
			Map []struct {
				E []int
				V uint64
			}
		}
		must(json.Unmarshal([]byte(s[2:]), &m))
		out = append(out, m.Map)
	}
	if len(out) == 0 {
		must(fmt.Errorf("no maps in %s", name))
	}
	return
}

// embed gives every reduced byte a set of real ones: ascii 0..3, trail 4..5, lead 6 and 7
func embed(r *rand.Rand, m []struct {
	E []int
	V uint64
}, lead [2][]byte) []ins {
	var sets [8][]byte
	split := func(lo, n int, into []int) {
		switch r.Intn(3) {
		case 0: // one byte each
			for i, k := range into {
				w := n / len(into)
				sets[k] = append(sets[k], byte(lo+i*w+r.Intn(w)))
			}
		case 1: // ranges
			for j := 0; j < n; j++ {
				sets[into[j*len(into)/n]] = append(sets[into[j*len(into)/n]], byte(lo+j))
			}
		case 2: // interleaved
			for j := 0; j < n; j++ {
				sets[into[j%len(into)]] = append(sets[into[j%len(into)]], byte(lo+j))
			}
		}
	}
	split(0, 64, []int{0, 1})
	split(64, 64, []int{2, 3})
	split(0x80, 64, []int{4, 5})
	for i := range lead {
		sets[6+i] = lead[i]
		if r.Intn(2) == 0 {
			sets[6+i] = lead[i][r.Intn(len(lead[i])):][:1]
		}
	}
	vals := [3]uint64{0, randValue(r), randValue(r)}
	if vals[1] == vals[2] {
		vals[2] ^= 1 << 3
	}
	var out []ins
	for _, e := range m {
		var rec func(p []byte, i int)
		rec = func(p []byte, i int) {
			if i == len(e.E) {
				rs := []rune(string(p))
				if len(rs) == 1 && string(rs) == string(p) && scalar(rs[0]) {
					out = append(out, ins{rs[0], vals[e.V]})
				}
				return
			}
			for _, b := range sets[e.E[i]] {
				rec(append(append([]byte{}, p...), b), i+1)
			}
		}
		rec(nil, 0)
	}
	return out
}

func span(lo, hi byte) (b []byte) {
	for x := int(lo); x <= int(hi); x++ {
		b = append(b, byte(x))
	}
	return
}

type rng struct {
	Lo, Hi rune
	K      string
}

func build(r *rand.Rand) {
	thorough := *tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	for c := 0; c < 4; c++ {
		add("no insertions", c, nil)
	}
	// code points alone, at the edges of the encoding lengths
	for i, x := range edges {
		add("one code point", i%4, []ins{{x, randValue(r)}})
		y := edges[r.Intn(len(edges))]
		add("two code points", r.Intn(4), []ins{{x, randValue(r)}, {y, randValue(r)}})
	}
	var all []ins
	for _, x := range edges {
		all = append(all, ins{x, randValue(r)})
	}
	add("all edges", 0, all)
	// blocks that a checksum may take for equal: they differ by multiples of its polynomial
	for _, base := range []rune{0x100, 0x4000, 0x20000} {
		for n := 0; n < pick(6, 20); n++ {
			var in []ins
			var a, b [64]uint64
			for i := range a {
				if r.Intn(3) == 0 {
					a[i] = uint64(r.Intn(1 << 16))
				}
			}
			b = a
			for k := 1 + r.Intn(3); k > 0; k-- {
				i := r.Intn(63)
				if r.Intn(3) == 0 {
					b[i] ^= 1
					b[i+1] ^= 0x42F0E1EBA9EA3693
					continue
				}
				// x^64 + x^4 + x^3 + x + 1, bits in the order of the reflected CRC
				s := 56 + r.Intn(8)
				for _, p := range []int{s, 60 + s, 61 + s, 63 + s, 64 + s} {
					b[i+p/64] ^= 1 << uint(8*(7-p%64/8)+p%8)
				}
			}
			p, q := base, base+64
			if n%3 == 1 {
				q = base + 0x1000*rune(1+r.Intn(4))
			}
			for i := range a {
				in = append(in, ins{p + rune(i), a[i]}, ins{q + rune(i), b[i]})
			}
			add("blocks that differ by a checksum's polynomial", r.Intn(2)*3, in)
		}
	}
	// blocks that differ in a permutation or a shift
	for n := 0; n < pick(10, 40); n++ {
		var in []ins
		var a [64]uint64
		for i := range a {
			a[i] = uint64(1 + r.Intn(1<<uint(1+r.Intn(20))))
		}
		base := []rune{0x80, 0x400, 0x3000, 0x10000, 0x50000}[n%5]
		for k := 0; k < 8; k++ {
			b := a
			switch r.Intn(5) {
			case 0:
				i, j := r.Intn(64), r.Intn(64)
				b[i], b[j] = b[j], b[i]
			case 1:
				for i := range b {
					b[i] = a[(i+1)%64]
				}
			case 2:
				b[r.Intn(64)] = 0
			case 3:
				b[63] ^= 1
			}
			at := base + rune(64*k)
			if n%2 == 1 {
				at = base + rune(0x1000*k)
			}
			for i := range b {
				if scalar(at + rune(i)) {
					in = append(in, ins{at + rune(i), b[i]})
				}
			}
		}
		add("similar blocks", r.Intn(4), in)
	}
	// constant and periodic contents
	for n := 0; n < pick(24, 80); n++ {
		var in []ins
		lo := randRune(r)
		ln := rune(1 + r.Intn(pick(3000, 40000)))
		p, q := rune(1+r.Intn(130)), rune(1+r.Intn(70))
		v, u := randValue(r), randValue(r)
		for x := lo; x < lo+ln && x <= 0x10FFFF; x++ {
			if !scalar(x) {
				continue
			}
			switch {
			case n%3 == 0:
				in = append(in, ins{x, v})
			case x%p < q:
				in = append(in, ins{x, v})
			case n%3 == 1:
				in = append(in, ins{x, u})
			}
		}
		add("constant and periodic runs", r.Intn(4), in)
	}
	// random, with repetitions, zeros and in any order
	for n := 0; n < pick(40, 300); n++ {
		var in []ins
		for k := r.Intn(1 + r.Intn(400)); k >= 0; k-- {
			x := ins{randRune(r), randValue(r)}
			in = append(in, x)
			switch r.Intn(6) {
			case 0:
				in = append(in, ins{x.R, 0})
			case 1:
				in = append(in, ins{x.R, randValue(r)})
			case 2:
				in = append(in, ins{rune(0xD800 + r.Intn(0x800)), 0})
			}
		}
		r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		add("random insertions", r.Intn(4), in)
	}
	// what is no code point to insert, with values, among others
	for n := 0; n < pick(30, 200); n++ {
		var in []ins
		for k := r.Intn(30); k >= 0; k-- {
			in = append(in, ins{randRune(r), randValue(r)})
		}
		for k := r.Intn(6); k >= 0; k-- {
			bad := []rune{0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD800 + rune(r.Intn(0x800)), 0xD800 + rune(r.Intn(0x800)), 0x110000, 0x110000 + rune(r.Intn(1<<20)), 0x1FFFFF, 0x7FFFFFFF}[r.Intn(10)]
			v := []uint64{0, 1, 1, 2, randValue(r), randValue(r)}[r.Intn(6)]
			if n%3 == 0 {
				in = append(in, ins{0xFFFD, randValue(r)})
			}
			in = append(in, ins{bad, v})
		}
		r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		add("insertions of what is no code point", r.Intn(4), in)
	}
	// constants of the code as code points, values, and numbers of code points, blocks and insertions
	cs := codeConstants()
	for n := 0; n < pick(50, 400); n++ {
		var in []ins
		compact := r.Intn(4)
		lo := randRune(r)
		put := func(x rune, v uint64) {
			if scalar(x) {
				in = append(in, ins{x, v})
			}
		}
		for k := r.Intn(20); k > 0; k-- {
			put(randRune(r), randValue(r))
		}
		k := sizeOf(r, cs, 1, 17000-n%5) // each case takes its turns
		switch n % 5 {
		case 0: // so many in a row, of few values or of many
			few := uint64(1 + r.Intn(4))
			for i := 0; i < k; i++ {
				put(lo+rune(i), 1+uint64(i)%few)
			}
		case 1: // so many blocks, no two alike
			compact &= 1
			k += r.Intn(6)
			for x := rune(0x80); k > 0 && x <= 0x10FFFF; x += 64 {
				if scalar(x) {
					put(x+rune(k%64), uint64(k))
					k--
				}
			}
		case 2: // as code points and values
			for _, c := range cs {
				for d := uint64(0); d < 3; d++ {
					v := c + d - 1
					x := randRune(r)
					if v <= 0x10FFFF && scalar(rune(v)) {
						x = rune(v)
					}
					put(x, randValue(r))
					put(randRune(r), v)
				}
			}
		case 3: // the same again and again
			for i := 0; i < k; i++ {
				put(lo, uint64(1+i*7%250))
				if i%50 == 0 {
					put(randRune(r), randValue(r))
				}
			}
		case 4: // so many insertions
			for len(in) < k {
				put(randRune(r), randValue(r))
			}
		}
		add("constants of the code", compact, in)
	}
	// the maps of the reduced model
	m2, m4 := loadMaps("TrieMaps2"), loadMaps("TrieMaps4")
	for n := 0; n < pick(400, 1200); n++ {
		i := r.Intn(len(m2))
		add(fmt.Sprintf("map %d of the reduced model", i), n%4, embed(r, m2[i], [2][]byte{span(0xC2, 0xDF), span(0xE0, 0xEF)}))
		if n%pick(3, 6) == 0 {
			i := r.Intn(len(m4))
			add(fmt.Sprintf("map %d of the reduced model with four bytes", i), n%4, embed(r, m4[i], [2][]byte{span(0xE1, 0xEC)[r.Intn(10):][:2], span(0xF0, 0xF4)}))
		}
	}
	// every code point
	for n := 0; n < pick(3, 10); n++ {
		var in []ins
		sh, mod := uint(r.Intn(9)), rune(2+r.Intn(9))
		perm := r.Perm(12)
		for x := rune(0); x <= 0x10FFFF; x++ {
			if scalar(x) {
				if v := uint64((x >> sh) % mod); v > 0 {
					in = append(in, ins{x, 1 << uint(perm[v])})
				}
			}
		}
		add("every code point", n%4, in)
	}
	// classifications like those of the packages
	for _, n := range []string{"word", "grapheme", "sentence"} {
		b, err := os.ReadFile(filepath.Join(*data, n+".json"))
		must(err)
		var rs []rng
		must(json.Unmarshal(b, &rs))
		bits := map[string]uint64{}
		var in []ins
		for _, t := range rs {
			if _, ok := bits[t.K]; !ok {
				bits[t.K] = 1 << uint(len(bits))
			}
			for x := t.Lo; x <= t.Hi; x++ {
				in = append(in, ins{x, bits[t.K]})
			}
		}
		r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		add("classification: "+n, r.Intn(4), in)
	}
}

func main() {
	flag.Parse()
	r := rand.New(rand.NewSource(*seed*7919 + 11))
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		must(err)
		var f struct{ Extra *kase }
		must(json.Unmarshal(b, &f))
		cases = []*kase{f.Extra}
	} else {
		build(r)
	}
	for i, k := range cases {
		k.Name = fmt.Sprintf("t%d", i)
		k.Width = k.width()
	}
	writeCases()
	byWidth := map[int][]*kase{}
	for i, k := range cases {
		must(os.WriteFile(filepath.Join(*dir, "current"), []byte(strconv.Itoa(i)), 0o644))
		src, err := k.gen()
		if k.Err = err; err != "" {
			continue
		}
		d := filepath.Join(*dir, fmt.Sprintf("p%d", k.Width))
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, k.Name+".go"), append([]byte(fmt.Sprintf("package p%d\n", k.Width)), src...), 0o644))
		byWidth[k.Width] = append(byWidth[k.Width], k)
	}
	var imports, merge []string
	for w, ks := range byWidth {
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name < ks[j].Name })
		var b bytes.Buffer
		fmt.Fprintf(&b, "package p%d\n\ntype property uint%d\n\nvar All = map[string]func([]byte) (uint64, int){\n", w, w)
		for _, k := range ks {
			fmt.Fprintf(&b, "%q: func(s []byte) (uint64, int) { v, n := (&%sTrie{}).lookup(s); return uint64(v), n },\n", k.Name, k.Name)
		}
		b.WriteString("}\n")
		must(os.WriteFile(filepath.Join(*dir, fmt.Sprintf("p%d", w), "all.go"), b.Bytes(), 0o644))
		imports = append(imports, fmt.Sprintf("import \"scratch/p%d\"\n", w))
		merge = append(merge, fmt.Sprintf("p%d.All", w))
	}
	must(os.WriteFile(filepath.Join(*dir, "all.go"), []byte("package main\n"+strings.Join(imports, "")+"var packages = []map[string]func([]byte) (uint64, int){"+strings.Join(merge, ", ")+"}\n"), 0o644))
	must(os.WriteFile(filepath.Join(*dir, "go.mod"), []byte("module scratch\n\ngo 1.18\n"), 0o644))
	writeCases()
}

func writeCases() {
	f, err := os.Create(filepath.Join(*dir, "cases.json"))
	must(err)
	w := bufio.NewWriter(f)
	must(json.NewEncoder(w).Encode(cases))
	must(w.Flush())
	must(f.Close())
}
