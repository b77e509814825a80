package main

// The oracle: transducers exactly as TLC printed them (spec/*Table.tla).  Nothing in this
// file knows a segmentation rule.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

const (
	outS = iota // start of text
	outJ        // joined
	outB        // boundary
	outP        // undecided
)
const (
	pendNone = iota
	pendJ
	pendB
)

type tran struct {
	next       int32
	here, pend uint8
	rule       uint8
}

type machine struct {
	name   string
	syms   []string
	symIdx map[string]int
	states []string // canonical JSON of each TLA+ state
	t      [][]tran // [state][sym]
	rules  []string
	init   int
}

type rawTran struct {
	S    json.RawMessage `json:"s"`
	K    string          `json:"k"`
	T    json.RawMessage `json:"t"`
	Here string          `json:"here"`
	Pend string          `json:"pend"`
	Rule string          `json:"rule"`
}

func eachPrinted(path string, f func(line []byte)) {
	fh, err := os.Open(path)
	if err != nil {
		fatal("cannot read %s: %v", path, err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "\"T ") {
			continue
		}
		var s string
		if err := json.Unmarshal([]byte(l), &s); err != nil {
			fatal("bad TLC line in %s: %v", path, err)
		}
		f([]byte(s[2:]))
	}
	if err := sc.Err(); err != nil {
		fatal("%s: %v", path, err)
	}
}

func loadMachine(name, path string) *machine {
	m := &machine{name: name, symIdx: map[string]int{}}
	stIdx := map[string]int{}
	ruleIdx := map[string]int{}
	state := func(s string) int {
		if i, ok := stIdx[s]; ok {
			return i
		}
		stIdx[s] = len(m.states)
		m.states = append(m.states, s)
		m.t = append(m.t, nil)
		return len(m.states) - 1
	}
	type row struct {
		s, k int
		t    tran
	}
	var rows []row
	first := true
	eachPrinted(path, func(b []byte) {
		var r rawTran
		if err := json.Unmarshal(b, &r); err != nil {
			fatal("%s: %v", path, err)
		}
		s := state(string(r.S))
		if first {
			m.init = s
			first = false
		}
		k, ok := m.symIdx[r.K]
		if !ok {
			k = len(m.syms)
			m.symIdx[r.K] = k
			m.syms = append(m.syms, r.K)
		}
		ru, ok := ruleIdx[r.Rule]
		if !ok {
			ru = len(m.rules)
			ruleIdx[r.Rule] = ru
			m.rules = append(m.rules, r.Rule)
		}
		t := tran{next: int32(state(string(r.T))), rule: uint8(ru)}
		switch r.Here {
		case "S":
			t.here = outS
		case "J":
			t.here = outJ
		case "B":
			t.here = outB
		case "P":
			t.here = outP
		default:
			fatal("%s: bad output %q", path, r.Here)
		}
		switch r.Pend {
		case "-":
		case "J":
			t.pend = pendJ
		case "B":
			t.pend = pendB
		default:
			fatal("%s: bad pend %q", path, r.Pend)
		}
		rows = append(rows, row{s, k, t})
	})
	for i := range m.t {
		m.t[i] = make([]tran, len(m.syms))
		for k := range m.t[i] {
			m.t[i][k].next = -1
		}
	}
	for _, r := range rows {
		m.t[r.s][r.k] = r.t
	}
	for i := range m.t {
		for k := range m.t[i] {
			if m.t[i][k].next < 0 {
				fatal("%s: state %s has no transition on %s", path, m.states[i], m.syms[k])
			}
		}
	}
	if len(m.states) == 0 {
		fatal("%s: no transitions", path)
	}
	return m
}

// ends appends to dst the symbol indices after which a token ends.
func (m *machine) ends(syms []uint8, dst []int) []int {
	st := m.init
	p := -1
	base := len(dst)
	for i, k := range syms {
		t := &m.t[st][k]
		if t.pend != pendNone {
			if t.pend == pendJ {
				// remove p from dst
				j := len(dst) - 1
				for j >= base && dst[j] != p {
					j--
				}
				if j >= base {
					dst = append(dst[:j], dst[j+1:]...)
				}
			}
			p = -1
		}
		switch t.here {
		case outB:
			dst = append(dst, i)
		case outP:
			dst = append(dst, i)
			p = i
		}
		st = int(t.next)
	}
	if len(syms) > 0 {
		dst = append(dst, len(syms))
	}
	return dst
}

// minimal Mealy machine of m, with shortest access words
type minimal struct {
	m      *machine
	class  []int // state -> class
	rep    []int // class -> a state
	access [][]uint8
	w      [][]uint8 // characterisation set: words that tell every two classes apart
}

func (m *machine) minimise() *minimal {
	n := len(m.states)
	class := make([]int, n)
	num := 1
	for {
		sig := map[string]int{}
		nc := make([]int, n)
		for s := 0; s < n; s++ {
			var b strings.Builder
			fmt.Fprintf(&b, "%d", class[s])
			for k := range m.syms {
				t := m.t[s][k]
				fmt.Fprintf(&b, ",%d.%d.%d", t.here, t.pend, class[t.next])
			}
			c, ok := sig[b.String()]
			if !ok {
				c = len(sig)
				sig[b.String()] = c
			}
			nc[s] = c
		}
		class = nc
		if len(sig) == num {
			break
		}
		num = len(sig)
	}
	mn := &minimal{m: m, class: class, rep: make([]int, num), access: make([][]uint8, num)}
	// breadth-first access words
	seen := make([]bool, num)
	type q struct {
		s int
		w []uint8
	}
	queue := []q{{m.init, nil}}
	seen[class[m.init]] = true
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		c := class[x.s]
		mn.rep[c] = x.s
		mn.access[c] = x.w
		for k := range m.syms {
			nx := int(m.t[x.s][k].next)
			if !seen[class[nx]] {
				seen[class[nx]] = true
				w := append(append([]uint8{}, x.w...), uint8(k))
				queue = append(queue, q{nx, w})
			}
		}
	}
	mn.characterise()
	return mn
}

func (m *machine) outputs(s int, w []uint8) string {
	var b []byte
	for _, k := range w {
		t := m.t[s][k]
		b = append(b, '0'+t.here, '0'+t.pend)
		s = int(t.next)
	}
	return string(b)
}

func (mn *minimal) characterise() {
	m := mn.m
	n := len(mn.rep)
	split := func(w []uint8, part []int) []int {
		ids := map[string]int{}
		out := make([]int, n)
		for c := 0; c < n; c++ {
			key := fmt.Sprint(part[c], m.outputs(mn.rep[c], w))
			id, ok := ids[key]
			if !ok {
				id = len(ids)
				ids[key] = id
			}
			out[c] = id
		}
		return out
	}
	count := func(p []int) int {
		s := map[int]bool{}
		for _, x := range p {
			s[x] = true
		}
		return len(s)
	}
	part := make([]int, n)
	// greedy over single symbols then pairs
	words := [][]uint8{}
	for a := range m.syms {
		words = append(words, []uint8{uint8(a)})
	}
	for {
		best, bw := count(part), []uint8(nil)
		for _, w := range words {
			if c := count(split(w, part)); c > best {
				best, bw = c, w
			}
		}
		if bw == nil {
			if count(part) == n || len(words) > len(m.syms) {
				break
			}
			if len(m.syms) > 40 {
				break
			}
			for a := range m.syms {
				for b := range m.syms {
					words = append(words, []uint8{uint8(a), uint8(b)})
				}
			}
			continue
		}
		mn.w = append(mn.w, bw)
		part = split(bw, part)
	}
}

// contexts returns (prefix, suffix) pairs such that any two symbols that the machine treats
// differently anywhere are decided differently in one of them.
func (mn *minimal) contexts(same func(a, b int) bool) [][2][]uint8 {
	m := mn.m
	ns := len(m.syms)
	type ctx = [2][]uint8
	var cand []ctx
	sufs := [][]uint8{{}}
	for k := 0; k < ns; k++ {
		sufs = append(sufs, []uint8{uint8(k)})
	}
	for _, a := range mn.access {
		for _, s := range sufs {
			cand = append(cand, ctx{a, s})
		}
	}
	if ns <= 40 {
		for _, a := range mn.access {
			for i := 0; i < ns; i++ {
				for j := 0; j < ns; j++ {
					cand = append(cand, ctx{a, []uint8{uint8(i), uint8(j)}})
				}
			}
		}
	}
	key := func(c ctx, k int) string {
		w := append(append(append([]uint8{}, c[0]...), uint8(k)), c[1]...)
		return fmt.Sprint(m.ends(w, nil))
	}
	part := make([]int, ns)
	parts := 1
	var out []ctx
	// candidates are scanned in order and kept when they refine the partition
	for _, c := range cand {
		ids := map[string]int{}
		np := make([]int, ns)
		for k := 0; k < ns; k++ {
			kk := fmt.Sprint(part[k], key(c, k))
			id, ok := ids[kk]
			if !ok {
				id = len(ids)
				ids[kk] = id
			}
			np[k] = id
		}
		if len(ids) > parts {
			parts = len(ids)
			part = np
			out = append(out, c)
		}
	}
	_ = same
	return out
}

func (m *machine) word(w []uint8) string {
	var s []string
	for _, k := range w {
		s = append(s, m.syms[k])
	}
	return strings.Join(s, " ")
}

// ---------------------------------------------------------------- classification data

type rng struct {
	Lo int    `json:"lo"`
	Hi int    `json:"hi"`
	K  string `json:"k"`
}

func loadRanges(path string) []rng {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r []rng
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%s: %v", path, err)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Lo < r[j].Lo })
	return r
}

// kindTable maps every code point to a symbol index of m
func kindTable(m *machine, ranges []rng) []uint8 {
	t := make([]uint8, 0x110000)
	o, ok := m.symIdx["Other"]
	if !ok {
		fatal("machine %s has no Other", m.name)
	}
	for i := range t {
		t[i] = uint8(o)
	}
	for _, r := range ranges {
		k, ok := m.symIdx[r.K]
		if !ok {
			fatal("kind %q is not a symbol of machine %s", r.K, m.name)
		}
		for c := r.Lo; c <= r.Hi; c++ {
			t[c] = uint8(k)
		}
	}
	return t
}

func isSurrogate(c int) bool { return c >= 0xD800 && c <= 0xDFFF }
