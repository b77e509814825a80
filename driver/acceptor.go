package main

// Finite acceptors printed by TLC: a token is fed symbol by symbol, and the outputs of the state
// reached say what a classifier returns for it.

import (
	"encoding/json"
	"fmt"
	"strings"
)

type acceptor struct {
	syms   []string
	symIdx map[string]int
	states []string
	next   [][]int32
	out    [][]bool
	init   int
	access [][]uint8
}

// loadAcceptor reads the lines {s, k, t, out}; out belongs to t
func loadAcceptor(name string, outs int) *acceptor {
	a := &acceptor{symIdx: map[string]int{}, init: -1}
	idx := map[string]int{}
	state := func(raw json.RawMessage) int {
		var v interface{}
		if json.Unmarshal(raw, &v) != nil {
			fatal("bad state in %s", name)
		}
		s, _ := json.Marshal(v) // TLC does not always print fields in the same order
		if i, ok := idx[string(s)]; ok {
			return i
		}
		i := len(a.states)
		idx[string(s)] = i
		a.states = append(a.states, string(s))
		a.out = append(a.out, make([]bool, outs))
		return i
	}
	type row struct{ s, k, t int }
	var rows []row
	eachPrinted(table(name), func(b []byte) {
		var r struct {
			S, T json.RawMessage
			K    string
			Out  []bool
		}
		if json.Unmarshal(b, &r) != nil || len(r.Out) != outs {
			fatal("bad line in %s: %s", name, b)
		}
		s := state(r.S)
		if a.init < 0 {
			a.init = s
		}
		k, ok := a.symIdx[r.K]
		if !ok {
			k = len(a.syms)
			a.symIdx[r.K] = k
			a.syms = append(a.syms, r.K)
		}
		t := state(r.T)
		a.out[t] = r.Out
		rows = append(rows, row{s, k, t})
	})
	a.next = make([][]int32, len(a.states))
	for i := range a.next {
		a.next[i] = make([]int32, len(a.syms))
		for k := range a.next[i] {
			a.next[i][k] = -1
		}
	}
	for _, r := range rows {
		a.next[r.s][r.k] = int32(r.t)
	}
	for i := range a.next {
		for k := range a.next[i] {
			if a.next[i][k] < 0 {
				fatal("%s: no transition of %s on %s", name, a.states[i], a.syms[k])
			}
		}
	}
	return a
}

// reach finds, with the symbols that have code points, a word that leads to each state
func (a *acceptor) reach(alpha []uint8) {
	a.access = make([][]uint8, len(a.states))
	seen := map[int]bool{a.init: true}
	for q := []int{a.init}; len(q) > 0; q = q[1:] {
		for _, k := range alpha {
			t := int(a.next[q[0]][k])
			if !seen[t] {
				seen[t] = true
				a.access[t] = append(append([]uint8{}, a.access[q[0]]...), uint8(k))
				q = append(q, t)
			}
		}
	}
}

func (a *acceptor) run(s int, w []uint8) int {
	for _, k := range w {
		s = int(a.next[s][k])
	}
	return s
}

func (a *acceptor) word(w []uint8) string {
	var b []string
	for _, k := range w {
		b = append(b, a.syms[k])
	}
	return strings.Join(b, " ")
}

// contexts are prefixes and suffixes that between them tell any two symbols apart that the
// acceptor tells apart anywhere
func (a *acceptor) contexts(alpha []uint8) (out [][2][]uint8) {
	var cand [][2][]uint8
	for i, p := range a.access {
		if p == nil && i != a.init {
			continue
		}
		cand = append(cand, [2][]uint8{p, nil})
		for _, k := range alpha {
			cand = append(cand, [2][]uint8{p, {k}})
		}
		for _, k := range alpha {
			for _, l := range alpha {
				cand = append(cand, [2][]uint8{p, {k, l}})
			}
		}
	}
	part := make([]int, len(a.syms))
	parts := 1
	for _, c := range cand {
		ids := map[string]int{}
		np := make([]int, len(a.syms))
		base := a.run(a.init, c[0])
		for k := range a.syms {
			o := a.out[a.run(int(a.next[base][k]), c[1])]
			key := fmt.Sprint(part[k], o)
			id, ok := ids[key]
			if !ok {
				id = len(ids)
				ids[key] = id
			}
			np[k] = id
		}
		if len(ids) > parts {
			parts, part = len(ids), np
			out = append(out, c)
		}
	}
	return out
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
