package main

// Ill-formed UTF-8, generated from the decoding automaton that TLC printed (spec/Utf8Table).

import (
	"encoding/json"
	"math/rand"
	"strings"
	"unicode/utf8"
)

type utf8auto struct {
	classes []string
	bytes   map[string][]byte
	state   []string
	next    []map[string]int
	out     []map[string]string
	access  [][]string // class words reaching each state
}

func loadUtf8() *utf8auto {
	u := &utf8auto{bytes: map[string][]byte{}}
	idx := map[string]int{}
	get := func(s string) int {
		if i, ok := idx[s]; ok {
			return i
		}
		idx[s] = len(u.state)
		u.state = append(u.state, s)
		u.next = append(u.next, map[string]int{})
		u.out = append(u.out, map[string]string{})
		return len(u.state) - 1
	}
	seen := map[string]bool{}
	eachPrinted(table("Utf8Table"), func(b []byte) {
		var r struct {
			S, T   json.RawMessage
			C, Out string
		}
		if json.Unmarshal(b, &r) != nil {
			fatal("bad Utf8Table line")
		}
		s := get(string(r.S))
		t := get(string(r.T))
		u.next[s][r.C] = t
		u.out[s][r.C] = r.Out
		if !seen[r.C] {
			seen[r.C] = true
			u.classes = append(u.classes, r.C)
		}
	})
	for b := 0; b < 256; b++ {
		c := classOf(byte(b))
		u.bytes[c] = append(u.bytes[c], byte(b))
	}
	for _, c := range u.classes {
		if len(u.bytes[c]) == 0 {
			fatal("no bytes of class %s", c)
		}
	}
	u.access = make([][]string, len(u.state))
	done := map[int]bool{0: true}
	for q := []int{0}; len(q) > 0; q = q[1:] {
		for _, c := range u.classes {
			t := u.next[q[0]][c]
			if !done[t] {
				done[t] = true
				u.access[t] = append(append([]string(nil), u.access[q[0]]...), c)
				q = append(q, t)
			}
		}
	}
	return u
}

func classOf(b byte) string {
	switch {
	case b < 0x80:
		return "A"
	case b < 0x90:
		return "T8"
	case b < 0xA0:
		return "T9"
	case b < 0xC0:
		return "TA"
	case b < 0xC2:
		return "C0"
	case b < 0xE0:
		return "L2"
	case b == 0xE0:
		return "E0"
	case b == 0xED:
		return "ED"
	case b < 0xF0:
		return "L3"
	case b == 0xF0:
		return "F0"
	case b < 0xF4:
		return "L4"
	case b == 0xF4:
		return "F4"
	case b < 0xF8:
		return "F5"
	}
	return "F8"
}

// shapes: access word of every state, followed by every class word of length <= k
func (u *utf8auto) shapes(k int) [][]string {
	var out [][]string
	var rec func(w []string, k int)
	rec = func(w []string, k int) {
		out = append(out, append([]string(nil), w...))
		if k == 0 {
			return
		}
		for _, c := range u.classes {
			rec(append(append([]string(nil), w...), c), k-1)
		}
	}
	for _, a := range u.access {
		rec(a, k)
	}
	return out
}

func (u *utf8auto) instance(r *rand.Rand, w []string) string {
	b := make([]byte, 0, 8)
	for _, c := range w {
		x := u.bytes[c]
		if c == "A" && r.Intn(2) == 0 {
			b = append(b, "a1 .\n\r'\x1b"[r.Intn(8)])
			continue
		}
		b = append(b, x[r.Intn(len(x))])
	}
	return string(b)
}

// damage breaks a well-formed text
func damage(r *rand.Rand, t string) string {
	b := []byte(t)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		// prefer the inside of multi-byte code points
		for try := 0; try < 4 && b[i] < 0x80; try++ {
			i = r.Intn(len(b))
		}
		switch r.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = b[:i]
		case 2:
			b[i] = byte(r.Intn(256))
		case 3:
			b = append(b[:i], append([]byte{byte(0x80 + r.Intn(0x80))}, b[i:]...)...)
		case 4:
			b[i] ^= 1 << uint(r.Intn(8))
		case 5:
			j := r.Intn(len(b))
			if i < j {
				i, j = j, i
			}
			b = append(b[:j], b[i:]...)
		}
	}
	return string(b)
}

// truncated: a real code point of the segmenter's alphabet cut short, followed by something
func truncated(r *rand.Rand, p *picker, alpha []uint8) string {
	for try := 0; try < 50; try++ {
		e := string(p.pick(r, alpha[r.Intn(len(alpha))]))
		if len(e) > 1 {
			return e[:1+r.Intn(len(e)-1)]
		}
	}
	return "\xe2\x80"
}

func isValid(t string) bool { return utf8.ValidString(t) }

var asciiBits = []string{"", "a", "Z", "1", " ", "  ", ".", "'", "\n", "\r", "a1 ", "ab.", "_", ",", "x\r\n", "\x1b[0m", "e\u0301", "\U0001F469\u200D", "\U0001F1E6", "\u05D0\"", "\u0915\u094D", "? ", "a. ", "3,"}

func bit(r *rand.Rand) string {
	s := asciiBits[r.Intn(len(asciiBits))]
	if r.Intn(8) == 0 {
		return strings.Repeat(s, 1+r.Intn(20))
	}
	return s
}
