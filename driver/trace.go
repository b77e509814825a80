package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// tracer writes ndjson events for TLC
type tracer struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newTracer(name string) *tracer {
	if *flagTrace == "" {
		return nil
	}
	f, err := os.Create(filepath.Join(*flagTrace, name+".ndjson"))
	if err != nil {
		fatal("%v", err)
	}
	return &tracer{f: f, w: bufio.NewWriter(f)}
}
func (t *tracer) emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	t.w.Write(append(b, '\n'))
	t.n++
}
func (t *tracer) close() {
	t.w.Flush()
	t.f.Close()
}

type ev map[string]interface{}

// segEvents emits what the real iterator did with text, one event per code point.
func (t *tracer) segEvents(s *seg, which, text string) {
	ends, e := walkStr(s.str(text), text, nil)
	if e != "" {
		// a broken partition is reported by the other suites; here the text is traced
		// up to where the library got
		_ = e
	}
	cut := map[int]bool{0: true}
	for _, x := range ends {
		cut[x] = true
	}
	t.emit(ev{"e": "start", "m": which, "seg": s.name, "hex": hex.EncodeToString([]byte(text))})
	for i, r := range text {
		k, f := s.m.syms[s.kind[r]], "-"
		if j := strings.IndexByte(k, '+'); j >= 0 {
			k, f = k[:j], k[j+1:]
		}
		t.emit(ev{"e": "sym", "k": k, "f": f, "cut": b2i(cut[i])})
	}
	t.emit(ev{"e": "end"})
}

// traceSeg records random texts until about n events
func traceSeg(s *seg, which string, n int) {
	t := newTracer(fmt.Sprintf("SegTrace-%s", s.name))
	if t == nil {
		return
	}
	r := rand.New(rand.NewSource(subSeed("trace "+s.name, 0)))
	p := s.picker()
	alpha := s.alphabet()
	texts := 0
	for t.n < n {
		t.segEvents(s, which, p.text(r, s.randomWord(r, alpha, 40, nil)))
		texts++
	}
	t.close()
	res.info("traced texts "+s.name, texts)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
