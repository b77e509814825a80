package main

// Texts of more than 2^31 and 2^32 bytes (C01): offsets of any size.

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

type hugeIter interface {
	Next() bool
	Start() int
	End() int
}

const hugeTail = "ab cd's. Ef 12,3 \u00e9\u0301!\r\n\U0001F1E6\U0001F1E7"

// walk goes through a text of n bytes; tails is told the tokens that begin in its last bytes
func hugeWalk(n, step int, it hugeIter, value func() int, last int) (tokens []int, what string) {
	defer func() {
		if x := recover(); x != nil {
			what = fmt.Sprintf("panics at %d: %v", it.Start(), x)
		}
	}()
	at, k := 0, 0
	for it.Next() {
		s, e := it.Start(), it.End()
		if s != at || e <= s || e > n {
			return nil, fmt.Sprintf("token [%d, %d) behind one that ends at %d, in a text of %d bytes", s, e, at, n)
		}
		if k++; k%step == 0 || e >= n-last {
			if v := value(); v != e-s {
				return nil, fmt.Sprintf("the value of the token [%d, %d) has %d bytes", s, e, v)
			}
		}
		if e >= n-last {
			tokens = append(tokens, n-e)
		}
		if at = e; at == n && k > n {
			break
		}
	}
	if at != n || it.Start() >= n || it.End() != n {
		return nil, fmt.Sprintf("ends at %d of %d, with [%d, %d)", at, n, it.Start(), it.End())
	}
	return tokens, ""
}

// memAvailable: bytes the system says it can still give
func memAvailable() int64 {
	b, err := os.ReadFile("/proc/meminfo")
	if err != nil {
		return 0
	}
	var kb int64
	for _, line := range strings.Split(string(b), "\n") {
		if n, _ := fmt.Sscanf(line, "MemAvailable: %d kB", &kb); n == 1 {
			return kb << 10
		}
	}
	return 0
}

func suiteGigabytes() {
	size := 1<<32 + 5
	if !thorough() {
		// words and phrases get there in one token
		size = 1<<32 + 1
	}
	if a := memAvailable(); a < 10<<30 {
		res.info("texts of gigabytes", fmt.Sprintf("left out: %d MB of memory available", a>>20))
		return
	}
	buf := make([]byte, size, size+len(hugeTail))
	const block = 1 << 20
	for i := 0; i < block; i++ {
		buf[i] = 'a'
	}
	for i := block; i < size; i += block {
		copy(buf[i:], buf[:block])
	}
	buf = append(buf, hugeTail...)
	n := len(buf)
	str := func(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }
	half := buf[n-(1<<31+77):]
	small := "aaaa" + hugeTail
	last := len(hugeTail)
	sent := half
	if thorough() {
		sent = buf
	}
	far := func(d []byte, _ bool) (int, []byte, error) {
		if len(d) > 1<<31+99 {
			return 1<<31 + 9, d[:1<<31+9], nil
		}
		return words.SplitFunc(d, true)
	}
	type job struct {
		name      string
		text      int
		it, small hugeIter
		value     func() int
	}
	var jobs []job
	single := half
	if thorough() {
		single = buf
	}
	gs := graphemes.FromString(str(single))
	jobs = append(jobs, job{"graphemes/string", len(single), gs, graphemes.FromString(small), func() int { return len(gs.Value()) }})
	ws := words.FromString(str(buf))
	jobs = append(jobs, job{"words/string", n, ws, words.FromString(small), func() int { return len(ws.Value()) }})
	wb := words.FromBytes(buf)
	wb.Split(far)
	jobs = append(jobs, job{"words/bytes, its own split function", n, wb, words.FromString(small), func() int { return len(wb.Value()) }})
	pb := phrases.FromBytes(buf)
	jobs = append(jobs, job{"phrases/bytes", n, pb, phrases.FromString(small), func() int { return len(pb.Value()) }})
	sb := sentences.FromBytes(sent)
	jobs = append(jobs, job{"sentences/bytes", len(sent), sb, sentences.FromString(small), func() int { return len(sb.Value()) }})
	ib := iterators.New(iterators.SplitFunc[[]byte](far), buf)
	jobs = append(jobs, job{"iterators/bytes", n, ib, words.FromString(small), func() int { return len(ib.Value()) }})
	name := "texts of more than 2^31 and 2^32 bytes"
	run := func() {
		parallel(name, func(w int, _ *rand.Rand) int64 {
			var runs int64
			for i, j := range jobs {
				if i%nWorkers != w || stopped() {
					continue
				}
				runs++
				var want []int
				at := 0
				for j.small.Next() && j.small.Start() == at && j.small.End() > at {
					if at = j.small.End(); at >= len(small)-last {
						want = append(want, len(small)-at)
					}
				}
				got, what := hugeWalk(j.text, 1<<20, j.it, j.value, last)
				if what == "" && fmt.Sprint(got) != fmt.Sprint(want) {
					what = fmt.Sprintf("the tokens of the last bytes end %v before its end; in a short text: %v", got, want)
				}
				if what != "" {
					res.fail(&failure{Suite: name, What: fmt.Sprintf("%s, %d times a and %q: %s", j.name, j.text-last, hugeTail, what)})
				}
			}
			return runs
		})
	}
	run()
	// in graphemes, a token of such a size is an escape sequence
	copy(buf, "\x1b]")
	buf[size-1] = '\a'
	small = "\x1b]a\a" + hugeTail
	ansi := func(it *graphemes.Iterator[string]) *graphemes.Iterator[string] {
		it.AnsiEscapeSequences = true
		return it
	}
	gs = ansi(graphemes.FromString(str(buf)))
	gb := graphemes.FromBytes(buf)
	gb.AnsiEscapeSequences, gb.AnsiEscapeSequences8Bit = true, true
	jobs = []job{
		{"graphemes/string, OSC", n, gs, ansi(graphemes.FromString(small)), func() int { return len(gs.Value()) }},
		{"graphemes/bytes, OSC", n, gb, ansi(graphemes.FromString(small)), func() int { return len(gb.Value()) }},
	}
	run()
	buf = nil
	debug.FreeOSMemory()
}
