package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagSeed    = flag.Int64("seed", 1, "random seed")
	flagTables  = flag.String("tables", "", "directory with TLC output")
	flagData    = flag.String("data", "", "directory with classification data")
	flagOut     = flag.String("out", "", "result file")
	flagTrace   = flag.String("trace", "", "directory for traces to be validated by TLC")
	flagReplay  = flag.String("replay", "", "replay file")
	flagJournal = flag.String("journal", "", "directory in which every text is written down before it is run")
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(2)
}

// failure is a disagreement between the real code and the specification.
type failure struct {
	Seg   string      `json:"seg,omitempty"`
	Path  string      `json:"path,omitempty"`
	Suite string      `json:"suite,omitempty"`
	What  string      `json:"what"`
	Text  string      `json:"-"`
	Hex   string      `json:"text_hex"`
	Quote string      `json:"text,omitempty"`
	Want  []int       `json:"want_ends,omitempty"`
	Got   []int       `json:"got_ends,omitempty"`
	Note  string      `json:"config,omitempty"`
	Group string      `json:"group,omitempty"`
	Extra interface{} `json:"extra,omitempty"`
}

type result struct {
	mu       sync.Mutex
	Prop     string                 `json:"prop"`
	Evals    int64                  `json:"evaluations"`
	Distinct int64                  `json:"distinct"`
	Symbols  int64                  `json:"symbols"`
	Tokens   int64                  `json:"tokens"`
	Suites   map[string]int64       `json:"suites"`
	Failures []*failure             `json:"failures"`
	NFail    int                    `json:"nfail"`
	Info     map[string]interface{} `json:"info"`
	Samples  []string               `json:"samples"`
	RuleHits map[string]int64       `json:"rule_hits,omitempty"`
}

var res = &result{Suites: map[string]int64{}, Info: map[string]interface{}{}, RuleHits: map[string]int64{}}
var stop int32

func (r *result) fail(f *failure) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NFail++
	f.Hex = hex.EncodeToString([]byte(f.Text))
	if len(f.Text) <= 400 {
		f.Quote = fmt.Sprintf("%+q", f.Text)
	}
	if len(f.Want) > 400 {
		f.Want = f.Want[:400]
	}
	if len(f.Got) > 400 {
		f.Got = f.Got[:400]
	}
	if len(r.Failures) < 60 {
		r.Failures = append(r.Failures, f)
	}
	if r.NFail >= 40 {
		atomic.StoreInt32(&stop, 1)
	}
}

func (r *result) sample(s string) {
	r.mu.Lock()
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}
func (r *result) count(suite string, n int64) {
	r.mu.Lock()
	r.Suites[suite] += n
	r.Evals += n
	r.mu.Unlock()
}
func (r *result) info(k string, v interface{}) {
	r.mu.Lock()
	r.Info[k] = v
	r.mu.Unlock()
}

func (r *result) write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	sort.Slice(r.Failures, func(i, j int) bool { return len(r.Failures[i].Text) < len(r.Failures[j].Text) })
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if *flagOut == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(*flagOut+".tmp", b, 0o644); err != nil {
		fatal("%v", err)
	}
	if err := os.Rename(*flagOut+".tmp", *flagOut); err != nil {
		fatal("%v", err)
	}
}

// ---------------------------------------------------------------- watchdog

type slot struct {
	mu    sync.Mutex
	seq   int64
	on    bool
	name  string
	stage *string
	text  string
	extra interface{}
	jf    *os.File
	// watchdog's own
	seen  int64
	since time.Time
}

var slots struct {
	sync.Mutex
	m []*slot
}

func newSlot() *slot {
	s := &slot{}
	slots.Lock()
	if *flagJournal != "" {
		f, err := os.Create(filepath.Join(*flagJournal, fmt.Sprintf("j%d", len(slots.m))))
		if err != nil {
			fatal("%v", err)
		}
		s.jf = f
	}
	slots.m = append(slots.m, s)
	slots.Unlock()
	return s
}

func (s *slot) watch(name string, stage *string, text string, extra interface{}) {
	s.mu.Lock()
	s.on = true
	s.seq++
	s.name, s.stage, s.text, s.extra = name, stage, text, extra
	if s.jf != nil {
		b, _ := json.Marshal(failure{Seg: name, Hex: hex.EncodeToString([]byte(text)), Extra: extra, What: "crash"})
		s.jf.Truncate(0)
		s.jf.WriteAt(b, 0)
	}
	s.mu.Unlock()
}
func (s *slot) unwatch() {
	s.mu.Lock()
	s.on = false
	s.mu.Unlock()
}

const stallLimit = 90 * time.Second

func watchdog() {
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		slots.Lock()
		all := append([]*slot(nil), slots.m...)
		slots.Unlock()
		for _, s := range all {
			s.mu.Lock()
			if !s.on || s.seq != s.seen {
				s.seen = s.seq
				s.since = time.Now()
			}
			stuck := s.on && time.Since(s.since) > stallLimit
			if s.on && ms.HeapAlloc > 10<<30 && time.Since(s.since) > 5*time.Second {
				stuck = true
			}
			if stuck {
				f := &failure{Seg: s.name, Text: s.text, What: "does not terminate", Suite: "watchdog", Extra: s.extra}
				s.mu.Unlock()
				res.fail(f)
				res.write()
				os.Exit(0)
			}
			s.mu.Unlock()
		}
	}
}

// ---------------------------------------------------------------- running suites

const nWorkers = 8

func stopped() bool { return atomic.LoadInt32(&stop) != 0 }

func subSeed(suite string, w int) int64 {
	h := *flagSeed*1000003 + int64(w)*7919
	for _, c := range suite {
		h = h*31 + int64(c)
	}
	return h
}

// parallel runs f on nWorkers workers.
func parallel(suite string, f func(w int, r *rand.Rand) int64) {
	if os.Getenv("DRV_TIME") != "" {
		from := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "%8.2f s  %s\n", time.Since(from).Seconds(), suite) }()
	}
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			n := f(w, rand.New(rand.NewSource(subSeed(suite, w))))
			res.count(suite, n)
		}(w)
	}
	wg.Wait()
}

func thorough() bool { return *flagTier == "thorough" }
func pickN(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

func table(name string) string { return filepath.Join(*flagTables, name+".out") }
func data(name string) string  { return filepath.Join(*flagData, name+".json") }

var props = map[string]func(){}

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(nWorkers)
	go watchdog()
	res.Prop = *flagProp
	if *flagReplay != "" {
		replay(*flagReplay)
		res.write()
		return
	}
	f, ok := props[*flagProp]
	if !ok {
		var ks []string
		for k := range props {
			ks = append(ks, k)
		}
		fatal("unknown property %q (have %s)", *flagProp, strings.Join(ks, " "))
	}
	f()
	res.write()
}
