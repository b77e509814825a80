package main

// The constants written in the code under test become lengths, counts, code points and pieces of the
// texts it is tried on. What is right is still said by the specification alone; the constants only
// say where an implementation may change its mind.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

const (
	litSmall = 260     // sizes to here are tried anyway, in many ways
	litMax   = 1 << 22 // sizes beyond are not tried
)

type literals struct {
	small, big []int // sizes
	runes      []rune
	strs       []string
}

var (
	litOnce sync.Once
	litAll  literals
)

func lits() *literals {
	litOnce.Do(func() {
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		ints, runes, strs := map[int64]bool{}, map[rune]bool{}, map[string]bool{}
		for _, dir := range []string{"graphemes", "words", "phrases", "sentences", "internal/iterators", "internal/iterators/filter"} {
			litsOf(filepath.Join(repo, dir), ints, runes, strs)
		}
		sizes := map[int]bool{}
		for v := range ints {
			for d := int64(-1); d <= 2; d++ {
				if x := v + d; x >= 2 && x <= litMax+2 {
					sizes[int(x)] = true
				}
			}
			for d := int64(-1); d <= 1; d++ {
				if x := v + d; x >= 0 && x < 0x110000 && !isSurrogate(int(x)) {
					runes[rune(x)] = true
				}
			}
		}
		for x := range sizes {
			if x <= litSmall {
				litAll.small = append(litAll.small, x)
			} else {
				litAll.big = append(litAll.big, x)
			}
		}
		for x := range runes {
			litAll.runes = append(litAll.runes, x)
		}
		for x := range strs {
			litAll.strs = append(litAll.strs, x)
		}
		sort.Ints(litAll.small)
		sort.Ints(litAll.big)
		sort.Slice(litAll.runes, func(i, j int) bool { return litAll.runes[i] < litAll.runes[j] })
		sort.Strings(litAll.strs)
		if len(litAll.big) > 400 {
			litAll.big = litAll.big[:400]
		}
		if len(litAll.strs) > 400 {
			litAll.strs = litAll.strs[:400]
		}
		res.info("constants in the code", map[string]int{"sizes": len(litAll.small), "great sizes": len(litAll.big), "code points": len(litAll.runes), "strings": len(litAll.strs)})
	})
	return &litAll
}

// wellKnown: constants of the standard library that sizes and code points are named after
var wellKnown = map[string]map[string]int64{
	"math": {"MaxInt8": 1<<7 - 1, "MaxInt16": 1<<15 - 1, "MaxInt32": 1<<31 - 1, "MaxInt": 1<<63 - 1, "MaxInt64": 1<<63 - 1,
		"MaxUint8": 1<<8 - 1, "MaxUint16": 1<<16 - 1, "MaxUint32": 1<<32 - 1, "MinInt8": -1 << 7, "MinInt16": -1 << 15, "MinInt32": -1 << 31},
	"bufio":         {"MaxScanTokenSize": 64 << 10},
	"bytes":         {"MinRead": 512},
	"unicode":       {"MaxRune": 0x10FFFF, "ReplacementChar": 0xFFFD, "MaxASCII": 0x7F, "MaxLatin1": 0xFF},
	"unicode/utf8":  {"RuneError": 0xFFFD, "RuneSelf": 0x80, "MaxRune": 0x10FFFF, "UTFMax": 4},
	"unicode/utf16": {},
}

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	for name, v := range wellKnown[path] {
		p.Scope().Insert(types.NewConst(token.NoPos, p, name, types.Typ[types.UntypedInt], constant.MakeInt64(v)))
	}
	p.MarkComplete()
	return p, nil
}

// litsOf gathers the constants of a package, those of great tables aside
func litsOf(dir string, ints map[int64]bool, runes map[rune]bool, strs map[string]bool) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		if f, err := parser.ParseFile(fset, n, nil, 0); err == nil {
			files = append(files, f)
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: fakeImporter{}, Error: func(error) {}, IgnoreFuncBodies: false}
	func() {
		defer func() { _ = recover() }() // what could be evaluated until then
		_, _ = conf.Check(dir, fset, files, info)
	}()
	for _, f := range files {
		litsOfFile(fset, f, info, ints, runes, strs)
	}
}

func litsOfFile(fset *token.FileSet, f *ast.File, info *types.Info, ints map[int64]bool, runes map[rune]bool, strs map[string]bool) {
	bytes := map[int64]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CompositeLit:
			if len(n.Elts) > 128 {
				return false
			}
		case *ast.BasicLit, *ast.BinaryExpr, *ast.UnaryExpr, *ast.ParenExpr, *ast.Ident, *ast.SelectorExpr, *ast.CallExpr:
			tv := info.Types[n.(ast.Expr)]
			if _, basic := tv.Type.(*types.Basic); tv.Value == nil || !basic { // sets of properties aside
				var err error
				if tv, err = types.Eval(fset, nil, token.NoPos, types.ExprString(n.(ast.Expr))); err != nil || tv.Value == nil {
					break
				}
			}
			switch tv.Value.Kind() {
			case constant.String:
				s := constant.StringVal(tv.Value)
				for _, r := range s {
					if r != utf8.RuneError && len(runes) < 4000 {
						runes[r] = true
					}
				}
				if 0 < len(s) && len(s) <= 64 {
					strs[s] = true
				}
			case constant.Int, constant.Float:
				if v, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && len(ints) < 4000 {
					ints[v] = true
					if 0x80 <= v && v <= 0xF4 {
						bytes[v] = true
					}
				}
			}
		}
		return true
	})
	// code points spelled in bytes
	spelled := 0
	add := func(b ...int64) {
		s := make([]byte, len(b))
		for i := range b {
			s[i] = byte(b[i])
		}
		if r, w := utf8.DecodeRune(s); w == len(s) && spelled < 4000 {
			spelled++
			runes[r] = true
		}
	}
	for a := range bytes {
		for b := range bytes {
			if a < 0xC2 || b >= 0xC0 {
				continue
			}
			add(a, b)
			for c := range bytes {
				if a < 0xE0 || c >= 0xC0 {
					continue
				}
				add(a, b, c)
				for d := range bytes {
					if a >= 0xF0 && d < 0xC0 {
						add(a, b, c, d)
					}
				}
			}
		}
	}
}

// litSizes: the great sizes in the code that are in a range
func litSizes(lo, hi int) (out []int) {
	for _, x := range lits().big {
		if lo <= x && x <= hi {
			out = append(out, x)
		}
	}
	return
}

// some: at most n of them, spread
func some(xs []int, n int) (out []int) {
	for i := range xs {
		if len(xs) <= n || i*n/len(xs) != (i+1)*n/len(xs) {
			out = append(out, xs[i])
		}
	}
	return
}

// litTexts makes texts about the constants
type litTexts struct {
	s      *seg
	p      *picker
	alpha  []uint8
	access [][]uint8
	sufs   [][]uint8
	all    []int // sizes
	strs   []string
	max    int
}

func newLitTexts(s *seg, max int) *litTexts {
	l := &litTexts{s: s, p: s.picker(), alpha: s.alphabet(), access: s.usableWords(s.mn.access), sufs: s.usableWords(s.mn.w), max: max}
	l.strs = nil
	for _, x := range lits().strs {
		if utf8.ValidString(x) {
			l.strs = append(l.strs, x)
		}
	}
	for _, x := range append(append([]int{}, lits().small...), lits().big...) {
		if x <= max {
			l.all = append(l.all, x)
		}
	}
	return l
}

func (l *litTexts) size(r *rand.Rand) int {
	if b := len(l.all) - len(lits().small); b > 0 && r.Intn(2) == 0 {
		return l.all[len(l.all)-1-r.Intn(b)]
	}
	return l.all[r.Intn(len(l.all))]
}

// piece: a code point or string of the code, or of any kind
func (l *litTexts) piece(r *rand.Rand) string {
	c := lits()
	switch x := r.Intn(8); {
	case x < 3 && len(c.runes) > 0:
		return string(c.runes[r.Intn(len(c.runes))])
	case x == 3 && len(l.strs) > 0:
		return l.strs[r.Intn(len(l.strs))]
	case x == 4:
		return string(rune(32 + r.Intn(95)))
	}
	return string(l.p.pick(r, l.alpha[r.Intn(len(l.alpha))]))
}

// heavy: may the library look ahead anew at each of many of these
func (l *litTexts) heavy(t string) bool {
	if l.s.name != "sentences" {
		return false
	}
	for _, x := range t {
		if l.s.m.syms[l.s.kind[x]] == "ATerm" {
			return true
		}
	}
	return false
}

func (l *litTexts) text(r *rand.Rand) string {
	p := l.p.styled(r)
	pre := p.text(r, l.access[r.Intn(len(l.access))])
	suf := p.text(r, l.sufs[r.Intn(len(l.sufs))])
	mid := ""
	for k := r.Intn(4); k > 0; k-- {
		mid += l.piece(r)
	}
	var lap string
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(3) == 0 {
			lap += l.piece(r)
		} else {
			lap += p.text(r, l.alpha[r.Intn(len(l.alpha)):][:1])
		}
	}
	n := l.size(r)
	switch r.Intn(6) {
	case 0: // so many laps
		if n > 2000 && l.heavy(pre+lap) || n*len(lap) > l.max*4 {
			n = 2000
		}
		return pre + strings.Repeat(lap, n) + mid + suf
	case 1, 2: // so many bytes
		if n > 8000 && l.heavy(pre+lap) {
			n = 8000
		}
		fill := n
		switch r.Intn(3) {
		case 0:
			fill -= len(pre)
		case 1:
			fill -= len(pre) + len(mid)
		}
		if fill < 0 {
			fill = 0
		}
		pad := []string{"a", "1", " ", "Z"}[r.Intn(4)]
		t := strings.Repeat(lap, fill/len(lap))
		t += strings.Repeat(pad, fill-len(t))
		if r.Intn(2) == 0 {
			return t + pre + mid + suf
		}
		return pre + t + mid + suf
	case 3: // behind so many tokens
		lap = []string{"a ", "1,", "\n", "A. ", "!b"}[r.Intn(5)]
		if n > 8000 && l.heavy(lap) {
			n = 8000
		}
		return strings.Repeat(lap, n) + pre + mid + suf
	}
	t := pre
	for k := 1 + r.Intn(6); k > 0; k-- {
		t += l.piece(r)
	}
	return t + mid + suf
}

// suiteLiterals: n texts about the constants in the code, or fewer if they get long
func suiteLiterals(s *seg, n int) {
	l := newLitTexts(s, litMax)
	name := fmt.Sprintf("%s: constants of the code as lengths, counts, code points and strings", s.name)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		total := 0
		for i := w; i < n && total < pickN(48<<20, 400<<20) && !stopped(); i += nWorkers {
			paths := pStr | pSplit
			if i%4 == 0 {
				paths = pStr | pBytes | pSplit
			} else if i%64 == 1 {
				paths = pAll
			}
			t := l.text(r)
			total += len(t)
			if f := c.check(t, paths); f != nil {
				report(name, c, f, paths)
			}
		}
		return c.runs
	})
}

// suiteLitAny: the same for any bytes (C01, C06)
func suiteLitAny(g *group, agree bool, n int) {
	l := newLitTexts(g.segs[0], 1<<18)
	var gp group
	for _, s := range g.segs {
		if !strings.Contains(s.note, "named") {
			gp.segs = append(gp.segs, s)
		}
	}
	gp.key = g.key
	name := g.key + ": constants of the code as lengths, counts, code points and strings"
	parallel(name, func(w int, r *rand.Rand) int64 {
		a, plain := newAnyChecker(g, agree), newAnyChecker(&gp, agree)
		total := 0
		for i := w; i < n && total < pickN(12<<20, 120<<20) && !stopped(); i += nWorkers {
			t := l.text(r)
			if len(t) > 10000 && strings.Count(t, "\x1b") > 50 {
				continue // many unfinished sequences are looked through again and again
			}
			switch r.Intn(6) {
			case 0:
				if len(t) < 5000 {
					t = damage(r, t)
				}
			case 1:
				t += truncated(r, l.p, l.alpha)
			case 2:
				t = bit(r) + t
			}
			total += len(t)
			x := a
			if len(t) > 2000 {
				x = plain
			}
			if f := x.all(t, i%8 == 0); f != nil {
				x.report(name, f)
			}
		}
		plain.runs += a.runs
		return plain.runs
	})
}

// suiteLitStreams: texts about the constants, in pieces and buffers of such sizes (C07, C08)
func suiteLitStreams(s *seg, n int, fault bool) {
	l := newLitTexts(s, 1<<18)
	name := s.label() + ": constants of the code as sizes of tokens, pieces and buffers"
	parallel(name, func(w int, r *rand.Rand) int64 {
		z := newStreamer(s)
		total := 0
		for i := w; i < n && total < pickN(12<<20, 120<<20) && !stopped(); i += nWorkers {
			t := l.text(r)
			if fault {
				t = t[:len(t)-r.Intn(1+minInt(len(t), 12))]
			} else if r.Intn(8) == 0 && len(t) < 5000 {
				t = damage(r, t)
			}
			total += len(t)
			var sch []readStep
			piece := l.size(r)
			for left := len(t); left > 0; {
				k := piece
				if r.Intn(3) == 0 {
					k = 1 + r.Intn(1+left)
				}
				if k > left || len(sch) > 40 {
					k = left
				}
				sch = append(sch, readStep{k, "open"})
				left -= k
			}
			end := "eof"
			if fault {
				end = "err"
				z.rdErr = faultErrs[r.Intn(len(faultErrs))]
			}
			if len(sch) > 0 && r.Intn(2) == 0 {
				sch[len(sch)-1].End = end
			} else {
				sch = append(sch, readStep{0, end})
			}
			cap0 := l.size(r)
			if r.Intn(4) == 0 || cap0 > 1<<20 {
				cap0 = 1 + r.Intn(64)
			}
			if f := z.schedule(t, sch, cap0, len(t)+4096); f != nil {
				z.report(name, f, nil)
			}
		}
		return z.runs
	})
}
