package main

import (
	"go/ast"
	goconst "go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// codeConstants: the whole numbers written in the sources of the generator. They choose what it is tried
// on, never what is right.
func codeConstants() (out []uint64) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	seen := map[uint64]bool{}
	for _, dir := range []string{"internal/gen", "internal/gen/triegen"} {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, name := range files {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, name, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.CompositeLit:
					return len(n.Elts) <= 128
				case *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr:
					tv, err := types.Eval(fset, nil, token.NoPos, types.ExprString(n.(ast.Expr)))
					if err != nil || tv.Value == nil || tv.Value.Kind() != goconst.Int {
						break
					}
					if v, ok := goconst.Uint64Val(tv.Value); ok && v > 1 && len(seen) < 400 {
						seen[v] = true
					}
				}
				return true
			})
		}
	}
	for v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// sizeOf: a constant, or one next to it, from lo to hi; two in three times the next of those that ordinary inputs do not
// reach, else any of the others
func sizeOf(r *rand.Rand, cs []uint64, lo, hi int) int {
	var small, big []int
	for _, c := range cs {
		for d := uint64(0); d < 3; d++ {
			if v := c + 2 - d; v >= uint64(lo) && v <= uint64(hi) {
				if v > 130 {
					big = append(big, int(v))
				} else {
					small = append(small, int(v))
				}
			}
		}
	}
	if len(big) > 0 && (len(small) == 0 || r.Intn(3) > 0) {
		// the one just above each of them first
		n := turn[hi]
		turn[hi]++
		k := len(big) / 3
		if k == 0 {
			k = 1
		}
		return big[(len(big)-1-n%k*3-2+n/k%3+3*len(big))%len(big)]
	}
	if len(small) > 0 {
		return small[r.Intn(len(small))]
	}
	return lo
}

var turn = map[int]int{}
