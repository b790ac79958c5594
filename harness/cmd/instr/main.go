// Command instr writes an overlay for go build in which every statement of
// the packages ipv4 and ipv6 is preceded by a scheduling point, so that the
// sched profile of drv decides which of several overlapping calls runs when.
// The source tree is not touched and the code is otherwise compiled as it is.
//
//	instr REPO OUTDIR    writes OUTDIR/overlay.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func instrument(src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	sort.Ints(at)
	var out []byte
	done := 0
	for _, p := range at {
		out = append(out, src[done:p]...)
		out = append(out, "verifSchedPoint_(); "...)
		done = p
	}
	return append(out, src[done:]...), nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	for _, pkg := range []string{"ipv4", "ipv6"} {
		files, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		check(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			res, err := instrument(src)
			check(err)
			g := filepath.Join(out, pkg+"_"+filepath.Base(f))
			check(os.WriteFile(g, res, 0o644))
			replace[f] = g
		}
		g := filepath.Join(out, pkg+"_point.go")
		check(os.WriteFile(g, []byte("package "+pkg+`

// VerifSchedHook_ is called before every statement.
var VerifSchedHook_ func()

func verifSchedPoint_() {
	if VerifSchedHook_ != nil {
		VerifSchedHook_()
	}
}
`), 0o644))
		replace[filepath.Join(repo, pkg, "zz_verif_sched_point.go")] = g
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}
