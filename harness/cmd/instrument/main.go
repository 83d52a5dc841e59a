// instrument REPO OUTDIR writes copies of the package's files with a scheduling point before every statement and the
// scheduler's stand-ins for sync and sync/atomic, and OUTDIR/overlay.json for go build -overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

type edit struct {
	off  int
	text string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	must(os.MkdirAll(out, 0o755))
	ents, err := os.ReadDir(repo)
	must(err)
	ov := map[string]string{}
	points := 0
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(repo, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(repo, n))
		must(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		must(err)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var ed []edit
		ed = append(ed, edit{off(f.Name.End()), `; import verifsched "verif/harness/sched"; `})
		for _, im := range f.Imports {
			r := map[string][2]string{`"sync"`: {"sync", "ssync"}, `"sync/atomic"`: {"atomic", "satomic"}}[im.Path.Value]
			if r[0] == "" {
				continue
			}
			t := `"verif/harness/sched/` + r[1] + `"`
			if im.Name == nil {
				t = r[0] + " " + t
			}
			s := off(im.Path.Pos())
			copy(src[s:], strings.Repeat(" ", len(im.Path.Value)))
			ed = append(ed, edit{s, t})
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				points++
				ed = append(ed, edit{off(s.Pos()), "verifsched.P(); "})
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.FuncDecl:
				if b.Body != nil && len(b.Body.List) > 0 {
					ed = append(ed, edit{off(b.Body.List[0].Pos()), "verifsched.F(); "})
				}
			case *ast.FuncLit:
				if len(b.Body.List) > 0 {
					ed = append(ed, edit{off(b.Body.List[0].Pos()), "verifsched.F(); "})
				}
			case *ast.BlockStmt:
				// the clauses of switch and select are no statements of their own
				for _, s := range b.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(b.List)
			case *ast.CaseClause:
				stmts(b.Body)
			case *ast.CommClause:
				stmts(b.Body)
			}
			return true
		})
		sort.SliceStable(ed, func(i, j int) bool { return ed[i].off < ed[j].off })
		var sb strings.Builder
		at := 0
		for _, x := range ed {
			sb.Write(src[at:x.off])
			sb.WriteString(x.text)
			at = x.off
		}
		sb.Write(src[at:])
		sb.WriteString("\nvar _ = verifsched.P\n")
		dst := filepath.Join(out, n)
		must(os.WriteFile(dst, []byte(sb.String()), 0o644))
		ov[filepath.Join(repo, n)] = dst
	}
	stored(out, ov)
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println(points, "points in", len(ov), "files")
}

// stored makes archive/zip write its entries as stored deflate blocks: compressing under the race detector is what most of
// the time would go into, and what the package writes into an entry stays the same.
func stored(out string, ov map[string]string) {
	p := filepath.Join(runtime.GOROOT(), "src/archive/zip/register.go")
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	const at = "func newFlateWriter(w io.Writer) io.WriteCloser {"
	s := strings.Replace(string(b), at, at+"\n\tif true {\n\t\treturn &storedWriter{w: w}\n\t}", 1)
	if s == string(b) {
		return
	}
	s += `
type storedWriter struct {
	w io.Writer
	b []byte
}

func (w *storedWriter) Write(p []byte) (int, error) { w.b = append(w.b, p...); return len(p), nil }

func (w *storedWriter) Close() error {
	for {
		n := len(w.b)
		final := byte(1)
		if n > 65535 {
			n, final = 65535, 0
		}
		h := [5]byte{final, byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}
		if _, err := w.w.Write(h[:]); err != nil {
			return err
		}
		if _, err := w.w.Write(w.b[:n]); err != nil {
			return err
		}
		w.b = w.b[n:]
		if final == 1 {
			return nil
		}
	}
}
`
	dst := filepath.Join(out, "zip_register.go")
	must(os.WriteFile(dst, []byte(s), 0o644))
	ov[p] = dst
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
