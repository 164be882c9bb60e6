package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// repoDir is the directory of the module under test, from the replace directive of the harness module.
func repoDir(harness string) string {
	b, _ := os.ReadFile(filepath.Join(harness, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "github.com/axgrid/axutils => "); i >= 0 {
			d := strings.TrimSpace(l[i+len("github.com/axgrid/axutils => "):])
			if !filepath.IsAbs(d) {
				d = filepath.Join(harness, d)
			}
			return d
		}
	}
	return "/repo"
}

// instrument writes copies of the sources under test with a scheduling point before every statement to dir and
// returns the overlay entries. With vsync the sync package is replaced by vpsched/vsync.
func instrument(repo, dir string, vsync bool) (map[string]string, error) {
	out := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, err := instrumentFile(p, src, vsync)
		if err != nil {
			return nil // the build reports it
		}
		q := filepath.Join(dir, fmt.Sprintf("i%d.go", n))
		n++
		if err := os.WriteFile(q, res, 0o644); err != nil {
			return err
		}
		out[p] = q
		return nil
	})
	return out, err
}

func instrumentFile(name string, src []byte, vsync bool) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		off, end int
		txt      string
	}
	var ed []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				continue
			}
			ed = append(ed, edit{off(s.Pos()), off(s.Pos()), "vpsched.P();"})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			// the bodies of switch and select hold clauses
			for _, s := range b.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(b.List)
		case *ast.CaseClause:
			list(b.Body)
		case *ast.CommClause:
			list(b.Body)
		}
		return true
	})
	if len(ed) == 0 {
		return src, nil
	}
	ed = append(ed, edit{off(f.Name.End()), off(f.Name.End()), `; import vpsched "vpharness/vpsched"`})
	if vsync {
		for _, i := range f.Imports {
			if i.Path.Value == `"sync"` {
				t := `"vpharness/vpsched/vsync"`
				if i.Name == nil {
					t = "sync " + t
				}
				ed = append(ed, edit{off(i.Path.Pos()), off(i.Path.End()), t})
			}
		}
	}
	sort.SliceStable(ed, func(i, j int) bool { return ed[i].off < ed[j].off })
	var out []byte
	last := 0
	for _, e := range ed {
		out = append(out, src[last:e.off]...)
		out = append(out, e.txt...)
		last = e.end
	}
	return append(out, src[last:]...), nil
}
