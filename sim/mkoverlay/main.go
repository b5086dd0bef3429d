// mkoverlay writes a go build overlay for the stfs module in which the
// synchronisation the simulator must own (sync.Mutex, sync.RWMutex, go
// statements) is routed through pkg/simrt. It is regenerated from the working
// tree on every check, so it follows whatever the code currently is; nothing
// in the repository is modified.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "mkoverlay:", err)
	os.Exit(2)
}

func main() {
	repo, src, out := os.Args[1], os.Args[2], os.Args[3] // repo, overlay sources, output dir
	replace := map[string]string{}
	for _, f := range []string{"simrt", "race", "norace"} {
		replace[filepath.Join(repo, "pkg/simrt", f+".go")] = filepath.Join(src, f+".go.src")
	}
	n := 0
	for _, top := range []string{"pkg", "internal"} {
		err := filepath.Walk(filepath.Join(repo, top), func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			nb, changed, err := rewrite(p, b)
			if err != nil {
				return err
			}
			if !changed {
				return nil
			}
			n++
			dst := filepath.Join(out, fmt.Sprintf("f%03d_%s", n, filepath.Base(p)))
			if err := os.WriteFile(dst, nb, 0o644); err != nil {
				return err
			}
			replace[p] = dst
			return nil
		})
		if err != nil {
			fail(err)
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fail(err)
	}
	fmt.Printf("overlay: %d files rewritten\n", n)
}

func rewrite(path string, b []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	syncName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			syncName = "sync"
			if im.Name != nil {
				syncName = im.Name.Name
			}
		}
	}
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && id.Obj == nil {
				if x.Sel.Name == "Mutex" || x.Sel.Name == "RWMutex" {
					edits = append(edits, edit{off(id.Pos()), off(id.End()), "simrt"})
				}
			}
		case *ast.GoStmt:
			// go f(a, b...)  ->  { a0, a1 := a, b; simrt.Go(func() { f(a0, a1...) }) }
			call := x.Call
			pre := "{ "
			var calls []string
			simple := true
			for i, a := range call.Args {
				txt := string(b[off(a.Pos()):off(a.End())])
				switch a.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					calls = append(calls, txt)
					continue
				}
				if txt == "nil" || txt == "true" || txt == "false" {
					calls = append(calls, txt)
					continue
				}
				v := fmt.Sprintf("simArg%d", i)
				pre += v + " := " + txt + "; "
				calls = append(calls, v)
				simple = false
			}
			_ = simple
			fun := call.Fun
			ell := ""
			if call.Ellipsis.IsValid() {
				ell = "..."
			}
			tail := "(" + strings.Join(calls, ", ") + ell + ") }) }"
			if _, isLit := fun.(*ast.FuncLit); isLit {
				edits = append(edits, edit{off(x.Pos()), off(fun.Pos()), pre + "simrt.Go(func() { "})
				edits = append(edits, edit{off(fun.End()), off(x.End()), tail})
			} else {
				ft := string(b[off(fun.Pos()):off(fun.End())])
				edits = append(edits, edit{off(x.Pos()), off(x.End()), pre + "simFn := " + ft + "; simrt.Go(func() { simFn" + tail})
				return false
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var sb strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			return nil, false, fmt.Errorf("%s: overlapping edits", path)
		}
		sb.Write(b[pos:e.from])
		sb.WriteString(e.text)
		pos = e.to
	}
	sb.Write(b[pos:])
	res := sb.String()
	// imports
	pkgEnd := off(f.Name.End())
	res = res[:pkgEnd] + "; import simrt \"github.com/pojntfx/stfs/pkg/simrt\"" + res[pkgEnd:]
	if syncName != "" {
		res += "\nvar _ " + syncName + ".Locker\n"
	}
	return []byte(res), true, nil
}
