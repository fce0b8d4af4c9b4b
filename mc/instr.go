package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const repoMod = "github.com/xconnio/wampproto-go"
const shimPkg = repoMod + "/verifshim/"

// shims: standard package -> replacement
var shims = map[string]string{
	"sync":                  "vsync",
	"sync/atomic":           "vatomic",
	"math/rand":             "vrand",
	"math/rand/v2":          "vrandv2",
	"golang.org/x/exp/rand": "vxrand",
	"crypto/rand":           "vcrand",
}

type edit struct {
	off, del int
	text     string
}

// instrument writes to dir a copy of the library with a scheduling point before
// every statement, and the overlay file that makes the build use it.
func instrument(repo, shimDir, dir string, randShims bool) (overlay string, files int, err error) {
	exported := map[string]map[string]bool{}
	repl := map[string]string{}
	for _, p := range shims {
		names := map[string]bool{}
		srcs, _ := filepath.Glob(filepath.Join(shimDir, p, "*.go"))
		for _, s := range srcs {
			repl[filepath.Join(repo, "verifshim", p, filepath.Base(s))] = s
			f, err := parser.ParseFile(token.NewFileSet(), s, nil, 0)
			if err != nil {
				return "", 0, err
			}
			for n := range f.Scope.Objects {
				names[n] = true
			}
		}
		exported[p] = names
	}
	srcs, _ := filepath.Glob(filepath.Join(shimDir, "vsched", "*.go"))
	for _, s := range srcs {
		repl[filepath.Join(repo, "verifshim", "vsched", filepath.Base(s))] = s
	}
	err = filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			n := info.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || rel == "tests") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		point := "Point"
		switch strings.Split(filepath.ToSlash(rel), "/")[0] {
		case "auth", "messages", "serializers", "util", "transports":
			point = "PointX"
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, err := instrumentFile(path, src, point, randShims, exported)
		if err != nil {
			return err
		}
		dst := filepath.Join(dir, "src", strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		repl[path] = dst
		files++
		return nil
	})
	if err != nil {
		return "", 0, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, files, os.WriteFile(overlay, b, 0o644)
}

func instrumentFile(name string, src []byte, point string, randShims bool, exported map[string]map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(p token.Pos, text string) { edits = append(edits, edit{at(p), 0, text}) }
	add(f.Name.End(), fmt.Sprintf("; import vsched__ %q", shimPkg+"vsched"))

	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[path]
		if !ok || (!randShims && strings.Contains(path, "rand")) {
			continue
		}
		local := filepath.Base(path)
		if path == "math/rand/v2" {
			local = "rand"
		}
		if im.Name != nil {
			local = im.Name.Name
			if local == "_" || local == "." {
				continue
			}
		}
		known := true
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == local && x.Obj == nil && !exported[sh][s.Sel.Name] {
					known = false
				}
			}
			return true
		})
		if !known {
			continue
		}
		text := strconv.Quote(shimPkg + sh)
		if im.Name == nil {
			text = local + " " + text
		}
		edits = append(edits, edit{at(im.Path.Pos()), len(im.Path.Value), text})
	}

	pt := fmt.Sprintf("vsched__.%s(); ", point)
	inside := map[ast.Expr]bool{} // moved: no edits within
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.EmptyStmt:
				continue
			case *ast.GoStmt:
				// go f(a, b)  =>  { x0, x1 := a, b; vsched__.Go(func() { f(x0, x1) }) }
				pre := pt + "{ "
				for i, a := range x.Call.Args {
					if _, lit := a.(*ast.BasicLit); lit {
						continue
					}
					if id, ok := a.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					v := fmt.Sprintf("vsched__x%d", i)
					pre += fmt.Sprintf("%s := %s; ", v, src[at(a.Pos()):at(a.End())])
					edits = append(edits, edit{at(a.Pos()), at(a.End()) - at(a.Pos()), v})
					inside[a] = true
				}
				edits = append(edits, edit{at(x.Pos()), 2, pre + "vsched__.Go(func() {"})
				add(x.Call.End(), "}) }")
				continue
			}
			add(s.Pos(), pt)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok && inside[e] {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return nil, fmt.Errorf("%s: overlapping edits", name)
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.off + e.del
	}
	out.Write(src[pos:])
	fmt.Fprintf(&out, "\n\nvar _ = vsched__.%s\n", point)
	return out.Bytes(), nil
}

// instrCmd writes an instrumented overlay (for development).
func instrCmd(dir string) {
	o, n, err := instrument("/repo", filepath.Join(mcDir(envOr("VERIF_ROOT", "/verif")), "_shim"), dir, true)
	fmt.Println(o, n, err)
}
