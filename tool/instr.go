package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookImport = "github.com/KSpaceer/yamly/zzverifsched"

var simulatedSync = map[string]bool{
	"Pool": true, "Mutex": true, "RWMutex": true, "Once": true,
	"OnceFunc": true, "OnceValue": true, "OnceValues": true,
}

// instrument returns src with a yield point in front of every statement and
// with sync primitives replaced by simulated ones. Line numbers are kept.
func instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		off, end int
		text     string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// Position() honours //line directives for lines, not for offsets
	yield := func(p token.Pos) { edits = append(edits, edit{off(p), off(p), "zzv.Y(); "}) }
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			yield(s.Pos())
		}
	}
	syncName, usesSync := "", false
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			syncName = "sync"
			if imp.Name != nil {
				syncName = imp.Name.Name
			}
		}
	}
	caseBodies := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			caseBodies[n.Body] = true
		case *ast.TypeSwitchStmt:
			caseBodies[n.Body] = true
		case *ast.SelectStmt:
			caseBodies[n.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if !caseBodies[n] {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				edits = append(edits, edit{off(n.Body.Lbrace) + 1, off(n.Body.Lbrace) + 1, " zzv.Y(); "})
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				edits = append(edits, edit{off(n.Body.Lbrace) + 1, off(n.Body.Lbrace) + 1, " zzv.Y(); "})
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && syncName != "" && id.Name == syncName && simulatedSync[n.Sel.Name] {
				edits = append(edits, edit{off(id.Pos()), off(id.End()), "zzv"})
				usesSync = true
			}
		}
		return true
	})
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import zzv \"" + hookImport + "\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.off < at {
			return nil, fmt.Errorf("%s: overlapping edits", name)
		}
		out.Write(src[at:e.off])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	out.WriteString("\nvar _ = zzv.Y\n")
	if usesSync {
		out.WriteString("var _ " + syncName + ".Locker\n")
	}
	if _, err := parser.ParseFile(token.NewFileSet(), name, out.Bytes(), 0); err != nil {
		return nil, fmt.Errorf("instrumented %s does not parse: %w", name, err)
	}
	return out.Bytes(), nil
}

// instrumentTree instruments all non-test Go files below root whose relative
// path keep accepts; the copies go to dst and are added to the overlay.
func instrumentTree(root, dst string, keep func(rel string) bool, overlay map[string]string) (int, error) {
	n := 0
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || !keep(rel) {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, err := instrument(p, src)
		if err != nil {
			return err
		}
		to := filepath.Join(dst, strings.ReplaceAll(rel, "/", "__"))
		n++
		overlay[p] = to
		return os.WriteFile(to, out, 0o644)
	})
	return n, err
}
