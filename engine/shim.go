package main

// For replays of crash points: the native build intercepts the file operations of the package under
// test (package level functions of os and io/ioutil), so that the process can "die" at any of them.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var shimFns = map[string]bool{"MkdirAll": true, "Mkdir": true, "WriteFile": true, "Rename": true, "Remove": true, "RemoveAll": true,
	"Create": true, "CreateTemp": true, "TempFile": true, "OpenFile": true}

// shimFiles returns rewritten copies of the Go files of dir whose file operations go through vFs* wrappers.
func shimFiles(dir string, have map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(repoDir, dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := have[f], error(nil)
		if src == nil {
			src, err = os.ReadFile(f)
		}
		if err != nil {
			continue
		}
		if b := shimSource(f, src); b != nil {
			out[f] = b
		}
	}
	return out
}

// shimSource: one file; nil if there is nothing to intercept in it.
func shimSource(f string, src []byte) []byte {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f, src, 0)
	if err != nil {
		return nil
	}
	names := map[string]bool{}
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p != "os" && p != "io/ioutil" {
			continue
		}
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		names[n] = true
	}
	var eds []edit
	used := map[string]string{}
	ast.Inspect(af, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 0 {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Sync" {
				from, mid, to := fset.Position(s.X.Pos()).Offset, fset.Position(s.X.End()).Offset, fset.Position(c.End()).Offset
				eds = append(eds, edit{from, from, "vFsSync("}, edit{mid, to, ")"})
				return false
			}
		}
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || !names[id.Name] || id.Obj != nil || !shimFns[s.Sel.Name] {
			return true
		}
		eds = append(eds, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset, "vFs" + s.Sel.Name})
		used[id.Name] = s.Sel.Name
		return true
	})
	if len(eds) == 0 {
		return nil
	}
	var b bytes.Buffer
	b.Write(applyEdits(src, eds))
	b.WriteString("\n")
	for n, fn := range used {
		fmt.Fprintf(&b, "var _ = %s.%s\n", n, fn)
	}
	return b.Bytes()
}
