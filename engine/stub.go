package main

// Stubs at the boundary of the code under test. A property may name functions (of /repo or of a
// dependency) that stand for the outside world: an RPC call, a sleep, the response writer. They get a
// hook variable (VStub_<Recv>_<Func>) that a harness sets; everything else is the code of /repo as it
// is. Engine and native replay use the same rewritten source.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type StubSpec struct {
	Pkg   string            `json:"pkg"`   // directory in /repo, or the import path of a dependency
	Fns   []string          `json:"fns"`   // Func or Recv.Func
	Calls map[string]string `json:"calls"` // package level calls "time.Sleep" -> a function of the harness
	Extra string            `json:"extra"` // declarations added to the package (a window on something unexported)
}

type edit struct {
	at, end int
	text    string
}

func applyEdits(src []byte, eds []edit) []byte {
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
	var b bytes.Buffer
	pos := 0
	for _, e := range eds {
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return b.Bytes()
}

func pkgDir(pkg string) (string, error) {
	if !strings.Contains(strings.SplitN(pkg, "/", 2)[0], ".") || pkg == "." {
		return filepath.Join(repoDir, pkg), nil
	}
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", pkg)
	cmd.Dir = repoDir
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("go list %s: %v", pkg, err)
	}
	return strings.TrimSpace(string(out)), nil
}

// stubFiles returns the rewritten sources of the packages with stubs.
func stubFiles(spec *PropSpec) (map[string][]byte, error) {
	out := map[string][]byte{}
	for _, st := range spec.Stubs {
		dir, err := pkgDir(st.Pkg)
		if err != nil {
			return nil, err
		}
		want := map[string]bool{}
		for _, f := range st.Fns {
			want[f] = false
		}
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src := out[f]
			if src == nil {
				if src, err = os.ReadFile(f); err != nil {
					return nil, err
				}
			}
			n, changed, err := stubFile(f, src, want, st.Calls)
			if err != nil {
				return nil, err
			}
			if changed {
				if st.Extra != "" {
					n = append(append(n, '\n'), st.Extra...)
					st.Extra = ""
				}
				out[f] = n
			}
		}
		for _, f := range st.Fns {
			if !want[f] {
				return nil, fmt.Errorf("%s: no function %s to stand in for", st.Pkg, f)
			}
		}
	}
	return out, nil
}

func stubFile(name string, src []byte, want map[string]bool, calls map[string]string) ([]byte, bool, error) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var eds []edit
	var vars, keep []string
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		key, recvT, recvN := fd.Name.Name, "", ""
		if fd.Recv != nil {
			r := fd.Recv.List[0]
			recvT = text(r.Type)
			key = strings.TrimPrefix(recvT, "*") + "." + key
		}
		if _, ok := want[key]; !ok {
			continue
		}
		want[key] = true
		var types, args []string
		if fd.Recv != nil {
			r := fd.Recv.List[0]
			switch {
			case len(r.Names) == 0:
				recvN = "vpRecv"
				eds = append(eds, edit{off(r.Type.Pos()), off(r.Type.Pos()), recvN + " "})
			case r.Names[0].Name == "_":
				recvN = "vpRecv"
				eds = append(eds, edit{off(r.Names[0].Pos()), off(r.Names[0].End()), recvN})
			default:
				recvN = r.Names[0].Name
			}
			types, args = append(types, recvT), append(args, recvN)
		}
		k := 0
		for _, p := range fd.Type.Params.List {
			t := text(p.Type)
			suffix := ""
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				suffix = "..."
			}
			if len(p.Names) == 0 {
				n := fmt.Sprintf("vp%d", k)
				k++
				eds = append(eds, edit{off(p.Type.Pos()), off(p.Type.Pos()), n + " "})
				types, args = append(types, t), append(args, n+suffix)
			}
			for _, id := range p.Names {
				n := id.Name
				if n == "_" {
					n = fmt.Sprintf("vp%d", k)
					k++
					eds = append(eds, edit{off(id.Pos()), off(id.End()), n})
				}
				types, args = append(types, t), append(args, n+suffix)
			}
		}
		res := ""
		if fd.Type.Results != nil {
			res = " " + text(fd.Type.Results)
		}
		v := "VStub_" + strings.ReplaceAll(key, ".", "_")
		vars = append(vars, fmt.Sprintf("var %s func(%s)%s\n", v, strings.Join(types, ", "), res))
		call := v + "(" + strings.Join(args, ", ") + ")"
		body := "return " + call
		if res == "" {
			body = call + "; return"
		}
		at := off(fd.Body.Lbrace) + 1
		eds = append(eds, edit{at, at, " if " + v + " != nil { " + body + " };"})
	}
	if len(calls) > 0 {
		imports := map[string]string{} // local name -> import path's last element
		for _, im := range af.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			imports[n] = filepath.Base(p)
		}
		used := map[string]bool{}
		ast.Inspect(af, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if !ok || id.Obj != nil || imports[id.Name] == "" {
				return true
			}
			to, ok := calls[imports[id.Name]+"."+s.Sel.Name]
			if !ok {
				return true
			}
			eds = append(eds, edit{off(s.Pos()), off(s.End()), to})
			if q := id.Name + "." + s.Sel.Name; !used[q] {
				used[q] = true
				keep = append(keep, "var _ = "+q+"\n")
			}
			return true
		})
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	n := applyEdits(src, eds)
	n = append(n, '\n')
	for _, l := range append(vars, keep...) {
		n = append(n, l...)
	}
	return n, true, nil
}

// dropIntrinsics: a function with a stand-in is run as rewritten, not as the engine would model it.
func dropIntrinsics(spec *PropSpec) {
	for _, st := range spec.Stubs {
		path := st.Pkg
		if !strings.Contains(strings.SplitN(path, "/", 2)[0], ".") || path == "." {
			path = strings.TrimSuffix("github.com/dappnode/mev-sp-oracle/"+path, "/.")
		}
		for _, f := range st.Fns {
			if r, n, ok := strings.Cut(f, "."); ok {
				delete(intrs, "("+path+"."+r+")."+n)
				delete(intrs, "(*"+path+"."+r+")."+n)
			} else {
				delete(intrs, path+"."+f)
			}
		}
		if st.Extra != "" {
			for n := range intrs {
				if strings.HasPrefix(n, path+".") {
					delete(intrs, n)
				}
			}
		}
	}
}
