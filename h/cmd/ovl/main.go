// ovl makes overlay of the repository sources, in which synchronization is
// replaced by controlled one: ovl <repo> <output folder>.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var subst = map[string][2]string{
	"sync":        {"sync", "vh/vsync"},
	"sync/atomic": {"atomic", "vh/vatomic"},
}

// everyStatement tells that other thread can be chosen before each statement of the file:
// these sources have no synchronization, but threads meet at the objects of system.
func everyStatement(dir, name string) bool {
	return dir == "bulk" || dir == "mmap" || dir == "fsys" || dir == "." && name == "union.go"
}

// withPoints inserts scheduling point before each statement of functions.
func withPoints(src []byte) (string, error) {
	var fset = token.NewFileSet()
	var f, err = parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return "", err
	}
	var offs = map[int]bool{}
	var put = func(list []ast.Stmt) {
		for _, st := range list {
			offs[fset.Position(st.Pos()).Offset] = true
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SwitchStmt: // list has cases only
					for _, st := range n.Body.List {
						put(st.(*ast.CaseClause).Body)
					}
				case *ast.TypeSwitchStmt:
					for _, st := range n.Body.List {
						put(st.(*ast.CaseClause).Body)
					}
				case *ast.SelectStmt:
					for _, st := range n.Body.List {
						put(st.(*ast.CommClause).Body)
					}
				case *ast.BlockStmt:
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					put(n.List)
				}
				return true
			})
		}
	}
	var list []int
	for off := range offs {
		list = append(list, off)
	}
	sort.Ints(list)
	var res = string(src)
	for i := len(list) - 1; i >= 0; i-- {
		res = res[:list[i]] + `vhpoint.Point("statement"); ` + res[list[i]:]
	}
	var at = fset.Position(f.Name.End()).Offset
	return res[:at] + `; import vhpoint "vh/vsync"` + res[at:] + "\nvar _ = vhpoint.Point\n", nil
}

func main() {
	var repo, out = os.Args[1], os.Args[2]
	var repl = map[string]string{}
	for _, dir := range []string{".", "util", "bulk", "mmap", "fsys"} {
		var list, err = filepath.Glob(filepath.Join(repo, dir, "*.go"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, fpath := range list {
			if strings.HasSuffix(fpath, "_test.go") {
				continue
			}
			var src, err = os.ReadFile(fpath)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			var fset = token.NewFileSet()
			var f, err2 = parser.ParseFile(fset, fpath, src, parser.ImportsOnly)
			if err2 != nil {
				fmt.Fprintln(os.Stderr, err2)
				os.Exit(1)
			}
			var res = string(src)
			if everyStatement(dir, filepath.Base(fpath)) {
				if text, err := withPoints(src); err == nil {
					res = text
					// positions of imports are the same lines, parse it once more
					fset = token.NewFileSet()
					if f, err = parser.ParseFile(fset, fpath, res, parser.ImportsOnly); err != nil {
						fmt.Fprintln(os.Stderr, err)
						os.Exit(1)
					}
				}
			}
			for i := len(f.Imports) - 1; i >= 0; i-- {
				var spec = f.Imports[i]
				var p, _ = strconv.Unquote(spec.Path.Value)
				var s, ok = subst[p]
				if !ok {
					continue
				}
				var text = strconv.Quote(s[1])
				if spec.Name == nil {
					text = s[0] + " " + text
				}
				var from, to = fset.Position(spec.Path.Pos()).Offset, fset.Position(spec.Path.End()).Offset
				res = res[:from] + text + res[to:]
			}
			if res == string(src) {
				continue
			}
			var name = filepath.Join(out, strings.NewReplacer("/", "_").Replace(dir+"_"+filepath.Base(fpath)))
			if err = os.WriteFile(name, []byte(res), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			var abs, _ = filepath.Abs(fpath)
			var absName, _ = filepath.Abs(name)
			repl[abs] = absName
		}
	}
	var b, _ = json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
