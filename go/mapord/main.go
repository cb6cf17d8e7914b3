// Command mapord prepares a build in which every range over a map goes in an
// order chosen by the environment variable PGVMC_ORDER: mapord repo outdir.
// It writes outdir/overlay.json and prints "sites skipped".
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const helper = `package verifmc

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
)

// KV is an entry of a map being ranged over.
type KV struct{ m, k reflect.Value }

func (e KV) Live() bool { return e.m.MapIndex(e.k).IsValid() }
func (e KV) K() interface{} { return e.k.Interface() }
func (e KV) V() interface{} { return e.m.MapIndex(e.k).Interface() }

// Range returns the entries of a map: sorted, then in the PGVMC_ORDER-th
// permutation (rotations and their reverses beyond six keys).
func Range(m interface{}) []KV {
	var out []KV
	v := reflect.ValueOf(m)
	for _, k := range v.MapKeys() {
		out = append(out, KV{v, k})
	}
	name := func(i int) string {
		if s, ok := out[i].K().(interface{ String() string }); ok {
			return s.String()
		}
		return fmt.Sprint(out[i].K())
	}
	sort.Slice(out, func(i, j int) bool { return name(i) < name(j) })
	n, _ := strconv.Atoi(os.Getenv("PGVMC_ORDER"))
	if len(out) > 6 {
		r := n % len(out)
		out = append(append([]KV{}, out[r:]...), out[:r]...)
		if n/len(out)%2 == 1 {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
		return out
	}
	var res []KV
	rest := append([]KV{}, out...)
	for len(rest) > 0 {
		i := n % len(rest)
		n /= len(rest)
		res = append(res, rest[i])
		rest = append(append([]KV{}, rest[:i]...), rest[i+1:]...)
	}
	return res
}
`

type pkg struct {
	Dir, ImportPath, Export, Name string
	GoFiles                       []string
	Module                        *struct{ Path, Dir string }
	ImportMap                     map[string]string
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Export,Name,GoFiles,Module,ImportMap", ".")
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	raw, err := cmd.Output()
	if err != nil {
		fmt.Fprint(os.Stderr, eb.String())
	}
	must(err)
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	main := ""
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
		if p.Name == "main" {
			main = p.Module.Path
		}
	}
	replace := map[string]string{}
	sites, skipped := 0, 0
	for _, p := range pkgs {
		if p.Module == nil || (p.Module.Path != main && p.Module.Path != "github.com/lyft/protoc-gen-star") || strings.HasSuffix(p.ImportPath, "/validate") {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, g := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.ParseComments)
			must(err)
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if q, ok := p.ImportMap[path]; ok {
				path = q
			}
			return os.Open(exports[path])
		})}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		must(err)
		for i, f := range files {
			imports := map[string]string{} // path -> name
			for _, im := range f.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				for _, q := range tp.Imports() {
					if q.Path() == path {
						imports[path] = q.Name()
					}
				}
				if im.Name != nil {
					imports[path] = im.Name.Name
				}
			}
			n := 0
			ast.Inspect(f, func(x ast.Node) bool {
				rs, ok := x.(*ast.RangeStmt)
				if !ok {
					return true
				}
				mt, ok := info.Types[rs.X].Type.Underlying().(*types.Map)
				if !ok {
					return true
				}
				bad := false
				name := func(t types.Type) ast.Expr {
					ts := types.TypeString(t, func(q *types.Package) string {
						if q == tp {
							return ""
						}
						nm, ok := imports[q.Path()]
						if !ok || nm == "_" {
							bad = true
						}
						return nm
					})
					e, err := parser.ParseExpr(ts)
					if err != nil {
						bad = true
					}
					return e
				}
				var pre []ast.Stmt
				ent := ast.NewIdent(fmt.Sprintf("mcKV%d", n))
				call := func(m string) ast.Expr {
					return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ent, Sel: ast.NewIdent(m)}}
				}
				pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call("Live")},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
				for _, x := range []struct {
					l ast.Expr
					m string
					t types.Type
				}{{rs.Key, "K", mt.Key()}, {rs.Value, "V", mt.Elem()}} {
					if id, ok := x.l.(*ast.Ident); ok && id.Name != "_" {
						pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id, ast.NewIdent("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: call(x.m), Type: name(x.t)}}})
					}
				}
				if bad || (rs.Tok != token.DEFINE && rs.Tok != token.ILLEGAL) {
					skipped++
					return true
				}
				n++
				rs.Body.List = append(pre, rs.Body.List...)
				rs.Key, rs.Value, rs.Tok = ast.NewIdent("_"), ent, token.DEFINE
				rs.X = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifmc"), Sel: ast.NewIdent("Range")}, Args: []ast.Expr{rs.X}}
				return true
			})
			if n == 0 {
				continue
			}
			sites += n
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(main + "/verifmc")}}}}}, f.Decls...)
			f.Comments = nil
			var b bytes.Buffer
			must(format.Node(&b, token.NewFileSet(), f))
			dst := filepath.Join(out, fmt.Sprintf("%d-%s", len(replace), p.GoFiles[i]))
			must(os.WriteFile(dst, b.Bytes(), 0o644))
			replace[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	h := filepath.Join(out, "verifmc.go")
	must(os.WriteFile(h, []byte(helper), 0o644))
	replace[filepath.Join(repo, "verifmc", "verifmc.go")] = h
	b, err := json.Marshal(map[string]interface{}{"Replace": replace})
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println(sites, skipped)
}
