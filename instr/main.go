// Command instr instruments a copy of the program for deterministic simulation, in place.
//
// It inserts a yield before every statement, and puts the simulator's seams under package
// sync, go statements, iteration over maps, the clock, and runtime.Gosched. It works on the
// text, keeping lines where they were, and never on the form of the code under test.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/dball/destructive"
const rt = module + "/internal/zsim/simrt"
const ss = module + "/internal/zsim/simsync"

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
}

type edit struct {
	at   int
	del  int
	text string
	seq  int
}

func main() {
	dir := flag.String("dir", ".", "the root of the copy")
	level := flag.Int("level", 3, "0: seams under sync and go only, 1: and yields, 2: and everything else but channels, 3: and channels")
	flag.Parse()
	err := run(*dir, *level)
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run(dir string, level int) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p pkg
		err := dec.Decode(&p)
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && (p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) && !strings.Contains(p.ImportPath, "/zsim/") {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	sites := 0
	var index strings.Builder
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		for _, name := range p.GoFiles {
			full := filepath.Join(p.Dir, name)
			f, err := parser.ParseFile(fset, full, nil, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, f)
			names = append(names, full)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return fmt.Errorf("type check %s: %w", p.ImportPath, err)
		}
		for i, f := range files {
			err := instrument(fset, f, names[i], dir, info, level, &sites, &index)
			if err != nil {
				return err
			}
		}
	}
	err = os.WriteFile(filepath.Join(dir, "internal/zsim/vsim/sites.txt"), []byte(index.String()), 0o644)
	if err != nil {
		return err
	}
	fmt.Println(sites)
	return nil
}

func instrument(fset *token.FileSet, f *ast.File, name, dir string, info *types.Info, level int, sites *int, index *strings.Builder) error {
	src, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, del int, text string) {
		edits = append(edits, edit{at, del, text, len(edits)})
	}
	rel, _ := filepath.Rel(dir, name)
	site := func(p token.Pos) string {
		n := *sites
		*sites++
		fmt.Fprintf(index, "%d %s:%d\n", n, rel, fset.Position(p).Line)
		return fmt.Sprintf("zs__.Y(%d); ", n)
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	keep := map[string]string{}
	used := false
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), 0, site(s.Pos()))
			used = true
		}
	}
	pkgOf := func(x ast.Expr) (path string, id *ast.Ident) {
		id, ok := x.(*ast.Ident)
		if !ok {
			return
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return "", nil
		}
		return pn.Imported().Path(), id
	}
	isChan := func(x ast.Expr) bool {
		t := info.TypeOf(x)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	skip := map[ast.Node]bool{}
	pair := map[ast.Expr]bool{}
	pairs := func(lhs int, rhs []ast.Expr) {
		if lhs == 2 && len(rhs) == 1 {
			pair[ast.Unparen(rhs[0])] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n != nil && skip[n] {
			return false
		}
		if level >= 3 {
			switch n := n.(type) {
			case *ast.AssignStmt:
				pairs(len(n.Lhs), n.Rhs)
			case *ast.ValueSpec:
				pairs(len(n.Names), n.Values)
			case *ast.SendStmt:
				add(off(n.Pos()), 0, "zs__.SendTo(")
				add(off(n.Arrow), 2, ")(")
				add(off(n.End()), 0, ")")
				used = true
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					fun := "zs__.Recv("
					if pair[n] {
						fun = "zs__.Recv2("
					}
					add(off(n.Pos()), 2, fun)
					add(off(n.End()), 0, ")")
					used = true
				}
			case *ast.RangeStmt:
				if isChan(n.X) {
					add(off(n.X.Pos()), 0, "zs__.ChanRange(")
					add(off(n.X.End()), 0, ")")
					used = true
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && info.Uses[id] == types.Universe.Lookup("close") {
					add(off(id.Pos()), len(id.Name), "zs__.CloseChan")
					used = true
				}
			case *ast.SelectStmt:
				used = true
				var names, vals []string
				hasDefault := false
				for i, s := range n.Body.List {
					c := s.(*ast.CommClause)
					name := "zc" + strconv.Itoa(i) + "__"
					head := "case " + strconv.Itoa(len(names)) + ": "
					recv := func(x ast.Expr) string {
						return "zs__.CaseRecv(" + text(ast.Unparen(x).(*ast.UnaryExpr).X) + ")"
					}
					switch comm := c.Comm.(type) {
					case nil:
						hasDefault = true
						continue
					case *ast.SendStmt:
						vals = append(vals, "zs__.CaseSend("+text(comm.Chan)+")("+text(comm.Value)+")")
					case *ast.ExprStmt:
						vals = append(vals, recv(comm.X))
					case *ast.AssignStmt:
						vals = append(vals, recv(comm.Rhs[0]))
						var lhs []string
						for _, x := range comm.Lhs {
							lhs = append(lhs, text(x))
						}
						rhs := name + ".V"
						if len(lhs) == 2 {
							rhs += ", " + name + ".OK"
						}
						head += strings.Join(lhs, ", ") + " " + comm.Tok.String() + " " + rhs + "; "
					}
					names = append(names, name)
					skip[c.Comm] = true
					add(off(c.Case), off(c.Colon)+1-off(c.Case), strings.ReplaceAll(head, "\n", " "))
				}
				header := "switch "
				if len(names) > 0 {
					header += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
				}
				args := append([]string{strconv.FormatBool(hasDefault)}, names...)
				header += "zs__.Select(" + strings.Join(args, ", ") + ") "
				add(off(n.Select), off(n.Body.Lbrace)-off(n.Select), strings.ReplaceAll(header, "\n", " "))
				if !hasDefault {
					add(off(n.Body.Rbrace), 0, "default: panic(0); ")
				}
			}
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			if level >= 1 {
				stmts(n.List)
			}
		case *ast.CaseClause:
			if level >= 1 {
				stmts(n.Body)
			}
		case *ast.CommClause:
			if level >= 1 {
				stmts(n.Body)
			}
		case *ast.ForStmt:
			if level >= 1 && len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, 0, site(n.Body.Lbrace))
				used = true
			}
		case *ast.RangeStmt:
			if level >= 1 && len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, 0, site(n.Body.Lbrace))
				used = true
			}
			if level >= 2 {
				t := info.TypeOf(n.X)
				if t != nil && isMap(t) {
					add(off(n.X.Pos()), 0, "zs__.MapRange(")
					add(off(n.X.End()), 0, ")")
					used = true
				}
			}
		case *ast.GoStmt:
			used = true
			call := n.Call
			if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(off(n.Pos()), off(lit.Pos())-off(n.Pos()), "zs__.Go(")
				add(off(lit.End()), off(call.End())-off(lit.End()), ")")
				break
			}
			// The function and its arguments are evaluated at once.
			names, vals, args := []string{"zf__"}, []string{text(call.Fun)}, []string{}
			for i, a := range call.Args {
				v := "za" + strconv.Itoa(i) + "__"
				names = append(names, v)
				vals = append(vals, text(a))
				args = append(args, v)
			}
			ell := ""
			if call.Ellipsis.IsValid() {
				ell = "..."
			}
			add(off(n.Pos()), 0, "{ "+strings.Join(names, ", ")+" := "+strings.ReplaceAll(strings.Join(vals, ", "), "\n", " ")+"; zs__.Go(func() { zf__("+strings.Join(args, ", ")+ell+") }) }; if false { ")
			add(off(n.End()), 0, " }")
		case *ast.SelectorExpr:
			path, id := pkgOf(n.X)
			to := ""
			if level >= 2 {
				switch path + "." + n.Sel.Name {
				case "maps.Keys", "maps.Values", "maps.All":
					to = "zs__.Maps" + n.Sel.Name
					keep[id.Name] = "var _ = " + id.Name + ".Clone[map[int]int]"
				case "time.Now", "time.Since", "time.Until", "time.Sleep", "time.After":
					to = "zs__." + n.Sel.Name
					keep[id.Name] = "var _ = " + id.Name + ".UTC"
				}
			}
			if path+"."+n.Sel.Name == "runtime.Gosched" {
				to = "zs__.Gosched"
				keep[id.Name] = "var _ = " + id.Name + ".GOOS"
			}
			if to != "" {
				add(off(n.Pos()), off(n.End())-off(n.Pos()), to)
				used = true
				return false
			}
		case *ast.CallExpr:
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if level >= 2 && ok && len(n.Args) == 0 && (sel.Sel.Name == "MapRange" || sel.Sel.Name == "MapKeys") {
				t := info.TypeOf(sel.X)
				if t != nil && types.TypeString(t, nil) == "reflect.Value" {
					add(off(n.Pos()), 0, "zs__.Reflect"+sel.Sel.Name+"(")
					add(off(sel.X.End()), off(n.End())-off(sel.X.End()), ")")
					used = true
				}
			}
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			alias := "sync "
			if im.Name != nil {
				alias = ""
			}
			add(off(im.Path.Pos()), len(im.Path.Value), alias+strconv.Quote(ss))
		}
	}
	if used {
		add(off(f.Name.End()), 0, "; import zs__ "+strconv.Quote(rt))
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			return fmt.Errorf("%s: overlapping edits at %d", name, e.at)
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.at + e.del
	}
	b.Write(src[pos:])
	keys := make([]string, 0, len(keep))
	for k := range keep {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b.WriteString("\n" + keep[k] + "\n")
	}
	return os.WriteFile(name, []byte(b.String()), 0o644)
}

func isMap(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	tp, ok := t.(*types.TypeParam)
	if !ok {
		return false
	}
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || iface.NumEmbeddeds() == 0 {
		return false
	}
	for i := range iface.NumEmbeddeds() {
		u, ok := iface.EmbeddedType(i).(*types.Union)
		if !ok {
			continue
		}
		for j := range u.Len() {
			if _, ok := u.Term(j).Type().Underlying().(*types.Map); !ok {
				return false
			}
		}
		return u.Len() > 0
	}
	return false
}
