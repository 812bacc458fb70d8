// instrument writes copies of Go packages with a scheduling point before every
// statement, and the overlay that puts them in place.  The points of statements
// that touch shared memory say where.
//
//	instrument OUT REPO LIST DIR...
//
// LIST is the output of go list -export -deps -json for the packages.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type listed struct{ ImportPath, Dir, Export string }

func main() {
	out, repo := os.Args[1], os.Args[2]
	exports := map[string]string{}
	if f, err := os.Open(os.Args[3]); err == nil {
		for d := json.NewDecoder(f); ; {
			var p listed
			if d.Decode(&p) != nil {
				break
			}
			exports[p.ImportPath] = p.Export
		}
		f.Close()
	}
	rep := map[string]string{}
	sites := []string{"-"}
	accesses := 0
	for _, dir := range os.Args[4:] {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		src := map[string][]byte{}
		l, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		sort.Strings(l)
		for _, f := range l {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			a, err := parser.ParseFile(fset, f, b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			files, names, src[f] = append(files, a), append(names, f), b
		}
		t := &typed{fset: fset, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}}
		conf := types.Config{Error: func(error) {}, Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if exports[path] == "" {
				return nil, fmt.Errorf("no %s", path)
			}
			return os.Open(exports[path])
		})}
		// without types there are only the points
		pkg, err := conf.Check(dir, fset, files, t.info)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instrument: no types:", err)
			t = nil
		} else {
			t.pkg = pkg
			t.findCaptured(files)
		}
		for i, a := range files {
			f := names[i]
			type ins struct {
				at   int
				text string
			}
			var l []ins
			block := func(list []ast.Stmt) {
				for _, s := range list {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.BranchStmt:
						continue
					}
					p := fset.Position(s.Pos())
					text := fmt.Sprintf("verifpoint.P(%d);", len(sites))
					after := ""
					if t != nil {
						acc, post := t.accesses(s)
						if code := t.code(acc); code != "" {
							accesses += len(acc)
							if post {
								l = append(l, ins{fset.Position(s.End()).Offset, fmt.Sprintf(";verifpoint.A(%d,%s)", len(sites)+1, code)})
								after = fmt.Sprintf("%s:%d, done", strings.TrimPrefix(f, repo+"/"), p.Line)
							} else {
								text = fmt.Sprintf("verifpoint.A(%d,%s);", len(sites), code)
							}
						}
					}
					l = append(l, ins{p.Offset, text})
					sites = append(sites, fmt.Sprintf("%s:%d", strings.TrimPrefix(f, repo+"/"), p.Line))
					if after != "" {
						sites = append(sites, after)
					}
				}
			}
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					// the body of a switch or select holds clauses only
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					block(x.List)
				case *ast.CaseClause:
					block(x.Body)
				case *ast.CommClause:
					block(x.Body)
				}
				return true
			})
			if len(l) == 0 {
				continue
			}
			l = append(l, ins{fset.Position(a.Name.End()).Offset, `;import "verifpoint"`})
			sort.SliceStable(l, func(i, j int) bool { return l[i].at < l[j].at })
			var b strings.Builder
			last := 0
			for _, x := range l {
				b.Write(src[f][last:x.at])
				b.WriteString(x.text)
				last = x.at
			}
			b.Write(src[f][last:])
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, repo+"/"), "/", "__"))
			if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
				panic(err)
			}
			rep[f] = dst
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(filepath.Join(out, "instrument.json"), b, 0644); err != nil {
		panic(err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(out, "sites.json"), b, 0644); err != nil {
		panic(err)
	}
	if os.Getenv("V") != "" {
		fmt.Fprintln(os.Stderr, len(sites), "sites,", accesses, "accesses")
	}
}

// ---- accesses to memory that several goroutines may share

type access struct {
	e     ast.Expr
	isMap bool // the map that e is, not the variable
	write bool
}

type typed struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	captured map[types.Object]bool
}

// findCaptured finds the local variables that function literals share with what
// is around them.
func (t *typed) findCaptured(files []*ast.File) {
	t.captured = map[types.Object]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			lit, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(lit, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if v, ok := t.info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < lit.Pos() || v.Pos() > lit.End()) {
						t.captured[v] = true
					}
				}
				return true
			})
			return true
		})
	}
}

// calm are packages whose functions neither wait nor signal (but for time.Sleep
// and what uses a reader or writer).
var calm = map[string]bool{"fmt": true, "strings": true, "bytes": true, "strconv": true, "time": true, "errors": true, "math": true, "slices": true, "maps": true, "sort": true, "encoding/binary": true, "encoding/hex": true, "encoding/base64": true, "crypto/sha256": true, "path": true, "path/filepath": true}

// plain says that evaluating e involves nothing that might wait, signal or
// change what is looked at.
func (t *typed) plain(n ast.Node) bool {
	ok := true
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.CallExpr:
			tv := t.info.Types[x.Fun]
			if tv.IsType() || tv.IsBuiltin() {
				return true
			}
			var id *ast.Ident
			switch f := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				id = f
			case *ast.SelectorExpr:
				id = f.Sel
			}
			if id != nil {
				if f, isFunc := t.info.Uses[id].(*types.Func); isFunc && f.Pkg() != nil && calm[f.Pkg().Path()] && f.Name() != "Sleep" && !strings.HasPrefix(f.Name(), "F") {
					return true
				}
			}
			ok = false
		}
		return ok
	})
	return ok
}

// simple says that e can be evaluated once more, before the statement at pos.
func (t *typed) simple(e ast.Expr, pos token.Pos) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && x.Op != token.ARROW
		case *ast.Ident:
			if x.Name == "_" {
				ok = false
			} else if o := t.info.Uses[x]; o == nil && t.info.Defs[x] != nil {
				ok = false
			} else if v, isVar := o.(*types.Var); isVar && !v.IsField() && v.Parent() != t.pkg.Scope() && v.Pos() >= pos {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared says that e is a variable which more than one goroutine may see.
func (t *typed) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.shared(x.X)
	case *ast.Ident:
		v, ok := t.info.Uses[x].(*types.Var)
		return ok && (v.Pkg() != nil && v.Parent() == v.Pkg().Scope() || t.captured[v])
	case *ast.StarExpr:
		return t.info.Types[x].Type != nil && !t.info.Types[x].IsType()
	case *ast.SelectorExpr:
		s := t.info.Selections[x]
		if s == nil { // of a package
			_, ok := t.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return t.shared(x.X)
	case *ast.IndexExpr:
		tv := t.info.Types[x.X]
		if tv.Type == nil {
			return false
		}
		switch u := tv.Type.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return t.shared(x.X)
		}
	}
	return false
}

func (t *typed) isMap(e ast.Expr) bool {
	tv := t.info.Types[e]
	if tv.Type == nil || tv.IsType() {
		return false
	}
	_, ok := tv.Type.Underlying().(*types.Map)
	return ok
}

// accesses of a statement when it is reached; or (post) those which are over
// once it has been executed.
func (t *typed) accesses(s ast.Stmt) (l []access, post bool) {
	pos := s.Pos()
	add := func(a access) {
		if !t.simple(a.e, pos) {
			return
		}
		l = append(l, a)
	}
	var read func(n ast.Node)
	var base func(e ast.Expr)
	read = func(n ast.Node) {
		if n == nil || n == ast.Expr(nil) {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				if x.Op == token.LAND || x.Op == token.LOR {
					read(x.X) // the rest may not be evaluated
					return false
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return false
				}
			case *ast.KeyValueExpr:
				read(x.Value)
				return false
			case *ast.CallExpr:
				if tv := t.info.Types[x.Fun]; tv.IsBuiltin() {
					if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 && t.isMap(x.Args[0]) {
						add(access{x.Args[0], true, id.Name == "delete" || id.Name == "clear"})
					}
				} else if sel, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok && !tv.IsType() {
					read(sel.X)
					for _, a := range x.Args {
						read(a)
					}
					return false
				}
			case *ast.SelectorExpr:
				if t.shared(x) {
					add(access{x, false, false})
				}
				if t.info.Selections[x] != nil {
					base(x.X)
				}
				return false
			case *ast.Ident, *ast.StarExpr:
				if t.shared(x.(ast.Expr)) {
					add(access{x.(ast.Expr), false, false})
				}
			case *ast.IndexExpr:
				if t.isMap(x.X) {
					add(access{x.X, true, false})
				} else if t.shared(x) {
					add(access{x, false, false})
				}
				base(x.X)
				read(x.Index)
				return false
			case *ast.SliceExpr:
				base(x.X)
				read(x.Low)
				read(x.High)
				read(x.Max)
				return false
			}
			return true
		})
	}
	base = func(e ast.Expr) { // what a part of is touched
		tv := t.info.Types[e]
		if tv.Type != nil {
			switch tv.Type.Underlying().(type) {
			case *types.Struct, *types.Array:
				switch x := ast.Unparen(e).(type) {
				case *ast.Ident:
					return
				case *ast.SelectorExpr:
					if t.info.Selections[x] != nil {
						base(x.X)
					}
					return
				case *ast.IndexExpr:
					if t.isMap(x.X) {
						add(access{x.X, true, false})
					}
					base(x.X)
					read(x.Index)
					return
				case *ast.StarExpr:
					read(x.X)
					return
				}
			}
		}
		read(e)
	}
	write := func(e ast.Expr) {
		e = ast.Unparen(e)
		if id, ok := e.(*ast.Ident); ok && t.info.Defs[id] != nil {
			return
		}
		if x, ok := e.(*ast.IndexExpr); ok && t.isMap(x.X) {
			add(access{x.X, true, true})
		} else if t.shared(e) {
			add(access{e, false, true})
		}
	}
	inner := func(e ast.Expr) { // what a place to write to is found by
		switch x := ast.Unparen(e).(type) {
		case *ast.IndexExpr:
			base(x.X)
			read(x.Index)
		case *ast.SelectorExpr:
			if t.info.Selections[x] != nil {
				base(x.X)
			}
		case *ast.StarExpr:
			read(x.X)
		}
	}
	var simple func(s ast.Stmt) bool // false: nothing after it
	simple = func(s ast.Stmt) bool {
		switch x := s.(type) {
		case nil:
		case *ast.AssignStmt:
			if !t.plain(x) {
				return false
			}
			for _, e := range x.Rhs {
				read(e)
			}
			for _, e := range x.Lhs {
				inner(e)
				write(e)
			}
		case *ast.IncDecStmt:
			if !t.plain(x) {
				return false
			}
			inner(x.X)
			write(x.X)
		case *ast.ExprStmt:
			if !t.plain(x) {
				return false
			}
			read(x.X)
		default:
			return false
		}
		return true
	}
	expr := func(e ast.Expr) {
		if e != nil && t.plain(e) {
			read(e)
		}
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if simple(x) {
			break
		}
		for _, e := range x.Lhs {
			if t.plain(e) {
				write(e)
			}
		}
		post = true
	case *ast.IncDecStmt, *ast.ExprStmt:
		simple(x)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			if !t.plain(e) {
				return nil, false
			}
		}
		for _, e := range x.Results {
			read(e)
		}
	case *ast.IfStmt:
		if simple(x.Init) {
			expr(x.Cond)
		}
	case *ast.ForStmt:
		if simple(x.Init) {
			expr(x.Cond)
		}
	case *ast.SwitchStmt:
		if simple(x.Init) {
			expr(x.Tag)
		}
	case *ast.RangeStmt:
		if t.plain(x.X) {
			if t.isMap(x.X) {
				add(access{x.X, true, false})
			}
			read(x.X)
		}
	case *ast.DeclStmt:
		if t.plain(x) {
			if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, v := range sp.(*ast.ValueSpec).Values {
						read(v)
					}
				}
			}
		}
	}
	return l, post
}

func (t *typed) code(l []access) string {
	var b strings.Builder
	writes, n := uint64(0), 0
	done := map[string]int{}
	for _, a := range l {
		var e strings.Builder
		if err := printExpr(&e, t.fset, a.e); err != nil {
			continue
		}
		text := "verifpoint.Addr(&" + e.String() + ")"
		if a.isMap {
			text = "verifpoint.Map(" + e.String() + ")"
		}
		i, ok := done[text]
		if !ok {
			if n == 60 {
				break
			}
			i = n
			done[text] = i
			n++
			fmt.Fprintf(&b, "case %d:return %s;", i, text)
		}
		if a.write {
			writes |= 1 << i
		}
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%d,%#x,func(verif_ int)(uintptr,uintptr){switch verif_{%s};return 0,0}", n, writes, b.String())
}
