// Command instr puts the seams of the simulator into the library's packages.
//
// It reads the library's current source from the repository, inserts calls to
// the simulator as text (nothing else of the source changes, line numbers
// included), and writes the result with an overlay file for "go build
// -overlay". The repository itself is never written to. The seams are:
//
//   - a scheduling point before every statement (and in empty loop bodies),
//     marked when the statement touches package-level state or locks;
//   - package "sync" replaced by the simulator's;
//   - "go" statements and time.Sleep handed to the simulator;
//   - iteration over maps in an order the simulator decides;
//   - make and reflect.MakeSlice metered;
//   - a generated function per package that puts every package-level variable
//     back to its initial state: the simulated restart of the process.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Deps       []string
}

type edit struct {
	pos, end int // byte offsets; pos==end inserts
	text     string
	seq      int
}

// Site describes a scheduling point.
type Site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Hot  bool   `json:"hot"`
}

type result struct {
	Sites    []Site            `json:"sites"`
	Unseamed []string          `json:"unseamed"`
	Counts   map[string]int    `json:"counts"`
	Files    map[string]string `json:"files"`
}

var (
	res   = result{Counts: map[string]int{}, Files: map[string]string{}}
	sizes = types.SizesFor("gc", "amd64")
)

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 4 {
		fatal("usage: instr REPO MODULE OUTDIR")
	}
	repo, module, out := os.Args[1], os.Args[2], os.Args[3]
	os.MkdirAll(out, 0o755)
	cmd := exec.Command("go", "list", "-e", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Deps", "./...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list:", err, stderr.String())
	}
	pkgs := map[string]*pkgInfo{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	overlay := map[string]string{}
	for _, path := range order {
		p := pkgs[path]
		if p.Standard || p.Module == nil || p.Module.Path != module || p.Name == "main" || len(p.GoFiles) == 0 {
			continue
		}
		instrument(p, pkgs, out, overlay)
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), ob, 0o644); err != nil {
		fatal(err)
	}
	rb, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(out, "sites.json"), rb, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("instr: %d files, %d sites, %v, unseamed %v\n", len(res.Files), len(res.Sites), res.Counts, res.Unseamed)
}

type fileState struct {
	path    string
	src     []byte
	ast     *ast.File
	tf      *token.File
	edits   []edit
	tail    bytes.Buffer // appended at the end of the file
	imports map[string]string
}

func (f *fileState) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *fileState) insert(p token.Pos, s string) { f.replace(p, p, s) }

// insertEnd inserts what closes an expression: inner ones close first.
func (f *fileState) insertEnd(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), s, -len(f.edits) - 1})
}

func (f *fileState) replace(p, e token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(e), s, len(f.edits)})
}

// render returns the source between two offsets with the edits applied.
func (f *fileState) render(from, to int) string {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].pos != f.edits[j].pos {
			return f.edits[i].pos < f.edits[j].pos
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b strings.Builder
	at := from
	for _, e := range f.edits {
		if e.pos < from || e.end > to || e.pos == to && to != len(f.src) {
			continue
		}
		if e.pos < at {
			fatal("overlapping edits in", f.path, "at", e.pos)
		}
		b.Write(f.src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(f.src[at:to])
	return b.String()
}

const rt = "verifsimrt"

func instrument(p *pkgInfo, pkgs map[string]*pkgInfo, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*fileState
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal(err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		files = append(files, &fileState{path: path, src: src, ast: af, tf: fset.File(af.Pos()), imports: map[string]string{}})
		asts = append(asts, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp, Sizes: sizes}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		fatal("type check:", err)
	}

	fileOf := func(pos token.Pos) *fileState {
		for _, f := range files {
			if f.tf == fset.File(pos) {
				return f
			}
		}
		return nil
	}

	for _, f := range files {
		(&walker{f: f, info: info, pkg: tp, fset: fset}).file()
	}

	// The simulated restart.
	var zero, calls, inits bytes.Buffer
	n := 0
	for _, f := range files {
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) != 0 {
						continue
					}
					n++
					fmt.Fprintf(&f.tail, "func verifReset%d() { var z %s;", n, f.src[f.off(vs.Type.Pos()):f.off(vs.Type.End())])
					any := false
					for _, id := range vs.Names {
						if id.Name != "_" {
							fmt.Fprintf(&f.tail, " %s = z;", id.Name)
							any = true
						}
					}
					if !any {
						fmt.Fprintf(&f.tail, " _ = z;")
					}
					fmt.Fprintf(&f.tail, " }\n")
					fmt.Fprintf(&zero, "\tverifReset%d()\n", n)
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					n++
					f.replace(d.Name.Pos(), d.Name.End(), fmt.Sprintf("verifInit%d", n))
					fmt.Fprintf(&f.tail, "func init() { verifInit%d() }\n", n)
					fmt.Fprintf(&inits, "\tverifInit%d()\n", n)
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		n++
		fmt.Fprintf(&f.tail, "func verifReset%d() { %s = %s }\n", n, strings.Join(lhs, ", "), f.render(f.off(in.Rhs.Pos()), f.off(in.Rhs.End())))
		fmt.Fprintf(&calls, "\tverifReset%d()\n", n)
		res.Counts["reset vars"]++
	}

	rel := strings.Map(func(r rune) rune {
		if r == '/' || r == '.' {
			return '_'
		}
		return r
	}, p.ImportPath)
	for _, f := range files {
		f.insert(f.ast.Name.End(), "; import "+rt+" \"verif.sim/simrt\"")
		text := f.render(0, len(f.src)) + "\nvar _ = " + rt + ".Y\n" + f.tail.String()
		dst := filepath.Join(out, rel+"__"+filepath.Base(f.path))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			fatal(err)
		}
		overlay[f.path] = dst
		res.Files[f.path] = dst
	}
	gen := fmt.Sprintf("package %s\n\nimport %s \"verif.sim/simrt\"\n\nfunc init() { %s.RegisterReset(%q, verifResetAll) }\n\nfunc verifResetAll() {\n%s%s%s}\n",
		p.Name, rt, rt, p.ImportPath, zero.String(), calls.String(), inits.String())
	dst := filepath.Join(out, rel+"__zz_verif_reset.go")
	if err := os.WriteFile(dst, []byte(gen), 0o644); err != nil {
		fatal(err)
	}
	overlay[filepath.Join(p.Dir, "zz_verif_reset.go")] = dst
}

type walker struct {
	f    *fileState
	info *types.Info
	pkg  *types.Package
	fset *token.FileSet
	fn   string
}

func (w *walker) file() {
	for _, is := range w.f.ast.Imports {
		path := strings.Trim(is.Path.Value, "\"`")
		name := filepath.Base(path)
		for _, imp := range w.pkg.Imports() {
			if imp.Path() == path {
				name = imp.Name()
			}
		}
		if is.Name != nil {
			name = is.Name.Name
		}
		w.f.imports[path] = name
		if path == "sync" {
			if is.Name != nil {
				w.f.replace(is.Path.Pos(), is.Path.End(), `"verif.sim/simsync"`)
			} else {
				w.f.replace(is.Path.Pos(), is.Path.End(), `sync "verif.sim/simsync"`)
			}
			res.Counts["sync imports"]++
		}
	}
	for _, d := range w.f.ast.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			w.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				w.fn = strings.TrimPrefix(types.ExprString(fd.Recv.List[0].Type), "*") + "." + w.fn
			}
		} else {
			w.fn = "init"
		}
		ast.Inspect(d, w.visit)
	}
}

func (w *walker) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		w.list(n.List)
	case *ast.CaseClause:
		w.list(n.Body)
	case *ast.CommClause:
		w.list(n.Body)
	case *ast.SelectStmt:
		w.selectStmt(n)
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			w.site(n.Body.Lbrace+1, n, " ")
		}
	case *ast.RangeStmt:
		if len(n.Body.List) == 0 {
			w.site(n.Body.Lbrace+1, n, " ")
		}
		w.mapRange(n)
	case *ast.GoStmt:
		w.goStmt(n)
	case *ast.SendStmt:
		w.f.insert(n.Chan.Pos(), rt+".Send(")
		w.f.replace(n.Arrow, n.Arrow+2, ", ")
		w.f.insertEnd(n.Value.End(), ")")
		res.Counts["channel operations"]++
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			w.recv(n, n.X)
		}
	case *ast.CallExpr:
		w.call(n)
	case *ast.SelectorExpr:
		w.selector(n)
	}
	return true
}

func (w *walker) unseamed(n ast.Node, what string) {
	p := w.fset.Position(n.Pos())
	res.Unseamed = append(res.Unseamed, fmt.Sprintf("%s:%d %s", filepath.Base(p.Filename), p.Line, what))
}

func (w *walker) list(stmts []ast.Stmt) {
	for _, s := range stmts {
		if _, ok := s.(*ast.CaseClause); ok {
			return
		}
		if _, ok := s.(*ast.CommClause); ok {
			return
		}
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		w.site(s.Pos(), s, "")
	}
}

func (w *walker) site(at token.Pos, n ast.Node, lead string) {
	id := len(res.Sites)
	hot := w.hot(n)
	fn := "Y"
	if hot {
		fn = "H"
		res.Counts["hot sites"]++
	}
	p := w.fset.Position(n.Pos())
	res.Sites = append(res.Sites, Site{id, filepath.Base(p.Filename), p.Line, w.fn, hot})
	w.f.insert(at, fmt.Sprintf("%s%s.%s(%d); ", lead, rt, fn, id))
}

// hot tells whether a statement itself (not the blocks in it) uses
// package-level variables or the sync packages.
func (w *walker) hot(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return m == n
		case *ast.Ident:
			obj := w.info.Uses[m]
			if obj == nil {
				return true
			}
			switch o := obj.(type) {
			case *types.Var:
				if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() && !isError(o.Type()) && o.Pkg() == w.pkg {
					found = true
				}
			case *types.Func:
				if o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (w *walker) qualifier(ok *bool) types.Qualifier {
	return func(p *types.Package) string {
		if p == w.pkg {
			return ""
		}
		if name, found := w.f.imports[p.Path()]; found && name != "_" && name != "." {
			return name
		}
		*ok = false
		return p.Name()
	}
}

func hasFuncLit(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

func (w *walker) mapRange(n *ast.RangeStmt) {
	tv, ok := w.info.Types[n.X]
	if !ok {
		return
	}
	mt, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		if _, isChan := tv.Type.Underlying().(*types.Chan); isChan {
			w.chanRange(n, tv.Type)
		}
		return
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	good := true
	q := w.qualifier(&good)
	var b strings.Builder
	it := fmt.Sprintf("verifIt%d", len(res.Sites))
	x := string(w.f.src[w.f.off(n.X.Pos()):w.f.off(n.X.End())])
	fmt.Fprintf(&b, "for %s := %s.MapIter(%s); %s.Next(); {", it, rt, x, it)
	for i, e := range []ast.Expr{n.Key, n.Value} {
		if isBlank(e) {
			continue
		}
		id, ok := e.(*ast.Ident)
		if !ok || n.Tok != token.DEFINE {
			good = false
			break
		}
		t, get := mt.Key(), "Key"
		if i == 1 {
			t, get = mt.Elem(), "Val"
		}
		if named, ok := t.(*types.Named); ok && named.Obj().Parent() != nil && named.Obj().Parent() != named.Obj().Pkg().Scope() {
			// A local type: its name is visible here, or we would not be here.
			_ = named
		}
		fmt.Fprintf(&b, " %s, _ := %s.%s().(%s);", id.Name, it, get, types.TypeString(t, q))
	}
	if !good || hasFuncLit(n.X) || w.hasCall(n.X) {
		w.unseamed(n, "map iteration")
		return
	}
	b.WriteString(" ")
	w.f.replace(n.For, n.Body.Lbrace+1, b.String())
	res.Counts["map ranges"]++
}

// recv makes a receive wait in the simulator first.
func (w *walker) recv(n ast.Node, x ast.Expr) {
	good := true
	t := types.TypeString(w.info.Types[x].Type, w.qualifier(&good))
	if !good {
		w.unseamed(n, "channel operation")
		return
	}
	w.f.insert(x.Pos(), rt+".WaitRecv(")
	w.f.insertEnd(x.End(), ").("+t+")")
	res.Counts["channel operations"]++
}

func (w *walker) chanRange(n *ast.RangeStmt, ct types.Type) {
	good := true
	t := types.TypeString(ct, w.qualifier(&good))
	if !good {
		w.unseamed(n, "channel operation")
		return
	}
	ok := fmt.Sprintf("verifOk%d", len(res.Sites))
	key, op, pre := "_", ":=", ""
	if n.Key != nil {
		key = string(w.f.src[w.f.off(n.Key.Pos()):w.f.off(n.Key.End())])
		if n.Tok == token.ASSIGN {
			op, pre = "=", "var "+ok+" bool; "
		}
	}
	w.f.replace(n.For, n.X.Pos(), fmt.Sprintf("for { %s%s, %s %s <-%s.WaitRecv(", pre, key, ok, op, rt))
	w.f.replace(n.X.End(), n.Body.Lbrace+1, fmt.Sprintf(").(%s); if !%s { break }; ", t, ok))
	res.Counts["channel operations"]++
}

// selectStmt makes a select statement a switch over the case that the
// simulator chooses.
func (w *walker) selectStmt(n *ast.SelectStmt) {
	var b strings.Builder
	i, def := 0, false
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			continue
		}
		dir, x := "R", ast.Expr(nil)
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			dir, x = "S", m.Chan
		case *ast.ExprStmt:
			x = arrow(m.X)
		case *ast.AssignStmt:
			x = arrow(m.Rhs[0])
		}
		if x == nil {
			w.unseamed(n, "select statement")
			return
		}
		fmt.Fprintf(&b, ", %s.%s(%s)", rt, dir, w.f.src[w.f.off(x.Pos()):w.f.off(x.End())])
		w.f.replace(c.Case, c.Case+4, fmt.Sprintf("case %d: ", i))
		w.f.replace(c.Colon, c.Colon+1, "; ")
		i++
	}
	w.f.replace(n.Select, n.Select+6, fmt.Sprintf("switch %s.Select(%v%s)", rt, def, b.String()))
	if !def {
		w.f.insert(n.Body.Rbrace, fmt.Sprintf(" default: panic(%s.Dead()); ", rt))
	}
	res.Counts["select statements"]++
}

func arrow(x ast.Expr) ast.Expr {
	for {
		switch e := x.(type) {
		case *ast.ParenExpr:
			x = e.X
			continue
		case *ast.UnaryExpr:
			if e.Op == token.ARROW {
				return e.X
			}
		}
		return nil
	}
}

func (w *walker) hasCall(n ast.Node) bool {
	// Calls in the header might carry edits of their own (make).
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if c, ok := m.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "make" {
				found = true
			}
		}
		return !found
	})
	return found
}

func (w *walker) goStmt(n *ast.GoStmt) {
	res.Counts["go statements"]++
	if _, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
		// go func() {...}()  =>  verifsimrt.Go(func() {...})
		w.f.replace(n.Go, n.Call.Fun.Pos(), rt+".Go(")
		w.f.replace(n.Call.Lparen, n.Call.Rparen+1, ")")
		return
	}
	w.f.replace(n.Go, n.Call.Fun.Pos(), rt+".GoCall(")
	if len(n.Call.Args) == 0 {
		w.f.replace(n.Call.Lparen, n.Call.Lparen+1, "")
	} else {
		w.f.replace(n.Call.Lparen, n.Call.Lparen+1, ", ")
	}
}

func (w *walker) call(n *ast.CallExpr) {
	if sel, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 && (sel.Sel.Name == "MapKeys" || sel.Sel.Name == "MapRange") {
		if fn, ok := w.info.Uses[sel.Sel].(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == "reflect" {
			w.f.insert(sel.X.Pos(), rt+"."+sel.Sel.Name+"(")
			w.f.replace(sel.X.End(), n.End(), ")")
			res.Counts["reflect."+sel.Sel.Name]++
			return
		}
	}
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		return
	}
	if _, ok := w.info.Uses[id].(*types.Builtin); !ok {
		return
	}
	if id.Name == "close" && len(n.Args) == 1 {
		w.f.replace(id.Pos(), id.End(), rt+".Close")
		res.Counts["channel operations"]++
		return
	}
	if id.Name == "make" {
		if _, ok := w.info.Types[n.Args[0]].Type.Underlying().(*types.Chan); ok && w.makeChan(n) {
			return
		}
	}
	if id.Name != "make" || len(n.Args) < 2 {
		return
	}
	var sz int64 = 1
	switch t := w.info.Types[n.Args[0]].Type.Underlying().(type) {
	case *types.Slice:
		sz = sizes.Sizeof(t.Elem())
	case *types.Map:
		sz = sizes.Sizeof(t.Key()) + sizes.Sizeof(t.Elem())
	case *types.Chan:
		sz = sizes.Sizeof(t.Elem())
	}
	a := n.Args[len(n.Args)-1]
	tv := w.info.Types[a]
	if tv.Value != nil || !types.Identical(tv.Type, types.Typ[types.Int]) {
		if tv.Value == nil {
			w.unseamed(n, "make with a size that is not an int")
		}
		return
	}
	w.f.insert(a.Pos(), fmt.Sprintf("%s.N(%d, ", rt, sz))
	w.f.insertEnd(a.End(), ")")
	res.Counts["make"]++
}

// makeChan tells the simulator of channels without a buffer.
func (w *walker) makeChan(n *ast.CallExpr) bool {
	if len(n.Args) > 1 {
		if v := w.info.Types[n.Args[1]].Value; v == nil || v.String() != "0" {
			return false
		}
	}
	good := true
	t := types.TypeString(w.info.Types[n.Args[0]].Type, w.qualifier(&good))
	if !good {
		w.unseamed(n, "channel")
		return true
	}
	w.f.insert(n.Pos(), rt+".Chan(")
	w.f.replace(n.Args[0].End(), n.Rparen+1, ", 1)).("+t+")")
	res.Counts["channels"]++
	return true
}

var randFuncs = map[string]bool{"Int": true, "Intn": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true, "Uint32": true, "Uint64": true, "Float32": true, "Float64": true,
	"Perm": true, "Shuffle": true, "NormFloat64": true, "ExpFloat64": true, "Read": true, "IntN": true, "Int32": true, "Int32N": true, "Int64": true, "Int64N": true, "UintN": true, "Uint": true, "Uint32N": true, "Uint64N": true}

var timeFuncs = map[string]bool{"Sleep": true, "Now": true, "Since": true, "Until": true, "After": true}

func (w *walker) selector(n *ast.SelectorExpr) {
	x, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := w.info.Uses[x].(*types.PkgName)
	if !ok {
		return
	}
	name := n.Sel.Name
	path := pn.Imported().Path()
	to := ""
	switch {
	case path == "reflect" && name == "MakeSlice", path == "time" && timeFuncs[name]:
		to = rt + "." + name
	case path == "math/rand" && randFuncs[name]:
		to = rt + ".MathRand()." + name
	case path == "math/rand/v2" && randFuncs[name]:
		to = rt + ".MathRandV2()." + name
	case path == "time" && (name == "NewTimer" || name == "NewTicker" || name == "Tick" || name == "AfterFunc"),
		path == "crypto/rand", path == "hash/maphash", path == "runtime" && name == "SetFinalizer", path == "reflect" && name == "Select":
		w.unseamed(n, path+"."+name)
		return
	default:
		return
	}
	w.f.replace(n.Pos(), n.End(), to)
	w.keep(x.Name + "." + name)
	res.Counts[path+"."+name]++
}

// keep makes sure that an import stays used.
func (w *walker) keep(sel string) {
	line := "var _ = " + sel + "\n"
	if !strings.Contains(w.f.tail.String(), line) {
		w.f.tail.WriteString(line)
	}
}
