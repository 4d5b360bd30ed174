// Command instrument writes an instrumented copy of the sources of a module, and the
// overlay that makes the go command compile it in place of the original.
//
// In front of every statement goes a call to zzv.P, package sync (and sync/atomic) is
// replaced by its stand-in, and every package gets a function that sets its variables
// to their initial values again.
//
// The last line printed is "controlled" or "uncontrolled: why".
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

type file struct {
	path  string // in the module
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
	inits int
}

type pkg struct {
	path, dir string
	files     []*file
	types     *types.Package
	info      *types.Info
}

var (
	fset         = token.NewFileSet()
	pkgs         = map[string]*pkg{}
	std          = importer.ForCompiler(fset, "source", nil)
	uncontrolled string
)

type imp struct{ mod string }

func (i imp) Import(path string) (*types.Package, error) {
	if p := pkgs[path]; p != nil {
		check(p, i)
		return p.types, nil
	}
	return std.Import(path)
}

func check(p *pkg, i imp) {
	if p.types != nil {
		return
	}
	p.info = &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: i, Error: func(err error) {}}
	var fs []*ast.File
	for _, f := range p.files {
		fs = append(fs, f.ast)
	}
	tp, err := conf.Check(p.path, fset, fs, p.info)
	if err != nil {
		die(fmt.Errorf("type checking %s: %v", p.path, err))
	}
	p.types = tp
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(1)
}

func modulePath(root string) string {
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		die(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	die(fmt.Errorf("no module line"))
	return ""
}

func main() {
	root, out := os.Args[1], os.Args[2]
	mod := modulePath(root)
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			die(err)
		}
		if !fi.IsDir() {
			return nil
		}
		base := filepath.Base(path)
		if path != root {
			if strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		bp, err := build.Default.ImportDir(path, 0)
		if err != nil || bp.Name == "main" {
			return nil
		}
		ip := mod
		if rel, _ := filepath.Rel(root, path); rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		p := &pkg{path: ip, dir: path}
		for _, name := range bp.GoFiles {
			f := &file{path: filepath.Join(path, name)}
			f.src, err = os.ReadFile(f.path)
			if err != nil {
				die(err)
			}
			f.ast, err = parser.ParseFile(fset, f.path, f.src, parser.ParseComments)
			if err != nil {
				die(err)
			}
			p.files = append(p.files, f)
		}
		pkgs[ip] = p
		return nil
	})
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, ip := range paths {
		check(pkgs[ip], imp{mod})
	}
	overlay := map[string]string{}
	if err := os.MkdirAll(out, 0o755); err != nil {
		die(err)
	}
	n, points := 0, 0
	for _, ip := range paths {
		p := pkgs[ip]
		for _, f := range p.files {
			points += f.instrument(p)
		}
		p.resets()
		for _, f := range p.files {
			n++
			dst := filepath.Join(out, fmt.Sprintf("f%d_%s", n, filepath.Base(f.path)))
			if err := os.WriteFile(dst, f.render(), 0o644); err != nil {
				die(err)
			}
			overlay[f.path] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
	fmt.Printf("%d packages, %d files, %d points\n", len(paths), n, points)
	if uncontrolled != "" {
		fmt.Println("uncontrolled: " + uncontrolled)
	} else {
		fmt.Println("controlled")
	}
}

func (f *file) off(p token.Pos) int { return fset.PositionFor(p, false).Offset }

func (f *file) insert(p token.Pos, text string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, text})
}

func (f *file) replace(a, b token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), text})
}

func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (f *file) instrument(p *pkg) int {
	points := 0
	// The imports
	for _, is := range f.ast.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		var to, name string
		switch path {
		case "sync":
			to, name = "urnverif/zzv/zsync", "sync"
		case "sync/atomic":
			to, name = "urnverif/zzv/zatomic", "atomic"
		default:
			continue
		}
		if is.Name != nil {
			f.replace(is.Path.Pos(), is.Path.End(), strconv.Quote(to))
		} else {
			f.replace(is.Path.Pos(), is.Path.End(), name+" "+strconv.Quote(to))
		}
	}
	f.insert(f.ast.Name.End(), `; import zzv "urnverif/zzv"`)
	f.tail.WriteString("\nvar _ = zzv.P\n")
	// What waits for a channel can be seen to wait
	handled := map[ast.Node]bool{}
	waits := func(s ast.Stmt) {
		for {
			l, ok := s.(*ast.LabeledStmt)
			if !ok {
				break
			}
			s = l.Stmt
		}
		switch x := s.(type) {
		case *ast.SendStmt:
			if calls(x.Chan) {
				return
			}
			handled[x] = true
			if calls(x.Value) {
				f.replace(s.Pos(), x.Value.Pos(), "{ zzvValue := ")
				f.insert(x.Value.End(), "; zzv.WaitSend("+f.text(x.Chan)+"); "+f.text(x.Chan)+" <- zzvValue }")
			} else {
				f.insert(s.Pos(), "zzv.WaitSend("+f.text(x.Chan)+"); ")
			}
		case *ast.SelectStmt:
			// One channel, and perhaps a default: what happens is determined
			var comm ast.Stmt
			hasDefault := false
			for _, c := range x.Body.List {
				c := c.(*ast.CommClause)
				switch {
				case c.Comm == nil:
					hasDefault = true
				case comm != nil:
					return
				default:
					comm = c.Comm
				}
			}
			if comm == nil || calls(comm) {
				return
			}
			text := "zzv.Sync(); "
			if send, ok := comm.(*ast.SendStmt); ok {
				handled[send] = true
				if !hasDefault {
					text = "zzv.WaitSend(" + f.text(send.Chan) + "); "
				}
			} else {
				var recv *ast.UnaryExpr
				ast.Inspect(comm, func(n ast.Node) bool {
					if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW && recv == nil {
						recv = u
					}
					return true
				})
				handled[recv] = true
				if !hasDefault {
					text = "zzv.WaitRecv(" + f.text(recv.X) + "); "
				}
			}
			handled[x] = true
			f.insert(s.Pos(), text)
		}
	}
	// The points
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points++
			f.insert(s.Pos(), at(";"))
			if _, ok := s.(*ast.LabeledStmt); !ok {
				waits(s)
			}
			for {
				l, ok := s.(*ast.LabeledStmt)
				if !ok {
					break
				}
				s = l.Stmt
				switch x := s.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.LabeledStmt:
				case *ast.EmptyStmt:
					if !x.Implicit {
						f.insert(s.Pos(), at(""))
					}
				default:
					points++
					f.insert(s.Pos(), at(";"))
				}
			}
		}
	}
	two := map[ast.Expr]bool{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// The clauses of a switch are not statements to go in front of
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
				break
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.GoStmt:
			why("it starts goroutines")
		case *ast.SelectStmt:
			if !handled[x] {
				why("it selects")
			}
		case *ast.SendStmt:
			if !handled[x] {
				why("it sends to channels")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[unparen(x.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !handled[x] {
				name := "zzv.Recv("
				if two[x] {
					name = "zzv.Recv2("
				}
				f.replace(x.OpPos, x.OpPos+2, name)
				f.insert(x.End(), ")")
			}
		case *ast.RangeStmt:
			if tv, ok := p.info.Types[x.X]; ok {
				switch tv.Type.Underlying().(type) {
				case *types.Chan:
					why("it ranges over a channel")
				}
			}
		}
		return true
	})
	// The init functions can be run again
	for _, d := range f.ast.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			f.inits++
			name := fmt.Sprintf("zzvInit%d_%d", f.off(fd.Pos()), f.inits)
			f.replace(fd.Name.Pos(), fd.Name.End(), name)
			fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", name)
		}
	}
	return points
}

// calls tells whether something is called in a node.
func calls(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			r = true
		}
		return !r
	})
	return r
}

// at is a point, numbered.
func at(end string) string {
	sites++
	if end != "" {
		end += " "
	}
	return fmt.Sprintf("zzv.At(%d)%s", sites, end)
}

var sites int

func why(s string) {
	if uncontrolled == "" {
		uncontrolled = s
	}
}

// resets adds to every file functions that set its variables to their initial values, and
// registers them in the order of the initialization.
func (p *pkg) resets() {
	type assign struct {
		f    *file
		text string
	}
	var zero, inits []assign
	byObj := map[types.Object]*struct {
		f    *file
		spec *ast.ValueSpec
	}{}
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, name := range vs.Names {
					if o := p.info.Defs[name]; o != nil {
						byObj[o] = &struct {
							f    *file
							spec *ast.ValueSpec
						}{f, vs}
					}
					if len(vs.Values) == 0 && name.Name != "_" {
						zero = append(zero, assign{f, fmt.Sprintf("{ var zzvZero %s; %s = zzvZero }", f.text(vs.Type), name.Name)})
					}
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		var names []string
		var f *file
		blank := true
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
			if b := byObj[v]; b != nil {
				f = b.f
			}
		}
		if f == nil || blank {
			continue
		}
		inits = append(inits, assign{f, strings.Join(names, ", ") + " = " + f.renderRange(f.off(in.Rhs.Pos()), f.off(in.Rhs.End()))})
	}
	n := 0
	var order []string
	put := func(a assign) {
		n++
		name := fmt.Sprintf("zzvReset%d", n)
		fmt.Fprintf(&a.f.tail, "\nfunc %s() { %s }\n", name, a.text)
		order = append(order, name)
	}
	for _, a := range zero {
		put(a)
	}
	for _, a := range inits {
		put(a)
	}
	for _, f := range p.files {
		k := 0
		for _, d := range f.ast.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				k++
				order = append(order, fmt.Sprintf("zzvInit%d_%d", f.off(fd.Pos()), k))
			}
		}
	}
	if len(order) > 0 {
		last := p.files[len(p.files)-1]
		last.tail.WriteString("\nfunc init() {\n")
		for _, name := range order {
			fmt.Fprintf(&last.tail, "\tzzv.AddReset(%s)\n", name)
		}
		last.tail.WriteString("}\n")
	}
}

func (f *file) renderRange(from, to int) string {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].off < f.edits[j].off })
	var b bytes.Buffer
	at := from
	for _, e := range f.edits {
		if e.off < from || e.end > to {
			continue
		}
		b.Write(f.src[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(f.src[at:to])
	return b.String()
}

func (f *file) render() []byte {
	return append([]byte(f.renderRange(0, len(f.src))), f.tail.Bytes()...)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
