// Command instrument makes the simulated copy ("shadow") of ndaumath.
//
// It copies every non-test source file of /repo that a build would select,
// and rewrites it textually (line numbers are kept) so that:
//
//   - simrt.Yield(site) runs before every statement and every loop iteration,
//   - go statements, channel operations and select run on the simulated
//     scheduler,
//   - package sync, the clock, the global math/rand generator and crypto/rand
//     are the simulator's,
//   - map iteration order is drawn from the simulator,
//   - every package has a SimReinit__ function which gives its package-level
//     state the value it has in a freshly started process,
//   - accesses to maps, to package state that changes, to slice elements that
//     are written, and calls of sync/atomic are reported to the simulator,
//   - syscall/js is a simulated JavaScript host, and package main becomes
//     importable.
//
// Nothing else changes: the statements that run are the repository's own.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/ndau/ndaumath"
const rt = "simrt__"

var (
	repo   = flag.String("repo", "/repo", "")
	outDir = flag.String("out", "", "shadow module directory")
	rawDir = flag.String("raw", "", "scratch directory for the uninstrumented copy")
	modf   = flag.String("modfile", "", "modfile for go list, run in -listdir")
	listd  = flag.String("listdir", "", "")
)

type file struct {
	name string // base name in the shadow
	src  []byte
	ast  *ast.File
}

type pkg struct {
	path, dir string // import path, relative dir
	name      string
	files     []*file
	imports   map[string]bool
	bad       error
	tpkg      *types.Package
	info      *types.Info
}

var (
	fset  = token.NewFileSet()
	sites []string
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func main() {
	flag.Parse()
	pkgs := load()
	order := topo(pkgs)
	for _, p := range pkgs {
		for _, f := range p.files {
			write(filepath.Join(*rawDir, p.dir, f.name), f.src)
		}
	}
	exports := goList()
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	gc := importer.ForCompiler(fset, "gc", lookup)
	done := map[string]*types.Package{}
	imp := impFunc(func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		if strings.HasPrefix(path, modPath+"/") {
			return nil, fmt.Errorf("package %s was not loaded", path)
		}
		return gc.Import(path)
	})
	for _, p := range order {
		check(p, imp)
		if p.bad == nil {
			done[p.path] = p.tpkg
		} else {
			fmt.Fprintf(os.Stderr, "instrument: %s left out: %v\n", p.path, p.bad)
		}
	}
	for _, p := range order {
		if p.bad == nil {
			findMutable(p)
		}
	}
	os.RemoveAll(*outDir)
	write(filepath.Join(*outDir, "go.mod"), []byte("module "+modPath+"\n\ngo 1.26.0\n"))
	for _, p := range order {
		if p.bad == nil {
			emit(p)
		}
	}
	needs := func(p *pkg, bad string) bool { return reaches(p, bad, pkgs, map[string]bool{}) }
	group := func(name string, keep func(p *pkg) bool) {
		var b, c bytes.Buffer
		fmt.Fprintf(&b, "// Package %s restarts the library.\npackage %s\n\nimport (\n", name, name)
		i := 0
		for _, p := range order {
			if p.bad != nil || !keep(p) {
				continue
			}
			fmt.Fprintf(&b, "\tp%d %q\n", i, p.path)
			fmt.Fprintf(&c, "\tp%d.SimReinit__()\n", i)
			i++
		}
		fmt.Fprintf(&b, ")\n\n// Reinit gives every package-level variable its initial value.\nfunc Reinit() {\n%s}\n", c.String())
		write(filepath.Join(*outDir, "simall", name, name+".go"), b.Bytes())
	}
	dec := "github.com/ericlagergren/decimal"
	isCmd := func(p *pkg) bool { return strings.HasPrefix(p.dir, "cmd/") }
	group("hd", func(p *pkg) bool { return !isCmd(p) && !needs(p, dec) })
	group("eco", func(p *pkg) bool {
		return !isCmd(p) && needs(p, dec) || p.dir == "pkg/constants" || p.dir == "pkg/ndauerr" || p.dir == "pkg/bitset256"
	})
	group("svc", func(p *pkg) bool { return !needs(p, dec) && (!isCmd(p) || p.dir == "cmd/keyaddr") })
	var b bytes.Buffer
	b.WriteString("// Package sites names the instrumentation points.\npackage sites\n\n// Names is file:line of every point.\nvar Names = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("}\n")
	write(filepath.Join(*outDir, "simall", "sites", "sites.go"), b.Bytes())
}

func reaches(p *pkg, want string, all map[string]*pkg, seen map[string]bool) bool {
	if seen[p.path] {
		return false
	}
	seen[p.path] = true
	for i := range p.imports {
		if i == want || strings.HasPrefix(i, want+"/") {
			return true
		}
		if q := all[i]; q != nil && reaches(q, want, all, seen) {
			return true
		}
	}
	return false
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

func write(path string, b []byte) {
	die(os.MkdirAll(filepath.Dir(path), 0o755))
	die(os.WriteFile(path, b, 0o644))
}

func load() map[string]*pkg {
	pkgs := map[string]*pkg{}
	var dirs []string
	for _, root := range []string{"pkg", "cmd"} {
		filepath.Walk(filepath.Join(*repo, root), func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if fi.IsDir() {
				b := fi.Name()
				if b == "testdata" || b == "vendor" || b == "node_modules" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") {
					return filepath.SkipDir
				}
				dirs = append(dirs, path)
			}
			return nil
		})
	}
	// packages at the root of the repository, if any ever appear
	dirs = append(dirs, *repo)
	for _, d := range dirs {
		rel, _ := filepath.Rel(*repo, d)
		ctx := build.Default
		ctx.CgoEnabled = false
		if strings.HasPrefix(rel, "cmd"+string(filepath.Separator)) {
			ctx.GOOS, ctx.GOARCH = "js", "wasm"
		}
		ents, _ := os.ReadDir(d)
		p := &pkg{path: modPath + "/" + filepath.ToSlash(rel), dir: rel, imports: map[string]bool{}}
		if rel == "." {
			p.path = modPath
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(d, n); err != nil || !ok {
				continue
			}
			src, err := os.ReadFile(filepath.Join(d, n))
			die(err)
			f, err := parser.ParseFile(fset, filepath.Join(d, n), src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				p.bad = err
				continue
			}
			// drop build constraints; they have been evaluated
			src = append([]byte(nil), src...)
			for _, cg := range f.Comments {
				if cg.Pos() > f.Package {
					break
				}
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") || strings.HasPrefix(c.Text, "//+build") {
						o := fset.Position(c.Pos()).Offset
						copy(src[o:], []byte("//x"))
					}
				}
			}
			var es edits
			for _, im := range f.Imports {
				ip, _ := strconv.Unquote(im.Path.Value)
				p.imports[ip] = true
				if ip == "syscall/js" {
					alias := ""
					if im.Name == nil {
						alias = "js "
					}
					es.replace(off(im.Path.Pos()), off(im.Path.End()), alias+`"verif/simjs"`)
					p.imports["verif/simjs"] = true
				}
			}
			p.name = f.Name.Name
			if f.Name.Name == "main" {
				es.replace(off(f.Name.Pos()), off(f.Name.End()), "simmain")
				for _, dc := range f.Decls {
					if fd, ok := dc.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						es.replace(off(fd.Name.Pos()), off(fd.Name.End()), "SimMain__")
					}
				}
				p.name = "simmain"
			}
			src = es.apply(src, 0, len(src), false)
			// avoid GOOS/GOARCH file name suffixes
			base := strings.TrimSuffix(n, ".go")
			f2, err := parser.ParseFile(fset, filepath.Join(d, n), src, parser.ParseComments|parser.SkipObjectResolution)
			die(err)
			p.files = append(p.files, &file{name: base + "_s.go", src: src, ast: f2})
		}
		if len(p.files) > 0 {
			pkgs[p.path] = p
		}
	}
	write(filepath.Join(*rawDir, "go.mod"), []byte("module "+modPath+"\n\ngo 1.26.0\n"))
	return pkgs
}

func topo(pkgs map[string]*pkg) []*pkg {
	var names []string
	for n := range pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*pkg
	seen := map[string]bool{}
	var visit func(p *pkg)
	visit = func(p *pkg) {
		if seen[p.path] {
			return
		}
		seen[p.path] = true
		var is []string
		for i := range p.imports {
			is = append(is, i)
		}
		sort.Strings(is)
		for _, i := range is {
			if q := pkgs[i]; q != nil {
				visit(q)
			}
		}
		out = append(out, p)
	}
	for _, n := range names {
		visit(pkgs[n])
	}
	return out
}

// goList returns export data files for everything outside the module.
func goList() map[string]string {
	want := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(*rawDir, "*", "*", "*.go"))
	_ = fs
	filepath.Walk(*rawDir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, ".go") {
			f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.ImportsOnly)
			if err == nil {
				for _, im := range f.Imports {
					ip, _ := strconv.Unquote(im.Path.Value)
					if !strings.HasPrefix(ip, modPath) && ip != "unsafe" && ip != "C" {
						want[ip] = true
					}
				}
			}
		}
		return nil
	})
	args := []string{"list", "-e", "-modfile=" + *modf, "-export", "-deps", "-json=ImportPath,Export,Error"}
	var ws []string
	for w := range want {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	cmd := exec.Command("go", append(args, ws...)...)
	cmd.Dir = *listd
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil && len(out) == 0 {
		die(err)
	}
	res := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for dec.More() {
		var e struct{ ImportPath, Export string }
		die(dec.Decode(&e))
		res[e.ImportPath] = e.Export
	}
	return res
}

func check(p *pkg, imp types.Importer) {
	if p.bad != nil {
		return
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.26"}
	var fs []*ast.File
	for _, f := range p.files {
		fs = append(fs, f.ast)
	}
	tp, err := conf.Check(p.path, fset, fs, p.info)
	if err != nil {
		p.bad = err
		return
	}
	p.tpkg = tp
}

func off(p token.Pos) int { return fset.PositionFor(p, false).Offset }

// edits are textual changes, in terms of the original offsets.
type edit struct {
	from, to int
	text     string
	class    int // 0 closing insertion, 1 opening insertion, 2 replacement
	seq      int
}
type edits struct {
	l []edit
	n int
}

func (e *edits) add(from, to int, text string, class int) {
	e.n++
	e.l = append(e.l, edit{from, to, text, class, e.n})
}
func (e *edits) replace(from, to int, text string) { e.add(from, to, text, 2) }
func (e *edits) open(at int, text string)          { e.add(at, at, text, 1) }
func (e *edits) close(at int, text string)         { e.add(at, at, text, 0) }

// apply renders src[from:to]; with take the edits used are removed.
func (e *edits) apply(src []byte, from, to int, take bool) []byte {
	var in, rest []edit
	for _, x := range e.l {
		inside := x.from >= from && x.to <= to
		if inside && x.from == x.to {
			// an insertion on the boundary belongs to the range when it
			// wraps something inside it
			if x.from == from && x.class == 0 || x.from == to && x.class == 1 {
				inside = false
			}
			if from == to {
				inside = false
			}
		}
		if inside {
			in = append(in, x)
		} else {
			rest = append(rest, x)
		}
	}
	if take {
		e.l = rest
	}
	sort.SliceStable(in, func(i, j int) bool {
		a, b := in[i], in[j]
		if a.from != b.from {
			return a.from < b.from
		}
		if a.class != b.class {
			return a.class < b.class
		}
		if a.class == 1 {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	pos := from
	for _, x := range in {
		if x.from < pos {
			die(fmt.Errorf("overlapping edits at offset %d: %q", x.from, x.text))
		}
		out.Write(src[pos:x.from])
		out.WriteString(x.text)
		pos = x.to
	}
	out.Write(src[pos:to])
	return out.Bytes()
}

var timeFns = map[string]string{"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After"}
var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Pool": true, "Map": true,
	"Cond": true, "NewCond": true, "Locker": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}
var randTypes = map[string]bool{"Rand": true, "Source": true, "Source64": true, "Zipf": true, "New": true, "NewSource": true, "NewZipf": true,
	"NewPCG": true, "NewChaCha8": true, "PCG": true, "ChaCha8": true, "N": true}

type inst struct {
	p      *pkg
	f      *file
	e      edits
	skip   map[ast.Node]bool
	ctx    map[ast.Expr]int // how a place is used; see places.go
	norace bool
	keep   map[string]string
	tmp    int
}

func emit(p *pkg) {
	// where each variable's initialiser goes
	type initRef struct {
		file int
		name string
	}
	var inits []string
	fileInits := map[int]*bytes.Buffer{}
	ins := make([]*inst, len(p.files))
	for i, f := range p.files {
		in := &inst{p: p, f: f, skip: map[ast.Node]bool{}, ctx: map[ast.Expr]int{}, keep: map[string]string{}}
		ins[i] = in
		in.run()
		fileInits[i] = &bytes.Buffer{}
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range p.files {
			if f.ast.FileStart <= pos && pos <= f.ast.FileEnd {
				return i
			}
		}
		return -1
	}
	// zero values first
	for i, f := range p.files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				if gd.Doc != nil && strings.Contains(gd.Doc.Text(), "go:embed") || vs.Doc != nil {
					emb := false
					for _, g := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
						if g != nil {
							for _, c := range g.List {
								if strings.HasPrefix(c.Text, "//go:embed") {
									emb = true
								}
							}
						}
					}
					if emb {
						continue
					}
				}
				ty := ins[i].e.apply(f.src, off(vs.Type.Pos()), off(vs.Type.End()), false)
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					fn := fmt.Sprintf("simInit__%d", len(inits))
					inits = append(inits, fn)
					fmt.Fprintf(fileInits[i], "\nfunc %s() { %s = *new(%s) }\n", fn, n.Name, ty)
				}
			}
		}
	}
	for _, io := range p.info2order() {
		fi := fileOf(io.Rhs.Pos())
		var lhs []string
		blank := true
		for _, v := range io.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank || fi < 0 {
			continue
		}
		fn := fmt.Sprintf("simInit__%d", len(inits))
		inits = append(inits, fn)
		rhs := ins[fi].e.apply(p.files[fi].src, off(io.Rhs.Pos()), off(io.Rhs.End()), false)
		fmt.Fprintf(fileInits[fi], "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), rhs)
	}
	nInit := 0
	for i, f := range p.files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			fn := fmt.Sprintf("simInitFn__%d", nInit)
			nInit++
			ins[i].e.replace(off(fd.Name.Pos()), off(fd.Name.End()), fn)
			fmt.Fprintf(fileInits[i], "\nfunc init() { %s() }\n", fn)
			inits = append(inits, fn)
		}
	}
	for i, f := range p.files {
		in := ins[i]
		in.e.close(off(f.ast.Name.End()), `; import `+rt+` "verif/simrt"`)
		out := in.e.apply(f.src, 0, len(f.src), false)
		var b bytes.Buffer
		b.Write(out)
		b.WriteString("\n\nvar _ = " + rt + ".Yield\n")
		var ks []string
		for _, k := range in.keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k + "\n")
		}
		if in.norace {
			b.WriteString("var _ = " + rt + ".NoRace()\n")
		}
		b.Write(fileInits[i].Bytes())
		write(filepath.Join(*outDir, p.dir, f.name), b.Bytes())
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// SimReinit__ restarts the package.\nfunc SimReinit__() {\n", p.name)
	for _, fn := range inits {
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	b.WriteString("}\n")
	write(filepath.Join(*outDir, p.dir, "zz_simreinit_s.go"), b.Bytes())
}

func (p *pkg) info2order() []*types.Initializer { return p.info.InitOrder }

func (in *inst) site(pos token.Pos) int {
	ps := fset.Position(pos)
	rel, _ := filepath.Rel(*repo, ps.Filename)
	sites = append(sites, fmt.Sprintf("%s:%d", rel, ps.Line))
	return len(sites) - 1
}

func (in *inst) yield(pos token.Pos) string {
	return fmt.Sprintf("%s.Yield(%d);", rt, in.site(pos))
}

func (in *inst) isChan(x ast.Expr) bool {
	t := in.p.info.TypeOf(x)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) pkgOf(x ast.Expr) (string, string) {
	id, ok := x.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := in.p.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), id.Name
}

func (in *inst) isBuiltin(x ast.Expr, name string) bool {
	id, ok := x.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.p.info.Uses[id].(*types.Builtin)
	return ok
}

func (in *inst) run() {
	// mark comm clause operations so they are not rewritten on their own
	ast.Inspect(in.f.ast, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				in.skip[c] = true
			case *ast.ExprStmt:
				in.skip[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				in.skip[ast.Unparen(c.Rhs[0])] = true
				in.skip[c] = true
			}
		}
		return true
	})
	in.contexts()
	var stack []ast.Node
	ast.Inspect(in.f.ast, func(n ast.Node) bool {
		if n == nil {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			var parent ast.Node
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			in.post(x, parent)
			return true
		}
		stack = append(stack, n)
		return true
	})
}

func (in *inst) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			if x.Implicit {
				continue
			}
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		y := in.yield(s.Pos())
		if in.hasAtomic(s) {
			y += rt + ".SyncPoint();"
		}
		in.e.open(off(s.Pos()), y)
	}
}

func (in *inst) post(n, parent ast.Node) {
	e := &in.e
	switch x := n.(type) {
	case *ast.BlockStmt:
		in.stmts(x.List)
	case *ast.CaseClause:
		in.stmts(x.Body)
	case *ast.CommClause:
		in.stmts(x.Body)
	case *ast.ForStmt:
		e.close(off(x.Body.Lbrace)+1, in.yield(x.Pos()))
	case *ast.RangeStmt:
		e.close(off(x.Body.Lbrace)+1, in.yield(x.Pos()))
		t := in.p.info.TypeOf(x.X)
		if t == nil {
			break
		}
		switch t.Underlying().(type) {
		case *types.Map:
			fn := ""
			if x.Key != nil && x.Value != nil {
				fn = "MapSeq"
			} else if x.Key != nil {
				fn = "MapSeq1"
			}
			if fn != "" {
				e.open(off(x.X.Pos()), rt+"."+fn+"(")
				e.close(off(x.X.End()), ")")
			}
		case *types.Chan:
			e.open(off(x.X.Pos()), rt+".ChanSeq(")
			e.close(off(x.X.End()), ")")
		}
	case *ast.SendStmt:
		if in.skip[x] {
			break
		}
		e.open(off(x.Chan.Pos()), rt+".SendTo(")
		e.close(off(x.Chan.End()), ")")
		e.replace(off(x.Arrow), off(x.Arrow)+2, "(")
		e.close(off(x.Value.End()), ")")
	case *ast.UnaryExpr:
		if x.Op != token.ARROW || in.skip[x] {
			break
		}
		fn := "Recv"
		switch p := parent.(type) {
		case *ast.AssignStmt:
			if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
				fn = "Recv2"
			}
		case *ast.ValueSpec:
			if len(p.Names) == 2 && len(p.Values) == 1 {
				fn = "Recv2"
			}
		}
		e.replace(off(x.OpPos), off(x.OpPos)+2, rt+"."+fn+"(")
		e.close(off(x.X.End()), ")")
	case *ast.CallExpr:
		if in.isBuiltin(x.Fun, "close") {
			e.replace(off(x.Fun.Pos()), off(x.Fun.End()), rt+".Close")
		}
		if in.isBuiltin(x.Fun, "len") && len(x.Args) == 1 && in.isChan(x.Args[0]) {
			e.replace(off(x.Fun.Pos()), off(x.Fun.End()), rt+".ChanLen")
		}
		in.call(x, parent)
	case *ast.SelectorExpr:
		in.selector(x)
		in.place(x)
	case *ast.Ident:
		in.place(x)
	case *ast.IndexExpr:
		in.index(x)
		in.place(x)
	case *ast.StarExpr:
		in.place(x)
	case *ast.GoStmt:
		in.goStmt(x)
	case *ast.SelectStmt:
		in.selectStmt(x)
	}
}

func (in *inst) selector(x *ast.SelectorExpr) {
	path, local := in.pkgOf(x.X)
	if path == "" {
		return
	}
	name := x.Sel.Name
	to, keep := "", ""
	switch path {
	case "time":
		if r, ok := timeFns[name]; ok {
			to, keep = rt+"."+r, "var _ "+local+".Duration"
		}
	case "runtime":
		if name == "Gosched" {
			to, keep = rt+".Gosched", "var _ "+local+".Error"
		}
	case "sync":
		if syncNames[name] {
			to, keep = rt+"."+name, "var _ "+local+".Locker"
		}
	case "math/rand":
		if !randTypes[name] {
			to, keep = rt+".MR()."+name, "var _ "+local+".Source"
		}
	case "math/rand/v2":
		if !randTypes[name] {
			to, keep = rt+".MR2()."+name, "var _ "+local+".Source"
		}
	case "crypto/rand":
		switch name {
		case "Reader":
			to = rt + ".CryptoReader"
		case "Read":
			to = rt + ".CryptoRead"
		}
		keep = "var _ = " + local + ".Int"
	}
	if to != "" {
		in.e.replace(off(x.Pos()), off(x.End()), to)
		in.keep[path+" "+local] = keep
	}
}

func (in *inst) text(n ast.Node) string {
	return string(in.e.apply(in.f.src, off(n.Pos()), off(n.End()), true))
}

func (in *inst) goStmt(x *ast.GoStmt) {
	var pre, args []string
	for i, a := range x.Call.Args {
		tv := in.p.info.Types[a]
		t := in.text(a)
		if tv.Value != nil || tv.IsNil() {
			args = append(args, t)
			continue
		}
		in.tmp++
		v := fmt.Sprintf("simArg__%d", in.tmp)
		pre = append(pre, v+" := "+t)
		if x.Call.Ellipsis.IsValid() && i == len(x.Call.Args)-1 {
			v += "..."
		}
		args = append(args, v)
	}
	fun := in.text(x.Call.Fun)
	switch f := ast.Unparen(x.Call.Fun).(type) {
	case *ast.FuncLit:
	default:
		tv := in.p.info.Types[f]
		if !tv.IsBuiltin() && !tv.IsType() {
			in.tmp++
			v := fmt.Sprintf("simFun__%d", in.tmp)
			pre = append([]string{v + " := " + fun}, pre...)
			fun = v
		}
	}
	// drop whatever edits are left inside the statement (closing parens of
	// the call itself have none)
	in.e.apply(in.f.src, off(x.Pos()), off(x.End()), true)
	out := "{"
	if len(pre) > 0 {
		out += strings.Join(pre, "; ") + "; "
	}
	out += rt + ".Go(func() { " + fun + "(" + strings.Join(args, ", ") + ") }) }"
	in.e.replace(off(x.Pos()), off(x.End()), out)
}

func (in *inst) selectStmt(x *ast.SelectStmt) {
	if len(x.Body.List) == 0 {
		in.e.replace(off(x.Pos()), off(x.End()), "{"+rt+".Forever(); panic(`unreachable`)}")
		return
	}
	var pre, names, cases []string
	hasDef := false
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		in.tmp++
		v := fmt.Sprintf("simSel__%d", in.tmp)
		body := ""
		if len(c.Body) > 0 {
			from, to := off(c.Body[0].Pos()), off(c.Body[len(c.Body)-1].End())
			body = string(in.e.apply(in.f.src, from, to, true))
		}
		switch cm := c.Comm.(type) {
		case nil:
			hasDef = true
			cases = append(cases, "case -1: "+body)
			continue
		case *ast.SendStmt:
			pre = append(pre, fmt.Sprintf("%s := %s.SendCaseTo(%s)(%s)", v, rt, in.text(cm.Chan), in.text(cm.Value)))
		case *ast.ExprStmt:
			pre = append(pre, fmt.Sprintf("%s := %s.RecvCase(%s)", v, rt, in.text(ast.Unparen(cm.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			pre = append(pre, fmt.Sprintf("%s := %s.RecvCase(%s)", v, rt, in.text(ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr).X)))
			r := v + ".Val"
			l := in.text(cm.Lhs[0])
			if len(cm.Lhs) == 2 {
				l += ", " + in.text(cm.Lhs[1])
				r += ", " + v + ".Ok"
			}
			body = l + " " + cm.Tok.String() + " " + r + "; " + body
		}
		cases = append(cases, fmt.Sprintf("case %d: %s", len(names), body))
		names = append(names, v)
	}
	in.e.apply(in.f.src, off(x.Pos()), off(x.End()), true)
	out := "{" + strings.Join(pre, "; ")
	if len(pre) > 0 {
		out += "; "
	}
	out += fmt.Sprintf("switch %s.Select(%v", rt, hasDef)
	for _, n := range names {
		out += ", " + n
	}
	out += ") {" + strings.Join(cases, "\n") + "\ndefault: panic(`unreachable`)}}"
	in.e.replace(off(x.Pos()), off(x.End()), out)
}
