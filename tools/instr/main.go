// Command instr copies the packages of github.com/wI2L/jettison from a
// working tree into a scratch module and instruments the copies for
// deterministic simulation. It never looks at what the code is called or how
// it is organised; it only applies these generic rules to every function:
//
//   - a yield point before every statement (unless -noyield);
//   - imports of sync and sync/atomic are redirected to simulated versions;
//   - go statements, channel operations, time.Now/Sleep/Since and
//     runtime.Gosched are redirected to the simulator;
//   - the runtime map iterator, where pulled in by linkname, is wrapped so
//     that the simulator decides the iteration order;
//   - every package level variable and init function is collected in a
//     generated reset function, so a process restart can be simulated.
//
// The edits are textual insertions on existing lines: line numbers stay those
// of the original files.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type edit struct {
	off, end int // replace [off,end) with text
	text     string
	seq      int
}

type fileInfo struct {
	path string // path of the source file
	rel  string
	src  []byte
	f    *ast.File
	ed   []edit
	tail []string
}

func (fi *fileInfo) ins(off int, s string)  { fi.ed = append(fi.ed, edit{off, off, s, len(fi.ed)}) }
func (fi *fileInfo) rep(a, b int, s string) { fi.ed = append(fi.ed, edit{a, b, s, len(fi.ed)}) }
func (fi *fileInfo) apply(from, to int) string { // source text [from,to) with the edits applied
	es := append([]edit(nil), fi.ed...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	at := from
	for _, e := range es {
		if e.off < from || e.off > to || e.end > to {
			continue
		}
		if e.off < at {
			continue // overlapped by a replacement
		}
		b.Write(fi.src[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(fi.src[at:to])
	return b.String()
}

var (
	src     = flag.String("src", "/repo", "working tree")
	out     = flag.String("out", "", "scratch module root")
	noyield = flag.Bool("noyield", false, "no statement level yield points")
	goBin   = flag.String("go", "go", "go command")
)

const simPath = "github.com/wI2L/jettison/zzsim"

var sites []string

func main() {
	flag.Parse()
	cmd := exec.Command(*goBin, "list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Standard,Module,Export", ".")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	check(err)
	dec := json.NewDecoder(strings.NewReader(string(o)))
	n := 0
	for dec.More() {
		var p struct {
			ImportPath, Dir string
			GoFiles         []string
			Standard        bool
			Export          string
			Module          *struct {
				Path string
				Main bool
			}
		}
		check(dec.Decode(&p))
		exports[p.ImportPath] = p.Export
		if p.Module == nil || !p.Module.Main {
			continue
		}
		rel, err := filepath.Rel(*src, p.Dir)
		check(err)
		doPackage(p.ImportPath, p.Dir, rel, p.GoFiles)
		n++
	}
	if n == 0 {
		check(fmt.Errorf("no packages found"))
	}
	// Site table.
	var b strings.Builder
	b.WriteString("package rt\n\nvar SiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("}\n")
	check(os.MkdirAll(filepath.Join(*out, "zzsim/rt"), 0o755))
	check(os.WriteFile(filepath.Join(*out, "zzsim/rt/sites.go"), []byte(b.String()), 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

var linkRE = regexp.MustCompile(`(?m)^//go:linkname\s+(\S+)\s+(\S+)\s*$`)

// exports maps import paths to files of export data; dependencies come first.
var exports = map[string]string{}

func doPackage(path, dir, rel string, names []string) {
	fset := token.NewFileSet()
	var files []*fileInfo
	pkgName := ""
	for _, nme := range names {
		p := filepath.Join(dir, nme)
		s, err := os.ReadFile(p)
		check(err)
		f, err := parser.ParseFile(fset, p, s, parser.ParseComments)
		check(err)
		pkgName = f.Name.Name
		files = append(files, &fileInfo{path: p, rel: filepath.Join(rel, nme), src: s, f: f})
	}
	g := &pkgInfo{fset: fset, files: files}
	g.typeCheck(path)
	for _, fi := range files {
		g.instrument(fi)
	}
	g.resets()
	od := filepath.Join(*out, rel)
	check(os.MkdirAll(od, 0o755))
	for _, fi := range files {
		txt := fi.apply(0, len(fi.src))
		if len(fi.tail) > 0 {
			txt += "\n" + strings.Join(fi.tail, "\n") + "\n"
		}
		check(os.WriteFile(filepath.Join(od, filepath.Base(fi.path)), []byte(txt), 0o644))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zzrt %q\n\nfunc init() { zzrt.RegisterReset(zzResetAll) }\n\nfunc zzResetAll() {\n", pkgName, simPath+"/rt")
	for _, c := range g.resetCalls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("}\n")
	check(os.WriteFile(filepath.Join(od, "zz_reset.go"), []byte(b.String()), 0o644))
}

type pkgInfo struct {
	fset       *token.FileSet
	files      []*fileInfo
	resetCalls []string
	nInit      int
	nSel       int
	types      map[ast.Expr]types.TypeAndValue
}

// typeCheck finds the types of expressions, which matter for few rules; what
// cannot be typed is left as it is.
func (g *pkgInfo) typeCheck(path string) {
	g.types = map[ast.Expr]types.TypeAndValue{}
	var fs []*ast.File
	for _, fi := range g.files {
		fs = append(fs, fi.f)
	}
	conf := types.Config{
		Error: func(error) {},
		Importer: importer.ForCompiler(g.fset, "gc", func(p string) (io.ReadCloser, error) {
			if exports[p] == "" {
				return nil, fmt.Errorf("no export data for %s", p)
			}
			return os.Open(exports[p])
		}),
	}
	conf.Check(path, g.fset, fs, &types.Info{Types: g.types})
}

func (g *pkgInfo) off(p token.Pos) int { return g.fset.Position(p).Offset }

func hasDirective(doc *ast.CommentGroup, d string) bool {
	if doc == nil {
		return false
	}
	for _, c := range doc.List {
		if strings.HasPrefix(c.Text, d) {
			return true
		}
	}
	return false
}

func (g *pkgInfo) instrument(fi *fileInfo) {
	f := fi.f
	fi.ins(g.off(f.Name.End()), fmt.Sprintf("; import zzrt %q; import zzunsafe \"unsafe\"", simPath+"/rt"))
	fi.tail = append(fi.tail, "var _ = zzrt.Used", "var _ zzunsafe.Pointer")
	pkgs := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		base := path[strings.LastIndex(path, "/")+1:]
		name := base
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			fi.rep(g.off(im.Path.Pos()), g.off(im.Path.End()), imp(im.Name == nil, "sync", simPath+"/simsync"))
		case "sync/atomic":
			fi.rep(g.off(im.Path.Pos()), g.off(im.Path.End()), imp(im.Name == nil, "atomic", simPath+"/simatomic"))
		case "time", "runtime", "context":
			pkgs[name] = path
		}
	}
	usedTime, usedRuntime, usedContext := "", "", ""
	var selects []ast.Stmt // and ranges over channels
	// Statements, selectors, goroutines, channels.
	inComm := map[ast.Node]bool{}
	skipFn := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			if x.Comm != nil {
				inComm[x.Comm] = true
				switch y := x.Comm.(type) {
				case *ast.ExprStmt:
					inComm[ast.Unparen(y.X)] = true
				case *ast.AssignStmt:
					inComm[ast.Unparen(y.Rhs[0])] = true
				}
			}
		case *ast.FuncDecl:
			if hasDirective(x.Doc, "//go:nosplit") || hasDirective(x.Doc, "//go:norace") || hasDirective(x.Doc, "//go:systemstack") {
				skipFn[x] = true
			}
		}
		return true
	})
	two := map[ast.Node]bool{} // receive expressions assigned to two values
	ast.Inspect(f, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == 2 && len(a.Rhs) == 1 {
			two[a.Rhs[0]] = true
		}
		if a, ok := n.(*ast.ValueSpec); ok && len(a.Names) == 2 && len(a.Values) == 1 {
			two[a.Values[0]] = true
		}
		return true
	})
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if skipFn[x] {
				return false
			}
			if x.Body == nil {
				return false
			}
		case *ast.BlockStmt:
			g.yields(fi, x.List)
		case *ast.CaseClause:
			g.yields(fi, x.Body)
		case *ast.CommClause:
			g.yields(fi, x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 && !*noyield {
				fi.ins(g.off(x.Body.Lbrace)+1, g.y(x.Body.Lbrace)+" ")
			}
		case *ast.GoStmt:
			g.goStmt(fi, x)
		case *ast.SendStmt:
			if !inComm[x] {
				fi.ins(g.off(x.Pos()), "zzrt.SendTo(")
				fi.rep(g.off(x.Arrow), g.off(x.Arrow)+2, ")(")
				fi.ins(g.off(x.End()), ")")
			}
		case *ast.SelectStmt:
			selects = append(selects, x)
		case *ast.RangeStmt:
			if t := g.types[x.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					selects = append(selects, x)
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 && id.Obj == nil {
				fi.rep(g.off(id.Pos()), g.off(id.End()), "zzrt.Close")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inComm[x] {
				fn := "zzrt.Recv("
				if two[x] {
					fn = "zzrt.Recv2("
				}
				fi.rep(g.off(x.OpPos), g.off(x.OpPos)+2, fn)
				fi.ins(g.off(x.End()), ")")
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			switch pkgs[id.Name] + "." + x.Sel.Name {
			case "time.Now", "time.Sleep", "time.Since", "time.Until", "time.After", "time.Timer", "time.Ticker",
				"time.NewTimer", "time.NewTicker", "time.Tick", "time.AfterFunc":
				fi.rep(g.off(x.Pos()), g.off(x.End()), "zzrt.Time"+x.Sel.Name)
				usedTime = id.Name
			case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.AfterFunc":
				fi.rep(g.off(x.Pos()), g.off(x.End()), "zzrt.Context"+x.Sel.Name)
				usedContext = id.Name
			case "runtime.Gosched", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine", "runtime.SetFinalizer":
				fi.rep(g.off(x.Pos()), g.off(x.End()), "zzrt."+x.Sel.Name)
				usedRuntime = id.Name
			}
		}
		return true
	}
	ast.Inspect(f, walk)
	for i := len(selects) - 1; i >= 0; i-- { // inner ones first
		switch x := selects[i].(type) {
		case *ast.SelectStmt:
			g.selectStmt(fi, x)
		case *ast.RangeStmt:
			g.rangeChan(fi, x)
		}
	}
	if usedTime != "" {
		fi.tail = append(fi.tail, "var _ "+usedTime+".Duration")
	}
	if usedContext != "" {
		fi.tail = append(fi.tail, "var _ "+usedContext+".Context")
	}
	if usedRuntime != "" {
		fi.tail = append(fi.tail, "var _ = "+usedRuntime+".KeepAlive")
	}
	// Linknamed map iterators.
	links := map[string]string{}
	for _, m := range linkRE.FindAllSubmatchIndex(fi.src, -1) {
		name, target := string(fi.src[m[2]:m[3]]), string(fi.src[m[4]:m[5]])
		switch target {
		case "reflect.mapiterinit", "runtime.mapiterinit":
			links[name] = "init"
		case "reflect.mapiternext", "runtime.mapiternext":
			links[name] = "next"
		default:
			continue
		}
		fi.rep(m[0], m[0]+len("//go:linkname"), "//zz-linkname")
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body != nil || links[fd.Name.Name] == "" || fd.Recv != nil {
			continue
		}
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:noescape") {
					o := g.off(c.Pos())
					fi.rep(o, o+len("//go:noescape"), "//zz-noescape")
				}
			}
		}
		var ps, args []string
		i := 0
		for _, p := range fd.Type.Params.List {
			k := len(p.Names)
			if k == 0 {
				k = 1
			}
			ty := string(fi.src[g.off(p.Type.Pos()):g.off(p.Type.End())])
			for ; k > 0; k-- {
				nm := fmt.Sprintf("zza%d", i)
				i++
				ps = append(ps, nm+" "+ty)
				args = append(args, "zzunsafe.Pointer("+nm+")")
			}
		}
		want, fn := 3, "zzrt.MapIterInit"
		if links[fd.Name.Name] == "next" {
			want, fn = 1, "zzrt.MapIterNext"
		}
		if i != want || fd.Type.Results != nil {
			continue
		}
		fi.rep(g.off(fd.Pos()), g.off(fd.End()), fmt.Sprintf("func %s(%s) { %s(%s) }", fd.Name.Name, strings.Join(ps, ", "), fn, strings.Join(args, ", ")))
	}
}

func imp(addName bool, name, path string) string {
	if addName {
		return fmt.Sprintf("%s %q", name, path)
	}
	return fmt.Sprintf("%q", path)
}

func (g *pkgInfo) y(p token.Pos) string {
	pos := g.fset.Position(p)
	id := len(sites)
	sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
	return fmt.Sprintf("zzrt.Y(%d);", id)
}

func (g *pkgInfo) yields(fi *fileInfo, list []ast.Stmt) {
	if *noyield {
		return
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		fi.ins(g.off(s.Pos()), g.y(s.Pos())+" ")
	}
}

func (g *pkgInfo) goStmt(fi *fileInfo, x *ast.GoStmt) {
	// go f(a, b)  =>  { zzg0 := a; zzg1 := b; zzrt.Go(func() { f(zzg0, zzg1) }) }
	call := x.Call
	pre := ""
	for i, a := range call.Args {
		simple := false
		switch y := a.(type) {
		case *ast.BasicLit:
			simple = true
		case *ast.Ident:
			simple = y.Name == "nil" || y.Name == "true" || y.Name == "false"
		}
		if simple {
			continue
		}
		nm := fmt.Sprintf("zzg%d", i)
		pre += nm + " := " + string(fi.src[g.off(a.Pos()):g.off(a.End())]) + "; "
		fi.rep(g.off(a.Pos()), g.off(a.End()), nm)
	}
	fi.rep(g.off(x.Go), g.off(x.Go)+2, "{ "+pre+"zzrt.Go(func() {")
	fi.ins(g.off(x.End()), "}) }")
}

// selectStmt turns a select statement into a switch over what the simulator
// decides: the operands are evaluated once and in source order, then one of
// the operations that can proceed is performed.
func (g *pkgInfo) selectStmt(fi *fileInfo, x *ast.SelectStmt) {
	if len(x.Body.List) == 0 {
		fi.rep(g.off(x.Pos()), g.off(x.End()), "zzrt.Forever()")
		return
	}
	text := func(e ast.Expr) string {
		return strings.ReplaceAll(fi.apply(g.off(e.Pos()), g.off(e.End())), "\n", " ")
	}
	var names, inits []string
	hasDefault := false
	g.nSel++
	for i, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		nm := fmt.Sprintf("zzc%d_%d", g.nSel, i)
		head := fmt.Sprintf("case %d: ", len(names))
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "zzrt.SendCase("+text(y.Chan)+")("+text(y.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, "zzrt.RecvCase("+text(ast.Unparen(y.X).(*ast.UnaryExpr).X)+")")
		case *ast.AssignStmt:
			inits = append(inits, "zzrt.RecvCase("+text(ast.Unparen(y.Rhs[0]).(*ast.UnaryExpr).X)+")")
			lhs := []string{text(y.Lhs[0]), "_"}
			if len(y.Lhs) > 1 {
				lhs[1] = text(y.Lhs[1])
			}
			op := y.Tok.String()
			if op == ":=" && lhs[0] == "_" && lhs[1] == "_" {
				op = "="
			}
			head += strings.Join(lhs, ", ") + " " + op + " " + nm + ".Get(); "
		}
		names = append(names, nm)
		fi.rep(g.off(cc.Pos()), g.off(cc.Colon)+1, head)
	}
	if len(names) == 0 {
		fi.rep(g.off(x.Pos()), g.off(x.Body.Lbrace)+1, "switch {")
		return
	}
	fi.rep(g.off(x.Pos()), g.off(x.Body.Lbrace)+1, fmt.Sprintf("switch %s := %s; zzrt.Select(%v, %s) {", strings.Join(names, ", "), strings.Join(inits, ", "), hasDefault, strings.Join(names, ", ")))
	if !hasDefault {
		fi.ins(g.off(x.Body.Rbrace), "default: panic(\"zzrt: no case\") ")
	}
}

// rangeChan turns a range over a channel into a loop over what the simulator
// receives. The variables keep the scope they have in the language version of
// the module.
func (g *pkgInfo) rangeChan(fi *fileInfo, x *ast.RangeStmt) {
	ch := strings.ReplaceAll(fi.apply(g.off(x.X.Pos()), g.off(x.X.End())), "\n", " ")
	v, set := "zzv", ""
	if x.Key != nil {
		k := string(fi.src[g.off(x.Key.Pos()):g.off(x.Key.End())])
		switch {
		case k == "_":
		case x.Tok == token.DEFINE:
			v = k
		default:
			set = " " + k + " = zzv;"
		}
	}
	fi.rep(g.off(x.Pos()), g.off(x.Body.Lbrace)+1, fmt.Sprintf("for %s, zzl := zzrt.RangeChan(%s); zzl.Next(&%s); {%s", v, ch, v, set))
}

// resets emits reset functions for package level variables in dependency
// order (as package initialisation would) and for init functions.
func (g *pkgInfo) resets() {
	type vdecl struct {
		fi    *fileInfo
		names []string
		call  string
		deps  map[string]bool
	}
	owner := map[string]*vdecl{}
	funcs := map[string]*ast.FuncDecl{}
	var order []*vdecl
	var inits []string
	k := 0
	for _, fi := range g.files {
		for _, d := range fi.f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					g.nInit++
					nm := fmt.Sprintf("zzInit%d", g.nInit)
					fi.rep(g.off(x.Name.Pos()), g.off(x.Name.End()), nm)
					fi.tail = append(fi.tail, fmt.Sprintf("func init() { %s() }", nm))
					inits = append(inits, nm)
				} else if x.Recv == nil {
					funcs[x.Name.Name] = x
				} else {
					funcs["."+x.Name.Name] = x
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					mk := func(names []string, body string, exprs []ast.Expr) {
						real := false
						for _, n := range names {
							real = real || n != "_"
						}
						if !real {
							return
						}
						k++
						v := &vdecl{fi: fi, names: names, call: fmt.Sprintf("zzReset%d", k), deps: map[string]bool{}}
						fi.tail = append(fi.tail, fmt.Sprintf("func %s() { %s }", v.call, body))
						for _, e := range exprs {
							g.refs(e, v.deps, funcs)
						}
						for _, n := range names {
							owner[n] = v
						}
						order = append(order, v)
					}
					var names []string
					for _, n := range vs.Names {
						names = append(names, n.Name)
					}
					text := func(e ast.Expr) string { return fi.apply(g.off(e.Pos()), g.off(e.End())) }
					switch {
					case len(vs.Values) == 0:
						ty := text(vs.Type)
						for _, n := range names {
							if n != "_" {
								mk([]string{n}, fmt.Sprintf("var zzz %s; %s = zzz", ty, n), nil)
							}
						}
					case len(vs.Values) == len(names):
						for i, n := range names {
							if n != "_" {
								mk([]string{n}, n+" = "+text(vs.Values[i]), []ast.Expr{vs.Values[i]})
							}
						}
					default:
						mk(names, strings.Join(names, ", ")+" = "+text(vs.Values[0]), vs.Values)
					}
				}
			}
		}
	}
	// functions may be declared after the variables that use them
	for _, v := range order {
		for changed := true; changed; {
			changed = false
			for d := range v.deps {
				if fd, ok := funcs[d]; ok && fd.Body != nil {
					before := len(v.deps)
					g.refs(fd.Body, v.deps, funcs)
					changed = changed || len(v.deps) != before
				}
			}
		}
	}
	done := map[*vdecl]int{}
	var visit func(v *vdecl)
	visit = func(v *vdecl) {
		if done[v] != 0 {
			return
		}
		done[v] = 1
		var ds []string
		for d := range v.deps {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			if o := owner[d]; o != nil {
				visit(o)
			}
		}
		done[v] = 2
		g.resetCalls = append(g.resetCalls, v.call)
	}
	for _, v := range order {
		visit(v)
	}
	g.resetCalls = append(g.resetCalls, inits...)
}

func (g *pkgInfo) refs(n ast.Node, into map[string]bool, funcs map[string]*ast.FuncDecl) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.Ident:
			into[x.Name] = true
		case *ast.SelectorExpr:
			into["."+x.Sel.Name] = true
		}
		return true
	})
}
