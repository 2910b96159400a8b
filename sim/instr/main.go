// Command instr copies a Go module tree, putting every source of
// nondeterminism of the copy behind the simulator (package verif.local/rt).
//
//	instr -src DIR -out DIR [-list-dir DIR] [-skip a,b] [-plain]
//
// All edits are made on the text of a line, so line numbers are unchanged.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, end int // replace src[at:end]
	text    string
	seq     int
}

type file struct {
	path, out string
	src       []byte
	f         *ast.File
	edits     []edit
	tail      string
	uses      map[string]bool
}

type pkg struct {
	dir, path string
	files     []*file
	info      *types.Info
}

var (
	fset  = token.NewFileSet()
	uniq  int
	stats = map[string]int{}
)

const rtName = "simrt_vp"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	src := flag.String("src", "", "module root")
	out := flag.String("out", "", "output root")
	exports := flag.String("exports", "", "directory in which to run go list -export (its packages and dependencies give type information)")
	skip := flag.String("skip", "", "comma separated directories (relative) to leave out")
	only := flag.String("only", "", "comma separated directories (relative) to keep")
	module := flag.String("module", "", "module path")
	plain := flag.Bool("plain", false, "yield points and package swaps only")
	reset := flag.Bool("reset", true, "re-initialise package variables before each run")
	flag.Parse()

	lookup := exportLookup(*exports)
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		if s != "" {
			skips[filepath.Clean(s)] = true
		}
	}
	onlys := map[string]bool{}
	for _, s := range strings.Split(*only, ",") {
		if s != "" {
			onlys[filepath.Clean(s)] = true
		}
	}
	var pkgs []*pkg
	err := filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, p)
		if !fi.IsDir() {
			return nil
		}
		base := filepath.Base(p)
		if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || skips[rel]) {
			return filepath.SkipDir
		}
		if len(onlys) > 0 && !onlys[rel] {
			return nil
		}
		if q := load(*src, *out, rel, *module); q != nil {
			pkgs = append(pkgs, q)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	for _, q := range pkgs {
		if !*plain {
			check(q, lookup)
		}
		instrument(q, *plain, *reset)
		write(q)
	}
	js, _ := json.Marshal(stats)
	fmt.Println(string(js))
}

func exportLookup(dir string) func(string) (io.ReadCloser, error) {
	m := map[string]string{}
	if dir != "" {
		cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "./...")
		cmd.Dir = dir
		cmd.Stderr = os.Stderr
		o, err := cmd.Output()
		if err != nil {
			fmt.Fprintf(os.Stderr, "instr: go list: %v\n", err)
		}
		for _, l := range strings.Split(string(o), "\n") {
			f := strings.SplitN(l, "\t", 2)
			if len(f) == 2 && f[1] != "" {
				m[f[0]] = f[1]
			}
		}
	}
	return func(path string) (io.ReadCloser, error) {
		f, ok := m[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
}

func load(src, out, rel, module string) *pkg {
	dir := filepath.Join(src, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	q := &pkg{dir: dir, path: module}
	if rel != "." {
		q.path = module + "/" + filepath.ToSlash(rel)
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if !strings.HasSuffix(n, ".go") {
			if strings.HasSuffix(n, ".s") {
				copyFile(filepath.Join(dir, n), filepath.Join(out, rel, n))
			}
			continue
		}
		if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		p := filepath.Join(dir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		q.files = append(q.files, &file{path: p, out: filepath.Join(out, rel, n), src: b, f: f, uses: map[string]bool{}})
	}
	if len(q.files) == 0 {
		return nil
	}
	return q
}

func copyFile(a, b string) {
	x, err := os.ReadFile(a)
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(b), 0o755)
	if err := os.WriteFile(b, x, 0o644); err != nil {
		die("%v", err)
	}
}

func check(q *pkg, lookup func(string) (io.ReadCloser, error)) {
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
	}
	var fs []*ast.File
	for _, f := range q.files {
		fs = append(fs, f.f)
	}
	bad := false
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", lookup),
		Error: func(err error) {
			bad = true
			fmt.Fprintf(os.Stderr, "instr: %s: %v\n", q.path, err)
		},
	}
	conf.Check(q.path, fset, fs, info)
	q.info = info
	if bad {
		stats["untyped_packages"]++
		q.info = nil
	}
}

func (f *file) off(p token.Pos) int { return fset.Position(p).Offset }

func (f *file) ins(p token.Pos, text string) { f.rep(f.off(p), f.off(p), text) }

func (f *file) rep(a, b int, text string) {
	uniq++
	f.edits = append(f.edits, edit{a, b, text, uniq})
}

// text stands for the source of n with the edits inside it; write expands it.
func (f *file) text(n ast.Node) string {
	return fmt.Sprintf("\x00%d:%d\x00", f.off(n.Pos()), f.off(n.End()))
}

// render returns src[from:to] with the edits inside it, of which those within a
// replaced range are left to the text of the replacement. An insertion at
// either border belongs to whoever asked for it: text never starts or ends
// where an edit of an outer node is.
func (f *file) render(from, to int) string {
	var o strings.Builder
	pos := from
	for _, e := range f.edits {
		if e.at < pos || e.end > to {
			continue
		}
		o.Write(f.src[pos:e.at])
		o.WriteString(f.expand(e.text))
		pos = e.end
	}
	o.Write(f.src[pos:to])
	return o.String()
}

func (f *file) expand(t string) string {
	for {
		i := strings.IndexByte(t, 0)
		if i < 0 {
			return t
		}
		j := i + 1 + strings.IndexByte(t[i+1:], 0)
		var a, b int
		fmt.Sscanf(t[i+1:j], "%d:%d", &a, &b)
		t = t[:i] + f.render(a, b) + t[j+1:]
	}
}

// importName returns the local name under which path is imported.
func (f *file) importName(path string) string {
	for _, im := range f.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == path {
			if im.Name != nil {
				return im.Name.Name
			}
			b := filepath.Base(path)
			if b == "v2" {
				return filepath.Base(filepath.Dir(path))
			}
			return b
		}
	}
	return ""
}

var swaps = map[string]string{
	"sync":         "verif.local/rt/vsync",
	"math/rand":    "verif.local/rt/vrand",
	"math/rand/v2": "verif.local/rt/vrand2",
	"context":      "verif.local/rt/vcontext",
}

var selectors = map[string]map[string]string{
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep",
		"After": "TimeAfter", "Tick": "TimeTick", "AfterFunc": "TimeAfterFunc",
		"NewTimer": "TimeNewTimer", "NewTicker": "TimeNewTicker", "Timer": "Timer", "Ticker": "Ticker"},
	"runtime": {"Gosched": "Gosched", "NumGoroutine": "NumGoroutine"},
}

func instrument(q *pkg, plain, reset bool) {
	initIdx := map[*ast.ValueSpec]int{}
	if q.info != nil {
		order(q, initIdx)
	}
	ninit := 0
	for _, f := range q.files {
		// imports
		for _, im := range f.f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if to, ok := swaps[p]; ok {
				name := ""
				if im.Name == nil {
					name = f.importName(p) + " "
				}
				f.rep(f.off(im.Path.Pos()), f.off(im.Path.End()), name+strconv.Quote(to))
				stats["import "+p]++
			}
		}
		f.rep(f.off(f.f.Name.End()), f.off(f.f.Name.End()), "; import "+rtName+" \"verif.local/rt\"")
		f.tail += "\nvar _ = " + rtName + ".Y\n"
		for path, sels := range selectors {
			local := f.importName(path)
			if local == "" || local == "_" || local == "." {
				continue
			}
			used := false
			ast.Inspect(f.f, func(n ast.Node) bool {
				se, ok := n.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				id, ok := se.X.(*ast.Ident)
				if !ok || id.Name != local {
					return true
				}
				if q.info != nil {
					if _, isPkg := q.info.Uses[id].(*types.PkgName); !isPkg {
						return true
					}
				}
				if to, ok := sels[se.Sel.Name]; ok {
					f.rep(f.off(se.Pos()), f.off(se.End()), rtName+"."+to)
					stats["call "+path+"."+se.Sel.Name]++
					used = true
				}
				return true
			})
			if used {
				if path == "time" {
					f.tail += "var _ " + local + ".Duration\n"
				} else {
					f.tail += "var _ = " + local + ".GOOS\n"
				}
			}
		}
		w := &walker{f: f, info: q.info, plain: plain, done: map[ast.Node]bool{}}
		for _, d := range f.f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				w.recvAssign = map[ast.Expr]bool{}
				ast.Inspect(fd, w.visit)
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				w.recvAssign = map[ast.Expr]bool{}
				ast.Inspect(gd, w.visit)
			}
		}
		if reset {
			for _, d := range f.f.Decls {
				switch d := d.(type) {
				case *ast.GenDecl:
					if d.Tok == token.VAR {
						for _, s := range d.Specs {
							f.resetSpec(q, s.(*ast.ValueSpec), initIdx)
						}
					}
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
						ninit++
						name := fmt.Sprintf("simrt_init_%d", ninit)
						f.rep(f.off(d.Name.Pos()), f.off(d.Name.End()), name)
						f.tail += fmt.Sprintf("func init() { %s(); %s.OnReset(%q, %d, %s) }\n", name, rtName, q.path, 100000+ninit, name)
						stats["init"]++
					}
				}
			}
		}
	}
}

// order numbers the variable specs by initialisation order.
func order(q *pkg, idx map[*ast.ValueSpec]int) {
	// dependency order: a spec comes after the package level specs it refers to
	// (directly or through functions)
	specOf := map[types.Object]*ast.ValueSpec{}
	bodyOf := map[types.Object]ast.Node{}
	var specs []*ast.ValueSpec
	for _, f := range q.files {
		for _, d := range f.f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					specs = append(specs, vs)
					for _, n := range vs.Names {
						if o := q.info.Defs[n]; o != nil {
							specOf[o] = vs
						}
					}
				}
			case *ast.FuncDecl:
				if o := q.info.Defs[d.Name]; o != nil && d.Body != nil {
					bodyOf[o] = d.Body
				}
			}
		}
	}
	n := 0
	done := map[*ast.ValueSpec]bool{}
	var visitSpec func(*ast.ValueSpec)
	var visitNode func(ast.Node, map[types.Object]bool)
	visitNode = func(nd ast.Node, seen map[types.Object]bool) {
		ast.Inspect(nd, func(x ast.Node) bool {
			id, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			o := q.info.Uses[id]
			if o == nil || seen[o] {
				return true
			}
			seen[o] = true
			if s := specOf[o]; s != nil {
				visitSpec(s)
			}
			if b := bodyOf[o]; b != nil {
				visitNode(b, seen)
			}
			return true
		})
	}
	visitSpec = func(s *ast.ValueSpec) {
		if done[s] {
			return
		}
		done[s] = true
		for _, v := range s.Values {
			visitNode(v, map[types.Object]bool{})
		}
		n++
		idx[s] = n
	}
	for _, s := range specs {
		visitSpec(s)
	}
}

func (f *file) resetSpec(q *pkg, s *ast.ValueSpec, idx map[*ast.ValueSpec]int) {
	names := []string{}
	allBlank := true
	for _, n := range s.Names {
		names = append(names, n.Name)
		if n.Name != "_" {
			allBlank = false
		}
	}
	if allBlank {
		return
	}
	for _, n := range names {
		if n != "_" {
			f.tail += fmt.Sprintf("func init() { %s.OnRoot(&%s) }\n", rtName, n)
		}
	}
	body := ""
	k := idx[s]
	if len(s.Values) == 0 {
		k = -1
		for _, n := range names {
			if n != "_" {
				body += fmt.Sprintf("%s = *new(%s); ", n, oneLine(f.text(s.Type)))
			}
		}
	} else {
		vals := []string{}
		for _, v := range s.Values {
			vals = append(vals, f.text(v))
		}
		if s.Type != nil && len(s.Values) == len(names) {
			for i, n := range names {
				body += fmt.Sprintf("{ var x %s = %s; %s = x }; ", f.text(s.Type), vals[i], n)
			}
		} else {
			body = strings.Join(names, ", ") + " = " + strings.Join(vals, ", ")
		}
	}
	f.tail += fmt.Sprintf("func init() { %s.OnReset(%q, %d, func() { %s }) }\n", rtName, q.path, k, body)
	stats["vars_reset"]++
}

func oneLine(s string) string { return s }

type walker struct {
	f          *file
	info       *types.Info
	plain      bool
	recvAssign map[ast.Expr]bool
	done       map[ast.Node]bool // channel operations that a select has taken over
}

func (w *walker) typeOf(e ast.Expr) types.Type {
	if w.info == nil {
		return nil
	}
	if tv, ok := w.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	return nil
}

func (w *walker) isChan(e ast.Expr) bool {
	_, ok := w.typeOf(e).(*types.Chan)
	return ok
}

func (w *walker) isSlice(e ast.Expr) bool {
	_, ok := w.typeOf(e).(*types.Slice)
	return ok
}

func (w *walker) list(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		w.f.ins(s.Pos(), rtName+".Y(); ")
		stats["yield_points"]++
	}
}

func (w *walker) loopBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		w.f.ins(b.Rbrace, " "+rtName+".Y() ")
		stats["yield_points"]++
	}
}

func (w *walker) visit(n ast.Node) bool {
	f := w.f
	switch n := n.(type) {
	case *ast.BlockStmt:
		isClauses := false
		for _, s := range n.List {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				isClauses = true
			}
		}
		if !isClauses {
			w.list(n.List)
		}
	case *ast.CaseClause:
		w.list(n.Body)
	case *ast.CommClause:
		w.list(n.Body)
	case *ast.ForStmt:
		w.loopBody(n.Body)
	case *ast.RangeStmt:
		w.loopBody(n.Body)
		if w.plain {
			break
		}
		if _, ok := w.typeOf(n.X).(*types.Map); ok {
			w.mapRange(n)
		} else if w.isChan(n.X) {
			w.chanRange(n)
		}
	case *ast.GoStmt:
		w.goStmt(n)
	case *ast.SelectStmt:
		if !w.plain && w.info != nil {
			w.selectStmt(n)
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := ast.Unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.recvAssign[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := ast.Unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.recvAssign[u] = true
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !w.plain && w.info != nil && !w.done[n] {
			name := "Recv"
			if w.recvAssign[n] {
				name = "Recv2"
			}
			a := f.off(n.OpPos)
			f.rep(a, a+2, rtName+"."+name+"(")
			f.ins(n.End(), ")")
			stats["chan_ops"]++
		}
	case *ast.SendStmt:
		if !w.plain && w.info != nil && !w.done[n] {
			f.ins(n.Chan.Pos(), rtName+".Send(")
			a := f.off(n.Arrow)
			f.rep(a, a+2, ")(")
			f.ins(n.Value.End(), ")")
			stats["chan_ops"]++
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && !w.plain && w.info != nil {
			if b, isB := w.info.Uses[id].(*types.Builtin); isB {
				switch {
				case b.Name() == "close":
					f.rep(f.off(id.Pos()), f.off(id.End()), rtName+".Close")
					stats["chan_ops"]++
				case b.Name() == "len" && len(n.Args) == 1 && w.isChan(n.Args[0]):
					f.rep(f.off(id.Pos()), f.off(id.End()), rtName+".ChanLen")
					stats["chan_ops"]++
				case b.Name() == "copy":
					f.ins(n.Pos(), rtName+".Cost(")
					f.ins(n.End(), ")")
				case b.Name() == "append" && n.Ellipsis.IsValid() && len(n.Args) == 2 && w.isSlice(n.Args[1]):
					f.ins(n.Args[1].Pos(), rtName+".CostS(")
					f.ins(n.Args[1].End(), ")")
				}
			}
		}
		// library calls that walk a whole slice cost its length in steps
		if s, ok := n.Fun.(*ast.SelectorExpr); ok && !w.plain && w.info != nil && len(n.Args) > 0 && w.isSlice(n.Args[0]) {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
					switch path := pn.Imported().Path(); {
					case path == "sort" && !strings.HasPrefix(s.Sel.Name, "Search"),
						path == "slices" && !strings.HasPrefix(s.Sel.Name, "BinarySearch") && s.Sel.Name != "Grow" && s.Sel.Name != "Clip":
						f.ins(n.Args[0].Pos(), rtName+".CostS(")
						f.ins(n.Args[0].End(), ")")
					}
				}
			}
		}
	}
	return true
}

func (w *walker) next() int { uniq++; return uniq }

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (w *walker) mapRange(n *ast.RangeStmt) {
	f, k := w.f, w.next()
	it := fmt.Sprintf("simit_%d", k)
	stats["map_ranges"]++
	x := f.text(n.X)
	a, b := f.off(n.For), f.off(n.Body.Lbrace)
	switch {
	case n.Key == nil || (blank(n.Key) && blank(n.Value)):
		f.rep(a, b, fmt.Sprintf("for %s := %s.MapRange(%s); %s.Next(); ", it, rtName, x, it))
	case n.Tok == token.DEFINE && blank(n.Value):
		key := f.text(n.Key)
		f.rep(a, b, fmt.Sprintf("for %s, %s := %s.MapRangeK(%s); %s.NextK(&%s); ", it, key, rtName, x, it, key))
	case n.Tok == token.DEFINE:
		key, val := f.text(n.Key), f.text(n.Value)
		if blank(n.Key) {
			key = fmt.Sprintf("simk_%d", k)
		}
		f.rep(a, b, fmt.Sprintf("for %s, %s, %s := %s.MapRangeKV(%s); %s.NextKV(&%s, &%s); ", it, key, val, rtName, x, it, key, val))
	default:
		f.rep(a, b, fmt.Sprintf("for %s := %s.MapRange(%s); %s.Next(); ", it, rtName, x, it))
		s := ""
		if !blank(n.Key) {
			s += fmt.Sprintf(" %s = %s.K(); ", f.text(n.Key), it)
		}
		if !blank(n.Value) {
			s += fmt.Sprintf(" %s = %s.V(); ", f.text(n.Value), it)
		}
		f.rep(b+1, b+1, s)
	}
}

func (w *walker) chanRange(n *ast.RangeStmt) {
	f, k := w.f, w.next()
	stats["chan_ops"]++
	ch, ok := fmt.Sprintf("simch_%d", k), fmt.Sprintf("simok_%d", k)
	a, b := f.off(n.For), f.off(n.Body.Lbrace)
	f.rep(a, b, fmt.Sprintf("for %s := %s; ; ", ch, f.text(n.X)))
	v := "_"
	if !blank(n.Key) {
		v = f.text(n.Key)
	}
	s := ""
	if n.Tok == token.DEFINE || v == "_" {
		s = fmt.Sprintf(" %s, %s := %s.Recv2(%s); if !%s { break }; ", v, ok, rtName, ch, ok)
	} else {
		t := fmt.Sprintf("simv_%d", k)
		s = fmt.Sprintf(" %s, %s := %s.Recv2(%s); if !%s { break }; %s = %s; ", t, ok, rtName, ch, ok, v, t)
	}
	f.rep(b+1, b+1, s)
}

func (w *walker) goStmt(n *ast.GoStmt) {
	f, k := w.f, w.next()
	tok := fmt.Sprintf("simtok_%d", k)
	stats["go_statements"]++
	f.ins(n.Pos(), fmt.Sprintf("{ %s := %s.Spawn(); ", tok, rtName))
	if fl, ok := n.Call.Fun.(*ast.FuncLit); ok {
		b := f.off(fl.Body.Lbrace) + 1
		f.rep(b, b, fmt.Sprintf(" defer %s.Exit(%s); %s.Enter(%s); ", rtName, tok, rtName, tok))
	} else {
		f.ins(n.Call.Fun.Pos(), fmt.Sprintf("%s.Wrap(%s, ", rtName, tok))
		f.ins(n.Call.Fun.End(), ")")
	}
	f.ins(n.End(), fmt.Sprintf("; %s.Started(%s) }", rtName, tok))
}

func (w *walker) selectStmt(n *ast.SelectStmt) {
	f, k := w.f, w.next()
	stats["chan_ops"]++
	var names, inits []string
	def := false
	i := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		a, b := f.off(c.Case), f.off(c.Colon)+1
		name := fmt.Sprintf("simc_%d_%d", k, i)
		hdr := ""
		recv := func(e ast.Expr) string {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			w.done[u] = true
			return fmt.Sprintf("%s.RecvCase(%s)", rtName, f.text(u.X))
		}
		switch cm := c.Comm.(type) {
		case nil:
			def = true
			f.rep(a, b, "case -1:")
			continue
		case *ast.SendStmt:
			w.done[cm] = true
			inits = append(inits, fmt.Sprintf("%s.SendCase(%s)(%s)", rtName, f.text(cm.Chan), f.text(cm.Value)))
		case *ast.ExprStmt:
			inits = append(inits, recv(cm.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(cm.Rhs[0]))
			l := []string{}
			for _, e := range cm.Lhs {
				l = append(l, f.text(e))
			}
			fn := "V"
			if len(l) == 2 {
				fn = "V2"
			}
			hdr = fmt.Sprintf(" %s %s %s.%s();", strings.Join(l, ", "), cm.Tok, name, fn)
		}
		names = append(names, name)
		f.rep(a, b, fmt.Sprintf("case %d:%s", i, hdr))
		i++
	}
	a := f.off(n.Select)
	if len(names) == 0 {
		f.rep(a, a+len("select"), fmt.Sprintf("switch %s.Select(%v)", rtName, def))
		return
	}
	f.rep(a, a+len("select"), fmt.Sprintf("switch %s := %s; %s.Select(%v, %s)",
		strings.Join(names, ", "), strings.Join(inits, ", "), rtName, def, strings.Join(names, ", ")))
}

func write(q *pkg) {
	for _, f := range q.files {
		// outer replacements swallow edits strictly inside them
		sort.SliceStable(f.edits, func(i, j int) bool {
			a, b := f.edits[i], f.edits[j]
			if a.at != b.at {
				return a.at < b.at
			}
			// insertions before replacements at the same place
			ai, bi := a.at == a.end, b.at == b.end
			if ai != bi {
				return ai
			}
			return a.seq < b.seq
		})
		// closing insertions at one place must nest: later opened closes first.
		f.fixClosers()
		out := f.render(0, len(f.src)) + f.expand(f.tail)
		os.MkdirAll(filepath.Dir(f.out), 0o755)
		if err := os.WriteFile(f.out, []byte(out), 0o644); err != nil {
			die("%v", err)
		}
		stats["files"]++
	}
}

// fixClosers orders insertions made at the same offset: what closes an inner
// node comes before what closes an outer one, and openers follow closers.
func (f *file) fixClosers() {
	i := 0
	for i < len(f.edits) {
		j := i
		for j < len(f.edits) && f.edits[j].at == f.edits[i].at && f.edits[j].end == f.edits[j].at {
			j++
		}
		if j-i > 1 {
			var cl, op []edit
			for _, e := range f.edits[i:j] {
				if strings.HasPrefix(e.text, ")") || strings.HasPrefix(e.text, "; "+rtName+".Started") {
					cl = append(cl, e)
				} else {
					op = append(op, e)
				}
			}
			// visited outer first, so inner closers have larger sequence numbers
			for a, b := 0, len(cl)-1; a < b; a, b = a+1, b-1 {
				cl[a], cl[b] = cl[b], cl[a]
			}
			copy(f.edits[i:j], append(cl, op...))
		}
		if j == i {
			j++
		}
		i = j
	}
}
