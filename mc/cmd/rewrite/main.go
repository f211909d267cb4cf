// Command rewrite copies the packages of a Go module into a vendor tree in
// which every source of nondeterminism (system calls, sockets, clocks, locks,
// atomics, goroutines, channels, map order) goes through the controlled
// scheduler and the kernel model.
//
// usage: rewrite -repo DIR -mc DIR -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	HFiles     []string
	Standard   bool
	Export     string
	Module     *struct {
		Path, Version, GoVersion, Dir string
		Main                          bool
	}
	Imports []string
	Error   *struct{ Err string }
}

var hooks = map[string]struct {
	shim string
	sels string
}{
	"golang.org/x/sys/unix": {"vunix", "Read Write Readv Writev Recvfrom Sendto SendmsgN Close Accept Accept4 SetNonblock Shutdown Dup CloseOnExec EpollCreate1 EpollCreate EpollCtl EpollWait Eventfd Getpeername Getsockname SetsockoptInt SetsockoptLinger GetsockoptInt FcntlInt Syscall RawSyscall Syscall6 RawSyscall6"},
	"syscall":               {"vsyscall", "Read Write Close SetNonblock Shutdown Dup Syscall RawSyscall"},
	"net":                   {"vnet", "Listen ListenTCP ListenConfig TCPListener UnixListener"},
	"os":                    {"vos", "File NewFile Exit"},
	"time":                  {"vtime", "Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker"},
	"sync":                  {"vsync", "Mutex RWMutex WaitGroup Once Cond NewCond Pool Map OnceFunc OnceValue"},
	"sync/atomic":           {"vatomic", "*"},
	"runtime":               {"../vs", "Gosched"},
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	mc := flag.String("mc", "/verif/mc", "")
	out := flag.String("out", "", "")
	flag.Parse()
	if *out == "" {
		die("-out missing")
	}

	// packages of the module that are not examples or benchmarks
	list := exec.Command("go", "list", "-e", "-f", "{{.ImportPath}}\t{{.Name}}", "./...")
	list.Dir = *repo
	list.Stderr = os.Stderr
	o, err := list.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var roots []string
	for _, l := range strings.Split(strings.TrimSpace(string(o)), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 2 || f[1] == "main" || f[1] == "" || strings.Contains(f[0]+"/", "/example/") || strings.Contains(f[0]+"/", "/benchmarks/") {
			continue
		}
		roots = append(roots, f[0])
	}
	args := append([]string{"list", "-e", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,SFiles,HFiles,Standard,Export,Module,Imports,Error"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err = cmd.Output()
	if err != nil {
		die("go list -deps: %v", err)
	}
	pkgs := map[string]*pkg{}
	var order []*pkg
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	type mod struct {
		path, gov string
		pkgs      []string
	}
	mods := map[string]*mod{}
	add := func(path, gov, ip string) {
		m := mods[path]
		if m == nil {
			m = &mod{path: path, gov: gov}
			mods[path] = m
		}
		m.pkgs = append(m.pkgs, ip)
	}
	vendor := filepath.Join(*out, "vendor")
	needed := map[string]bool{}
	var visit func(ip string)
	over := map[string]string{
		"github.com/RussellLuo/timingwheel":        "timingwheel",
		"github.com/gobwas/pool/pbytes":            "pbytes",
		"github.com/libp2p/go-reuseport":           "reuseport",
		"github.com/Allenxuxu/toolkit/sync/spinlock": "spinlock",
	}
	visit = func(ip string) {
		if needed[ip] {
			return
		}
		p := pkgs[ip]
		if p == nil || p.Standard {
			return
		}
		needed[ip] = true
		if _, ok := over[ip]; ok {
			return
		}
		for _, i := range p.Imports {
			visit(i)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	visit("golang.org/x/sys/unix")
	for _, d := range []string{"RussellLuo/timingwheel", "gobwas/pool/pbytes", "libp2p/go-reuseport", "Allenxuxu/toolkit/sync/spinlock", "Allenxuxu/ringbuffer"} {
		needed["github.com/"+d] = true
	}

	rootSet := map[string]bool{}
	for _, r := range roots {
		rootSet[r] = true
	}
	nedit := 0
	for ip := range needed {
		p := pkgs[ip]
		dst := filepath.Join(vendor, filepath.FromSlash(ip))
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die("%v", err)
		}
		if name, ok := over[ip]; ok {
			copyDir(filepath.Join(*mc, "over", name), dst)
			mp := ip
			if p != nil && p.Module != nil {
				mp = p.Module.Path
			} else if strings.HasPrefix(ip, "github.com/") {
				mp = strings.Join(strings.Split(ip, "/")[:3], "/")
			}
			add(mp, "1.21", ip)
			continue
		}
		if p == nil {
			die("package %s is not among the dependencies", ip)
		}
		gov := "1.21"
		switch {
		case ip == "github.com/Allenxuxu/ringbuffer":
			ring(p.Dir, dst, *mc)
		case rootSet[ip] || p.Module.Path == "github.com/Allenxuxu/toolkit":
			nedit += rewritePkg(fset, imp, p, dst)
		default:
			rf, _ := filepath.Glob(filepath.Join(p.Dir, "race*.go")) // selected by the race tag only
			for i := range rf {
				rf[i] = filepath.Base(rf[i])
			}
			for _, l := range [][]string{p.GoFiles, p.SFiles, p.HFiles, rf} {
				for _, f := range l {
					b, err := os.ReadFile(filepath.Join(p.Dir, f))
					if err != nil {
						die("%v", err)
					}
					write(filepath.Join(dst, f), b)
				}
			}
			gov = "1.21"
		}
		add(p.Module.Path, gov, ip)
	}

	// go.mod and vendor/modules.txt
	var mp []string
	for k := range mods {
		mp = append(mp, k)
	}
	sort.Strings(mp)
	var gm, mt strings.Builder
	gm.WriteString("module gevmc\n\ngo 1.21\n\nrequire (\n")
	for _, k := range mp {
		fmt.Fprintf(&gm, "\t%s v0.0.0\n", k)
		fmt.Fprintf(&mt, "# %s v0.0.0\n## explicit; go %s\n", k, mods[k].gov)
		sort.Strings(mods[k].pkgs)
		for _, ip := range mods[k].pkgs {
			fmt.Fprintln(&mt, ip)
		}
	}
	gm.WriteString(")\n")
	write(filepath.Join(*out, "go.mod"), []byte(gm.String()))
	write(filepath.Join(vendor, "modules.txt"), []byte(mt.String()))
	for _, d := range []string{"vs", "vkern", "vrace", "shim", "rapp", "harness"} {
		copyTree(filepath.Join(*mc, d), filepath.Join(*out, d))
	}
	fmt.Printf("rewrote %d places\n", nedit)
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

func copyDir(src, dst string) {
	fs, err := filepath.Glob(filepath.Join(src, "*.go"))
	if err != nil {
		die("%v", err)
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(dst, filepath.Base(f)), b)
	}
}

func copyTree(src, dst string) {
	_ = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(dst, rel), b)
		return nil
	})
}

// ring copies the real ring buffer, adding the use-after-return check.
func ring(src, dst, mc string) {
	b, err := os.ReadFile(filepath.Join(src, "ring_buffer.go"))
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "ring_buffer.go", b, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	var es []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				es = append(es, edit{off(d.Body.Lbrace) + 1, off(d.Body.Lbrace) + 1, " " + d.Recv.List[0].Names[0].Name + ".chk();"})
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok && ts.Name.Name == "RingBuffer" {
					st := ts.Type.(*ast.StructType)
					es = append(es, edit{off(st.Fields.Opening) + 1, off(st.Fields.Opening) + 1, " pooled bool;"})
				}
			}
		}
	}
	write(filepath.Join(dst, "ring_buffer.go"), apply(b, es))
	copyDir(filepath.Join(mc, "over", "ringbuffer"), dst)
}

type edit struct {
	a, b int
	s    string
}

func apply(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].a != es[j].a {
			return es[i].a < es[j].a
		}
		return false
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.a < pos {
			die("overlapping edits at %d: %q", e.a, e.s)
		}
		out.Write(src[pos:e.a])
		out.WriteString(e.s)
		pos = e.b
	}
	out.Write(src[pos:])
	return out.Bytes()
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *pkg, dst string) int {
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files, srcs, names = append(files, f), append(srcs, b), append(names, n)
	}
	info := &types.Info{
		Uses:      map[*ast.Ident]types.Object{},
		Defs:      map[*ast.Ident]types.Object{},
		Types:     map[ast.Expr]types.TypeAndValue{},
		Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check of %s: %v", p.ImportPath, err)
	}
	// an empty vendored directory must not keep stale files
	old, _ := filepath.Glob(filepath.Join(dst, "*.go"))
	keep := map[string]bool{}
	n := 0
	for i, f := range files {
		r := &rw{fset: fset, info: info, f: f, src: srcs[i], pkg: p.ImportPath}
		b := r.run()
		n += len(r.es)
		write(filepath.Join(dst, names[i]), b)
		keep[names[i]] = true
	}
	for _, o := range old {
		if !keep[filepath.Base(o)] {
			_ = os.Remove(o)
		}
	}
	return n
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	f     *ast.File
	src   []byte
	es    []edit
	shims map[string]bool
	pkg   string
	ntmp  int
	skip  map[ast.Node]bool
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rw) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rw) ins(p token.Pos, s string)     { o := r.off(p); r.es = append(r.es, edit{o, o, s}) }
func (r *rw) rep(a, b token.Pos, s string)  { r.es = append(r.es, edit{r.off(a), r.off(b), s}) }
func (r *rw) use(shim string) string {
	r.shims[shim] = true
	return "mc_" + filepath.Base(shim)
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) loc(p token.Pos) string {
	ps := r.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func (r *rw) run() []byte {
	r.shims = map[string]bool{}
	r.skip = map[ast.Node]bool{}
	uses := map[types.Object]int{}   // uses of each imported package
	hooked := map[types.Object]int{} // of which rewritten
	for id, o := range r.info.Uses {
		if pn, ok := o.(*types.PkgName); ok && r.fset.File(id.Pos()) == r.fset.File(r.f.Pos()) {
			uses[pn]++
		}
	}
	ast.Inspect(r.f, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		switch n := n.(type) {
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := r.info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			h, ok := hooks[pn.Imported().Path()]
			if !ok {
				return true
			}
			hit := h.sels == "*"
			for _, s := range strings.Fields(h.sels) {
				hit = hit || s == n.Sel.Name
			}
			if !hit {
				return true
			}
			hooked[pn]++
			r.rep(id.Pos(), id.End(), r.use(h.shim))
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.SendStmt:
			if r.skip[n] {
				return true
			}
			r.ins(n.Pos(), r.use("vchan")+".Send(")
			r.rep(n.Arrow, n.Arrow+2, ")(")
			r.ins(n.End(), ")")
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !r.skip[n] {
				f := "Recv"
				if tv := r.info.Types[n]; tv.Type != nil {
					if _, ok := tv.Type.(*types.Tuple); ok {
						f = "Recv2"
					}
				}
				r.rep(n.OpPos, n.OpPos+2, r.use("vchan")+"."+f+"(")
				r.ins(n.End(), ")")
			}
		case *ast.CallExpr:
			if len(n.Args) == 1 && r.isChan(n.Args[0]) {
				if r.isBuiltin(n.Fun, "close") {
					r.rep(n.Fun.Pos(), n.Fun.End(), r.use("vchan")+".Close")
				} else if r.isBuiltin(n.Fun, "len") {
					r.rep(n.Fun.Pos(), n.Fun.End(), r.use("vchan")+".Len")
				}
			}
		case *ast.RangeStmt:
			r.rangeStmt(n)
		case *ast.SelectStmt:
			r.selectStmt(n)
		}
		return true
	})
	// imports
	for _, s := range r.f.Imports {
		var pn types.Object
		if s.Name != nil {
			pn = r.info.Defs[s.Name]
		} else {
			pn = r.info.Implicits[s]
		}
		if pn == nil || hooked[pn] == 0 {
			continue
		}
		if hooked[pn] == uses[pn] {
			if s.Name != nil {
				r.rep(s.Name.Pos(), s.Name.End(), "_")
			} else {
				r.ins(s.Path.Pos(), "_ ")
			}
		}
	}
	if len(r.shims) > 0 {
		var l []string
		for s := range r.shims {
			l = append(l, s)
		}
		sort.Strings(l)
		var b strings.Builder
		for _, s := range l {
			path := "gevmc/shim/" + s
			if strings.HasPrefix(s, "../") {
				path = "gevmc/" + s[3:]
			}
			fmt.Fprintf(&b, "; import mc_%s %q", filepath.Base(s), path)
		}
		r.ins(r.f.Name.End(), b.String())
	}
	return apply(r.src, r.es)
}

func (r *rw) goStmt(n *ast.GoStmt) {
	call := n.Call
	vs := r.use("../vs")
	name := fmt.Sprintf("%q", r.loc(n.Pos()))
	// builtin or conversion: wrap
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			r.rep(n.Go, call.Pos(), vs+".Go("+name+", func() { ")
			r.ins(n.End(), " })")
			return
		}
	}
	sig, _ := r.info.Types[call.Fun].Type.Underlying().(*types.Signature)
	if len(call.Args) == 0 && sig != nil && sig.Results().Len() == 0 {
		r.rep(n.Go, call.Pos(), vs+".Go("+name+", ")
		r.rep(call.Lparen, call.Rparen+1, ")")
		return
	}
	// general: evaluate function and arguments now
	r.ntmp++
	f := fmt.Sprintf("mcf%d", r.ntmp)
	r.rep(n.Go, call.Pos(), fmt.Sprintf("{ %s := ", f))
	names := make([]string, len(call.Args))
	prevEnd := call.Fun.End()
	for i, a := range call.Args {
		tv := r.info.Types[a]
		names[i] = fmt.Sprintf("%sa%d", f, i)
		var pt types.Type
		if sig != nil {
			k := i
			if sig.Variadic() && k >= sig.Params().Len()-1 && call.Ellipsis == token.NoPos {
				pt = sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
			} else if k < sig.Params().Len() {
				pt = sig.Params().At(k).Type()
			}
		}
		if tv.Value != nil || tv.IsNil() {
			r.rep(prevEnd, a.Pos(), "; ")
			r.rep(a.Pos(), a.End(), "")
			names[i] = r.text(a)
		} else {
			r.rep(prevEnd, a.Pos(), "; "+names[i]+" := ")
		}
		_ = pt
		prevEnd = a.End()
	}
	l := strings.Join(names, ", ")
	if call.Ellipsis != token.NoPos {
		l += "..."
	}
	r.rep(prevEnd, call.Rparen+1, fmt.Sprintf("; %s.Go(%s, func() { %s(%s) }) }", vs, name, f, l))
}

func (r *rw) rangeStmt(n *ast.RangeStmt) {
	t := r.info.Types[n.X].Type
	if t == nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		r.ntmp++
		v, ok := fmt.Sprintf("mcv%d", r.ntmp), fmt.Sprintf("mcok%d", r.ntmp)
		vc := r.use("vchan")
		x := r.text(n.X)
		head := fmt.Sprintf("for %s, %s := %s.Recv2(%s); %s; %s, %s = %s.Recv2(%s) ", v, ok, vc, x, ok, v, ok, vc, x)
		r.rep(n.For, n.X.End(), head)
		body := ""
		if n.Key != nil {
			body = fmt.Sprintf(" %s %s %s;", r.text(n.Key), n.Tok, v)
			if n.Tok == token.DEFINE {
				body += fmt.Sprintf(" _ = %s;", r.text(n.Key))
			}
		} else {
			body = fmt.Sprintf(" _ = %s;", v)
		}
		r.ins(n.Body.Lbrace+1, body)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsOrdered == 0 {
			return
		}
		switch n.X.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return
		}
		x := r.text(n.X)
		r.ntmp++
		k := fmt.Sprintf("mck%d", r.ntmp)
		m := fmt.Sprintf("mcm%d", r.ntmp)
		vm := r.use("vmap")
		r.rep(n.For, n.X.End(), fmt.Sprintf("for %s, mci := %s, 0; mci < 1; mci++ { _ = %s; for _, %s := range %s.Keys(%s) ", m, x, m, k, vm, m))
		body := fmt.Sprintf(" if _, mcok := %s[%s]; !mcok { continue };", m, k)
		if n.Key != nil && r.text(n.Key) != "_" {
			body += fmt.Sprintf(" %s %s %s;", r.text(n.Key), n.Tok, k)
			if n.Tok == token.DEFINE {
				body += fmt.Sprintf(" _ = %s;", r.text(n.Key))
			}
		}
		if n.Value != nil && r.text(n.Value) != "_" {
			body += fmt.Sprintf(" %s %s %s[%s];", r.text(n.Value), n.Tok, m, k)
			if n.Tok == token.DEFINE {
				body += fmt.Sprintf(" _ = %s;", r.text(n.Value))
			}
		}
		r.ins(n.Body.Lbrace+1, body)
		r.ins(n.Body.Rbrace+1, " }")
	}
}

func (r *rw) selectStmt(n *ast.SelectStmt) {
	r.ntmp++
	id := r.ntmp
	vc := r.use("vchan")
	var names, exprs []string
	def := false
	i := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			r.rep(cc.Case, cc.Colon, "case -1")
			continue
		}
		nm := fmt.Sprintf("mcc%d_%d", id, i)
		names = append(names, nm)
		pre := ""
		recv := func(e ast.Expr) *ast.UnaryExpr {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			return e.(*ast.UnaryExpr)
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, fmt.Sprintf("%s.S(%s)(%s)", vc, r.text(s.Chan), r.text(s.Value)))
			r.skip[s] = true
		case *ast.ExprStmt:
			u := recv(s.X)
			r.skip[u] = true
			exprs = append(exprs, fmt.Sprintf("%s.R(%s)", vc, r.text(u.X)))
		case *ast.AssignStmt:
			u := recv(s.Rhs[0])
			r.skip[u] = true
			exprs = append(exprs, fmt.Sprintf("%s.R(%s)", vc, r.text(u.X)))
			pre = fmt.Sprintf(" %s %s %s.Val;", r.text(s.Lhs[0]), s.Tok, nm)
			if r.text(s.Lhs[0]) == "_" {
				pre = ""
			} else if s.Tok == token.DEFINE {
				pre += fmt.Sprintf(" _ = %s;", r.text(s.Lhs[0]))
			}
			if len(s.Lhs) == 2 && r.text(s.Lhs[1]) != "_" {
				pre += fmt.Sprintf(" %s %s %s.OK;", r.text(s.Lhs[1]), s.Tok, nm)
				if s.Tok == token.DEFINE {
					pre += fmt.Sprintf(" _ = %s;", r.text(s.Lhs[1]))
				}
			}
		}
		r.rep(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:%s", i, pre))
		i++
	}
	if len(names) == 0 {
		r.rep(n.Select, n.Body.Lbrace, fmt.Sprintf("switch %s.Select(%v) ", vc, def))
		return
	}
	r.rep(n.Select, n.Body.Lbrace, fmt.Sprintf("switch %s := %s; %s.Select(%v, %s) ",
		strings.Join(names, ", "), strings.Join(exprs, ", "), vc, def, strings.Join(namesAs(names), ", ")))
}

func namesAs(n []string) []string { return n }
