package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repo = "/repo"

// World is the loaded program, shared by all workers.
type World struct {
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	runtimeErrT types.Type
	fileT       types.Type
	proved      atomic.Int64
	mu          sync.Mutex
	lm          map[lmKey]*ssa.Function
	im          map[imKey]bool
	ptrs        map[types.Type]types.Type
}

type lmKey struct {
	t    types.Type
	pkg  string
	name string
}

type imKey struct{ t, i types.Type }

func (w *World) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := lmKey{t: t, name: name}
	if pkg != nil && !token.IsExported(name) {
		k.pkg = pkg.Path()
	}
	if f, ok := w.lm[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := w.prog.MethodSets.MethodSet(t)
	if k.pkg == "" {
		pkg = nil
	}
	if sel := ms.Lookup(pkg, name); sel != nil {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			f = w.prog.MethodValue(sel)
		}
	}
	w.lm[k] = f
	return f
}

func (w *World) implements(t types.Type, it *types.Interface) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := imKey{t, it}
	if r, ok := w.im[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.im[k] = r
	return r
}

// Overlay is the set of files laid over /repo: generated or harness sources.
type Overlay struct {
	files   map[string][]byte // absolute path in /repo -> contents
	missing []string          // hooks there is no function for
	notes   []string
}

// goFiles lists the non-test Go files of the repository.
func repoGoFiles() []string {
	var out []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := filepath.Base(p); strings.HasPrefix(b, ".") && p != repo || b == "vendor" || b == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

type edit struct {
	off  int
	del  int
	text string
}

func applyEdits(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
	var out []byte
	p := 0
	for _, e := range es {
		out = append(out, src[p:e.off]...)
		out = append(out, e.text...)
		p = e.off + e.del
	}
	return append(out, src[p:]...)
}

// hookSpec names an exported function or method wrapped by a hook:
// "pkg/model/modelutil.NextRandom" or "pkg/x.(*T).M".
// With " (int) bool", say, after it, any function or method of the package with
// these parameters and results will do if there is none of this name.
type hookSpec struct {
	dir, recv, name string
	ptr             bool
	sig             string
	id              string // the key, if it is not what the name says
	alias           bool   // the name is to exist, and no more
	was             string // the name by which the harness calls it
}

func parseHook(s string) hookSpec {
	var h hookSpec
	if strings.HasPrefix(s, "=") {
		h.alias, s = true, s[1:]
	}
	if i := strings.IndexByte(s, ' '); i >= 0 {
		s, h.sig = s[:i], s[i+1:]
	}
	if i := strings.Index(s, ".("); i >= 0 {
		h.dir = s[:i]
		r := s[i+2:]
		j := strings.Index(r, ").")
		h.recv, h.name = r[:j], r[j+2:]
		if strings.HasPrefix(h.recv, "*") {
			h.ptr, h.recv = true, h.recv[1:]
		}
		return h
	}
	i := strings.LastIndexByte(s, '.')
	h.dir, h.name = s[:i], s[i+1:]
	return h
}

func (h hookSpec) key() string {
	if h.id != "" {
		return h.id
	}
	if h.recv != "" {
		return h.recv + "." + h.name
	}
	return h.name
}

// rewriteRepo rewrites the repository's sources for the harnesses: the random
// source becomes vrand, hooked functions consult vp.Hooks, and the packages
// listed in yields get a scheduling point before every statement.
func (o *Overlay) rewriteRepo(hooks []hookSpec, yields []string, globals []string) error {
	return o.rewrite(hooks, yields, nil, globals)
}

// jittered is the overlay for native runs: as ov, with random delays before the
// statements of some packages, for schedules that were found by exploration.
func jittered(ov *Overlay, c *Config) *Overlay {
	if len(c.Jitter) == 0 {
		return ov
	}
	n := &Overlay{files: map[string][]byte{}}
	for k, v := range ov.files {
		n.files[k] = v
	}
	var hs []hookSpec
	for _, h := range c.Hooks {
		hs = append(hs, parseHook(h))
	}
	if err := n.rewrite(hs, c.Yields, c.Jitter, c.Globals); err != nil {
		return ov
	}
	return n
}

// aliases are internal functions that harnesses call, by whatever name.
var aliases = []string{
	"pkg/model/modelutil.NextRandom (int) int",
	"pkg/model/modelutil.IndexPerThread (int, int) []int",
	"pkg/corpus/cooccurrence/encode.EncodeBigram (uint64, uint64) uint64",
	"pkg/corpus/cooccurrence/encode.DecodeBigram (uint64) (uint64, uint64)",
	"pkg/corpus/dictionary.(*Dictionary).HuffnamTree (int) []*node.Node",
	"pkg/corpus/dictionary/node.(*Node).GetPath (int) []*Node",
	"pkg/model/modelutil/subsample.(*Subsampler).Trial (int) bool",
	"pkg/model/word2vec.newSigmoidTable () *?",
	"pkg/model/word2vec.(*sigmoidTable).sigmoid (float64) float64",
}

// declared is a function or method of the repository.
type declared struct {
	dir, recv, name string
	ptr             bool
	sig             string
}

// declarations are those of the repository, and how often each name is used.
func declarations() (ds []declared, uses map[string]int) {
	uses = map[string]int{}
	fset := token.NewFileSet()
	for _, p := range repoGoFiles() {
		src, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			continue
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(p))
		list := func(fl *ast.FieldList) string {
			var ts []string
			if fl != nil {
				for _, x := range fl.List {
					t := string(src[fset.Position(x.Type.Pos()).Offset:fset.Position(x.Type.End()).Offset])
					for i := 0; i == 0 || i < len(x.Names); i++ {
						ts = append(ts, t)
					}
				}
			}
			return strings.Join(ts, ", ")
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			uses[fd.Name.Name]--
			if fd.Body == nil || fd.Type.TypeParams != nil {
				continue
			}
			rn, rp := recvOf(fd)
			res := list(fd.Type.Results)
			if strings.Contains(res, ",") {
				res = "(" + res + ")"
			}
			ds = append(ds, declared{filepath.ToSlash(rel), rn, fd.Name.Name, rp, strings.TrimSpace("(" + list(fd.Type.Params) + ") " + res)})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				uses[id.Name]++
			}
			return true
		})
	}
	return
}

// resolve finds the function each hook is for, and tells which there are none for.
func resolve(hooks []hookSpec) (found []hookSpec, missing []string) {
	ds, uses := declarations()
	for _, h := range hooks {
		var by []declared
		for _, d := range ds {
			if d.dir == h.dir && (d.recv == h.recv || h.alias) && d.name == h.name && (d.ptr == h.ptr || h.recv == "") && uses[d.name] > 0 {
				by = []declared{d}
				break
			}
			if h.sig != "" && d.dir == h.dir && uses[d.name] > 0 && (d.sig == h.sig || strings.HasSuffix(h.sig, "?") && strings.HasPrefix(d.sig, h.sig[:len(h.sig)-1])) {
				by = append(by, d)
			}
		}
		if len(by) > 1 && ast.IsExported(h.name) {
			var ex []declared
			for _, d := range by {
				if ast.IsExported(d.name) {
					ex = append(ex, d)
				}
			}
			by = ex
		}
		if len(by) != 1 && h.alias {
			continue
		}
		if len(by) != 1 {
			missing = append(missing, h.key())
			continue
		}
		h.id, h.was = h.key(), h.name
		h.recv, h.name, h.ptr = by[0].recv, by[0].name, by[0].ptr
		found = append(found, h)
	}
	return
}

func (o *Overlay) rewrite(hooks []hookSpec, yields, jitter []string, globals []string) error {
	for _, a := range aliases {
		hooks = append(hooks, parseHook("="+a))
	}
	hooks, o.missing = resolve(hooks)
	named := map[string]bool{}
	fset := token.NewFileSet()
	setters := map[string]map[string]string{} // dir -> global -> type
	pkgName := map[string]string{}
	for _, p := range repoGoFiles() {
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return fmt.Errorf("%s does not parse: %v", p, err)
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(p))
		rel = filepath.ToSlash(rel)
		pkgName[rel] = f.Name.Name
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		var es []edit
		needVP := false
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == "math/rand" || path == "math/rand/v2" {
				name := "rand "
				if im.Name != nil {
					name = ""
				}
				es = append(es, edit{off(im.Path.Pos()), len(im.Path.Value), name + strconv.Quote(modPath+"/zzverif/vrand")})
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			for _, h := range hooks {
				if h.dir != rel || fd.Name.Name != h.name || fd.Type.TypeParams != nil {
					continue
				}
				rn, rptr := recvOf(fd)
				if rn != h.recv || rptr != h.ptr && h.recv != "" {
					continue
				}
				if k := h.dir + "." + h.id; h.was != h.name && !named[k] {
					named[k] = true
					if a, ok := alias(src, fset, fd, h.was); ok {
						es = append(es, edit{off(fd.End()), 0, a})
					}
				}
				if h.alias {
					continue
				}
				w, ok := wrapper(src, fset, fd, h)
				if !ok {
					continue
				}
				es = append(es, edit{off(fd.Name.Pos()), len(fd.Name.Name), fd.Name.Name + "__orig"})
				es = append(es, edit{off(fd.End()), 0, w})
				needVP = true
			}
		}
		for yi, y := range append(append([]string{}, yields...), jitter...) {
			if y != rel {
				continue
			}
			n := 0
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				ast.Inspect(fd.Body, func(nd ast.Node) bool {
					var list []ast.Stmt
					switch b := nd.(type) {
					case *ast.BlockStmt:
						list = b.List
					case *ast.CaseClause:
						list = b.Body
					case *ast.CommClause:
						list = b.Body
					}
					for _, s := range list {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt, *ast.BlockStmt, *ast.EmptyStmt:
							continue
						case *ast.DeclStmt:
							continue
						}
						call := "zzvp.Yield(); "
						if yi >= len(yields) {
							call = "zzvp.Jitter(); "
						}
						es = append(es, edit{off(s.Pos()), 0, call})
						n++
					}
					return true
				})
			}
			if n > 0 {
				needVP = true
			}
		}
		for _, gl := range globals {
			if gl != rel {
				continue
			}
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						t := ""
						if id, ok := vs.Type.(*ast.Ident); ok {
							t = id.Name
						} else if vs.Type == nil && i < len(vs.Values) {
							if c, ok := vs.Values[i].(*ast.CallExpr); ok {
								if id, ok := c.Fun.(*ast.Ident); ok {
									t = id.Name
								}
							}
						}
						switch t {
						case "uint64", "int", "int64", "uint32", "int32", "uint":
							if setters[rel] == nil {
								setters[rel] = map[string]string{}
							}
							setters[rel][n.Name] = t
						}
					}
				}
			}
		}
		if len(es) == 0 {
			continue
		}
		if needVP {
			es = append(es, edit{off(f.Name.End()), 0, "; import zzvp " + strconv.Quote(modPath+"/zzverif/vp")})
		}
		o.files[p] = applyEdits(src, es)
	}
	for _, g := range globals {
		// a setter for the package's integer globals (its hidden state)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n// ZZSetGlobals stores f(name) in every integer package variable.\nfunc ZZSetGlobals(f func(name string) uint64) int {\n\tn := 0\n", pkgName[g])
		var names []string
		for n := range setters[g] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Fprintf(&b, "\t%s = %s(f(%q))\n\tn++\n", n, setters[g][n], n)
		}
		b.WriteString("\treturn n\n}\n")
		if pkgName[g] != "" {
			o.files[filepath.Join(repo, g, "zz_verif_globals.go")] = []byte(b.String())
		}
	}
	return nil
}

func recvOf(fd *ast.FuncDecl) (string, bool) {
	if fd.Recv == nil || len(fd.Recv.List) != 1 {
		return "", false
	}
	t := fd.Recv.List[0].Type
	ptr := false
	if s, ok := t.(*ast.StarExpr); ok {
		ptr = true
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name, ptr
	}
	return "", ptr
}

// alias generates a function that is another one by the given name.
func alias(src []byte, fset *token.FileSet, fd *ast.FuncDecl, name string) (string, bool) {
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var params, args []string
	for _, p := range fd.Type.Params.List {
		if _, ok := p.Type.(*ast.Ellipsis); ok {
			return "", false
		}
		for i := 0; i == 0 || i < len(p.Names); i++ {
			a := fmt.Sprintf("zz%d", len(args))
			args = append(args, a)
			params = append(params, a+" "+text(p.Type))
		}
	}
	res, ret := "", ""
	if fd.Type.Results != nil {
		res, ret = text(fd.Type.Results), "return "
	}
	recv, call := "", fd.Name.Name
	if fd.Recv != nil {
		recv, call = "(zzr "+text(fd.Recv.List[0].Type)+") ", "zzr."+call
	}
	return fmt.Sprintf("; func %s%s(%s) %s { %s%s(%s) }", recv, name, strings.Join(params, ", "), res, ret, call, strings.Join(args, ", ")), true
}

// wrapper generates the replacement of a hooked function.
func wrapper(src []byte, fset *token.FileSet, fd *ast.FuncDecl, h hookSpec) (string, bool) {
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var params, args, types_ []string
	k := 0
	for _, p := range fd.Type.Params.List {
		n := len(p.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				return "", false
			}
			a := fmt.Sprintf("zz%d", k)
			k++
			params = append(params, a+" "+text(p.Type))
			types_ = append(types_, text(p.Type))
			args = append(args, a)
		}
	}
	res, ret := "", ""
	if fd.Type.Results != nil {
		var rs []string
		for _, r := range fd.Type.Results.List {
			n := len(r.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				rs = append(rs, text(r.Type))
			}
		}
		res = "(" + strings.Join(rs, ", ") + ")"
		ret = "return "
	}
	recv, call, ht, ha := "", fd.Name.Name+"__orig", "", ""
	if fd.Recv != nil {
		rt := text(fd.Recv.List[0].Type)
		recv = "(zzr " + rt + ") "
		call = "zzr." + call
		ht, ha = rt, "zzr"
		if len(types_) > 0 {
			ht += ", "
			ha += ", "
		}
	}
	al := strings.Join(args, ", ")
	end := ""
	if ret == "" {
		end = "; return"
	}
	tl := strings.Join(types_, ", ")
	try := fmt.Sprintf("if h, ok := zzvp.Hooks[%q].(func(%s%s) %s); ok { %sh(%s%s)%s }; ", h.key(), ht, tl, res, ret, ha, al, end)
	if ht != "" {
		// a hook may leave out the receiver
		try += fmt.Sprintf("if h, ok := zzvp.Hooks[%q].(func(%s) %s); ok { %sh(%s)%s }; ", h.key(), tl, res, ret, al, end)
	}
	w := fmt.Sprintf("; func %s%s(%s) %s { %s%s%s(%s) }",
		recv, fd.Name.Name, strings.Join(params, ", "), res, try, ret, call, al)
	return w, true
}

// addTree overlays every file below dir (in /verif/harness) at target in /repo.
func (o *Overlay) addTree(dir, target string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		o.files[filepath.Join(target, rel)] = b
		return nil
	})
}

// write materialises the overlay for the go command and returns the path of
// the JSON file.
func (o *Overlay) write(dir string) (string, error) {
	repl := map[string]string{}
	i := 0
	var names []string
	for p := range o.files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		q := filepath.Join(dir, fmt.Sprintf("ov%03d_%s", i, filepath.Base(p)))
		i++
		if err := os.WriteFile(q, o.files[p], 0644); err != nil {
			return "", err
		}
		repl[p] = q
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	j := filepath.Join(dir, "overlay.json")
	return j, os.WriteFile(j, b, 0644)
}

func modfile(dir string) (string, error) {
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(dir, "go.mod"), nil
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
}

func loadWorld(o *Overlay, dir string, patterns []string) (*World, error) {
	mf, err := modfile(dir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        goEnv(),
		BuildFlags: []string{"-modfile=" + mf},
		Overlay:    o.files,
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, lm: map[lmKey]*ssa.Function{}, im: map[imKey]bool{}}
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	if p := w.pkgs["runtime"]; p != nil {
		if t := p.Type("errorString"); t != nil {
			w.runtimeErrT = t.Type()
		}
	}
	if p := w.pkgs["os"]; p != nil {
		w.fileT = types.NewPointer(p.Type("File").Type())
	}
	return w, nil
}

func (w *World) ptrTo(t types.Type) types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	if p, ok := w.ptrs[t]; ok {
		return p
	}
	if w.ptrs == nil {
		w.ptrs = map[types.Type]types.Type{}
	}
	p := types.NewPointer(t)
	w.ptrs[t] = p
	return p
}
