package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small in-memory file system behind package os.

type vnode struct {
	dir  bool
	data []Value
	perm int64 // if it was changed, plus 1
}

type vfs struct {
	nodes map[string]*vnode
	stdin []Value
	ntemp int
	dirty int // write operations performed
}

type vfile struct {
	path   string
	node   *vnode
	pos    int
	closed bool
	std    int // 1 stdout, 2 stderr, 3 stdin
	rd, wr bool
	app    bool
}

type obsVal struct {
	label string
	v     Value
}

const vcwd = "/vpcwd"

func newVFS() *vfs {
	f := &vfs{nodes: map[string]*vnode{}}
	for _, d := range []string{"/", "/tmp", vcwd, "/dev"} {
		f.nodes[d] = &vnode{dir: true}
	}
	f.nodes["/dev/full"] = &vnode{}
	f.nodes["/dev/null"] = &vnode{}
	return f
}

func vclean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = vcwd + "/" + p
	}
	return path.Clean(p)
}

func (f *vfs) mkdirAll(p string) bool {
	p = vclean(p)
	if p == "/" {
		return true
	}
	if n, ok := f.nodes[p]; ok {
		return n.dir
	}
	if !f.mkdirAll(path.Dir(p)) {
		return false
	}
	f.nodes[p] = &vnode{dir: true}
	f.dirty++
	return true
}

func (in *Interp) stdFile(i int) *Value {
	if in.stdio[i] == nil {
		p := new(Value)
		*p = in.zero(in.w.fileT.(*types.Pointer).Elem())
		in.stdio[i] = p
	}
	return in.stdio[i]
}

func (in *Interp) file(v Value) *vfile {
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	if f, ok := in.files[p]; ok {
		return f
	}
	for i, q := range in.stdio {
		if q == p {
			f := &vfile{path: [...]string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[i], std: [...]int{3, 1, 2}[i], rd: i == 0, wr: i > 0}
			in.files[p] = f
			return f
		}
	}
	return nil
}

func (in *Interp) osErr(name string) Value { return in.loadGlobal("internal/oserror", name) }

func (in *Interp) pathErr(op, p string, err Value) Value {
	t := in.w.pkgs["io/fs"].Type("PathError").Type()
	q := new(Value)
	*q = Struct{op, p, err}
	return Iface{in.w.ptrTo(t), q}
}

func (in *Interp) plainErr(fr *frame, msg string) Value { return in.newError(fr, msg) }

// open implements os.OpenFile.
func (in *Interp) open(fr *frame, name string, flag int64) Value {
	const (
		wronly = 1
		rdwr   = 2
		creat  = 0x40
		excl   = 0x80
		trunc  = 0x200
		app    = 0x400
	)
	nilF := (*Value)(nil)
	if name == "" {
		return Tuple{nilF, in.pathErr("open", name, in.osErr("ErrNotExist"))}
	}
	p := vclean(name)
	n, ok := in.fs.nodes[p]
	wr := flag&(wronly|rdwr) != 0
	switch {
	case ok && flag&creat != 0 && flag&excl != 0:
		return Tuple{nilF, in.pathErr("open", name, in.osErr("ErrExist"))}
	case ok && n.dir && wr:
		return Tuple{nilF, in.pathErr("open", name, in.plainErr(fr, "is a directory"))}
	case !ok && flag&creat == 0:
		return Tuple{nilF, in.pathErr("open", name, in.osErr("ErrNotExist"))}
	case !ok:
		d, okd := in.fs.nodes[path.Dir(p)]
		if !okd {
			return Tuple{nilF, in.pathErr("open", name, in.osErr("ErrNotExist"))}
		}
		if !d.dir {
			return Tuple{nilF, in.pathErr("open", name, in.plainErr(fr, "not a directory"))}
		}
		n = &vnode{}
		in.fs.nodes[p] = n
		in.fs.dirty++
	}
	if flag&trunc != 0 && wr && !n.dir {
		if len(n.data) > 0 {
			in.fs.dirty++
		}
		n.data = nil
	}
	q := new(Value)
	*q = in.zero(in.w.fileT.(*types.Pointer).Elem())
	in.files[q] = &vfile{path: name, node: n, rd: flag&wronly == 0, wr: wr, app: flag&app != 0}
	return Tuple{q, Iface{}}
}

func (in *Interp) stat(name string) Value {
	p := vclean(name)
	n, ok := in.fs.nodes[p]
	if !ok || name == "" {
		return Tuple{Iface{}, in.pathErr("stat", name, in.osErr("ErrNotExist"))}
	}
	return Tuple{in.fileInfo(p, n), Iface{}}
}

func (in *Interp) fileInfo(p string, n *vnode) Value {
	t := in.w.pkgs["os"].Type("fileStat").Type()
	q := new(Value)
	s := in.zero(t).(Struct)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "name":
			s[i] = path.Base(p)
		case "size":
			s[i] = int64(len(n.data))
		case "mode":
			if n.dir {
				s[i] = int64(1<<31 | 0755)
			} else {
				s[i] = int64(0644)
			}
			if n.perm > 0 {
				s[i] = s[i].(int64)&^0777 | n.perm - 1
			}
		}
	}
	*q = s
	return Iface{in.w.ptrTo(t), q}
}

func (in *Interp) fwrite(fr *frame, f *vfile, b []Value) Value {
	if f == nil {
		return Tuple{int64(0), in.loadGlobal("io/fs", "ErrInvalid")}
	}
	if f.closed {
		return Tuple{int64(0), in.pathErr("write", f.path, in.osErr("ErrClosed"))}
	}
	switch f.std {
	case 1:
		in.stdout = append(in.stdout, b...)
		return Tuple{int64(len(b)), Iface{}}
	case 2:
		return Tuple{int64(len(b)), Iface{}}
	}
	if !f.wr {
		return Tuple{int64(0), in.pathErr("write", f.path, in.plainErr(fr, "bad file descriptor"))}
	}
	if vclean(f.path) == "/dev/full" && len(b) > 0 {
		return Tuple{int64(0), in.pathErr("write", f.path, in.plainErr(fr, "no space left on device"))}
	}
	if vclean(f.path) == "/dev/null" {
		return Tuple{int64(len(b)), Iface{}}
	}
	d := f.node.data
	if f.app {
		f.pos = len(d)
	}
	for len(d) < f.pos {
		d = append(d, int64(0))
	}
	for _, x := range b {
		if f.pos < len(d) {
			d[f.pos] = x
		} else {
			d = append(d, x)
		}
		f.pos++
	}
	f.node.data = d
	if len(b) > 0 {
		in.fs.dirty++
	}
	return Tuple{int64(len(b)), Iface{}}
}

func init() {
	type F = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value
	reg("os.Open", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.open(fr, in.str(a[0]), 0) })
	reg("os.Create", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.open(fr, in.str(a[0]), 2|0x40|0x200)
	})
	reg("os.OpenFile", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.open(fr, in.str(a[0]), in.concretizeInt(a[1], true))
	})
	st := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.stat(in.str(a[0])) }
	reg("os.Stat", st)
	reg("os.Lstat", st)
	reg("os.MkdirAll", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.str(a[0])
		if !in.fs.mkdirAll(p) {
			return in.pathErr("mkdir", p, in.plainErr(fr, "not a directory"))
		}
		return Iface{}
	})
	reg("os.Mkdir", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.str(a[0])
		if _, ok := in.fs.nodes[vclean(p)]; ok {
			return in.pathErr("mkdir", p, in.osErr("ErrExist"))
		}
		if n, ok := in.fs.nodes[path.Dir(vclean(p))]; !ok || !n.dir {
			return in.pathErr("mkdir", p, in.osErr("ErrNotExist"))
		}
		in.fs.mkdirAll(p)
		return Iface{}
	})
	reg("os.Chmod", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.str(a[0])
		n, ok := in.fs.nodes[vclean(p)]
		if !ok {
			return in.pathErr("chmod", p, in.osErr("ErrNotExist"))
		}
		n.perm = in.concretizeInt(a[1], true)&0777 + 1
		in.fs.dirty++
		return Iface{}
	})
	reg("os.Remove", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.str(a[0])
		if _, ok := in.fs.nodes[vclean(p)]; !ok {
			return in.pathErr("remove", p, in.osErr("ErrNotExist"))
		}
		delete(in.fs.nodes, vclean(p))
		in.fs.dirty++
		return Iface{}
	})
	reg("os.RemoveAll", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := vclean(in.str(a[0]))
		for k := range in.fs.nodes {
			if k == p || strings.HasPrefix(k, p+"/") {
				delete(in.fs.nodes, k)
			}
		}
		return Iface{}
	})
	reg("os.Rename", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p, q := in.str(a[0]), in.str(a[1])
		n, ok := in.fs.nodes[vclean(p)]
		if !ok {
			return in.pathErr("rename", p, in.osErr("ErrNotExist"))
		}
		if d, ok := in.fs.nodes[path.Dir(vclean(q))]; !ok || !d.dir {
			return in.pathErr("rename", p, in.osErr("ErrNotExist"))
		}
		delete(in.fs.nodes, vclean(p))
		in.fs.nodes[vclean(q)] = n
		in.fs.dirty++
		return Iface{}
	})
	rf := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.str(a[0])
		n, ok := in.fs.nodes[vclean(p)]
		if !ok {
			return Tuple{Slice(nil), in.pathErr("open", p, in.osErr("ErrNotExist"))}
		}
		return Tuple{Slice(append(make([]Value, 0, len(n.data)), n.data...)), Iface{}}
	}
	reg("os.ReadFile", rf)
	reg("io/ioutil.ReadFile", rf)
	wf := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		r := in.open(fr, in.str(a[0]), 1|0x40|0x200).(Tuple)
		if r[1].(Iface).t != nil {
			return r[1]
		}
		b, _ := a[1].(Slice)
		return in.fwrite(fr, in.file(r[0]), b).(Tuple)[1]
	}
	reg("os.WriteFile", wf)
	reg("io/ioutil.WriteFile", wf)
	tmp := func(dir bool) F {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			d := in.str(a[0])
			if d == "" {
				d = "/tmp"
			}
			in.fs.ntemp++
			pat := in.str(a[1])
			rnd := fmt.Sprintf("%09d", in.fs.ntemp)
			if i := strings.LastIndexByte(pat, '*'); i >= 0 {
				pat = pat[:i] + rnd + pat[i+1:]
			} else {
				pat += rnd
			}
			if dir {
				in.fs.mkdirAll(d + "/" + pat)
				return Tuple{d + "/" + pat, Iface{}}
			}
			return in.open(fr, d+"/"+pat, 2|0x40|0x80)
		}
	}
	reg("os.CreateTemp", tmp(false))
	reg("io/ioutil.TempFile", tmp(false))
	reg("os.MkdirTemp", tmp(true))
	reg("io/ioutil.TempDir", tmp(true))
	reg("os.TempDir", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "/tmp" })
	reg("os.Getwd", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{vcwd, Iface{}} })
	reg("os.Getenv", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("os.LookupEnv", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{"", false} })
	reg("vp.Files", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		dir := vclean(in.str(a[0]))
		var fs []string
		for p, n := range in.fs.nodes {
			if strings.HasPrefix(p, dir+"/") {
				r := p[len(dir)+1:]
				if n.dir {
					r += "/"
				}
				fs = append(fs, r)
			}
		}
		sort.Strings(fs)
		res := Slice{}
		for _, f := range fs {
			res = append(res, f)
		}
		return res
	})
	reg("os.ReadDir", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { panic(unsupported("os.ReadDir")) })
	reg("os.Exit", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		panic(pathEnd{kind: endViolation, cls: "panic", msg: "os.Exit called"})
	})

	// *os.File
	reg("(*os.File).Write", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		b, _ := a[1].(Slice)
		return in.fwrite(fr, in.file(a[0]), b)
	})
	reg("(*os.File).WriteString", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.fwrite(fr, in.file(a[0]), strBytes(a[1]))
	})
	reg("(*os.File).ReadFrom", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		// generic copy
		rd := a[1].(Iface)
		m := in.w.lookupMethod(rd.t, nil, "Read")
		buf := make(Slice, 4096)
		for i := range buf {
			buf[i] = int64(0)
		}
		total := int64(0)
		for {
			r := in.callValue(fr, m, []Value{copyVal(rd.v), buf}).(Tuple)
			n := in.concretizeInt(r[0], true)
			if n > 0 {
				w := in.fwrite(fr, in.file(a[0]), buf[:n]).(Tuple)
				total += w[0].(int64)
				if w[1].(Iface).t != nil {
					return Tuple{total, w[1]}
				}
			}
			if e := r[1].(Iface); e.t != nil {
				if in.branch(in.equal(types.Universe.Lookup("error").Type(), e, in.loadGlobal("io", "EOF"))) {
					return Tuple{total, Iface{}}
				}
				return Tuple{total, e}
			}
		}
	})
	reg("(*os.File).Read", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		b, _ := a[1].(Slice)
		if f == nil {
			return Tuple{int64(0), in.loadGlobal("io/fs", "ErrInvalid")}
		}
		if f.closed {
			return Tuple{int64(0), in.pathErr("read", f.path, in.osErr("ErrClosed"))}
		}
		if f.std != 0 {
			return Tuple{int64(0), in.loadGlobal("io", "EOF")}
		}
		if f.node.dir {
			return Tuple{int64(0), in.pathErr("read", f.path, in.plainErr(fr, "is a directory"))}
		}
		if !f.rd {
			return Tuple{int64(0), in.pathErr("read", f.path, in.plainErr(fr, "bad file descriptor"))}
		}
		if len(b) == 0 {
			return Tuple{int64(0), Iface{}}
		}
		if f.pos >= len(f.node.data) {
			return Tuple{int64(0), in.loadGlobal("io", "EOF")}
		}
		n := copy(b, f.node.data[f.pos:])
		f.pos += n
		return Tuple{int64(n), Iface{}}
	})
	reg("(*os.File).Close", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		if f == nil {
			return in.loadGlobal("io/fs", "ErrInvalid")
		}
		if f.closed {
			return in.pathErr("close", f.path, in.osErr("ErrClosed"))
		}
		f.closed = true
		return Iface{}
	})
	reg("(*os.File).Sync", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("(*os.File).Name", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.file(a[0]).path })
	reg("(*os.File).Fd", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return int64(9) })
	reg("(*os.File).Stat", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		if f == nil || f.node == nil {
			return Tuple{Iface{}, in.loadGlobal("io/fs", "ErrInvalid")}
		}
		return Tuple{in.fileInfo(f.path, f.node), Iface{}}
	})
	reg("(*os.File).Truncate", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		n := int(in.concretizeInt(a[1], true))
		for len(f.node.data) < n {
			f.node.data = append(f.node.data, int64(0))
		}
		f.node.data = f.node.data[:n]
		return Iface{}
	})
	reg("(*os.File).Seek", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		if f == nil {
			return Tuple{int64(0), in.loadGlobal("io/fs", "ErrInvalid")}
		}
		if f.closed {
			return Tuple{int64(0), in.pathErr("seek", f.path, in.osErr("ErrClosed"))}
		}
		off, wh := int(in.concretizeInt(a[1], true)), in.concretizeInt(a[2], true)
		switch wh {
		case 1:
			off += f.pos
		case 2:
			off += len(f.node.data)
		}
		if off < 0 {
			return Tuple{int64(0), in.pathErr("seek", f.path, in.plainErr(fr, "invalid argument"))}
		}
		f.pos = off
		return Tuple{int64(off), Iface{}}
	})
	delete(intrTab, "(*os.File).WriteTo")
	reg("(*os.File).WriteTo", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		f := in.file(a[0])
		var d []Value
		if f.node != nil {
			d = f.node.data[f.pos:]
			f.pos = len(f.node.data)
		}
		w := in.writeTo(fr, a[1], d).(Tuple)
		return Tuple{w[0], w[1]}
	})
	reg("time.Since", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return int64(0) })
	reg("(time.Time).Sub", func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return int64(0) })
	_ = sort.Strings
}

func (in *Interp) globalOverride(g *ssa.Global) (Value, bool) {
	if g.Pkg.Pkg.Path() != "os" {
		return nil, false
	}
	switch g.Name() {
	case "Stdin":
		return in.stdFile(0), true
	case "Stdout":
		return in.stdFile(1), true
	case "Stderr":
		return in.stdFile(2), true
	case "Args":
		return Slice{"wego"}, true
	case "ErrNotExist", "ErrExist", "ErrPermission", "ErrInvalid", "ErrClosed":
		return in.loadGlobal("internal/oserror", g.Name()), true
	case "ErrDeadlineExceeded", "ErrNoDeadline", "ErrProcessDone":
		// internal/poll and os are not initialised: a value of its own
		return in.newError(nil, "os: "+g.Name()), true
	}
	return nil, false
}

func (in *Interp) observe(label string, v Value) {
	in.obs = append(in.obs, obsVal{label, copyVal(v)})
}
