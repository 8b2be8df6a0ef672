package main

import (
	"go/types"
	"path"
	"strings"
)

func (w *W) osFile(o *OpenFile) V {
	return V{r: &V{r: &Agg{[]V{{r: o}}}}}
}

func (w *W) fileOf(v V) *OpenFile {
	p, ok := v.r.(*V)
	if !ok {
		return nil
	}
	o, _ := p.r.(*Agg).f[0].r.(*OpenFile)
	return o
}

func (w *W) fileInfo(name string, n *VNode) V {
	p := w.prog.ImportedPackage("os")
	t := p.Type("fileStat").Type()
	rt := w.rt(t)
	z := zeroV(rt)
	ag := z.r.(*Agg)
	for i, f := range rt.fields {
		switch f.name {
		case "name":
			ag.f[i] = sStr(path.Base(name))
		case "size":
			if !n.dir {
				ag.f[i] = iV(len(n.data))
			}
		case "mode":
			m := n.mode
			if n.dir {
				m |= 1 << 31
			}
			ag.f[i] = V{n: m}
		case "sys":
			for j, g := range f.t.fields {
				if g.name == "Ino" {
					ag.f[i].r.(*Agg).f[j] = V{n: n.ino}
				}
			}
		}
	}
	return V{r: &Iface{t: w.rt(types.NewPointer(t)), v: V{r: &z}}}
}

func (w *W) dirEntries(dir string) []V {
	p := w.prog.ImportedPackage("os")
	t := p.Type("unixDirent").Type()
	rt := w.rt(t)
	var out []V
	for _, n := range w.vfs.list(dir) {
		node := w.vfs.nodes[vpath(dir+"/"+n)]
		z := zeroV(rt)
		ag := z.r.(*Agg)
		for i, f := range rt.fields {
			switch f.name {
			case "parent":
				ag.f[i] = sStr(dir)
			case "name":
				ag.f[i] = sStr(n)
			case "typ":
				if node.dir {
					ag.f[i] = V{n: 1 << 31}
				}
			}
		}
		zz := z
		out = append(out, V{r: &Iface{t: w.rt(types.NewPointer(t)), v: V{r: &zz}}})
	}
	return out
}

func osIntrinsics(I map[string]func(w *W, a []V) V) {
	alias := func(f func(w *W, a []V) V, names ...string) {
		for _, n := range names {
			I[n] = f
		}
	}
	I["os.Exit"] = func(w *W, a []V) V { panic(exitPanic{code: w.concInt(a[0])}) }
	I["os.runtime_args"] = func(w *W, a []V) V { return w.newStrSlice([]string{"prog"}) }
	I["syscall.runtime_envs"] = func(w *W, a []V) V { return V{} }
	I["os.runtime_beforeExit"] = nopI
	I["os.checkPidfdOnce"] = nopI
	I["os.init.0"] = nopI
	I["os.NewFile"] = func(w *W, a []V) V {
		return w.osFile(&OpenFile{std: int(a[0].n) + 1, name: w.lbl(a[1])})
	}
	getenv := func(w *W, a []V) V { return tup(V{}, V{}) }
	I["os.LookupEnv"] = getenv
	I["syscall.Getenv"] = getenv
	I["os.Getenv"] = func(w *W, a []V) V { return V{} }
	I["os.Environ"] = func(w *W, a []V) V { return V{} }
	I["syscall.Environ"] = I["os.Environ"]
	I["os.Setenv"] = func(w *W, a []V) V { return V{} }
	I["os.Getwd"] = func(w *W, a []V) V { return tup(sStr(vfsRoot), V{}) }
	I["os.Getpid"] = func(w *W, a []V) V { return iV(4242) }
	I["os.TempDir"] = func(w *W, a []V) V { return sStr("/tmp") }
	I["os.Hostname"] = func(w *W, a []V) V { return tup(sStr("host"), V{}) }

	open := func(w *W, op string, name V, flag int, perm uint64) V {
		nm := w.cstr(name, "file name")
		o, e := w.vfs.open(nm, flag, perm)
		if e != 0 {
			return tup(V{}, w.pathErr("open", nm, e))
		}
		return tup(w.osFile(o), V{})
	}
	I["os.Open"] = func(w *W, a []V) V { return open(w, "open", a[0], 0, 0) }
	I["os.Create"] = func(w *W, a []V) V { return open(w, "open", a[0], oRDWR|oCREATE|oTRUNC, 0o666) }
	I["os.OpenFile"] = func(w *W, a []V) V {
		return open(w, "open", a[0], w.concInt(a[1]), uint64(w.concInt(a[2])))
	}
	I["os.ReadFile"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "file name")
		o, e := w.vfs.open(nm, 0, 0)
		if e != 0 {
			return tup(V{}, w.pathErr("open", nm, e))
		}
		if o.node.dir {
			return tup(V{}, w.pathErr("read", nm, eISDIR))
		}
		if len(o.node.data) == 0 {
			return tup(V{r: emptyBase}, V{})
		}
		return tup(mkSlice(append([]V(nil), o.node.data...)), V{})
	}
	I["os.WriteFile"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "file name")
		o, e := w.vfs.open(nm, oWRONLY|oCREATE|oTRUNC, uint64(w.concInt(a[2])))
		if e != 0 {
			return w.pathErr("open", nm, e)
		}
		if _, e := w.vfs.write(o, sliceElems(a[1])); e != 0 {
			return w.pathErr("write", nm, e)
		}
		return V{}
	}
	stat := func(op string) func(w *W, a []V) V {
		return func(w *W, a []V) V {
			nm := w.cstr(a[0], "file name")
			n, e := w.vfs.lookup(nm)
			if e != 0 {
				return tup(V{}, w.pathErr(op, nm, e))
			}
			return tup(w.fileInfo(nm, n), V{})
		}
	}
	I["os.Stat"] = stat("stat")
	I["os.Lstat"] = stat("lstat")
	I["os.ReadDir"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "dir")
		n, e := w.vfs.lookup(nm)
		if e != 0 {
			return tup(V{}, w.pathErr("open", nm, e))
		}
		if !n.dir {
			return tup(V{}, w.pathErr("fdopendir", nm, eNOTDIR))
		}
		return tup(mkSlice(w.dirEntries(nm)), V{})
	}
	I["(*os.unixDirent).Info"] = func(w *W, a []V) V {
		ag := w.ptr(a[0]).r.(*Agg)
		rt := w.rt(w.prog.ImportedPackage("os").Type("unixDirent").Type())
		var parent, name string
		for i, f := range rt.fields {
			if f.name == "parent" {
				parent = w.lbl(ag.f[i])
			}
			if f.name == "name" {
				name = w.lbl(ag.f[i])
			}
		}
		n, e := w.vfs.lookup(parent + "/" + name)
		if e != 0 {
			return tup(V{}, w.pathErr("lstat", parent+"/"+name, e))
		}
		return tup(w.fileInfo(name, n), V{})
	}
	I["os.Mkdir"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "dir")
		if _, e := w.vfs.lookup(nm); e == 0 {
			return w.pathErr("mkdir", nm, eEXIST)
		}
		if d, ok := w.vfs.nodes[path.Dir(vpath(nm))]; !ok || !d.dir {
			return w.pathErr("mkdir", nm, eNOENT)
		}
		w.vfs.mkdir(vpath(nm))
		return V{}
	}
	I["os.MkdirAll"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "dir")
		q := vpath(nm)
		var todo []string
		for ; q != "/"; q = path.Dir(q) {
			if n, ok := w.vfs.nodes[q]; ok {
				if !n.dir {
					return w.pathErr("mkdir", nm, eNOTDIR)
				}
				break
			}
			todo = append(todo, q)
		}
		for i := len(todo) - 1; i >= 0; i-- {
			w.vfs.mkdir(todo[i])
		}
		return V{}
	}
	I["os.Remove"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "file")
		n, e := w.vfs.lookup(nm)
		if e != 0 {
			return w.pathErr("remove", nm, e)
		}
		if n.dir && len(w.vfs.list(nm)) > 0 {
			return w.pathErr("remove", nm, eNOTEMPTY)
		}
		delete(w.vfs.nodes, vpath(nm))
		return V{}
	}
	I["os.RemoveAll"] = func(w *W, a []V) V {
		q := vpath(w.cstr(a[0], "file"))
		for p := range w.vfs.nodes {
			if p == q || strings.HasPrefix(p, q+"/") {
				delete(w.vfs.nodes, p)
			}
		}
		return V{}
	}
	I["os.Rename"] = func(w *W, a []V) V {
		from, to := w.cstr(a[0], "file"), w.cstr(a[1], "file")
		n, e := w.vfs.lookup(from)
		if e != 0 {
			return w.pathErr("rename", from, e)
		}
		if d, ok := w.vfs.nodes[path.Dir(vpath(to))]; !ok || !d.dir {
			return w.pathErr("rename", from, eNOENT)
		}
		delete(w.vfs.nodes, vpath(from))
		w.vfs.nodes[vpath(to)] = n
		return V{}
	}
	I["os.Truncate"] = func(w *W, a []V) V {
		nm := w.cstr(a[0], "file")
		n, e := w.vfs.lookup(nm)
		if e != 0 {
			return w.pathErr("truncate", nm, e)
		}
		n.data = append([]V(nil), n.data[:min(len(n.data), w.concInt(a[1]))]...)
		return V{}
	}
	I["os.Chmod"] = func(w *W, a []V) V { return V{} }
	tmp := func(w *W, a []V) (string, string) {
		d := w.cstr(a[0], "dir")
		if d == "" {
			d = "/tmp"
		}
		w.vfs.tmpN++
		pat := w.cstr(a[1], "pattern")
		suf := "00" + string(rune('0'+w.vfs.tmpN%10))
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pat = pat[:i] + suf + pat[i+1:]
		} else {
			pat += suf
		}
		return d + "/" + pat, d
	}
	I["os.CreateTemp"] = func(w *W, a []V) V {
		nm, _ := tmp(w, a)
		o, e := w.vfs.open(nm, oRDWR|oCREATE|oEXCL, 0o600)
		if e != 0 {
			return tup(V{}, w.pathErr("open", nm, e))
		}
		return tup(w.osFile(o), V{})
	}
	I["os.MkdirTemp"] = func(w *W, a []V) V {
		nm, _ := tmp(w, a)
		w.vfs.mkdir(vpath(nm))
		return tup(sStr(nm), V{})
	}

	// ---- *os.File methods
	chk := func(w *W, op string, v V) (*OpenFile, V) {
		if v.r == nil {
			return nil, w.globalNamed("os", "ErrInvalid")
		}
		o := w.fileOf(v)
		if o == nil {
			return nil, w.globalNamed("os", "ErrInvalid")
		}
		if o.closed {
			e := w.pathErr(op, o.name, 0)
			w.store(&w.ptr(e.r.(*Iface).v).r.(*Agg).f[2], w.globalNamed("os", "ErrClosed"))
			return nil, e
		}
		return o, V{}
	}
	I["(*os.File).Name"] = func(w *W, a []V) V { return sStr(w.fileOf(a[0]).name) }
	I["(*os.File).Fd"] = func(w *W, a []V) V { return iV(w.fileOf(a[0]).std - 1) }
	I["(*os.File).Sync"] = func(w *W, a []V) V { return V{} }
	I["(*os.File).Chmod"] = func(w *W, a []V) V { return V{} }
	I["(*os.File).Close"] = func(w *W, a []V) V {
		o, e := chk(w, "close", a[0])
		if o == nil {
			return e
		}
		if o.std == 0 {
			o.closed = true
		}
		return V{}
	}
	I["(*os.File).Write"] = func(w *W, a []V) V {
		o, e := chk(w, "write", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		n, en := w.vfs.write(o, sliceElems(a[1]))
		if en != 0 {
			return tup(iV(n), w.pathErr("write", o.name, en))
		}
		return tup(iV(n), V{})
	}
	I["(*os.File).WriteString"] = func(w *W, a []V) V {
		o, e := chk(w, "write", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		bs := strBytes(a[1])
		el := make([]V, len(bs))
		for i := range bs {
			el[i] = sbV(bs[i])
		}
		n, en := w.vfs.write(o, el)
		if en != 0 {
			return tup(iV(n), w.pathErr("write", o.name, en))
		}
		return tup(iV(n), V{})
	}
	I["(*os.File).Read"] = func(w *W, a []V) V {
		o, e := chk(w, "read", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		if slen(a[1]) == 0 {
			return tup(V{}, V{})
		}
		b, en := w.vfs.read(o, slen(a[1]))
		if en != 0 {
			return tup(V{}, w.pathErr("read", o.name, en))
		}
		if len(b) == 0 {
			return tup(V{}, w.globalNamed("io", "EOF"))
		}
		w.copyElems(a[1], b)
		return tup(iV(len(b)), V{})
	}
	I["(*os.File).ReadFrom"] = func(w *W, a []V) V {
		return w.call(w.stdFn("io", "Copy"), []V{w.writerOnly(a[0]), a[1]}, nil)
	}
	I["(*os.File).WriteTo"] = func(w *W, a []V) V {
		o, e := chk(w, "read", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		b, en := w.vfs.read(o, 1<<30)
		if en != 0 {
			return tup(V{}, w.pathErr("read", o.name, en))
		}
		i := a[1].r.(*Iface)
		f := w.lookupMethod(i.t, "Write")
		if len(b) == 0 {
			return tup(V{}, V{})
		}
		return w.call(f, []V{i.v, mkSlice(append([]V(nil), b...))}, nil)
	}
	I["(*os.File).Seek"] = func(w *W, a []V) V {
		o, e := chk(w, "seek", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		off := w.concInt(a[1])
		switch w.concInt(a[2]) {
		case 1:
			off += o.off
		case 2:
			off += len(o.node.data)
		}
		if off < 0 {
			return tup(V{}, w.pathErr("seek", o.name, eINVAL))
		}
		o.off = off
		return tup(iV(off), V{})
	}
	I["(*os.File).Truncate"] = func(w *W, a []V) V {
		o, e := chk(w, "truncate", a[0])
		if o == nil {
			return e
		}
		n := w.concInt(a[1])
		d := append([]V(nil), o.node.data...)
		for len(d) < n {
			d = append(d, V{})
		}
		o.node.data = d[:n]
		return V{}
	}
	I["(*os.File).Stat"] = func(w *W, a []V) V {
		o, e := chk(w, "stat", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		n := o.node
		if n == nil {
			n = &VNode{mode: 1<<26 | 0o620}
		}
		return tup(w.fileInfo(o.name, n), V{})
	}
	alias(func(w *W, a []V) V {
		o, e := chk(w, "readdir", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		if !o.node.dir {
			return tup(V{}, w.pathErr("fdopendir", o.name, eNOTDIR))
		}
		return tup(mkSlice(w.dirEntries(o.name)), V{})
	}, "(*os.File).ReadDir")
	I["(*os.File).Readdirnames"] = func(w *W, a []V) V {
		o, e := chk(w, "readdir", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		return tup(w.newStrSlice(w.vfs.list(o.name)), V{})
	}
	I["(*os.File).Readdir"] = func(w *W, a []V) V {
		o, e := chk(w, "readdir", a[0])
		if o == nil {
			return tup(V{}, e)
		}
		if !o.node.dir {
			return tup(V{}, w.pathErr("fdopendir", o.name, eNOTDIR))
		}
		var out []V
		for _, n := range w.vfs.list(o.name) {
			out = append(out, w.fileInfo(n, w.vfs.nodes[vpath(o.name+"/"+n)]))
		}
		return tup(mkSlice(out), V{})
	}
}

func (w *W) writerOnly(f V) V {
	p := w.prog.ImportedPackage("os")
	t := p.Type("fileWithoutReadFrom")
	if t == nil {
		panic(unsupported("os.fileWithoutReadFrom"))
	}
	rt := w.rt(t.Type())
	z := zeroV(rt)
	ag := z.r.(*Agg)
	for i, fl := range rt.fields {
		if fl.t.kind.String() == "ptr" {
			ag.f[i] = f
		}
	}
	return V{r: &Iface{t: rt, v: z}}
}
