package main

// An in-memory file system standing in for the operating system.

import (
	"path"
	"sort"
	"strings"
)

type VNode struct {
	dir  bool
	data []V
	mode uint64
	ino  uint64
	ro   bool
}

type OpenFile struct {
	node   *VNode
	name   string
	off    int
	std    int // 1 stdin, 2 stdout, 3 stderr
	read   bool
	write  bool
	app    bool
	closed bool
	dirPos int
}

type VFS struct {
	nodes   map[string]*VNode
	stdin   []V
	inOff   int
	stdout  []V
	stderr  []V
	nextIno uint64
	limit   int // maximum file size (RLIMIT_FSIZE), -1 = none
	tmpN    int
	args    []V
	env     map[string]string
	opens   int
}

const vfsRoot = "/work"

func newVFS() *VFS {
	f := &VFS{nodes: map[string]*VNode{}, limit: -1, nextIno: 10}
	f.mkdir("/")
	f.mkdir(vfsRoot)
	f.mkdir("/tmp")
	return f
}

func (f *VFS) mkdir(p string) *VNode {
	f.nextIno++
	n := &VNode{dir: true, mode: 0o755, ino: f.nextIno}
	f.nodes[p] = n
	return n
}

func vpath(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = vfsRoot + "/" + p
	}
	return path.Clean(p)
}

const (
	eNOENT    = 2
	eBADF     = 9
	eACCES    = 13
	eEXIST    = 17
	eNOTDIR   = 20
	eISDIR    = 21
	eINVAL    = 22
	eFBIG     = 27
	eNOTEMPTY = 39
)

// lookup resolves p; errno 0 when found.
func (f *VFS) lookup(p string) (*VNode, int) {
	if p == "" {
		return nil, eNOENT
	}
	trail := strings.HasSuffix(p, "/")
	q := vpath(p)
	if n, ok := f.nodes[q]; ok {
		if trail && !n.dir {
			return nil, eNOTDIR
		}
		return n, 0
	}
	for d := path.Dir(q); d != "/"; d = path.Dir(d) {
		if n, ok := f.nodes[d]; ok {
			if !n.dir {
				return nil, eNOTDIR
			}
			break
		}
	}
	return nil, eNOENT
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (f *VFS) open(name string, flag int, perm uint64) (*OpenFile, int) {
	f.opens++
	n, e := f.lookup(name)
	wr := flag&(oWRONLY|oRDWR) != 0
	if e != 0 {
		if e != eNOENT || flag&oCREATE == 0 || name == "" {
			return nil, e
		}
		if strings.HasSuffix(name, "/") {
			return nil, eISDIR
		}
		q := vpath(name)
		d, ok := f.nodes[path.Dir(q)]
		if !ok {
			return nil, eNOENT
		}
		if !d.dir {
			return nil, eNOTDIR
		}
		f.nextIno++
		n = &VNode{mode: perm &^ 0o22, ino: f.nextIno}
		f.nodes[q] = n
	} else {
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return nil, eEXIST
		}
		if n.dir && wr {
			return nil, eISDIR
		}
		if n.ro && wr {
			return nil, eACCES
		}
		if flag&oTRUNC != 0 && wr {
			n.data = nil
		}
	}
	return &OpenFile{node: n, name: name, read: flag&oWRONLY == 0, write: wr, app: flag&oAPPEND != 0}, 0
}

func (f *VFS) list(dir string) []string {
	dir = vpath(dir)
	pre := dir
	if pre != "/" {
		pre += "/"
	}
	var out []string
	for p := range f.nodes {
		if p != "/" && strings.HasPrefix(p, pre) && !strings.Contains(p[len(pre):], "/") {
			out = append(out, p[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

func (f *VFS) write(o *OpenFile, b []V) (int, int) {
	switch o.std {
	case 2:
		f.stdout = append(f.stdout, b...)
		return len(b), 0
	case 3:
		f.stderr = append(f.stderr, b...)
		return len(b), 0
	}
	if !o.write {
		return 0, eBADF
	}
	if o.app {
		o.off = len(o.node.data)
	}
	e := 0
	if f.limit >= 0 && o.off+len(b) > f.limit {
		k := max(f.limit-o.off, 0)
		b = b[:k]
		e = eFBIG
	}
	for len(o.node.data) < o.off {
		o.node.data = append(o.node.data, V{})
	}
	nd := append([]V(nil), o.node.data[:o.off]...)
	nd = append(nd, b...)
	if o.off+len(b) < len(o.node.data) {
		nd = append(nd, o.node.data[o.off+len(b):]...)
	}
	o.node.data = nd
	o.off += len(b)
	return len(b), e
}

func (f *VFS) read(o *OpenFile, n int) ([]V, int) {
	if o.std == 1 {
		k := min(n, len(f.stdin)-f.inOff)
		b := f.stdin[f.inOff : f.inOff+k]
		f.inOff += k
		return b, 0
	}
	if o.node.dir {
		return nil, eISDIR
	}
	if !o.read {
		return nil, eBADF
	}
	if o.off >= len(o.node.data) {
		return nil, 0
	}
	k := min(n, len(o.node.data)-o.off)
	b := o.node.data[o.off : o.off+k]
	o.off += k
	return b, 0
}
