package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// V is a runtime value of the symbolic interpreter.
//
//	bool/ints/uintptr: concrete value in n (sign/zero extended), or r=*Term
//	floats:            n = float64 bits
//	complex:           r = complex128
//	string:            r = nil | string | *SStr
//	pointer:           r = nil | *V (or an opaque native object)
//	unsafe.Pointer:    as pointer
//	slice:             r = nil | *V (base), n = len<<32|cap
//	array/struct/tuple:r = *Agg
//	map:               r = nil | *MapV
//	func:              r = nil | *Closure
//	interface:         r = nil | *Iface
type V struct {
	n uint64
	r any
}

type Agg struct{ f []V }

type Iface struct {
	t *RType
	v V
}

type SB struct {
	t *Term
	c byte
}

type SStr struct{ b []SB }

type Closure struct {
	fn   *Fn
	free []V
}

type MapEnt struct {
	k, v V
	del  bool
}

type MapV struct {
	t    *RType
	idx  map[string]int // canonical concrete key -> entry
	ents []MapEnt
	live int
	nsym int // live entries with symbolic keys
}

// Chan is a buffered FIFO (no goroutine scheduling).
type Chan struct {
	buf    []V
	cap    int
	closed bool
}

const vsize = unsafe.Sizeof(V{})

func elemAt(base *V, i int) *V { return (*V)(unsafe.Add(unsafe.Pointer(base), uintptr(i)*vsize)) }

func slen(v V) int           { return int(v.n >> 32) }
func scap(v V) int           { return int(v.n & 0xffffffff) }
func packLC(l, c int) uint64 { return uint64(l)<<32 | uint64(uint32(c)) }

func sliceElems(v V) []V {
	l := slen(v)
	if l == 0 {
		return nil
	}
	return unsafe.Slice(v.r.(*V), l)
}

var emptyBase = new(V)

func mkSlice(elems []V) V {
	if len(elems) == 0 {
		return V{r: emptyBase}
	}
	return V{r: &elems[0], n: packLC(len(elems), cap(elems))}
}

func sStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(engineErr(fmt.Sprintf("strLen of %T", v.r)))
}

func strAt(v V, i int) SB {
	switch s := v.r.(type) {
	case string:
		return SB{c: s[i]}
	case *SStr:
		return s.b[i]
	}
	panic(engineErr("strAt"))
}

func normStr(b []SB) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].t != nil {
			return V{r: &SStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = b[i].c
	}
	return V{r: string(bs)}
}

func strBytes(v V) []SB {
	switch s := v.r.(type) {
	case nil:
		return nil
	case *SStr:
		return s.b
	case string:
		out := make([]SB, len(s))
		for i := 0; i < len(s); i++ {
			out[i].c = s[i]
		}
		return out
	}
	panic(engineErr(fmt.Sprintf("strBytes of %T", v.r)))
}

func substr(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.r.(type) {
	case string:
		return V{r: s[lo:hi]}
	case *SStr:
		return normStr(s.b[lo:hi:hi])
	}
	panic(engineErr("substr"))
}

// concStr returns the concrete string and whether it is concrete.
func concStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func concat(a, b V) V {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return V{r: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]SB, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return V{r: &SStr{out}}
}

// ---------------------------------------------------------------- types

type RField struct {
	name     string
	t        *RType
	tag      string
	exported bool
	embedded bool
	pkg      *types.Package
}

type RType struct {
	id      int
	t       types.Type
	u       types.Type
	kind    reflect.Kind
	w       uint8 // bit width for scalars
	signed  bool
	elem    *RType
	key     *RType
	length  int
	fields  []RField
	numeric bool // integer, bool or uintptr: representable as a term
	meths   map[string]*Fn
	mset    []*types.Selection // exported methods sorted by name
	msetOK  bool
	str     string
	ifaceOK map[*RType]int8
	boxed   V // interface reflect.Type value
}

func (t *RType) String() string {
	if t.str == "" {
		t.str = types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
	}
	return t.str
}

func (w *W) rt(t types.Type) *RType {
	t = types.Unalias(t)
	if x := w.types.At(t); x != nil {
		return x.(*RType)
	}
	r := &RType{id: w.types.Len(), t: t, u: t.Underlying()}
	w.types.Set(t, r)
	switch u := r.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind, r.w, r.numeric = reflect.Bool, 0, true
		case types.Int, types.UntypedInt:
			r.kind, r.w, r.signed, r.numeric = reflect.Int, 64, true, true
		case types.Int8:
			r.kind, r.w, r.signed, r.numeric = reflect.Int8, 8, true, true
		case types.Int16:
			r.kind, r.w, r.signed, r.numeric = reflect.Int16, 16, true, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed, r.numeric = reflect.Int32, 32, true, true
		case types.Int64:
			r.kind, r.w, r.signed, r.numeric = reflect.Int64, 64, true, true
		case types.Uint:
			r.kind, r.w, r.numeric = reflect.Uint, 64, true
		case types.Uint8:
			r.kind, r.w, r.numeric = reflect.Uint8, 8, true
		case types.Uint16:
			r.kind, r.w, r.numeric = reflect.Uint16, 16, true
		case types.Uint32:
			r.kind, r.w, r.numeric = reflect.Uint32, 32, true
		case types.Uint64:
			r.kind, r.w, r.numeric = reflect.Uint64, 64, true
		case types.Uintptr:
			r.kind, r.w, r.numeric = reflect.Uintptr, 64, true
		case types.Float32:
			r.kind, r.w = reflect.Float32, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = reflect.Float64, 64
		case types.Complex64:
			r.kind = reflect.Complex64
		case types.Complex128, types.UntypedComplex:
			r.kind = reflect.Complex128
		case types.String, types.UntypedString:
			r.kind = reflect.String
		case types.UnsafePointer:
			r.kind = reflect.UnsafePointer
		case types.UntypedNil:
			r.kind = reflect.Pointer
		default:
			panic(engineErr("basic kind " + u.String()))
		}
	case *types.Pointer:
		r.kind = reflect.Pointer
		r.elem = w.rt(u.Elem())
	case *types.Slice:
		r.kind = reflect.Slice
		r.elem = w.rt(u.Elem())
	case *types.Array:
		r.kind = reflect.Array
		r.elem = w.rt(u.Elem())
		r.length = int(u.Len())
	case *types.Map:
		r.kind = reflect.Map
		r.key = w.rt(u.Key())
		r.elem = w.rt(u.Elem())
	case *types.Chan:
		r.kind = reflect.Chan
		r.elem = w.rt(u.Elem())
	case *types.Struct:
		r.kind = reflect.Struct
		r.fields = make([]RField, u.NumFields())
		for i := range r.fields {
			f := u.Field(i)
			r.fields[i] = RField{name: f.Name(), t: w.rt(f.Type()), tag: u.Tag(i), exported: f.Exported(), embedded: f.Embedded(), pkg: f.Pkg()}
		}
	case *types.Signature:
		r.kind = reflect.Func
	case *types.Interface:
		r.kind = reflect.Interface
	case *types.Tuple:
		r.kind = reflect.Invalid
		r.fields = make([]RField, u.Len())
		for i := range r.fields {
			r.fields[i] = RField{t: w.rt(u.At(i).Type())}
		}
	default:
		if strings.Contains(fmt.Sprintf("%T", r.u), "opaque") {
			r.kind = reflect.Invalid
			break
		}
		panic(engineErr(fmt.Sprintf("type %T %s", r.u, r.u)))
	}
	return r
}

func (t *RType) isAgg() bool {
	return t.kind == reflect.Struct || t.kind == reflect.Array || t.kind == reflect.Invalid && t.fields != nil
}

func zeroV(t *RType) V {
	switch t.kind {
	case reflect.Struct, reflect.Invalid:
		f := make([]V, len(t.fields))
		for i := range f {
			if t.fields[i].t.isAgg() {
				f[i] = zeroV(t.fields[i].t)
			}
		}
		return V{r: &Agg{f}}
	case reflect.Array:
		f := make([]V, t.length)
		if t.elem.isAgg() {
			for i := range f {
				f[i] = zeroV(t.elem)
			}
		}
		return V{r: &Agg{f}}
	case reflect.Complex64, reflect.Complex128:
		return V{r: complex128(0)}
	}
	return V{}
}

// copyV deep-copies aggregates (value semantics).
func copyV(v V) V {
	if a, ok := v.r.(*Agg); ok {
		f := make([]V, len(a.f))
		for i := range f {
			f[i] = copyV(a.f[i])
		}
		return V{r: &Agg{f}}
	}
	return v
}

// load reads through a pointer.
func load(p *V) V {
	if _, ok := p.r.(*Agg); ok {
		return copyV(*p)
	}
	return *p
}

type undoRec struct {
	p   *V
	old V
	f   func()
}

func (w *W) logUndo(f func()) {
	if w.undoOn {
		w.undo = append(w.undo, undoRec{f: f})
	}
}

func (w *W) store(p *V, v V) {
	if a, ok := v.r.(*Agg); ok {
		if b, ok := p.r.(*Agg); ok && len(a.f) == len(b.f) {
			if a == b {
				return
			}
			for i := range a.f {
				w.store(&b.f[i], a.f[i])
			}
			return
		}
		v = copyV(v)
	}
	if w.race != nil {
		w.raceCell(p, true)
	}
	if w.undoOn {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

// ---------------------------------------------------------------- equality

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func (w *W) termV(t *Term, rt *RType) V {
	if t.op == OConst {
		return V{n: normK(t.k, rt.w, rt.signed)}
	}
	return V{r: t}
}

func (w *W) boolT(t *Term) V {
	if t.op == OConst {
		return V{n: t.k}
	}
	return V{r: t}
}

func normK(k uint64, width uint8, signed bool) uint64 {
	if width == 0 {
		return k & 1
	}
	if signed {
		return uint64(sext64(k, width))
	}
	return k & mask(width)
}

// tm converts a scalar value to a term of width wd.
func (w *W) tm(v V, wd uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return w.terms.Const(v.n, wd)
}

func (w *W) sbT(b SB) *Term {
	if b.t != nil {
		return b.t
	}
	return w.terms.Const(uint64(b.c), 8)
}

func (w *W) strEq(a, b V) V {
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return V{}
	}
	if la == 0 {
		return V{n: 1}
	}
	x, ok1 := a.r.(string)
	y, ok2 := b.r.(string)
	if ok1 && ok2 {
		return boolV(x == y)
	}
	// quick refutation on concrete bytes
	for i := 0; i < la; i++ {
		p, q := strAt(a, i), strAt(b, i)
		if p.t == nil && q.t == nil && p.c != q.c {
			return V{}
		}
	}
	t := w.terms.T
	for i := la - 1; i >= 0; i-- {
		p, q := strAt(a, i), strAt(b, i)
		if p.t == nil && q.t == nil {
			continue
		}
		t = w.terms.And(w.terms.Eq(w.sbT(p), w.sbT(q)), t)
		if t.isC() {
			return V{n: t.k}
		}
	}
	return w.boolT(t)
}

// strLess: lexicographic a<b as a boolean value.
func (w *W) strLess(a, b V) V {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		return boolV(x < y)
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	T := w.terms
	t := T.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		p, q := w.sbT(strAt(a, i)), w.sbT(strAt(b, i))
		t = T.Or(T.Ult(p, q), T.And(T.Eq(p, q), t))
	}
	return w.boolT(t)
}

func (w *W) and(a, b V) V {
	ta, ok1 := a.r.(*Term)
	tb, ok2 := b.r.(*Term)
	if !ok1 {
		if a.n == 0 {
			return V{}
		}
		return b
	}
	if !ok2 {
		if b.n == 0 {
			return V{}
		}
		return a
	}
	return w.boolT(w.terms.And(ta, tb))
}

func (w *W) notV(a V) V {
	if t, ok := a.r.(*Term); ok {
		return w.boolT(w.terms.Not(t))
	}
	return V{n: a.n ^ 1}
}

// eqV implements == for values of static type t.
func (w *W) eqV(t *RType, a, b V) V {
	switch t.kind {
	case reflect.String:
		return w.strEq(a, b)
	case reflect.Float32, reflect.Float64:
		return boolV(toF(a) == toF(b))
	case reflect.Complex64, reflect.Complex128:
		return boolV(a.r.(complex128) == b.r.(complex128))
	case reflect.Interface:
		return w.ifaceEq(a, b)
	case reflect.Struct:
		x, y := a.r.(*Agg), b.r.(*Agg)
		r := V{n: 1}
		for i := range t.fields {
			if t.fields[i].name == "_" {
				continue
			}
			r = w.and(r, w.eqV(t.fields[i].t, x.f[i], y.f[i]))
			if r.r == nil && r.n == 0 {
				return r
			}
		}
		return r
	case reflect.Array:
		x, y := a.r.(*Agg), b.r.(*Agg)
		r := V{n: 1}
		for i := range x.f {
			r = w.and(r, w.eqV(t.elem, x.f[i], y.f[i]))
			if r.r == nil && r.n == 0 {
				return r
			}
		}
		return r
	case reflect.Slice, reflect.Map, reflect.Func:
		if a.r != nil && b.r != nil {
			w.throw("runtime error: comparing uncomparable type " + t.String())
		}
		return boolV(a.r == nil && b.r == nil)
	case reflect.Pointer, reflect.UnsafePointer, reflect.Chan:
		return boolV(a.r == b.r)
	}
	if t.numeric {
		if a.r == nil && b.r == nil {
			return boolV(a.n == b.n)
		}
		return w.boolT(w.terms.Eq(w.tm(a, t.w), w.tm(b, t.w)))
	}
	panic(unsupported("eq of " + t.String()))
}

func (w *W) ifaceEq(a, b V) V {
	if a.r == nil || b.r == nil {
		return boolV(a.r == nil && b.r == nil)
	}
	x, y := a.r.(*Iface), b.r.(*Iface)
	if x.t != y.t {
		return V{}
	}
	if k := x.t.kind; k == reflect.Slice || k == reflect.Map || k == reflect.Func {
		w.throw("runtime error: comparing uncomparable type " + x.t.String())
	}
	return w.eqV(x.t, x.v, y.v)
}

// ---------------------------------------------------------------- maps

// canonKey returns a canonical string for a fully concrete key.
func canonKey(t *RType, v V, sb []byte) ([]byte, bool) {
	switch t.kind {
	case reflect.String:
		s, ok := concStr(v)
		if !ok {
			return nil, false
		}
		sb = strconv.AppendInt(sb, int64(len(s)), 10)
		sb = append(sb, ':')
		return append(sb, s...), true
	case reflect.Interface:
		if v.r == nil {
			return append(sb, 'N'), true
		}
		i := v.r.(*Iface)
		sb = append(sb, 'I')
		sb = strconv.AppendInt(sb, int64(i.t.id), 10)
		sb = append(sb, '/')
		return canonKey(i.t, i.v, sb)
	case reflect.Struct:
		sb = append(sb, '{')
		var ok bool
		for i := range t.fields {
			if sb, ok = canonKey(t.fields[i].t, v.r.(*Agg).f[i], sb); !ok {
				return nil, false
			}
		}
		return append(sb, '}'), true
	case reflect.Array:
		sb = append(sb, '[')
		var ok bool
		for i := range v.r.(*Agg).f {
			if sb, ok = canonKey(t.elem, v.r.(*Agg).f[i], sb); !ok {
				return nil, false
			}
		}
		return append(sb, ']'), true
	case reflect.Pointer, reflect.UnsafePointer, reflect.Chan:
		sb = append(sb, 'p')
		switch p := v.r.(type) {
		case nil:
		case *V:
			sb = strconv.AppendUint(sb, uint64(uintptr(unsafe.Pointer(p))), 16)
		case *RType:
			sb = append(sb, 't')
			sb = strconv.AppendInt(sb, int64(p.id), 10)
		default:
			sb = fmt.Appendf(sb, "%p", p)
		}
		return append(sb, ';'), true
	case reflect.Complex64, reflect.Complex128:
		return fmt.Appendf(sb, "c%v;", v.r), true
	}
	if v.r != nil {
		return nil, false
	}
	sb = strconv.AppendUint(sb, v.n, 16)
	return append(sb, ','), true
}

func newMap(t *RType) *MapV { return &MapV{t: t, idx: map[string]int{}} }

// mapFind locates key k, forking on symbolic comparisons.
func (w *W) mapFind(m *MapV, k V) int {
	if m.t.key.kind == reflect.Interface && k.r != nil {
		i := k.r.(*Iface)
		switch i.t.kind {
		case reflect.Slice, reflect.Map, reflect.Func:
			w.throw("runtime error: hash of unhashable type " + i.t.String())
		}
	}
	ck, ok := canonKey(m.t.key, k, nil)
	if ok {
		if i, ok := m.idx[string(ck)]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.del {
			continue
		}
		if ok {
			if _, ek := canonKey(m.t.key, e.k, nil); ek {
				continue
			}
		}
		if w.truth(w.eqV(m.t.key, e.k, k)) {
			return i
		}
	}
	return -1
}

func (w *W) mapSet(m *MapV, k, v V) {
	if w.race != nil {
		w.raceAcc(m, true)
	}
	if i := w.mapFind(m, k); i >= 0 {
		if w.undoOn {
			e := m.ents[i]
			w.logUndo(func() { m.ents[i] = e })
		}
		m.ents[i].v = copyV(v)
		return
	}
	n := len(m.ents)
	m.ents = append(m.ents, MapEnt{k: copyV(k), v: copyV(v)})
	m.live++
	ck, ok := canonKey(m.t.key, k, nil)
	if ok {
		m.idx[string(ck)] = n
	} else {
		m.nsym++
	}
	w.logUndo(func() {
		m.ents = m.ents[:n]
		m.live--
		if ok {
			delete(m.idx, string(ck))
		} else {
			m.nsym--
		}
	})
}

func (w *W) mapDelete(m *MapV, k V) {
	if w.race != nil {
		w.raceAcc(m, true)
	}
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	ck, ok := canonKey(m.t.key, m.ents[i].k, nil)
	if ok {
		delete(m.idx, string(ck))
	} else {
		m.nsym--
	}
	old := m.ents[i]
	m.ents[i] = MapEnt{del: true}
	m.live--
	w.logUndo(func() {
		m.ents[i] = old
		m.live++
		if ok {
			m.idx[string(ck)] = i
		} else {
			m.nsym++
		}
	})
}

type engineError struct{ msg string }

func engineErr(s string) engineError { return engineError{s} }
func (e engineError) Error() string  { return e.msg }
func unsupported(s string) pathEnd   { return pathEnd{kind: endUnsupported, msg: s} }

var _ = ssa.BuilderMode(0)
