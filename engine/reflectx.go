package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"unsafe"
)

// reflect.Value is the aggregate {typ_ *abi.Type, ptr unsafe.Pointer, flag}.
// typ_ holds the *RType, ptr the storage location, flag the bits below.
const (
	rvValid = 1 << 20
	rvAddr  = 1
	rvRO    = 2
)

type rval struct {
	t    *RType
	p    *V
	flag uint64
}

func (w *W) rvOf(v V) rval {
	ag := v.r.(*Agg)
	t, _ := ag.f[0].r.(*RType)
	p, _ := ag.f[1].r.(*V)
	return rval{t, p, ag.f[2].n}
}

func rvMake(t *RType, p *V, flag uint64) V {
	return V{r: &Agg{[]V{{r: t}, {r: p}, {n: flag | rvValid}}}}
}

func rvNew(t *RType, v V, flag uint64) V {
	p := new(V)
	*p = copyV(v)
	return rvMake(t, p, flag)
}

func rvZero() V { return V{r: &Agg{make([]V, 3)}} }

func (w *W) refPanic(msg string) {
	panic(&goPanic{v: V{r: &Iface{t: w.rt(types.Typ[types.String]), v: sStr("reflect: " + msg)}}, where: w.where()})
}

// typeV makes an interface value of type reflect.Type.
func (w *W) typeV(t *RType) V {
	if t == nil {
		return V{}
	}
	if t.boxed.r == nil {
		p := w.prog.ImportedPackage("reflect")
		rt := w.rt(types.NewPointer(p.Type("rtype").Type()))
		t.boxed = V{r: &Iface{t: rt, v: V{r: t}}}
	}
	return t.boxed
}

func (w *W) typeArg(v V) *RType {
	if i, ok := v.r.(*Iface); ok {
		return i.v.r.(*RType)
	}
	if t, ok := v.r.(*RType); ok {
		return t
	}
	w.nilDeref()
	return nil
}

func (w *W) ifaceOf(r rval) V {
	if r.t.kind == reflect.Interface {
		return *r.p
	}
	return V{r: &Iface{t: r.t, v: load(r.p)}}
}

func (w *W) methodsOf(t *RType) []*types.Selection {
	if t.msetOK {
		return t.mset
	}
	t.msetOK = true
	ms := w.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			t.mset = append(t.mset, ms.At(i))
		}
	}
	sort.Slice(t.mset, func(i, j int) bool { return t.mset[i].Obj().Name() < t.mset[j].Obj().Name() })
	return t.mset
}

func (w *W) structField(t *RType, i int) V {
	p := w.prog.ImportedPackage("reflect")
	sf := w.rt(p.Type("StructField").Type())
	z := zeroV(sf)
	ag := z.r.(*Agg)
	f := t.fields[i]
	for j, g := range sf.fields {
		switch g.name {
		case "Name":
			ag.f[j] = sStr(f.name)
		case "PkgPath":
			if !f.exported && f.pkg != nil {
				ag.f[j] = sStr(f.pkg.Path())
			}
		case "Type":
			ag.f[j] = w.typeV(f.t)
		case "Tag":
			ag.f[j] = sStr(f.tag)
		case "Index":
			ag.f[j] = mkSlice([]V{iV(i)})
		case "Anonymous":
			ag.f[j] = boolV(f.embedded)
		}
	}
	return z
}

// fieldPath finds a (possibly promoted) field by name.
func (w *W) fieldPath(t *RType, name string) []int {
	type item struct {
		t    *RType
		path []int
	}
	cur := []item{{t, nil}}
	seen := map[*RType]bool{}
	for len(cur) > 0 {
		var next []item
		var found []int
		n := 0
		for _, it := range cur {
			s := it.t
			if s.kind == reflect.Pointer {
				s = s.elem
			}
			if s.kind != reflect.Struct || seen[s] {
				continue
			}
			seen[s] = true
			for i, f := range s.fields {
				p := append(append([]int(nil), it.path...), i)
				if f.name == name {
					found = p
					n++
				} else if f.embedded {
					next = append(next, item{f.t, p})
				}
			}
		}
		if n == 1 {
			return found
		}
		if n > 1 {
			return nil
		}
		cur = next
	}
	return nil
}

func (w *W) rvField(r rval, i int) rval {
	f := r.t.fields[i]
	fl := r.flag & (rvAddr | rvRO)
	if !f.exported {
		fl |= rvRO
	}
	return rval{f.t, &r.p.r.(*Agg).f[i], fl}
}

func (r rval) v() V { return rvMake(r.t, r.p, r.flag) }

func addrOf(p *V) uint64 {
	for {
		ag, ok := p.r.(*Agg)
		if !ok || len(ag.f) == 0 {
			return uint64(uintptr(unsafe.Pointer(p)))
		}
		p = &ag.f[0]
	}
}

func (w *W) nativeFn(name string, f func(w *W, a []V) V) V {
	return V{r: &Closure{fn: &Fn{name: name, intr: f, recover: -1}}}
}

func (w *W) assignTo(dst *RType, x rval) V {
	if dst.kind == reflect.Interface && x.t.kind != reflect.Interface {
		if !w.implements(x.t, dst) {
			w.refPanic("value of type " + x.t.String() + " is not assignable to type " + dst.String())
		}
		return V{r: &Iface{t: x.t, v: load(x.p)}}
	}
	if x.t != dst && !types.AssignableTo(x.t.t, dst.t) {
		w.refPanic("value of type " + x.t.String() + " is not assignable to type " + dst.String())
	}
	return load(x.p)
}

func (w *W) isZero(t *RType, v V) V {
	switch t.kind {
	case reflect.Struct:
		r := V{n: 1}
		for i := range t.fields {
			r = w.and(r, w.isZero(t.fields[i].t, v.r.(*Agg).f[i]))
		}
		return r
	case reflect.Array:
		r := V{n: 1}
		for _, e := range v.r.(*Agg).f {
			r = w.and(r, w.isZero(t.elem, e))
		}
		return r
	case reflect.String:
		return boolV(strLen(v) == 0)
	case reflect.Float32, reflect.Float64:
		return boolV(v.n == 0)
	}
	if t.numeric {
		return w.eqV(t, v, V{})
	}
	return boolV(v.r == nil)
}

func (w *W) deepEqual(t *RType, a, b V, depth int) V {
	if depth > 60 {
		panic(unsupported("DeepEqual depth"))
	}
	switch t.kind {
	case reflect.Struct:
		r := V{n: 1}
		for i := range t.fields {
			r = w.and(r, w.deepEqual(t.fields[i].t, a.r.(*Agg).f[i], b.r.(*Agg).f[i], depth+1))
		}
		return r
	case reflect.Array:
		r := V{n: 1}
		for i := range a.r.(*Agg).f {
			r = w.and(r, w.deepEqual(t.elem, a.r.(*Agg).f[i], b.r.(*Agg).f[i], depth+1))
		}
		return r
	case reflect.Slice:
		if (a.r == nil) != (b.r == nil) || slen(a) != slen(b) {
			return V{}
		}
		r := V{n: 1}
		for i := 0; i < slen(a); i++ {
			r = w.and(r, w.deepEqual(t.elem, *elemAt(a.r.(*V), i), *elemAt(b.r.(*V), i), depth+1))
		}
		return r
	case reflect.Pointer:
		if a.r == b.r {
			return V{n: 1}
		}
		if a.r == nil || b.r == nil {
			return V{}
		}
		return w.deepEqual(t.elem, *w.ptr(a), *w.ptr(b), depth+1)
	case reflect.Interface:
		if a.r == nil || b.r == nil {
			return boolV(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*Iface), b.r.(*Iface)
		if x.t != y.t {
			return V{}
		}
		return w.deepEqual(x.t, x.v, y.v, depth+1)
	case reflect.Map:
		if (a.r == nil) != (b.r == nil) {
			return V{}
		}
		if a.r == nil {
			return V{n: 1}
		}
		x, y := a.r.(*MapV), b.r.(*MapV)
		if x.live != y.live {
			return V{}
		}
		r := V{n: 1}
		for _, e := range x.ents {
			if e.del {
				continue
			}
			i := w.mapFind(y, e.k)
			if i < 0 {
				return V{}
			}
			r = w.and(r, w.deepEqual(t.elem, e.v, y.ents[i].v, depth+1))
		}
		return r
	case reflect.Func:
		return boolV(a.r == nil && b.r == nil)
	}
	return w.eqV(t, a, b)
}

func reflectIntrinsics(I map[string]func(w *W, a []V) V) {
	R := func(n string, f func(w *W, a []V) V) { I["reflect."+n] = f }
	M := func(n string, f func(w *W, r rval, a []V) V) {
		I["(reflect.Value)."+n] = func(w *W, a []V) V {
			r := w.rvOf(a[0])
			if r.flag == 0 && n != "IsValid" && n != "Kind" && n != "String" {
				w.refPanic("call of reflect.Value." + n + " on zero Value")
			}
			return f(w, r, a[1:])
		}
	}
	T := func(n string, f func(w *W, t *RType, a []V) V) {
		I["(*reflect.rtype)."+n] = func(w *W, a []V) V {
			t, ok := a[0].r.(*RType)
			if !ok {
				w.nilDeref()
			}
			return f(w, t, a[1:])
		}
		I["(internal/reflectlite.rtype)."+n] = func(w *W, a []V) V {
			t, ok := a[0].r.(*Agg).f[0].r.(*RType)
			if !ok {
				w.nilDeref()
			}
			r := f(w, t, a[1:])
			// re-box reflect.Type results
			if i, ok := r.r.(*Iface); ok {
				if t2, ok := i.v.r.(*RType); ok {
					return w.liteType(t2)
				}
			}
			return r
		}
	}
	reflectInterp["reflect.TypeFor"] = true
	reflectInterp["reflect.Indirect"] = true
	reflectInterp["reflect.VisibleFields"] = true
	for _, n := range []string{"FieldByIndex"} {
		reflectInterp["(reflect.Value)."+n] = true
	}

	R("TypeOf", func(w *W, a []V) V {
		if a[0].r == nil {
			return V{}
		}
		return w.typeV(a[0].r.(*Iface).t)
	})
	R("ValueOf", func(w *W, a []V) V {
		if a[0].r == nil {
			return rvZero()
		}
		i := a[0].r.(*Iface)
		return rvNew(i.t, i.v, 0)
	})
	R("New", func(w *W, a []V) V {
		t := w.typeArg(a[0])
		p := new(V)
		*p = zeroV(t)
		return rvNew(w.rt(types.NewPointer(t.t)), V{r: p}, 0)
	})
	R("Zero", func(w *W, a []V) V { t := w.typeArg(a[0]); return rvNew(t, zeroV(t), 0) })
	R("MakeSlice", func(w *W, a []V) V {
		t := w.typeArg(a[0])
		return rvNew(t, w.makeSlice(t, a[1], a[2]), 0)
	})
	mkmap := func(w *W, a []V) V { t := w.typeArg(a[0]); return rvNew(t, V{r: newMap(t)}, 0) }
	R("MakeMap", mkmap)
	R("MakeMapWithSize", mkmap)
	R("PointerTo", func(w *W, a []V) V { return w.typeV(w.rt(types.NewPointer(w.typeArg(a[0]).t))) })
	R("PtrTo", I["reflect.PointerTo"])
	R("SliceOf", func(w *W, a []V) V { return w.typeV(w.rt(types.NewSlice(w.typeArg(a[0]).t))) })
	R("MapOf", func(w *W, a []V) V {
		return w.typeV(w.rt(types.NewMap(w.typeArg(a[0]).t, w.typeArg(a[1]).t)))
	})
	R("Append", func(w *W, a []V) V {
		s := w.rvOf(a[0])
		cur := *s.p
		for _, x := range sliceElems(a[1]) {
			cur = w.appendElems(cur, []V{w.assignTo(s.t.elem, w.rvOf(x))}, s.t.elem)
		}
		return rvNew(s.t, cur, 0)
	})
	R("AppendSlice", func(w *W, a []V) V {
		s, x := w.rvOf(a[0]), w.rvOf(a[1])
		return rvNew(s.t, w.appendElems(*s.p, sliceElems(*x.p), s.t.elem), 0)
	})
	R("Copy", func(w *W, a []V) V {
		d, s := w.rvOf(a[0]), w.rvOf(a[1])
		return iV(w.copyElems(*d.p, sliceElems(*s.p)))
	})
	R("DeepEqual", func(w *W, a []V) V { return w.deepEqual(w.rt(types.Universe.Lookup("any").Type()), a[0], a[1], 0) })
	swapper := func(w *W, a []V) V {
		s := a[0].r.(*Iface).v
		return w.nativeFn("swapper", func(w *W, x []V) V {
			p, q := elemAt(s.r.(*V), w.concInt(x[0])), elemAt(s.r.(*V), w.concInt(x[1]))
			t1, t2 := load(p), load(q)
			w.store(p, t2)
			w.store(q, t1)
			return V{}
		})
	}
	R("Swapper", swapper)
	I["internal/reflectlite.Swapper"] = swapper
	I["internal/reflectlite.TypeOf"] = func(w *W, a []V) V {
		if a[0].r == nil {
			return V{}
		}
		return w.liteType(a[0].r.(*Iface).t)
	}
	I["internal/reflectlite.ValueOf"] = I["reflect.ValueOf"]
	for _, n := range []string{"Kind", "Elem", "IsNil", "Set", "CanSet", "Len", "IsValid"} {
		n := n
		I["(internal/reflectlite.Value)."+n] = func(w *W, a []V) V { return I["(reflect.Value)."+n](w, a) }
	}
	I["(internal/reflectlite.Value).Type"] = func(w *W, a []V) V { return w.liteType(w.rvOf(a[0]).t) }
	I["internal/reflectlite.valueInterface"] = func(w *W, a []V) V { return w.ifaceOf(w.rvOf(a[0])) }

	// ---- Type
	T("Kind", func(w *W, t *RType, a []V) V { return V{n: uint64(t.kind)} })
	T("Elem", func(w *W, t *RType, a []V) V {
		if t.elem == nil {
			w.refPanic("Elem of invalid type " + t.String())
		}
		return w.typeV(t.elem)
	})
	T("Key", func(w *W, t *RType, a []V) V { return w.typeV(t.key) })
	T("Len", func(w *W, t *RType, a []V) V { return iV(t.length) })
	T("Name", func(w *W, t *RType, a []V) V {
		switch x := t.t.(type) {
		case *types.Named:
			return sStr(x.Obj().Name())
		case *types.Basic:
			return sStr(x.Name())
		}
		return V{}
	})
	T("PkgPath", func(w *W, t *RType, a []V) V {
		if x, ok := t.t.(*types.Named); ok && x.Obj().Pkg() != nil {
			return sStr(x.Obj().Pkg().Path())
		}
		return V{}
	})
	T("String", func(w *W, t *RType, a []V) V { return sStr(t.reflectString()) })
	T("NumField", func(w *W, t *RType, a []V) V { return iV(len(t.fields)) })
	T("Field", func(w *W, t *RType, a []V) V { return w.structField(t, w.concInt(a[0])) })
	T("FieldByName", func(w *W, t *RType, a []V) V {
		p := w.fieldPath(t, w.lbl(a[0]))
		if len(p) != 1 {
			if len(p) > 1 {
				panic(unsupported("promoted FieldByName"))
			}
			return tup(zeroV(w.rt(w.prog.ImportedPackage("reflect").Type("StructField").Type())), V{})
		}
		return tup(w.structField(t, p[0]), V{n: 1})
	})
	T("FieldByIndex", func(w *W, t *RType, a []V) V {
		var r V
		for _, e := range sliceElems(a[0]) {
			if t.kind == reflect.Pointer {
				t = t.elem
			}
			i := w.concInt(e)
			r = w.structField(t, i)
			t = t.fields[i].t
		}
		return r
	})
	T("NumMethod", func(w *W, t *RType, a []V) V {
		if t.kind == reflect.Interface {
			return iV(t.u.(*types.Interface).NumMethods())
		}
		return iV(len(w.methodsOf(t)))
	})
	T("MethodByName", func(w *W, t *RType, a []V) V {
		n := w.lbl(a[0])
		mt := w.rt(w.prog.ImportedPackage("reflect").Type("Method").Type())
		z := zeroV(mt)
		for i, s := range w.methodsOf(t) {
			if s.Obj().Name() == n {
				for j, f := range mt.fields {
					switch f.name {
					case "Name":
						z.r.(*Agg).f[j] = sStr(n)
					case "Index":
						z.r.(*Agg).f[j] = iV(i)
					case "Type":
						z.r.(*Agg).f[j] = w.typeV(w.rt(s.Type()))
					}
				}
				return tup(z, V{n: 1})
			}
		}
		return tup(z, V{})
	})
	T("Implements", func(w *W, t *RType, a []V) V { return boolV(w.implements(t, w.anyTypeArg(a[0]))) })
	T("AssignableTo", func(w *W, t *RType, a []V) V {
		u := w.anyTypeArg(a[0])
		return boolV(t == u || types.AssignableTo(t.t, u.t))
	})
	T("ConvertibleTo", func(w *W, t *RType, a []V) V { return boolV(types.ConvertibleTo(t.t, w.anyTypeArg(a[0]).t)) })
	T("Comparable", func(w *W, t *RType, a []V) V { return boolV(types.Comparable(t.t)) })
	T("NumIn", func(w *W, t *RType, a []V) V { return iV(t.u.(*types.Signature).Params().Len()) })
	T("NumOut", func(w *W, t *RType, a []V) V { return iV(t.u.(*types.Signature).Results().Len()) })
	T("In", func(w *W, t *RType, a []V) V {
		return w.typeV(w.rt(t.u.(*types.Signature).Params().At(w.concInt(a[0])).Type()))
	})
	T("Out", func(w *W, t *RType, a []V) V {
		return w.typeV(w.rt(t.u.(*types.Signature).Results().At(w.concInt(a[0])).Type()))
	})
	T("IsVariadic", func(w *W, t *RType, a []V) V { return boolV(t.u.(*types.Signature).Variadic()) })
	T("Size", func(w *W, t *RType, a []V) V {
		return iV(int(types.SizesFor("gc", "amd64").Sizeof(t.t)))
	})
	T("Bits", func(w *W, t *RType, a []V) V { return iV(int(t.w)) })

	// ---- Value
	M("IsValid", func(w *W, r rval, a []V) V { return boolV(r.flag != 0) })
	M("Kind", func(w *W, r rval, a []V) V {
		if r.flag == 0 {
			return V{}
		}
		return V{n: uint64(r.t.kind)}
	})
	M("Type", func(w *W, r rval, a []V) V { return w.typeV(r.t) })
	M("Elem", func(w *W, r rval, a []V) V {
		v := *r.p
		switch r.t.kind {
		case reflect.Pointer:
			if v.r == nil {
				return rvZero()
			}
			p, ok := v.r.(*V)
			if !ok {
				panic(unsupported("reflect Elem of native pointer"))
			}
			return rvMake(r.t.elem, p, rvAddr|r.flag&rvRO)
		case reflect.Interface:
			if v.r == nil {
				return rvZero()
			}
			i := v.r.(*Iface)
			return rvNew(i.t, i.v, r.flag&rvRO)
		}
		w.refPanic("call of reflect.Value.Elem on " + r.t.kind.String() + " Value")
		return V{}
	})
	M("IsNil", func(w *W, r rval, a []V) V {
		switch r.t.kind {
		case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
			return boolV(r.p.r == nil)
		}
		w.refPanic("call of reflect.Value.IsNil on " + r.t.kind.String() + " Value")
		return V{}
	})
	M("IsZero", func(w *W, r rval, a []V) V { return w.isZero(r.t, *r.p) })
	M("Interface", func(w *W, r rval, a []V) V {
		if r.flag&rvRO != 0 {
			w.refPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.ifaceOf(r)
	})
	M("CanInterface", func(w *W, r rval, a []V) V { return boolV(r.flag&rvRO == 0) })
	M("CanSet", func(w *W, r rval, a []V) V { return boolV(r.flag&(rvRO|rvAddr) == rvAddr) })
	M("CanAddr", func(w *W, r rval, a []V) V { return boolV(r.flag&rvAddr != 0) })
	M("Addr", func(w *W, r rval, a []V) V {
		if r.flag&rvAddr == 0 {
			w.refPanic("reflect.Value.Addr of unaddressable value")
		}
		return rvNew(w.rt(types.NewPointer(r.t.t)), V{r: r.p}, r.flag&rvRO)
	})
	setter := func(n string, conv func(w *W, r rval, x V) V) {
		M(n, func(w *W, r rval, a []V) V {
			if r.flag&(rvRO|rvAddr) != rvAddr {
				w.refPanic("reflect." + n + " using unaddressable value")
			}
			x := V{}
			if len(a) > 0 {
				x = a[0]
			}
			w.store(r.p, conv(w, r, x))
			return V{}
		})
	}
	setter("Set", func(w *W, r rval, x V) V { return w.assignTo(r.t, w.rvOf(x)) })
	setter("SetZero", func(w *W, r rval, x V) V { return zeroV(r.t) })
	num := func(w *W, r rval, x V) V {
		if t, ok := x.r.(*Term); ok {
			return w.termV(w.terms.Trunc(t, r.t.w), r.t)
		}
		return V{n: normK(x.n, r.t.w, r.t.signed)}
	}
	setter("SetInt", num)
	setter("SetUint", num)
	setter("SetBool", func(w *W, r rval, x V) V { return x })
	setter("SetString", func(w *W, r rval, x V) V { return x })
	setter("SetFloat", func(w *W, r rval, x V) V { return x })
	setter("SetBytes", func(w *W, r rval, x V) V { return x })
	setter("SetLen", func(w *W, r rval, x V) V { return V{r: r.p.r, n: packLC(w.concInt(x), scap(*r.p))} })
	M("Grow", func(w *W, r rval, a []V) V {
		n := w.concInt(a[0])
		if slen(*r.p)+n > scap(*r.p) {
			w.store(r.p, w.growSlice(*r.p, slen(*r.p)+n))
		}
		return V{}
	})
	M("Int", func(w *W, r rval, a []V) V {
		if !r.t.numeric || !r.t.signed {
			w.refPanic("call of reflect.Value.Int on " + r.t.kind.String() + " Value")
		}
		return w.convScalar(*r.p, r.t, types.Int64)
	})
	M("Uint", func(w *W, r rval, a []V) V {
		if !r.t.numeric || r.t.signed || r.t.w == 0 {
			w.refPanic("call of reflect.Value.Uint on " + r.t.kind.String() + " Value")
		}
		return w.convScalar(*r.p, r.t, types.Uint64)
	})
	M("Bool", func(w *W, r rval, a []V) V { return *r.p })
	M("Float", func(w *W, r rval, a []V) V { return *r.p })
	M("Complex", func(w *W, r rval, a []V) V { return *r.p })
	M("String", func(w *W, r rval, a []V) V {
		if r.flag == 0 {
			return sStr("<invalid Value>")
		}
		if r.t.kind == reflect.String {
			return *r.p
		}
		return sStr("<" + r.t.reflectString() + " Value>")
	})
	kindPred := func(n string, f func(t *RType) bool) {
		M(n, func(w *W, r rval, a []V) V { return boolV(f(r.t)) })
	}
	kindPred("CanInt", func(t *RType) bool { return t.numeric && t.signed })
	kindPred("CanUint", func(t *RType) bool { return t.numeric && !t.signed && t.w > 0 })
	kindPred("CanFloat", func(t *RType) bool { return t.kind == reflect.Float32 || t.kind == reflect.Float64 })
	kindPred("Comparable", func(t *RType) bool { return types.Comparable(t.t) })
	M("Bytes", func(w *W, r rval, a []V) V { return *r.p })
	M("Len", func(w *W, r rval, a []V) V {
		v := *r.p
		switch r.t.kind {
		case reflect.Slice:
			return iV(slen(v))
		case reflect.String:
			return iV(strLen(v))
		case reflect.Array:
			return iV(r.t.length)
		case reflect.Map:
			if v.r == nil {
				return V{}
			}
			return iV(v.r.(*MapV).live)
		case reflect.Pointer:
			return iV(r.t.elem.length)
		}
		w.refPanic("call of reflect.Value.Len on " + r.t.kind.String() + " Value")
		return V{}
	})
	M("Cap", func(w *W, r rval, a []V) V {
		if r.t.kind == reflect.Slice {
			return iV(scap(*r.p))
		}
		return iV(r.t.length)
	})
	M("Index", func(w *W, r rval, a []V) V {
		i := w.concInt(a[0])
		v := *r.p
		switch r.t.kind {
		case reflect.Slice:
			if i < 0 || i >= slen(v) {
				w.refPanic("slice index out of range")
			}
			return rvMake(r.t.elem, elemAt(v.r.(*V), i), rvAddr|r.flag&rvRO)
		case reflect.Array:
			if i < 0 || i >= r.t.length {
				w.refPanic("array index out of range")
			}
			return rvMake(r.t.elem, &v.r.(*Agg).f[i], r.flag&(rvAddr|rvRO))
		case reflect.String:
			if i < 0 || i >= strLen(v) {
				w.refPanic("string index out of range")
			}
			return rvNew(w.byteT, sbV(strAt(v, i)), 0)
		}
		w.refPanic("call of reflect.Value.Index on " + r.t.kind.String() + " Value")
		return V{}
	})
	M("NumField", func(w *W, r rval, a []V) V {
		if r.t.kind != reflect.Struct {
			w.refPanic("call of reflect.Value.NumField on " + r.t.kind.String() + " Value")
		}
		return iV(len(r.t.fields))
	})
	M("Field", func(w *W, r rval, a []V) V {
		if r.t.kind != reflect.Struct {
			w.refPanic("call of reflect.Value.Field on " + r.t.kind.String() + " Value")
		}
		i := w.concInt(a[0])
		if i < 0 || i >= len(r.t.fields) {
			w.refPanic("Field index out of range")
		}
		return w.rvField(r, i).v()
	})
	M("FieldByName", func(w *W, r rval, a []V) V {
		p := w.fieldPath(r.t, w.lbl(a[0]))
		if p == nil {
			return rvZero()
		}
		for k, i := range p {
			if k > 0 && r.t.kind == reflect.Pointer {
				r = rval{r.t.elem, w.ptr(*r.p), rvAddr | r.flag&rvRO}
			}
			r = w.rvField(r, i)
		}
		return r.v()
	})
	M("MapIndex", func(w *W, r rval, a []V) V {
		if r.p.r == nil {
			return rvZero()
		}
		m := r.p.r.(*MapV)
		i := w.mapFind(m, w.assignTo(r.t.key, w.rvOf(a[0])))
		if i < 0 {
			return rvZero()
		}
		return rvNew(r.t.elem, m.ents[i].v, r.flag&rvRO)
	})
	M("SetMapIndex", func(w *W, r rval, a []V) V {
		m := r.p.r.(*MapV)
		k := w.assignTo(r.t.key, w.rvOf(a[0]))
		x := w.rvOf(a[1])
		if x.flag == 0 {
			w.mapDelete(m, k)
		} else {
			w.mapSet(m, k, w.assignTo(r.t.elem, x))
		}
		return V{}
	})
	M("MapKeys", func(w *W, r rval, a []V) V {
		var out []V
		if r.p.r != nil {
			for _, e := range r.p.r.(*MapV).ents {
				if !e.del {
					out = append(out, rvNew(r.t.key, e.k, 0))
				}
			}
		}
		return mkSlice(out)
	})
	M("MapRange", func(w *W, r rval, a []V) V {
		it := &iterV{isMap: true, t: r.t}
		if r.p.r != nil {
			it.m = r.p.r.(*MapV)
		}
		return V{r: &V{r: &rMapIter{it: it}}}
	})
	mit := func(w *W, v V) *rMapIter { return w.ptr(v).r.(*rMapIter) }
	I["(*reflect.MapIter).Next"] = func(w *W, a []V) V {
		m := mit(w, a[0])
		r := w.next(m.it).r.(*Agg)
		if r.f[0].n == 0 {
			return V{}
		}
		m.k, m.v = r.f[1], r.f[2]
		return V{n: 1}
	}
	I["(*reflect.MapIter).Key"] = func(w *W, a []V) V { m := mit(w, a[0]); return rvNew(m.it.t.key, m.k, 0) }
	I["(*reflect.MapIter).Value"] = func(w *W, a []V) V { m := mit(w, a[0]); return rvNew(m.it.t.elem, m.v, 0) }
	M("Slice", func(w *W, r rval, a []V) V {
		in := &Instr{t: r.t}
		none := V{r: noSlice{}}
		if r.t.kind == reflect.Array {
			in.t = w.rt(types.NewPointer(r.t.t))
			return rvNew(w.rt(types.NewSlice(r.t.elem.t)), w.slice(in, V{r: r.p}, a[0], a[1], none), 0)
		}
		return rvNew(r.t, w.slice(in, *r.p, a[0], a[1], none), 0)
	})
	M("Pointer", func(w *W, r rval, a []V) V {
		switch p := r.p.r.(type) {
		case nil:
			return V{}
		case *V:
			return V{n: addrOf(p)}
		case *MapV:
			return V{n: uint64(uintptr(unsafe.Pointer(p)))}
		case *Closure:
			return V{n: uint64(uintptr(unsafe.Pointer(p.fn)))}
		case *RType:
			return V{n: uint64(uintptr(unsafe.Pointer(p)))}
		}
		panic(unsupported("reflect Pointer"))
	})
	M("UnsafeAddr", func(w *W, r rval, a []V) V { return V{n: addrOf(r.p)} })
	M("UnsafePointer", func(w *W, r rval, a []V) V { return V{r: r.p.r} })
	M("Convert", func(w *W, r rval, a []V) V {
		t := w.typeArg(a[0])
		if t.kind == reflect.Interface {
			return rvNew(t, w.assignTo(t, r), 0)
		}
		if t.numeric && r.t.numeric && t.w > 0 && r.t.w > 0 {
			if x, ok := r.p.r.(*Term); ok {
				return rvNew(t, w.convTerm(x, r.t, t), 0)
			}
			return rvNew(t, V{n: normK(r.p.n, t.w, t.signed)}, 0)
		}
		if t.kind == r.t.kind {
			return rvNew(t, *r.p, 0)
		}
		return rvNew(t, w.convert(r.t, t, *r.p), 0)
	})
	M("Equal", func(w *W, r rval, a []V) V {
		u := w.rvOf(a[0])
		if r.t != u.t {
			return V{}
		}
		return w.eqV(r.t, *r.p, *u.p)
	})
	M("NumMethod", func(w *W, r rval, a []V) V { return iV(len(w.methodsOf(r.t))) })
	method := func(w *W, r rval, s *types.Selection) V {
		recv := load(r.p)
		f := w.lookupMethod(r.t, s.Obj().Name())
		if f == nil {
			panic(unsupported("reflect method"))
		}
		sig := s.Type().(*types.Signature)
		ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		cl := w.nativeFn("bound", func(w *W, x []V) V { return w.call(f, append([]V{recv}, x...), nil) })
		return rvNew(w.rt(ft), cl, 0)
	}
	M("MethodByName", func(w *W, r rval, a []V) V {
		n := w.lbl(a[0])
		if r.t.kind == reflect.Interface {
			i := r.p.r.(*Iface)
			p := new(V)
			*p = i.v
			r = rval{i.t, p, r.flag}
		}
		for _, s := range w.methodsOf(r.t) {
			if s.Obj().Name() == n {
				return method(w, r, s)
			}
		}
		return rvZero()
	})
	M("Method", func(w *W, r rval, a []V) V { return method(w, r, w.methodsOf(r.t)[w.concInt(a[0])]) })
	M("Call", func(w *W, r rval, a []V) V {
		sig := r.t.u.(*types.Signature)
		ins := sliceElems(a[0])
		var args []V
		np := sig.Params().Len()
		for i, x := range ins {
			if sig.Variadic() && i >= np-1 {
				break
			}
			args = append(args, w.assignTo(w.rt(sig.Params().At(i).Type()), w.rvOf(x)))
		}
		if sig.Variadic() {
			st := w.rt(sig.Params().At(np - 1).Type())
			var el []V
			for i := np - 1; i < len(ins); i++ {
				el = append(el, w.assignTo(st.elem, w.rvOf(ins[i])))
			}
			args = append(args, mkSlice(el))
		}
		res := w.callV(*r.p, args)
		nr := sig.Results().Len()
		var out []V
		switch nr {
		case 0:
		case 1:
			out = append(out, rvNew(w.rt(sig.Results().At(0).Type()), res, 0))
		default:
			for i := 0; i < nr; i++ {
				out = append(out, rvNew(w.rt(sig.Results().At(i).Type()), res.r.(*Agg).f[i], 0))
			}
		}
		return mkSlice(out)
	})
}

type rMapIter struct {
	it   *iterV
	k, v V
}

func (w *W) convScalar(v V, t *RType, k types.BasicKind) V {
	to := w.rt(types.Typ[k])
	if x, ok := v.r.(*Term); ok {
		return w.convTerm(x, t, to)
	}
	return V{n: normK(v.n, 64, to.signed)}
}

func (w *W) liteType(t *RType) V {
	p := w.prog.ImportedPackage("internal/reflectlite")
	rt := w.rt(p.Type("rtype").Type())
	return V{r: &Iface{t: rt, v: V{r: &Agg{[]V{{r: t}}}}}}
}

func (w *W) anyTypeArg(v V) *RType {
	i, ok := v.r.(*Iface)
	if !ok {
		w.refPanic("nil type")
	}
	switch x := i.v.r.(type) {
	case *RType:
		return x
	case *Agg:
		return x.f[0].r.(*RType)
	}
	panic(unsupported("type argument"))
}

func (t *RType) reflectString() string {
	q := func(p *types.Package) string { return p.Name() }
	s := types.TypeString(t.t, q)
	switch s {
	case "any":
		return "interface {}"
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	}
	return s
}

var _ = fmt.Sprint
