package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	op   opcode
	cs   *CallSpec
	args []V
	recv V
}

type Frame struct {
	fn        *Fn
	regs      []V
	caller    *Frame
	defers    []deferred
	panicking *goPanic
	inDefers  bool
	depth     int
}

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v     V // interface value
	where string
	exit  bool // runtime.Goexit-like (unused)
}

type endKind int

const (
	endOK endKind = iota
	endAssume
	endUnsupported
	endBudget
	endViolation
	endExit
	endStack
	endStop
	endAlloc
)

type pathEnd struct {
	kind endKind
	msg  string
	code int
}

func (w *W) throw(msg string) {
	panic(&goPanic{v: w.runtimeError(msg), where: w.where()})
}

func (w *W) runtimeError(msg string) V {
	t := w.errStringT
	if t == nil {
		p := w.prog.ImportedPackage("runtime")
		t = w.rt(p.Type("errorString").Type())
		w.errStringT = t
	}
	const pre = "runtime error: "
	if len(msg) > len(pre) && msg[:len(pre)] == pre {
		msg = msg[len(pre):]
	}
	return V{r: &Iface{t: t, v: sStr(msg)}}
}

func (w *W) where() string {
	s := ""
	n := 0
	for fr := w.fr; fr != nil && n < 12; fr = fr.caller {
		s += strings.ReplaceAll(fr.fn.name, modPath+"/", "") + " < "
		n++
	}
	return s
}

const maxDepth = 6000

func (w *W) call(fn *Fn, args []V, free []V) V {
	if fn.intr == nil && !fn.compiled {
		w.compile(fn)
	}
	if fn.intr != nil {
		return fn.intr(w, args)
	}
	if fn.pre != nil && w.undoOn {
		if r, ok := fn.pre(w, args); ok {
			return r
		}
	}
	if fn.merge && w.undoOn {
		if r, ok := w.callMerged(fn, args, free); ok {
			return r
		}
	}
	return w.callPlain(fn, args, free)
}

func (w *W) callPlain(fn *Fn, args []V, free []V) V {
	fn.calls++
	var regs []V
	base := w.sp
	if base+fn.nregs <= len(w.stk) {
		regs = w.stk[base : base+fn.nregs : base+fn.nregs]
		w.sp += fn.nregs
	} else {
		regs = make([]V, fn.nregs)
	}
	copy(regs, args)
	copy(regs[fn.nparams:], free)
	fr := Frame{fn: fn, regs: regs, caller: w.fr}
	if w.fr != nil {
		fr.depth = w.fr.depth + 1
		if fr.depth > maxDepth {
			panic(pathEnd{kind: endStack, msg: "stack overflow in " + fn.name + ": " + w.where()})
		}
	}
	saved := w.fr
	w.fr = &fr
	var res V
	if fn.hasDefer {
		res = w.runDeferFrame(&fr)
	} else {
		res = w.run(&fr, 0)
	}
	w.fr = saved
	clear(regs)
	w.sp = base
	return res
}

func (w *W) callClosure(c *Closure, args []V) V { return w.call(c.fn, args, c.free) }

func (w *W) callV(f V, args []V) V {
	c, ok := f.r.(*Closure)
	if !ok {
		w.throw("invalid memory address or nil pointer dereference")
	}
	return w.call(c.fn, args, c.free)
}

func (w *W) runDeferFrame(fr *Frame) (res V) {
	sp := w.sp
	p := func() (p *goPanic) {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(*goPanic); ok {
					p = gp
					return
				}
				panic(r)
			}
		}()
		res = w.run(fr, 0)
		return nil
	}()
	if p == nil {
		return res
	}
	w.fr = fr
	w.sp = sp
	fr.panicking = p
	w.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	// recovered
	if fr.fn.recover >= 0 {
		return w.run(fr, fr.fn.blockPC[fr.fn.recover])
	}
	switch fr.fn.nres {
	case 0:
		return V{}
	default:
		return zeroV(fr.fn.resT)
	}
}

func (w *W) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		sp := w.sp
		p := func() (p *goPanic) {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(*goPanic); ok {
						p = gp
						return
					}
					panic(r)
				}
			}()
			w.doDeferred(fr, d)
			return nil
		}()
		w.fr = fr
		w.sp = sp
		if p != nil {
			fr.panicking = p
		}
	}
	if fr.panicking == nil {
		return
	}
}

func (w *W) doDeferred(fr *Frame, d deferred) {
	switch d.op {
	case iCall:
		w.call(d.cs.fn, d.args, nil)
	case iCallDyn:
		w.callV(d.recv, d.args)
	case iCallIface:
		fn, recv := w.ifaceMethod(d.recv, d.cs)
		w.call(fn, append([]V{recv}, d.args...), nil)
	case iBuiltin:
		if d.cs.name == "recover" {
			fr.panicking = nil
			return
		}
		w.builtin(fr, d.cs, d.args)
	}
}

// ifaceMethod resolves an interface method call.
func (w *W) ifaceMethod(recv V, cs *CallSpec) (*Fn, V) {
	i, ok := recv.r.(*Iface)
	if !ok {
		w.throw("invalid memory address or nil pointer dereference")
	}
	if f, ok := i.t.meths[cs.method]; ok {
		return f, i.v
	}
	f := w.lookupMethod(i.t, cs.method)
	if f == nil {
		panic(unsupported("method " + cs.method + " of " + i.t.String()))
	}
	return f, i.v
}

func (w *W) lookupMethod(t *RType, key string) *Fn {
	if f, ok := t.meths[key]; ok {
		return f
	}
	if t.meths == nil {
		t.meths = map[string]*Fn{}
	}
	ms := w.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		m := s.Obj().(*types.Func)
		if methodKey(m) == key {
			sf := w.prog.MethodValue(s)
			if sf == nil {
				return nil
			}
			f := w.fnOf(sf)
			t.meths[key] = f
			return f
		}
	}
	return nil
}

func (fr *Frame) g(o int32) V {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.fn.consts[^o]
}

func (w *W) takeEdge(fr *Frame, e *Edge) int32 {
	if len(e.moves) > 0 {
		if e.par {
			var tmp [16]V
			t := tmp[:0]
			for _, m := range e.moves {
				t = append(t, fr.g(m.src))
			}
			for i, m := range e.moves {
				fr.regs[m.dst] = t[i]
			}
		} else {
			for _, m := range e.moves {
				fr.regs[m.dst] = fr.g(m.src)
			}
		}
	}
	return e.pc
}

func (w *W) nilDeref() { w.throw("invalid memory address or nil pointer dereference") }

func (w *W) ptr(v V) *V {
	switch p := v.r.(type) {
	case *V:
		return p
	case nil:
		w.nilDeref()
	case *SymPtr:
		return p.at(w.concretize(p.idx))
	}
	panic(unsupported(fmt.Sprintf("pointer to native object %T", v.r)))
}

// SymPtr is &base[idx] with a symbolic, in-range idx (only loaded from).
type SymPtr struct {
	base *V
	n    int
	idx  *Term
	t    *RType
	path []int32 // field path below the element
}

func (p *SymPtr) at(i int) *V {
	q := elemAt(p.base, i)
	for _, f := range p.path {
		q = &q.r.(*Agg).f[f]
	}
	return q
}

func (p *SymPtr) field(i int32) *SymPtr {
	return &SymPtr{p.base, p.n, p.idx, p.t.fields[i].t, append(append([]int32(nil), p.path...), i)}
}

// selectable reports whether values of t can be merged field by field.
func selectable(t *RType) bool {
	if t.numeric {
		return true
	}
	if t.kind == reflect.Struct && len(t.fields) <= 8 {
		for _, f := range t.fields {
			if !selectable(f.t) {
				return false
			}
		}
		return true
	}
	return false
}

// symStore writes v at a symbolic index: every slot becomes an ite.
func (w *W) symStore(p *SymPtr, v V) {
	if !p.t.numeric || p.n > 256 {
		w.store(p.at(w.concretize(p.idx)), v)
		return
	}
	T := w.terms
	tv := w.tm(v, p.t.w)
	for i := 0; i < p.n; i++ {
		if uint64(i) < p.idx.lo || uint64(i) > p.idx.hi {
			continue
		}
		q := p.at(i)
		w.store(q, w.termV(T.Ite(T.Eq(p.idx, T.Const(uint64(i), p.idx.w)), tv, w.tm(*q, p.t.w)), p.t))
	}
}

func (w *W) run(fr *Frame, pc int32) V {
	code := fr.fn.code
	regs := fr.regs
	fnp := fr.fn
	for {
		in := &code[pc]
		pc++
		w.steps++
		switch in.op {
		case iNop:
		case iAlloc:
			p := new(V)
			if in.t.isAgg() {
				*p = zeroV(in.t)
			} else {
				*p = zeroV(in.t)
			}
			if w.race != nil {
				w.raceNew(p)
			}
			regs[in.dst] = V{r: p}
		case iAdd, iSub, iMul, iQuo, iRem, iAnd, iOr, iXor, iAndNot, iShl, iShr, iEql, iNeq, iLss, iLeq, iGtr, iGeq:
			a, b := fr.g(in.a), fr.g(in.b)
			if a.r == nil && b.r == nil {
				regs[in.dst] = V{n: w.intBin(in, a.n, b.n)}
			} else {
				regs[in.dst] = w.symBin(in, a, b)
			}
		case iBinGen:
			regs[in.dst] = w.binGen(in.x.(token.Token), in.t, fr.g(in.a), fr.g(in.b))
		case iEqGen:
			regs[in.dst] = w.eqV(in.t, fr.g(in.a), fr.g(in.b))
		case iNeqGen:
			regs[in.dst] = w.notV(w.eqV(in.t, fr.g(in.a), fr.g(in.b)))
		case iNot:
			regs[in.dst] = w.notV(fr.g(in.a))
		case iNeg:
			a := fr.g(in.a)
			if t, ok := a.r.(*Term); ok {
				regs[in.dst] = w.termV(w.terms.Neg(t), in.t)
			} else {
				regs[in.dst] = V{n: normK(-a.n, in.w, in.sg)}
			}
		case iInv:
			a := fr.g(in.a)
			if t, ok := a.r.(*Term); ok {
				regs[in.dst] = w.termV(w.terms.Not(t), in.t)
			} else {
				regs[in.dst] = V{n: normK(^a.n, in.w, in.sg)}
			}
		case iUnGen:
			a := fr.g(in.a)
			switch in.t.kind {
			case reflect.Float32, reflect.Float64:
				regs[in.dst] = fV(-toF(a))
			default:
				regs[in.dst] = V{r: -a.r.(complex128)}
			}
		case iLoad:
			a := fr.g(in.a)
			switch p := a.r.(type) {
			case *V:
				if w.race != nil {
					w.raceCell(p, false)
				}
				if _, ok := p.r.(*Agg); ok {
					regs[in.dst] = copyV(*p)
				} else {
					regs[in.dst] = *p
				}
			case nil:
				w.nilDeref()
			case *SymPtr:
				regs[in.dst] = w.symLoad(p)
			default:
				panic(unsupported(fmt.Sprintf("load through %T in %s", a.r, fnp.name)))
			}
		case iMove:
			regs[in.dst] = fr.g(in.a)
		case iConvInt:
			a := fr.g(in.a)
			if t, ok := a.r.(*Term); ok {
				regs[in.dst] = w.convTerm(t, in.t, in.t2)
			} else {
				regs[in.dst] = V{n: normK(a.n, in.w, in.sg)}
			}
		case iConvert:
			regs[in.dst] = w.convert(in.t, in.t2, fr.g(in.a))
		case iMakeIface:
			regs[in.dst] = V{r: &Iface{t: in.t, v: fr.g(in.a)}}
		case iMakeClosure:
			cs := in.x.(*closureSpec)
			fv := make([]V, len(cs.free))
			for i, o := range cs.free {
				fv[i] = fr.g(o)
			}
			regs[in.dst] = V{r: &Closure{cs.fn, fv}}
		case iMakeMap:
			m := newMap(in.t)
			if w.race != nil && w.race.phase == 1 {
				w.race.fresh[m] = true
			}
			regs[in.dst] = V{r: m}
		case iMakeChan:
			regs[in.dst] = V{r: &Chan{cap: w.concInt(fr.g(in.a))}}
		case iMakeSlice:
			s := w.makeSlice(in.t, fr.g(in.a), fr.g(in.b))
			if w.race != nil {
				w.raceNewN(s.r.(*V), scap(s))
			}
			regs[in.dst] = s
		case iSlice:
			regs[in.dst] = w.slice(in, fr.g(in.a), fr.g(in.b), fr.g(in.c), fr.g(in.d))
		case iSliceToArrPtr:
			a := fr.g(in.a)
			n := in.t.elem.length
			if slen(a) < n {
				w.throw(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", slen(a), n))
			}
			if a.r == nil {
				regs[in.dst] = V{}
				break
			}
			p := new(V)
			p.r = &Agg{unsafe.Slice(a.r.(*V), n)} // the same memory
			regs[in.dst] = V{r: p}
		case iFieldAddr:
			a := fr.g(in.a)
			switch p := a.r.(type) {
			case *V:
				ag, ok := p.r.(*Agg)
				if !ok {
					panic(unsupported(fmt.Sprintf("field address of %T in %s", p.r, fnp.name)))
				}
				regs[in.dst] = V{r: &ag.f[in.b]}
			case *SymPtr:
				regs[in.dst] = V{r: p.field(in.b)}
			case nil:
				w.nilDeref()
			default:
				ag, ok := w.ptr(a).r.(*Agg)
				if !ok {
					panic(unsupported("field address"))
				}
				regs[in.dst] = V{r: &ag.f[in.b]}
			}
		case iField:
			regs[in.dst] = fr.g(in.a).r.(*Agg).f[in.b]
		case iIndexAddr:
			regs[in.dst] = w.indexAddr(in, fr.g(in.a), fr.g(in.b))
		case iIndex:
			regs[in.dst] = w.index(in, fr.g(in.a), fr.g(in.b))
		case iLookup:
			regs[in.dst] = w.lookup(in, fr.g(in.a), fr.g(in.b))
		case iRange:
			a := fr.g(in.a)
			it := &iterV{}
			if in.t.kind == reflect.Map {
				if a.r != nil {
					it.m = a.r.(*MapV)
					if w.race != nil {
						w.raceAcc(it.m, false)
					}
					w.permute(fr.fn, it)
				}
				it.isMap = true
				it.t = in.t
			} else {
				it.s = a
			}
			regs[in.dst] = V{r: it}
		case iNext:
			regs[in.dst] = w.next(fr.g(in.a).r.(*iterV))
		case iTypeAssert:
			regs[in.dst] = w.typeAssert(in.t, fr.g(in.a), in.flag)
		case iExtract:
			regs[in.dst] = fr.g(in.a).r.(*Agg).f[in.b]
		case iStore:
			a := fr.g(in.a)
			v := fr.g(in.b)
			p, ok := a.r.(*V)
			if !ok {
				if sp, ok := a.r.(*SymPtr); ok {
					w.symStore(sp, v)
					continue
				}
				p = w.ptr(a)
			}
			if _, ok := v.r.(*Agg); ok {
				w.store(p, v)
			} else {
				if w.race != nil {
					w.raceCell(p, true)
				}
				if w.undoOn {
					w.undo = append(w.undo, undoRec{p: p, old: *p})
				}
				*p = v
			}
		case iMapUpdate:
			m := fr.g(in.a)
			if m.r == nil {
				panic(&goPanic{v: w.runtimeError("assignment to entry in nil map"), where: w.where()})
			}
			w.mapSet(m.r.(*MapV), fr.g(in.b), fr.g(in.c))
		case iCall:
			cs := in.x.(*CallSpec)
			if w.steps > w.maxSteps {
				panic(pathEnd{kind: endBudget, msg: "step budget exhausted in " + fnp.name + ": " + w.where()})
			}
			var buf [8]V
			args := buf[:0]
			for _, o := range cs.args {
				args = append(args, fr.g(o))
			}
			r := w.call(cs.fn, args, nil)
			if in.dst >= 0 {
				regs[in.dst] = r
			}
		case iCallIface:
			cs := in.x.(*CallSpec)
			fn, recv := w.ifaceMethod(fr.g(cs.val), cs)
			var buf [8]V
			args := append(buf[:0], recv)
			for _, o := range cs.args {
				args = append(args, fr.g(o))
			}
			r := w.call(fn, args, nil)
			if in.dst >= 0 {
				regs[in.dst] = r
			}
		case iCallDyn:
			cs := in.x.(*CallSpec)
			var buf [8]V
			args := buf[:0]
			for _, o := range cs.args {
				args = append(args, fr.g(o))
			}
			r := w.callV(fr.g(cs.val), args)
			if in.dst >= 0 {
				regs[in.dst] = r
			}
		case iBuiltin:
			cs := in.x.(*CallSpec)
			var buf [8]V
			args := buf[:0]
			for _, o := range cs.args {
				args = append(args, fr.g(o))
			}
			r := w.builtin(fr, cs, args)
			if in.dst >= 0 {
				regs[in.dst] = r
			}
		case iDefer:
			cs := in.x.(*CallSpec)
			d := deferred{op: opcode(in.a), cs: cs}
			for _, o := range cs.args {
				d.args = append(d.args, fr.g(o))
			}
			if d.op == iCallDyn || d.op == iCallIface {
				d.recv = fr.g(cs.val)
			}
			fr.defers = append(fr.defers, d)
		case iRunDefers:
			w.runDefers(fr)
			if fr.panicking != nil {
				p := fr.panicking
				fr.panicking = nil
				panic(p)
			}
		case iGo:
			// one schedule: a goroutine runs to its end where it is started
			// (unsupported if it has to wait for another)
			cs := in.x.(*CallSpec)
			d := deferred{op: opcode(in.a), cs: cs}
			for _, o := range cs.args {
				d.args = append(d.args, fr.g(o))
			}
			if d.op == iCallDyn || d.op == iCallIface {
				d.recv = fr.g(cs.val)
			}
			w.goRuns++
			sp := w.sp
			w.doDeferred(fr, d)
			w.fr, w.sp = fr, sp
			w.goRuns--
		case iSend:
			ch, ok := fr.g(in.a).r.(*Chan)
			if !ok || len(ch.buf) >= ch.cap && w.goRuns == 0 {
				panic(unsupported("blocking send"))
			}
			if ch.closed {
				w.throw("send on closed channel")
			}
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], copyV(fr.g(in.b)))
			w.logUndo(func() { ch.buf = ch.buf[:len(ch.buf)-1] })
		case iRecv:
			ch, ok := fr.g(in.a).r.(*Chan)
			if !ok || len(ch.buf) == 0 && !ch.closed {
				panic(unsupported("blocking receive"))
			}
			v, got := zeroV(in.t.elem), uint64(0)
			if len(ch.buf) > 0 {
				old := ch.buf
				v, got = ch.buf[0], 1
				ch.buf = append([]V(nil), ch.buf[1:]...)
				w.logUndo(func() { ch.buf = old })
			}
			if in.flag {
				v = V{r: &Agg{[]V{v, {n: got}}}}
			}
			regs[in.dst] = v
		case iSelect:
			panic(unsupported("select"))
		case iPanic:
			v := fr.g(in.a)
			if v.r == nil {
				v = w.runtimeError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(&goPanic{v: v, where: w.where()})
		case iJump:
			pc = w.takeEdge(fr, in.x.(*Edge))
			if w.steps > w.maxSteps {
				panic(pathEnd{kind: endBudget, msg: "step budget exhausted in " + fnp.name + ": " + w.where()})
			}
		case iIf:
			c := fr.g(in.a)
			es := in.x.(*[2]*Edge)
			if c.r == nil {
				if c.n != 0 {
					pc = w.takeEdge(fr, es[0])
				} else {
					pc = w.takeEdge(fr, es[1])
				}
			} else {
				pc = w.symIf(fr, c.r.(*Term), es)
			}
			if w.steps > w.maxSteps {
				panic(pathEnd{kind: endBudget, msg: "step budget exhausted in " + fnp.name + ": " + w.where()})
			}
		case iReturn:
			rs := in.x.([]int32)
			switch len(rs) {
			case 0:
				return V{}
			case 1:
				return fr.g(rs[0])
			}
			f := make([]V, len(rs))
			for i, o := range rs {
				f[i] = fr.g(o)
			}
			return V{r: &Agg{f}}
		default:
			panic(engineErr(fmt.Sprintf("opcode %d", in.op)))
		}
	}
}

func (w *W) intBin(in *Instr, a, b uint64) uint64 {
	switch in.op {
	case iAdd:
		return normK(a+b, in.w, in.sg)
	case iSub:
		return normK(a-b, in.w, in.sg)
	case iMul:
		return normK(a*b, in.w, in.sg)
	case iQuo, iRem:
		if b == 0 {
			w.throw("integer divide by zero")
		}
		if in.sg {
			x, y := int64(a), int64(b)
			if y == -1 {
				if in.op == iQuo {
					return normK(uint64(-x), in.w, true)
				}
				return 0
			}
			if in.op == iQuo {
				return normK(uint64(x/y), in.w, true)
			}
			return normK(uint64(x%y), in.w, true)
		}
		if in.op == iQuo {
			return a / b
		}
		return a % b
	case iAnd:
		return a & b
	case iOr:
		return a | b
	case iXor:
		return normK(a^b, in.w, in.sg)
	case iAndNot:
		return a &^ b
	case iShl, iShr:
		if in.t2.signed && int64(b) < 0 {
			w.throw("negative shift amount")
		}
		if in.op == iShl {
			if b >= 64 {
				return 0
			}
			return normK(a<<b, in.w, in.sg)
		}
		if in.sg {
			if b >= 64 {
				b = 63
			}
			return uint64(int64(a) >> b)
		}
		if b >= 64 {
			return 0
		}
		return a >> b
	case iEql:
		return b2u(a == b)
	case iNeq:
		return b2u(a != b)
	}
	if in.sg {
		x, y := int64(a), int64(b)
		switch in.op {
		case iLss:
			return b2u(x < y)
		case iLeq:
			return b2u(x <= y)
		case iGtr:
			return b2u(x > y)
		case iGeq:
			return b2u(x >= y)
		}
	}
	switch in.op {
	case iLss:
		return b2u(a < b)
	case iLeq:
		return b2u(a <= b)
	case iGtr:
		return b2u(a > b)
	case iGeq:
		return b2u(a >= b)
	}
	panic("intBin")
}

func (w *W) symBin(in *Instr, av, bv V) V {
	T := w.terms
	a := w.tm(av, in.w)
	if in.op == iShl || in.op == iShr {
		sw := in.t2.w
		b := w.tm(bv, sw)
		if in.t2.signed {
			neg := T.Slt(b, T.Const(0, sw))
			if w.truth(w.boolT(neg)) {
				w.throw("negative shift amount")
			}
		}
		if sw < in.w {
			b = T.Zext(b, in.w)
		} else if sw > in.w {
			b = T.Ite(T.Ult(b, T.Const(uint64(in.w), sw)), T.Trunc(b, in.w), T.Const(uint64(in.w), in.w))
		}
		switch {
		case in.op == iShl:
			return w.termV(T.Bin(OShl, a, b), in.t)
		case in.sg:
			return w.termV(T.Bin(OAshr, a, b), in.t)
		}
		return w.termV(T.Bin(OLshr, a, b), in.t)
	}
	b := w.tm(bv, in.w)
	switch in.op {
	case iAdd:
		return w.termV(T.Bin(OAdd, a, b), in.t)
	case iSub:
		return w.termV(T.Bin(OSub, a, b), in.t)
	case iMul:
		return w.termV(T.Bin(OMul, a, b), in.t)
	case iQuo, iRem:
		if w.truth(w.boolT(T.Eq(b, T.Const(0, in.w)))) {
			w.throw("integer divide by zero")
		}
		op := OUDiv
		if in.sg {
			op = OSDiv
			if in.op == iRem {
				op = OSRem
			}
		} else if in.op == iRem {
			op = OURem
		}
		return w.termV(T.Bin(op, a, b), in.t)
	case iAnd:
		if in.w == 0 {
			return w.boolT(T.And(a, b))
		}
		return w.termV(T.Bin(OAnd, a, b), in.t)
	case iOr:
		if in.w == 0 {
			return w.boolT(T.Or(a, b))
		}
		return w.termV(T.Bin(OOr, a, b), in.t)
	case iXor:
		return w.termV(T.Bin(OXor, a, b), in.t)
	case iAndNot:
		return w.termV(T.Bin(OAnd, a, T.Not(b)), in.t)
	case iEql:
		return w.boolT(T.Eq(a, b))
	case iNeq:
		return w.boolT(T.Not(T.Eq(a, b)))
	}
	lt := T.Ult
	if in.sg {
		lt = T.Slt
	}
	switch in.op {
	case iLss:
		return w.boolT(lt(a, b))
	case iLeq:
		return w.boolT(T.Not(lt(b, a)))
	case iGtr:
		return w.boolT(lt(b, a))
	case iGeq:
		return w.boolT(T.Not(lt(a, b)))
	}
	panic("symBin")
}

func toF(v V) float64 { return math.Float64frombits(v.n) }
func fV(f float64) V  { return V{n: math.Float64bits(f)} }

func (w *W) binGen(op token.Token, t *RType, a, b V) V {
	switch t.kind {
	case reflect.String:
		switch op {
		case token.ADD:
			return concat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.notV(w.strLess(b, a))
		case token.GEQ:
			return w.notV(w.strLess(a, b))
		}
	case reflect.Float32, reflect.Float64:
		x, y := toF(a), toF(b)
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		case token.GEQ:
			return boolV(x >= y)
		}
		if t.kind == reflect.Float32 {
			r = float64(float32(r))
		}
		return fV(r)
	case reflect.Complex128, reflect.Complex64:
		x, y := a.r.(complex128), b.r.(complex128)
		switch op {
		case token.ADD:
			return V{r: x + y}
		case token.SUB:
			return V{r: x - y}
		case token.MUL:
			return V{r: x * y}
		case token.QUO:
			return V{r: x / y}
		}
	}
	panic(unsupported("binop " + op.String() + " on " + t.String()))
}

func (w *W) convTerm(t *Term, from, to *RType) V {
	T := w.terms
	switch {
	case to.w == from.w:
	case to.w < from.w:
		t = T.Trunc(t, to.w)
	case from.signed:
		t = T.Sext(t, to.w)
	default:
		t = T.Zext(t, to.w)
	}
	return w.termV(t, to)
}

func (w *W) convert(from, to *RType, v V) V {
	isF := func(t *RType) bool { return t.kind == reflect.Float32 || t.kind == reflect.Float64 }
	switch {
	case isF(from) && isF(to):
		if to.kind == reflect.Float32 {
			return fV(float64(float32(toF(v))))
		}
		return v
	case from.numeric && isF(to):
		if v.r != nil {
			c := w.concretize(v.r.(*Term))
			v = V{n: normK(uint64(c), from.w, from.signed)}
		}
		var f float64
		if from.signed {
			f = float64(int64(v.n))
		} else {
			f = float64(v.n)
		}
		if to.kind == reflect.Float32 {
			f = float64(float32(f))
		}
		return fV(f)
	case isF(from) && to.numeric:
		f := toF(v)
		if to.signed {
			return V{n: normK(uint64(int64(f)), to.w, true)}
		}
		return V{n: normK(uint64(f), to.w, false)}
	case to.kind == reflect.String:
		switch from.kind {
		case reflect.String:
			return v
		case reflect.Slice:
			if from.elem.w == 8 {
				el := sliceElems(v)
				return bytesToStr(el)
			}
			// []rune
			var out []SB
			for _, r := range sliceElems(v) {
				out = append(out, strBytes(w.runeToStr(r, from.elem))...)
			}
			return normStr(out)
		default:
			return w.runeToStr(v, from)
		}
	case to.kind == reflect.Slice && from.kind == reflect.String:
		if to.elem.w == 8 {
			bs := strBytes(v)
			el := make([]V, len(bs))
			for i, b := range bs {
				if b.t != nil {
					el[i] = V{r: b.t}
				} else {
					el[i] = V{n: uint64(b.c)}
				}
			}
			return mkSlice(el)
		}
		var el []V
		for i := 0; i < strLen(v); {
			r, n := w.decodeRune(v, i)
			el = append(el, r)
			i += n
		}
		return mkSlice(el)
	case to.kind == reflect.UnsafePointer || from.kind == reflect.UnsafePointer:
		if from.numeric || to.numeric {
			if to.numeric {
				if p, ok := v.r.(*V); ok {
					return V{n: uint64(uintptr(unsafe.Pointer(p)))}
				}
				if v.r == nil {
					return V{}
				}
			}
			panic(unsupported("unsafe.Pointer <-> uintptr"))
		}
		if to.kind == reflect.Pointer && to.elem.kind == reflect.String {
			if p, ok := v.r.(*V); ok {
				if _, isSlice := p.r.(*V); isSlice { // a slice of bytes read as a string
					return V{r: &V{r: bytesToStr(sliceElems(*p)).r}}
				}
			}
		}
		return v
	case from.kind == to.kind:
		if from.kind == reflect.Complex128 || from.kind == reflect.Complex64 {
			if to.kind == reflect.Complex64 {
				return V{r: complex128(complex64(v.r.(complex128)))}
			}
			return v
		}
		return v
	case from.kind == reflect.Slice && to.kind == reflect.Array:
		if slen(v) < to.length {
			w.throw(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", slen(v), to.length))
		}
		f := make([]V, to.length)
		for i := range f {
			f[i] = copyV(*elemAt(v.r.(*V), i))
		}
		return V{r: &Agg{f}}
	}
	if (from.kind == reflect.Complex64 || from.kind == reflect.Complex128) && (to.kind == reflect.Complex64 || to.kind == reflect.Complex128) {
		if to.kind == reflect.Complex64 {
			return V{r: complex128(complex64(v.r.(complex128)))}
		}
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func bytesToStr(el []V) V {
	if len(el) == 0 {
		return V{}
	}
	sym := false
	for i := range el {
		if el[i].r != nil {
			sym = true
			break
		}
	}
	if !sym {
		bs := make([]byte, len(el))
		for i := range el {
			bs[i] = byte(el[i].n)
		}
		return V{r: unsafe.String(&bs[0], len(bs))}
	}
	out := make([]SB, len(el))
	for i := range el {
		if t, ok := el[i].r.(*Term); ok {
			out[i].t = t
		} else {
			out[i].c = byte(el[i].n)
		}
	}
	return V{r: &SStr{out}}
}

func (w *W) runeToStr(v V, t *RType) V {
	if v.r == nil {
		n := int64(v.n)
		if !t.signed && v.n > 0x10ffff || n < 0 || n > 0x10ffff {
			n = utf8.RuneError
		}
		return sStr(string(rune(n)))
	}
	T := w.terms
	x := v.r.(*Term)
	if x.w < 32 {
		if t.signed {
			x = T.Sext(x, 32)
		} else {
			x = T.Zext(x, 32)
		}
	} else if x.w > 32 {
		big := T.Not(T.Ult(x, T.Const(0x110000, x.w)))
		x = T.Ite(big, T.Const(0xfffd, 32), T.Trunc(x, 32))
	}
	fn := w.stdFn("unicode/utf8", "AppendRune")
	r := w.call(fn, []V{{}, {r: x}}, nil)
	return bytesToStr(sliceElems(r))
}

func (w *W) stdFn(pkg, name string) *Fn {
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	return w.fnOf(p.Func(name))
}

// decodeRune decodes one rune of s at i; the size is made concrete (forking).
func (w *W) decodeRune(s V, i int) (V, int) {
	b := strAt(s, i)
	if b.t == nil && b.c < 0x80 {
		return V{n: uint64(b.c)}, 1
	}
	end := min(strLen(s), i+4)
	sub := substr(s, i, end)
	if c, ok := concStr(sub); ok {
		r, n := utf8.DecodeRuneInString(c)
		return V{n: uint64(int64(r))}, n
	}
	if b.t != nil {
		if w.truth(w.boolT(w.terms.Ult(b.t, w.terms.Const(0x80, 8)))) {
			return V{r: w.terms.Zext(b.t, 32)}, 1
		}
	}
	res := w.call(w.stdFn("unicode/utf8", "DecodeRuneInString"), []V{sub}, nil).r.(*Agg)
	n := w.concInt(res.f[1])
	return res.f[0], n
}

type iterV struct {
	m     *MapV
	isMap bool
	t     *RType
	ents  []int
	order []int
	i     int
	s     V
}

func (w *W) next(it *iterV) V {
	old := it.i
	w.logUndo(func() { it.i = old })
	if it.isMap {
		if it.m != nil {
			for {
				j := it.i
				if it.order != nil {
					if it.i >= len(it.order) {
						break
					}
					j = it.order[it.i]
				} else if it.i >= len(it.m.ents) {
					break
				}
				it.i++
				if j >= len(it.m.ents) {
					continue
				}
				e := &it.m.ents[j]
				if e.del {
					continue
				}
				return V{r: &Agg{[]V{{n: 1}, e.k, copyV(e.v)}}}
			}
		}
		return V{r: &Agg{[]V{{}, zeroV(it.t.key), zeroV(it.t.elem)}}}
	}
	if it.i >= strLen(it.s) {
		return V{r: &Agg{[]V{{}, {}, {}}}}
	}
	r, n := w.decodeRune(it.s, it.i)
	i := it.i
	it.i += n
	return V{r: &Agg{[]V{{n: 1}, {n: uint64(i)}, r}}}
}

// own reports whether the function is one of the module (or of package maps, on
// behalf of it), where the order of a map must not matter.
func (fn *Fn) own() bool {
	if fn.ssa == nil {
		return false
	}
	f := fn.ssa
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == "maps" || strings.HasPrefix(p, "github.com/Tom5521/")
}

// permute chooses a nondeterministic iteration order for maps: the order of
// insertion or the reverse.
func (w *W) permute(fn *Fn, it *iterV) {
	if !w.permMaps || it.m.live < 2 || !w.undoOn || !fn.own() {
		return
	}
	if w.mg != nil {
		return
	}
	c := w.freshVar("maporder", 0)
	if w.truth(V{r: c}) {
		for i := len(it.m.ents) - 1; i >= 0; i-- {
			it.order = append(it.order, i)
		}
	}
}

func (w *W) typeAssert(t *RType, v V, commaOk bool) V {
	i, _ := v.r.(*Iface)
	ok := false
	var res V
	if t.kind == reflect.Interface {
		if i != nil && w.implements(i.t, t) {
			ok = true
			res = v
		}
	} else if i != nil && i.t == t {
		ok = true
		res = i.v
	}
	if commaOk {
		if !ok {
			res = zeroV(t)
		}
		return V{r: &Agg{[]V{res, boolV(ok)}}}
	}
	if !ok {
		dyn := "nil"
		if i != nil {
			dyn = i.t.String()
		}
		w.throw("interface conversion: interface is " + dyn + ", not " + t.String())
	}
	return res
}

func (w *W) implements(t, it *RType) bool {
	if t.ifaceOK == nil {
		t.ifaceOK = map[*RType]int8{}
	}
	switch t.ifaceOK[it] {
	case 1:
		return true
	case 2:
		return false
	}
	ok := types.Implements(t.t, it.u.(*types.Interface))
	if ok {
		t.ifaceOK[it] = 1
	} else {
		t.ifaceOK[it] = 2
	}
	return ok
}

// truth forces a boolean value to a concrete one, forking if necessary.
func (w *W) truth(v V) bool {
	if t, ok := v.r.(*Term); ok {
		return w.branch(t)
	}
	return v.n != 0
}

func (w *W) concInt(v V) int {
	if t, ok := v.r.(*Term); ok {
		x := w.concretize(t)
		return int(sext64(uint64(x), t.w))
	}
	return int(v.n)
}

// hugeAlloc is how many elements a slice may have, which the parameter "mega" sets.
func (w *W) hugeAlloc() int {
	if m := w.x.params["mega"]; m > 0 {
		return m << 20
	}
	return 1 << 20
}

func (w *W) makeSlice(t *RType, lv, cv V) V {
	if lt, ok := lv.r.(*Term); ok {
		same := cv.r == lv.r
		T := w.terms
		zero := T.Const(0, lt.w)
		if w.truth(w.boolT(T.Slt(lt, zero))) {
			w.throw("makeslice: len out of range")
		}
		if w.truth(w.boolT(T.Slt(T.Const(uint64(w.hugeAlloc()), lt.w), lt))) {
			w.bigAlloc(fmt.Sprintf("make(%s, n) with unbounded n in %s", t, w.where()))
		}
		lv = V{n: uint64(w.concInt(lv))}
		if same {
			cv = lv
		}
	}
	if cv.r != nil {
		cv = V{n: uint64(w.concInt(cv))}
	}
	l, c := int64(lv.n), int64(cv.n)
	if l < 0 || l > 1<<40 {
		w.throw("makeslice: len out of range")
	}
	if c < l || c > 1<<40 {
		w.throw("makeslice: cap out of range")
	}
	if c > int64(w.hugeAlloc()) {
		w.bigAlloc(fmt.Sprintf("make(%s, %d) in %s", t, c, w.where()))
	}
	if c == 0 {
		return V{r: emptyBase}
	}
	el := make([]V, c)
	if t.elem.isAgg() {
		for i := range el {
			el[i] = zeroV(t.elem)
		}
	} else if z := zeroV(t.elem); z.r != nil {
		for i := range el {
			el[i] = z
		}
	}
	return V{r: &el[0], n: packLC(int(l), int(c))}
}

func (w *W) bigAlloc(msg string) {
	panic(pathEnd{kind: endAlloc, msg: msg})
}

func isNone(v V) bool { _, ok := v.r.(noSlice); return ok }

func (w *W) slice(in *Instr, x, lo, hi, mx V) V {
	var length, capac int
	var base *V
	str := false
	switch in.t.kind {
	case reflect.String:
		str = true
		length = strLen(x)
		capac = length
	case reflect.Slice:
		length, capac = slen(x), scap(x)
		if x.r != nil {
			base = x.r.(*V)
		}
	case reflect.Pointer:
		p := w.ptr(x)
		ag := p.r.(*Agg)
		length, capac = len(ag.f), len(ag.f)
		if capac > 0 {
			base = &ag.f[0]
		} else {
			base = emptyBase
		}
	default:
		panic(unsupported("slice of " + in.t.String()))
	}
	get := func(v V, def, limit int) int {
		if isNone(v) {
			return def
		}
		if t, ok := v.r.(*Term); ok {
			T := w.terms
			if !w.truth(w.boolT(T.Not(T.Ult(T.Const(uint64(limit), t.w), t)))) {
				w.throw(fmt.Sprintf("slice bounds out of range [symbolic] with limit %d", limit))
			}
			return w.concInt(v)
		}
		return int(v.n)
	}
	m := get(mx, capac, capac)
	if m < 0 || m > capac {
		w.throw(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, capac))
	}
	def := length
	lim := m
	if str {
		lim = length
	}
	h := get(hi, def, lim)
	if h < 0 || h > lim {
		w.throw(fmt.Sprintf("slice bounds out of range [:%d] with limit %d", h, lim))
	}
	l := get(lo, 0, h)
	if l < 0 || l > h {
		w.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if str {
		return substr(x, l, h)
	}
	if base == nil {
		return V{}
	}
	if m-l == 0 {
		return V{r: emptyBase}
	}
	return V{r: elemAt(base, l), n: packLC(h-l, m-l)}
}

func (w *W) idx(in *Instr, iv V, n int) (int, *Term) {
	if t, ok := iv.r.(*Term); ok {
		T := w.terms
		var ok2 *Term
		if in.sg {
			t = T.Sext(t, 64)
		} else {
			t = T.Zext(t, 64)
		}
		ok2 = T.Ult(t, T.Const(uint64(n), 64))
		if !w.truth(w.boolT(ok2)) {
			w.throw(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		return 0, t
	}
	i := int64(iv.n)
	if i < 0 || i >= int64(n) {
		w.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i), nil
}

func (w *W) indexAddr(in *Instr, x, iv V) V {
	var base *V
	var n int
	if in.t.kind == reflect.Pointer {
		p := w.ptr(x)
		ag, ok := p.r.(*Agg)
		if !ok {
			panic(unsupported("index of non-array"))
		}
		n = len(ag.f)
		if n > 0 {
			base = &ag.f[0]
		}
	} else {
		n = slen(x)
		if n > 0 {
			base = x.r.(*V)
		}
	}
	i, t := w.idx(in, iv, n)
	if t != nil {
		if in.flag && n <= 4096 && selectable(in.t2) {
			return V{r: &SymPtr{base, n, t, in.t2, nil}}
		}
		i = w.concretize(t)
	}
	return V{r: elemAt(base, i)}
}

func (w *W) symLoad(p *SymPtr) V {
	return w.selectV(p.t, p.n, p.idx, func(i int) V { return *p.at(i) })
}

// selectV builds an ite tree selecting element idx.
func (w *W) selectV(t *RType, n int, idx *Term, at func(int) V) V {
	T := w.terms
	if !t.numeric {
		f := make([]V, len(t.fields))
		for j := range f {
			f[j] = w.selectV(t.fields[j].t, n, idx, func(i int) V { return at(i).r.(*Agg).f[j] })
		}
		return V{r: &Agg{f}}
	}
	lo, hi := 0, n-1
	if idx.lo > uint64(lo) && idx.lo < uint64(n) {
		lo = int(idx.lo)
	}
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	type runT struct {
		start int
		v     *Term
	}
	var runs []runT
	for i := lo; i <= hi; i++ {
		tv := w.tm(at(i), t.w)
		if len(runs) == 0 || runs[len(runs)-1].v != tv {
			runs = append(runs, runT{i, tv})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return runs[a].v
		}
		mid := (a + b + 1) / 2
		l, r := build(a, mid-1), build(mid, b)
		return T.Ite(T.Ult(idx, T.Const(uint64(runs[mid].start), 64)), l, r)
	}
	return w.termV(build(0, len(runs)-1), t)
}

func sbV(b SB) V {
	if b.t != nil {
		return V{r: b.t}
	}
	return V{n: uint64(b.c)}
}

func (w *W) index(in *Instr, x, iv V) V {
	if in.t.kind == reflect.String {
		n := strLen(x)
		i, t := w.idx(in, iv, n)
		if t != nil {
			return w.selectV(in.t2, n, t, func(i int) V { return sbV(strAt(x, i)) })
		}
		return sbV(strAt(x, i))
	}
	ag := x.r.(*Agg)
	i, t := w.idx(in, iv, len(ag.f))
	if t != nil {
		if in.t2.numeric {
			return w.selectV(in.t2, len(ag.f), t, func(i int) V { return ag.f[i] })
		}
		i = w.concretize(t)
	}
	return ag.f[i]
}

func (w *W) lookup(in *Instr, m, k V) V {
	if in.t.kind == reflect.String {
		n := strLen(m)
		i, t := w.idx(in, k, n)
		if t != nil {
			return w.selectV(w.byteT, n, t, func(i int) V { return sbV(strAt(m, i)) })
		}
		return sbV(strAt(m, i))
	}
	var v V
	ok := false
	if m.r != nil {
		mv := m.r.(*MapV)
		if w.race != nil {
			w.raceAcc(mv, false)
		}
		if i := w.mapFind(mv, k); i >= 0 {
			v = copyV(mv.ents[i].v)
			ok = true
		}
	}
	if !ok {
		v = zeroV(in.t.elem)
	}
	if in.flag {
		return V{r: &Agg{[]V{v, boolV(ok)}}}
	}
	return v
}

func (w *W) growSlice(s V, need int) V {
	l, c := slen(s), scap(s)
	nc := c * 2
	if c > 256 {
		nc = c + c/4 + 192
	}
	if nc < need {
		nc = need
	}
	if nc < 4 && need > 1 {
		nc = 4
	}
	if nc > w.hugeAlloc() {
		w.bigAlloc("append growth")
	}
	el := make([]V, nc)
	if l > 0 {
		copy(el, unsafe.Slice(s.r.(*V), l)) // aggregates move to the new array
		for i := 0; i < l; i++ {
			if _, ok := el[i].r.(*Agg); ok {
				el[i] = copyV(el[i])
			}
		}
	}
	return V{r: &el[0], n: packLC(l, nc)}
}

func (w *W) appendElems(s V, add []V, et *RType) V {
	if len(add) == 0 {
		return s
	}
	l := slen(s)
	if l+len(add) > scap(s) {
		add2 := add
		s = w.growSlice(s, l+len(add))
		base := s.r.(*V)
		for i, v := range add2 {
			*elemAt(base, l+i) = copyV(v)
		}
		if w.race != nil {
			defer func() { w.raceNewN(base, scap(s)) }()
		}
		if et != nil && et.isAgg() {
			for i := l + len(add); i < scap(s); i++ {
				*elemAt(base, i) = zeroV(et)
			}
		} else if et != nil {
			if z := zeroV(et); z.r != nil {
				for i := l + len(add); i < scap(s); i++ {
					*elemAt(base, i) = z
				}
			}
		}
		return V{r: base, n: packLC(l+len(add), scap(s))}
	}
	base := s.r.(*V)
	if len(add) > 1 { // source may alias destination
		add = append([]V(nil), add...)
		for i := range add {
			add[i] = copyV(add[i])
		}
	}
	for i, v := range add {
		w.store(elemAt(base, l+i), v)
	}
	return V{r: base, n: packLC(l+len(add), scap(s))}
}

func (w *W) builtin(fr *Frame, cs *CallSpec, args []V) V {
	switch cs.name {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if cs.argT[1].kind == reflect.String {
			bs := strBytes(args[1])
			el := make([]V, len(bs))
			for i := range bs {
				el[i] = sbV(bs[i])
			}
			return w.appendElems(args[0], el, cs.argT[0].elem)
		}
		if args[0].r == nil && args[1].r == nil {
			return V{}
		}
		if w.race != nil {
			w.raceSlice(args[0])
			w.raceSlice(args[1])
		}
		return w.appendElems(args[0], sliceElems(args[1]), cs.argT[0].elem)
	case "copy":
		var src []V
		if cs.argT[1].kind == reflect.String {
			bs := strBytes(args[1])
			src = make([]V, len(bs))
			for i := range bs {
				src[i] = sbV(bs[i])
			}
		} else {
			src = sliceElems(args[1])
			if w.race != nil {
				w.raceSlice(args[1])
			}
		}
		return V{n: uint64(w.copyElems(args[0], src))}
	case "len":
		switch cs.argT[0].kind {
		case reflect.String:
			return V{n: uint64(strLen(args[0]))}
		case reflect.Slice:
			return V{n: uint64(slen(args[0]))}
		case reflect.Map:
			if args[0].r == nil {
				return V{}
			}
			return V{n: uint64(args[0].r.(*MapV).live)}
		case reflect.Array:
			return V{n: uint64(cs.argT[0].length)}
		case reflect.Pointer:
			return V{n: uint64(cs.argT[0].elem.length)}
		case reflect.Chan:
			return V{n: uint64(len(args[0].r.(*Chan).buf))}
		}
	case "cap":
		switch cs.argT[0].kind {
		case reflect.Slice:
			return V{n: uint64(scap(args[0]))}
		case reflect.Array:
			return V{n: uint64(cs.argT[0].length)}
		case reflect.Pointer:
			return V{n: uint64(cs.argT[0].elem.length)}
		case reflect.Chan:
			return V{n: uint64(args[0].r.(*Chan).cap)}
		}
	case "delete":
		if args[0].r != nil {
			w.mapDelete(args[0].r.(*MapV), args[1])
		}
		return V{}
	case "clear":
		switch cs.argT[0].kind {
		case reflect.Map:
			if args[0].r != nil {
				m := args[0].r.(*MapV)
				old := *m
				*m = MapV{t: m.t, idx: map[string]int{}}
				w.logUndo(func() { *m = old })
			}
		case reflect.Slice:
			for i := 0; i < slen(args[0]); i++ {
				w.store(elemAt(args[0].r.(*V), i), zeroV(cs.argT[0].elem))
			}
		}
		return V{}
	case "panic":
		panic(&goPanic{v: args[0], where: w.where()})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		c := fr.caller
		if c != nil && c.panicking != nil {
			p := c.panicking
			c.panicking = nil
			return p.v
		}
		return V{}
	case "print", "println":
		return V{}
	case "min", "max":
		r := args[0]
		for i, a := range args[1:] {
			var less V
			t := cs.argT[i+1]
			if t.numeric {
				in := &Instr{op: iLss, w: t.w, sg: t.signed, t: t, t2: t}
				if a.r == nil && r.r == nil {
					less = V{n: w.intBin(in, a.n, r.n)}
				} else {
					less = w.symBin(in, a, r)
				}
				if lt, ok := less.r.(*Term); ok {
					x, y := w.tm(a, t.w), w.tm(r, t.w)
					if cs.name == "max" {
						x, y = y, x
					}
					r = w.termV(w.terms.Ite(lt, x, y), t)
					continue
				}
			} else {
				less = w.binGen(token.LSS, t, a, r)
			}
			if w.truth(less) == (cs.name == "min") {
				r = a
			}
		}
		return r
	case "close":
		ch := args[0].r.(*Chan)
		if ch.closed {
			w.throw("close of closed channel")
		}
		ch.closed = true
		w.logUndo(func() { ch.closed = false })
		return V{}
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			w.throw("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return V{}
	case "real":
		return fV(real(args[0].r.(complex128)))
	case "imag":
		return fV(imag(args[0].r.(complex128)))
	case "complex":
		return V{r: complex(toF(args[0]), toF(args[1]))}
	case "Sizeof": // of a type parameter, in comparisons of addresses of elements
		return iV(1)
	case "String": // unsafe.String
		n := w.concInt(args[1])
		if n == 0 {
			return V{}
		}
		return bytesToStr(unsafe.Slice(args[0].r.(*V), n))
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return V{}
		}
		el := make([]V, len(bs))
		for i := range bs {
			el[i] = sbV(bs[i])
		}
		return V{r: &el[0]}
	case "SliceData":
		return V{r: args[0].r}
	case "Slice":
		n := w.concInt(args[1])
		if n == 0 {
			return V{r: args[0].r}
		}
		return V{r: args[0].r, n: packLC(n, n)}
	}
	panic(unsupported("builtin " + cs.name))
}

func (w *W) copyElems(dst V, src []V) int {
	n := min(slen(dst), len(src))
	if n == 0 {
		return 0
	}
	tmp := make([]V, n)
	for i := range tmp {
		tmp[i] = copyV(src[i])
	}
	base := dst.r.(*V)
	for i := range tmp {
		w.store(elemAt(base, i), tmp[i])
	}
	return n
}

var _ = ssa.BuilderMode(0)
