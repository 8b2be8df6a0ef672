package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iAdd
	iSub
	iMul
	iQuo
	iRem
	iAnd
	iOr
	iXor
	iAndNot
	iShl
	iShr
	iEql
	iNeq
	iLss
	iLeq
	iGtr
	iGeq
	iBinGen // generic binop (strings, floats, ...)
	iEqGen
	iNeqGen
	iNot
	iNeg
	iInv
	iLoad
	iRecv
	iUnGen
	iMove
	iConvInt
	iConvert
	iChangeIface
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeChan
	iMakeSlice
	iSlice
	iSliceToArrPtr
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iRange
	iNext
	iTypeAssert
	iExtract
	iStore
	iMapUpdate
	iCall
	iCallIface
	iCallDyn
	iBuiltin
	iDefer
	iRunDefers
	iGo
	iSend
	iSelect
	iPanic
	iJump
	iIf
	iReturn
)

type move struct{ dst, src int32 }

type Edge struct {
	pc    int32
	blk   int32
	moves []move
	par   bool
}

type Instr struct {
	op         opcode
	w          uint8
	sg         bool
	flag       bool
	dst        int32
	a, b, c, d int32
	t, t2      *RType
	x          any
	pos        token.Pos
}

type CallSpec struct {
	fn     *Fn
	val    int32 // dynamic callee / receiver
	args   []int32
	method string // interface method key
	mname  string
	name   string // builtin
	argT   []*RType
	resT   *RType
}

type Fn struct {
	name     string
	ssa      *ssa.Function
	intr     func(w *W, args []V) V
	compiled bool
	nregs    int
	nparams  int
	nfree    int
	code     []Instr
	blockPC  []int32
	consts   []V
	hasDefer bool
	recover  int32 // block index or -1
	resT     *RType
	nres     int
	variadic bool
	merge    bool
	pre      func(w *W, args []V) (V, bool)
	sig      *types.Signature
	calls    int64
	steps    int64
	regT     map[int32]*RType
	blkPure  []int8 // per block: 0 unknown, 1 pure single-pred, -1 no
	forks    int64
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil && o != f {
		return o.RelString(nil)
	}
	return f.RelString(nil)
}

func (w *W) fnOf(f *ssa.Function) *Fn {
	if x, ok := w.fns[f]; ok {
		return x
	}
	key := fnKey(f)
	x := &Fn{name: key, ssa: f, sig: f.Signature, recover: -1}
	x.nparams = len(f.Params)
	x.nfree = len(f.FreeVars)
	if x.nparams == 0 && f.Blocks == nil {
		x.nparams = f.Signature.Params().Len()
		if f.Signature.Recv() != nil {
			x.nparams++
		}
	}
	x.variadic = f.Signature.Variadic()
	x.nres = f.Signature.Results().Len()
	switch x.nres {
	case 0:
	case 1:
		x.resT = w.rt(f.Signature.Results().At(0).Type())
	default:
		x.resT = w.rt(f.Signature.Results())
	}
	if f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil && f.Signature.Recv() == nil {
		x.intr = func(w *W, args []V) V { return V{} } // lazy package initialisation
		w.initBody[f.Pkg] = f
	} else if in, ok := intrinsics[key]; ok {
		x.intr = in
	} else if strings.HasPrefix(key, "(reflect.") || strings.HasPrefix(key, "reflect.") || strings.HasPrefix(key, "(*reflect.") || strings.HasPrefix(key, "internal/reflectlite.") || strings.HasPrefix(key, "(internal/reflectlite.") {
		if !reflectInterp[key] && f.Parent() == nil {
			x.intr = func(w *W, args []V) V { panic(unsupported("reflect: " + key)) }
		}
	}
	if mergeFns[key] {
		x.merge = true
	}
	if pre, ok := preIntr[key]; ok {
		x.pre = pre
	}
	w.fns[f] = x
	return x
}

type compiler struct {
	w     *W
	fn    *Fn
	regs  map[ssa.Value]int32
	cidx  map[any]int32
	fixes []func()
}

func (w *W) compile(fn *Fn) {
	fn.compiled = true
	done := false
	defer func() {
		if !done {
			fn.compiled = false
			fn.code = nil
			fn.consts = nil
			fn.regT = nil
		}
	}()
	f := fn.ssa
	if f.Blocks == nil {
		if f.Pkg != nil {
			f.Pkg.Build()
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if f.Blocks == nil {
		name := fn.name
		fn.intr = func(w *W, args []V) V { panic(unsupported("no body: " + name)) }
		return
	}
	w.touch(fn)
	c := &compiler{w: w, fn: fn, regs: map[ssa.Value]int32{}, cidx: map[any]int32{}}
	n := int32(0)
	for _, p := range f.Params {
		c.regs[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				if _, ok := in.(*ssa.Phi); ok {
					if fn.regT == nil {
						fn.regT = map[int32]*RType{}
					}
					fn.regT[n] = w.rt(v.Type())
				}
				n++
			}
		}
	}
	fn.nregs = int(n)
	fn.blockPC = make([]int32, len(f.Blocks))
	fn.blkPure = make([]int8, len(f.Blocks))
	for _, b := range f.Blocks {
		fn.blockPC[b.Index] = int32(len(fn.code))
		for _, in := range b.Instrs {
			c.instr(b, in)
		}
	}
	for _, fx := range c.fixes {
		fx()
	}
	if f.Recover != nil {
		fn.recover = int32(f.Recover.Index)
	}
	done = true
}

func (c *compiler) konst(key any, v V) int32 {
	if i, ok := c.cidx[key]; ok {
		return i
	}
	i := int32(^len(c.fn.consts))
	c.fn.consts = append(c.fn.consts, v)
	c.cidx[key] = i
	return i
}

func (w *W) constV(x *ssa.Const) V {
	t := w.rt(x.Type())
	if x.Value == nil {
		return zeroV(t)
	}
	switch {
	case t.kind == reflect.Bool:
		return boolV(constant.BoolVal(x.Value))
	case t.numeric:
		v := constant.ToInt(x.Value)
		if t.signed {
			i, _ := constant.Int64Val(v)
			return V{n: normK(uint64(i), t.w, true)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: normK(u, t.w, false)}
	case t.kind == reflect.Float32, t.kind == reflect.Float64:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if t.kind == reflect.Float32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case t.kind == reflect.Complex128, t.kind == reflect.Complex64:
		v := constant.ToComplex(x.Value)
		re, _ := constant.Float64Val(constant.Real(v))
		im, _ := constant.Float64Val(constant.Imag(v))
		return V{r: complex(re, im)}
	case t.kind == reflect.String:
		if x.Value.Kind() == constant.String {
			return sStr(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return sStr(string(rune(i)))
	case t.kind == reflect.UnsafePointer:
		return V{}
	}
	panic(unsupported("const of type " + t.String()))
}

func (c *compiler) op(v ssa.Value) int32 {
	if v == nil {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		i := int32(^len(c.fn.consts))
		c.fn.consts = append(c.fn.consts, c.w.constV(x))
		return i
	case *ssa.Global:
		return c.konst(x, V{r: c.w.global(x)})
	case *ssa.Function:
		return c.konst(x, V{r: c.w.closureOf(x)})
	case *ssa.Builtin:
		return 0
	}
	r, ok := c.regs[v]
	if !ok {
		panic(engineErr(fmt.Sprintf("no register for %s in %s", v, c.fn.name)))
	}
	return r
}

func (w *W) closureOf(f *ssa.Function) *Closure {
	fn := w.fnOf(f)
	if cl, ok := w.closures[fn]; ok {
		return cl
	}
	cl := &Closure{fn: fn}
	w.closures[fn] = cl
	return cl
}

func (c *compiler) emit(in Instr) { c.fn.code = append(c.fn.code, in) }

func (c *compiler) edge(from, to *ssa.BasicBlock) *Edge {
	e := &Edge{blk: int32(to.Index)}
	pi := -1
	// find predecessor slot; duplicates (both If targets equal) have equal phis by construction
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		src := c.op(phi.Edges[pi])
		dst := c.regs[phi]
		if src != dst {
			e.moves = append(e.moves, move{dst, src})
		}
	}
	for i, m := range e.moves {
		for _, m2 := range e.moves[i+1:] {
			if m2.src == m.dst {
				e.par = true
			}
		}
	}
	c.fixes = append(c.fixes, func() { e.pc = c.fn.blockPC[to.Index] })
	return e
}

func methodKey(m *types.Func) string {
	if m.Exported() {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

func (c *compiler) call(b *ssa.BasicBlock, in ssa.Instruction, cc *ssa.CallCommon, dst int32, kind opcode) {
	w := c.w
	cs := &CallSpec{}
	cs.resT = w.rt(cc.Signature().Results())
	if cc.Signature().Results().Len() == 1 {
		cs.resT = w.rt(cc.Signature().Results().At(0).Type())
	}
	op := iCall
	if cc.IsInvoke() {
		op = iCallIface
		cs.val = c.op(cc.Value)
		cs.method = methodKey(cc.Method)
		cs.mname = cc.Method.Name()
	} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
		op = iBuiltin
		cs.name = bi.Name()
	} else if sf := cc.StaticCallee(); sf != nil {
		if _, isMC := cc.Value.(*ssa.MakeClosure); isMC {
			op = iCallDyn
			cs.val = c.op(cc.Value)
		} else {
			cs.fn = w.fnOf(sf)
		}
	} else {
		op = iCallDyn
		cs.val = c.op(cc.Value)
	}
	for _, a := range cc.Args {
		cs.args = append(cs.args, c.op(a))
		cs.argT = append(cs.argT, w.rt(a.Type()))
	}
	switch kind {
	case iDefer, iGo:
		c.emit(Instr{op: kind, a: int32(op), x: cs, pos: in.Pos()})
		if kind == iDefer {
			c.fn.hasDefer = true
		}
		return
	}
	c.emit(Instr{op: op, dst: dst, x: cs, pos: in.Pos()})
}

var binOps = map[token.Token]opcode{
	token.ADD: iAdd, token.SUB: iSub, token.MUL: iMul, token.QUO: iQuo, token.REM: iRem,
	token.AND: iAnd, token.OR: iOr, token.XOR: iXor, token.AND_NOT: iAndNot, token.SHL: iShl, token.SHR: iShr,
	token.EQL: iEql, token.NEQ: iNeq, token.LSS: iLss, token.LEQ: iLeq, token.GTR: iGtr, token.GEQ: iGeq,
}

func (c *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	w := c.w
	dst := int32(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Alloc:
		c.emit(Instr{op: iAlloc, dst: dst, t: w.rt(x.Type().Underlying().(*types.Pointer).Elem()), pos: pos})
	case *ssa.BinOp:
		t := w.rt(x.X.Type())
		if bt, ok := t.u.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			t = w.rt(x.Y.Type())
		}
		op := binOps[x.Op]
		i := Instr{op: op, w: t.w, sg: t.signed, dst: dst, a: c.op(x.X), b: c.op(x.Y), t: t, t2: w.rt(x.Y.Type()), pos: pos}
		if !t.numeric {
			switch x.Op {
			case token.EQL:
				i.op = iEqGen
			case token.NEQ:
				i.op = iNeqGen
			default:
				i.op = iBinGen
				i.x = x.Op
			}
		}
		c.emit(i)
	case *ssa.UnOp:
		t := w.rt(x.X.Type())
		i := Instr{dst: dst, a: c.op(x.X), t: t, w: t.w, sg: t.signed, pos: pos, flag: x.CommaOk}
		switch x.Op {
		case token.MUL:
			i.op = iLoad
			i.t = w.rt(x.Type())
		case token.NOT:
			i.op = iNot
		case token.SUB:
			i.op = iNeg
			if !t.numeric {
				i.op = iUnGen
			}
		case token.XOR:
			i.op = iInv
		case token.ARROW:
			i.op = iRecv
			i.t = t
		default:
			panic(engineErr("unop " + x.Op.String()))
		}
		c.emit(i)
	case *ssa.ChangeType:
		c.emit(Instr{op: iMove, dst: dst, a: c.op(x.X)})
	case *ssa.Convert:
		c.convert(dst, x.X, x.Type(), pos)
	case *ssa.MultiConvert:
		c.convert(dst, x.X, x.Type(), pos)
	case *ssa.ChangeInterface:
		c.emit(Instr{op: iMove, dst: dst, a: c.op(x.X)})
	case *ssa.MakeInterface:
		c.emit(Instr{op: iMakeIface, dst: dst, a: c.op(x.X), t: w.rt(x.X.Type())})
	case *ssa.MakeClosure:
		var fv []int32
		for _, b := range x.Bindings {
			fv = append(fv, c.op(b))
		}
		c.emit(Instr{op: iMakeClosure, dst: dst, x: &closureSpec{w.fnOf(x.Fn.(*ssa.Function)), fv}})
	case *ssa.MakeMap:
		c.emit(Instr{op: iMakeMap, dst: dst, t: w.rt(x.Type())})
	case *ssa.MakeChan:
		c.emit(Instr{op: iMakeChan, dst: dst, a: c.op(x.Size), t: w.rt(x.Type())})
	case *ssa.MakeSlice:
		c.emit(Instr{op: iMakeSlice, dst: dst, a: c.op(x.Len), b: c.op(x.Cap), t: w.rt(x.Type()), pos: pos})
	case *ssa.Slice:
		i := Instr{op: iSlice, dst: dst, a: c.op(x.X), t: w.rt(x.X.Type()), pos: pos}
		none := c.konst("noslice", V{r: noSlice{}})
		i.b, i.c, i.d = none, none, none
		if x.Low != nil {
			i.b = c.op(x.Low)
		}
		if x.High != nil {
			i.c = c.op(x.High)
		}
		if x.Max != nil {
			i.d = c.op(x.Max)
		}
		c.emit(i)
	case *ssa.SliceToArrayPointer:
		c.emit(Instr{op: iSliceToArrPtr, dst: dst, a: c.op(x.X), t: w.rt(x.Type()), pos: pos})
	case *ssa.FieldAddr:
		c.emit(Instr{op: iFieldAddr, dst: dst, a: c.op(x.X), b: int32(x.Field), pos: pos})
	case *ssa.Field:
		c.emit(Instr{op: iField, dst: dst, a: c.op(x.X), b: int32(x.Field)})
	case *ssa.IndexAddr:
		onlyLoads := onlyDeref(x, true)
		it := w.rt(x.Index.Type())
		c.emit(Instr{op: iIndexAddr, dst: dst, a: c.op(x.X), b: c.op(x.Index), t: w.rt(x.X.Type()), t2: w.rt(x.Type().Underlying().(*types.Pointer).Elem()), w: it.w, sg: it.signed, flag: onlyLoads, pos: pos})
	case *ssa.Index:
		it := w.rt(x.Index.Type())
		c.emit(Instr{op: iIndex, dst: dst, a: c.op(x.X), b: c.op(x.Index), t: w.rt(x.X.Type()), t2: w.rt(x.Type()), w: it.w, sg: it.signed, pos: pos})
	case *ssa.Lookup:
		it := w.rt(x.Index.Type())
		c.emit(Instr{op: iLookup, dst: dst, a: c.op(x.X), b: c.op(x.Index), t: w.rt(x.X.Type()), flag: x.CommaOk, w: it.w, sg: it.signed, pos: pos})
	case *ssa.Range:
		c.emit(Instr{op: iRange, dst: dst, a: c.op(x.X), t: w.rt(x.X.Type()), pos: pos})
	case *ssa.Next:
		c.emit(Instr{op: iNext, dst: dst, a: c.op(x.Iter), flag: x.IsString})
	case *ssa.TypeAssert:
		c.emit(Instr{op: iTypeAssert, dst: dst, a: c.op(x.X), t: w.rt(x.AssertedType), flag: x.CommaOk, pos: pos})
	case *ssa.Extract:
		c.emit(Instr{op: iExtract, dst: dst, a: c.op(x.Tuple), b: int32(x.Index)})
	case *ssa.Store:
		c.emit(Instr{op: iStore, a: c.op(x.Addr), b: c.op(x.Val), pos: pos})
	case *ssa.MapUpdate:
		c.emit(Instr{op: iMapUpdate, a: c.op(x.Map), b: c.op(x.Key), c: c.op(x.Value), pos: pos})
	case *ssa.Call:
		c.call(b, x, &x.Call, dst, iCall)
	case *ssa.Defer:
		c.call(b, x, &x.Call, dst, iDefer)
	case *ssa.Go:
		c.call(b, x, &x.Call, dst, iGo)
	case *ssa.RunDefers:
		c.emit(Instr{op: iRunDefers})
	case *ssa.Send:
		c.emit(Instr{op: iSend, a: c.op(x.Chan), b: c.op(x.X)})
	case *ssa.Select:
		c.emit(Instr{op: iSelect, pos: pos})
	case *ssa.Panic:
		c.emit(Instr{op: iPanic, a: c.op(x.X), pos: pos})
	case *ssa.Jump:
		c.emit(Instr{op: iJump, x: c.edge(b, b.Succs[0])})
	case *ssa.If:
		c.emit(Instr{op: iIf, a: c.op(x.Cond), x: &[2]*Edge{c.edge(b, b.Succs[0]), c.edge(b, b.Succs[1])}, pos: x.Cond.Pos()})
	case *ssa.Return:
		var rs []int32
		for _, r := range x.Results {
			rs = append(rs, c.op(r))
		}
		c.emit(Instr{op: iReturn, x: rs})
	default:
		panic(engineErr(fmt.Sprintf("instr %T", in)))
	}
}

// onlyDeref reports whether an element address is only loaded from or stored
// to (possibly through field addresses), so that it never escapes.
func onlyDeref(v ssa.Value, top bool) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if u.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyDeref(u, false) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

type noSlice struct{}
type closureSpec struct {
	fn   *Fn
	free []int32
}

func (c *compiler) convert(dst int32, xv ssa.Value, to types.Type, pos token.Pos) {
	w := c.w
	ft, tt := w.rt(xv.Type()), w.rt(to)
	i := Instr{op: iConvert, dst: dst, a: c.op(xv), t: ft, t2: tt, pos: pos}
	if ft.numeric && tt.numeric && ft.w != 0 && tt.w != 0 {
		i.op = iConvInt
		i.w, i.sg = tt.w, tt.signed
	} else if ft.kind == tt.kind && ft.kind != reflect.Float64 && ft.kind != reflect.Float32 && ft.kind != reflect.Slice {
		i.op = iMove
	}
	c.emit(i)
}

// global returns the storage of a package-level variable, initialising its
// package first if needed.
func (w *W) global(g *ssa.Global) *V {
	if p, ok := w.globals[g]; ok {
		return p
	}
	if o := linked[g]; o != nil {
		p := w.global(o)
		w.globals[g] = p
		return p
	}
	t := w.rt(g.Type().Underlying().(*types.Pointer).Elem())
	p := new(V)
	*p = zeroV(t)
	w.globals[g] = p
	if g.Pkg != nil {
		w.ensureInit(g.Pkg)
	}
	return p
}

func (w *W) ensureInit(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	path := p.Pkg.Path()
	if skipInit[path] {
		return
	}
	w.fnOf(f)
	body := &Fn{name: path + ".init", ssa: f, recover: -1, sig: f.Signature}
	// run outside the current path: no undo, no decisions
	saved := w.suspend()
	sp := w.sp
	defer func() {
		w.resume(saved)
		w.sp = sp
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			switch p := r.(type) {
			case pathEnd:
				msg = p.msg
			case engineError:
				msg = p.msg
			case *goPanic:
				msg = w.panicText(p.v) + " at " + p.where
			}
			w.x.noteInit(path + ": " + msg)
		}
	}()
	w.call(body, nil, nil)
}

var _ = unsafe.Pointer(nil)
