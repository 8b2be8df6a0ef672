package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type dec struct {
	dir    bool
	forced bool
	conc   bool
	v      uint64
}

type decNode struct {
	parent *decNode
	d      dec
	n      int
}

type Alt struct {
	pre   *decNode
	model map[string]uint64
}

type Input struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type Obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

// Cex is a candidate counterexample found by the solver.
type Cex struct {
	Harness string         `json:"harness"`
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	Params  map[string]int `json:"params"`
	Inputs  []Input        `json:"inputs"`
	Where   string         `json:"where,omitempty"`
}

// Trace is a completed path with a concrete model, for native validation.
type Trace struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []Input        `json:"inputs"`
	Obs     []Obs          `json:"obs"`
}

type obsRec struct {
	label string
	v     V
	t     *RType
}

type mergeCtx struct {
	prefix []dec
	pos    int
	decs   []dec
	conds  []*Term
	work   *[][]dec
	outer  *mergeCtx
}

// W is one exploration worker: heap, terms and solver are private to it.
type W struct {
	goRuns   int // goroutines that run (nested)
	id       int
	prog     *ssa.Program
	x        *Explorer
	types    typeutil.Map
	fns      map[*ssa.Function]*Fn
	closures map[*Fn]*Closure
	globals  map[*ssa.Global]*V
	inited   map[*ssa.Package]bool
	initBody map[*ssa.Package]*ssa.Function
	terms    *Terms
	solver   *Solver

	errStringT *RType
	byteT      *RType
	native     map[string]any

	undo   []undoRec
	undoOn bool
	stk    []V
	sp     int
	fr     *Frame
	steps  int64

	maxSteps int64

	// path state
	prefix   []dec
	pos      int
	tail     *decNode
	pc       []*Term
	uf       []int32
	lists    map[int32][]*Term
	model    *Model
	seed     map[string]uint64
	inputs   []Input
	nameCnt  map[string]int
	obs      []obsRec
	mg       *mergeCtx
	permMaps bool
	// symbolic numbers are formatted as "#"
	opaqueNums bool
	// strings with symbolic bytes are quoted as ?
	opaqueQuotes bool
	vfs          *VFS
	ndec         int
	race         *race
	poolGen      int
	ended        bool
	asserts      int
	reached      map[string]bool

	memo    map[string]*mergeRes
	rtypes  map[string]*RType
	forkAt  map[string]int
	touched map[string]bool
}

func newW(id int, prog *ssa.Program, x *Explorer) *W {
	w := &W{id: id, prog: prog, x: x}
	w.types.SetHasher(typeutil.MakeHasher())
	w.fns = map[*ssa.Function]*Fn{}
	w.closures = map[*Fn]*Closure{}
	w.globals = map[*ssa.Global]*V{}
	w.inited = map[*ssa.Package]bool{}
	w.initBody = map[*ssa.Package]*ssa.Function{}
	w.terms = newTerms()
	w.solver = newSolver(w.terms)
	w.solver.cross = x.cross
	w.solver.deadline = x.hardDeadline
	w.solver.where = w.where
	w.stk = make([]V, 1<<17)
	w.memo = map[string]*mergeRes{}
	w.native = map[string]any{}
	w.forkAt = map[string]int{}
	w.touched = map[string]bool{}
	w.maxSteps = 1 << 62
	w.byteT = w.rt(typesByte)
	w.terms.vw = nil
	w.model = &Model{gen: 1}
	return w
}

func (w *W) touch(fn *Fn) {
	w.touched[fn.name] = true
}

type suspended struct {
	undoOn   bool
	maxSteps int64
	mg       *mergeCtx
	fr       *Frame
	susp     bool
	race     *race
}

func (w *W) suspend() suspended {
	s := suspended{undoOn: w.undoOn, maxSteps: w.maxSteps, mg: w.mg, fr: w.fr, race: w.race}
	w.race = nil
	w.undoOn = false
	w.maxSteps = 1 << 62
	w.mg = nil
	w.fr = nil
	return s
}

func (w *W) resume(s suspended) {
	w.undoOn, w.maxSteps, w.mg, w.fr, w.race = s.undoOn, s.maxSteps, s.mg, s.fr, s.race
}

func (w *W) rollback(mark int) {
	for i := len(w.undo) - 1; i >= mark; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	w.undo = w.undo[:mark]
}

// ------------------------------------------------------- constraints

func (w *W) find(v int32) int32 {
	for int(v) >= len(w.uf) {
		w.uf = append(w.uf, int32(len(w.uf)))
	}
	for w.uf[v] != v {
		w.uf[v] = w.uf[w.uf[v]]
		v = w.uf[v]
	}
	return v
}

func (w *W) addPC(c *Term) {
	if c.op == OBAnd {
		w.addPC(c.a)
		w.addPC(c.b)
		return
	}
	if c.isC() {
		return
	}
	w.pc = append(w.pc, c)
	if len(c.vars) == 0 {
		return
	}
	r := w.find(c.vars[0])
	for _, v := range c.vars[1:] {
		s := w.find(v)
		if s != r {
			w.uf[s] = r
			if l := w.lists[s]; l != nil {
				w.lists[r] = append(w.lists[r], l...)
				delete(w.lists, s)
			}
		}
	}
	w.lists[r] = append(w.lists[r], c)
}

// slice collects the path constraints connected to the variables of c.
func (w *W) sliceFor(c *Term) []*Term {
	var out []*Term
	seen := map[int32]bool{}
	for _, v := range c.vars {
		r := w.find(v)
		if !seen[r] {
			seen[r] = true
			out = append(out, w.lists[r]...)
		}
	}
	return out
}

func (w *W) solveWith(c *Term) (Sat, *Model) {
	if c.isC() {
		if c.k == 0 {
			return Unsat, nil
		}
		return IsSat, w.model
	}
	cs := append(w.sliceFor(c), c)
	if time.Now().After(w.x.hardDeadline) {
		panic(pathEnd{kind: endStop})
	}
	r, vars, vals := w.solver.Check(cs)
	if r != IsSat {
		return r, nil
	}
	modelGenLocal := w.nextGen()
	m := &Model{gen: modelGenLocal, vals: append([]uint64(nil), w.model.vals...)}
	for i, v := range vars {
		for int(v) >= len(m.vals) {
			m.vals = append(m.vals, 0)
		}
		m.vals[v] = vals[i]
	}
	return IsSat, m
}

func (w *W) nextGen() uint64 {
	w.x.genMu.Lock()
	modelGen++
	g := modelGen + 1
	w.x.genMu.Unlock()
	return g
}

func (w *W) modelMap(m *Model) map[string]uint64 {
	out := make(map[string]uint64, len(w.inputs))
	for _, in := range w.inputs {
		id := w.terms.vidx[in.Name]
		if id < len(m.vals) && m.vals[id] != 0 {
			out[in.Name] = m.vals[id]
		}
	}
	return out
}

func (w *W) pushDec(d dec) {
	w.tail = &decNode{parent: w.tail, d: d, n: w.ndec + 1}
	w.ndec++
}

// branch decides a symbolic condition, queuing the other side if feasible.
func (w *W) branch(c *Term) bool {
	if c.isC() {
		return c.k != 0
	}
	if w.mg != nil {
		return w.mergeBranch(c)
	}
	if !w.undoOn {
		panic(engineErr("symbolic branch during package initialisation"))
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		if d.conc {
			panic(engineErr("replay divergence (branch)"))
		}
		w.pushDec(d)
		if !d.forced {
			if d.dir {
				w.addPC(c)
			} else {
				w.addPC(w.terms.Not(c))
			}
		}
		if (w.terms.Eval(c, w.model) != 0) != d.dir {
			panic(engineErr("replay divergence (model)"))
		}
		return d.dir
	}
	d := w.terms.Eval(c, w.model) != 0
	neg := c
	pos := w.terms.Not(c)
	if d {
		neg, pos = pos, c
	}
	r, m := w.solveWith(neg)
	switch r {
	case IsSat:
		w.pushAlt(dec{dir: !d}, m)
		if w.fr != nil {
			w.fr.fn.forks++
			if w.x.profile {
				w.forkAt[w.where()]++
			}
		}
		w.pushDec(dec{dir: d})
		w.addPC(pos)
	case Unsat:
		w.pushDec(dec{dir: d, forced: true})
	default:
		w.x.noteIncomplete("solver unknown on branch feasibility")
		w.pushDec(dec{dir: d})
		w.addPC(pos)
	}
	return d
}

func (w *W) pushAlt(d dec, m *Model) {
	a := &Alt{pre: &decNode{parent: w.tail, d: d, n: w.ndec + 1}, model: w.modelMap(m)}
	w.x.push(a)
}

// concretize picks concrete values for t, forking over all feasible ones.
func (w *W) concretize(t *Term) int {
	if t.isC() {
		return int(t.k)
	}
	for n := 0; ; n++ {
		if n > 5000 {
			panic(unsupported("concretization of an unbounded value in " + w.where()))
		}
		var v uint64
		if w.mg != nil {
			panic(mergeAbort{})
		}
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			if !d.conc {
				panic(engineErr("replay divergence (concretize)"))
			}
			w.pos++
			w.pushDec(d)
			v = d.v
			eq := w.terms.Eq(t, w.terms.Const(v, t.w))
			if !d.forced {
				if d.dir {
					w.addPC(eq)
				} else {
					w.addPC(w.terms.Not(eq))
				}
			}
			if d.dir {
				return int(v)
			}
			continue
		}
		v = w.terms.Eval(t, w.model)
		eq := w.terms.Eq(t, w.terms.Const(v, t.w))
		r, m := w.solveWith(w.terms.Not(eq))
		switch r {
		case IsSat:
			w.pushAlt(dec{dir: false, conc: true, v: v}, m)
			w.pushDec(dec{dir: true, conc: true, v: v})
			w.addPC(eq)
			if w.fr != nil {
				w.fr.fn.forks++
				if w.x.profile {
					w.forkAt["conc "+w.where()]++
				}
			}
		case Unsat:
			w.pushDec(dec{dir: true, conc: true, v: v, forced: true})
		default:
			w.x.noteIncomplete("solver unknown on concretization")
			w.pushDec(dec{dir: true, conc: true, v: v})
			w.addPC(eq)
		}
		return int(v)
	}
}

func (w *W) assume(v V) {
	t, ok := v.r.(*Term)
	if !ok {
		if v.n == 0 {
			panic(pathEnd{kind: endAssume})
		}
		return
	}
	// Do not queue the violating side: it is outside the assumption.
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.pushDec(d)
		if !d.forced {
			w.addPC(t)
		}
		return
	}
	if w.terms.Eval(t, w.model) != 0 {
		w.pushDec(dec{dir: true})
		w.addPC(t)
		return
	}
	r, m := w.solveWith(t)
	switch r {
	case IsSat:
		w.model = m
		w.pushDec(dec{dir: true})
		w.addPC(t)
	case Unsat:
		panic(pathEnd{kind: endAssume})
	default:
		w.x.noteIncomplete("solver unknown on assumption")
		panic(pathEnd{kind: endAssume})
	}
}

// assert checks a property on the current path for every input following it.
func (w *W) assert(v V, msg string) {
	w.asserts++
	t, ok := v.r.(*Term)
	if !ok {
		stats.assertQ.Add(1)
		if v.n == 0 {
			w.violation("assert", msg, w.model)
			panic(pathEnd{kind: endViolation})
		}
		stats.assertUns.Add(1)
		return
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.pushDec(d)
		if !d.forced {
			w.addPC(t)
		}
		return
	}
	stats.assertQ.Add(1)
	neg := w.terms.Not(t)
	r, m := w.solveWith(neg)
	switch r {
	case IsSat:
		w.violation("assert", msg, m)
		// continue on the side where the assertion holds
		if w.terms.Eval(t, w.model) == 0 {
			r2, m2 := w.solveWith(t)
			if r2 != IsSat {
				panic(pathEnd{kind: endViolation})
			}
			w.model = m2
		}
		w.pushDec(dec{dir: true})
		w.addPC(t)
	case Unsat:
		stats.assertUns.Add(1)
		w.pushDec(dec{dir: true, forced: true})
	default:
		w.x.noteIncomplete("solver unknown on assertion: " + msg)
		w.pushDec(dec{dir: true})
		w.addPC(t)
	}
}

func (w *W) inputVals(m *Model) []Input {
	out := make([]Input, len(w.inputs))
	for i, in := range w.inputs {
		out[i] = in
		id := w.terms.vidx[in.Name]
		if id < len(m.vals) {
			out[i].Val = m.vals[id]
		}
	}
	return out
}

func (w *W) violation(kind, msg string, m *Model) {
	w.x.addCex(&Cex{Harness: w.x.harness, Kind: kind, Msg: msg, Params: w.x.params, Inputs: w.inputVals(m), Where: w.where()})
}

// freshVar creates a new symbolic input.
func (w *W) freshVar(label string, wd uint8) *Term {
	n := w.nameCnt[label]
	w.nameCnt[label] = n + 1
	name := fmt.Sprintf("%s#%d", label, n)
	if wd != 8 {
		name = fmt.Sprintf("%s/%d", name, wd)
	}
	t := w.terms.Var(name, wd)
	w.inputs = append(w.inputs, Input{Name: name, W: int(wd)})
	id := int(t.k)
	for id >= len(w.model.vals) {
		w.model.vals = append(w.model.vals, 0)
	}
	w.model.vals[id] = w.seed[name]
	return t
}

// ------------------------------------------------------- if-merging

type vEdge struct {
	blk, pc int32
	dst     []int32
	val     []V
	ts      []*RType
}

func (w *W) evalEdge(fr *Frame, e *Edge) vEdge {
	v := vEdge{blk: e.blk, pc: e.pc}
	for _, m := range e.moves {
		v.dst = append(v.dst, m.dst)
		v.val = append(v.val, fr.g(m.src))
	}
	return v
}

func (v *vEdge) get(fr *Frame, d int32) V {
	for i, x := range v.dst {
		if x == d {
			return v.val[i]
		}
	}
	return fr.regs[d]
}

func (w *W) mergeVal(c *Term, a, b V, t *RType) (V, bool) {
	ta, ok1 := a.r.(*Term)
	tb, ok2 := b.r.(*Term)
	if ok1 && ok2 {
		if ta.w != tb.w {
			return V{}, false
		}
		return w.mergedTerm(w.terms.Ite(c, ta, tb), t)
	}
	if t != nil && t.numeric {
		if (ok1 || a.r == nil) && (ok2 || b.r == nil) {
			if a.r == nil && b.r == nil && a.n == b.n {
				return a, true
			}
			return w.mergedTerm(w.terms.Ite(c, w.tm(a, t.w), w.tm(b, t.w)), t)
		}
		return V{}, false
	}
	if a.n != b.n {
		return V{}, false
	}
	switch x := a.r.(type) {
	case nil:
		return a, b.r == nil
	case *V:
		y, ok := b.r.(*V)
		return a, ok && x == y
	case string:
		y, ok := b.r.(string)
		return a, ok && x == y
	case *Agg:
		y, ok := b.r.(*Agg)
		return a, ok && x == y
	case *SStr:
		y, ok := b.r.(*SStr)
		return a, ok && x == y
	case *Iface:
		y, ok := b.r.(*Iface)
		return a, ok && x == y
	case *MapV:
		y, ok := b.r.(*MapV)
		return a, ok && x == y
	case *Closure:
		y, ok := b.r.(*Closure)
		return a, ok && x == y
	}
	return V{}, false
}

func (w *W) mergedTerm(t *Term, rt *RType) (V, bool) {
	if t.isC() {
		if rt == nil {
			return V{}, false
		}
		return w.termV(t, rt), true
	}
	return V{r: t}, true
}

// mergeEdges combines two edges to the same block under condition c (a if c).
func (w *W) mergeEdges(fr *Frame, c *Term, a, b vEdge) (vEdge, bool) {
	out := vEdge{blk: a.blk, pc: a.pc}
	add := func(d int32) bool {
		for _, x := range out.dst {
			if x == d {
				return true
			}
		}
		v, ok := w.mergeVal(c, a.get(fr, d), b.get(fr, d), fr.fn.phiT(d))
		if !ok {
			return false
		}
		out.dst = append(out.dst, d)
		out.val = append(out.val, v)
		return true
	}
	for _, d := range a.dst {
		if !add(d) {
			return out, false
		}
	}
	for _, d := range b.dst {
		if !add(d) {
			return out, false
		}
	}
	return out, true
}

func (fn *Fn) phiT(d int32) *RType { return fn.regT[d] }

func (w *W) takeV(fr *Frame, e vEdge) int32 {
	for i, d := range e.dst {
		fr.regs[d] = e.val[i]
	}
	return e.pc
}

// purity of a block: single predecessor, no phis, only speculatable instrs.
func (fn *Fn) pureBlock(b int32) bool {
	switch fn.blkPure[b] {
	case 1:
		return true
	case -1:
		return false
	}
	fn.blkPure[b] = -1
	blk := fn.ssa.Blocks[b]
	if len(blk.Preds) != 1 || len(blk.Instrs) > 24 {
		return false
	}
	if _, ok := blk.Instrs[0].(*ssa.Phi); ok {
		return false
	}
	for pc := fn.blockPC[b]; ; pc++ {
		in := &fn.code[pc]
		switch in.op {
		case iNop, iAdd, iSub, iMul, iAnd, iOr, iXor, iAndNot, iShl, iShr, iEql, iNeq, iLss, iLeq, iGtr, iGeq,
			iEqGen, iNeqGen, iBinGen, iNot, iNeg, iInv, iLoad, iMove, iConvInt, iFieldAddr, iField, iIndexAddr, iIndex, iExtract, iLookup:
			continue
		case iBuiltin:
			if n := in.x.(*CallSpec).name; n == "len" || n == "cap" {
				continue
			}
			return false
		case iCall:
			if cs := in.x.(*CallSpec); cs.fn.merge {
				continue
			}
			return false
		case iJump, iIf:
			fn.blkPure[b] = 1
			return true
		default:
			return false
		}
	}
}

type specAbort struct{}

// spec executes a pure block speculatively; returns its terminator.
func (w *W) spec(fr *Frame, b int32) (term *Instr) {
	code := fr.fn.code
	regs := fr.regs
	for pc := fr.fn.blockPC[b]; ; pc++ {
		in := &code[pc]
		w.steps++
		switch in.op {
		case iNop:
		case iAdd, iSub, iMul, iAnd, iOr, iXor, iAndNot, iShl, iShr, iEql, iNeq, iLss, iLeq, iGtr, iGeq:
			a, b := fr.g(in.a), fr.g(in.b)
			if in.op == iShl || in.op == iShr {
				if in.t2.signed {
					if t, ok := b.r.(*Term); ok {
						if t.hi >= 1<<(t.w-1) {
							return nil
						}
					} else if int64(b.n) < 0 {
						return nil
					}
				}
			}
			if a.r == nil && b.r == nil {
				regs[in.dst] = V{n: w.intBin(in, a.n, b.n)}
			} else {
				regs[in.dst] = w.symBin(in, a, b)
			}
		case iBinGen:
			if in.t.kind != reflect.String {
				return nil
			}
			regs[in.dst] = w.binGen(in.x.(tokenT), in.t, fr.g(in.a), fr.g(in.b))
		case iEqGen, iNeqGen:
			if in.t.kind != reflect.String && in.t.kind != reflect.Pointer {
				a, b := fr.g(in.a), fr.g(in.b)
				if !(in.t.kind == reflect.Interface && (a.r == nil || b.r == nil)) {
					return nil
				}
			}
			v := w.eqV(in.t, fr.g(in.a), fr.g(in.b))
			if in.op == iNeqGen {
				v = w.notV(v)
			}
			regs[in.dst] = v
		case iNot:
			regs[in.dst] = w.notV(fr.g(in.a))
		case iNeg:
			a := fr.g(in.a)
			if t, ok := a.r.(*Term); ok {
				regs[in.dst] = w.termV(w.terms.Neg(t), in.t)
			} else {
				regs[in.dst] = V{n: normK(-a.n, in.w, in.sg)}
			}
		case iInv:
			a := fr.g(in.a)
			if t, ok := a.r.(*Term); ok {
				regs[in.dst] = w.termV(w.terms.Not(t), in.t)
			} else {
				regs[in.dst] = V{n: normK(^a.n, in.w, in.sg)}
			}
		case iLoad:
			a := fr.g(in.a)
			switch p := a.r.(type) {
			case *V:
				regs[in.dst] = load(p)
			case *SymPtr:
				regs[in.dst] = w.symLoad(p)
			default:
				return nil
			}
		case iMove:
			regs[in.dst] = fr.g(in.a)
		case iConvInt:
			a := fr.g(in.a)
			if t, ok := a.r.(*Term); ok {
				regs[in.dst] = w.convTerm(t, in.t, in.t2)
			} else {
				regs[in.dst] = V{n: normK(a.n, in.w, in.sg)}
			}
		case iFieldAddr:
			if sp, ok := fr.g(in.a).r.(*SymPtr); ok {
				regs[in.dst] = V{r: sp.field(in.b)}
				continue
			}
			p, ok := fr.g(in.a).r.(*V)
			if !ok {
				return nil
			}
			ag, ok := p.r.(*Agg)
			if !ok {
				return nil
			}
			regs[in.dst] = V{r: &ag.f[in.b]}
		case iField:
			regs[in.dst] = fr.g(in.a).r.(*Agg).f[in.b]
		case iExtract:
			regs[in.dst] = fr.g(in.a).r.(*Agg).f[in.b]
		case iIndexAddr, iIndex, iLookup:
			x, i := fr.g(in.a), fr.g(in.b)
			var n int
			switch in.t.kind {
			case reflect.Slice:
				n = slen(x)
			case reflect.String:
				n = strLen(x)
			case reflect.Pointer:
				p, ok := x.r.(*V)
				if !ok {
					return nil
				}
				ag, ok := p.r.(*Agg)
				if !ok {
					return nil
				}
				n = len(ag.f)
			case reflect.Array:
				n = len(x.r.(*Agg).f)
			default:
				return nil
			}
			if t, ok := i.r.(*Term); ok {
				// only when provably in range and selectable as a term
				if in.sg && t.hi >= 1<<(t.w-1) || t.hi >= uint64(n) || n > 512 {
					return nil
				}
				if in.op == iIndexAddr && !(in.flag && selectable(in.t2)) {
					return nil
				}
				if in.op == iIndex && !in.t2.numeric {
					return nil
				}
			} else if int64(i.n) < 0 || int64(i.n) >= int64(n) {
				return nil
			}
			switch in.op {
			case iIndexAddr:
				regs[in.dst] = w.indexAddr(in, x, i)
			case iIndex:
				regs[in.dst] = w.index(in, x, i)
			default:
				regs[in.dst] = w.lookup(in, x, i)
			}
		case iBuiltin:
			cs := in.x.(*CallSpec)
			if cs.argT[0].kind == reflect.Chan {
				return nil
			}
			regs[in.dst] = w.builtin(fr, cs, []V{fr.g(cs.args[0])})
		case iCall:
			cs := in.x.(*CallSpec)
			args := make([]V, len(cs.args))
			for i, o := range cs.args {
				args[i] = fr.g(o)
			}
			if cs.fn.intr == nil && !cs.fn.compiled {
				w.compile(cs.fn)
			}
			r, ok := w.callMerged(cs.fn, args, nil)
			if !ok {
				return nil
			}
			if in.dst >= 0 {
				regs[in.dst] = r
			}
		case iJump, iIf:
			return in
		default:
			return nil
		}
	}
}

// symIf executes a conditional jump on a symbolic condition, merging
// side-effect-free regions into if-then-else terms where possible.
func (w *W) symIf(fr *Frame, c *Term, es *[2]*Edge) int32 {
	T := w.terms
	e0, e1 := w.evalEdge(fr, es[0]), w.evalEdge(fr, es[1])
	if w.x.noMerge {
		if w.branch(c) {
			return w.takeV(fr, e0)
		}
		return w.takeV(fr, e1)
	}
	for iter := 0; iter < 64; iter++ {
		if c.isC() {
			break
		}
		if e0.blk == e1.blk {
			if m, ok := w.mergeEdges(fr, c, e0, e1); ok {
				return w.takeV(fr, m)
			}
			break
		}
		progress := false
		for side := 0; side < 2 && !progress; side++ {
			s, j := e0, e1
			cs := c // condition under which s is taken
			if side == 1 {
				s, j = e1, e0
				cs = T.Not(c)
			}
			if len(s.dst) != 0 || !fr.fn.pureBlock(s.blk) {
				continue
			}
			term := w.spec(fr, s.blk)
			if term == nil {
				continue
			}
			if term.op == iJump {
				ne := w.evalEdge(fr, term.x.(*Edge))
				if ne.blk == j.blk {
					if m, ok := w.mergeEdges(fr, cs, ne, j); ok {
						return w.takeV(fr, m)
					}
					continue
				}
				// follow the jump; needs the other side to join
				if side == 0 {
					// try other side too: diamond
					if len(j.dst) == 0 && fr.fn.pureBlock(j.blk) {
						if t2 := w.spec(fr, j.blk); t2 != nil && t2.op == iJump {
							ne2 := w.evalEdge(fr, t2.x.(*Edge))
							if ne2.blk == ne.blk {
								if m, ok := w.mergeEdges(fr, cs, ne, ne2); ok {
									return w.takeV(fr, m)
								}
							}
						}
					}
				}
				continue
			}
			c2v := fr.g(term.a)
			var c2 *Term
			if t, ok := c2v.r.(*Term); ok {
				c2 = t
			} else {
				c2 = T.Bool(c2v.n != 0)
			}
			es2 := term.x.(*[2]*Edge)
			a, b := w.evalEdge(fr, es2[0]), w.evalEdge(fr, es2[1])
			var x, y vEdge // y joins j
			var cx *Term   // under s, condition for x
			switch {
			case b.blk == j.blk:
				x, y, cx = a, b, c2
			case a.blk == j.blk:
				x, y, cx = b, a, T.Not(c2)
			default:
				continue
			}
			// j' : taken if !cs or (cs && !cx); values: cs ? y : j
			nj, ok := w.mergeEdges(fr, cs, y, j)
			if !ok {
				continue
			}
			nc := T.And(cs, cx)
			c, e0, e1 = nc, x, nj
			progress = true
		}
		if !progress {
			break
		}
	}
	if w.branch(c) {
		return w.takeV(fr, e0)
	}
	return w.takeV(fr, e1)
}

// ------------------------------------------------------- call summaries

type mergeRes struct {
	ok  bool
	v   V
	pin []V
}

type mergeAbort struct{}

func (w *W) argKey(v V, sb *strings.Builder) (sym bool) {
	switch r := v.r.(type) {
	case nil:
		fmt.Fprintf(sb, "n%x,", v.n)
	case *Term:
		fmt.Fprintf(sb, "t%d,", r.id)
		return true
	case string:
		fmt.Fprintf(sb, "s%q,", r)
	case *SStr:
		sb.WriteString("S")
		for _, b := range r.b {
			if b.t != nil {
				fmt.Fprintf(sb, "t%d.", b.t.id)
			} else {
				fmt.Fprintf(sb, "c%d.", b.c)
			}
		}
		sb.WriteByte(',')
		return true
	case *V:
		if l := slen(v); l > 0 && l <= 8 {
			sb.WriteString("L")
			for _, e := range sliceElems(v) {
				if w.argKey(e, sb) {
					sym = true
				}
			}
			return
		}
		fmt.Fprintf(sb, "p%p.%x,", r, v.n)
	case *Agg:
		for _, e := range r.f {
			if w.argKey(e, sb) {
				sym = true
			}
		}
	default:
		fmt.Fprintf(sb, "o%p,", r)
	}
	return
}

// callMerged summarises a pure scalar function as an if-then-else term over
// all its paths (computed once per argument tuple, independent of the path).
func (w *W) callMerged(fn *Fn, args, free []V) (V, bool) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p|", fn)
	sym := false
	for _, a := range args {
		if w.argKey(a, &sb) {
			sym = true
		}
	}
	if !sym {
		if w.mg != nil || fn.nfree > 0 {
			return V{}, false
		}
		return w.callPlain(fn, args, free), true
	}
	key := sb.String()
	if r, ok := w.memo[key]; ok {
		return r.v, r.ok
	}
	res := &mergeRes{pin: append([]V(nil), args...)}
	v, ok := w.summarise(fn, args, free)
	res.v, res.ok = v, ok
	w.memo[key] = res
	return v, ok
}

func (w *W) summarise(fn *Fn, args, free []V) (res V, ok bool) {
	type outcome struct {
		c *Term
		v V
	}
	var outs []outcome
	work := [][]dec{nil}
	outer := w.mg
	savedFr, savedSp := w.fr, w.sp
	n := 0
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 600 {
			return V{}, false
		}
		mark := len(w.undo)
		ctx := &mergeCtx{prefix: p, work: &work, outer: outer}
		w.mg = ctx
		v, good := func() (v V, good bool) {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case mergeAbort, *goPanic:
					case pathEnd:
						if x.kind == endStop {
							panic(r)
						}
					default:
						panic(r)
					}
				}
			}()
			return w.callPlain(fn, args, free), true
		}()
		w.mg = outer
		w.fr, w.sp = savedFr, savedSp
		w.rollback(mark)
		if !good || !w.scalarRes(v) {
			return V{}, false
		}
		c := w.terms.T
		for _, x := range ctx.conds {
			c = w.terms.And(c, x)
		}
		outs = append(outs, outcome{c, v})
	}
	if len(outs) == 0 {
		return V{}, false
	}
	merge := func(c *Term, a, b V, t *RType) (V, bool) { return w.mergeVal(c, a, b, t) }
	acc := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		o := outs[i]
		if fn.nres > 1 {
			f := make([]V, fn.nres)
			for j := range f {
				v, ok := merge(o.c, o.v.r.(*Agg).f[j], acc.r.(*Agg).f[j], fn.resT.fields[j].t)
				if !ok {
					return V{}, false
				}
				f[j] = v
			}
			acc = V{r: &Agg{f}}
			continue
		}
		v, ok := merge(o.c, o.v, acc, fn.resT)
		if !ok {
			return V{}, false
		}
		acc = v
	}
	return acc, true
}

func (w *W) scalarRes(v V) bool {
	switch r := v.r.(type) {
	case nil, *Term:
		return true
	case *Agg:
		for _, f := range r.f {
			if !w.scalarRes(f) {
				return false
			}
		}
		return true
	}
	return false
}

func (w *W) mergeBranch(c *Term) bool {
	m := w.mg
	T := w.terms
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		if !d.forced {
			if d.dir {
				m.conds = append(m.conds, c)
			} else {
				m.conds = append(m.conds, T.Not(c))
			}
		}
		return d.dir
	}
	feas := func(x *Term) bool {
		var cs []*Term
		for p := m; p != nil; p = p.outer {
			cs = append(cs, p.conds...)
		}
		cs = append(cs, x)
		if time.Now().After(w.x.hardDeadline) {
			panic(pathEnd{kind: endStop})
		}
		r, _, _ := w.solver.Check(cs)
		return r != Unsat
	}
	nc := T.Not(c)
	pt := feas(c)
	pf := true
	if pt {
		pf = feas(nc)
	}
	switch {
	case pt && pf:
		alt := append(append([]dec(nil), m.decs...), dec{dir: false})
		*m.work = append(*m.work, alt)
		m.decs = append(m.decs, dec{dir: true})
		m.conds = append(m.conds, c)
		return true
	case pt:
		m.decs = append(m.decs, dec{dir: true, forced: true})
		return true
	default:
		m.decs = append(m.decs, dec{dir: false, forced: true})
		return false
	}
}

// ------------------------------------------------------- explorer

type Explorer struct {
	mu           sync.Mutex
	cond         *sync.Cond
	stack        []*Alt
	running      int
	harness      string
	params       map[string]int
	deadline     time.Time
	hardDeadline time.Time
	genMu        sync.Mutex
	cross        int
	noMerge      bool
	profile      bool
	maxSteps     int64
	maxPaths     int64
	maxTraces    int
	stop         bool

	paths      int64
	decisions  int64
	steps      int64
	assumeEnd  int64
	pruned     int64
	budgetEnds int64
	unsup      map[string]int
	incomplete map[string]int
	cex        []*Cex
	cexSeen    map[string]int
	traces     []*Trace
	reached    map[string]int
	asserts    int64
	errs       []string
	pathLog    func(w *W)
	maxAlts    int
	initNotes  map[string]int
}

func newExplorer() *Explorer {
	x := &Explorer{unsup: map[string]int{}, incomplete: map[string]int{}, cexSeen: map[string]int{}, reached: map[string]int{}, initNotes: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) push(a *Alt) {
	x.mu.Lock()
	x.stack = append(x.stack, a)
	if len(x.stack) > x.maxAlts {
		x.maxAlts = len(x.stack)
	}
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) pop() *Alt {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || time.Now().After(x.deadline) || (x.maxPaths > 0 && x.paths >= x.maxPaths) {
			if len(x.stack) > 0 && !x.stop {
				x.incomplete["time or path budget reached with unexplored paths"] = len(x.stack)
			}
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		if n := len(x.stack); n > 0 {
			a := x.stack[n-1]
			x.stack = x.stack[:n-1]
			x.running++
			return a
		}
		if x.running == 0 {
			x.cond.Broadcast()
			return nil
		}
		x.cond.Wait()
	}
}

func (x *Explorer) done() {
	x.mu.Lock()
	x.running--
	x.cond.Broadcast()
	x.mu.Unlock()
}

// noteInit records a package initialiser the engine could not run fully.
func (x *Explorer) noteInit(s string) {
	x.mu.Lock()
	x.initNotes[s]++
	x.mu.Unlock()
}

func (x *Explorer) noteIncomplete(s string) {
	x.mu.Lock()
	x.incomplete[s]++
	x.mu.Unlock()
}

func (x *Explorer) addCex(c *Cex) {
	x.mu.Lock()
	defer x.mu.Unlock()
	k := c.Kind + "|" + c.Msg
	x.cexSeen[k]++
	if x.cexSeen[k] > 12 {
		return
	}
	x.cex = append(x.cex, c)
}

func (w *W) runPath(a *Alt, entry *Fn) {
	n := 0
	if a.pre != nil {
		n = a.pre.n
	}
	w.prefix = make([]dec, n)
	for p := a.pre; p != nil; p = p.parent {
		w.prefix[p.n-1] = p.d
	}
	w.pos = 0
	w.tail = nil
	w.ndec = 0
	w.pc = w.pc[:0]
	w.uf = w.uf[:0]
	w.lists = map[int32][]*Term{}
	if w.terms.next > 3000000 {
		w.terms.reset()
		w.memo = map[string]*mergeRes{}
	}
	w.model = &Model{gen: w.nextGen()}
	w.seed = a.model
	w.inputs = nil
	w.nameCnt = map[string]int{}
	w.obs = nil
	w.mg = nil
	w.permMaps = true
	w.opaqueNums = false
	w.opaqueQuotes = false
	w.vfs = newVFS()
	w.race = nil
	w.poolGen++
	w.asserts = 0
	w.reached = map[string]bool{}
	w.fr = nil
	w.sp = 0
	w.goRuns = 0
	w.undoOn = true
	w.undo = w.undo[:0]
	start := w.steps
	w.maxSteps = w.steps + w.x.maxSteps
	end := w.exec(entry)
	obs := w.obs
	var tr *Trace
	x := w.x
	if end.kind == endOK || end.kind == endViolation {
		x.mu.Lock()
		want := len(x.traces) < x.maxTraces || (x.paths%97 == 0 && len(x.traces) < x.maxTraces*2)
		x.mu.Unlock()
		if want && end.kind == endOK {
			tr = &Trace{Harness: x.harness, Params: x.params, Inputs: w.inputVals(w.model)}
			for _, o := range obs {
				tr.Obs = append(tr.Obs, Obs{o.label, w.renderObs(o)})
			}
		}
	}
	w.rollback(0)
	w.undoOn = false
	x.mu.Lock()
	x.steps += w.steps - start
	x.decisions += int64(w.ndec)
	x.asserts += int64(w.asserts)
	switch end.kind {
	case endOK, endViolation:
		x.paths++
		for r := range w.reached {
			x.reached[r]++
		}
		if tr != nil {
			x.traces = append(x.traces, tr)
		}
	case endAssume:
		x.assumeEnd++
	case endUnsupported:
		x.unsup[end.msg]++
	case endStop:
		x.incomplete["path cut by deadline"]++
	}
	x.mu.Unlock()
	switch end.kind {
	case endBudget:
		w.violation("budget", end.msg, w.model)
		x.noteIncomplete("step budget: " + trimTo(end.msg, 200))
	case endStack:
		w.violation("stack", end.msg, w.model)
		x.noteIncomplete("stack depth: " + trimTo(end.msg, 200))
	case endAlloc:
		w.violation("alloc", end.msg, w.model)
		x.noteIncomplete("allocation: " + trimTo(end.msg, 200))
	case endExit:
		w.violation("exit", "os.Exit outside Tool", w.model)
	}
	if x.pathLog != nil {
		x.pathLog(w)
	}
}

func trimTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (w *W) exec(entry *Fn) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				end = p
			case *goPanic:
				w.fr = nil
				w.mg = nil
				msg := w.panicText(p.v)
				w.x.addCex(&Cex{Harness: w.x.harness, Kind: "panic", Msg: "panic: " + msg, Params: w.x.params, Inputs: w.inputVals(w.model), Where: p.where})
				end = pathEnd{kind: endViolation, msg: msg}
			case exitPanic:
				end = pathEnd{kind: endExit, code: p.code}
			case engineError:
				w.x.mu.Lock()
				w.x.unsup["engine: "+p.msg]++
				w.x.mu.Unlock()
				if os.Getenv("SYMGO_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "ENGINE ERROR", p.msg, w.where())
					debug.PrintStack()
				}
				end = pathEnd{kind: endUnsupported, msg: "engine: " + p.msg}
			default:
				msg := fmt.Sprint(r)
				if os.Getenv("SYMGO_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "ENGINE PANIC", msg, w.where())
					debug.PrintStack()
				}
				end = pathEnd{kind: endUnsupported, msg: "engine panic: " + msg + " at " + w.where()}
			}
		}
	}()
	w.call(entry, nil, nil)
	return pathEnd{kind: endOK}
}

func (w *W) panicText(v V) (s string) {
	i, ok := v.r.(*Iface)
	if !ok {
		return "nil"
	}
	if i.t.kind == reflect.String {
		return w.showStr(i.v)
	}
	if ag, ok := i.v.r.(*Agg); ok && len(ag.f) > 0 {
		return i.t.String()
	}
	defer func() {
		if r := recover(); r != nil {
			s = i.t.String()
		}
	}()
	if f := w.lookupMethod(i.t, "Error"); f != nil {
		return w.showStr(w.call(f, []V{i.v}, nil))
	}
	return i.t.String()
}

func (w *W) showStr(v V) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if b[i].t != nil {
			out[i] = byte(w.terms.Eval(b[i].t, w.model))
		} else {
			out[i] = b[i].c
		}
	}
	return string(out)
}

// explore runs one harness to exhaustion (or its budget) on all workers.
func explore(ws []*W, x *Explorer, name string) {
	x.push(&Alt{})
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.x = x
			w.solver.cross = x.cross
			w.solver.deadline = x.hardDeadline
			w.solver.where = w.where
			for {
				a := x.pop()
				if a == nil {
					return
				}
				entry := w.harnessFn(name)
				w.runPath(a, entry)
				x.done()
			}
		}(w)
	}
	wg.Wait()
}

func (w *W) harnessFn(name string) *Fn {
	i := strings.LastIndex(name, ".")
	p := w.prog.ImportedPackage(name[:i])
	if p == nil {
		panic("harness package not loaded: " + name)
	}
	f := p.Func(name[i+1:])
	if f == nil {
		panic("no such harness: " + name)
	}
	w.ensureInit(p)
	return w.fnOf(f)
}

func sortedKeys[M ~map[string]T, T any](m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
