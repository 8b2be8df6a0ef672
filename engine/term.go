package main

// Hash-consed bit-vector / boolean terms with a light simplifier.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot // bitwise
	ONeg
	OZext
	OSext
	OExtract // low bits only (truncation)
	OIte
	// boolean results (w==0)
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
)

var opName = [...]string{"var", "const", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvnot", "bvneg", "zext", "sext", "extract", "ite", "=", "bvult", "bvslt", "not", "and", "or"}

type Term struct {
	op      Op
	w       uint8 // 0 = bool
	a, b, c *Term
	k       uint64 // constant value / var id
	id      uint32
	hash    uint64
	lo, hi  uint64 // unsigned range
	vars    []int32
	evalGen uint64
	evalVal uint64
	size    int32
	tab     *[256]uint64
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
}

type Terms struct {
	tab    map[tkey]*Term
	next   uint32
	vnames []string
	vw     []uint8
	vidx   map[string]int
	consts [65]map[uint64]*Term
	T, F   *Term

	inCanon bool
}

func newTerms() *Terms {
	t := &Terms{}
	t.reset()
	return t
}

func (t *Terms) reset() {
	t.tab = map[tkey]*Term{}
	t.vidx = map[string]int{}
	t.vnames = nil
	t.vw = nil
	t.next = 0
	t.T = t.mk(OConst, 0, nil, nil, nil, 1)
	t.F = t.mk(OConst, 0, nil, nil, nil, 0)
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext64(x uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(x)
	}
	s := 64 - w
	return int64(x<<s) >> s
}

func mixh(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks
	i, j := 0, 0
	aSub, bSub := true, true
	for i < len(a) || j < len(b) {
		switch {
		case i < len(a) && j < len(b) && a[i] == b[j]:
			i++
			j++
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			aSub = false
			i++
		default:
			bSub = false
			j++
		}
		if !aSub && !bSub {
			break
		}
	}
	if aSub {
		return b
	}
	if bSub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i < len(a) && j < len(b) && a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

func (t *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, a, b, c, k}
	if x, ok := t.tab[key]; ok {
		return x
	}
	x := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: t.next, size: 1}
	t.next++
	h := mixh(uint64(op)<<8|uint64(w), k)
	for _, y := range [3]*Term{a, b, c} {
		if y != nil {
			h = mixh(h*31+7, y.hash)
			x.vars = mergeVars(x.vars, y.vars)
			x.size += y.size
			if x.size > 1<<28 {
				x.size = 1 << 28
			}
		}
	}
	x.hash = h
	if op == OVar {
		x.vars = []int32{int32(k)}
		hh := uint64(14695981039346656037)
		for _, ch := range []byte(t.vnames[k]) {
			hh = (hh ^ uint64(ch)) * 1099511628211
		}
		x.hash = mixh(hh, uint64(w))
	}
	t.ranges(x)
	t.tab[key] = x
	if len(x.vars) == 1 && x.size > canonSize && !t.inCanon && t.vw[x.vars[0]] == 8 {
		if y := t.canon(x); y != nil {
			t.tab[key] = y
			return y
		}
	}
	return x
}

// A term over a single byte is brought to a normal form, the shortest of
// intervals of the byte on which it is a constant or the byte plus a constant:
// the tables of Unicode properties and of lexers leave large terms otherwise.
const canonSize = 20

func (t *Terms) table(x *Term) *[256]uint64 {
	if x.tab != nil {
		return x.tab
	}
	r := new([256]uint64)
	switch x.op {
	case OConst:
		for i := range r {
			r[i] = x.k
		}
		return r
	case OVar:
		for i := range r {
			r[i] = uint64(i)
		}
		return r
	}
	a := t.table(x.a)
	var b, c *[256]uint64
	if x.b != nil {
		b = t.table(x.b)
	} else {
		b = a
	}
	if x.c != nil {
		c = t.table(x.c)
	} else {
		c = a
	}
	for i := range r {
		r[i] = evalOp(x.op, x.w, x.a.w, a[i], b[i], c[i])
	}
	if x.size > 6 {
		x.tab = r
	}
	return r
}

func (t *Terms) canon(x *Term) *Term {
	t.inCanon = true
	defer func() { t.inCanon = false }()
	r := t.table(x)
	m := mask(x.w)
	v := t.byteVar(x.vars[0])
	if x.w == 0 {
		y := t.F
		n := 0
		for i := 0; i < 256; {
			if r[i] == 0 {
				i++
				continue
			}
			j := i
			for j < 256 && r[j] != 0 {
				j++
			}
			in := t.T
			if i > 0 {
				in = t.Not(t.Ult(v, t.Const(uint64(i), 8)))
			}
			if j < 256 {
				in = t.And(in, t.Ult(v, t.Const(uint64(j), 8)))
			}
			if j == i+1 {
				in = t.Eq(v, t.Const(uint64(i), 8))
			}
			y = t.Or(y, in)
			if n++; n > 40 {
				return nil
			}
			i = j
		}
		if y.size >= x.size {
			return nil
		}
		return y
	}
	type seg struct {
		end int
		val *Term
	}
	var segs []seg
	for i := 0; i < 256; {
		j, k := i, i
		for j < 256 && r[j] == r[i] {
			j++
		}
		for k < 256 && r[k] == (r[i]+uint64(k-i))&m {
			k++
		}
		var val *Term
		if j >= k {
			val = t.Const(r[i], x.w)
		} else {
			j = k
			val = t.Bin(OAdd, t.fit(v, x.w), t.Const((r[i]-uint64(i))&m, x.w))
		}
		segs = append(segs, seg{j, val})
		if len(segs) > 12 {
			return nil
		}
		i = j
	}
	y := segs[len(segs)-1].val
	for i := len(segs) - 2; i >= 0; i-- {
		y = t.Ite(t.Ult(v, t.Const(uint64(segs[i].end), 8)), segs[i].val, y)
	}
	if y.size >= x.size {
		return nil
	}
	return y
}

func (t *Terms) byteVar(i int32) *Term { return t.mk(OVar, 8, nil, nil, nil, uint64(i)) }

func (t *Terms) fit(v *Term, w uint8) *Term {
	switch {
	case w == 8:
		return v
	case w > 8:
		return t.Zext(v, w)
	}
	return t.Trunc(v, w)
}

func (t *Terms) ranges(x *Term) {
	m := mask(x.w)
	x.lo, x.hi = 0, m
	a, b, c := x.a, x.b, x.c
	switch x.op {
	case OConst:
		x.lo, x.hi = x.k, x.k
	case OAdd:
		if s, cy := bits.Add64(a.hi, b.hi, 0); cy == 0 && s <= m {
			x.lo, x.hi = a.lo+b.lo, s
		} else if b.op == OConst && a.lo+b.k > m && a.hi <= m { // always wraps (subtraction of const)
			if s1, c1 := bits.Add64(a.lo, b.k, 0); c1 == 0 && s1 > m && x.w < 64 {
				x.lo, x.hi = s1&m, (a.hi+b.k)&m
			}
		} else if b.op == OConst && x.w == 64 {
			if _, c1 := bits.Add64(a.lo, b.k, 0); c1 == 1 {
				x.lo, x.hi = a.lo+b.k, a.hi+b.k
			}
		}
	case OSub:
		if a.lo >= b.hi {
			x.lo, x.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			x.lo, x.hi = a.lo*b.lo, l
		}
	case OUDiv:
		if b.lo > 0 {
			x.lo, x.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if b.lo > 0 {
			x.hi = min(b.hi-1, a.hi)
		} else {
			x.hi = a.hi | b.hi
			if x.hi > m {
				x.hi = m
			}
		}
		x.lo = 0
	case OAnd:
		x.lo, x.hi = 0, min(a.hi, b.hi)
	case OOr:
		n := bits.Len64(a.hi | b.hi)
		if n < 64 {
			x.hi = 1<<uint(n) - 1
		}
		x.lo = max(a.lo, b.lo)
	case OXor:
		n := bits.Len64(a.hi | b.hi)
		if n < 64 {
			x.hi = 1<<uint(n) - 1
		}
	case OShl:
		if b.op == OConst && b.k < 64 {
			if bits.Len64(a.hi)+int(b.k) <= int(x.w) {
				x.lo, x.hi = a.lo<<b.k, a.hi<<b.k
			}
		}
	case OLshr:
		if b.op == OConst {
			if b.k < 64 {
				x.lo, x.hi = a.lo>>b.k, a.hi>>b.k
			} else {
				x.lo, x.hi = 0, 0
			}
		} else {
			x.lo, x.hi = 0, a.hi
		}
	case OZext:
		x.lo, x.hi = a.lo, a.hi
	case OSext:
		if a.hi < 1<<(a.w-1) {
			x.lo, x.hi = a.lo, a.hi
		}
	case OExtract:
		if a.hi <= m {
			x.lo, x.hi = a.lo, a.hi
		}
	case OIte:
		x.lo, x.hi = min(b.lo, c.lo), max(b.hi, c.hi)
	}
}

func (t *Terms) Var(name string, w uint8) *Term {
	i, ok := t.vidx[name]
	if !ok {
		i = len(t.vnames)
		t.vidx[name] = i
		t.vnames = append(t.vnames, name)
		t.vw = append(t.vw, w)
	}
	return t.mk(OVar, w, nil, nil, nil, uint64(i))
}

func (t *Terms) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v != 0 {
			return t.T
		}
		return t.F
	}
	return t.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (t *Terms) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}

func (x *Term) isC() bool { return x.op == OConst }

func tless(a, b *Term) bool { // canonical operand order
	if a.hash != b.hash {
		return a.hash < b.hash
	}
	return a.id < b.id
}

func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case ONot:
		return ^a & m
	case ONeg:
		return -a & m
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, aw)) & m
	case OExtract:
		return a & m
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OBNot:
		return a ^ 1
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	}
	panic("evalOp " + opName[op])
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a width-preserving binary operation.
func (t *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.isC() && b.isC() {
		return t.Const(evalOp(op, w, w, a.k, b.k, 0), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isC() || (!b.isC() && tless(b, a)) {
			a, b = b, a
		}
	}
	m := mask(w)
	switch op {
	case OAdd:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return t.Bin(OAdd, a.a, t.Const(a.b.k+b.k, w))
			}
		}
	case OSub:
		if a == b {
			return t.Const(0, w)
		}
		if b.isC() {
			return t.Bin(OAdd, a, t.Const(-b.k, w))
		}
	case OMul:
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return t.Bin(OShl, a, t.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OUDiv:
		if b.isC() {
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return t.Bin(OLshr, a, t.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OURem:
		if b.isC() && b.k != 0 {
			if b.k&(b.k-1) == 0 {
				return t.Bin(OAnd, a, t.Const(b.k-1, w))
			}
			if a.hi < b.k {
				return a
			}
		}
	case OSDiv:
		if b.isC() && a.hi < 1<<(w-1) && b.k < 1<<(w-1) && b.k != 0 {
			return t.Bin(OUDiv, a, b)
		}
	case OSRem:
		if b.isC() && a.hi < 1<<(w-1) && b.k < 1<<(w-1) && b.k != 0 {
			return t.Bin(OURem, a, b)
		}
	case OAnd:
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.hi <= b.k && b.k&(b.k+1) == 0 {
				return a
			}
			if a.op == OZext {
				if b.k&mask(a.a.w) == b.k || true {
					return t.Zext(t.Bin(OAnd, a.a, t.Const(b.k&mask(a.a.w), a.a.w)), w)
				}
			}
			if a.op == OAnd && a.b.isC() {
				return t.Bin(OAnd, a.a, t.Const(a.b.k&b.k, w))
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
	case OXor:
		if a == b {
			return t.Const(0, w)
		}
		if b.isC() && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OAshr {
				return t.Const(0, w)
			}
			if op == OLshr && a.hi>>b.k == 0 {
				return t.Const(0, w)
			}
			if op == OAshr && a.hi < 1<<(w-1) {
				return t.Bin(OLshr, a, b)
			}
		}
		if a.isC() && a.k == 0 {
			return a
		}
	}
	// distribute over ite with constant leaves
	if b.isC() && a.op == OIte && (a.b.isC() || a.c.isC()) && a.size < 4096 {
		return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
	}
	return t.mk(op, w, a, b, nil, 0)
}

func (t *Terms) Not(a *Term) *Term { // bitwise or boolean
	if a.w == 0 {
		if a.isC() {
			return t.Bool(a.k == 0)
		}
		if a.op == OBNot {
			return a.a
		}
		return t.mk(OBNot, 0, a, nil, nil, 0)
	}
	if a.isC() {
		return t.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return t.mk(ONot, a.w, a, nil, nil, 0)
}

func (t *Terms) Neg(a *Term) *Term {
	if a.isC() {
		return t.Const(-a.k, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return t.mk(ONeg, a.w, a, nil, nil, 0)
}

func (t *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 0 {
		return t.Ite(a, t.Const(1, w), t.Const(0, w))
	}
	if a.isC() {
		return t.Const(a.k, w)
	}
	if a.op == OZext {
		return t.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.isC() || a.c.isC()) {
		return t.Ite(a.a, t.Zext(a.b, w), t.Zext(a.c, w))
	}
	return t.mk(OZext, w, a, nil, nil, 0)
}

func (t *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(uint64(sext64(a.k, a.w)), w)
	}
	if a.hi < 1<<(a.w-1) {
		return t.Zext(a, w)
	}
	if a.op == OSext {
		return t.Sext(a.a, w)
	}
	if a.op == OIte && (a.b.isC() || a.c.isC()) {
		return t.Ite(a.a, t.Sext(a.b, w), t.Sext(a.c, w))
	}
	return t.mk(OSext, w, a, nil, nil, 0)
}

func (t *Terms) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return t.Const(a.k, w)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return t.Trunc(a.a, w)
		}
		if a.op == OZext {
			return t.Zext(a.a, w)
		}
		return t.Sext(a.a, w)
	case OExtract:
		return t.Trunc(a.a, w)
	case OIte:
		return t.Ite(a.a, t.Trunc(a.b, w), t.Trunc(a.c, w))
	case OAnd, OOr, OXor, OAdd, OSub, OMul:
		if a.size < 256 {
			return t.Bin(a.op, t.Trunc(a.a, w), t.Trunc(a.b, w))
		}
	case OShl:
		if a.b.isC() {
			if a.b.k >= uint64(w) {
				return t.Const(0, w)
			}
			return t.Bin(OShl, t.Trunc(a.a, w), t.Const(a.b.k, w))
		}
	case OLshr:
		if a.b.isC() && a.a.op == OOr && a.a.size < 256 {
			// (x|y)>>k truncated: distribute (useful for byte recomposition)
			return t.Bin(OOr, t.Trunc(t.Bin(OLshr, a.a.a, a.b), w), t.Trunc(t.Bin(OLshr, a.a.b, a.b), w))
		}
		if a.b.isC() && a.a.op == OShl && a.a.b.isC() {
			x, l, r := a.a.a, a.a.b.k, a.b.k
			// (x<<l)>>r : if no overflow of x<<l, equals shift by l-r
			if bits.Len64(x.hi)+int(l) <= int(a.w) {
				if l >= r {
					return t.Trunc(t.Bin(OShl, x, t.Const(l-r, a.w)), w)
				}
				return t.Trunc(t.Bin(OLshr, x, t.Const(r-l, a.w)), w)
			}
		}
	}
	return t.mk(OExtract, w, a, nil, nil, 0)
}

func (t *Terms) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return t.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isC() && b.isC() {
			if a.k == 1 {
				return c
			}
			return t.Not(c)
		}
		if a.isC() {
			if a.k == 1 {
				return t.Or(c, b)
			}
			return t.And(t.Not(c), b)
		}
		if b.isC() {
			if b.k == 1 {
				return t.Or(t.Not(c), a)
			}
			return t.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		return t.Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return t.Ite(c, a, b.c)
	}
	if b.op == OIte && b.b == a {
		return t.Ite(t.Or(c, b.a), a, b.c)
	}
	return t.mk(OIte, a.w, c, a, b, 0)
}

func (t *Terms) And(a, b *Term) *Term {
	if a.isC() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return t.F
	}
	if tless(b, a) {
		a, b = b, a
	}
	return t.mk(OBAnd, 0, a, b, nil, 0)
}

func (t *Terms) Or(a, b *Term) *Term {
	if a.isC() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return t.T
	}
	if tless(b, a) {
		a, b = b, a
	}
	return t.mk(OBOr, 0, a, b, nil, 0)
}

func (t *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return t.T
	}
	if a.w != b.w {
		panic("eq width")
	}
	if a.isC() && b.isC() {
		return t.Bool(a.k == b.k)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return t.F
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return t.Not(a)
		}
	}
	if a.isC() || (!b.isC() && tless(b, a)) {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return t.F
			}
			return t.Eq(a.a, t.Const(b.k, a.a.w))
		case OSext:
			if uint64(sext64(b.k, a.a.w))&mask(a.w) != b.k {
				return t.F
			}
			return t.Eq(a.a, t.Const(b.k, a.a.w))
		case OIte:
			if (a.b.isC() || a.c.isC()) && a.size < 4096 {
				return t.Ite(a.a, t.Eq(a.b, b), t.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isC() {
				return t.Eq(a.a, t.Const(b.k-a.b.k, a.w))
			}
		case OXor:
			if a.b.isC() {
				return t.Eq(a.a, t.Const(b.k^a.b.k, a.w))
			}
		case ONot:
			return t.Eq(a.a, t.Const(^b.k, a.w))
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return t.Eq(a.a, b.a)
	}
	return t.mk(OEq, 0, a, b, nil, 0)
}

func (t *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return t.F
	}
	if a.hi < b.lo {
		return t.T
	}
	if a.lo >= b.hi {
		return t.F
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return t.Ult(a.a, b.a)
	}
	if b.isC() {
		if b.k == 1 {
			return t.Eq(a, t.Const(0, a.w))
		}
		if a.op == OZext { // b.k <= mask guaranteed by ranges above
			if b.k <= mask(a.a.w) {
				return t.Ult(a.a, t.Const(b.k, a.a.w))
			}
		}
		if a.op == OIte && (a.b.isC() || a.c.isC()) && a.size < 4096 {
			return t.Ite(a.a, t.Ult(a.b, b), t.Ult(a.c, b))
		}
	}
	if a.isC() {
		if b.op == OZext && a.k <= mask(b.a.w) {
			return t.Ult(t.Const(a.k, b.a.w), b.a)
		}
		if b.op == OIte && (b.b.isC() || b.c.isC()) && b.size < 4096 {
			return t.Ite(b.a, t.Ult(a, b.b), t.Ult(a, b.c))
		}
		if a.k == b.hi-1 && b.hi == mask(b.w) {
			return t.Eq(b, t.Const(b.hi, b.w))
		}
		// canonical: k < b  ==  !(b < k+1)
		if a.k < mask(a.w) {
			return t.Not(t.Ult(b, t.Const(a.k+1, a.w)))
		}
	}
	return t.mk(OUlt, 0, a, b, nil, 0)
}

func (t *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return t.F
	}
	if a.isC() && b.isC() {
		return t.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	h := uint64(1) << (a.w - 1)
	an, bn := a.hi < h, b.hi < h // both known non-negative
	if an && bn {
		return t.Ult(a, b)
	}
	aneg, bneg := a.lo >= h, b.lo >= h
	if an && bneg {
		return t.F
	}
	if aneg && bn {
		return t.T
	}
	if aneg && bneg {
		return t.Ult(a, b)
	}
	if b.isC() && a.op == OIte && (a.b.isC() || a.c.isC()) && a.size < 4096 {
		return t.Ite(a.a, t.Slt(a.b, b), t.Slt(a.c, b))
	}
	if a.isC() && b.op == OIte && (b.b.isC() || b.c.isC()) && b.size < 4096 {
		return t.Ite(b.a, t.Slt(a, b.b), t.Slt(a, b.c))
	}
	if a.isC() && sext64(a.k, a.w) < sext64(mask(a.w)>>1, a.w) {
		return t.Not(t.Slt(b, t.Const(a.k+1, a.w)))
	}
	if a.op == OSext && b.isC() {
		aw := a.a.w
		v := sext64(b.k, b.w)
		lo, hi := -(int64(1) << (aw - 1)), int64(1)<<(aw-1)-1
		if v > hi {
			return t.T
		}
		if v <= lo {
			return t.F
		}
		return t.Slt(a.a, t.Const(uint64(v), aw))
	}
	return t.mk(OSlt, 0, a, b, nil, 0)
}

// Model maps variables (by index in the Terms table) to values.
type Model struct {
	gen  uint64
	vals []uint64
}

var modelGen uint64

func (t *Terms) Eval(x *Term, m *Model) uint64 {
	if x.op == OConst {
		return x.k
	}
	if x.evalGen == m.gen {
		return x.evalVal
	}
	var v uint64
	switch x.op {
	case OVar:
		if int(x.k) < len(m.vals) {
			v = m.vals[x.k]
		}
	case OIte:
		if t.Eval(x.a, m) != 0 {
			v = t.Eval(x.b, m)
		} else {
			v = t.Eval(x.c, m)
		}
	default:
		a := t.Eval(x.a, m)
		var b uint64
		if x.b != nil {
			b = t.Eval(x.b, m)
		}
		v = evalOp(x.op, x.w, x.a.w, a, b, 0)
	}
	x.evalGen = m.gen
	x.evalVal = v
	return v
}
