package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
)

type tokenT = token.Token

var typesByte types.Type = types.Typ[types.Uint8]

type exitPanic struct{ code int }

// functions summarised as terms instead of being forked through
var mergeFns = map[string]bool{
	"unicode/utf8.DecodeRuneInString":    true,
	"unicode/utf8.DecodeRune":            true,
	"unicode/utf8.RuneLen":               true,
	"unicode/utf8.ValidRune":             true,
	"unicode/utf8.FullRune":              true,
	"unicode/utf8.FullRuneInString":      true,
	"(*regexp/syntax.Inst).MatchRunePos": true,
	"(*regexp/syntax.Inst).MatchRune":    true,
	"regexp/syntax.IsWordChar":           true,
	"regexp.onePassNext":                 true,
	"regexp.newLazyFlag":                 true,
	"(regexp.lazyFlag).match":            true,
	"unicode.IsSpace":                    true,
	"unicode.IsPrint":                    true,
	"unicode.IsGraphic":                  true,
	"unicode.IsLetter":                   true,
	"unicode.IsDigit":                    true,
	"unicode.IsNumber":                   true,
	"unicode.IsUpper":                    true,
	"unicode.IsLower":                    true,
	"unicode.IsControl":                  true,
	"unicode.IsPunct":                    true,
	"unicode.ToLower":                    true,
	"unicode.ToUpper":                    true,
	"strconv.IsPrint":                    true,
	"internal/strconv.IsPrint":           true,
	"internal/strconv.isPrint":           true,
	"go/scanner.isLetter":                true,
	"go/scanner.isDigit":                 true,
	"go/scanner.isHex":                   true,
	"go/scanner.isDecimal":               true,
	"go/scanner.lower":                   true,
	"go/scanner.digitVal":                true,
}

// package initialisers that are not run (runtime-internal)
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/runtime/maps": true, "internal/poll": true,
	"reflect": true, "internal/reflectlite": true, "internal/godebug": true, "net": true,
}

var reflectInterp = map[string]bool{
	"(reflect.Kind).String":              true,
	"(reflect.StructTag).Get":            true,
	"(reflect.StructTag).Lookup":         true,
	"(*reflect.ValueError).Error":        true,
	"(reflect.ChanDir).String":           true,
	"(reflect.Method).IsExported":        true,
	"(reflect.StructField).IsExported":   true,
	"(internal/reflectlite.Kind).String": true,
}

// functions that are replaced only in some situations
var preIntr map[string]func(w *W, args []V) (V, bool)

var intrinsics map[string]func(w *W, args []V) V

func nopI(w *W, a []V) V { return V{} }

func tup(vs ...V) V { return V{r: &Agg{vs}} }

func iV(i int) V { return V{n: uint64(int64(i))} }

func (w *W) errno(e int) V {
	p := w.prog.ImportedPackage("syscall")
	return V{r: &Iface{t: w.rt(p.Type("Errno").Type()), v: V{n: uint64(e)}}}
}

func (w *W) pathErr(op, name string, e int) V {
	p := w.prog.ImportedPackage("io/fs")
	t := p.Type("PathError").Type()
	ag := &Agg{[]V{sStr(op), sStr(name), w.errno(e)}}
	return V{r: &Iface{t: w.rt(types.NewPointer(t)), v: V{r: &V{r: ag}}}}
}

func (w *W) globalNamed(pkg, name string) V {
	p := w.prog.ImportedPackage(pkg)
	return *w.global(p.Var(name))
}

func (w *W) cstr(v V, what string) string {
	s, ok := concStr(v)
	if ok {
		return s
	}
	// concretise a symbolic string byte by byte (forks)
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		if b.t != nil {
			out[i] = byte(w.concretize(b.t))
		} else {
			out[i] = b.c
		}
	}
	_ = what
	return string(out)
}

func (w *W) newStrSlice(ss []string) V {
	el := make([]V, len(ss))
	for i, s := range ss {
		el[i] = sStr(s)
	}
	return mkSlice(el)
}

// byte-sequence view over a string or []byte value
func seqBytes(v V) []SB {
	switch r := v.r.(type) {
	case nil:
		return nil
	case string, *SStr:
		return strBytes(v)
	case *V:
		_ = r
		el := sliceElems(v)
		out := make([]SB, len(el))
		for i := range el {
			if t, ok := el[i].r.(*Term); ok {
				out[i].t = t
			} else {
				out[i].c = byte(el[i].n)
			}
		}
		return out
	}
	panic(engineErr("seqBytes"))
}

func (w *W) sbEq(a, b SB) V {
	if a.t == nil && b.t == nil {
		return boolV(a.c == b.c)
	}
	return w.boolT(w.terms.Eq(w.sbT(a), w.sbT(b)))
}

func vSB(v V) SB {
	if t, ok := v.r.(*Term); ok {
		return SB{t: t}
	}
	return SB{c: byte(v.n)}
}

func (w *W) indexByte(s []SB, c SB) int {
	for i := range s {
		if w.truth(w.sbEq(s[i], c)) {
			return i
		}
	}
	return -1
}

func (w *W) seqEq(a, b []SB) V {
	if len(a) != len(b) {
		return V{}
	}
	return w.strEq(normStr(a), normStr(b))
}

func (w *W) cmpSeq(a, b V) V {
	x, y := normStr(seqBytes(a)), normStr(seqBytes(b))
	lt, eq := w.strLess(x, y), w.strEq(x, y)
	tl, ok1 := lt.r.(*Term)
	te, ok2 := eq.r.(*Term)
	if !ok1 && !ok2 {
		if eq.n != 0 {
			return V{}
		}
		if lt.n != 0 {
			return iV(-1)
		}
		return iV(1)
	}
	T := w.terms
	if !ok1 {
		tl = T.Bool(lt.n != 0)
	}
	if !ok2 {
		te = T.Bool(eq.n != 0)
	}
	m1 := ^uint64(0)
	return w.termV(T.Ite(te, T.Const(0, 64), T.Ite(tl, T.Const(m1, 64), T.Const(1, 64))), w.rt(types.Typ[types.Int]))
}

func (w *W) indexSeq(s, sub []SB) int {
	if len(sub) == 0 {
		return 0
	}
	for i := 0; i+len(sub) <= len(s); i++ {
		if w.truth(w.seqEq(s[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func (w *W) atomicAdd(a []V, t *RType) V {
	p := w.ptr(a[0])
	n := V{n: normK(p.n+a[1].n, t.w, t.signed)}
	w.store(p, n)
	return n
}

func rawEq(a, b V) bool {
	if a.n != b.n {
		return false
	}
	return a.r == b.r
}

func init() {
	I := map[string]func(w *W, a []V) V{}
	intrinsics = I
	preIntr = map[string]func(w *W, args []V) (V, bool){
		"(*fmt.fmt).fmtInteger": func(w *W, a []V) (V, bool) {
			if _, sym := a[1].r.(*Term); !w.opaqueNums || !sym {
				return V{}, false
			}
			pk := w.prog.ImportedPackage("fmt")
			f := w.prog.LookupMethod(types.NewPointer(pk.Type("fmt").Type()), pk.Pkg, "padString")
			return w.call(w.fnOf(f), []V{a[0], sStr("#")}, nil), true
		},
		"(*fmt.fmt).fmtQ": func(w *W, a []V) (V, bool) {
			if _, conc := concStr(a[1]); !w.opaqueQuotes || conc {
				return V{}, false
			}
			pk := w.prog.ImportedPackage("fmt")
			f := w.prog.LookupMethod(types.NewPointer(pk.Type("fmt").Type()), pk.Pkg, "padString")
			return w.call(w.fnOf(f), []V{a[0], sStr("?")}, nil), true
		},
	}
	alias := func(f func(w *W, a []V) V, names ...string) {
		for _, n := range names {
			I[n] = f
		}
	}

	// ---- bytealg
	alias(func(w *W, a []V) V { return iV(w.indexByte(seqBytes(a[0]), vSB(a[1]))) },
		"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte")
	alias(func(w *W, a []V) V {
		n := 0
		c := vSB(a[1])
		for _, b := range seqBytes(a[0]) {
			if w.truth(w.sbEq(b, c)) {
				n++
			}
		}
		return iV(n)
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	alias(func(w *W, a []V) V { return w.cmpSeq(a[0], a[1]) },
		"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare")
	alias(func(w *W, a []V) V { return w.seqEq(seqBytes(a[0]), seqBytes(a[1])) }, "internal/bytealg.Equal", "bytes.Equal")
	alias(func(w *W, a []V) V { return iV(w.indexSeq(seqBytes(a[0]), seqBytes(a[1]))) },
		"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index")
	alias(func(w *W, a []V) V {
		s, c := seqBytes(a[0]), vSB(a[1])
		for i := len(s) - 1; i >= 0; i-- {
			if w.truth(w.sbEq(s[i], c)) {
				return iV(i)
			}
		}
		return iV(-1)
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	alias(func(w *W, a []V) V { // MakeNoZero
		n := w.concInt(a[0])
		if n == 0 {
			return V{r: emptyBase}
		}
		return mkSlice(make([]V, n))
	}, "internal/bytealg.MakeNoZero")
	alias(func(w *W, a []V) V { return a[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/abi.NoEscapePtr")

	// ---- strings.Builder copyCheck
	alias(nopI, "(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"runtime.AddCleanup", "internal/race.Acquire", "internal/race.Release", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock",
		"internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault",
		"internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat", "runtime.LockOSThread", "runtime.UnlockOSThread")
	alias(func(w *W, a []V) V { return V{} }, "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).Name")
	I["internal/godebug.New"] = func(w *W, a []V) V {
		p := w.prog.ImportedPackage("internal/godebug")
		z := zeroV(w.rt(p.Type("Setting").Type()))
		return V{r: &z}
	}
	I["runtime.NumCPU"] = func(w *W, a []V) V { return iV(1) }
	I["runtime.GOMAXPROCS"] = func(w *W, a []V) V { return iV(1) }
	I["runtime.NumGoroutine"] = func(w *W, a []V) V { return iV(1) }
	I["runtime.Callers"] = func(w *W, a []V) V { return iV(0) }
	I["runtime.Caller"] = func(w *W, a []V) V { return tup(V{}, V{}, V{}, V{}) }
	I["runtime.Stack"] = func(w *W, a []V) V { return iV(0) }
	I["runtime/debug.Stack"] = func(w *W, a []V) V { return V{} }
	I["runtime.FuncForPC"] = func(w *W, a []V) V { return V{} }
	I["(*runtime.Func).Name"] = func(w *W, a []V) V { return sStr("func") }

	// ---- sync
	I["(*sync.WaitGroup).Go"] = func(w *W, a []V) V {
		w.goRuns++
		w.callV(a[1], nil)
		w.goRuns--
		return V{}
	}
	lockI := func(w *W, a []V) V { w.lock(a[0].r, true); return V{} }
	unlockI := func(w *W, a []V) V { w.unlock(a[0].r); return V{} }
	alias(lockI, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	alias(unlockI, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Unlock")
	alias(func(w *W, a []V) V { w.lock(a[0].r, false); return V{} }, "(*sync.RWMutex).RLock")
	I["(*sync.Once).Do"] = func(w *W, a []V) V {
		ag := w.ptr(a[0]).r.(*Agg)
		c := &ag.f[len(ag.f)-2]
		for {
			in, ok := c.r.(*Agg)
			if !ok {
				break
			}
			c = &in.f[len(in.f)-1]
		}
		if c.n != 0 {
			return V{}
		}
		return w.quietly(func() V {
			w.store(c, V{n: 1})
			w.callV(a[1], nil)
			return V{}
		})
	}
	alias(nopI,
		"(*sync.WaitGroup).Add", "runtime.Gosched", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait")
	alias(func(w *W, a []V) V { w.lock(a[0].r, true); return V{n: 1} }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	I["(*sync.Pool).Get"] = func(w *W, a []V) V { return w.poolGet(a[0]) }
	I["(*sync.Pool).Put"] = func(w *W, a []V) V { w.poolPut(a[0], a[1]); return V{} }
	smap := func(w *W, p V) *MapV {
		ag := w.ptr(p).r.(*Agg)
		s := &ag.f[0]
		if m, ok := s.r.(*MapV); ok {
			return m
		}
		anyT := types.Universe.Lookup("any").Type()
		m := newMap(w.rt(types.NewMap(anyT, anyT)))
		w.store(s, V{r: m})
		return m
	}
	I["(*sync.Map).Load"] = func(w *W, a []V) V {
		m := smap(w, a[0])
		if i := w.mapFind(m, a[1]); i >= 0 {
			return tup(m.ents[i].v, V{n: 1})
		}
		return tup(V{}, V{})
	}
	I["(*sync.Map).Store"] = func(w *W, a []V) V { w.mapSet(smap(w, a[0]), a[1], a[2]); return V{} }
	I["(*sync.Map).LoadOrStore"] = func(w *W, a []V) V {
		m := smap(w, a[0])
		if i := w.mapFind(m, a[1]); i >= 0 {
			return tup(m.ents[i].v, V{n: 1})
		}
		w.mapSet(m, a[1], a[2])
		return tup(a[2], V{})
	}
	I["(*sync.Map).Delete"] = func(w *W, a []V) V { w.mapDelete(smap(w, a[0]), a[1]); return V{} }
	I["(*sync.Map).Range"] = func(w *W, a []V) V {
		m := smap(w, a[0])
		for _, e := range append([]MapEnt(nil), m.ents...) {
			if !e.del && !w.truth(w.callV(a[1], []V{e.k, e.v})) {
				break
			}
		}
		return V{}
	}

	// ---- atomics
	for _, t := range []struct {
		n string
		k types.BasicKind
	}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}, {"Pointer", types.UnsafePointer}} {
		k := t.k
		I["sync/atomic.Load"+t.n] = func(w *W, a []V) V { return load(w.ptr(a[0])) }
		I["sync/atomic.Store"+t.n] = func(w *W, a []V) V { w.store(w.ptr(a[0]), a[1]); return V{} }
		I["sync/atomic.Swap"+t.n] = func(w *W, a []V) V {
			p := w.ptr(a[0])
			o := load(p)
			w.store(p, a[1])
			return o
		}
		I["sync/atomic.CompareAndSwap"+t.n] = func(w *W, a []V) V {
			p := w.ptr(a[0])
			if rawEq(*p, a[1]) {
				w.store(p, a[2])
				return V{n: 1}
			}
			return V{}
		}
		I["sync/atomic.Add"+t.n] = func(w *W, a []V) V { return w.atomicAdd(a, w.rt(types.Typ[k])) }
		I["sync/atomic.Or"+t.n] = func(w *W, a []V) V {
			p := w.ptr(a[0])
			o := *p
			w.store(p, V{n: o.n | a[1].n})
			return o
		}
		I["sync/atomic.And"+t.n] = func(w *W, a []V) V {
			p := w.ptr(a[0])
			o := *p
			w.store(p, V{n: o.n & a[1].n})
			return o
		}
	}
	// atomic.Value
	I["(*sync/atomic.Value).Load"] = func(w *W, a []V) V { return w.ptr(a[0]).r.(*Agg).f[0] }
	I["(*sync/atomic.Value).Store"] = func(w *W, a []V) V { w.store(&w.ptr(a[0]).r.(*Agg).f[0], a[1]); return V{} }
	// atomic.Pointer[T] methods (generic)
	I["(*sync/atomic.Pointer).Load"] = func(w *W, a []V) V { ag := w.ptr(a[0]).r.(*Agg); return ag.f[len(ag.f)-1] }
	atp := func(w *W, v V) *V { ag := w.ptr(v).r.(*Agg); return &ag.f[len(ag.f)-1] }
	alias(func(w *W, a []V) V { return *atp(w, a[0]) }, "(*sync/atomic.Pointer[T]).Load")
	alias(func(w *W, a []V) V { w.store(atp(w, a[0]), a[1]); return V{} }, "(*sync/atomic.Pointer[T]).Store")
	alias(func(w *W, a []V) V { p := atp(w, a[0]); o := *p; w.store(p, a[1]); return o }, "(*sync/atomic.Pointer[T]).Swap")
	alias(func(w *W, a []V) V {
		p := atp(w, a[0])
		if rawEq(*p, a[1]) {
			w.store(p, a[2])
			return V{n: 1}
		}
		return V{}
	}, "(*sync/atomic.Pointer[T]).CompareAndSwap")

	for k, f := range I {
		if f := f; strings.HasPrefix(k, "sync/atomic.") || strings.HasPrefix(k, "(*sync/atomic") || strings.HasPrefix(k, "(*sync.Map)") {
			I[k] = func(w *W, a []V) V { return w.quietly(func() V { return f(w, a) }) }
		}
	}

	// ---- math
	f1 := func(name string, f func(float64) float64) {
		I["math."+name] = func(w *W, a []V) V { return fV(f(toF(a[0]))) }
		I["math.arch"+name] = I["math."+name]
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Exp", math.Exp)
	f1("Log", math.Log)
	f1("Round", math.Round)
	f1("RoundToEven", math.RoundToEven)
	I["math.Pow"] = func(w *W, a []V) V { return fV(math.Pow(toF(a[0]), toF(a[1]))) }
	I["math.Mod"] = func(w *W, a []V) V { return fV(math.Mod(toF(a[0]), toF(a[1]))) }
	I["math.Max"] = func(w *W, a []V) V { return fV(math.Max(toF(a[0]), toF(a[1]))) }
	I["math.Min"] = func(w *W, a []V) V { return fV(math.Min(toF(a[0]), toF(a[1]))) }
	I["math.Float64bits"] = func(w *W, a []V) V { return V{n: a[0].n} }
	I["math.Float64frombits"] = func(w *W, a []V) V { return V{n: a[0].n} }
	I["math.Float32bits"] = func(w *W, a []V) V { return V{n: uint64(math.Float32bits(float32(toF(a[0]))))} }
	I["math.Float32frombits"] = func(w *W, a []V) V { return fV(float64(math.Float32frombits(uint32(a[0].n)))) }

	// ---- time
	I["time.now"] = func(w *W, a []V) V { return tup(V{n: 1700000000}, V{}, V{n: 1}) }
	I["time.runtimeNow"] = I["time.now"]
	I["time.Now"] = func(w *W, a []V) V {
		p := w.prog.ImportedPackage("time")
		z := zeroV(w.rt(p.Type("Time").Type()))
		// wall=0, ext = seconds since year 1
		z.r.(*Agg).f[1] = V{n: uint64(1700000000 + 62135596800)}
		return z
	}
	I["time.Sleep"] = nopI
	I["time.Since"] = func(w *W, a []V) V { return V{} }
	I["time.runtimeNano"] = func(w *W, a []V) V { return V{n: 1} }

	// ---- hashing / randomness
	I["runtime.rand"] = func(w *W, a []V) V { return V{n: 0x1234567} }
	I["math/rand.runtime_rand"] = I["runtime.rand"]
	I["internal/runtime/maps.rand"] = I["runtime.rand"]

	// ---- internal/bisect, unique etc: unsupported by default

	// ---- errors: pointer identity helpers
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/stringslite.IndexByte"] = I["strings.IndexByte"]

	// ---- regexp: FindAll etc interpreted from source

	// ---- unsafe-based conversions in strconv/bytes
	I["internal/strconv.unsafeString"] = func(w *W, a []V) V { return bytesToStr(sliceElems(a[0])) }
	I["strconv.unsafeString"] = I["internal/strconv.unsafeString"]

	// ---- terminal / platform
	I["golang.org/x/term.IsTerminal"] = func(w *W, a []V) V { return V{} }
	I["golang.org/x/sys/unix.IoctlGetTermios"] = func(w *W, a []V) V { return tup(V{}, w.errno(25)) }
	I["golang.org/x/sys/unix.IoctlGetWinsize"] = func(w *W, a []V) V { return tup(V{}, w.errno(25)) }
	I["syscall.Getpagesize"] = func(w *W, a []V) V { return iV(4096) }

	// ---- verif API
	verifIntrinsics(I)
	osIntrinsics(I)
	reflectIntrinsics(I)
}

const vp = "github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif."

func (w *W) lbl(v V) string {
	s, ok := concStr(v)
	if !ok {
		panic(engineErr("symbolic label"))
	}
	return s
}

func verifIntrinsics(I map[string]func(w *W, a []V) V) {
	I[vp+"Byte"] = func(w *W, a []V) V { return V{r: w.freshVar(w.lbl(a[0]), 8)} }
	I[vp+"Bool"] = func(w *W, a []V) V { return V{r: w.freshVar(w.lbl(a[0]), 0)} }
	I[vp+"Uint16"] = func(w *W, a []V) V { return V{r: w.freshVar(w.lbl(a[0]), 16)} }
	I[vp+"Uint32"] = func(w *W, a []V) V { return V{r: w.freshVar(w.lbl(a[0]), 32)} }
	I[vp+"Rune"] = I[vp+"Uint32"]
	I[vp+"Uint64"] = func(w *W, a []V) V { return V{r: w.freshVar(w.lbl(a[0]), 64)} }
	I[vp+"Int64"] = I[vp+"Uint64"]
	I[vp+"AnyInt"] = I[vp+"Uint64"]
	I[vp+"Int"] = func(w *W, a []V) V {
		T := w.terms
		lo, hi := int64(a[1].n), int64(a[2].n)
		if lo > hi {
			panic(pathEnd{kind: endAssume})
		}
		if lo >= 0 && hi < 256 { // narrow variable keeps formulas small
			v := w.freshVar(w.lbl(a[0]), 8)
			t := T.Zext(v, 64)
			c := T.And(T.Not(T.Ult(t, T.Const(uint64(lo), 64))), T.Not(T.Ult(T.Const(uint64(hi), 64), t)))
			w.assume(w.boolT(c))
			return w.termV(t, w.rt(types.Typ[types.Int]))
		}
		t := w.freshVar(w.lbl(a[0]), 64)
		c := T.And(T.Not(T.Slt(t, T.Const(uint64(lo), 64))), T.Not(T.Slt(T.Const(uint64(hi), 64), t)))
		w.assume(w.boolT(c))
		return V{r: t}
	}
	I[vp+"Choose"] = func(w *W, a []V) V {
		n := int(a[1].n)
		if n <= 1 {
			return V{}
		}
		T := w.terms
		v := w.freshVar(w.lbl(a[0]), 8)
		w.assume(w.boolT(T.Ult(v, T.Const(uint64(n), 8))))
		return iV(w.concretize(v))
	}
	mkBytes := func(w *W, a []V) []V {
		n := w.concInt(a[1])
		el := make([]V, n)
		for i := range el {
			el[i] = V{r: w.freshVar(w.lbl(a[0]), 8)}
		}
		return el
	}
	I[vp+"Bytes"] = func(w *W, a []V) V {
		el := mkBytes(w, a)
		if len(el) == 0 {
			return V{r: emptyBase}
		}
		return mkSlice(el)
	}
	I[vp+"String"] = func(w *W, a []V) V { return bytesToStr(mkBytes(w, a)) }
	I[vp+"StringIn"] = func(w *W, a []V) V {
		el := mkBytes(w, a)
		set := strBytes(a[2])
		for _, e := range el {
			w.assume(w.inSet(vSB(e), set))
		}
		return bytesToStr(el)
	}
	I[vp+"In"] = func(w *W, a []V) V { return w.inSet(vSB(a[0]), strBytes(a[1])) }
	I[vp+"And"] = func(w *W, a []V) V { return w.and(a[0], a[1]) }
	I[vp+"Or"] = func(w *W, a []V) V { return w.notV(w.and(w.notV(a[0]), w.notV(a[1]))) }
	I[vp+"Implies"] = func(w *W, a []V) V { return w.notV(w.and(a[0], w.notV(a[1]))) }
	I[vp+"Contains"] = func(w *W, a []V) V { // term-level substring test
		s, sub := strBytes(a[0]), strBytes(a[1])
		r := V{}
		for i := 0; i+len(sub) <= len(s); i++ {
			r = w.notV(w.and(w.notV(r), w.notV(w.seqEq(s[i:i+len(sub)], sub))))
		}
		return r
	}
	I[vp+"Assume"] = func(w *W, a []V) V { w.assume(a[0]); return V{} }
	I[vp+"Assert"] = func(w *W, a []V) V { w.assert(a[0], w.showStr(a[1])); return V{} }
	I[vp+"Reach"] = func(w *W, a []V) V { w.reached[w.lbl(a[0])] = true; return V{} }
	I[vp+"Symbolic"] = func(w *W, a []V) V { return V{n: 1} }
	I[vp+"OpaqueQuotes"] = func(w *W, a []V) V { w.opaqueQuotes = a[0].n != 0; return V{} }
	I[vp+"OpaqueNumbers"] = func(w *W, a []V) V { w.opaqueNums = a[0].n != 0; return V{} }
	I[vp+"Concurrently"] = func(w *W, a []V) V { w.concurrently(a[0], a[1]); return V{} }
	I[vp+"PermuteMaps"] = func(w *W, a []V) V { w.permMaps = a[0].n != 0; return V{} }
	I[vp+"LimitAlloc"] = nopI
	I[vp+"Param"] = func(w *W, a []V) V {
		if v, ok := w.x.params[w.lbl(a[0])]; ok {
			return iV(v)
		}
		return a[1]
	}
	I[vp+"Concrete"] = func(w *W, a []V) V { return iV(w.concInt(a[0])) }
	I[vp+"ConcreteStr"] = func(w *W, a []V) V { return sStr(w.cstr(a[0], "")) }
	I[vp+"ObserveS"] = func(w *W, a []V) V {
		w.obs = append(w.obs, obsRec{w.lbl(a[0]), a[1], w.rt(types.Typ[types.String])})
		return V{}
	}
	I[vp+"ObserveI"] = func(w *W, a []V) V {
		w.obs = append(w.obs, obsRec{w.lbl(a[0]), a[1], w.rt(types.Typ[types.Int])})
		return V{}
	}
	I[vp+"ObserveB"] = func(w *W, a []V) V {
		w.obs = append(w.obs, obsRec{w.lbl(a[0]), a[1], w.rt(types.Typ[types.Bool])})
		return V{}
	}
	I[vp+"FileLimit"] = func(w *W, a []V) V {
		w.vfs.limit = int(int64(a[0].n))
		return V{}
	}
	// Tool(name, execute func(), args []string, stdin string, limit int) Result
	I[vp+"runTool"] = func(w *W, a []V) V {
		mark := len(w.undo)
		f := w.vfs
		args := []V{a[0]}
		args = append(args, sliceElems(a[2])...)
		f.args = args
		f.stdin = nil
		for _, b := range strBytes(a[3]) {
			f.stdin = append(f.stdin, sbV(b))
		}
		f.inOff = 0
		f.stdout, f.stderr = nil, nil
		f.limit = int(int64(a[4].n))
		// os.Args is an ordinary variable
		osargs := w.global(w.prog.ImportedPackage("os").Var("Args"))
		w.store(osargs, mkSlice(append([]V(nil), args...)))
		code := 0
		fr, sp := w.fr, w.sp
		pan := V{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch p := r.(type) {
					case exitPanic:
						code = p.code
					case *goPanic:
						code = 2
						w.fr = fr
						pan = sStr("panic: " + w.panicText(p.v) + " at " + p.where)
					default:
						panic(r)
					}
				}
			}()
			w.callV(a[1], nil)
		}()
		w.fr, w.sp = fr, sp
		f.limit = -1
		out, errs := bytesToStr(f.stdout), bytesToStr(f.stderr)
		f.stdout, f.stderr = nil, nil
		w.rollback(mark)
		return tup(iV(code), out, errs, pan)
	}
}

func (w *W) inSet(b SB, set []SB) V {
	if b.t == nil {
		for _, s := range set {
			if s.c == b.c {
				return V{n: 1}
			}
		}
		return V{}
	}
	// group into ranges
	var have [256]bool
	for _, s := range set {
		have[s.c] = true
	}
	T := w.terms
	r := T.F
	for i := 0; i < 256; i++ {
		if !have[i] {
			continue
		}
		j := i
		for j+1 < 256 && have[j+1] {
			j++
		}
		var c *Term
		if i == j {
			c = T.Eq(b.t, T.Const(uint64(i), 8))
		} else {
			c = T.And(T.Not(T.Ult(b.t, T.Const(uint64(i), 8))), T.Not(T.Ult(T.Const(uint64(j), 8), b.t)))
		}
		r = T.Or(r, c)
		i = j
	}
	return w.boolT(r)
}

func (w *W) renderObs(o obsRec) string {
	switch o.t.kind {
	case reflect.String:
		return strconv.Quote(w.showStr(o.v))
	default:
		n := o.v.n
		if t, ok := o.v.r.(*Term); ok {
			n = normK(w.terms.Eval(t, w.model), o.t.w, o.t.signed)
		}
		if o.t.kind == reflect.Bool {
			return fmt.Sprint(n != 0)
		}
		return fmt.Sprint(int64(n))
	}
}

var _ = strings.Contains
