package main

// Accesses to memory by two operations that run at the same time.
//
// verif.Concurrently(f, g) is executed as f and then g. Neither of them waits
// for the other, so an access of f and an access of g to the same memory, one
// of which writes, are unordered unless both hold one lock; what happens in
// sync.Once, sync.Map and sync/atomic is ordered by these. Memory that f itself
// allocates is only visible to g if f publishes it, which needs a write that g
// reads, so it is left out. A conflict is a candidate that the race detector
// has to confirm on the real code.

type racc struct {
	write bool
	where string
	locks []heldLock
}

type heldLock struct {
	p    any
	excl bool
}

type race struct {
	phase int
	off   int
	first map[any]*racc
	fresh map[any]bool
	held  []heldLock
	found bool
}

func (w *W) raceFn() string {
	if w.fr != nil {
		return w.fr.fn.name
	}
	return "?"
}

func (w *W) raceAcc(k any, write bool) {
	r := w.race
	if r.off > 0 || r.found {
		return
	}
	if r.phase == 1 {
		a := r.first[k]
		if a == nil {
			r.first[k] = &racc{write: write, where: w.raceFn(), locks: append([]heldLock(nil), r.held...)}
			return
		}
		if write && !a.write {
			a.write, a.where = true, w.raceFn()
		}
		a.locks = common(a.locks, r.held, true)
		return
	}
	a := r.first[k]
	if a == nil || r.fresh[k] || !write && !a.write {
		return
	}
	for _, l := range common(a.locks, r.held, false) {
		if l.excl {
			return
		}
	}
	r.found = true
	w.violation("race", "two operations at the same time use the same memory, in "+a.where+" and in "+w.raceFn(), w.model)
}

// common are the locks in both; excl of a result means that both (all) or any of them hold it alone.
func common(a, b []heldLock, all bool) (out []heldLock) {
	for _, x := range a {
		for _, y := range b {
			if x.p == y.p {
				e := x.excl || y.excl
				if all {
					e = x.excl && y.excl
				}
				out = append(out, heldLock{x.p, e})
				break
			}
		}
	}
	return out
}

func (w *W) raceCell(p *V, write bool) {
	if a, ok := p.r.(*Agg); ok {
		for i := range a.f {
			w.raceCell(&a.f[i], write)
		}
		return
	}
	w.raceAcc(p, write)
}

// raceSlice is a read of every element.
func (w *W) raceSlice(s V) {
	if s.r == nil {
		return
	}
	base, ok := s.r.(*V)
	if !ok {
		return
	}
	for i, n := 0, slen(s); i < n; i++ {
		w.raceCell(elemAt(base, i), false)
	}
}

// raceNew is memory that nobody else has.
func (w *W) raceNew(p *V) {
	if w.race.phase != 1 {
		return
	}
	if a, ok := p.r.(*Agg); ok {
		for i := range a.f {
			w.raceNew(&a.f[i])
		}
	}
	w.race.fresh[p] = true
}

func (w *W) raceNewN(base *V, n int) {
	if base == emptyBase {
		return
	}
	for i := 0; i < n; i++ {
		w.raceNew(elemAt(base, i))
	}
}

func (w *W) lock(p any, excl bool) {
	if w.race != nil {
		w.race.held = append(w.race.held, heldLock{p, excl})
	}
}

func (w *W) unlock(p any) {
	if w.race == nil {
		return
	}
	h := w.race.held
	for i := len(h) - 1; i >= 0; i-- {
		if h[i].p == p {
			w.race.held = append(append([]heldLock(nil), h[:i]...), h[i+1:]...)
			return
		}
	}
}

// quietly runs what is ordered by itself.
func (w *W) quietly(f func() V) V {
	if w.race == nil {
		return f()
	}
	r := w.race
	r.off++
	defer func() { r.off-- }()
	return f()
}

func (w *W) concurrently(f, g V) {
	if w.race != nil {
		panic(unsupported("Concurrently in Concurrently"))
	}
	w.race = &race{phase: 1, first: map[any]*racc{}, fresh: map[any]bool{}}
	w.poolGen++
	w.callV(f, nil)
	w.race.phase = 2
	w.race.held = nil
	w.poolGen++
	w.callV(g, nil)
	w.race = nil
	w.poolGen++
}

// poolItems is what a sync.Pool holds. Get gives the item that was put last, as
// the real one does for a goroutine that is alone.
type poolItems struct {
	gen   int
	items []V
}

func (w *W) poolCell(p V) (*V, *V) {
	ag := w.ptr(p).r.(*Agg)
	return &ag.f[1], &ag.f[len(ag.f)-1]
}

func (w *W) poolGet(p V) V {
	c, nw := w.poolCell(p)
	if it, ok := c.r.(*poolItems); ok && it.gen == w.poolGen && len(it.items) > 0 {
		n := len(it.items) - 1
		w.quietly(func() V {
			w.store(c, V{r: &poolItems{it.gen, it.items[:n:n]}})
			return V{}
		})
		return it.items[n]
	}
	if nw.r == nil {
		return V{}
	}
	return w.callV(*nw, nil)
}

func (w *W) poolPut(p, x V) {
	if x.r == nil {
		return
	}
	c, _ := w.poolCell(p)
	n := &poolItems{gen: w.poolGen}
	if it, ok := c.r.(*poolItems); ok && it.gen == w.poolGen {
		n.items = append(n.items, it.items...)
	}
	n.items = append(n.items, x)
	w.quietly(func() V {
		w.store(c, V{r: n})
		return V{}
	})
}
