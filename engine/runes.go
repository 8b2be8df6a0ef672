package main

import (
	"strconv"
	"sync"
	"unicode"
)

// Predicates on runes of the standard library. For a symbolic rune their tables
// are encoded as intervals, searched the way the library searches them.

var runePreds = map[string]func(rune) bool{
	"strconv.IsPrint":          strconv.IsPrint,
	"internal/strconv.IsPrint": strconv.IsPrint,
	"unicode.IsPrint":          unicode.IsPrint,
	"unicode.IsGraphic":        unicode.IsGraphic,
	"unicode.IsSpace":          unicode.IsSpace,
	"unicode.IsLetter":         unicode.IsLetter,
	"unicode.IsDigit":          unicode.IsDigit,
	"unicode.IsNumber":         unicode.IsNumber,
	"unicode.IsUpper":          unicode.IsUpper,
	"unicode.IsLower":          unicode.IsLower,
	"unicode.IsControl":        unicode.IsControl,
	"unicode.IsPunct":          unicode.IsPunct,
}

// bounds are the runes at which a predicate changes; it is false for the first.
type runeTable struct {
	once   sync.Once
	first  bool
	bounds []uint64
}

var runeTables = map[string]*runeTable{}

func init() {
	for name, f := range runePreds {
		t := &runeTable{}
		runeTables[name] = t
		f := f
		preIntr[name] = func(w *W, a []V) (V, bool) {
			r, ok := a[0].r.(*Term)
			if !ok {
				return V{}, false
			}
			t.once.Do(func() {
				last := f(0)
				t.first = last
				for c := rune(1); c <= 0x110000; c++ {
					if v := f(c); v != last {
						t.bounds = append(t.bounds, uint64(c))
						last = v
					}
				}
				// Everything above, which includes the negative numbers.
				if v := f(-1); v != last {
					t.bounds = append(t.bounds, 0x110001)
				}
			})
			return tV(w.runeIn(r, t, 0, len(t.bounds))), true
		}
	}
}

func tV(t *Term) V {
	if t.isC() {
		return V{n: t.k}
	}
	return V{r: t}
}

// runeIn searches the bounds from i to j.
func (w *W) runeIn(r *Term, t *runeTable, i, j int) *Term {
	T := w.terms
	for i < j && t.bounds[i] <= r.lo {
		i++
	}
	for i < j && t.bounds[j-1] > r.hi {
		j--
	}
	if i == j {
		return T.Bool(t.first != (i%2 == 1))
	}
	m := (i + j) / 2
	return T.Ite(T.Ult(r, T.Const(t.bounds[m], r.w)), w.runeIn(r, t, i, m), w.runeIn(r, t, m+1, j))
}
