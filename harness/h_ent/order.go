// Package h_ent has the harnesses on collections of entries.
package h_ent

import (
	"math"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

var fuzzy = []string{"fuzzy"}

func location(label string) po.Location {
	return po.Location{File: gen.From(label+".file", verif.Param("filemin", 1), verif.Param("file", 1), "a./"), Line: verif.AnyInt(label + ".line")}
}

// entry is an entry with the parts that orderings look at; which selects them.
func entry(which int) po.Entry {
	e := po.Entry{}
	switch which {
	case 0: // everything, briefly
		e.ID = gen.Text("id", 1, 1)
		e.Obsolete = verif.Bool("obsolete")
		if verif.Bool("fuzzy") {
			e.Flags = fuzzy
		}
		for i := gen.Len("locs", 0, verif.Param("locs", 1)); i > 0; i-- {
			e.Locations = append(e.Locations, location("loc"))
		}
	case 1: // identity
		e.ID = gen.Text("id", 0, 2)
		e.Context = gen.Text("ctx", 0, 1)
	case 2, 3: // locations
		for i := gen.Len("locs", 0, 2); i > 0; i-- {
			e.Locations = append(e.Locations, location("loc"))
		}
	case 4:
		if verif.Bool("fuzzy") {
			e.Flags = []string{"x", "fuzzy"}
		} else {
			e.Flags = []string{gen.Text("flag", 0, 1)}
		}
		e.ID = gen.Text("id", 0, 1)
	case 5:
		e.Obsolete = verif.Bool("obsolete")
		e.ID = gen.Text("id", 0, 1)
	case 6: // translations
		e.Str = gen.Text("str", 0, 1)
		if verif.Choose("plural", 2) == 1 {
			e.Plural = "p"
			for i := gen.Len("forms", 0, 2); i > 0; i-- {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: verif.AnyInt("form"), Str: gen.Text("ps", 0, 1)})
			}
		}
	}
	return e
}

var cmps = []func(a, b po.Entry) int{
	po.CompareEntry, po.CompareEntryByID, po.CompareEntryByFile, po.CompareEntryByLine,
	po.CompareEntryByFuzzy, po.CompareEntryByObsolete, po.CompareEntryByStr,
}

func sign(n int) int {
	if n < 0 {
		return -1
	} else if n > 0 {
		return 1
	}
	return 0
}

func laws[T any](cmp func(a, b T) int, a, b, c T) {
	ab, ba := cmp(a, b), cmp(b, a)
	verif.Assert(cmp(a, a) == 0, "an ordering holds everything equal to itself")
	verif.Assert(sign(ab) == -sign(ba), "an ordering is antisymmetric")
	bc, ac := cmp(b, c), cmp(a, c)
	verif.Assert(verif.Implies(verif.And(ab <= 0, bc <= 0), ac <= 0), "an ordering is transitive")
	verif.Assert(verif.Implies(verif.And(ab == 0, bc == 0), ac == 0), "what an ordering holds equal is transitive")
	verif.ObserveI("ab", sign(ab))
	verif.ObserveI("ac", sign(ac))
}

// HOrder: every ordering of entries is one.
func HOrder() {
	k := verif.Param("cmp", 0)
	laws(cmps[k], entry(k), entry(k), entry(k))
	verif.Reach("end")
}

// HOrderParts: every ordering of locations and plural forms is one.
func HOrderParts() {
	if verif.Choose("part", 2) == 0 {
		k := verif.Choose("cmp", 3)
		laws([]po.Cmp[po.Location]{po.CompareLocation, po.CompareLocationByFile, po.CompareLocationByLine}[k], location("a"), location("b"), location("c"))
	} else {
		k := verif.Choose("cmp", 3)
		f := func() po.PluralEntry { return po.PluralEntry{ID: verif.AnyInt("id"), Str: gen.Text("str", 0, 1)} }
		laws([]po.Cmp[po.PluralEntry]{po.ComparePluralEntry, po.ComparePluralEntryByID, po.ComparePluralEntryByStr}[k], f(), f(), f())
	}
	verif.Reach("end")
}

// ref is what each sort mode orders by.
func ref(mode int, a, b po.Entry) bool {
	fz := func(e po.Entry) int {
		for _, f := range e.Flags {
			if f == "fuzzy" {
				return 1
			}
		}
		return 0
	}
	ob := func(e po.Entry) int {
		if e.Obsolete {
			return 1
		}
		return 0
	}
	le := func(x, y string) bool { return x <= y }
	switch mode {
	case 1:
		return le(gen.Key(a), gen.Key(b))
	case 4:
		return fz(a) <= fz(b)
	case 5:
		return ob(a) <= ob(b)
	case 0:
		if ob(a) != ob(b) {
			return ob(a) < ob(b)
		}
		if fz(a) != fz(b) {
			return fz(a) < fz(b)
		}
		if c := cmpLocs(a.Locations, b.Locations, true, true); c != 0 {
			return c < 0
		}
		return le(gen.Key(a), gen.Key(b))
	case 2:
		return cmpLocs(a.Locations, b.Locations, true, false) <= 0
	case 3:
		return cmpLocs(a.Locations, b.Locations, false, true) <= 0
	}
	return true
}

func cmpLocs(a, b po.Locations, file, line bool) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if file {
			if a[i].File < b[i].File {
				return -1
			} else if a[i].File > b[i].File {
				return 1
			}
		}
		if line {
			if a[i].Line < b[i].Line {
				return -1
			} else if a[i].Line > b[i].Line {
				return 1
			}
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

// HSort: sorting permutes the entries into the order that the mode says.
func HSort() {
	mode := verif.Param("mode", 0)
	es := gen.Many(verif.Param("many", 0))
	for i := range es {
		es[i].Str = string([]byte{byte(' ' + i)})
	}
	for i := len(es); i < verif.Param("many", 0)+verif.Param("n", 3); i++ {
		e := entry(mode)
		for j := range e.Locations {
			e.Locations[j].File = verif.StringIn("file", 1, "ab")
		}
		e.Str = string([]byte{byte(' ' + i)})
		es = append(es, e)
	}
	src := gen.Clone(es)
	out := po.SortMode(mode).SortMethod(src)()
	verif.Assert(len(out) == len(es), "sorting keeps the number of entries")
	seen := map[string]bool{}
	for i, e := range out {
		k := int(e.Str[0] - ' ')
		verif.Assert(!seen[e.Str] && gen.Same(e, es[k]), "sorting keeps every entry")
		seen[e.Str] = true
		verif.Assert(i == 0 || ref(mode, out[i-1], e), "the entries are in order")
	}
	verif.Assert(out.IsSortedFunc(cmps[mode]), "sorted entries are reported as sorted")
	if mode == 0 {
		verif.Assert(out.IsSorted(), "sorted entries are reported as sorted")
	}
	gen.Observe("out", out)
	verif.Reach("end")
}

// HSortParts: the same for locations and plural forms.
func HSortParts() {
	n := verif.Param("n", 3)
	if verif.Choose("part", 2) == 0 {
		var ls po.Locations
		for i := 0; i < n; i++ {
			ls = append(ls, po.Location{File: verif.StringIn("file", 1, "abc"), Line: verif.AnyInt("line")})
		}
		sorted := func(l po.Locations) bool {
			for i := 1; i < len(l); i++ {
				if cmpLocs(l[i-1:i], l[i:i+1], true, true) > 0 {
					return false
				}
			}
			return true
		}
		verif.Assert(ls.IsSorted() == sorted(ls), "IsSorted is right")
		out := append(po.Locations{}, ls...).Sort()
		verif.Assert(len(out) == n && sorted(out), "locations are sorted by file and line")
		for _, l := range ls {
			a, b := 0, 0
			for i := range ls {
				if l == ls[i] {
					a++
				}
				if l == out[i] {
					b++
				}
			}
			verif.Assert(a == b, "sorting keeps every location")
		}
		verif.ObserveI("first", out[0].Line)
	} else {
		var ps po.PluralEntries
		for i := 0; i < n; i++ {
			ps = append(ps, po.PluralEntry{ID: verif.Int("id", math.MinInt, math.MaxInt), Str: gen.Text("str", 0, 1)})
		}
		sorted := func(p po.PluralEntries) bool {
			for i := 1; i < len(p); i++ {
				if p[i-1].ID > p[i].ID || p[i-1].ID == p[i].ID && p[i-1].Str > p[i].Str {
					return false
				}
			}
			return true
		}
		verif.Assert(ps.IsSorted() == sorted(ps), "IsSorted is right")
		out := append(po.PluralEntries{}, ps...).Sort()
		verif.Assert(len(out) == n && sorted(out), "plural forms are sorted by number and text")
		for _, l := range ps {
			a, b := 0, 0
			for i := range ps {
				if l == ps[i] {
					a++
				}
				if l == out[i] {
					b++
				}
			}
			verif.Assert(a == b, "sorting keeps every plural form")
		}
		verif.ObserveI("first", out[0].ID)
	}
	verif.Reach("end")
}
