package h_ent

import (
	"errors"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// several are entries of which some may have the same identity.
func several(n int) po.Entries {
	es := gen.Many(verif.Param("many", 0))
	for i := range es {
		if i%10 == 7 { // the one before again
			es[i].ID, es[i].Context = es[i-2].ID, es[i-2].Context
		}
		if i%20 == 13 && i > 50 { // one far before
			es[i].ID, es[i].Context = es[i-50].ID, es[i-50].Context
		}
		es[i].Locations = make(po.Locations, 0, 4)
		es[i].Plural, es[i].Plurals, es[i].Str = "", nil, "z"+string(rune('A'+i))
		for j := 0; j < i%3; j++ {
			es[i].Locations = append(es[i].Locations, po.Location{File: "l", Line: i})
		}
	}
	for i := 0; i < n; i++ {
		e := po.Entry{ID: gen.Text("id", 0, verif.Param("id", 1)), Context: gen.Text("ctx", 0, verif.Param("ctx", 1))}
		e.Str = string(rune('a' + i))
		e.Locations = po.Locations{{File: "f", Line: i}, {File: "g", Line: verif.AnyInt("line")}}
		// Room that an append could write into.
		e.Locations = append(make(po.Locations, 0, 4), e.Locations...)
		e.Comments = []string{"c"}
		es = append(es, e)
	}
	return es
}

func same(a, b po.Entry) bool { return verif.And(a.ID == b.ID, a.Context == b.Context) }

// first is the index of the first entry with the identity of the i-th.
func first(es po.Entries, i int) int {
	for j := 0; j < i; j++ {
		if same(es[j], es[i]) {
			return j
		}
	}
	return i
}

// HDuplicates: duplicates are found, and only they.
func HDuplicates() {
	es := several(verif.Param("n", 3))
	src := gen.Clone(es)
	dups := 0
	for i := range es {
		if first(es, i) != i {
			dups++
		}
	}
	verif.Assert(src.HasDuplicates() == (dups > 0), "HasDuplicates is right")
	errs := src.CatchDuplicateEntries()
	verif.Assert(len(errs) == dups, "every duplicate is reported, and nothing else")
	k := 0
	for i := range es {
		if j := first(es, i); j != i {
			var at *po.InvalidEntryAtIndexError
			var d *po.DuplicatedEntryError
			verif.Assert(errors.As(errs[k], &at) && errors.As(errs[k], &d), "it is reported as a duplicate")
			verif.Assert(at.Index == i && d.OriginalIndex == j, "with its place and the place of the original")
			k++
		}
	}
	verif.Assert(len(src.Validate()) == dups, "validation reports the same")
	f := po.File{Name: "x", Entries: src}
	verif.Assert(len(f.Validate()) == dups && len(f.CatchDuplicateEntries()) == dups, "validation of a file reports the same")
	for i, e := range es {
		verif.Assert(src.Index(e.ID, e.Context) == first(es, i), "a look up gives the first entry")
		verif.Assert(f.Load(e.ID, e.Context) == es[first(es, i)].Str, "a look up gives the first translation")
		verif.Assert(src.IndexByUnifiedID(e.UnifiedID()) == first(es, i), "a look up gives the first entry")
		verif.Assert(f.LoadByUnifiedID(e.UnifiedID()) == es[first(es, i)].Str, "a look up gives the first translation")
		verif.Assert(src.ContainsUnifiedID(e.UnifiedID()), "an entry is contained")
	}
	verif.Assert(gen.SameAll(src, es), "the entries are left alone")
	verif.ObserveI("dups", dups)
	verif.Reach("end")
}

// HClean: solving duplicates leaves one entry for every identity.
func HClean() {
	es := several(verif.Param("n", 3))
	src := append(po.Entries{}, es...) // shares the memory of the locations
	before := gen.Clone(es)
	all := gen.Clone(es)
	how := verif.Choose("how", 3)
	var out po.Entries
	switch how {
	case 0:
		out = src.CleanDuplicates()
	case 1:
		out = src.Solve()
	case 2:
		out = src.SolveFunc(func(a, b po.Entry) *po.Entry { return nil })
	}
	verif.Assert(gen.SameAll(src, before), "the entries of the caller are left alone")
	for i := range es {
		l := es[i].Locations[:4]
		for _, x := range l[len(es[i].Locations):] {
			verif.Assert(x.File == "", "the memory of the caller is left alone")
		}
	}
	verif.Assert(!out.HasDuplicates(), "no duplicates remain")
	k := 0
	for i := range all {
		if first(all, i) != i {
			continue
		}
		verif.Assert(k < len(out) && same(out[k], all[i]), "every identity remains, in its first place")
		var locs po.Locations
		own := false
		for j := i; j < len(all); j++ {
			if same(all[j], all[i]) {
				locs = append(locs, all[j].Locations...)
				own = own || out[k].Str == all[j].Str
			}
		}
		verif.Assert(own, "the translation is one of those of the duplicates")
		if how != 1 {
			verif.Assert(out[k].Str == all[i].Str, "the first translation remains")
		}
		if how != 2 {
			verif.Assert(gen.SameLocations(out[k].Locations, locs), "the locations of every duplicate remain")
		}
		k++
	}
	verif.Assert(k == len(out), "nothing else is there")
	gen.Observe("out", out)
	verif.Reach("end")
}

// HFilter: the filters remove what they say and keep everything else, in order.
func HFilter() {
	n := verif.Param("n", 3)
	es := gen.Many(verif.Param("many", 0))
	for i := 0; i < n; i++ {
		e := po.Entry{ID: gen.Text("id", 0, 1), Context: gen.Text("ctx", 0, 1), Str: string(rune('a' + i)), Obsolete: verif.Bool("obsolete")}
		switch verif.Choose("flags", 3) {
		case 1:
			e.Flags = []string{"fuzzy"}
		case 2:
			e.Flags = []string{"c-format", "fuzzy"}
		}
		es = append(es, e)
	}
	src := gen.Clone(es)
	var out po.Entries
	how := verif.Choose("how", 4)
	switch how {
	case 0:
		out = src.CleanFuzzy()
	case 1:
		out = src.CleanObsoletes()
	case 2:
		out = src.CleanEmpties()
	case 3:
		out = src.CutHeader()
	}
	k := 0
	cut := false
	for _, e := range es {
		drop := false
		switch how {
		case 0:
			drop = isFuzzy(e)
		case 1:
			drop = e.Obsolete
		case 2:
			drop = e.ID == ""
		case 3:
			drop = !cut && e.ID == "" && e.Context == ""
			cut = cut || drop
		}
		if !drop {
			verif.Assert(k < len(out) && gen.Same(out[k], e), "an entry that is not to be removed is kept, in its place")
			k++
		}
	}
	verif.Assert(len(out) == k, "what is to be removed is removed")
	gen.Observe("out", out)
	verif.Reach("end")
}

// HSet: after setting an entry a look up gives it, and all others are as before.
func HSet() {
	es := several(verif.Param("n", 2))
	f := po.NewFile("x", gen.Clone(es)...)
	id := verif.String("setid", gen.Len("setid", 0, verif.Param("setid", 1))) // also with separators
	ctx := verif.String("setctx", gen.Len("setctx", 0, verif.Param("setctx", 1)))
	if verif.Param("any", 0) == 0 {
		verif.Assume(!verif.Or(strings.Contains(id, "\x04"), strings.Contains(ctx, "\x04")))
	}
	e := po.Entry{ID: id, Context: ctx, Str: []string{"new", ""}[verif.Choose("new", 2)]}
	had := f.Index(id, ctx)
	f.Set(id, ctx, e)
	verif.Assert(f.Load(id, ctx) == e.Str, "a look up gives the entry that was set")
	at := f.Index(id, ctx)
	verif.Assert(at >= 0 && gen.Same(f.Entries[at], e), "the entry that was set is there as it is")
	uid := id
	if ctx != "" {
		uid = ctx + "\x04" + id
	}
	if verif.Param("any", 0) == 0 {
		verif.Assert(f.LoadByUnifiedID(uid) == e.Str, "a look up gives the entry that was set")
	}
	n := len(es)
	if had == -1 {
		n++
	}
	verif.Assert(len(f.Entries) == n, "an entry is replaced if there is one, else added")
	for i := range es {
		if i != had {
			verif.Assert(gen.Same(f.Entries[i], es[i]), "all others are as before")
			if !same(es[i], e) {
				verif.Assert(f.Load(es[i].ID, es[i].Context) == es[first(es, i)].Str, "a look up of another gives what it gave before")
			}
		}
	}
	verif.Assert(f.Load(gen.Text("no", verif.Param("setid", 1)+1, verif.Param("setid", 1)+1), "") == "", "a look up of what is not there gives nothing")
	verif.ObserveI("had", had)
	verif.Reach("end")
}

// HValidate: an entry is invalid exactly when it is both singular and plural.
func HValidate() {
	e := po.Entry{ID: gen.Text("id", 0, 1), Str: gen.Text("str", 0, 1), Plural: gen.Text("plural", 0, 1)}
	for i := gen.Len("forms", 0, 2); i > 0; i-- {
		e.Plurals = append(e.Plurals, po.PluralEntry{ID: i, Str: gen.Text("form", 0, 1)})
	}
	bad := e.Str != "" && len(e.Plurals) > 0
	errs := e.Validate()
	verif.Assert((len(errs) > 0) == bad, "an entry is invalid exactly when it is both singular and plural")
	for _, err := range errs {
		verif.Assert(errors.Is(err, po.ErrBadPluralEntry), "the reason is given")
	}
	errs = po.Entries{{ID: "zz"}, e}.Validate()
	verif.Assert((len(errs) > 0) == bad, "so is a collection that has it")
	if bad {
		var at *po.InvalidEntryAtIndexError
		verif.Assert(errors.As(errs[0], &at) && at.Index == 1, "with its place")
	}
	verif.ObserveB("bad", bad)
	verif.Reach("end")
}

// HPluralSolve: solving plural forms removes repetitions only.
func HPluralSolve() {
	var ps po.PluralEntries
	for i := 0; i < verif.Param("n", 3); i++ {
		ps = append(ps, po.PluralEntry{ID: []int{0, 1, 11}[verif.Choose("id", 3)], Str: gen.Text("str", 0, 1)})
	}
	out := ps.Solve()
	k := 0
	for i := range ps {
		dup := false
		for j := 0; j < i; j++ {
			dup = verif.Or(dup, verif.And(ps[i].ID == ps[j].ID, ps[i].Str == ps[j].Str))
		}
		if !dup {
			verif.Assert(k < len(out) && out[k] == ps[i], "every form is kept once, in order")
			k++
		}
	}
	verif.Assert(k == len(out), "repetitions are removed")
	verif.ObserveI("n", k)
	verif.Reach("end")
}
