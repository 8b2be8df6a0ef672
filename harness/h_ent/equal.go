package h_ent

import (
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// message is a valid message; most of its parts are there or not.
func message(label string, parts int) po.Entry {
	e := po.Entry{ID: gen.Text(label+".id", 0, 1)}
	switch verif.Choose(label+".part", parts) {
	case 0:
		e.Str = gen.Text(label+".str", 0, 1)
	case 1:
		e.Context = gen.Text(label+".ctx", 0, 1)
	case 2:
		e.Plural = gen.Text(label+".plural", 1, 1)
		// At least one, no forms and one empty form are the same translation.
		for i := gen.Len(label+".forms", 1, 2); i > 0; i-- {
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: len(e.Plurals), Str: gen.Text(label+".form", 0, 1)})
		}
	case 3:
		for i := gen.Len(label+".flags", 0, 2); i > 0; i-- {
			e.Flags = append(e.Flags, gen.Text(label+".flag", 0, 1))
		}
	case 4:
		e.Obsolete = verif.Bool(label + ".obsolete")
	case 5:
		for i := gen.Len(label+".locs", 0, 2); i > 0; i-- {
			e.Locations = append(e.Locations, po.Location{File: gen.Text(label+".file", 0, 1), Line: verif.AnyInt(label + ".line")})
		}
	case 6:
		e.Comments = []string{gen.Text(label+".comment", 0, 1)}
	case 7:
		e.ExtractedComments = []string{gen.Text(label+".extracted", 0, 1)}
	case 8:
		e.Previous = []string{gen.Text(label+".previous", 0, 1)}
	case 9:
		for i := gen.Len(label+".forms", 0, 2); i > 0; i-- {
			e.Plurals = append(e.Plurals, po.PluralEntry{ID: verif.AnyInt(label + ".form"), Str: gen.Text(label+".form", 0, 1)})
		}
	}
	return e
}

// HEqualEntry: entries are equal if and only if their identity, translation,
// flags and obsolescence are the same.
func HEqualEntry() {
	a, b := message("a", 5), message("b", 5)
	same := verif.And(gen.SameMessage(a, b), gen.SameStrs(a.Flags, b.Flags))
	verif.Assert(a.Equal(b) == same, "entries are equal exactly when they say the same")
	verif.Assert(b.Equal(a) == same, "equality is symmetric")
	verif.Assert(a.Equal(a), "an entry equals itself")
	verif.ObserveB("same", same)
	verif.Reach("end")
}

// HEqualAll: collections are equal if and only if every part of them is.
func HEqualAll() {
	var x, y po.Entries
	n, m := gen.Len("n", 0, verif.Param("n", 1)), gen.Len("m", 0, verif.Param("n", 1))
	for i := 0; i < n; i++ {
		x = append(x, message("a", 10))
	}
	for i := 0; i < m; i++ {
		y = append(y, message("b", 10))
	}
	same := gen.SameAll(x, y)
	switch verif.Choose("api", 2) {
	case 0:
		verif.Assert(x.Equal(y) == same, "entries are equal exactly when every part of them is")
		verif.Assert(y.Equal(x) == same, "equality is symmetric")
		verif.Assert(x.Equal(x), "entries equal themselves")
	case 1:
		f, g := po.File{Name: gen.Text("name", 1, 1), Entries: x}, po.File{Name: gen.Text("other", 1, 1), Entries: y}
		verif.Assert(f.Equal(g) == verif.And(same, f.Name == g.Name), "files are equal exactly when their names and entries are")
		verif.Assert(f.Equal(f), "a file equals itself")
	}
	verif.ObserveB("same", same)
	verif.Reach("end")
}

// HEqualMany: one difference among many messages is seen, wherever it is.
func HEqualMany() {
	n := verif.Param("n", 40)
	x := gen.Many(n)
	y := gen.Clone(x)
	k := []int{0, 1, n / 2, n - 2, n - 1}[verif.Choose("at", 5)]
	if verif.Choose("long", 2) == 1 {
		for _, e := range []*po.Entry{&x[k], &y[k]} {
			for i := 0; i < 30; i++ {
				e.Str += "0123456789"
				e.Comments = append(e.Comments, "c")
				e.Flags = append(e.Flags, "f")
				e.Locations = append(e.Locations, po.Location{File: "f", Line: i})
			}
		}
	}
	a, b := gen.Text("a", 1, 1), gen.Text("b", 1, 1)
	for i, e := range []*po.Entry{&x[k], &y[k]} {
		s := []string{a, b}[i]
		switch verif.Choose("part", 6) {
		case 0:
			e.Str += s
		case 1:
			e.Comments = append(e.Comments, s)
		case 2:
			e.Flags = append(e.Flags, s)
		case 3:
			e.Locations = append(e.Locations, po.Location{File: s})
		case 4:
			e.ID += s
		case 5:
			e.Previous = append(e.Previous, s)
		}
	}
	same := gen.Same(x[k], y[k])
	verif.Assert(x.Equal(y) == same && y.Equal(x) == same, "entries are equal exactly when every part of them is")
	verif.Assert((po.File{Entries: x}).Equal(po.File{Entries: y}) == same, "files are equal exactly when their names and entries are")
	verif.Assert(x.Equal(x), "entries equal themselves")
	verif.Assert(!x.Equal(x[:n-1]) && !x[:n-1].Equal(x), "collections of different lengths are not equal")
	verif.Reach("end")
}

// HEqualShared: collections that share memory are equal exactly when their elements are.
func HEqualShared() {
	k := verif.Choose("kind", 6)
	n, i, j := verif.Choose("n", 4), verif.Choose("i", 4), verif.Choose("j", 4)
	var es po.Entries
	for k := 0; k < 3; k++ {
		es = append(es, po.Entry{ID: gen.Text("id", 1, 1), Str: "s"})
	}
	cut := func(from, to int) (int, int, bool) { return from, to, from <= to }
	a0, a1, _ := cut(0, n)
	b0, b1, ok := cut(i, j)
	verif.Assume(ok)
	same := a1-a0 == b1-b0
	if same {
		for x := 0; x < a1-a0; x++ {
			same = verif.And(same, es[a0+x].ID == es[b0+x].ID)
		}
	}
	got := false
	switch k {
	case 0:
		got = es[a0:a1].Equal(es[b0:b1])
	case 1:
		got = po.File{Entries: es[a0:a1]}.Equal(po.File{Entries: es[b0:b1]})
	case 2:
		var ps po.PluralEntries
		for _, e := range es {
			ps = append(ps, po.PluralEntry{Str: e.ID})
		}
		got = ps[a0:a1].Equal(ps[b0:b1])
	case 3:
		var ls po.Locations
		for _, e := range es {
			ls = append(ls, po.Location{File: e.ID})
		}
		got = ls[a0:a1].Equal(ls[b0:b1])
	case 4:
		var fs []string
		for _, e := range es {
			fs = append(fs, e.ID)
		}
		got = po.Entry{Flags: fs[a0:a1]}.Equal(po.Entry{Flags: fs[b0:b1]})
	}
	if k == 5 { // two entries with the same part, and two with their own
		ls := []po.Location{{File: es[0].ID}, {File: es[1].ID}}
		x := po.Entries{{Locations: ls[:1]}, {Locations: ls[:1]}}
		y := po.Entries{{Locations: ls[:1:1]}, {Locations: ls[1:]}}
		if n == 1 {
			y[0].Locations = po.Locations{ls[0]}
		}
		got = x.Equal(y)
		if n == 2 {
			got = y.Equal(x)
		}
		same = es[0].ID == es[1].ID
	}
	verif.Assert(got == same, "collections are equal exactly when their elements are")
	verif.ObserveB("same", same)
	verif.Reach("end")
}

// HEqualParts: the same for the parts of entries.
func HEqualParts() {
	var a, b po.Entry
	switch verif.Choose("part", 2) {
	case 0:
		for i := gen.Len("n", 0, 2); i > 0; i-- {
			a.Locations = append(a.Locations, location("a"))
		}
		for i := gen.Len("m", 0, 2); i > 0; i-- {
			b.Locations = append(b.Locations, location("b"))
		}
		same := gen.SameLocations(a.Locations, b.Locations)
		verif.Assert(a.Locations.Equal(b.Locations) == same, "locations are equal exactly when every part of them is")
		if len(a.Locations) == 1 && len(b.Locations) == 1 {
			verif.Assert(a.Locations[0].Equal(b.Locations[0]) == same, "a location is equal exactly when every part of it is")
		}
		verif.ObserveB("same", same)
	case 1:
		for i := gen.Len("n", 0, 2); i > 0; i-- {
			a.Plurals = append(a.Plurals, po.PluralEntry{ID: verif.AnyInt("a"), Str: gen.Text("a.str", 0, 1)})
		}
		for i := gen.Len("m", 0, 2); i > 0; i-- {
			b.Plurals = append(b.Plurals, po.PluralEntry{ID: verif.AnyInt("b"), Str: gen.Text("b.str", 0, 1)})
		}
		same := gen.SamePlurals(a.Plurals, b.Plurals)
		verif.Assert(a.Plurals.Equal(b.Plurals) == same, "plural forms are equal exactly when every part of them is")
		if len(a.Plurals) == 1 && len(b.Plurals) == 1 {
			verif.Assert(a.Plurals[0].Equal(b.Plurals[0]) == same, "a plural form is equal exactly when every part of it is")
		}
		verif.ObserveB("same", same)
	}
	verif.Reach("end")
}
