package h_ent

import (
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func mergeable(l string, i int) po.Entry {
	e := po.Entry{ID: gen.Text(l+"id", 0, 1), Context: gen.Text(l+"ctx", 0, verif.Param("ctx", 0)), Comments: []string{string([]byte{byte('0' + i)})}}
	if verif.Choose(l+"plural", 2) == 1 {
		e.Plural, e.Plurals = "p", po.PluralEntries{{ID: 0, Str: gen.Text(l+"str", 1, 1)}, {ID: 1, Str: "z"}}
	} else {
		e.Str = gen.Text(l+"str", 0, 1)
	}
	if verif.Choose(l+"fuzzy", 2) == 1 {
		e.Flags = []string{"fuzzy"}
	}
	if verif.Param("obsolete", 1) == 1 {
		e.Obsolete = verif.Choose(l+"obsolete", 2) == 1
	}
	if verif.Param("loc", 1) == 1 {
		e.Locations = po.Locations{{File: "f", Line: verif.Int(l+"line", 0, 99)}, {File: "g", Line: i}}[:gen.Len(l+"locs", 0, 1)+1]
	}
	return e
}

// solved is the merge of a and b: the greater of them with the references of
// both and the greater of their translations.
func solved(a, b po.Entry) po.Entry {
	r := b
	if po.CompareEntry(a, b) > 0 {
		r = a
	}
	r = gen.CloneEntry(r)
	r.Locations = append(append(po.Locations{}, a.Locations...), b.Locations...)
	s := b
	if po.CompareEntryByStr(a, b) > 0 {
		s = a
	}
	s = gen.CloneEntry(s)
	r.Str, r.Plurals = s.Str, s.Plurals
	return r
}

// HMergers: duplicates are merged by the rule that is asked for.
func HMergers() {
	n := verif.Param("n", 2)
	var es po.Entries
	for i := 0; i < n; i++ {
		es = append(es, mergeable("e", i))
	}
	kind := verif.Choose("kind", 5)
	var prior po.Entries
	var names []string
	var f po.MergeFunc
	switch kind {
	case 0:
		f = po.SolveMerge
	case 1, 4:
		prior = po.Entries{{ID: "other", Str: "s", Locations: po.Locations{{File: "o", Line: 1}}}, {ID: gen.Text("prior", 0, 1), Str: gen.Text("pstr", 0, 1), Comments: []string{"prior"}, Locations: po.Locations{{File: "p", Line: 1}}}}
		f = po.MergeUsingPriorAsBase(prior)
		if kind == 4 {
			f = po.MergeUsingPriorityOrFallback(prior)
		}
	case 2, 3:
		names = []string{"other", gen.Text("name", 0, 1)}
		f = po.MergeAndMarkObsoleteIfNotPrioritized(names)
		if kind == 3 {
			f = po.MergeIfInPriorityList(names)
		}
	}
	src, psrc := gen.Clone(es), gen.Clone(prior)
	got := es.SolveFunc(f)
	var want po.Entries
	var keys []string
next:
	for _, b := range src {
		for j := range want {
			if keys[j] != gen.Key(b) {
				continue
			}
			a := want[j]
			listed := -1
			for k := range psrc {
				if listed == -1 && gen.Key(psrc[k]) == gen.Key(a) {
					listed = k
				}
			}
			for k := range names {
				if listed == -1 && names[k] == gen.Key(a) {
					listed = k
				}
			}
			switch {
			case kind == 1 && listed != -1:
				want[j] = solved(psrc[listed], b)
			case kind == 2 && listed == -1:
				want[j] = solved(a, b)
				want[j].Obsolete = true
			case kind == 3 && listed == -1:
			case kind == 4 && listed != -1:
				want[j] = psrc[listed]
			default:
				want[j] = solved(a, b)
			}
			continue next
		}
		want = append(want, gen.CloneEntry(b))
		keys = append(keys, gen.Key(b))
	}
	verif.Assert(len(got) == len(want), "every identity is there once")
	for i := range want {
		verif.Assert(gen.Same(got[i], want[i]), "merged by the rule that is asked for")
	}
	verif.Assert(verif.And(gen.SameAll(es, src), gen.SameAll(prior, psrc)), "the messages of the caller are left alone")
	if kind == 0 {
		verif.Assert(gen.SameAll(es.Solve(), got), "which is the default")
	}
	gen.Observe("got", got)
	verif.Reach("end")
}
