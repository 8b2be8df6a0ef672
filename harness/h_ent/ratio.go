package h_ent

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// HRatio: how alike messages are is a percentage, and 100 for the same ones.
func HRatio() {
	n := verif.Param("n", 1)
	mk := func(l string) po.Entry {
		e := po.Entry{ID: gen.Text(l+"id", 0, n), Context: gen.Text(l+"ctx", 0, verif.Param("ctx", 1))}
		if verif.Choose(l+"plural", 2) == 1 {
			e.Plural = gen.Text(l+"pl", 1, 1)
			e.Plurals = po.PluralEntries{{ID: 0, Str: gen.Text(l+"form", 0, 1)}, {ID: 1, Str: "xyz"}}[:1+verif.Choose(l+"forms", 2)]
		} else {
			e.Str = gen.Text(l+"str", 0, n)
		}
		return e
	}
	a := mk("a")
	b := mk("b")
	verif.Assume(verif.Or(a.ID != "", b.ID != ""))
	id, str := po.EntryIDMatchRatio(a, b), po.EntryStrMatchRatio(a, b)
	verif.Assert(verif.And(verif.And(0 <= id, id <= 100), verif.And(0 <= str, str <= 100)), "a ratio is a percentage")
	same := verif.And(a.ID == b.ID, verif.And(a.Context == b.Context, a.Plural == b.Plural))
	verif.Assert(verif.Implies(same, id == 100), "the same identifiers are wholly alike")
	some := a.Str != ""
	for _, p := range a.Plurals {
		some = some || p.Str != ""
	}
	verif.Assert(verif.Implies(verif.And(some, verif.And(a.Str == b.Str, gen.SamePlurals(a.Plurals, b.Plurals))), str == 100), "the same translations are wholly alike")
	if len(a.ID) == 1 && len(b.ID) == 1 && len(a.Context) == 0 && len(b.Context) == 0 && !(a.IsPlural() && b.IsPlural()) {
		verif.Assert(verif.Implies(verif.And(a.ID != b.ID, verif.And(a.ID[0] < 0x80, b.ID[0] < 0x80)), id == 0), "identifiers with nothing in common are not alike")
	}
	verif.ObserveI("id", id)
	verif.ObserveI("str", str)
	verif.Reach("end")
}

// HBest: the best match is the best one there is.
func HBest() {
	n := verif.Param("n", 2)
	var es po.Entries
	mk := func() po.Entry {
		return po.Entry{ID: gen.Text("id", 0, 1) + strings.Repeat("ab", verif.Param("long", 1)), Context: gen.From("ctx", 0, verif.Param("ctx", 0), "xy"), Str: gen.Text("str", 0, verif.Param("str", 1))}
	}
	for i := 0; i < n; i++ {
		es = append(es, mk())
	}
	e := mk()
	best, ratio := es.BestIDRatio(e)
	verif.Assert(0 <= best && best < n, "the best match is one of the messages")
	verif.Assert(po.EntryIDMatchRatio(e, es[best]) == ratio, "the ratio is that of the best match")
	sbest, sratio := es.BestStrRatio(e)
	verif.Assert(0 <= sbest && sbest < n, "the best match is one of the messages")
	verif.Assert(po.EntryStrMatchRatio(e, es[sbest]) == sratio, "the ratio is that of the best match")
	for i := range es {
		verif.Assert(po.EntryIDMatchRatio(e, es[i]) <= ratio, "no other message matches better")
		verif.Assert(po.EntryStrMatchRatio(e, es[i]) <= sratio, "no other message matches better")
	}
	k := es.FuzzyFind(e.ID, e.Context)
	for i := range es {
		verif.Assert(verif.Implies(verif.And(es[i].ID == e.ID, es[i].Context == e.Context), k != -1 && k <= i), "a message is found by its own identifier")
	}
	verif.Assert(es.FuzzyFind("zzzz", "") == -1, "nothing is found by what no message is like")
	verif.ObserveI("best", best)
	verif.ObserveI("ratio", ratio)
	verif.Reach("end")
}
