package h_mo

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// messages are n messages with distinct identities.
func messages() po.Entries {
	n := verif.Param("n", 1)
	if n == 0 {
		return manyMessages()
	}
	idMax, idMin := verif.Param("id", 2), verif.Param("idmin", 0)
	strMax := verif.Param("str", 2)
	forms := verif.Param("forms", 2)
	var es po.Entries
	for i := 0; i < n; i++ {
		var e po.Entry
		if verif.Param("fixed", 0) == 1 {
			e.ID = string(rune('a' + i))
		} else {
			e.ID = gen.Text("id", idMin, idMax)
		}
		e.Context = gen.Text("ctx", 0, verif.Param("ctx", 1))
		if verif.Param("eot", 0) == 1 { // only the first one separates
			e.Context = "c" + e.Context
			e.ID = gen.Text("before", 0, 1) + "\x04" + e.ID
		}
		if k := verif.Choose("plural", forms+1); k > 0 {
			e.Plural = gen.Text("pl", 1, 1)
			for j := 0; j < k; j++ {
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: j, Str: gen.Text("ps", 0, 1)})
			}
			if verif.Param("perm", 0) == 1 { // in any order
				for j := k - 1; j > 0; j-- {
					i := verif.Choose("swap", j+1)
					e.Plurals[i], e.Plurals[j] = e.Plurals[j], e.Plurals[i]
				}
			} else if k > 1 && verif.Choose("swap", 2) == 1 {
				e.Plurals[0], e.Plurals[k-1] = e.Plurals[k-1], e.Plurals[0]
			}
		} else {
			e.Str = gen.Text("str", 0, strMax)
		}
		es = append(es, e)
	}
	gen.Distinct(es)
	return es
}

// manyMessages are many messages, or long ones, of which few bytes vary.
func manyMessages() po.Entries {
	long := verif.Param("long", 1)
	a, b := gen.Text("a", 1, 1), gen.Text("b", 1, 1)
	text := func(seed int, n int) string {
		const abc = "abcdefghijklmnopqrstuvw"
		return strings.Repeat(abc[seed%23:]+abc[:seed%23], n/23+1)[:n]
	}
	var es po.Entries
	for i := 0; i < verif.Param("count", 2); i++ {
		e := po.Entry{ID: text(i*7, 1+i%5) + string(rune('0'+i/60)) + string(rune('0'+i%60)), Str: text(i, i%4)}
		if i%3 == 1 {
			e.Context = text(i*5, 1+i%3)
		}
		if i%5 == 2 {
			e.Str, e.Plural, e.Plurals = "", "p", po.PluralEntries{{ID: 0, Str: text(i, 2)}, {ID: 1, Str: text(i, i%3)}}
		}
		es = append(es, e)
	}
	var ps po.PluralEntries
	for i := 11; i >= 0; i-- {
		ps = append(ps, po.PluralEntry{ID: i, Str: text(i, i%3) + a})
	}
	es = append(es, po.Entry{ID: "=", Plural: "p", Plurals: ps}, po.Entry{ID: "~long", Str: text(3, long) + a + text(4, long)},
		po.Entry{ID: "}" + text(5, long), Str: "short" + b},
		po.Entry{ID: text(7, long/2), Context: text(8, long), Plural: text(9, long), Plurals: po.PluralEntries{{ID: 0, Str: text(10, long)}, {ID: 1, Str: b}}})
	return es
}

func form(e po.Entry, i int) string {
	for _, p := range e.Plurals {
		if p.ID == i {
			return p.Str
		}
	}
	return "?"
}

// HRoundTrip: parse(compile(messages)) has exactly the messages.
func HRoundTrip() {
	es := messages()
	src := gen.Clone(es)
	end := compile.Endianness(verif.Choose("endian", 3))
	opts := []compile.MoOption{compile.MoWithEndianness(end), compile.MoWithHashTable(verif.Choose("hash", 2) == 1)}
	if verif.Choose("depure", 2) == 1 {
		opts = append(opts, compile.MoWithDepureEntries(false))
	}
	mc := compile.NewMo(&po.File{Name: "x", Entries: src}, opts...)
	data := mc.ToBytes()
	var popts []parse.MoOption
	if verif.Choose("forced", 2) == 1 {
		popts = append(popts, parse.MoWithEndianness(end))
	}
	if verif.Choose("sorted", 2) == 1 {
		popts = append(popts, parse.MoWithMustBeSorted(true))
	}
	f, err := parse.MoFromBytes(data, "x", popts...)
	verif.Assert(err == nil, "a compiled MO file parses without error")
	verif.Assert(f != nil && len(f.Entries) == len(es), "it has the same number of messages")
	for _, e := range es {
		k := -1
		for j := range f.Entries {
			if f.Entries[j].ID == e.ID && f.Entries[j].Context == e.Context {
				k = j
			}
		}
		verif.Assert(k >= 0, "every message is in the file")
		g := f.Entries[k]
		verif.Assert(g.Plural == e.Plural, "the plural identifier survives")
		verif.Assert(g.Str == e.Str, "the translation survives")
		verif.Assert(len(g.Plurals) == len(e.Plurals), "the number of plural forms survives")
		for j := range g.Plurals {
			verif.Assert(g.Plurals[j].ID == j && g.Plurals[j].Str == form(e, j), "the plural forms survive")
		}
		verif.Assert(!g.Obsolete && len(g.Flags) == 0, "no message is fuzzy or obsolete")
	}
	verif.ObserveS("data", string(data))
	verif.Reach("end")
}

// HDropped: fuzzy and obsolete messages are left out, all others are compiled,
// the earliest one when several have the same identity.
func HDropped() {
	n := verif.Param("n", 2)
	var es po.Entries
	for i := 0; i < n; i++ {
		e := po.Entry{ID: gen.Text("id", 0, verif.Param("id", 1)), Str: gen.Text("str", 0, 1)}
		switch verif.Choose("kind", 3) {
		case 1:
			e.Flags = []string{"fuzzy"}
		case 2:
			e.Obsolete = true
		}
		es = append(es, e)
	}
	data := compile.MoToBytes(gen.Clone(es), compile.MoWithHashTable(verif.Choose("hash", 2) == 1))
	f, err := parse.MoFromBytes(data, "x")
	verif.Assert(err == nil, "a compiled MO file parses without error")
	live := 0
	for i, e := range es {
		if e.Obsolete || len(e.Flags) > 0 {
			continue
		}
		first := true
		for j := 0; j < i; j++ {
			if !es[j].Obsolete && len(es[j].Flags) == 0 && es[j].ID == e.ID {
				first = false
			}
		}
		if !first {
			continue
		}
		live++
		k := f.Index(e.ID, "")
		verif.Assert(k >= 0, "a live message is in the file")
		verif.Assert(f.Entries[k].Str == e.Str, "with its own translation")
	}
	verif.Assert(len(f.Entries) == live, "fuzzy, obsolete and duplicate messages are not")
	verif.ObserveS("data", string(data))
	verif.Reach("end")
}
