package h_po

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// line is any text of one line.
func line(label string, n int) string {
	s := verif.String(label, n)
	for i := 0; i < n; i++ {
		verif.Assume(s[i] != '\n')
	}
	return s
}

// flag is any text that can be a flag.
func flag(label string, n int) string {
	s := verif.String(label, n)
	for i := 0; i < n; i++ {
		verif.Assume(verif.And(verif.And(s[i] > ' ', s[i] < 0x7f), s[i] != ','))
	}
	return s
}

// file is a name of a file, which may have spaces.
func file(label string, n int) string {
	if verif.Param("inner", 0) == 1 {
		s := verif.String(label, n)
		for i := 0; i < n; i++ {
			verif.Assume(verif.Or(s[i] == '\t', verif.And(s[i] >= ' ', s[i] < 0x7f)))
		}
		return "d" + s + "e"
	}
	s := verif.String(label, n)
	for i := 0; i < n; i++ {
		verif.Assume(verif.And(s[i] >= ' ', s[i] < 0x7f))
	}
	// Spaces around are not part of a name.
	verif.Assume(verif.And(s[0] != ' ', s[n-1] != ' '))
	return s
}

// HPrefix: obsolete messages can be marked with any character.
func HPrefix() {
	r := verif.Rune("prefix")
	verif.Assume(verif.And(r > ' ', r != 0x7f))
	verif.Assume(verif.Or(r < 0xd800, verif.And(r > 0xdfff, r <= 0x10ffff)))
	for _, c := range ".:,|" {
		verif.Assume(r != c)
	}
	es := po.Entries{
		{ID: "l", Str: "x", Comments: []string{"!c", "~c"}, Flags: []string{"fuzzy"}},
		{ID: "a", Context: "c", Str: "t", Comments: []string{"c"}, Obsolete: true},
		{ID: "b", Plural: "p", Plurals: po.PluralEntries{{ID: 0, Str: "0\n1"}, {ID: 1, Str: ""}}, Obsolete: true},
	}
	use := verif.Choose("use", 2) == 1
	data := compile.PoToBytes(gen.Clone(es), compile.PoWithUseCustomObsoletePrefix(use), compile.PoWithCustomObsoletePrefixRune(r))
	verif.ObserveS("data", string(data))
	f, err := parse.PoFromBytes(data, "x", parse.PoWithCleanDuplicates(false), parse.PoWithUseCustomObsoletePrefix(use), parse.PoWithCustomObsoletePrefix(r))
	verif.Assert(err == nil, "a compiled PO file parses without error")
	verif.Assert(gen.SameAll(f.Entries, es), "everything about a message survives")
	verif.Reach("end")
}

// HMeta: everything known about a message is written so that it reads back the same.
func HMeta() {
	n := verif.Param("n", 1)
	e := po.Entry{ID: "id", Str: "t"}
	place := 5
	if verif.Param("inner", 0) == 0 {
		place = verif.Choose("place", 9)
	}
	var lines []string
	switch place {
	case 0:
		e.Comments = []string{line("comment", n)}
	case 1:
		e.Comments = []string{"a", line("comment", n), ""}
	case 2:
		e.ExtractedComments = []string{line("extracted", n), "b"}
	case 3:
		e.Previous = []string{line("previous", n), "msgid \"x\""}
	case 4:
		e.Flags = []string{flag("flag", n), "x"}
	case 5:
		l := -1
		f := file("file", n)
		if verif.Choose("line", 2) == 1 {
			l = verif.Int("no", 0, verif.Param("line", 99))
		} else {
			// What looks like a line is one.
			verif.Assume(!verif.Contains(f, ":"))
		}
		e.Locations = po.Locations{{File: f, Line: l}, {File: "b.go", Line: 2}}
	case 6:
		e.Locations = po.Locations{{File: "b.go", Line: 7}, {File: "b", Line: -1}, {File: "c d.go", Line: 10}, {File: "c d", Line: -1}}
		e.Flags = []string{"fuzzy", "c-format"}
		e.Comments = []string{"c"}
		e.ExtractedComments = []string{"x"}
		e.Previous = []string{"p"}
		e.Context = gen.Text("ctx", 0, 1)
	case 8: // more lines in one are one each
		c := line("comment", n)
		two := []string{c + "\na\n", "b"}
		lines = []string{c, "a", "", "b"}
		switch verif.Choose("lines", 3) {
		case 0:
			e.Comments = two
		case 1:
			e.ExtractedComments = two
		case 2:
			e.Previous = two
		}
	case 7: // many, long and repeated ones
		long := strings.Repeat("long words ", 12) + "x"
		c := line("comment", n)
		e.Comments = []string{c, c, long, "", "", long, c}
		e.ExtractedComments = []string{long, "x", "x", "", "y", "y", long}
		e.Previous = []string{"msgid \"a\"", "msgid \"a\"", "\"" + long + "\"", ""}
		e.Flags = []string{"fuzzy", "c-format", "go-format", "no-wrap", "range:0..1", "c-format"}
		for i := 0; i < 12; i++ {
			e.Locations = append(e.Locations, po.Location{File: "dir/file" + string(rune('a'+i%5)) + ".go", Line: i / 4 * 100000})
		}
		e.Locations = append(e.Locations, e.Locations[11], e.Locations[0], e.Locations[0])
	}
	// A row has the plural, obsolete, other obsolete, order, wrap and prefix flags;
	// any two of them occur in every combination.
	rows := []int{0b000000, 0b110101, 0b101110, 0b011011, 0b010110, 0b101001, 0b111111, 0b000010}
	row := 0
	if verif.Param("full", 0) == 1 {
		row = verif.Choose("row", 64)
	} else {
		row = rows[verif.Choose("row", len(rows))]
	}
	has := func(i uint) bool { return row>>(5-i)&1 == 1 }
	if has(0) {
		e.Plural, e.Str = "p", ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: "a"}, {ID: 1, Str: "b\nc"}}
	}
	e.Obsolete = has(1)

	other := po.Entry{ID: "other", Str: "o\no", Comments: []string{"oc"}, Flags: []string{"of"}, Locations: po.Locations{{File: "o", Line: 1}}}
	other.Obsolete = has(2)
	var es po.Entries
	if es = (po.Entries{e, other}); has(3) {
		es = po.Entries{other, e}
	}
	opts := []compile.PoOption{compile.PoWithWordWrap(has(4))}
	var popts []parse.PoOption
	if has(5) {
		opts = append(opts, compile.PoWithUseCustomObsoletePrefix(true), compile.PoWithCustomObsoletePrefixRune('!'))
		popts = append(popts, parse.PoWithUseCustomObsoletePrefix(true), parse.PoWithCustomObsoletePrefix('!'))
	}
	src := gen.Clone(es)
	data := compile.PoToBytes(src, opts...)
	verif.ObserveS("data", string(data))
	verif.Assert(gen.SameAll(src, es), "the messages of the caller are left alone")
	f, err := parse.PoFromBytes(data, "x", append(popts, parse.PoWithCleanDuplicates(false))...)
	verif.Assert(err == nil, "a compiled PO file parses without error")
	for i := range es {
		if es[i].ID == e.ID && lines != nil {
			for _, c := range []*[]string{&es[i].Comments, &es[i].ExtractedComments, &es[i].Previous} {
				if *c != nil {
					*c = lines
				}
			}
		}
	}
	// Obsolete messages are read after all others.
	if es[0].Obsolete && !es[1].Obsolete {
		es[0], es[1] = es[1], es[0]
	}
	verif.Assert(len(f.Entries) == 2, "it has the same number of messages")
	for i := range es {
		verif.Assert(gen.Same(f.Entries[i], es[i]), "everything about a message survives")
	}
	verif.Reach("end")
}

// HCatalogue: the same for many messages of every kind.
func HCatalogue() {
	es := gen.Many(verif.Param("many", 40))
	c, s := line("comment", 1), gen.Text("str", 1, 1)
	es[1].Comments = []string{c}
	es[len(es)-3].Str += s
	es[len(es)-2].Obsolete = true
	data := compile.PoToBytes(gen.Clone(es), compile.PoWithWordWrap(verif.Choose("wrap", 2) == 1))
	verif.ObserveS("data", string(data))
	f, err := parse.PoFromBytes(data, "x", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "a compiled PO file parses without error")
	var want po.Entries
	for _, obsolete := range []bool{false, true} {
		for _, e := range es {
			if e.Obsolete == obsolete {
				want = append(want, e)
			}
		}
	}
	verif.Assert(gen.SameAll(f.Entries, want), "everything about a message survives")
	verif.Reach("end")
}
