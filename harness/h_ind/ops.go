// Package h_ind has the harnesses on operations that follow one another, or
// that run at the same time.
package h_ind

import (
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// result is what an operation returned.
type result struct {
	name string
	es   po.Entries
	b    []byte
	strs []string
	n    int
	hdr  po.Header
}

func (r result) clone() result {
	r.es = gen.Clone(r.es)
	r.b = append([]byte(nil), r.b...)
	r.strs = append([]string(nil), r.strs...)
	r.hdr.Fields = append(r.hdr.Fields[:0:0], r.hdr.Fields...)
	return r
}

func same(a, b result) bool {
	ok := verif.And(a.name == b.name, a.n == b.n)
	ok = verif.And(ok, gen.SameAll(a.es, b.es))
	ok = verif.And(ok, string(a.b) == string(b.b))
	ok = verif.And(ok, gen.SameStrs(a.strs, b.strs))
	if len(a.hdr.Fields) != len(b.hdr.Fields) {
		return false
	}
	for i := range a.hdr.Fields {
		ok = verif.And(ok, verif.And(a.hdr.Fields[i].Key == b.hdr.Fields[i].Key, a.hdr.Fields[i].Value == b.hdr.Fields[i].Value))
	}
	return ok
}

func texts(errs ...error) (s []string) {
	for _, e := range errs {
		if e != nil {
			s = append(s, e.Error())
		}
	}
	return s
}

func fileOf(f *po.File, errs ...error) (r result) {
	if f != nil {
		r.name, r.es = f.Name, f.Entries
	}
	r.strs = texts(errs...)
	return r
}

// data is what the operations work on; x is any letter.
func data(x byte) po.Entries {
	s := string([]byte{x})
	return po.Entries{
		{Str: "Language: " + s + "\nPlural-Forms: nplurals=2; plural=n != 1;\n"},
		{ID: "b" + s, Str: "t" + s, Context: "c", Flags: []string{"c-format"}, Comments: []string{"note " + s}, ExtractedComments: []string{"ex"},
			Previous: []string{"prev"}, Locations: po.Locations{{File: "g.go", Line: 20}, {File: "f" + s + ".go", Line: 1}}},
		{ID: "ax", Plural: "as", Plurals: po.PluralEntries{{ID: 1, Str: "y" + s}, {ID: 0, Str: "w"}}, Flags: []string{"fuzzy"}},
		{ID: "ax", Plural: "as", Plurals: po.PluralEntries{{ID: 0, Str: "other"}}, Locations: po.Locations{{File: "z.go", Line: 3}}},
		{ID: "old" + s, Str: "o", Obsolete: true, Comments: []string{"gone"}},
		{ID: "p", Str: "q" + s},
		{ID: "hello \t" + s, Plural: "hellos", Plurals: po.PluralEntries{{ID: 1, Str: "one\n" + s}, {ID: 0, Str: "two"}}},
	}
}

// file is the same without duplicates.
func file(x byte) *po.File {
	es := data(x)
	return po.NewFile("f"+string([]byte{x}), es[0], es[1], es[2], es[4], es[5], es[6])
}

func poText(x byte) string {
	s := string([]byte{x})
	return "# n" + s + "\nmsgid \"\"\nmsgstr \"Language: " + s + "\\n\"\n\n# c" + s + "\n#. e\n#: f.go:1\n#, fuzzy\n#| msgid \"p\"\nmsgctxt \"c\"\nmsgid \"i" + s + "\"\nmsgid_plural \"is\"\nmsgstr[0] \"a" + s + "\"\nmsgstr[1] \"b\"\n\n#~ msgid \"o" + s + "\"\n#~ msgstr \"x\"\n"
}

func goText(x byte) string {
	s := string([]byte{x})
	return "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc f() {\n\t_ = gotext.Get(\"a" + s + "\")\n\t_ = gotext.GetNC(\"n\", \"ns\", 2, \"c" + s + "\")\n\tprintln(\"q\")\n}\n"
}

// an operation is made first, with what it needs, and then it runs
type operation struct {
	name string
	make func(x byte) func() result
}

func moOf(x byte) []byte { return compile.MoToBytes(file(x)) }

var ops = []operation{
	{"parse a PO file", func(x byte) func() result {
		p := parse.NewPoFromString(poText(x), "n"+string([]byte{x}))
		return func() result { return fileOf(p.Parse(), append(p.Errors(), p.Warnings()...)...) }
	}},
	{"parse a wrong PO file", func(x byte) func() result {
		p := parse.NewPoFromString("msgid \"a"+string([]byte{x})+"\"\nmsgid \"x\nmsgstr\n", "n"+string([]byte{x}))
		return func() result { return fileOf(p.Parse(), append(p.Errors(), p.Warnings()...)...) }
	}},
	{"parse a MO file", func(x byte) func() result {
		p := parse.NewMoFromBytes(moOf(x), "m"+string([]byte{x}))
		return func() result { return fileOf(p.Parse(), p.Errors()...) }
	}},
	{"parse a wrong MO file", func(x byte) func() result {
		p := parse.NewMoFromBytes(append(moOf(x)[:24], x, 0, 0, 0), "m"+string([]byte{x}))
		return func() result { return fileOf(p.Parse(), p.Errors()...) }
	}},
	{"extract from a Go file", func(x byte) func() result {
		p, err := goparse.NewParserFromString(goText(x), "g"+string([]byte{x}), goparse.WithNoHeader(true))
		if err != nil {
			return func() result { return fileOf(nil, err) }
		}
		return func() result { return fileOf(p.Parse(), p.Errors()...) }
	}},
	{"extract everything from a Go file", func(x byte) func() result {
		return func() result {
			f, err := goparse.FromString(goText(x), "g"+string([]byte{x}), goparse.WithExtractAll(true), goparse.WithExclude("p.go"))
			return fileOf(f, err)
		}
	}},
	{"compile a PO file", func(x byte) func() result {
		c := compile.NewPo(file(x))
		return func() result { return result{b: c.ToBytes()} }
	}},
	{"compile a PO file with other options", func(x byte) func() result {
		c := compile.NewPo(file(x), compile.PoWithWordWrap(true), compile.PoWithMsgstrPrefix(string([]byte{x})), compile.PoWithCommentFuzzy(true),
			compile.PoWithHeaderFields(true), compile.PoWithHeaderComments(true), compile.PoWithManageHeader(true), compile.PoWithAddLocation(compile.PoLocationModeFile))
		return func() result { return result{b: []byte(c.ToString())} }
	}},
	{"highlight a PO file", func(x byte) func() result {
		t := poText(x)
		return func() result {
			b, err := compile.Highlight(compile.DefaultHighlight, "n", t)
			return result{b: b, strs: texts(err)}
		}
	}},
	{"compile a MO file", func(x byte) func() result {
		c := compile.NewMo(file(x))
		return func() result { return result{b: c.ToBytes()} }
	}},
	{"compile a MO file with other options", func(x byte) func() result {
		c := compile.NewMo(file(x), compile.MoWithEndianness(compile.BigEndian), compile.MoWithHashTable(false))
		return func() result { return result{b: c.ToBytes()} }
	}},
	{"merge", func(x byte) func() result {
		def, ref := file(x).Entries, data('q')[:3]
		return func() result {
			return result{es: po.Merge(def, ref, po.MergeWithFuzzyMatch(true), po.MergeWithKeepPreviousIDs(true))}
		}
	}},
	{"concatenate", func(x byte) func() result {
		a, b := file(x), po.NewFile("other", data('r')[:3]...)
		return func() result { return result{es: po.MsgcatMergeFiles([]*po.File{a, b})} }
	}},
	{"sort", func(x byte) func() result {
		es := data(x)
		return func() result { return result{es: es.Sort()} }
	}},
	{"solve", func(x byte) func() result {
		es := data(x)
		return func() result { return result{es: es.Solve()} }
	}},
	{"clean", func(x byte) func() result {
		es := data(x)
		return func() result { return result{es: es.CleanDuplicates().CleanFuzzy().CutHeader().CleanObsoletes()} }
	}},
	{"validate", func(x byte) func() result {
		es := data(x)
		return func() result {
			return result{strs: append(texts(es.Validate()...), texts(es.CatchDuplicateEntries()...)...)}
		}
	}},
	{"text", func(x byte) func() result {
		es := data(x)
		return func() result {
			return result{strs: []string{es.String(), es[1].UnifiedID(), es[2].FullUnifiedID(), es[1].UnifiedStr()}}
		}
	}},
	{"find", func(x byte) func() result {
		es := data(x)
		return func() result {
			best, ratio := es.BestIDRatio(po.Entry{ID: "ay"})
			h := int(es[1].Hash()) + int(es[1].FullHash())
			return result{n: es.FuzzyFind("b", "c") + 10*best + 100*ratio + 10000*(es.Index("ax", "")+h)}
		}
	}},
	{"header", func(x byte) func() result {
		es := data(x)
		return func() result {
			h := es.Header()
			h.Set("X-A", string([]byte{x}))
			h.Register("X-B", "d")
			return result{hdr: h, strs: []string{h.String(), h.Load("language"), h.ToEntry().Str}, n: int(h.Nplurals())}
		}
	}},
	{"default header", func(x byte) func() result {
		return func() result {
			h := po.DefaultHeaderConfig(po.HeaderWithLanguage(string([]byte{x})), po.HeaderWithNplurals(3)).ToHeader()
			return result{hdr: h, strs: []string{h.String()}}
		}
	}},
	{"new header", func(x byte) func() result {
		return func() result {
			h := po.NewHeader(po.HeaderWithLanguage(string([]byte{x})))
			h.Set("X-A", "b")
			return result{hdr: h, strs: []string{h.String()}}
		}
	}},
}

func letter(label string) byte {
	x := verif.Byte(label)
	verif.Assume(verif.And(x >= 'a', x <= 'z'))
	return x
}

// HInTurn: what an operation returned stays as it is, and each gives what it
// gives alone.
func HInTurn() {
	verif.OpaqueQuotes(true)
	i := verif.Choose("first", len(ops))
	j := verif.Choose("second", len(ops))
	x, y := letter("x"), letter("y")
	a := ops[i].make(x)()
	keep := a.clone()
	f, g := ops[i].make(x), ops[j].make(y)
	b := g()
	keepB := b.clone()
	if verif.Param("between", 0) == 1 {
		ops[verif.Choose("third", len(ops))].make(y)()
	}
	verif.Assert(same(a, keep), "what an operation returned is changed by another one")
	c := f()
	verif.Assert(same(c, keep), "an operation gives something else after another one: "+ops[i].name)
	verif.Assert(same(a, keep), "what an operation returned is changed by the same one")
	verif.Assert(same(b, keepB), "what an operation returned is changed by another one")
	verif.ObserveI("n", len(c.es)+len(c.b)+c.n)
	verif.Reach("end")
}

// HTogether: two operations on their own data at the same time.
func HTogether() {
	verif.OpaqueQuotes(true)
	i := verif.Choose("first", len(ops))
	j := verif.Choose("second", i+1)
	x, y := letter("x"), letter("y")
	f, g := ops[i].make(x), ops[j].make(y)
	var c, d result
	verif.Concurrently(func() { c = f() }, func() { d = g() }) // first, before anything is cached
	a, b := ops[i].make(x)(), ops[j].make(y)()
	verif.Assert(same(a, c), "an operation gives something else at the same time as another one: "+ops[i].name)
	verif.Assert(same(b, d), "an operation gives something else at the same time as another one: "+ops[j].name)
	verif.Reach("end")
}

type reader struct {
	name string
	run  func(f *po.File, o *po.File) result
}

var readers = []reader{
	{"compile to PO", func(f, o *po.File) result { return result{b: compile.PoToBytes(f)} }},
	{"compile to PO with a managed header", func(f, o *po.File) result {
		return result{b: compile.PoToBytes(f, compile.PoWithManageHeader(true), compile.PoWithHighlight(compile.DefaultHighlight))}
	}},
	{"compile to MO", func(f, o *po.File) result { return result{b: compile.MoToBytes(f)} }},
	{"merge", func(f, o *po.File) result {
		return result{es: po.Merge(f.Entries, o.Entries, po.MergeWithFuzzyMatch(true))}
	}},
	{"merge with it", func(f, o *po.File) result { return result{es: po.Merge(o.Entries, f.Entries)} }},
	{"concatenate", func(f, o *po.File) result { return result{es: po.MsgcatMergeFiles([]*po.File{f, o})} }},
	{"compare", func(f, o *po.File) result {
		n := 0
		if f.Equal(*o) {
			n++
		}
		return result{n: n}
	}},
	{"clean", func(f, o *po.File) result { return result{es: f.CleanDuplicates()} }},
	{"solve", func(f, o *po.File) result { return result{es: f.Solve()} }},
	{"text", func(f, o *po.File) result { return result{strs: append(texts(f.Validate()...), f.String())} }},
	{"find", func(f, o *po.File) result {
		if f.IsSorted() || f.HasDuplicates() {
			return result{}
		}
		return result{hdr: f.Header(), n: f.Index("ax", "") + 10*f.FuzzyFind("b", "c"), strs: []string{f.Load("ax", "")}}
	}},
}

// HShared: two operations that read the same file at the same time.
func HShared() {
	verif.OpaqueQuotes(true)
	i := verif.Choose("first", len(readers))
	j := verif.Choose("second", i+1)
	x := letter("x")
	f, o := file(x), po.NewFile("other", data('r')[:3]...)
	keep, keepO := gen.Clone(f.Entries), gen.Clone(o.Entries)
	var c, d result
	verif.Concurrently(func() { c = readers[i].run(f, o) }, func() { d = readers[j].run(f, o) })
	a, b := readers[i].run(f, o), readers[j].run(f, o)
	verif.Assert(verif.And(gen.SameAll(keep, f.Entries), gen.SameAll(keepO, o.Entries)), "an operation changes what it reads")
	verif.Assert(same(a, c), "an operation gives something else at the same time as another one: "+readers[i].name)
	verif.Assert(same(b, d), "an operation gives something else at the same time as another one: "+readers[j].name)
	verif.Reach("end")
}

// HChain: an operation that reads what another one returned changes neither
// that nor what the first one read.
func HChain() {
	verif.OpaqueQuotes(true)
	i := verif.Choose("first", len(readers))
	j := verif.Choose("second", len(readers))
	x := letter("x")
	f, o := file(x), po.NewFile("other", data('r')[:3]...)
	keep, keepO := gen.Clone(f.Entries), gen.Clone(o.Entries)
	a := readers[i].run(f, o)
	verif.Assume(a.es != nil)
	keepA := gen.Clone(a.es)
	g, other := po.NewFile("merged", a.es...), f
	if verif.Choose("with", 2) == 1 {
		other = o
	}
	b := readers[j].run(g, other)
	keepB := b.clone()
	verif.Assert(verif.And(gen.SameAll(keep, f.Entries), gen.SameAll(keepO, o.Entries)), "an operation changes what it reads")
	verif.Assert(gen.SameAll(keepA, a.es), "an operation changes what it reads, which another one returned")
	c := readers[j].run(g, other)
	verif.Assert(verif.And(same(b, c), same(b, keepB)), "an operation gives something else the second time: "+readers[j].name)
	verif.Reach("end")
}
