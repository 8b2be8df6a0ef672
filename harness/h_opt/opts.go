// Package h_opt has the harnesses on what options do.
package h_opt

import (
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// line is any text of one line.
func line(label string, min, max int) string {
	s := verif.String(label, gen.Len(label, min, max))
	for i := 0; i < len(s); i++ {
		verif.Assume(s[i] != '\n')
	}
	return s
}

func value(label string, min, max int) string {
	s := line(label, min, max)
	for i := 0; i < len(s); i++ {
		verif.Assume(verif.And(s[i] > ' ', s[i] != 127))
		verif.Assume(s[i] < 0x80)
	}
	return s
}

// messages are a header, live messages of every kind, and an obsolete one.
func messages(sym bool) po.Entries {
	fuzzy := verif.Param("fuzzy", -1)
	if fuzzy < 0 {
		if fuzzy = 3; !sym {
			fuzzy = verif.Choose("fuzzy", 4)
		}
	}
	mark := func(i int, e po.Entry) po.Entry {
		if i == fuzzy {
			e.Flags = append(e.Flags, "fuzzy")
		}
		return e
	}
	str, form := "s", "f"
	if sym {
		if verif.Choose("where", 2) == 0 {
			str = ""
		} else {
			form = ""
		}
	}
	return po.Entries{
		{Str: "Language: x\nX-A: b\n"},
		mark(0, po.Entry{
			ID: "one", Str: str, Context: "c", Flags: []string{"c-format"}, Comments: []string{"note"},
			ExtractedComments: []string{"ex"}, Previous: []string{"prev"}, Locations: po.Locations{{File: "f.go", Line: 1}, {File: "g.go", Line: 20}},
		}),
		mark(1, po.Entry{ID: "two", Plural: "twos", Plurals: po.PluralEntries{{ID: 0, Str: form}, {ID: 1, Str: "y"}}, Locations: po.Locations{{File: "a b.go", Line: 3}}}),
		mark(2, po.Entry{ID: "three", Str: "l1\nl2", Comments: []string{"last"}}),
		{ID: "old", Str: "o", Comments: []string{"gone"}, Flags: []string{"x-format"}, Obsolete: true},
	}
}

// HCompile: an option of the compiler changes what it names and nothing else.
func HCompile() {
	// two options at a time
	a, b := verif.Choose("a", 6), verif.Choose("b", 6)
	verif.Assume(a <= b)
	verif.Assume(a != 2 || b != 3) // the last one holds
	es := messages(a == 4 || b == 4)
	var opts []compile.PoOption
	add := func(o ...compile.PoOption) { opts = append(opts, o...) }
	want := gen.Clone(es)
	bare := false // the comments do not matter

	for _, k := range []int{a, b} {
		switch k {
		case 0:
			add(compile.PoWithWordWrap(true))
		case 1:
			add(compile.PoWithOmitHeader(true))
			if want[0].ID == "" {
				want = want[1:]
			}
		case 2:
			if verif.Choose("how", 2) == 0 {
				add(compile.PoWithNoLocation(true))
			} else {
				add(compile.PoWithAddLocation(compile.PoLocationModeNever))
			}
			for i := range want {
				want[i].Locations = nil
			}
		case 3:
			add(compile.PoWithAddLocation(compile.PoLocationModeFile))
			for i := range want {
				for j := range want[i].Locations {
					want[i].Locations[j].Line = -1
				}
			}
		case 4:
			if len(opts) > 0 && a == b {
				break
			}
			pre, suf := "pr", "\n"
			if verif.Choose("which", 2) == 0 {
				pre = gen.Text("prefix", 0, 1)
			} else {
				suf = gen.Text("suffix", 0, 1)
			}
			add(compile.PoWithMsgstrPrefix(pre), compile.PoWithMsgstrSuffix(suf))
			for i := range want {
				if want[i].ID == "" {
					continue
				}
				for j := range want[i].Plurals {
					want[i].Plurals[j].Str = pre + want[i].Plurals[j].Str + suf
				}
				if len(want[i].Plurals) == 0 {
					want[i].Str = pre + want[i].Str + suf
				}
			}
		case 5:
			add(compile.PoWithCommentFuzzy(true))
			bare = true
			var live po.Entries
			for _, e := range want {
				if !e.IsFuzzy() || e.Obsolete {
					live = append(live, e)
				}
			}
			want = live
		}
	}
	switch at := verif.Choose("at", 3); {
	case at > 0 && a != 0 && b != 0 && a != 1 && b != 1: // one place is enough for most
		verif.Assume(false)
	case at == 1: // the header need not come first
		es = po.Entries{es[1], es[0], es[2], es[3], es[4]}
	case at == 2:
		es = po.Entries{es[1], es[2], es[3], es[0], es[4]}
	}
	src := gen.Clone(es)
	data := compile.PoToBytes(es, opts...)
	verif.ObserveS("data", string(data))
	verif.Assert(gen.SameAll(es, src), "the messages of the caller are left alone")
	f, err := parse.PoFromBytes(data, "x", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the file is well-formed")
	got := f.Entries
	if a != 1 && b != 1 {
		verif.Assert(f.Entries.HasHeader(), "the header is written")
		i := f.Index("", "")
		got = append(append(po.Entries{got[i]}, got[:i]...), got[i+1:]...)
	}
	prefixed := a == 4 || b == 4
	if len(got) > 0 && got[0].ID == "" && prefixed { // what happens to a header is not agreed upon
		got[0].Str = want[0].Str
	}
	verif.Assert(len(got) == len(want), "exactly the messages that the options name are missing")
	for i := range want {
		if bare {
			// a commented out message leaves a comment
			got[i].Comments, want[i].Comments = nil, nil
		}
		verif.Assert(gen.Same(got[i], want[i]), "what the options do not name stays as it is")
	}
	verif.Reach("end")
}

// HHeader: a header is written the way that is asked for.
func HHeader() {
	lang := value("language", 1, 2)
	es := po.Entries{{ID: "m", Str: "n", Comments: []string{"mine"}}, {Str: "Language: " + lang + "\nX-A: b: \"c\" \\\n", Comments: []string{"old"}}, {ID: "o", Obsolete: true}}
	template := false
	if verif.Choose("header", 2) == 0 {
		es = append(es[:1], es[2:]...)
	} else if template = verif.Choose("template", 2) == 1; template {
		es[1].Flags = []string{"fuzzy"}
	}
	fields, comments, foreign := verif.Choose("fields", 2) == 1, verif.Choose("comments", 2) == 1, verif.Choose("foreign", 2) == 1
	title, holder, pack := line("title", 0, 1), line("holder", 0, 1), "p"
	opts := []compile.PoOption{compile.PoWithManageHeader(true), compile.PoWithHeaderFields(fields), compile.PoWithHeaderComments(comments), compile.PoWithForeignUser(foreign), compile.PoWithTitle(title), compile.PoWithCopyrightHolder(holder), compile.PoWithPackageName(pack)}
	wantFields := []po.HeaderField{{Key: "Language", Value: lang}, {Key: "X-A", Value: "b: \"c\" \\"}}
	if !template && verif.Choose("config", 2) == 1 {
		c := po.HeaderConfig{Language: "yy", Nplurals: 1, Plural: "0", ExtraFields: []po.HeaderField{{Key: "X-Z", Value: lang}}}
		opts = append(opts, func(pc *compile.PoConfig) { pc.HeaderConfig = &c })
		wantFields = c.ToHeader().Fields
	}
	has := len(es) == 3
	src := gen.Clone(es)
	data := compile.PoToBytes(es, opts...)
	verif.ObserveS("data", string(data))
	verif.Assert(gen.SameAll(es, src), "the messages of the caller are left alone")
	f, err := parse.PoFromBytes(data, "x", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the file is well-formed")
	verif.Assert(len(f.Entries) == len(es), "every message is written once")
	if has {
		h := f.Entries[0]
		verif.Assert(h.IsHeader(), "the header goes first")
		verif.Assert(h.IsFuzzy() == template, "the header of a template is one still")
		got := f.Header().Fields
		if !fields {
			verif.Assert(h.Str == "", "fields that are not asked for are not written")
		} else {
			verif.Assert(len(got) == len(wantFields), "every field is written")
			for i := range got {
				verif.Assert(got[i] == wantFields[i], "every field is written")
			}
		}
		if !comments {
			verif.Assert(len(h.Comments) == 0, "comments that are not asked for are not written")
		} else {
			verif.Assert(h.Comments[0] == title, "the title is written")
			if foreign {
				verif.Assert(h.Comments[1] == "This file is put in the public domain.", "the file is put in the public domain")
			} else {
				verif.Assert(h.Comments[1] == "Copyright (C) "+holder, "the copyright is written")
				verif.Assert(h.Comments[2] == "This file is distributed under the same license as the "+pack+" package.", "the license is written")
			}
		}
		f.Entries = f.Entries[1:]
	}
	verif.Assert(gen.Same(f.Entries[0], es[0]), "the other messages stay as they are")
	verif.Assert(gen.Same(f.Entries[1], es[len(es)-1]), "the other messages stay as they are")
	verif.Reach("end")
}

// HParse: an option of the parser changes what it names and nothing else.
func HParse() {
	es := messages(false)
	if verif.Choose("twice", 2) == 1 {
		es = append(es[:4:4], po.Entry{ID: "three", Str: "again"}, es[4])
	}
	want := gen.Clone(es)
	if verif.Choose("at", 2) == 1 { // the header need not come first
		es[0], es[1] = es[1], es[0]
	}
	data := compile.PoToBytes(es)
	var opts []parse.PoOption
	clean := true
	live := false // obsolete messages are in comments
	a, b := verif.Choose("a", 6), verif.Choose("b", 6)
	verif.Assume(a <= b)
	for _, k := range []int{a, b} {
		switch k {
		case 0:
			opts = append(opts, parse.PoWithSkipHeader(true))
			if want[0].ID == "" {
				want = want[1:]
			}
		case 1:
			opts = append(opts, parse.PoWithIgnoreComments(true))
			for i := range want {
				want[i].Comments, want[i].ExtractedComments, want[i].Previous = nil, nil, nil
			}
		case 2:
			opts = append(opts, parse.PoWithIgnoreAllComments(true))
			for i := range want {
				want[i].Comments, want[i].ExtractedComments, want[i].Previous = nil, nil, nil
				want[i].Flags, want[i].Locations = nil, nil
			}
			live = true
		case 3:
			opts = append(opts, parse.PoWithParseObsolete(false))
			live = true
		case 4:
			opts = append(opts, parse.PoWithCleanDuplicates(false))
			clean = false
		case 5:
		}
	}
	if clean {
		for i := 1; i < len(want); i++ {
			if want[i].ID == want[i-1].ID {
				want = append(want[:i], want[i+1:]...)
			}
		}
	}
	f, err := parse.PoFromBytes(data, "x", opts...)
	verif.Assert(err == nil, "the file is well-formed")
	got := f.Entries
	if live {
		got = got.CleanObsoletes()
		want = want[:len(want)-1]
		if verif.And(a == 3, b != 2) || b == 3 && a != 2 {
			verif.Assert(len(f.Entries) == len(got), "obsolete messages are not read unless that is asked for")
		}
	}
	verif.Assert(len(got) == len(want), "exactly the messages that the options name are missing")
	if es[1].ID == "" && want[0].ID == "" {
		want[0], want[1] = want[1], want[0]
	}
	for i := range want {
		verif.Assert(gen.Same(got[i], want[i]), "what the options do not name stays as it is")
	}
	verif.ObserveS("data", string(data))
	verif.Reach("end")
}

// HMo: the options of MO files do what they name and nothing else.
func HMo() {
	n := verif.Param("n", 3)
	var es po.Entries
	for i := 0; i < n; i++ {
		e := po.Entry{ID: gen.Text("id", 0, 1), Str: string([]byte{byte('s' + i)})}
		switch verif.Choose("kind", 4) {
		case 1:
			e.Flags = []string{"fuzzy"}
		case 2:
			e.Obsolete = true
		case 3:
			e.Context = "c"
		}
		es = append(es, e)
	}
	depure, sorted, hash := verif.Choose("depure", 2) == 1, verif.Choose("sorted", 2) == 1, verif.Choose("hash", 2) == 1
	endian := []compile.Endianness{compile.NativeEndian, compile.LittleEndian, compile.BigEndian}[verif.Choose("endian", verif.Param("as", 3))]
	data := compile.MoToBytes(gen.Clone(es), compile.MoWithDepureEntries(depure), compile.MoWithSortEntries(sorted), compile.MoWithHashTable(hash), compile.MoWithEndianness(endian))
	verif.ObserveS("data", string(data))

	var want po.Entries
	for i, e := range es {
		keep := true
		if depure {
			if e.Obsolete || len(e.Flags) > 0 {
				continue
			}
			for j := 0; j < i; j++ {
				if !es[j].Obsolete && len(es[j].Flags) == 0 {
					keep = verif.And(keep, verif.Or(es[j].ID != e.ID, es[j].Context != e.Context))
				}
			}
		}
		if keep {
			want = append(want, po.Entry{ID: e.ID, Context: e.Context, Str: e.Str})
		}
	}
	inOrder := true
	for i := 1; i < len(want); i++ {
		inOrder = verif.And(inOrder, gen.Key(want[i-1]) <= gen.Key(want[i]))
	}
	if sorted {
		for i := range want {
			for j := i; j > 0 && gen.Key(want[j]) < gen.Key(want[j-1]); j-- {
				want[j], want[j-1] = want[j-1], want[j]
			}
		}
		inOrder = true
	}
	must := verif.Choose("must", 2) == 1
	as := []parse.Endianness{parse.NativeEndian, parse.LittleEndian, parse.BigEndian}[verif.Choose("as", verif.Param("as", 3))]
	f, err := parse.MoFromBytes(data, "x", parse.MoWithMustBeSorted(must), parse.MoWithEndianness(as))
	real := endian
	if real == compile.NativeEndian {
		if real = compile.LittleEndian; data[0] == 0x95 {
			real = compile.BigEndian
		}
	}
	if as != parse.NativeEndian && as != parse.Endianness(real) {
		verif.Assert(err != nil, "a file in the other byte order is refused if one is asked for")
	} else if must && !inOrder {
		verif.Assert(err != nil, "a file that is not sorted is refused if that is asked for")
	} else {
		verif.Assert(err == nil && f != nil, "the file is read")
		verif.Assert(len(f.Entries) == len(want), "the messages that the options name are in the file")
		for i := range want {
			verif.Assert(gen.SameMessage(f.Entries[i], want[i]), "in the order that they name")
		}
	}
	verif.Reach("end")
}
