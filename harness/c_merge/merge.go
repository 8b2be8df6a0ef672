// Package c_merge has the harnesses on the tool that merges files with a template.
package c_merge

import (
	"bytes"
	"os"

	msgomerge "github.com/Tom5521/gotext-tools/v2/cli/msgomerge/cmd"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// Tools are the command-line tools.
var Tools = map[string]func(){"msgomerge": msgomerge.Execute}

func write(name string, data []byte) {
	if os.WriteFile(name, data, 0o644) != nil {
		panic("write")
	}
}

// same is whether a file is what it was.
func same(name string, data []byte) bool {
	got, err := os.ReadFile(name)
	if data == nil {
		return err != nil
	}
	return err == nil && bytes.Equal(got, data)
}

// pick chooses one of n, unless it is about the texts.
func pick(label string, n int) int {
	if verif.Param("n", 0) > 0 {
		return 0
	}
	return verif.Choose(label, n)
}

// HMerge: a file is brought up to date with a template, or nothing is written and it is reported.
func HMerge() {
	n := verif.Param("n", 0)
	str := "x" + gen.Text("str", 0, n)
	header := po.Entry{Str: "Language: xx\nX-Own: " + "1\n", Comments: []string{"mine"}}
	def := po.Entries{
		header,
		{ID: "kept", Str: str, Comments: []string{"c"}, Locations: po.Locations{{File: "old.go", Line: 1}}},
		{ID: "similar text number 1", Str: "similar"},
		{ID: "0123456789 gone 0123456789", Str: "gone"},
		{ID: "[]{}()", Context: "empty"},
		{ID: "<%>=<%>", Str: ""},
		{ID: "\t~~~~\t"},
		{ID: "'''`'''`"},
		{ID: ";;;;,,,,;;;;", Str: "back", Obsolete: true},
	}
	ref := po.Entries{
		{Str: "Language: \n", Flags: []string{"fuzzy"}},
		{ID: "kept", Locations: po.Locations{{File: "f.go", Line: 7}}},
		{ID: "similar text number 2", Locations: po.Locations{{File: "f.go", Line: 8}}},
		{ID: "!@#$%^&*", Plural: "+-=", Locations: po.Locations{{File: "g.go", Line: 9}}},
		{ID: "[]{}()", Context: "empty"},
		{ID: "<%>=<%>"},
		{ID: "\t~~~~\t"},
		{ID: "'''`'''`"},
		{ID: ";;;;,,,,;;;;"},
	}
	comp := po.Entries{
		{Str: "Language: zz\n"},
		{ID: "kept", Str: "no"},
		{ID: "!@#$%^&*", Plural: "+-=", Plurals: po.PluralEntries{{ID: 0, Str: "c0"}, {ID: 1, Str: "c1"}}},
		{ID: "not used ????????????????????", Str: "no"},
		{ID: "[]{}()", Context: "empty", Str: "ec"},
		{ID: "<%>=<%>", Str: "unsure", Flags: []string{"c-format", "fuzzy"}},
		{ID: "\t~~~~\t", Plural: "many", Plurals: po.PluralEntries{{ID: 0, Str: "c0"}, {ID: 1, Str: "c1"}}},
		{ID: "'''`'''`", Str: "given up", Obsolete: true},
		{ID: ";;;;,,,,;;;;", Str: "no"},
	}
	files := map[string][]byte{"def.po": compile.PoToBytes(def), "ref.pot": compile.PoToBytes(ref), "comp.po": compile.PoToBytes(comp)}
	// longer than what it becomes
	files["def.po"] = append(files["def.po"], bytes.Repeat([]byte("# nothing\n"), 60)...)
	bad := ""
	// one thing is wrong
	pairs := verif.Param("pairs", 0) == 1
	kind := 0
	if !pairs {
		kind = pick("bad", 10)
	}
	switch kind {
	case 1:
		bad = "def.po"
	case 2:
		bad = "ref.pot"
	case 3:
		bad = "comp.po"
	case 4:
		files["def.po"] = append(files["def.po"], "\nmsgid \"z\"\n"...)
		bad = "-"
	case 5:
		files["ref.pot"] = append(files["ref.pot"], "\nmsgid \"z\"\n"...)
		bad = "-"
	}
	if bad != "" {
		if bad != "-" {
			files[bad] = nil
		}
	}
	var args []string
	dir := ""
	if !pairs && pick("directory", 2) == 1 {
		os.Mkdir("d", 0o755)
		dir = "d/"
		args = append(args, "-D", "d")
	}
	for _, name := range []string{"def.po", "ref.pot", "comp.po"} {
		if files[name] != nil {
			write(dir+name, files[name])
		}
	}
	use := verif.Choose("compendium", 2+verif.Param("several", 0))
	compendium := use > 0
	switch use {
	case 1:
		args = append(args, "-C", "comp.po")
	case 2: // what the first one has is taken from it
		args = append(args, "--compendium=comp.po,more.po")
	case 3:
		args = append(args, "-C", "other.po", "-C", "comp.po", "-C", "more.po")
	}
	if use > 1 {
		write(dir+"more.po", compile.PoToBytes(po.Entries{
			{ID: "[]{}()", Context: "empty", Str: "more"},
			{ID: "!@#$%^&*", Plural: "+-=", Plurals: po.PluralEntries{{ID: 0, Str: "no"}, {ID: 1, Str: "no"}}},
			{ID: "similar text number 2", Str: "from more"},
		}))
		write(dir+"other.po", compile.PoToBytes(po.Entries{{ID: "[]{}()", Str: "no"}}))
	}
	if !compendium && bad == "comp.po" {
		bad = ""
	}
	fuzzy, noLoc, noLine, language := true, false, false, "xx"
	option := 0
	if kind == 0 {
		option = verif.Choose("option", 9)
	}
	second := 0
	if pairs {
		second = verif.Choose("second", option+1)
	}
	colored := false
	set := func(option int) {
		switch option {
		case 8:
			args = append(args, "--color=always")
			colored = true
		case 7:
			args = append(args, "--verbose", "--force-po", "--color=never")
		case 1:
			args = append(args, "--no-fuzzy-matching")
			fuzzy = false
		case 2:
			args = append(args, "--no-location")
			noLoc = true
		case 3:
			args = append(args, "--add-location=file")
			noLine = true
		case 4:
			args = append(args, "-n", "never")
			noLoc = true
		case 5:
			language = []string{"yy", "en", ""}[verif.Choose("language", 3)]
			args = append(args, "--lang", language)
		case 6:
			args = append(args, "--no-wrap")
		}
	}
	set(option)
	if second != option {
		verif.Assume(!(second == 3 && option == 4) && !(second == 7 && option == 8)) // said twice
		set(second)
	}
	update := pick("update", 2) == 1
	if update {
		args = append(args, "-U")
	}
	target, std := "", true
	var old []byte
	out0 := 2
	if !pairs {
		out0 = pick("output", 5)
	}
	switch out0 {
	case 1:
		args = append(args, "-o", "-")
	case 2:
		target = "out.po"
	case 3:
		target, old = "out.po", bytes.Repeat([]byte("old\n"), 500)
		write(target, old)
	case 4:
		target, old = dir+"def.po", files["def.po"]
	}
	if target != "" {
		std = false
		args = append(args, "-o", target)
	}
	args = append(args, "def.po", "ref.pot")
	wrong := kind > 5 && kind < 9
	switch kind {
	case 6:
		args = args[:len(args)-1]
	case 7:
		args = args[:len(args)-2]
	case 8:
		args = append(args, "ref.pot")
	}
	limit := -1
	if kind == 9 && (!std || update) {
		limit = 30
	}
	r := verif.Tool("msgomerge", msgomerge.Execute, args, "", limit)
	verif.ObserveI("code", r.Code)
	verif.Assert(r.Panic == "", "the tool does not crash")
	verif.Assert(same(dir+"ref.pot", files["ref.pot"]) && same(dir+"comp.po", files["comp.po"]), "the template is left alone")
	if !update && target != dir+"def.po" {
		verif.Assert(same(dir+"def.po", files["def.po"]), "the inputs are left alone")
	}
	if bad != "" || wrong {
		verif.Assert(r.Code != 0 && r.Stderr != "", "what is wrong is reported")
		verif.Assert(same(dir+"def.po", files["def.po"]), "the inputs are left alone if something is wrong")
		if target != "" {
			verif.Assert(same(target, old), "and nothing is written")
		}
		verif.Reach("end")
		return
	}
	if limit >= 0 {
		verif.Assert(r.Code != 0 && r.Stderr != "", "a file that cannot be written is reported")
		verif.Reach("end")
		return
	}
	verif.Assert(r.Code == 0, "files are merged without error")
	out := []byte(r.Stdout)
	if !std {
		got, err := os.ReadFile(target)
		verif.Assert(err == nil, "the output is written")
		out = got
	}
	verif.ObserveS("out", string(out))
	if update {
		verif.Assert(same(dir+"def.po", out), "the file is updated")
	}
	if colored {
		p, some := gen.Plain(out)
		verif.Assert(some, "the output is highlighted if that is asked for")
		out = p
	}
	f, err := parse.PoFromBytes(out, "out", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the output is a PO file")
	find := func(id string) po.Entry {
		var r po.Entry
		k := 0
		for _, e := range f.Entries {
			if e.ID == id {
				r = e
				k++
			}
		}
		verif.Assert(k == 1, "every message is there once")
		return r
	}
	verif.Assert(f.Entries[0].IsHeader(), "the header goes first")
	h := find("")
	hdr := f.Header()
	verif.Assert(hdr.Load("Language") == language && hdr.Load("X-Own") == "1", "the header is kept, but for the language that is asked for")
	verif.Assert(gen.SameStrs(h.Comments, header.Comments) && len(h.Flags) == 0, "with its comments")
	at := func(e po.Entry, file string, line int) {
		if noLoc {
			verif.Assert(len(e.Locations) == 0, "there are no references if none are asked for")
			return
		}
		if noLine {
			line = 0
		}
		verif.Assert(len(e.Locations) == 1 && e.Locations[0].File == file && (noLine || e.Locations[0].Line == line), "references are those of the template")
	}
	k := find("kept")
	verif.Assert(k.Str == str && !k.IsFuzzy() && !k.Obsolete && gen.SameStrs(k.Comments, []string{"c"}), "a translation is kept, with its comments")
	at(k, "f.go", 7)
	g := find("0123456789 gone 0123456789")
	verif.Assert(g.Obsolete && g.Str == "gone", "a translation that is not used is kept as an obsolete one")
	s := find("similar text number 2")
	verif.Assert(!s.Obsolete, "a message of the template is live")
	at(s, "f.go", 8)
	count := 10
	b := find(";;;;,,,,;;;;")
	verif.Assert(b.Str == "back" && !b.Obsolete && !b.IsFuzzy(), "a translation that was not used and is used again is kept")
	u := find("<%>=<%>")
	verif.Assert(u.Str == "" && !u.IsFuzzy() && !u.Obsolete, "translations that are not sure are not taken from the compendium")
	o := find("'''`'''`")
	verif.Assert(o.Str == "" && !o.IsFuzzy() && !o.Obsolete, "translations that are given up are not taken from the compendium")
	t := find("\t~~~~\t")
	verif.Assert(t.Str == "" && t.Plural == "" && len(t.Plurals) == 0 && !t.Obsolete, "translations of other messages are not taken from the compendium")
	if use > 1 {
		count++
		verif.Assert(s.Str == "from more" && !s.IsFuzzy(), "translations are taken from all compendiums")
		o := find("similar text number 1")
		verif.Assert(o.Obsolete && o.Str == "similar", "a translation that is not used is kept as an obsolete one")
	} else if fuzzy {
		verif.Assert(s.Str == "similar" && s.IsFuzzy(), "a similar message has its translation, which is fuzzy")
	} else {
		count++
		verif.Assert(s.Str == "" && !s.IsFuzzy(), "a new message is not translated")
		o := find("similar text number 1")
		verif.Assert(o.Obsolete && o.Str == "similar", "a translation that is not used is kept as an obsolete one")
	}
	p := find("!@#$%^&*")
	verif.Assert(p.Plural == "+-=" && !p.Obsolete, "a message of the template is live")
	at(p, "g.go", 9)
	e := find("[]{}()")
	verif.Assert(e.Context == "empty" && !e.Obsolete, "a message of the template is live")
	if compendium {
		verif.Assert(len(p.Plurals) == 2 && p.Plurals[0].Str == "c0" && p.Plurals[1].Str == "c1" && !p.IsFuzzy(), "translations are taken from the compendium")
		verif.Assert(e.Str == "ec", "translations are taken from the compendium")
	} else {
		for _, x := range p.Plurals {
			verif.Assert(x.Str != "c0" && x.Str != "c1", "translations are not made up")
		}
		verif.Assert(e.Str == "", "translations are not made up")
	}
	verif.Assert(len(f.Entries) == count, "and there is nothing else")
	verif.Reach("end")
}

// HNoHeader: a file that has no header gets that of the template, with the language that is asked for.
func HNoHeader() {
	empty := verif.Choose("empty", 2) == 1
	def := po.Entries{{ID: "kept", Str: "mine"}}
	if empty {
		def = nil
	}
	ref := po.Entries{{Str: "Language: \nX-Own: 1\n", Comments: []string{"theirs"}}, {ID: "kept"}, {ID: "!@#$%^&*"}}
	write("def.po", compile.PoToBytes(def))
	write("ref.pot", compile.PoToBytes(ref))
	var args []string
	lang := []string{"", "yy", "en"}[verif.Choose("language", 3)]
	if lang != "" {
		args = append(args, "--lang", lang)
	}
	if verif.Choose("fuzzy", 2) == 1 {
		args = append(args, "--no-fuzzy-matching")
	}
	r := verif.Tool("msgomerge", msgomerge.Execute, append(args, "def.po", "ref.pot"), "", -1)
	verif.Assert(r.Panic == "" && r.Code == 0, "files are merged without error")
	f, err := parse.PoFromBytes([]byte(r.Stdout), "out", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the output is a PO file")
	verif.ObserveS("out", r.Stdout)
	hdr := f.Header()
	verif.Assert(f.Entries[0].IsHeader() && hdr.Load("Language") == lang && hdr.Load("X-Own") == "1", "the header is that of the template, but for the language that is asked for")
	str := "mine"
	if empty {
		str = ""
	}
	verif.Assert(len(f.Entries) == 3 && f.Entries.Index("kept", "") > 0 && f.Entries[f.Entries.Index("kept", "")].Str == str, "a translation is kept")
	verif.Reach("end")
}
