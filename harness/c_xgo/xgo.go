// Package c_xgo has the harnesses on the tool that extracts messages.
package c_xgo

import (
	"bytes"
	"os"

	xgotext "github.com/Tom5521/gotext-tools/v2/cli/xgotext/cmd"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// Tools are the command-line tools.
var Tools = map[string]func(){"xgotext": xgotext.Execute}

func write(name string, data []byte) {
	if os.WriteFile(name, data, 0o644) != nil {
		panic("write")
	}
}

// same is whether a file is what it was.
func same(name string, data []byte) bool {
	got, err := os.ReadFile(name)
	if data == nil {
		return err != nil
	}
	return err == nil && bytes.Equal(got, data)
}

// pick chooses one of n, unless it is about the texts.
func pick(label string, n int) int {
	if verif.Param("n", 0) > 0 {
		return 0
	}
	return verif.Choose(label, n)
}

const head = "package p\n\nimport \"github.com/leonelquinteros/gotext\"\n\n"

type file struct {
	name string
	data string
	msgs []po.Entry
}

// HExtract: the messages of the given files are written, or nothing is and it is reported.
func HExtract() {
	n := verif.Param("n", 0)
	id := gen.Text("id", n, n)
	for i := range id {
		verif.Assume(verif.And(verif.And(id[i] != '"', id[i] != '\\'), verif.And(id[i] != '\n', id[i] < 0x80)))
	}
	id = "id" + id
	// The files.
	fs := []file{
		{"a.go", head + "var a = gotext.Get(\"" + id + "\")\nvar b = gotext.GetN(\"one\", \"many\", 2)\n", []po.Entry{{ID: id}, {ID: "one", Plural: "many"}}},
		{"e/b.go", head + "var s = \"plain\"\nvar c = gotext.GetC(\"one\", \"ctx\")\n", []po.Entry{{ID: "plain"}, {ID: "one", Context: "ctx"}}},
		{"e/f/c.go", head + "\nvar d = gotext.Get(\"" + id + "\")\n", []po.Entry{{ID: id}}},
	}
	lines := [][]int{{5, 6}, {5, 6}, {6}}
	dir := ""
	var args []string
	if pick("directory", 2) == 1 {
		dir = "d/"
		args = append(args, "-D", "d")
	}
	os.MkdirAll(dir+"e/f", 0o755)
	kind := pick("bad", 7)
	if kind == 1 {
		fs[1].data += "var\n"
	}
	if kind == 2 {
		fs[1].data += "var e = gotext.Get(1)\n"
	}
	for _, f := range fs {
		write(dir+f.name, []byte(f.data))
	}
	write(dir+"e/no.txt", []byte("gotext"))
	// Which of them are read.
	use := []bool{true, true, true}
	stdin := ""
	var names []string
	pairs := verif.Param("pairs", 0) == 1
	inputs := 0
	if !pairs {
		inputs = verif.Choose("inputs", 8)
	}
	switch inputs {
	case 0:
		names = []string{"a.go", "e"}
	case 1:
		names = []string{"."}
	case 2:
		names = []string{"e/b.go", "a.go", "e/b.go"}
		use[2] = false
	case 3:
		names, stdin = []string{"e", "-"}, fs[0].data
		fs[0].name = "/dev/stdin"
	case 4:
		write("list", []byte("a.go\ne/b.go\n"))
		args = append(args, "-f", "list")
		use[2] = false
	case 6:
		write("list", []byte("e\n\na.go\n"))
		args = append(args, "-f", "list", "-X", "e/f/c.go", "--exclude=b.go")
		use[2] = false
	case 7:
		write("list", []byte("e/b.go"))
		names = []string{"a.go"}
		args = append(args, "--files-from=list")
		use[2] = false
	case 5:
		names = []string{"a.go", "e"}
		args = append(args, "-X", "e/f")
		use[2] = false
	}
	// Options.
	option := 0
	if kind == 0 {
		option = verif.Choose("option", 17)
	}
	second := 0
	if pairs {
		second = verif.Choose("second", option+1)
	}
	all, noHeader, noLoc, noLine, prefix, suffix := false, false, false, false, "", ""
	lang, version := "en", ""
	var title, holder string
	var excluded po.Entries
	join := false
	wrong := kind == 1 || kind == 2
	colored := false
	set := func(option int) {
		switch option {
		case 1:
			args, all = append(args, "-a"), true
		case 2:
			args, noHeader = append(args, "--omit-header"), true
		case 3:
			args, noLoc = append(args, "--no-location"), true
		case 4:
			args, noLine = append(args, "--add-location", "file"), true
		case 5:
			args, noLoc = append(args, "--add-location=never"), true
		case 6:
			args, prefix = append(args, "--msgstr-prefix=<<"), "<<"
		case 7:
			args, suffix = append(args, "-M", ">>"), ">>"
		case 8:
			args, lang = append(args, "--lang", "yy"), "yy"
		case 9:
			args, version = append(args, "--package-version", "v1"), "v1"
		case 10:
			args, title = append(args, "--title=T"), "T"
		case 11:
			args, holder = append(args, "--copyright-holder", "H"), "H"
		case 12:
			args = append(args, "--word-wrap", "--verbose")
		case 13:
			excluded = po.Entries{{Str: "Language: x\n"}, {ID: "one", Context: "ctx", Str: "1"}, {ID: "one", Context: "other"}}
			write("not.po", compile.PoToBytes(excluded))
			args = append(args, "-x", "not.po")
		case 14:
			join = true
			args = append(args, "--join-existing")
		case 16:
			args, colored = append(args, "--color", "always"), true
		case 15:
			args = append(args, "--force-po", "--foreign-user", "--color=never")
			holder = ""
		}
	}
	set(option)
	if second != option {
		verif.Assume(!(option == 5 && second == 3) && !(option == 4 && second == 3) && !(option == 5 && second == 4)) // said twice
		verif.Assume(!(option == 15 && second == 11) && !(option == 16 && second == 15))                              // one or the other
		set(second)
	}
	if join {
		verif.Assume(prefix == "" && suffix == "" && excluded == nil)
		title, holder = "", "" // the header is not written anew
	}
	target := ""
	var old []byte
	out0 := 2
	if !pairs {
		out0 = pick("output", 5)
	}
	switch out0 {
	case 1:
		args = append(args, "-o", "-")
	case 2:
		target = "out.pot"
		args = append(args, "-o", "out.pot")
	case 3:
		target, old = "out.pot", bytes.Repeat([]byte("#. x\n"), 500)
		write(target, old)
		args = append(args, "--output", "out.pot")
	case 4:
		os.Mkdir("o", 0o755)
		target = "o/out.pot"
		args = append(args, "-p", "o", "-o", "out.pot")
	}
	existing := po.Entries{{Str: "Language: zz\n", Comments: []string{"mine"}}, {ID: "one", Context: "ctx", Str: "t", Locations: po.Locations{{File: "x", Line: 1}}}, {ID: "0123456789??????????", Str: "gone"}, {ID: "[]{}()[]{}()[]{}()", Str: "obsolete", Obsolete: true}}
	joining := join && target != "" && pick("existing", 2) == 1
	if joining {
		old = compile.PoToBytes(existing)
		write(target, old)
	}
	limit := -1
	switch kind {
	case 3:
		names = append(names, "no.go")
		wrong = true
	case 4:
		args = append(args, "-f", "no.txt")
		wrong = true
	case 5:
		args = append(args, "-x", "no.po")
		wrong = true
	case 6:
		if target != "" {
			limit = 30
		}
	}
	if join && target == "" {
		wrong = true
	}
	args = append(args, names...)
	r := verif.Tool("xgotext", xgotext.Execute, args, stdin, limit)
	verif.ObserveI("code", r.Code)
	verif.Assert(r.Panic == "", "the tool does not crash")
	for i, f := range fs {
		verif.Assert(same(dir+[]string{"a.go", "e/b.go", "e/f/c.go"}[i], []byte(f.data)), "the inputs are left alone")
	}
	if wrong {
		verif.Assert(r.Code != 0 && r.Stderr != "", "what is wrong is reported")
		if target != "" {
			verif.Assert(same(target, old), "and nothing is written")
		}
		verif.Reach("end")
		return
	}
	if limit >= 0 {
		verif.Assert(r.Code != 0 && r.Stderr != "", "a file that cannot be written is reported")
		verif.Reach("end")
		return
	}
	verif.Assert(r.Code == 0, "messages are extracted without error")
	out := []byte(r.Stdout)
	if target != "" {
		got, err := os.ReadFile(target)
		verif.Assert(err == nil && r.Stdout == "", "the output is written")
		out = got
	}
	if colored {
		p, some := gen.Plain(out)
		verif.Assert(some, "the output is highlighted if that is asked for")
		out = p
	}
	f, err := parse.PoFromBytes(out, "out", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the output is a PO file")
	h := f.Index("", "")
	verif.Assert((h == -1) == noHeader, "there is a header, unless it is omitted")
	if h != -1 {
		verif.Assert(h == 0 || join && !joining, "the header goes first")
		hdr := f.Header()
		if joining {
			lang, version = "zz", ""
			verif.Assert(gen.SameStrs(f.Entries[h].Comments, []string{"mine"}), "the header that is there is kept")
		}
		verif.Assert(hdr.Load("Language") == lang, "the header has the language")
		if version != "" {
			verif.Assert(hdr.Load("Project-Id-Version") == version, "the header has the version")
		}
		if title != "" {
			verif.Assert(f.Entries[h].Comments[0] == title, "the header has the title")
		}
		if holder != "" {
			verif.Assert(f.Entries[h].Comments[1] == "Copyright (C) "+holder, "the header has the copyright holder")
		}
	}
	// What has to be there.
	var want po.Entries
	add := func(e po.Entry) {
		for i := range want {
			if want[i].ID == e.ID && want[i].Context == e.Context {
				want[i].Locations = append(want[i].Locations, e.Locations...)
				return
			}
		}
		want = append(want, e)
	}
	for i := range fs {
		if !use[i] {
			continue
		}
		name := dir + fs[i].name
		if fs[i].name == "/dev/stdin" {
			name = fs[i].name
		}
		for j, m := range fs[i].msgs {
			if m.ID == "plain" && !all {
				continue
			}
			m.Locations = po.Locations{{File: name, Line: lines[i][j]}}
			add(m)
		}
	}
	if all {
		// the strings that are not messages
		add(po.Entry{ID: "plain"})
	}
	seen := 0
	for _, w := range want {
		if excluded.ContainsUnifiedID(w.UnifiedID()) {
			verif.Assert(!f.ContainsUnifiedID(w.UnifiedID()), "an excluded message is not extracted")
			continue
		}
		i := f.Index(w.ID, w.Context)
		verif.Assert(i != -1, "every message is extracted")
		g := f.Entries[i]
		seen++
		verif.Assert(g.Plural == w.Plural && !g.Obsolete, "with its plural")
		str := ""
		if joining && w.Context == "ctx" {
			str = "t"
		}
		if !w.IsPlural() && !joining {
			verif.Assert(g.Str == prefix+str+suffix, "it is not translated yet")
		} else if str != "" {
			verif.Assert(g.Str == str, "a translation that is there is kept")
		}
		if noLoc {
			verif.Assert(len(g.Locations) == 0, "there are no references if none are asked for")
			continue
		}
		if w.ID == "plain" {
			continue
		}
		verif.Assert(len(g.Locations) == len(w.Locations) || noLine && len(g.Locations) > 0, "with its references")
		for _, l := range g.Locations {
			found := false
			for _, m := range w.Locations {
				found = found || l.File == m.File && (noLine || l.Line == m.Line)
			}
			verif.Assert(found, "with its references")
		}
	}
	if joining {
		for _, e := range existing[2:] {
			i := f.Index(e.ID, "")
			verif.Assert(i != -1 && f.Entries[i].Obsolete && f.Entries[i].Str == e.Str, "what is not used is kept as obsolete")
			seen++
		}
	}
	verif.Assert(len(f.Entries) == seen+b2i(!noHeader), "and nothing else is")
	verif.Reach("end")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
