// Package c_cat has the harnesses on the tool that concatenates files.
package c_cat

import (
	"bytes"
	"os"

	msgocat "github.com/Tom5521/gotext-tools/v2/cli/msgocat/cmd"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// Tools are the command-line tools.
var Tools = map[string]func(){"msgocat": msgocat.Execute}

func write(name string, data []byte) {
	if os.WriteFile(name, data, 0o644) != nil {
		panic("write")
	}
}

// same is whether a file is what it was.
func same(name string, data []byte) bool {
	got, err := os.ReadFile(name)
	if data == nil {
		return err != nil
	}
	return err == nil && bytes.Equal(got, data)
}

// pick chooses one of n, unless it is about the texts.
func pick(label string, n int) int {
	if verif.Param("n", 0) > 0 {
		return 0
	}
	return verif.Choose(label, n)
}

// HCat: all messages of the given files are written, or nothing is and it is reported.
func HCat() {
	n := verif.Param("n", 0)
	str := "x" + gen.Text("str", 0, n)
	a := po.Entries{
		{Str: "Language: xx\nX-Own: 1\n", Comments: []string{"mine"}, ExtractedComments: []string{"ex"}, Flags: []string{"fuzzy"}, Previous: []string{"prev"}, Locations: po.Locations{{File: "h.go", Line: 1}}},
		{ID: "m", Str: str, Locations: po.Locations{{File: "z.go", Line: 2}}},
		{ID: "both", Str: "same", Comments: []string{"a"}, Locations: po.Locations{{File: "y.go", Line: 3}}},
		{ID: "conflict", Str: "first"},
	}
	b := po.Entries{
		{ID: "only b", Plural: "bs", Plurals: po.PluralEntries{{ID: 0, Str: "p"}, {ID: 1, Str: "q"}}, Locations: po.Locations{{File: "x.go", Line: 4}}},
		{ID: "both", Str: "same", Comments: []string{"b"}, Locations: po.Locations{{File: "b.go", Line: 5}}},
		{ID: "conflict", Str: "second"},
		{ID: "old", Str: "o", Obsolete: true},
	}
	files := map[string][]byte{"d/a.po": compile.PoToBytes(a), "d/b.po": compile.PoToBytes(b)}
	os.Mkdir("d", 0o755)
	kind := 0
	if verif.Param("pairs", 0) == 0 {
		kind = pick("bad", 7)
	}
	switch kind {
	case 1:
		files["d/b.po"] = append(files["d/b.po"], "\nmsgid \"z\"\n"...)
	case 2:
		files["d/b.po"] = append(files["d/b.po"], "\nmsgid \"z\" x\nmsgstr \"\"\n"...)
	case 3:
		files["d/b.po"] = nil
	}
	for _, name := range []string{"d/a.po", "d/b.po"} {
		if files[name] != nil {
			write(name, files[name])
		}
	}
	var args []string
	stdin := ""
	names := []string{"d/a.po", "d/b.po"}
	pairs := verif.Param("pairs", 0) == 1
	inputs := 0
	if !pairs {
		inputs = pick("inputs", 6)
	}
	switch inputs {
	case 0:
		args = append(args, names...)
	case 1:
		args = append(args, "-")
		args = append(args, names[1])
		names[0] = "-"
		stdin = string(files["d/a.po"])
	case 2:
		write("list", []byte("d/a.po\nd/b.po\n"))
		args = append(args, "-f", "list")
	case 3:
		write("list", []byte("d/b.po"))
		args = append(args, "--files-from=list", names[0])
	case 4:
		stdin = "d/a.po\n\nd/b.po"
		args = append(args, "--files-from", "-")
	case 5:
		args = append(args, "-D", "d")
		verif.Assume(kind != 3)
	}
	var mine po.MsgcatMergeConfig
	mine.LessThan = ^uint(0)
	noLoc, noLine := false, false
	lang, order := "", 0
	option := 0
	if kind == 0 {
		option = verif.Choose("option", 12)
	}
	second := 0
	if pairs {
		second = verif.Choose("second", option+1)
	}
	clash := second == 1 && option == 2 || second == 6 && option == 7 || second == 9 && option == 10
	colored := false
	set := func(option int) {
		switch option {
		case 1:
			args = append(args, "-u")
			mine.LessThan = 2
		case 2:
			args = append(args, "--less-than=2")
			mine.LessThan = 2
		case 3:
			args = append(args, "--more-than=1")
			mine.MoreThan = 1
		case 4:
			args = append(args, "--use-first")
			mine.UseFirst = true
		case 5:
			args = append(args, "--lang", "yy")
			lang = "yy"
		case 6:
			args = append(args, "--no-location")
			noLoc = true
		case 7:
			args = append(args, "--add-location=file")
			noLine = true
		case 8:
			args = append(args, "--no-wrap")
		case 9:
			args = append(args, "-s")
			order = 1
		case 11:
			args = append(args, "--color=always")
			colored = true
		case 10:
			args = append(args, "-F")
			order = 2
		}
	}
	set(option)
	if second != option {
		set(second)
	}
	target := ""
	var old []byte
	out0 := 2
	if !pairs {
		out0 = pick("output", 4)
	}
	switch out0 {
	case 1:
		args = append(args, "-o", "-")
	case 2:
		target = "out.po"
	case 3:
		target, old = "out.po", bytes.Repeat([]byte("old\n"), 500)
		write(target, old)
	}
	if target != "" {
		args = append(args, "-o", target)
	}
	limit := -1
	switch kind {
	case 4:
		args = append(args, "--less-than=1")
	case 5:
		args = append(args, "no.po")
	case 6:
		limit = 30
	}
	// what the library makes of the files
	var fs []*po.File
	if kind == 0 || kind == 6 {
		for i, n := range names {
			var f *po.File
			var err error
			f, err = parse.PoFromBytes([]byte(files[[]string{"d/a.po", "d/b.po"}[i]]), n)
			if err != nil {
				panic(err)
			}
			fs = append(fs, f)
		}
	}
	r := verif.Tool("msgocat", msgocat.Execute, args, stdin, limit)
	verif.ObserveI("code", r.Code)
	verif.ObserveS("out", r.Stdout)
	verif.Assert(r.Panic == "", "the tool does not crash")
	verif.Assert(same("d/a.po", files["d/a.po"]) && same("d/b.po", files["d/b.po"]), "the inputs are left alone")
	if kind > 0 && kind < 6 || clash {
		verif.Assert(r.Code != 0 && r.Stderr != "", "what is wrong is reported")
		if target != "" {
			verif.Assert(same(target, old), "and nothing is written")
		}
		verif.Reach("end")
		return
	}
	if kind == 6 && target != "" {
		verif.Assert(r.Code != 0 && r.Stderr != "", "a file that cannot be written is reported")
		verif.Reach("end")
		return
	}
	verif.Assert(r.Code == 0, "files are concatenated without error")
	want := po.MsgcatMergeFiles(fs, po.MsgcatMergeWithConfig(mine))
	// everything that is known of what it has to be
	has := func(id string) bool { return want.ContainsUnifiedID(id) }
	verif.Assert(has("m") == (mine.MoreThan == 0 && mine.LessThan > 1) && has("both") == (mine.LessThan > 2), "messages are selected by their number of definitions")
	out := []byte(r.Stdout)
	if target != "" {
		got, err := os.ReadFile(target)
		verif.Assert(err == nil && r.Stdout == "", "the output is written")
		out = got
	}
	if colored {
		p, some := gen.Plain(out)
		verif.Assert(some, "the output is highlighted if that is asked for")
		out = p
	}
	f, err := parse.PoFromBytes(out, "out", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the output is a PO file")
	verif.Assert(len(f.Entries) == len(want), "every message is written once")
	live := gen.Clone(f.Entries).CleanObsoletes()
	if noLoc || noLine { // the references it is sorted by
		for i := range live {
			live[i].Locations = want[want.Index(live[i].ID, live[i].Context)].Locations
		}
	}
	if order == 1 {
		verif.Assert(live.IsSorted(), "the output is sorted")
	}
	if order == 2 {
		verif.Assert(live.IsSortedFunc(po.CompareEntryByFile), "the output is sorted by file")
	}
	for i, w := range want {
		g := f.Entries[i]
		if order != 0 {
			g = f.Entries[f.Index(w.ID, w.Context)]
		}
		if w.IsHeader() && lang != "" {
			h := f.Header()
			verif.Assert(h.Load("Language") == lang && h.Load("X-Own") == "1", "the language is set, and nothing else")
			w.Str = g.Str
		}
		if noLoc {
			w.Locations = nil
		}
		if noLine {
			verif.Assert(len(g.Locations) == len(w.Locations), "every message is written as it is")
			for j := range w.Locations {
				verif.Assert(g.Locations[j].File == w.Locations[j].File, "every message is written as it is")
			}
			w.Locations = g.Locations
		}
		verif.Assert(gen.Same(g, w), "every message is written as it is")
	}
	verif.Reach("end")
}
