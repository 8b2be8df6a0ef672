// Package c_fmt has the harnesses on the tools that compile and decompile MO files.
package c_fmt

import (
	"bytes"
	"os"

	msgofmt "github.com/Tom5521/gotext-tools/v2/cli/msgofmt/cmd"
	msgounfmt "github.com/Tom5521/gotext-tools/v2/cli/msgounfmt/cmd"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// Tools are the command-line tools.
var Tools = map[string]func(){"msgofmt": msgofmt.Execute, "msgounfmt": msgounfmt.Execute}

// pick chooses one of n, unless it is about the texts.
func pick(label string, n int) int {
	if verif.Param("n", 0) > 0 {
		return 0
	}
	return verif.Choose(label, n)
}

func write(name string, data []byte) {
	if os.WriteFile(name, data, 0o644) != nil {
		panic("write")
	}
}

// same is whether a file is what it was.
func same(name string, data []byte) bool {
	got, err := os.ReadFile(name)
	if data == nil {
		return err != nil
	}
	return err == nil && bytes.Equal(got, data)
}

// The files that are compiled, and what is in them.
func sources() (files [][]byte, entries []po.Entries) {
	n := verif.Param("n", 0)
	a := po.Entries{
		{ID: "", Str: "Language: xx\n"},
		{ID: "a", Str: "x" + gen.Text("a", 0, n)},
		{ID: "a", Context: "c", Str: "y"},
		{ID: "f", Str: "no", Flags: []string{"fuzzy"}},
	}
	b := po.Entries{
		{ID: "b", Plural: "bs", Plurals: po.PluralEntries{{ID: 0, Str: "p"}, {ID: 1, Str: "q"}}},
		{ID: "o", Str: "no", Obsolete: true},
	}
	return [][]byte{compile.PoToBytes(a), compile.PoToBytes(b)}, []po.Entries{a, b}
}

// HCompile: a MO file is made of all the given files, or nothing is written and it is reported.
func HCompile() {
	data, in := sources()
	dir := ""
	args := []string{}
	if pick("directory", 2) == 1 {
		os.Mkdir("d", 0o755)
		dir = "d/"
		args = append(args, "-D", "d")
	}
	// what is wrong with the files
	bad := false
	switch pick("bad", 5) {
	case 1:
		data[1] = append(data[1], "\nmsgid \"z\"\n"...)
		bad = true
	case 2:
		data[1] = append(data[1], "\nmsgid \"b\"\nmsgstr \"again\"\n"...)
		bad = true
	case 3:
		data[1] = nil
		bad = true
	case 4:
		data[1] = append(data[1], "\nmsgid \"a\"\nmsgstr \"in both files\"\n"...)
		bad = true
	}
	write(dir+"a.po", data[0])
	if data[1] != nil {
		write(dir+"b.po", data[1])
	}
	other := []byte("msgid \"a\"\nmsgstr \"not asked for\"\n")
	write(dir+"c.po", other)
	stdin := ""
	var want po.Entries
	use := verif.Choose("inputs", 5)
	var names []string
	switch use {
	case 0:
		names, want, bad = []string{"a.po"}, in[0], false
	case 1:
		names, want = []string{"a.po", "b.po"}, append(in[0][:4:4], in[1]...)
	case 2:
		names, want, stdin = []string{"b.po", "-"}, append(in[1][:2:2], in[0]...), string(data[0])
	case 3:
		names, want, stdin, bad = []string{"-"}, in[0], string(data[0]), false
	case 4:
		names, want, stdin = []string{"a.po", "-"}, append(in[0][:4:4], in[1]...), string(data[1])
		if data[1] == nil {
			want, bad = in[0], false
		}
	}
	opts := []compile.MoOption{}
	format := 0
	if !bad {
		format = pick("format", 5)
	}
	switch format {
	case 1:
		args = append(args, "--no-hash")
		opts = append(opts, compile.MoWithHashTable(false))
	case 4:
		args = append(args, "--no-hash", "--endianness=big")
		opts = append(opts, compile.MoWithHashTable(false), compile.MoWithEndianness(compile.BigEndian))
	case 2:
		args = append(args, "--endianness", "big")
		opts = append(opts, compile.MoWithEndianness(compile.BigEndian))
	case 3:
		args = append(args, "--endianness=little")
		opts = append(opts, compile.MoWithEndianness(compile.LittleEndian))
	}
	exp := compile.MoToBytes(want, opts...)
	target := dir + "messages.mo"
	std := false
	switch verif.Choose("output", 3) {
	case 1:
		args = append(args, "-o", "out")
		target = dir + "out"
	case 2:
		args = append(args, "--output-file=-")
		std = true
	}
	var old []byte
	force := true
	if !std && pick("exists", 2) == 1 {
		old = append(append([]byte{}, exp...), "old"...)
		write(target, old)
		if force = verif.Choose("force", 2) == 1; force {
			args = append(args, "-f")
		}
	}
	limit := -1
	if !std && !bad && format == 0 && pick("full", 2) == 1 {
		limit = verif.Choose("limit", 3) * len(exp) / 3
	}
	args = append(args, names...)
	r := verif.Tool("msgofmt", msgofmt.Execute, args, stdin, limit)
	verif.ObserveI("code", r.Code)
	verif.ObserveS("stdout", r.Stdout)
	verif.Assert(r.Panic == "", "the tool does not crash")
	verif.Assert(same(dir+"a.po", data[0]) && same(dir+"b.po", data[1]) && same(dir+"c.po", other), "the inputs are left alone")
	refused := old != nil && !force
	switch {
	case bad || refused:
		verif.Assert(r.Code != 0 && r.Stderr != "", "what is wrong is reported")
		verif.Assert(same(target, old), "and nothing is written")
	case limit >= 0:
		verif.Assert(r.Code != 0 && r.Stderr != "", "a file that cannot be written is reported")
	case std:
		verif.Assert(r.Code == 0 && r.Stdout == string(exp), "all messages are compiled")
		verif.Assert(same(dir+"-", nil) && same(target, nil), "to standard output")
	default:
		verif.Assert(r.Code == 0 && same(target, exp), "all messages are compiled")
	}
	verif.Reach("end")
}

// HDirectory: every PO file of a directory is compiled on its own.
func HDirectory() {
	data, in := sources()
	os.MkdirAll("d/e.po", 0o755)
	data = append(data, []byte("not a PO file"))
	bad := pick("bad", 2) == 1
	if bad {
		data[1] = append(data[1], "\nmsgid \"b\"\nmsgstr \"again\"\n"...)
	}
	A := []string{"a", "a.b", ".a", "b.po"}[pick("name", 4)]
	write("d/"+A+".po", data[0])
	write("d/b.po", data[1])
	write("d/c.txt", data[2])
	write("d/npo", data[2])
	write("d/c.tpo", data[2])
	args := []string{"--directory", "d"}
	opts := []compile.MoOption{}
	if pick("hash", 2) == 1 {
		args = append(args, "--no-hash")
		opts = append(opts, compile.MoWithHashTable(false))
	}
	var old []byte
	force := true
	if pick("exists", 2) == 1 {
		old = []byte("old")
		write("d/b.mo", old)
		if force = verif.Choose("force", 2) == 1; force {
			args = append(args, "--force")
		}
	}
	r := verif.Tool("msgofmt", msgofmt.Execute, args, "", -1)
	verif.Assert(r.Panic == "", "the tool does not crash")
	verif.Assert(same("d/"+A+".po", data[0]) && same("d/b.po", data[1]) && same("d/c.txt", data[2]), "the inputs are left alone")
	verif.Assert(same("d/c.mo", nil), "other files are not compiled")
	if bad || !force {
		verif.Assert(r.Code != 0 && r.Stderr != "", "what is wrong is reported")
		verif.Assert(same("d/b.mo", old), "and nothing is written")
	} else {
		verif.Assert(r.Code == 0, "files are compiled without error")
		verif.Assert(same("d/"+A+".mo", compile.MoToBytes(in[0], opts...)) && same("d/b.mo", compile.MoToBytes(in[1], opts...)), "every file is compiled")
	}
	verif.Reach("end")
}

// HDecompile: all messages of the given MO files are written as a PO file.
func HDecompile() {
	n := verif.Param("n", 0)
	a := po.Entries{
		{ID: "", Str: "Language: xx\n"},
		{ID: "b", Str: "x"},
		{ID: "c", Context: "c", Str: "y"},
	}
	if which := verif.Choose("which", 1+n); which == 0 {
		a[1].ID += gen.Text("id", 0, n)
	} else {
		a[2].Str = gen.Text("str", 0, n)
	}
	b := po.Entries{
		{ID: "c", Str: "no context"},
		{ID: "b", Str: "in both files"},
		{ID: "a", Plural: "bs", Plurals: po.PluralEntries{{ID: 0, Str: "p"}, {ID: 1, Str: "q\n"}}},
	}
	ma, mb := compile.MoToBytes(a), compile.MoToBytes(b, compile.MoWithEndianness(compile.BigEndian))
	bad := false
	switch pick("bad", 4) {
	case 1:
		mb, bad = mb[:len(mb)/2], true
	case 2:
		mb, bad = nil, true
	case 3: // a message is there twice
		mb, bad = compile.MoToBytes(append(b[:3:3], b[0]), compile.MoWithDepureEntries(false)), true
	}
	write("a.mo", ma)
	if mb != nil {
		write("b.mo", mb)
	}
	stdin := ""
	var args []string
	var want po.Entries
	switch verif.Choose("inputs", 7) {
	case 5: // files without messages
		write("empty.mo", compile.MoToBytes(po.Entries{}))
		args, want = []string{"empty.mo", "a.mo", "empty.mo", "b.mo"}, append(a[:3:3], b...)
	case 6:
		write("empty.mo", compile.MoToBytes(po.Entries{}))
		args, want, bad = []string{"empty.mo"}, nil, false
	case 0:
		args, want, bad = []string{"a.mo"}, a, false
	case 1:
		args, want = []string{"a.mo", "b.mo"}, append(a[:3:3], b...)
	case 2:
		args, want, stdin = []string{"b.mo", "-"}, append(b[:3:3], a...), string(ma)
	case 3:
		want, stdin, bad = a, string(ma), false
	case 4:
		args, want, bad, stdin = []string{"-"}, a, false, string(ma)
	}
	sorted := verif.Choose("sort", 2) == 1
	if sorted {
		args = append(args, "-s")
	}
	if pick("wrap", 2) == 1 {
		args = append(args, "--no-wrap")
	}
	colored := false
	switch pick("color", 3) {
	case 1:
		args = append(args, "--color=never")
	case 2:
		args = append(args, "--color=always")
		colored = len(want) > 0
	}
	std := true
	var old []byte
	force := true
	limit := -1
	switch verif.Choose("output", 3) {
	case 1:
		args = append(args, "-o", "-")
	case 2:
		std = false
		args = append(args, "-o", "out.po")
		if pick("exists", 2) == 1 {
			old = []byte("msgid \"old\"\nmsgstr \"\"\n")
			write("out.po", old)
			if force = verif.Choose("force", 2) == 1; force {
				args = append(args, "-f")
			}
		}
		if len(want) > 0 && pick("full", 2) == 1 {
			limit = 20
		}
	}
	r := verif.Tool("msgounfmt", msgounfmt.Execute, args, stdin, limit)
	verif.ObserveI("code", r.Code)
	verif.ObserveS("stdout", r.Stdout)
	verif.Assert(r.Panic == "", "the tool does not crash")
	verif.Assert(same("a.mo", ma) && same("b.mo", mb), "the inputs are left alone")
	if bad || !force || limit >= 0 {
		verif.Assert(r.Code != 0 && r.Stderr != "", "what is wrong is reported")
		if bad || !force {
			verif.Assert(same("out.po", old), "and nothing is written")
		}
		verif.Reach("end")
		return
	}
	verif.Assert(r.Code == 0, "files are written without error")
	out := []byte(r.Stdout)
	if !std {
		got, err := os.ReadFile("out.po")
		verif.Assert(err == nil && r.Stdout == "", "the file is written")
		out = got
	}
	if colored {
		p, some := gen.Plain(out)
		verif.Assert(some, "the output is highlighted if that is asked for")
		out = p
	}
	f, err := parse.PoFromBytes(out, "out", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "the output is a PO file")
	verif.Assert(len(f.Entries) == len(want), "every message is written once")
	if sorted {
		for i := 1; i < len(f.Entries); i++ {
			verif.Assert(f.Entries[i-1].UnifiedID() <= f.Entries[i].UnifiedID(), "the output is sorted")
		}
	}
	for _, w := range want {
		found := false
		for _, g := range f.Entries {
			found = verif.Or(found, g.ID == w.ID && g.Context == w.Context && g.Str == w.Str && g.Plural == w.Plural && gen.SamePlurals(g.Plurals, w.Plurals))
		}
		verif.Assert(found, "every message is written as it is")
	}
	verif.Reach("end")
}
