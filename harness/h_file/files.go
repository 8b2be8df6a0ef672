// Package h_file has the harnesses on files that are written and read.
package h_file

import (
	"bytes"
	"os"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func catalogue(n int) po.Entries {
	es := po.Entries{
		{ID: "", Str: "Language: xx\n"},
		{ID: "a" + gen.Text("id", n, n), Str: "x"},
		{ID: "zz", Plural: "zzz", Plurals: po.PluralEntries{{ID: 0, Str: "p"}, {ID: 1, Str: "q"}}},
	}
	if verif.Param("str", 0) > 0 {
		es[1].Str = gen.Text("str", 0, verif.Param("str", 0))
	}
	if verif.Param("big", 0) > 0 {
		es = append(es, po.Entry{ID: "zzbig", Str: big(verif.Param("big", 0))})
	}
	return es
}

func big(n int) string {
	return string(bytes.Repeat([]byte("0123456789abcde "), n/16))
}

// HWrite: a file has what was compiled, all of it and nothing else, or an error is reported.
func HWrite() {
	es := catalogue(verif.Param("n", 1))
	f := &po.File{Entries: es}
	backup := gen.Clone(es)
	mo := verif.Choose("kind", 2) == 1
	force := verif.Choose("force", 2) == 1
	ignore := verif.Choose("ignore", 2) == 1
	var want []byte
	if mo {
		want = compile.MoToBytes(f)
	} else {
		want = compile.PoToBytes(f)
	}
	target := "out"
	old := []byte(nil)
	exists, impossible := false, false
	switch verif.Choose("target", 6) {
	case 1:
		exists, old = true, []byte("old")
	case 2:
		exists, old = true, append(append([]byte{}, want...), "more"...)
	case 3:
		exists, old = true, []byte{}
	case 4:
		target, impossible = "no/out", true
	case 5:
		os.Mkdir("out", 0o755)
		impossible = true
	}
	if exists && os.WriteFile("out", old, 0o600) != nil {
		panic("write")
	}
	other := []byte("other")
	if os.WriteFile("other", other, 0o600) != nil {
		panic("write")
	}
	limit := -1
	if verif.Choose("full", 2) == 1 {
		at := verif.Choose("limit", verif.Param("limits", 7))
		limit = at * len(want) / (verif.Param("limits", 7) - 1)
		verif.FileLimit(limit)
	}
	var err error
	switch way := verif.Choose("way", 3); {
	case mo && way == 0:
		err = compile.MoToFile(f, target, compile.MoWithForce(force), compile.MoWithIgnoreErrors(ignore))
	case mo && way == 1:
		c := compile.NewMo(f)
		err = c.ToFileWithOptions(target, compile.MoWithForce(force), compile.MoWithIgnoreErrors(ignore))
	case mo:
		c := compile.NewMo(f, compile.MoWithForce(force), compile.MoWithIgnoreErrors(ignore))
		err = c.ToFile(target)
	case way == 0:
		err = compile.PoToFile(es, target, compile.PoWithForcePo(force), compile.PoWithIgnoreErrors(ignore))
	case way == 1:
		c := compile.NewPo(f)
		err = c.ToFileWithOptions(target, compile.PoWithForcePo(force), compile.PoWithIgnoreErrors(ignore))
	default:
		c := compile.NewPo(f, compile.PoWithForcePo(force), compile.PoWithIgnoreErrors(ignore))
		err = c.ToFile(target)
	}
	verif.FileLimit(-1)
	verif.ObserveB("err", err != nil)
	refused := exists && !force
	fails := impossible || refused || limit >= 0 && limit < len(want)
	verif.Assert((err != nil) == (fails && !ignore), "a failure is reported, unless errors are to be ignored")
	got, rerr := os.ReadFile("out")
	switch {
	case impossible:
		verif.Assert(rerr != nil, "nothing is written if the file cannot be")
	case refused:
		verif.Assert(rerr == nil && bytes.Equal(got, old), "a file that exists is left alone, unless it is to be replaced")
	case !fails:
		verif.Assert(rerr == nil && bytes.Equal(got, want), "the file has what is compiled, and nothing else")
	default:
		verif.Assert(rerr == nil && len(got) <= limit && bytes.Equal(got, want[:len(got)]), "what is written before a failure is the beginning")
	}
	if o, err := os.ReadFile("other"); err != nil || !bytes.Equal(o, other) {
		verif.Assert(false, "other files are left alone")
	}
	d, derr := os.ReadDir(".")
	n := 2
	if impossible && target != "out" {
		n = 1
	}
	verif.Assert(derr == nil && len(d) == n, "no other file is made")
	verif.Assert(gen.SameAll(es, backup), "the messages of the caller are left alone")
	verif.Reach("end")
}

// HRead: a file is what is in it, however it is given.
func HRead() {
	es := catalogue(verif.Param("n", 1))
	f := &po.File{Entries: es}
	mo := verif.Choose("kind", 2) == 1
	var data []byte
	if mo {
		data = compile.MoToBytes(f)
	} else {
		data = compile.PoToBytes(f)
	}
	cut := len(data)
	if verif.Choose("cut", 2) == 1 {
		cut = verif.Choose("at", 8) * len(data) / 8
	}
	data = data[:cut]
	if os.WriteFile("in", data, 0o600) != nil {
		panic("write")
	}
	var want, got *po.File
	var werr, err error
	if mo {
		want, werr = parse.MoFromBytes(data, "in")
	} else {
		want, werr = parse.PoFromBytes(data, "in")
	}
	path := []string{"in", "no", "no/in", "."}[verif.Choose("path", 4)]
	way := verif.Choose("way", 3)
	if way < 2 && path == "." && mo {
		// opening a directory is no error, reading it is
		way = 1
	}
	switch {
	case way == 0 && mo:
		got, err = parse.Mo(path)
	case way == 0:
		got, err = parse.Po(path)
	case way == 1 && mo:
		p, e := parse.NewMo(path)
		if e == nil {
			got = p.Parse()
			e = p.Error()
		}
		err = e
	case way == 1:
		p, e := parse.NewPo(path)
		if e == nil {
			got = p.Parse()
			e = p.Error()
		}
		err = e
	default:
		o, e := os.Open(path)
		if e != nil {
			verif.Assert(path != "in" && path != ".", "the file is there")
			verif.Reach("end")
			return
		}
		if mo {
			got, err = parse.MoFromFile(o)
		} else {
			got, err = parse.PoFromFile(o)
		}
		verif.Assert(o.Close() == nil, "the file of the caller is left open")
	}
	verif.ObserveB("err", err != nil)
	if path != "in" {
		verif.Assert(err != nil && got == nil, "a file that cannot be read is reported")
		verif.Reach("end")
		return
	}
	verif.Assert((err != nil) == (werr != nil) && (got == nil) == (want == nil), "a file is read as its content is")
	if got != nil {
		verif.Assert(gen.SameAll(got.Entries, want.Entries), "a file is read as its content is")
	}
	back, rerr := os.ReadFile("in")
	verif.Assert(rerr == nil && bytes.Equal(back, data), "a file that is read is left alone")
	verif.Reach("end")
}
