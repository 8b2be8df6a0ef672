package h_cfg

import (
	"bytes"
	"errors"
	"io"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

var errFail = errors.New("failure")

// chunks is a reader that gives its data in pieces, and fails in the end if asked to.
type chunks struct {
	data []byte
	at   int
	cuts []int
	err  error
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.at == len(c.data) {
		return 0, c.err
	}
	end := len(c.data)
	for _, cut := range c.cuts {
		if cut > c.at && cut < end {
			end = cut
		}
	}
	n := copy(p, c.data[c.at:end])
	c.at += n
	if c.at == len(c.data) && verif.Choose("atonce", 2) == 1 {
		return n, c.err
	}
	return n, nil
}

func sampleFile() *po.File {
	if n := verif.Param("big", 0); n > 1 { // only its size matters
		long := string(bytes.Repeat([]byte("many words "), n/22))
		return &po.File{Name: "x", Entries: po.Entries{{ID: "a", Str: long + gen.Text("str", 0, 1)}, {ID: "b", Str: long}, {ID: "c", Str: "d"}}}
	}
	return &po.File{Name: "x", Entries: po.Entries{{Str: "Language: x\n"}, {ID: "a", Str: gen.Text("str", 0, 1)}, {ID: "b", Plural: "c", Plurals: po.PluralEntries{{ID: 0, Str: "d"}, {ID: 1, Str: "e"}}, Flags: []string{"c-format", "range:0..1", "no-wrap"}, Comments: []string{"p", "q"}, ExtractedComments: []string{"r", "s"}, Previous: []string{"t", "u"}, Locations: po.Locations{{File: "f", Line: 1}, {File: "g", Line: 2}, {File: "f", Line: 3}}}}}
}

// HReader: what a reader gives is parsed whole, or its failure is reported.
func HReader() {
	f := sampleFile()
	r := &chunks{err: io.EOF}
	fail := verif.Choose("fail", 2) == 1
	kind := verif.Param("kind", 0)
	switch kind {
	case 0:
		r.data = compile.PoToBytes(f, compile.PoWithWordWrap(false))
	case 1:
		r.data = compile.MoToBytes(f, compile.MoWithHashTable(false))
	case 2:
		r.data = []byte("package p\n//" + string(bytes.Repeat([]byte("x"), verif.Param("big", 0))) + "\nimport \"github.com/leonelquinteros/gotext\"\nvar _ = gotext.Get(\"a\")\n")
	}
	n := len(r.data)
	// the pieces: where the file is cut, and where reading it fails
	steps := verif.Param("pieces", 12)
	at := func(name string) int { return verif.Concrete(verif.Int(name, 0, steps)) * n / steps }
	if fail {
		r.data = r.data[:at("end")]
		r.cuts = []int{n / 2}
		r.err = errFail
	} else {
		r.cuts = []int{at("cut"), n / 2}
	}
	var g *po.File
	var err error
	switch kind {
	case 0:
		g, err = parse.PoFromReader(r, "x")
	case 1:
		g, err = parse.MoFromReader(r, "x")
	case 2:
		g, err = goparse.FromReader(r, "x", goparse.WithNoHeader(true))
	}
	if fail {
		verif.Assert(err != nil && g == nil, "a failure to read is reported")
	} else {
		verif.Assert(err == nil && g != nil, "there is no error")
		if kind == 2 {
			verif.Assert(len(g.Entries) == 1 && g.Entries[0].ID == "a", "everything is parsed")
		} else {
			verif.Assert(len(g.Entries) == 3, "everything is parsed")
			for i, e := range f.Entries {
				verif.Assert(gen.SameMessage(g.Entries[i], e), "everything is parsed")
			}
		}
	}
	verif.ObserveB("fail", fail)
	verif.Reach("end")
}

// HWriter: everything is written, or the failure is reported.
func HWriter() {
	f := sampleFile()
	if verif.Param("big", 0) == 1 { // more than a buffer
		for i := 0; i < 5; i++ {
			f.Entries = append(f.Entries, po.Entry{ID: string(bytes.Repeat([]byte{byte('p' + i)}, 900))})
		}
	}
	if p := f.Entries[2].Plurals; len(p) == 2 && verif.Param("big", 0) == 0 && verif.Choose("forms", 2) == 1 { // not in order
		p[0], p[1] = p[1], p[0]
	}
	src := gen.Clone(f.Entries)
	verif.PermuteMaps(verif.Param("permute", 0) == 1)
	kind := verif.Choose("kind", 2)
	ignore := verif.Choose("ignore", 2) == 1
	to := func(w io.Writer) error {
		if kind == 0 {
			return compile.PoToWriter(f, w, compile.PoWithIgnoreErrors(ignore))
		}
		return compile.MoToWriter(f, w, compile.MoWithIgnoreErrors(ignore))
	}
	var b bytes.Buffer
	verif.Assert(to(&b) == nil, "there is no error")
	var again bytes.Buffer
	verif.Assert(to(&again) == nil && bytes.Equal(b.Bytes(), again.Bytes()), "writing again gives the same")
	if kind == 0 {
		verif.Assert(compile.PoToString(f) == b.String() && bytes.Equal(compile.PoToBytes(f), b.Bytes()), "every way of writing gives the same")
		c := compile.NewPo(&po.File{})
		c.SetFile(f)
		verif.Assert(c.ToString() == b.String(), "every way of writing gives the same")
		verif.Assert(compile.PoToString(*f) == b.String() && compile.PoToString(f.Entries) == b.String(), "every way of writing gives the same")
	} else {
		c := compile.NewMo(&po.File{})
		c.SetFile(f)
		verif.Assert(bytes.Equal(c.ToBytes(), b.Bytes()) && bytes.Equal(compile.MoToBytes(f), b.Bytes()), "every way of writing gives the same")
	}
	n := b.Len()
	steps := verif.Param("pieces", 40)
	k := verif.Concrete(verif.Int("room", 0, steps)) * n / steps
	w := &failing{k, verif.Choose("how", 3)}
	err := to(w)
	if ignore {
		verif.Assert(err == nil, "a failure is ignored if that is asked for")
	} else {
		verif.Assert((err != nil) == (k < n), "a failure to write is reported")
	}
	verif.Assert(gen.SameAll(f.Entries, src), "the messages are left alone")
	verif.ObserveI("n", n)
	verif.Reach("end")
}
