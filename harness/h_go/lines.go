package h_go

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func lines(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			n++
		}
	}
	return n
}

// HLine: a message refers to the file and the line its identifier begins on.
func HLine() {
	n := verif.Param("n", 2)
	// white space and comments
	space := gen.From("space", 0, n, " \n\r\t")
	text := verif.String("comment", gen.Len("comment", 0, n))
	for i := range text {
		verif.Assume(verif.And(text[i] != '*', verif.And(text[i] != 0, text[i] < 0x80)))
	}
	head := "package p\nimport " + gotext + "\nvar z = gotext.Get(\"z\")\n"
	for i := 0; i < verif.Param("lines", 0); i++ {
		head += "// " + strings.Repeat("é text ", i%20) + "\n"
		if i%70 == 7 {
			head += "var _ = gotext.Get(\"m\")\n"
		}
	}
	pre := ""
	switch verif.Choose("before", 5) {
	case 0:
		pre = space + "/*" + text + "*/" + "var a = gotext.Get("
	case 1:
		pre = "//é " + "\n" + space + "var a = gotext.GetN(" + "/*" + text + "*/"
	case 2:
		pre = "var s = `" + "\n\n" + "`\n" + space + "var a = gotext.GetD(\"d\"," + space
	case 3:
		pre = "var a = gotext.\n\tGet(" + space
	case 4:
		pre = "var a = gotext.GetDC(\"d\\n\", /*" + text + "*/ "
	}
	id := []string{"\"id\"", "`i\nd`"}[verif.Choose("id", 2)]
	src := head + pre + id + ",\n\"x\", n)\n// " + strings.Repeat("tail\n// ", 60) + "\nvar y = gotext.Get(\"y\")\n"
	name := []string{"a.go", "dir/b c.go"}[verif.Choose("name", 2)]
	all := verif.Choose("all", 2) == 1
	f, err := goparse.FromString(src, name, goparse.WithNoHeader(true), goparse.WithExtractAll(all))
	verif.Assert(err == nil, "a file is read without error")
	want := 1 + lines(head+pre)
	found := 0
	for _, e := range f.Entries {
		if e.ID == "id" || e.ID == "i\nd" {
			found++
			verif.Assert(len(e.Locations) == 1 && e.Locations[0] == po.Location{File: name, Line: want}, "a message refers to the file and line of its identifier")
		}
	}
	verif.Assert(found == 1, "the message is extracted")
	gen.Observe("got", f.Entries)
	verif.Reach("end")
}

// files are in the order of the walk; those that may be missing are marked, those that are no Go files too.
var files = []string{"A.GO", "A.go", "_h.go", "a.go", "b.txt", "d/.i.go", "d/a.go", "d/c.go", "d/c.gob", "d/e/f.go", "d/go", "d/testdata/l.go", "d/vendor/k.go", "g_test.go"}

var may, no = map[string]bool{"b.txt": true, "d/c.go": true, "d/e/f.go": true, "g_test.go": true}, map[string]bool{"A.GO": true, "b.txt": true, "d/c.gob": true, "d/go": true}

// abs is a name as an absolute one, clean is any name as the shortest one.
func abs(name string) string {
	dir, err := os.Getwd()
	if err != nil {
		panic("getwd")
	}
	return filepath.Join(dir, name)
}

func clean(name string) string {
	name = filepath.Clean(name)
	if strings.HasPrefix(name, "/") {
		name = strings.TrimPrefix(name, abs(".")+"/")
	}
	return name
}

// HWalk: all Go files below the given paths are read, once and in order, but those excluded.
func HWalk() {
	os.MkdirAll("d/e", 0o755)
	os.MkdirAll("d/testdata", 0o755)
	os.MkdirAll("d/vendor/empty.go", 0o755)
	var exist []bool
	there := true
	for _, n := range files {
		on := !may[n] || verif.Choose("exists", 2) == 1
		exist = append(exist, on)
		if n == "d/c.go" {
			there = on
		}
		if on {
			data := "package p\nimport " + gotext + "\nvar a = gotext.Get(\"" + n + "\")\n"
			if os.WriteFile(n, []byte(data), 0o644) != nil {
				panic("write")
			}
		}
	}
	sets := [][]string{{"."}, {"a.go"}, {"d"}, {"a.go", "d"}, {"d", "."}, {"d/c.go", "d"}, {"d", "./d/e"}, {"a.go", "./a.go", "d/../a.go"}, {"./d", "d/e/.."}, {".", "d//c.go"}, {abs("a.go"), "a.go"}, {"d/e", abs("d")}}
	paths := sets[verif.Choose("paths", len(sets))]
	excl := [][]string{nil, {"d/c.go"}, {"d"}, {"d/e"}, {"a.go", "d/e/f.go"}, {"./d/vendor", "_h.go", "d/.i.go"}, {"d/", "d/c"}}
	exclude := excl[verif.Choose("exclude", len(excl))]
	missing := false
	for _, p := range paths {
		if (p == "d/c.go" || p == "d//c.go") && !there {
			missing = true
		}
	}
	f, err := goparse.FromPaths(paths, goparse.WithNoHeader(true), goparse.WithExclude(exclude...))
	verif.ObserveB("err", err != nil)
	if missing {
		verif.Assert(err != nil && f == nil, "a path that does not exist is reported")
		verif.Reach("end")
		return
	}
	verif.Assert(err == nil, "files are read without error")
	under := func(f, dir string) bool {
		return dir == "." || f == dir || len(f) > len(dir) && f[:len(dir)] == dir && f[len(dir)] == '/'
	}
	var want []int
	for _, p := range paths {
	file:
		for i, n := range files {
			if !exist[i] || no[n] || !under(n, clean(p)) {
				continue
			}
			for _, x := range exclude {
				x = strings.TrimSuffix(strings.TrimPrefix(x, "./"), "/")
				if under(n, x) {
					continue file
				}
			}
			for _, j := range want {
				if i == j {
					continue file
				}
			}
			want = append(want, i)
		}
	}
	verif.Assert(len(f.Entries) == len(want), "every Go file is read once, and no other")
	for i, j := range want {
		verif.Assert(f.Entries[i].ID == files[j], "in order")
		loc := f.Entries[i].Locations
		verif.Assert(len(loc) == 1 && clean(loc[0].File) == files[j] && loc[0].Line == 3, "a message refers to the file it is in")
	}
	verif.Reach("end")
}

// HReuse: parsing again, in any order of files and whatever was parsed before, gives the same.
func HReuse() {
	srcs := []string{
		"package p\nimport " + gotext + "\nvar a = gotext.Get(\"one\")\n",
		"package p\nimport g " + gotext + "\nvar a = g.Get(\"two\", gotext.Get(\"no\"))\n",
		"package p\nvar a = gotext.GetC(\"three\", \"c\")\n",
		"package p\nimport " + gotext + "\nvar a = gotext.Get(1)\nvar b = gotext.Get(\"four\", g.Get(\"no\"))\n",
	}
	ids := []string{"one", "two", "", "four"}
	all := verif.Choose("all", 2) == 1
	cfg := goparse.DefaultConfig(goparse.WithNoHeader(true), goparse.WithExtractAll(all))
	i, j := verif.Choose("i", len(srcs)), verif.Choose("j", len(srcs))
	fresh := func(k int) (po.Entries, int) {
		f, err := goparse.NewFileFromBytes([]byte(srcs[k]), "f", &cfg)
		verif.Assert(err == nil, "a file is read without error")
		es := f.Entries()
		verif.Assert(gen.SameAll(f.Entries(), es), "extracting again gives the same")
		return es, len(f.Errors())
	}
	f, err := goparse.NewFileFromBytes([]byte(srcs[i]), "f", &cfg)
	verif.Assert(err == nil, "a file is read without error")
	f.Entries()
	var r interface{ Read([]byte) (int, error) }
	if verif.Choose("reader", 2) == 0 {
		r = &slow{srcs[j]}
	} else {
		r = newReader(srcs[j])
	}
	verif.Assert(f.Reset(r, "f", &cfg) == nil, "a file is read without error")
	got := f.Entries()
	want, errs := fresh(j)
	verif.Assert(gen.SameAll(got, want), "what was parsed before does not matter")
	verif.Assert(len(f.Errors()) == errs && (f.Error() != nil) == (errs > 0), "nor do its errors")
	if !all {
		verif.Assert(len(got) == b2i(ids[j] != ""), "only calls of an imported package are extracted")
		for _, e := range got {
			verif.Assert(e.ID == ids[j], "only calls of an imported package are extracted")
		}
	}
	// A parser of several files, and again.
	os.WriteFile("1.go", []byte(srcs[i]), 0o644)
	os.WriteFile("2.go", []byte(srcs[j]), 0o644)
	p, err := goparse.NewParserFromPaths([]string{"1.go", "2.go"}, goparse.WithExtractAll(all), goparse.WithCleanDuplicates(false))
	verif.Assert(err == nil && len(p.Files()) == 2, "files are read without error")
	es := p.Parse().Entries
	n := len(p.Errors())
	first, e1 := fresh(i)
	verif.Assert(n == e1+errs && (p.Error() != nil) == (n > 0), "the errors of all files are reported")
	verif.Assert(len(es) == 1+len(first)+len(want) && es[0].IsHeader(), "a header and the messages of all files are extracted")
	for k := range first {
		verif.Assert(es[1+k].ID == first[k].ID, "in order")
	}
	for k := range want {
		verif.Assert(es[1+len(first)+k].ID == want[k].ID, "in order")
	}
	again := p.Parse().Entries
	verif.Assert(gen.SameAll(again[1:], es[1:]) && len(p.Errors()) == n, "parsing again gives the same")
	h := po.Header{Fields: []po.HeaderField{{Key: "Language", Value: gen.From("language", 1, 1, "xyz")}}}
	mine := p.ParseWithOptions(goparse.WithCustomHeader(&h))
	mh := mine.Header()
	verif.Assert(mh.Load("Language") == h.Fields[0].Value, "the header is the one that is asked for")
	c := po.HeaderConfig{Language: "yy"}
	mine = p.ParseWithOptions(goparse.WithHeaderConfig(&c))
	mh = mine.Header()
	verif.Assert(mh.Load("Language") == "yy", "the header is the one that is asked for")
	none := p.ParseWithOptions(goparse.WithNoHeader(true))
	verif.Assert(gen.SameAll(none.Entries, es[1:]), "there is no header if none is asked for")
	verif.Reach("end")
}

type slow struct{ s string }

func (s *slow) Read(p []byte) (int, error) {
	if s.s == "" {
		return 0, io.EOF
	}
	n := copy(p, s.s[:1])
	s.s = s.s[1:]
	return n, nil
}

func newReader(s string) *bytes.Reader { return bytes.NewReader([]byte(s)) }
