// Package h_go has the harnesses on the extraction of messages from Go files.
package h_go

import (
	"go/parser"
	"go/token"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

const gotext = "\"github.com/leonelquinteros/gotext\""

// lit is a string literal, and its value. Any text of n bytes is in it.
func lit(label string, n int) (src, val string) {
	switch verif.Choose(label+".form", 4) {
	case 0:
		return "\"" + label + "\"", label
	case 1: // interpreted
		s := verif.String(label, n)
		for i := 0; i < n; i++ {
			verif.Assume(verif.And(verif.And(s[i] != '"', s[i] != '\\'), verif.And(s[i] != '\n', verif.And(s[i] != 0, s[i] < 0x80))))
		}
		return "\"" + s + "\"", s
	case 2: // raw
		s := verif.String(label, n)
		for i := 0; i < n; i++ {
			verif.Assume(verif.And(verif.And(s[i] != '`', s[i] != '\r'), verif.And(s[i] != 0, s[i] < 0x80)))
		}
		return "`" + s + "`", s
	}
	// escaped
	k := verif.Choose(label+".escape", 6)
	return []string{`"\n\t"`, `"a\"b"`, `"\\n"`, `"\u00e9é"`, `"\x41\101"`, "`\\n\"`"}[k],
		[]string{"\n\t", `a"b`, `\n`, "éé", "AA", `\n"`}[k]
}

type method struct {
	name            string
	id, plural, ctx int
	args            int
}

var methods = []method{{"Get", 0, -1, -1, 1}, {"GetN", 0, 1, -1, 3}, {"GetD", 1, -1, -1, 2}, {"GetND", 1, 2, -1, 4},
	{"GetC", 0, -1, 1, 2}, {"GetNC", 0, 1, 3, 4}, {"GetDC", 1, -1, 2, 3}, {"GetNDC", 1, 2, 4, 5}}

// HCall: every call of a function of gotext is extracted, with what it means.
func HCall() {
	n := verif.Param("n", 1)
	m := methods[verif.Choose("method", len(methods))]
	e := po.Entry{}
	var args []string
	// which of the arguments is any literal
	any := verif.Choose("any", 3)
	arg := func(label string, i int) (string, string) {
		if i == any {
			return lit(label, n)
		}
		return "\"" + label + "\"", label
	}
	var plural, ctx string
	for i := 0; i < m.args; i++ {
		switch i {
		case m.id:
			s, v := arg("id", 0)
			args, e.ID = append(args, s), v
		case m.plural:
			s, v := arg("plural", 1)
			args, plural = append(args, s), v
		case m.ctx:
			s, v := arg("ctx", 2)
			args, ctx = append(args, s), v
		default:
			if m.name[len(m.name)-1] == 'D' && i == 0 || i == 0 {
				args = append(args, "\"domain\"")
			} else {
				args = append(args, "n")
			}
		}
	}
	verif.Assume(any == 0 || any == 1 && m.plural >= 0 || any == 2 && m.ctx >= 0)
	for i := verif.Choose("vars", 2); i > 0; i-- {
		args = append(args, "x")
	}
	e.Plural, e.Context = plural, ctx

	name := "gotext"
	alias := verif.Choose("alias", verif.Param("aliases", 6))
	decl := "import " + gotext
	switch alias {
	case 1:
		name = "g"
		decl = "import (\n\t\"fmt\"\n\tg " + gotext + "\n)"
	case 2:
		decl = "import \"fmt\"\nimport gotext " + gotext
	case 3:
		// It is imported twice.
		name = []string{"gotext", "g"}[verif.Choose("which", 2)]
		decl = "import g " + gotext + "\nimport " + gotext
	case 4:
		name = ""
		decl = "import \"fmt\"\nimport . " + gotext
	case 5:
		decl = "import `" + gotext[1:len(gotext)-1] + "`"
	}
	sep := []string{", ", ",\n\t\t", " /* \"c\" */ ,"}[verif.Choose("separator", 3)]
	call := name + "." + m.name + "("
	if name == "" {
		call = m.name + "("
	}
	for i := range args {
		if i > 0 {
			call += sep
		}
		call += args[i]
	}
	call += ")"
	src := "package p\n" + decl + "\n"
	switch verif.Choose("where", 6) {
	case 0:
		src += "var v = " + call + "\n"
	case 1:
		src += "func f(n int) string {\n\treturn " + call + "\n}\n"
	case 2:
		src += "func f(n int) { defer func() { g2(h(" + call + ")) }() }\n"
	case 3:
		src += "type t struct{ s string }\nvar v = []t{{s: " + call + "}}\n"
	case 4:
		src += "func f(n int) { if s := " + call + "; s == \"other\" { go h(s) } }\n"
	case 5:
		src += "func f(n int) { switch m[" + call + "] { case \"other\": for range (" + call + ") {} } }\n"
	}
	// Not calls of functions of gotext.
	if name == "" {
		src += "func no(" + m.name + " func(string)) { other." + m.name + "(\"no\"); gotext." + m.name + "(\"no\"); " + m.name + "(\"no\"); Other(\"no\"); x.y." + m.name + "(\"no\") }\n"
	} else {
		src += "func no() { other." + m.name + "(\"no\"); " + m.name + "(\"no\"); " + name + ".Other(\"no\"); x." + name + "." + m.name + "(\"no\") }\n"
	}
	f, err := goparse.FromString(src, "a.go", goparse.WithNoHeader(true))
	verif.Assert(err == nil, "a file is read without error")
	got := f.Entries
	if e.ID == "" {
		verif.Assert(len(got) == 0, "the empty message is the header, it is not extracted")
	} else {
		verif.Assert(len(got) == 1, "every message is extracted, once, and nothing else")
		e.Locations, got[0].Locations = nil, nil
		verif.Assert(gen.Same(got[0], e), "with its identifier, plural and context")
	}
	gen.Observe("got", got)
	verif.Reach("end")
}

// HTwo: two calls are two messages, unless they are the same one.
func HTwo() {
	a, b := methods[verif.Choose("a", len(methods))], methods[verif.Choose("b", len(methods))]
	mk := func(l string, m method) (string, po.Entry) {
		e := po.Entry{}
		src := "gotext." + m.name + "("
		for i := 0; i < m.args; i++ {
			if i > 0 {
				src += ", "
			}
			switch i {
			case m.id:
				e.ID = gen.From(l, 1, 1, "xy")
				src += "\"" + e.ID + "\""
			case m.plural:
				e.Plural = "p"
				src += "\"p\""
			case m.ctx:
				e.Context = gen.From(l+"ctx", 1, 1, "cd")
				src += "\"" + e.Context + "\""
			default:
				src += []string{"\"d\"", "n"}[b2i(i > 0)]
			}
		}
		return src + ")", e
	}
	sa, ea := mk("ida", a)
	sb, eb := mk("idb", b)
	head := "package p\nimport " + gotext + "\n"
	var before po.Entries
	for i := 0; i < verif.Param("many", 0); i++ {
		no := string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		e := po.Entry{ID: "m" + no, Locations: po.Locations{{File: "a.go", Line: 3}}}
		head += "var _ = gotext.Get(\"m" + no + "\");"
		before = append(before, e)
	}
	src := head + "var a = " + sa + "\nvar b = " + sb + "\n"
	line := 4
	if verif.Choose("nested", 2) == 1 {
		src = head + "var a = gotext.Get(\"n\", " + sa + ",\n" + sb + ")\n"
	}
	clean := verif.Choose("clean", 2) == 1
	f, err := goparse.FromString(src, "a.go", goparse.WithNoHeader(true), goparse.WithCleanDuplicates(clean))
	verif.Assert(err == nil, "a file is read without error")
	verif.Assert(len(f.Entries) >= len(before) && gen.SameAll(f.Entries[:len(before)], before), "every message is extracted, in order")
	got := f.Entries[len(before):]
	if len(got) > 0 && got[0].ID == "n" {
		got = got[1:]
	}
	ea.Locations = po.Locations{{File: "a.go", Line: 3}}
	eb.Locations = po.Locations{{File: "a.go", Line: line}}
	if clean && ea.ID == eb.ID && ea.Context == eb.Context {
		if ea.Plural == "" {
			ea.Plural = eb.Plural
		}
		ea.Locations = append(ea.Locations, eb.Locations...)
		verif.Assert(len(got) == 1, "a message used twice is extracted once")
		verif.Assert(gen.Same(got[0], ea), "with all its references, and with its plural")
	} else {
		verif.Assert(len(got) == 2, "every message is extracted")
		verif.Assert(verif.And(gen.Same(got[0], ea), gen.Same(got[1], eb)), "every message is extracted, in order")
	}
	gen.Observe("got", got)
	verif.Reach("end")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HAll: all string literals are extracted if that is asked for.
func HAll() {
	n := verif.Param("n", 1)
	s, v := lit("text", n)
	use := verif.Choose("gotext", 2) == 1
	src := "package p\n"
	name := []string{"", "fmt ", "_ ", ". "}[verif.Choose("import", 4)]
	if use {
		src += "import (\n\t" + name + gotext + "\n\t" + name + "\"fmt\"\n\tx `os`\n)\n"
		if name != "" {
			src += "import " + gotext + "\n"
		}
	} else {
		src += "import " + name + "\"fmt\"\n"
	}
	var want []string
	add := func(t ...string) {
		for _, t := range t {
			if t != "" {
				want = append(want, t)
			}
		}
	}
	switch verif.Choose("where", 8) {
	case 5:
		src += "func f() string { defer g(\"d\"); go func() { _ = []byte(" + s + ") }(); return \"r\" }\n"
		add("d", v, "r")
	case 6:
		src += "type T [len(" + s + ")]int\nvar x, y = T{}, struct{ a string }{a: \"a\"}.a[len(\"b\"):]\n"
		add(v, "a", "b")
	case 7:
		src += "func f[P any](a ...P) { for range " + s + " { select { case c <- \"c\": } } }\nvar m = x[\"i\"].(interface{ M() })\n"
		add(v, "c", "i")
	case 0:
		src += "var a, b = " + s + ", \"b\"\n"
		add(v, "b")
	case 1:
		src += "func f() { fmt.Println(" + s + ", 'x', 1, \"\", ``) }\n"
		add(v)
	case 2:
		src += "var m = map[string]string{" + s + ": \"v\" + " + s + "}\n"
		add(v, "v", v)
	case 3:
		src += "const c = (" + s + ")\nfunc f() { switch c { case \"d\": } }\n"
		add(v, "d")
	case 4:
		src += "// \"no\"\nvar a = gotext.GetC(" + s + ", \"ctx\") + \"after\"\n"
		add(v)
		if v == "" {
			// what becomes of a context without a message is not agreed upon
			verif.Assume(false)
		}
		add("after")
	}
	f, err := goparse.FromString(src, "a.go", goparse.WithNoHeader(true), goparse.WithExtractAll(true), goparse.WithCleanDuplicates(false))
	verif.Assert(err == nil, "a file is read without error")
	verif.Assert(len(f.Entries) == len(want), "every string literal is extracted, and nothing else")
	for i := range want {
		verif.Assert(f.Entries[i].ID == want[i], "with its value")
	}
	plain, err := goparse.FromString(src, "a.go", goparse.WithNoHeader(true))
	verif.Assert(err == nil, "a file is read without error")
	for _, e := range plain.Entries {
		verif.Assert(use && e.ID == v && e.Context == "ctx", "only calls are extracted otherwise")
	}
	gen.Observe("got", f.Entries)
	verif.Reach("end")
}

// HArgs: whatever the arguments of a call are, it is extracted if its message
// is a literal, and it does not keep the others from being extracted.
func HArgs() {
	m := methods[verif.Choose("method", len(methods))]
	srcs := []string{"\"a\"", "x", "1", "h()", "\"\"", "``", "\"b\"+\"c\"", "(\"d\")", "[]string{\"e\"}[0]", "'f'", "`g`", "1.5", "func() string { return \"h\" }()"}
	vals := map[int]string{0: "a", 10: "g"}
	src := "package p\nimport " + gotext + "\nvar a = gotext.Get(\"before\")\nvar v = gotext." + m.name + "("
	n := verif.Choose("n", verif.Param("n", 4)+1)
	var of []int
	for i := 0; i < n; i++ {
		k := 0
		if i == m.id || i == m.plural || i == m.ctx {
			if i == m.id || verif.Param("full", 0) == 1 {
				k = verif.Choose("arg", len(srcs))
			} else {
				k = []int{0, 1, 2, 4}[verif.Choose("arg", 4)]
			}
		}
		of = append(of, k)
		if i > 0 {
			src += ", "
		}
		src += srcs[k]
	}
	src += []string{")\n", " ...)\n"}[b2i(n > 0 && verif.Choose("spread", 2) == 1)] + "var z = gotext.Get(\"after\")\n"
	f, err := goparse.FromString(src, "a.go", goparse.WithNoHeader(true))
	verif.ObserveB("err", err != nil)
	verif.Assert(f != nil, "a file that is Go is read")
	value := func(i int) string {
		if i < 0 || i >= n {
			return ""
		}
		return vals[of[i]]
	}
	bad := false // a literal that is not a string
	for _, i := range []int{m.id, m.plural, m.ctx} {
		if i >= 0 && i < n && (of[i] == 2 || of[i] == 9 || of[i] == 11) {
			bad = true
		}
	}
	verif.Assert((err != nil) == bad, "a literal that is not a string is reported")
	es := f.Entries
	verif.Assert(len(es) >= 2 && es[0].ID == "before" && es[len(es)-1].ID == "after", "the other messages are extracted")
	es = es[1 : len(es)-1]
	if id := value(m.id); id == "" || bad {
		verif.Assert(len(es) == 0, "a call without a literal is not extracted")
	} else {
		verif.Assert(len(es) == 1 && es[0].ID == id && es[0].Plural == value(m.plural) && es[0].Context == value(m.ctx), "a call with a literal is extracted")
	}
	verif.Reach("end")
}

// HBroken: a file that is not Go is refused.
func HBroken() {
	const src = "package p\nimport " + gotext + "\nvar a = gotext.GetN(\"a\", `b`, 1)\n"
	i := verif.Choose("at", len(src))
	s := ""
	switch verif.Choose("damage", 3) {
	case 0:
		s = src[:i] + verif.String("byte", 1) + src[i+1:]
	case 1:
		s = src[:i] + verif.String("byte", 1) + src[i:]
	case 2:
		s = src[:i]
	}
	verif.OpaqueQuotes(true)
	data := []byte(s)
	f, err := goparse.FromBytes(data, "a.go", goparse.WithNoHeader(true))
	verif.Assert(string(data) == s, "the data of the caller is left alone")
	verif.Assert(f != nil || err != nil, "there is a file or an error")
	_, syntax := parser.ParseFile(token.NewFileSet(), "a.go", s, parser.SkipObjectResolution)
	verif.Assert(syntax == nil || err != nil, "a file that is not Go is refused")
	verif.Assert(syntax != nil || f != nil, "a file that is Go is read")
	if f != nil {
		for _, e := range f.Entries {
			verif.Assert(e.ID != "", "no message is empty")
		}
	}
	verif.ObserveB("err", err != nil)
	verif.Reach("end")
}
