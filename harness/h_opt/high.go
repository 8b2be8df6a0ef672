package h_opt

import (
	"bytes"
	"fmt"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// mark is a color that is easy to see and to take away.
type mark byte

func (m mark) Sprint(a ...any) string {
	return "\x1b[" + string([]byte{byte(m)}) + fmt.Sprint(a...) + "\x1b[m"
}
func (m mark) Sprintf(s string, a ...any) string { return m.Sprint(fmt.Sprintf(s, a...)) }

// strip takes the colors away.
func strip(b []byte) (plain []byte, colored int) {
	plain = []byte{}
	for i := 0; i < len(b); i++ {
		if b[i] != 0x1b {
			plain = append(plain, b[i])
			continue
		}
		colored++
		for i += 2; b[i] != 'm' && b[i] != 'X' && b[i] != 'Y'; i++ {
		}
	}
	return plain, colored
}

// HStyle: highlighting adds colors to the output and changes nothing else.
func HStyle() {
	n := verif.Param("n", 1)
	e := po.Entry{ID: "id", Str: "t"}
	e.Obsolete = verif.Choose("obsolete", 2) == 1
	switch verif.Choose("place", 5) {
	case 0:
		e.ID = gen.Text("text", n, n)
	case 1:
		e.Str = gen.Text("text", n, n)
	case 2:
		e.Plural, e.Str = "p\np", ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: gen.Text("text", n, n)}, {ID: 1, Str: "a\nb"}}
	case 3:
		e.Context = gen.Text("text", n, n)
	case 4:
		s := gen.ASCII("text", n, n)
		e.Comments, e.ExtractedComments = []string{s, "x"}, []string{"y"}
		e.Flags, e.Locations = []string{"fuzzy"}, po.Locations{{File: "f", Line: 3}}
	}
	es := po.Entries{{Str: "Language: x\n"}, e, {ID: "last", Str: "z"}}
	opts := []compile.PoOption{compile.PoWithWordWrap(verif.Choose("wrap", 2) == 1), compile.PoWithManageHeader(verif.Choose("manage", 2) == 1), compile.PoWithHeaderFields(true)}
	plain := compile.PoToBytes(es, opts...)
	h := compile.CSSClassesHighlighting{}
	classes := []string{"text", "string", "keyword", "comment", "msgid text", "msgstr text", "msgstr string", "msgid"}
	p := compile.HighlightCSSProperties{Color: mark('X')}
	both := false
	k := verif.Choose("class", len(classes)+3)
	switch k - len(classes) {
	case 0:
		for _, c := range classes {
			h[c] = p
		}
	case 1:
		h = compile.DefaultHighlight
	case 2:
		h = compile.TestHighlight
	default:
		switch verif.Choose("background", 3) {
		case 1:
			p = compile.HighlightCSSProperties{BackgroundColor: mark('X')}
		case 2:
			p.BackgroundColor = mark('Y')
			both = true
		}
		h[classes[k]] = p
	}
	colored := compile.PoToBytes(es, append(opts, compile.PoWithHighlight(h))...)
	verif.ObserveS("plain", string(plain))
	got, count := strip(colored)
	verif.Assert(string(got) == string(plain), "highlighting adds colors and changes nothing else")
	if k <= 3 || k == len(classes) {
		verif.Assert(count > 0 || k == 3, "what is highlighted is colored")
		if both {
			verif.Assert(bytes.Contains(colored, []byte("\x1b[X")) == bytes.Contains(colored, []byte("\x1b[Y")), "the text and what is behind it are both colored")
		}
	}
	verif.Reach("end")
}

// HSource: highlighting a text keeps every byte of it.
func HSource() {
	tokens := []string{"msgid", "msgstr", "msgctxt", "msgid_plural", `"a\"b"`, "[0]", "#~ msgid \"x\"\n", "\n", "# c\n", "\r\n\t ", "", "#"}
	verif.OpaqueQuotes(true)
	text := ""
	once := false
	for i := 0; i < verif.Param("k", 2); i++ {
		j := verif.Choose("token", len(tokens))
		if tokens[j] == "" {
			verif.Assume(!once)
			once = true
			s := verif.String("byte", verif.Param("n", 1))
			for j := range s {
				verif.Assume(s[j] != 0x1b)
			}
			text += s
		} else {
			text += tokens[j] + []string{"", " "}[verif.Choose("space", 2)]
		}
	}
	data := []byte(text)
	b, err := compile.HighlightFromBytes(compile.DefaultHighlight, "x", data)
	verif.Assert(string(data) == text, "the data of the caller is left alone")
	if err == nil {
		got, _ := strip(b)
		verif.Assert(string(got) == text, "highlighting keeps every byte")
		c, err := compile.Highlight(compile.DefaultHighlight, "x", text)
		verif.Assert(err == nil && string(c) == string(b), "from a string or from bytes")
	}
	verif.ObserveS("text", text)
	verif.ObserveB("ok", err == nil)
	verif.Reach("end")
}
