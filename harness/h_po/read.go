package h_po

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// plain is any text of n bytes that stands for itself in a string.
func plain(label string, n int) string {
	s := verif.String(label, n)
	for i := 0; i < n; i++ {
		verif.Assume(verif.And(verif.And(s[i] != '"', s[i] != '\\'), verif.And(s[i] != '\n', s[i] != 0)))
		verif.Assume(s[i] != 4)
	}
	return s
}

func pick(label string, of ...string) string { return of[verif.Choose(label, len(of))] }

func reads(text string, want ...po.Entry) {
	verif.ObserveS("text", text)
	f, err := parse.PoFromString(text, "x")
	verif.Assert(err == nil, "a well-formed PO file parses without error")
	verif.Assert(len(f.Entries) == len(want), "every message is read")
	for i := range want {
		verif.Assert(gen.Same(f.Entries[i], want[i]), "everything about a message is read")
	}
	verif.Reach("end")
}

// HLayout: the layout of a file does not matter.
func HLayout() {
	n := verif.Param("n", 1)
	a, b := plain("a", n), plain("b", 1)
	sp, sep, nl, end := " ", "", "\n", "\n"
	vary := verif.Choose("vary", 3)
	if verif.Param("full", 0) == 1 || vary != 0 {
		sp = pick("space", gen.From("sp", 1, 1, " \t\f\v"), "", "\n", "\r\n")
	}
	if verif.Param("full", 0) == 1 || vary != 1 {
		sep = pick("split", "", gen.From("sep", 1, 1, " \t\f\v"), "\n", "\r\n\t", "\n\n")
	}
	if verif.Param("full", 0) == 1 || vary != 2 {
		nl = pick("newline", "\n", "\n\n", gen.From("nl", 1, 1, " \f\v"), "\r\n")
	}
	if verif.Param("full", 0) == 1 || vary == 1 {
		end = pick("end", "", "\n", " \n\n")
	}
	str := func(s, t string) string { return sp + `"` + s + `"` + sep + `"` + t + `"` }
	one := sp + `"x"`
	e := po.Entry{ID: "x", Str: "x"}
	last := po.Entry{ID: "last", Str: "l"}
	text := ""
	switch verif.Choose("place", 5) {
	case 0:
		e.ID = a + b
		text = "msgid" + str(a, b) + nl + "msgstr" + one + nl
	case 1:
		e.Str = a + b
		text = "msgid" + one + nl + "msgstr" + str(a, b) + nl
	case 2:
		e.Context = a + b
		text = "msgctxt" + str(a, b) + nl + "msgid" + one + nl + "msgstr" + one + nl
	case 3:
		e.Plural, e.Str = a+b, ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: "x"}, {ID: 1, Str: "x"}}
		text = "msgid" + one + nl + "msgid_plural" + str(a, b) + nl + "msgstr[0]" + one + nl + "msgstr[1]" + one + nl
	case 4:
		e.Plural, e.Str = "x", ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: "x"}, {ID: 1, Str: a + b}, {ID: 2, Str: ""}}
		text = "msgid" + one + nl + "msgid_plural" + one + nl + "msgstr[0]" + one + nl + "msgstr[1]" + str(a, b) + nl + "msgstr[2] \"\"" + nl
	}
	reads(text+"msgid \"last\" msgstr \"l\""+end, e, last)
}

// HEscapes: escape sequences are the ones of C.
func HEscapes() {
	after := plain("after", 1)
	text, want := "", ""
	switch verif.Choose("kind", 4) {
	case 0:
		seqs, vals := `abfnrtv"\`, "\a\b\f\n\r\t\v\"\\"
		i := verif.Choose("escape", len(seqs))
		text, want = `\`+seqs[i:i+1], vals[i:i+1]
	case 1: // octal, up to three digits
		d := verif.Choose("digits", 3) + 1
		v := 0
		text = `\`
		for i := 0; i < d; i++ {
			c := verif.Byte("digit")
			verif.Assume(verif.And(c >= '0', c <= '7'))
			text += string([]byte{c})
			v = v*8 + int(c-'0')
		}
		if d < 3 {
			verif.Assume(verif.Or(after[0] < '0', after[0] > '7'))
		}
		verif.Assume(verif.And(v <= 255, verif.And(v != 0, v != 4)))
		want = string([]byte{byte(v)})
	case 2: // hexadecimal
		text = `\x`
		v := 0
		for i := 0; i < 2; i++ {
			c := verif.Byte("digit")
			k := 0
			switch verif.Choose("digit", 3) {
			case 0:
				verif.Assume(verif.And(c >= '0', c <= '9'))
				k = int(c - '0')
			case 1:
				verif.Assume(verif.And(c >= 'a', c <= 'f'))
				k = int(c-'a') + 10
			case 2:
				verif.Assume(verif.And(c >= 'A', c <= 'F'))
				k = int(c-'A') + 10
			}
			text += string([]byte{c})
			v = v*16 + k
		}
		verif.Assume(verif.And(v != 0, v != 4))
		// How many digits a sequence may have is not agreed upon.
		c := after[0]
		verif.Assume(verif.And(verif.And(verif.Or(c < '0', c > '9'), verif.Or(c < 'a', c > 'f')), verif.Or(c < 'A', c > 'F')))
		want = string([]byte{byte(v)})
	case 3: // what looks like a comment or a keyword in a string is neither
		text = pick("text", "# c", "#~ msgid", "msgid ", "msgstr[0]", `\\\"#, fuzzy`)
		want = text
		if text[0] == '\\' {
			want = `\"#, fuzzy`
		}
	}
	reads("msgid \"x"+text+after+"\"\nmsgstr \"y"+text+"\"\n", po.Entry{ID: "x" + want + after, Str: "y" + want})
}

// HComments: comments of any kind, in any order.
func HComments() {
	e := po.Entry{ID: "x", Str: "y"}
	text := ""
	used := false
	for i := 0; i < verif.Param("lines", 2); i++ {
		c := ""
		t := func(min int) string {
			if used { // one symbolic text is enough
				return "z "
			}
			used = true
			c = line("text", gen.Len("len", min, verif.Param("n", 1)))
			return c
		}
		switch verif.Choose("kind", 9) {
		case 0:
			s := t(0)
			text += "# " + s
			e.Comments = append(e.Comments, s)
		case 1:
			text += "#"
			e.Comments = append(e.Comments, "")
		case 2:
			s := t(1)
			verif.Assume(!verif.In(s[0], " .:,|~"))
			text += "#" + s
			e.Comments = append(e.Comments, s)
		case 3:
			s := t(0)
			text += "#. " + s
			e.ExtractedComments = append(e.ExtractedComments, s)
		case 4:
			s := t(0)
			text += "#| " + s
			e.Previous = append(e.Previous, s)
		case 5:
			text += "#, fuzzy,c-format"
			e.Flags = append(e.Flags, "fuzzy", "c-format")
		case 6:
			text += "#,  no-wrap , " + "range: 0..10\t"
			e.Flags = append(e.Flags, "no-wrap", "range: 0..10")
		case 7:
			d := verif.Byte("digit")
			verif.Assume(verif.And(d >= '1', d <= '9'))
			text += "#: a.go:" + string([]byte{d}) + "  b/c-d.go:20\te"
			e.Locations = append(e.Locations, po.Location{File: "a.go", Line: int(d - '0')}, po.Location{File: "b/c-d.go", Line: 20}, po.Location{File: "e", Line: -1})
		case 8:
			text += "#:C:\\x.go:7 \u2068f g.go\u2069:8"
			e.Locations = append(e.Locations, po.Location{File: "C:\\x.go", Line: 7}, po.Location{File: "f g.go", Line: 8})
		}
		text += pick("newline", "\n", "\n\n")
	}
	if verif.Choose("first", 2) == 1 {
		reads("# o\nmsgid \"o\"\nmsgstr \"\"\n"+text+"msgid \"x\"\nmsgstr \"y\"\n", po.Entry{ID: "o", Comments: []string{"o"}}, e)
	} else {
		reads(text+"msgid \"x\"\nmsgstr \"y\"\n# at the end\n", e)
	}
}

// HForms: a message with more than ten plural forms.
func HForms() {
	const n = 12
	e := po.Entry{ID: "x", Plural: "y"}
	at := verif.Choose("at", n)
	var lines []string
	for i := 0; i < n; i++ {
		s := string(rune('a' + i))
		if i == at {
			s = plain("a", 1)
		}
		e.Plurals = append(e.Plurals, po.PluralEntry{ID: i, Str: s})
		d := string(rune('0' + i%10))
		if i >= 10 {
			d = "1" + d
		}
		lines = append(lines, "msgstr["+d+"] \""+s+"\"\n")
	}
	obsolete := verif.Choose("obsolete", 2) == 1
	p := ""
	if obsolete {
		p, e.Obsolete = "#~ ", true
	}
	text := p + "msgid \"x\"\n" + p + "msgid_plural \"y\"\n"
	for i := 0; i < n; i++ {
		text += p + lines[i]
	}
	reads(text, e)
}

// HObsolete: obsolete messages, with their comments.
func HObsolete() {
	a := plain("a", verif.Param("n", 1))
	sp := pick("space", " ", "", "  ", "\t")
	nl := pick("newline", "\n", "\n\n", "\r\n")
	p := "#~" + sp
	e := po.Entry{ID: "x", Str: a, Obsolete: true}
	text := ""
	switch verif.Choose("shape", 5) {
	case 0:
		text = p + "msgid \"x\"" + nl + p + "msgstr \"" + a + "\"" + nl
	case 1:
		text = p + "msgid \"\"" + nl + p + "\"x\"" + nl + p + "msgstr \"\"" + nl + p + "\"" + a + "\"" + nl
	case 2:
		e.Context, e.Plural, e.Str = "c", "p", ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: a}, {ID: 1, Str: "z"}}
		text = p + "msgctxt \"c\"" + nl + p + "msgid \"x\"" + nl + p + "msgid_plural \"p\"" + nl + p + "msgstr[0] \"" + a + "\"" + nl + p + "msgstr[1] \"z\"" + nl
	case 3:
		e.Comments = []string{"t"}
		e.Flags = []string{"fuzzy"}
		e.ExtractedComments = []string{"e"}
		text = "# t\n#. e\n#, fuzzy\n" + p + "msgid \"x\"" + nl + p + "msgstr \"" + a + "\"" + nl
	case 4:
		e.Previous = []string{"msgid \"w\""}
		text = "#~| msgid \"w\"\n" + p + "msgid \"x\"" + nl + p + "msgstr \"" + a + "\"" + nl
	}
	live := "# l\nmsgid \"l\"\nmsgstr \"\"\n"
	l := po.Entry{ID: "l", Comments: []string{"l"}}
	two := p + "msgid \"o\"" + nl + p + "msgstr \"\"" + nl
	o := po.Entry{ID: "o", Obsolete: true}
	switch verif.Choose("place", 4) {
	case 0:
		reads(text, e)
	case 1:
		reads(live+"\n"+text+two, l, e, o)
	case 2:
		reads(two+text+live, l, o, e)
	case 3:
		reads(live+text+"msgid \"m\"\nmsgstr \"n\"\n"+two, l, po.Entry{ID: "m", Str: "n"}, e, o)
	}
}

// token is a piece of a file, which may be damaged.
var tokens = []string{"msgid", "msgstr", "msgctxt", "msgid_plural", `"a"`, "[0]", "#~ ", "\n", "# c\n", "", `"`, "[", "9999999999999999999999", "#,", "#:", "#|", "\\", "\xff"}

func robust(text string) {
	verif.OpaqueQuotes(true) // in messages of errors
	data := append(make([]byte, 0, len(text)+64), text...)
	verif.ObserveS("text", text)
	defer func() {
		for _, c := range data[:len(text)+64][len(text):] {
			verif.Assert(c == 0, "the memory behind the data of the caller is left alone")
		}
	}()
	p := parse.NewPoFromBytes(data, "x")
	f := p.Parse()
	verif.Assert(string(data) == text, "the data of the caller is left alone")
	verif.Assert((f == nil) == (len(p.Errors()) > 0 && f == nil), "there is a file or an error")
	verif.Assert(f != nil || p.Error() != nil, "there is a file or an error")
	verif.ObserveB("ok", p.Error() == nil)
	n := len(p.Errors())
	g := p.Parse()
	verif.Assert(len(p.Errors()) == n && (f == nil) == (g == nil), "parsing again gives the same")
	if f != nil {
		gen.Observe("f", f.Entries)
		verif.Assert(gen.SameAll(f.Entries, g.Entries), "parsing again gives the same")
		for _, e := range f.Entries {
			verif.Assert(e.Str == "" || len(e.Plurals) == 0, "no message is both singular and plural")
		}
		verif.Assert(!f.Entries.HasDuplicates(), "every message is there once")
	}
	verif.Reach("end")
}

// HTokens: any sequence of tokens is read or refused.
func HTokens() {
	text := pick("prefix", "", "msgid \"x\" ", "msgid \"x\" msgid_plural \"y\" ", "#~ msgid \"x\"\n#~ ", "msgid \"x\" msgstr \"y\"\n#~ msgid \"x\"\n#~ msgstr \"z\"\n")
	once := false
	for i := 0; i < verif.Param("k", 2); i++ {
		j := verif.Choose("token", len(tokens))
		if j == 9 {
			verif.Assume(!once)
			once = true
			text += verif.String("byte", 1)
		} else {
			text += tokens[j] + " "
		}
	}
	robust(text)
}

// HAny: any bytes are read or refused.
func HAny() { robust(verif.String("text", gen.Len("n", 0, verif.Param("n", 2)))) }

const sample = "# c\n#. e\n#: a.go:1\n#, fuzzy\n#| p\nmsgctxt \"c\"\nmsgid \"x\\\"\"\nmsgid_plural \"y\\n\"\nmsgstr[0] \"\"\nmsgstr[1] \"\\\\z\"\n\n#~ msgid \"o\"\n#~ msgstr \"\\101\"\n"

// HDamage: a file of which any one byte is replaced, added or lost is read or refused.
func HDamage() {
	i := verif.Choose("at", len(sample))
	switch verif.Choose("damage", 3) {
	case 0:
		robust(sample[:i] + verif.String("byte", 1) + sample[i+1:])
	case 1:
		robust(sample[:i] + verif.String("byte", 1) + sample[i:])
	case 2:
		robust(sample[:i])
	}
}

const message = "# c\n#: a:1\nmsgctxt \"c\"\nmsgid \"x\\\"\"\nmsgid_plural \"y\"\nmsgstr[0] \"\"\nmsgstr[1] \"z\"\n"

// HRefused: an obsolete message of which any one byte is replaced, added or lost
// is refused if and only if it would be without its marks.
func HRefused() {
	verif.OpaqueQuotes(true)
	i := verif.Choose("at", len(message))
	text := message[:i]
	if d := verif.Choose("damage", 3); d < 2 {
		b := verif.String("byte", 1)
		verif.Assume(b != "\n") // It would have to be marked, in a string too.
		text += b + message[i+1-d:]
	}
	var marked string
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		marked += "#~ " + line + "\n"
	}
	before := ""
	if verif.Choose("place", 2) == 1 {
		before = "msgid \"l\"\nmsgstr \"\"\n"
	}
	verif.ObserveS("text", text)
	f, err := parse.PoFromString(before+text, "x")
	g, merr := parse.PoFromString(before+marked, "x")
	verif.Assert((err == nil) == (merr == nil), "an obsolete message is refused when any other one is")
	if err == nil && merr == nil {
		verif.Assert(len(f.Entries) == len(g.Entries), "an obsolete message is read like any other one")
		for j := range f.Entries {
			if before == "" || j > 0 {
				f.Entries[j].Obsolete = true
			}
		}
		verif.Assert(gen.SameAll(f.Entries, g.Entries), "an obsolete message is read like any other one")
	}
	verif.Reach("end")
}
