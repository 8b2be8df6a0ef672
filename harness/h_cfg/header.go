// Package h_cfg has the harnesses on headers, configurations and options.
package h_cfg

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// value is any value of a field: one line that does not begin with white space.
func value(label string, min, max int) string {
	s := verif.String(label, gen.Len(label, min, max))
	for i := 0; i < len(s); i++ {
		verif.Assume(s[i] != '\n')
	}
	if len(s) > 0 {
		verif.Assume(!verif.In(s[0], " \t\r\f\v"))
	}
	return s
}

// key is any name of a field.
func key(label string, min, max int) string {
	s := verif.String(label, gen.Len(label, min, max))
	for i := 0; i < len(s); i++ {
		verif.Assume(verif.And(verif.And(s[i] > ' ', s[i] < 0x7f), s[i] != ':'))
	}
	return s
}

func sameFields(a, b []po.HeaderField) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verif.And(ok, verif.And(a[i].Key == b[i].Key, a[i].Value == b[i].Value))
	}
	return ok
}

// HFields: the fields of a header survive being written as a message.
func HFields() {
	h := po.Header{Template: verif.Choose("template", 2) == 1}
	n := verif.Param("len", 2)
	for i := 0; i < verif.Param("many", 0); i++ {
		no := string([]byte{byte('0' + i/10), byte('0' + i%10)})
		h.Fields = append(h.Fields, po.HeaderField{Key: "X-Many-" + no, Value: strings.Repeat("long: value; ", i) + no})
	}
	for i := gen.Len("n", 0, verif.Param("n", 2)); i > 0; i-- {
		h.Fields = append(h.Fields, po.HeaderField{Key: key("key", 1, 1), Value: value("value", 0, n)})
	}
	e := h.ToEntry()
	verif.Assert(e.ID == "" && e.Context == "" && e.IsHeader(), "a header is the message with the empty identifier")
	g := po.EntryToHeader(e)
	verif.Assert(g.Template == h.Template, "a header is a template exactly if it is fuzzy")
	verif.Assert(sameFields(g.Fields, h.Fields), "the fields of a header survive")
	es := po.Entries{{ID: "x", Str: "y: z\n"}, {Context: "c", Str: "k: v\n"}, e}
	verif.Assert(es.HasHeader() && sameFields(es.Header().Fields, h.Fields), "the header is found among the messages")
	verif.Assert(!es[:2].HasHeader() && len(es[:2].Header().Fields) == 0, "and nothing else is one")
	f := po.File{Entries: es}
	verif.Assert(sameFields(f.Header().Fields, h.Fields), "the header of a file is that of its messages")
	verif.ObserveS("text", e.Str)
	verif.Reach("end")
}

// HText: the fields are what is around the first colon of each line.
func HText() {
	k, v := key("key", 1, 2), value("value", 0, 2)
	pre := []string{"", "no field\n", "A: b: c\n", "\n"}[verif.Choose("pre", 4)]
	sp := []string{"", " ", "  ", "\t"}[verif.Choose("space", 4)]
	end := []string{"", "\n", "\n\nX-Z: 1\n"}[verif.Choose("end", 3)]
	var want []po.HeaderField
	if pre == "A: b: c\n" {
		want = append(want, po.HeaderField{Key: "A", Value: "b: c"})
	}
	want = append(want, po.HeaderField{Key: k, Value: v})
	if len(end) > 1 {
		want = append(want, po.HeaderField{Key: "X-Z", Value: "1"})
	}
	h := po.EntryToHeader(po.Entry{Str: pre + k + ":" + sp + v + end})
	verif.Assert(sameFields(h.Fields, want), "the fields of a header are read")
	verif.ObserveI("n", len(h.Fields))
	verif.Reach("end")
}

// HNplurals: the number of plural forms is the one the header says, or 2.
func HNplurals() {
	n := 0
	text := ""
	for i := gen.Len("digits", 1, verif.Param("digits", 3)); i > 0; i-- {
		if k := verif.Param("tens", 0); k > 0 && text == "" {
			text = []string{"25", "6553", "429496729", "1844674407370955160"}[k-1]
			n = []int{25, 6553, 429496729, 1844674407370955160}[k-1]
		}
		d := verif.Int("digit", 0, 9)
		n = n*10 + d
		text += string([]byte{byte('0' + d)})
	}
	verif.Assume(text[0] != '0')
	shapes := []string{"nplurals=#; plural=(n != 1);", "nplurals=#;plural=n>1;", "nplurals = # ; plural = n%10==1 ? 0 : 1 ;", "plural=0; nplurals=#;", "nplurals=#; plural=0", "nplurals=#"}
	h := po.Header{Fields: []po.HeaderField{{Key: "Language", Value: "xx"}}}
	want := uint(2)
	switch k := verif.Choose("shape", len(shapes)+3); {
	case k < len(shapes):
		s := ""
		for i := range shapes[k] {
			if shapes[k][i] == '#' {
				s += text
			} else {
				s += shapes[k][i : i+1]
			}
		}
		h.Fields = append(h.Fields, po.HeaderField{Key: "Plural-Forms", Value: s})
		want = uint(n)
	case k == len(shapes):
		h.Fields = append(h.Fields, po.HeaderField{Key: "Plural-Forms", Value: "nplurals=INTEGER; plural=EXPRESSION;"})
	case k == len(shapes)+1:
		h.Fields = append(h.Fields, po.HeaderField{Key: "Plural-Forms", Value: "plural=0;"})
	}
	verif.Assert(h.Nplurals() == want, "the number of plural forms is the one the header says, or 2")
	verif.Assert(po.EntryToHeader(h.ToEntry()).Nplurals() == want, "also when it is read back")
	verif.Assert(h.ToConfig().Nplurals == want, "also in a configuration")
	verif.ObserveI("n", int(want))
	verif.Reach("end")
}

// charsets are the ones that GNU gettext knows.
var charsets = []string{
	"ASCII", "ISO-8859-1", "ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8",
	"ISO-8859-9", "ISO-8859-13", "ISO-8859-14", "ISO-8859-15", "KOI8-R", "KOI8-U", "KOI8-T", "CP850", "CP866", "CP874", "CP932",
	"CP949", "CP950", "CP1250", "CP1251", "CP1252", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "GB2312", "EUC-JP", "EUC-KR",
	"EUC-TW", "BIG5", "BIG5-HKSCS", "GBK", "GB18030", "SHIFT_JIS", "JOHAB", "TIS-620", "VISCII", "GEORGIAN-PS", "UTF-8",
}

// HConfig: a header configuration survives being a header and a message.
func HConfig() {
	t := func(label string) string { return value(label, 1, 1) }
	c := po.DefaultHeaderConfig()
	c.Template = verif.Choose("template", 2) == 1
	c.Language = t("language")
	part := verif.Choose("part", 10)
	switch part {
	case 0:
		c.ProjectIDVersion = t("project")
	case 1:
		c.ReportMsgidBugsTo = t("bugs")
	case 2:
		c.PORevisionDate, c.LastTranslator = t("revision"), t("translator")
	case 3:
		c.LanguageTeam = t("team")
	case 4:
		c.XGenerator = t("generator")
	case 5:
		if c.Template {
			c.POTCreationDate = t("creation")
		}
	case 6:
		c.ExtraFields = []po.HeaderField{{Key: "x-extra_1", Value: t("extra")}, {Key: "X-B", Value: "b"}}
	case 7:
		c.Charset = charsets[verif.Choose("charset", len(charsets))]
	case 8:
		c.Charset = charsets[4*verif.Choose("charset", 3)]
		c.Nplurals = uint(1 + verif.Choose("nplurals", 6))
		c.Plural = []string{"0", "n>1", "(n != 1)", "(n%10==1 && n%100!=11 ? 0 : 1)"}[verif.Choose("plural", 4)]
	}
	if part != 7 && verif.Choose("many", 2) == 1 {
		c.Nplurals = []uint{1, 255, 256, 1000, 65536, 1 << 31, 1<<64 - 1}[verif.Choose("big", 7)]
	}
	h := c.ToHeader()
	if verif.Choose("message", 2) == 1 {
		h = po.EntryToHeader(h.ToEntry())
	}
	g := h.ToConfig()
	verif.Assert(g.Template == c.Template, "the template mark survives")
	ok := verif.And(g.ProjectIDVersion == c.ProjectIDVersion, g.ReportMsgidBugsTo == c.ReportMsgidBugsTo)
	ok = verif.And(ok, verif.And(g.PORevisionDate == c.PORevisionDate, g.LastTranslator == c.LastTranslator))
	ok = verif.And(ok, verif.And(g.LanguageTeam == c.LanguageTeam, g.Language == c.Language))
	ok = verif.And(ok, verif.And(g.XGenerator == c.XGenerator, g.POTCreationDate == c.POTCreationDate))
	verif.Assert(ok, "the fields survive")
	verif.Assert(g.MimeVersion == "1.0" && g.MediaType == "text/plain" && g.ContentTransferEncoding == "8bit", "the constant fields survive")
	verif.Assert(g.Charset == c.Charset, "the charset survives")
	verif.Assert(sameFields(g.ExtraFields, c.ExtraFields), "extra fields survive")
	if !c.Template {
		verif.Assert(g.Nplurals == c.Nplurals && g.Plural == c.Plural, "the plural forms survive")
	}
	verif.Assert(len(c.Validate()) == 0, "the configuration is valid")
	verif.ObserveS("language", g.Language)
	verif.Reach("end")
}

// HMap: a header is an ordered map from names to values.
func HMap() {
	var h po.Header
	type kv struct{ k, v string }
	var ref []kv
	find := func(k string) int {
		for i := range ref {
			if ref[i].k == k {
				return i
			}
		}
		return -1
	}
	for i := 0; i < verif.Param("ops", 3); i++ {
		k := gen.Text("key", 0, 1)
		v := string(rune('a' + i))
		j := find(k)
		switch verif.Choose("op", 3) {
		case 0:
			h.Set(k, v)
			if j >= 0 {
				ref[j].v = v
			} else {
				ref = append(ref, kv{k, v})
			}
		case 1:
			h.Register(k, v, "z")
			if j < 0 {
				ref = append(ref, kv{k, v + "z"})
			}
		case 2:
			want := ""
			if j >= 0 {
				want = ref[j].v
			}
			verif.Assert(h.Load(k) == want, "a look up gives the last value that was set")
		}
	}
	verif.Assert(len(h.Fields) == len(ref), "every name is there once")
	for i := range ref {
		verif.Assert(h.Fields[i].Key == ref[i].k && h.Fields[i].Value == ref[i].v, "names keep their places")
		verif.Assert(h.Load(ref[i].k) == ref[i].v, "a look up gives the last value that was set")
	}
	verif.ObserveI("n", len(ref))
	verif.Reach("end")
}

// HValid: a header configuration is invalid exactly if one of its fields is.
func HValid() {
	c := po.HeaderConfig{}
	bad := 0
	c.Nplurals = uint(verif.Choose("nplurals", 3))
	if verif.Choose("plural", 2) == 1 {
		c.Plural = "0"
	}
	if (c.Nplurals == 0) != (c.Plural == "") {
		bad++
	}
	if k := verif.Choose("media", 3); k > 0 {
		c.MediaType = []string{"text/plain", "text/html"}[k-1]
		if k == 2 {
			bad++
		}
	}
	if k := verif.Choose("encoding", 3); k > 0 {
		c.ContentTransferEncoding = []string{"8bit", "7bit"}[k-1]
		if k == 2 {
			bad++
		}
	}
	if k := verif.Choose("charset", 4); k > 0 {
		c.Charset = []string{"UTF-8", "BIG5", "UTF-9"}[k-1]
		if k == 3 {
			bad++
		}
	}
	verif.Assert(len(c.Validate()) == bad, "every invalid field is reported, and nothing else")
	verif.ObserveI("bad", bad)
	verif.Reach("end")
}
