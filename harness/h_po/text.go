// Package h_po has the harnesses on PO files.
package h_po

import (
	"strings"
	"unicode/utf8"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// HText: a string in any place of an entry is written so that it reads back the same.
func HText() {
	n := verif.Param("n", 1)
	s := gen.Text("s", n, n)
	if verif.Param("utf", 0) == 1 { // one character of n bytes
		verif.Assume(s[0] >= 0xc0)
		if verif.Param("plane", 0) == 1 {
			verif.Assume(verif.And(s[0] == 0xf0, s[1] == 0x9f))
		}
		verif.Assume(utf8.ValidString(s))
		s = pick("before", "", "a") + s
	}
	if pad := verif.Param("pad", 0); pad > 0 {
		s = strings.Repeat("two w", pad) + s + strings.Repeat("ords ", pad)
	}
	if to := verif.Param("to", 0); to > 0 { // at any column of a text without spaces
		s = strings.Repeat("x", verif.Concrete(verif.Int("column", verif.Param("from", 0), to))) + s + strings.Repeat("y", verif.Param("after", 20))
		if verif.Param("words", 0) == 1 {
			s = "a few words " + s + " and others"
		}
	}
	e := po.Entry{ID: "i", Str: "t"}
	switch verif.Choose("place", 5) {
	case 0:
		e.ID = s
	case 1:
		e.Str = s
	case 2:
		e.Context = s
	case 3:
		e.Plural, e.Str = s, ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: "a"}, {ID: 1, Str: "b"}}
	case 4:
		e.Plural = "p"
		e.Str = ""
		e.Plurals = po.PluralEntries{{ID: 0, Str: s}, {ID: 1, Str: "b"}}
	}
	data := compile.PoToBytes(po.Entries{gen.CloneEntry(e)}, compile.PoWithWordWrap(verif.Choose("wrap", 2) == 1))
	verif.ObserveS("data", string(data))
	f, err := parse.PoFromBytes(data, "x", parse.PoWithCleanDuplicates(false))
	verif.Assert(err == nil, "a compiled PO file parses without error")
	verif.Assert(len(f.Entries) == 1, "it has the same number of messages")
	verif.Assert(gen.SameMessage(f.Entries[0], e), "the message survives")
	verif.Reach("end")
}
