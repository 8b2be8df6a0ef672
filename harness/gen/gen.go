// Package gen has the input generators that the harnesses share.
package gen

import (
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

// Len is a length between min and max, concrete on each path.
func Len(label string, min, max int) int {
	return verif.Concrete(verif.Int(label+".len", min, max))
}

// Text is any string of min to max bytes without the separators NUL and EOT.
func Text(label string, min, max int) string {
	s := verif.String(label, Len(label, min, max))
	for i := 0; i < len(s); i++ {
		verif.Assume(verif.And(s[i] != 0, s[i] != 4))
	}
	return s
}

// ASCII is any string of min to max printable ASCII bytes.
func ASCII(label string, min, max int) string {
	s := verif.String(label, Len(label, min, max))
	for i := 0; i < len(s); i++ {
		verif.Assume(verif.And(s[i] >= 32, s[i] < 127))
	}
	return s
}

// From is any string of min to max bytes of set.
func From(label string, min, max int, set string) string {
	return verif.StringIn(label, Len(label, min, max), set)
}

// Key is what identifies an entry.
func Key(e po.Entry) string {
	if e.Context == "" {
		return e.ID
	}
	return e.Context + "\x04" + e.ID
}

// Distinct assumes that no two of the entries have the same identity.
func Distinct(es po.Entries) {
	for i := range es {
		for j := 0; j < i; j++ {
			verif.Assume(verif.Or(es[i].ID != es[j].ID, es[i].Context != es[j].Context))
		}
	}
}

// Many are n messages of every kind with distinct identities, of which none is shorter than 3 bytes.
func Many(n int) po.Entries {
	var es po.Entries
	for i := 0; i < n; i++ {
		no := string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		e := po.Entry{ID: "m" + no, Str: "t" + no}
		e.Locations = append(make(po.Locations, 0, 4), po.Location{File: string(rune('a' + i*7%3)), Line: i * 13 % 40}, po.Location{File: "z", Line: i})
		switch i % 6 {
		case 1:
			e.Context = "ctx" + no
			e.ID = "same"
		case 2:
			e.Str, e.Plural = "", "ps"
			e.Plurals = po.PluralEntries{{ID: 0, Str: "one" + no}, {ID: 1, Str: "more" + no}}
			e.Locations = e.Locations[:1]
		case 3:
			e.Flags = []string{"c-format", "fuzzy"}
			e.Previous = []string{"msgid \"x" + no + "\""}
		case 4:
			e.Obsolete = true
			e.Comments = []string{"old " + no}
		case 5:
			e.Str = ""
			e.Comments = []string{"c" + no, "d"}
			e.ExtractedComments = []string{"e" + no}
			e.Flags = []string{"x" + no}
			e.Locations = e.Locations[:0]
		}
		es = append(es, e)
	}
	return es
}

// Clone is a copy of es that shares no memory with it.
func Clone(es po.Entries) po.Entries {
	if es == nil {
		return nil
	}
	out := make(po.Entries, len(es))
	for i, e := range es {
		out[i] = CloneEntry(e)
	}
	return out
}

func strs(s []string) []string {
	if s == nil {
		return nil
	}
	return append([]string{}, s...)
}

// CloneEntry is a copy of e that shares no memory with it.
func CloneEntry(e po.Entry) po.Entry {
	e.Flags = strs(e.Flags)
	e.Comments = strs(e.Comments)
	e.ExtractedComments = strs(e.ExtractedComments)
	e.Previous = strs(e.Previous)
	if e.Plurals != nil {
		e.Plurals = append(po.PluralEntries{}, e.Plurals...)
	}
	if e.Locations != nil {
		e.Locations = append(po.Locations{}, e.Locations...)
	}
	return e
}

func SameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verif.And(ok, a[i] == b[i])
	}
	return ok
}

func SameLocations(a, b po.Locations) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verif.And(ok, verif.And(a[i].Line == b[i].Line, a[i].File == b[i].File))
	}
	return ok
}

func SamePlurals(a, b po.PluralEntries) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verif.And(ok, verif.And(a[i].ID == b[i].ID, a[i].Str == b[i].Str))
	}
	return ok
}

// Same reports whether every field of the two entries is the same.
func Same(a, b po.Entry) bool {
	ok := SameStrs(a.Flags, b.Flags)
	ok = verif.And(ok, SameStrs(a.Comments, b.Comments))
	ok = verif.And(ok, SameStrs(a.ExtractedComments, b.ExtractedComments))
	ok = verif.And(ok, SameStrs(a.Previous, b.Previous))
	ok = verif.And(ok, SameLocations(a.Locations, b.Locations))
	return verif.And(ok, SameMessage(a, b))
}

// SameMessage reports whether the two entries have the same identity and translation.
func SameMessage(a, b po.Entry) bool {
	ok := verif.And(a.Obsolete == b.Obsolete, a.ID == b.ID)
	ok = verif.And(ok, verif.And(a.Context == b.Context, a.Plural == b.Plural))
	ok = verif.And(ok, verif.And(a.Str == b.Str, SamePlurals(a.Plurals, b.Plurals)))
	return ok
}

func SameAll(a, b po.Entries) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verif.And(ok, Same(a[i], b[i]))
	}
	return ok
}

// Observe records the entries, for the comparison with the native run.
func Observe(label string, es po.Entries) {
	verif.ObserveI(label+".n", len(es))
	for _, e := range es {
		verif.ObserveS(label+".id", e.ID)
		verif.ObserveS(label+".ctx", e.Context)
		verif.ObserveS(label+".plural", e.Plural)
		verif.ObserveS(label+".str", e.Str)
		verif.ObserveB(label+".obs", e.Obsolete)
		for _, p := range e.Plurals {
			verif.ObserveI(label+".pid", p.ID)
			verif.ObserveS(label+".pstr", p.Str)
		}
		for _, f := range e.Flags {
			verif.ObserveS(label+".flag", f)
		}
		for _, l := range e.Locations {
			verif.ObserveS(label+".file", l.File)
			verif.ObserveI(label+".line", l.Line)
		}
		for _, c := range e.Comments {
			verif.ObserveS(label+".comment", c)
		}
		for _, c := range e.ExtractedComments {
			verif.ObserveS(label+".extracted", c)
		}
		for _, c := range e.Previous {
			verif.ObserveS(label+".previous", c)
		}
	}
}

// Plain takes colors away: whatever is between an escape character and an "m".
func Plain(b []byte) (plain []byte, colored bool) {
	for i := 0; i < len(b); i++ {
		if b[i] != 0x1b {
			plain = append(plain, b[i])
			continue
		}
		colored = true
		for i < len(b) && b[i] != 'm' {
			i++
		}
	}
	return plain, colored
}
