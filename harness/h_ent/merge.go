package h_ent

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
)

func header(s string) po.Entry { return po.Entry{Str: s} }

// prefix makes identifiers similar.
func prefix() string {
	if verif.Param("similar", 0) == 1 {
		return "hello "
	}
	if n := verif.Param("long", 0); n > 0 {
		return strings.Repeat("hello ", n)
	}
	return ""
}

// defs are the entries of a translated file.
func defs(n int) po.Entries {
	var es po.Entries
	if verif.Choose("defheader", verif.Param("headers", 2)) == 1 {
		es = append(es, header("X-A: def\n"))
	}
	for i, e := range gen.Many(verif.Param("many", 0)) {
		e.Comments = []string{"translator " + string(rune('0'+i/10)) + string(rune('0'+i%10))}
		e.Flags = append(make([]string, 0, 4), "go-format")
		e.ExtractedComments = []string{"old"}
		if i%4 != 3 { // not all of them
			es = append(es, e)
		}
	}
	for i := 0; i < n; i++ {
		e := po.Entry{ID: prefix() + gen.From("did", 1, verif.Param("id", 1), "abc"), Context: gen.From("dctx", 0, verif.Param("ctx", 0), "xy")}
		if verif.Choose("dplural", verif.Param("dplurals", 2)) == 1 {
			e.Plural = "ps"
			e.Plurals = po.PluralEntries{{ID: 0, Str: "0" + string(rune('a'+i))}, {ID: 1, Str: "1" + string(rune('a'+i))}}
		} else {
			e.Str = gen.Text("dstr", 0, 1)
		}
		e.Obsolete = verif.Choose("dobsolete", 2) == 1
		e.Comments = []string{"translator " + string(rune('a'+i))}
		e.ExtractedComments = []string{"old"}
		e.Locations = append(make(po.Locations, 0, 4), po.Location{File: "old", Line: i})
		if verif.Choose("dfuzzy", verif.Param("dfuzzy", 1)) == 1 {
			e.Flags = append(make([]string, 0, 4), "fuzzy")
		} else {
			e.Flags = append(make([]string, 0, 4), "go-format")
		}
		es = append(es, e)
	}
	gen.Distinct(es)
	return es
}

// refs are the entries of a template.
func refs(n int) po.Entries {
	var es po.Entries
	if verif.Choose("refheader", verif.Param("headers", 2)) == 1 {
		es = append(es, header("X-A: ref\n"))
	}
	for i, e := range gen.Many(verif.Param("many", 0)) {
		e = po.Entry{ID: e.ID, Context: e.Context, Plural: e.Plural, ExtractedComments: []string{"new"}, Flags: make([]string, 0, 4)}
		e.Locations = append(make(po.Locations, 0, 4), po.Location{File: "new", Line: i + 100})
		if i%7 != 2 {
			es = append(es, e)
		}
	}
	for i := 0; i < n; i++ {
		e := po.Entry{ID: prefix() + gen.From("rid", 1, verif.Param("id", 1), "abc"), Context: gen.From("rctx", 0, verif.Param("ctx", 0), "xy")}
		e.Plural = []string{"", "ps", "pt"}[verif.Choose("rplural", verif.Param("rplurals", 2))]
		if e.Plural != "" && verif.Choose("rforms", verif.Param("rforms", 1)) == 1 {
			e.Plurals = po.PluralEntries{{ID: 0}, {ID: 1}} // as the ones of most templates
		}
		e.ExtractedComments = []string{"new"}
		e.Locations = append(make(po.Locations, 0, 4), po.Location{File: "new", Line: i})
		e.Obsolete = verif.Choose("robsolete", verif.Param("robsolete", 1)) == 1
		e.Flags = make([]string, 0, 4)
		es = append(es, e)
	}
	gen.Distinct(es)
	return es
}

func find(es po.Entries, e po.Entry) int {
	for i := range es {
		if same(es[i], e) {
			return i
		}
	}
	return -1
}

// live returns the messages that are not obsolete.
func live(es po.Entries) po.Entries {
	var out po.Entries
	for _, e := range es {
		if !e.Obsolete {
			out = append(out, e)
		}
	}
	return out
}

func isFuzzy(e po.Entry) bool {
	for _, f := range e.Flags {
		if f == "fuzzy" {
			return true
		}
	}
	return false
}

// HMergeSort: the result of a merge is in the order that is asked for, and otherwise that of one without.
func HMergeSort() {
	def, tmpl := defs(verif.Param("n", 2)), refs(verif.Param("m", 2))
	for i := range tmpl {
		for j := range tmpl[i].Locations {
			tmpl[i].Locations[j].File = verif.StringIn("file", 1, "ab")
			tmpl[i].Locations[j].Line = verif.AnyInt("line")
		}
	}
	mode := verif.Choose("mode", 7)
	match, keep := verif.Choose("match", 2) == 1, verif.Choose("keep", 2) == 1
	opts := []po.MergeOption{po.MergeWithFuzzyMatch(match), po.MergeWithKeepPreviousIDs(keep)}
	plain := po.Merge(gen.Clone(def), gen.Clone(tmpl), append(opts, po.MergeWithSort(false))...)
	out := po.Merge(def, tmpl, append(opts, po.MergeWithSortMode(po.SortMode(mode)))...)
	verif.Assert(len(out) == len(plain), "sorting keeps every message")
	if mode > 5 {
		mode = 0
	}
	for i, e := range out {
		verif.Assert(i == 0 || ref(mode, out[i-1], e), "the messages are in the order that is asked for")
		k := find(plain, e)
		verif.Assert(k >= 0 && gen.Same(plain[k], e), "sorting changes no message")
	}
	verif.Reach("end")
}

// HMerge: merging a translated file with a template.
func HMerge() {
	def, ref := defs(verif.Param("n", 1)), refs(verif.Param("m", 1))
	fuzzyMatch := verif.Choose("match", 2) == 1
	keep := verif.Choose("keep", 2) == 1
	sort := verif.Choose("sort", 2) == 1
	d, r := gen.Clone(def), gen.Clone(ref)
	for i := range d { // room that an append could write into
		d[i].Flags = append(make([]string, 0, 4), d[i].Flags...)
		d[i].Locations = append(make(po.Locations, 0, 4), d[i].Locations...)
	}
	for i := range r {
		r[i].Flags = append(make([]string, 0, 4), r[i].Flags...)
	}
	out := po.MergeWithConfig(po.MergeConfig{FuzzyMatch: fuzzyMatch, KeepPreviousIDs: keep, Sort: sort}, d, r)
	for i := range d {
		verif.Assert(gen.Same(d[i], def[i]) && (d[i].Flags == nil || d[i].Flags[:4][1] == ""), "the translated file is left alone")
	}
	for i := range r {
		verif.Assert(gen.Same(r[i], ref[i]) && (r[i].Flags == nil || r[i].Flags[:4][0] == ""), "the template is left alone")
	}
	verif.Assert(!out.HasDuplicates(), "every message is there once")
	ref = live(ref)
	for _, e := range ref {
		k := find(out, e)
		verif.Assert(k >= 0, "every message of the template is in the result")
		g := out[k]
		j := find(def, e)
		if e.ID == "" && e.Context == "" {
			want := e.Str
			if j >= 0 {
				want = def[j].Str
			}
			verif.Assert(g.Str == want, "the header is the one of the translated file, if it has one")
			continue
		}
		verif.Assert(!g.Obsolete, "every message of the template is live")
		verif.Assert(gen.SameLocations(g.Locations, e.Locations) && gen.SameStrs(g.ExtractedComments, e.ExtractedComments), "its references and extracted comments are those of the template")
		verif.Assert(g.Plural == e.Plural, "its plural is the one of the template")
		verif.Assert(g.Str == "" || len(g.Plurals) == 0, "it is singular or plural, not both")
		if j >= 0 {
			verif.Assert(gen.SameStrs(g.Comments, def[j].Comments), "its translator comments are those of the translated file")
			if g.Plural == def[j].Plural {
				verif.Assert(g.Str == def[j].Str && gen.SamePlurals(g.Plurals, def[j].Plurals), "an exact match keeps its translation")
				verif.Assert(isFuzzy(g) == isFuzzy(def[j]), "an exact match is as fuzzy as it was")
			} else {
				verif.Assert(isFuzzy(g), "a match with another plural is fuzzy")
				verif.Assert(form(g, 0) == form(def[j], 0), "and has its translation as its first form")
			}
		} else if !fuzzyMatch {
			verif.Assert(!isFuzzy(g) && g.Str == "" && len(g.Comments) == 0, "a new message is untranslated")
		} else {
			verif.Assert(isFuzzy(g) || g.Str == "" && form(g, 0) == "" && form(g, 1) == "", "a guessed translation is fuzzy")
		}
	}
	for _, e := range def {
		if find(ref, e) >= 0 {
			continue
		}
		k := find(out, e)
		if e.ID == "" && e.Context == "" {
			verif.Assert(k >= 0 && out[k].Str == e.Str && !out[k].Obsolete, "the header of the translated file is kept")
			continue
		}
		if fuzzyMatch && k < 0 {
			// Its translation went to a message of the template.
			g := -1
			for i := range out {
				if len(out[i].Comments) > 0 && out[i].Comments[0] == e.Comments[0] {
					g = i
				}
			}
			verif.Assert(g >= 0 && isFuzzy(out[g]), "the translation of a message that is gone is kept, if only as a guess")
			verif.Assert(form(out[g], 0) == form(e, 0), "with its first form, at least")
			if out[g].Plural != "" && e.Plural != "" {
				verif.Assert(gen.SamePlurals(out[g].Plurals, e.Plurals), "with every form of it")
			}
			continue
		}
		verif.Assert(k >= 0, "a message that is gone is kept")
		verif.Assert(out[k].Str == e.Str && gen.SamePlurals(out[k].Plurals, e.Plurals), "with its translation")
		if keep && !fuzzyMatch {
			verif.Assert(isFuzzy(out[k]), "as fuzzy")
		} else {
			verif.Assert(out[k].Obsolete, "as obsolete")
		}
	}
	for _, g := range out {
		verif.Assert(find(def, g) >= 0 || find(ref, g) >= 0, "nothing else is in the result")
	}
	if sort {
		verif.Assert(out.IsSorted(), "the result is sorted")
	}
	gen.Observe("out", out)
	verif.Reach("end")
}

// HMsgcat: concatenating files.
func HMsgcat() {
	nf := verif.Param("files", 2)
	var files []*po.File
	var all po.Entries
	var names []string
	for i := 0; i < nf; i++ {
		f := &po.File{Name: "file" + string(rune('0'+i))}
		if verif.Param("samename", 0) == 1 {
			f.Name = "file"
		}
		for k, e := range gen.Many(verif.Param("many", 0)) {
			if (k+i)%3 == 0 {
				continue
			}
			if k%5 == 0 && e.Plural == "" {
				e.Str += string(rune('0' + i))
			}
			e.Locations = append(make(po.Locations, 0, 4), po.Location{File: f.Name, Line: k})
			e.Flags = append(make([]string, 0, 4), "f"+string(rune('0'+i)))
			f.Entries = append(f.Entries, e)
		}
		for j := gen.Len("n", 0, verif.Param("n", 1)); j > 0; j-- {
			e := po.Entry{ID: gen.From("id", 0, 1, "ab")}
			if verif.Choose("plural", verif.Param("plurals", 2)) == 1 {
				e.Plural = "ps"
				ids := [][]int{[]int{0, 1}[:1+i%2], {0, 1}, {1, 0}, {1}, {2, 0}}[verif.Choose("ids", verif.Param("ids", 1))]
				if verif.Param("ids", 1) == 1 && i > 1 {
					ids = []int{0, 1, 2}
				}
				for _, k := range ids {
					e.Plurals = append(e.Plurals, po.PluralEntry{ID: k, Str: gen.Text("form", 0, 1)})
				}
			} else {
				e.Str = gen.Text("str", 0, 1)
			}
			e.Obsolete = verif.Choose("obsolete", verif.Param("obsoletes", 2)) == 1
			e.Locations = append(make(po.Locations, 0, 4), po.Location{File: f.Name, Line: j})
			e.Flags = append(make([]string, 0, 4), "f"+string(rune('0'+i)))
			own := string(rune('0' + i))
			notes := [][]string{nil, {"c" + own}, {"c", "d" + own}, {"c"}, {"c", "d"}}[:verif.Param("comments", 4)]
			n := verif.Choose("comment", len(notes))
			e.Comments = notes[n]
			e.ExtractedComments = notes[(n+2)%len(notes)]
			e.Previous = notes[(n+1)%len(notes)]
			f.Entries = append(f.Entries, e)
		}
		gen.Distinct(f.Entries)
		files = append(files, f)
		for _, e := range f.Entries {
			all = append(all, gen.CloneEntry(e))
			names = append(names, f.Name)
		}
	}
	useFirst := verif.Choose("first", 2) == 1
	lim := verif.Param("limit", 2)
	less, more := uint(verif.Choose("less", lim)*2), uint(verif.Choose("more", lim))
	opts := []po.MsgcatMergeOption{po.MsgcatMergeWithUseFirst(useFirst), po.MsgcatMergeWithMoreThan(more)}
	if less > 0 {
		opts = append(opts, po.MsgcatMergeWithLessThan(less))
	}
	out := po.MsgcatMergeFiles(files, opts...)
	k := 0
	i := 0
	for _, f := range files {
		for _, e := range f.Entries {
			verif.Assert(gen.Same(e, all[i]) && e.Flags[:2][1] == "" && e.Locations[:2][1].File == "", "the files are left alone")
			i++
		}
	}
	for i, e := range all {
		if first(all, i) != i {
			continue
		}
		var defs po.Entries
		for j := i; j < len(all); j++ {
			if same(all[j], e) {
				defs = append(defs, all[j])
			}
		}
		n := uint(len(defs))
		if n <= more || less > 0 && n >= less {
			continue
		}
		verif.Assert(k < len(out) && same(out[k], e), "every message with the requested number of definitions is there, once and in order")
		g := out[k]
		k++
		if useFirst || n == 1 {
			verif.Assert(gen.Same(g, e), "the first definition is used")
			continue
		}
		var locs po.Locations
		live := false
		conflict := false
		for _, d := range defs {
			locs = append(locs, d.Locations...)
			live = live || !d.Obsolete
			verif.Assert(gen.SameStrs(g.Flags[:1], e.Flags[:1]) && has(g.Flags, d.Flags[0]), "the flags of every definition are there")
			verif.Assert(hasAll(g.Comments, d.Comments), "the comments of every definition are there")
			verif.Assert(hasAll(g.ExtractedComments, d.ExtractedComments), "the extracted comments of every definition are there")
			verif.Assert(hasAll(g.Previous, d.Previous), "the previous identifiers of every definition are there")
			for _, t := range texts(d) {
				ok := len(t) == 0 || !((g.Plural != "") || d.Plural == "" || t == form(d, 0))
				for _, u := range texts(g) {
					ok = verif.Or(ok, verif.Contains(u, t))
				}
				if nf > 2 && conflict3(defs) && d.Plural == "" && e.Plural == "" && verif.Param("samename", 0) == 0 {
					ok = verif.Contains(g.Str, mark(d.Flags[0])+t)
				}
				verif.Assert(ok, "the translations of every definition are there")
			}
			conflict = conflict || clash(defs[0], d)
		}
		verif.Assert(gen.SameLocations(g.Locations, locs), "the locations of every definition are there")
		verif.Assert(g.Obsolete == !live, "it is obsolete only if every definition is")
		verif.Assert(g.Plural == e.Plural && (g.Str == "" || len(g.Plurals) == 0), "it is as singular or plural as the first definition")
		if nf == 2 {
			verif.Assert(isFuzzy(g) == conflict, "it is fuzzy exactly if the definitions differ")
		}
		if nf == 2 {
			for id := 0; id < 3; id++ {
				a, b := form(defs[0], id), form(defs[1], id)
				if a != "" && b != "" && a != b && (e.Plural != "" || id == 0) {
					verif.Assert(form(g, id) == mark(defs[0].Flags[0])+a+"\n"+mark(defs[1].Flags[0])+b, "translations that differ are each under the name of their file")
				}
			}
		}
		if !conflict && nf == 2 {
			for id := 0; id < 3; id++ {
				t := form(defs[0], id)
				if t == "" {
					t = form(defs[1], id)
				}
				verif.Assert(form(g, id) == t, "definitions that agree are merged without marks")
			}
		}
	}
	verif.Assert(k == len(out), "nothing else is there")
	gen.Observe("out", out)
	verif.Reach("end")
}

// mark returns the line above a definition from the file with the given flag.
func mark(flag string) string {
	name := "file"
	if verif.Param("samename", 0) == 0 {
		name += flag[1:]
	}
	return "#-#-#-#-#  " + name + "  #-#-#-#-#\n"
}

// conflict3 reports whether there are 3 definitions, all of them translated, and the first two differ from each other and from the last.
func conflict3(defs po.Entries) bool {
	if len(defs) != 3 {
		return false
	}
	a, b, c := defs[0].Str, defs[1].Str, defs[2].Str
	return a != "" && b != "" && c != "" && a != b && a != c && b != c
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func hasAll(ss, all []string) bool {
	for _, s := range all {
		if !has(ss, s) {
			return false
		}
	}
	return true
}

func texts(e po.Entry) []string {
	if e.Plural == "" {
		return []string{e.Str}
	}
	var out []string
	for _, p := range e.Plurals {
		out = append(out, p.Str)
	}
	return out
}

func form(e po.Entry, id int) string {
	for _, p := range e.Plurals {
		if p.ID == id {
			return p.Str
		}
	}
	if e.Plural == "" && id == 0 {
		return e.Str
	}
	return ""
}

func clash(a, b po.Entry) bool {
	if a.Plural != b.Plural {
		return true
	}
	for id := 0; id < 3; id++ {
		if x, y := form(a, id), form(b, id); x != "" && y != "" && x != y {
			return true
		}
	}
	return false
}

// HMergeForms: a new message with a plural gets the forms that the header asks for.
func HMergeForms() {
	n := 2
	side := func(label string, counts bool) (es po.Entries) {
		if verif.Choose(label+"header", 2) == 0 {
			return nil
		}
		text := "X-A: " + label + "\n"
		k := 2
		if verif.Choose(label+"forms", 2) == 1 {
			k = verif.Choose(label+"n", 5)
			text += "Plural-Forms: nplurals=" + string(rune('0'+k)) + "; plural=0;\n"
		}
		if counts {
			n = k
		}
		return po.Entries{header(text)}
	}
	def := side("def", true)
	tmpl := side("ref", len(def) == 0)
	def = append(def, po.Entry{ID: "kept", Str: "k"})
	tmpl = append(tmpl, po.Entry{ID: gen.From("rid", 1, 1, "abc"), Plural: "ps", Locations: po.Locations{{File: "new"}}}, po.Entry{ID: "kept"})
	id := tmpl[len(tmpl)-2].ID
	out := po.Merge(def, tmpl, po.MergeWithFuzzyMatch(false), po.MergeWithKeepPreviousIDs(verif.Choose("keep", 2) == 1), po.MergeWithSort(verif.Choose("sort", 2) == 1))
	k := out.Index(id, "")
	verif.Assert(k >= 0 && out[k].Plural == "ps", "every message of the template is there")
	verif.Assert(len(out[k].Plurals) == n, "a new message has as many forms as the header asks for")
	for i, f := range out[k].Plurals {
		verif.Assert(f.ID == i, "the forms are numbered")
	}
	verif.Reach("end")
}
