package h_mo

import (
	"strings"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

// HAny: any bytes at all are either rejected or read as strings of the file.
func HAny() {
	n := gen.Len("size", verif.Param("min", 0), verif.Param("max", 30))
	data := verif.Bytes("data", n)
	if verif.Param("magic", 0) == 1 {
		verif.Assume(verif.And(verif.And(data[0] == 0xde, data[1] == 0x12), verif.And(data[2] == 0x04, data[3] == 0x95)))
	}
	if verif.Param("magic", 0) == 2 {
		verif.Assume(verif.And(verif.And(data[3] == 0xde, data[2] == 0x12), verif.And(data[1] == 0x04, data[0] == 0x95)))
	}
	verif.OpaqueNumbers(true)
	check(data)
}

// HBounds: a file with any value at all in one of the fields that say where
// its parts are is either rejected or read as strings of the file.
func HBounds() {
	const text = "i\x00s\x00"
	d := make([]byte, 44, 44+len(text))
	big := verif.Choose("big", 2) == 1
	w32 := func(off int, v uint32) {
		for i := 0; i < 4; i++ {
			if big {
				d[off+i] = byte(v >> (24 - 8*i))
			} else {
				d[off+i] = byte(v >> (8 * i))
			}
		}
	}
	if verif.Choose("cut", 2) == 0 {
		d = append(d, text...)
	}
	f := [...]uint32{0x950412de, 0, 1, 28, 36, 0, 44, 1, 44, 1, 46}
	switch k := verif.Choose("field", 8); k {
	case 0, 1, 2, 3, 4:
		f[k] = verif.Uint32("value")
	case 5:
		f[5], f[6] = verif.Uint32("hash"), verif.Uint32("value")
	case 6:
		f[7], f[8] = verif.Uint32("len"), verif.Uint32("value")
	case 7:
		f[9], f[10] = verif.Uint32("len"), verif.Uint32("value")
	}
	for i, v := range f {
		w32(4*i, v)
	}
	verif.OpaqueNumbers(true)
	check(d)
}

func check(data []byte) {
	before := string(data)
	p := parse.NewMoFromBytes(data, "x", parse.MoWithEndianness(parse.Endianness(verif.Choose("endian", verif.Param("endians", 3)))))
	f := p.Parse()
	verif.Assert((p.Error() == nil) == (len(p.Errors()) == 0), "the errors agree")
	if p.Error() == nil {
		verif.Assert(f != nil, "without an error there is a file")
		m := mo{before, before[0] == 0x95}
		verif.Assert(len(before) >= 28 && m.u32(0) == 0x950412de, "only a MO file is accepted")
		verif.Assert(uint32(len(f.Entries)) == m.u32(8), "every message of the file is read")
		for i, e := range f.Entries {
			want := read(m, i)
			verif.Assert(gen.Same(e, want), "a message is what the file says")
		}
		gen.Observe("f", f.Entries)
	}
	verif.Assert(string(data) == before, "the data is left alone")
	g := p.Parse()
	verif.Assert((g == nil) == (f == nil), "a second parse gives the same")
	if f != nil {
		verif.Assert(gen.SameAll(f.Entries, g.Entries), "a second parse gives the same messages")
	}
	verif.Reach("end")
}

func split(s string, sep byte, max int) []string {
	var out []string
	from := 0
	for i := 0; i < len(s) && len(out) < max-1; i++ {
		if s[i] == sep {
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return append(out, s[from:])
}

func (m mo) raw(tab, i int) string {
	verif.Assert(tab+8*i+8 <= len(m.d), "a table that is not inside the file is an error")
	l, o := verif.Concrete(int(m.u32(tab+8*i))), verif.Concrete(int(m.u32(tab+8*i+4)))
	verif.Assert(o <= len(m.d) && l <= len(m.d)-o, "a string that is not inside the file is an error")
	return m.d[o : o+l]
}

// read is the i-th message of the file.
func read(m mo, i int) (e po.Entry) {
	id := m.raw(verif.Concrete(int(m.u32(12))), i)
	str := m.raw(verif.Concrete(int(m.u32(16))), i)
	if c := split(id, 4, 2); len(c) == 2 {
		e.Context, id = c[0], c[1]
	}
	plural := false
	if c := split(id, 0, 3); len(c) > 1 {
		id, e.Plural = c[0], c[1]
		plural = true
	}
	e.ID = id
	parts := split(str, 0, 1000)
	if !plural && len(parts) == 1 {
		e.Str = str
		return
	}
	for j, s := range parts {
		e.Plurals = append(e.Plurals, po.PluralEntry{ID: j, Str: s})
	}
	return
}

// HForeign: a well-formed file of any layout, from any tool, is read as the
// messages it has.
func HForeign() {
	n := verif.Param("n", 1)
	// Strings, and tables, can be shared.
	share := 0
	if verif.Param("share", 0) == 1 {
		share = 1 + verif.Choose("share", 2)
	}
	var es po.Entries
	var ids, strs []string
	for i := 0; i < n; i++ {
		var e po.Entry
		e.ID = gen.Text("id", 0, verif.Param("id", 2))
		e.Context = gen.Text("ctx", 0, 1)
		id, str := gen.Key(e), ""
		if k := verif.Choose("forms", 3); k > 0 {
			e.Plural = gen.Text("plural", 1, 1)
			id += "\x00" + e.Plural
			for j := 0; j < k; j++ {
				s := gen.Text("form", 0, 1)
				e.Plurals = append(e.Plurals, po.PluralEntry{ID: j, Str: s})
				if j > 0 {
					str += "\x00"
				}
				str += s
			}
		} else {
			e.Str = gen.Text("str", 0, verif.Param("str", 2))
			str = e.Str
		}
		if share > 0 { // the translation is the identifier
			e.Str, e.Plurals, str = "", nil, id
			if c := split(id, 0, 1000); len(c) > 1 {
				for j, s := range c {
					e.Plurals = append(e.Plurals, po.PluralEntry{ID: j, Str: s})
				}
			} else {
				e.Str = str
			}
		}
		es, ids, strs = append(es, e), append(ids, id), append(strs, str)
	}
	for i := 0; i < verif.Param("many", 0); i++ {
		no := string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		e := po.Entry{ID: "m" + no, Str: strings.Repeat("t", i%7) + no}
		es, ids, strs = append(es, e), append(ids, e.ID), append(strs, e.Str)
		n++
	}
	big := verif.Choose("big", 2) == 1
	// The blocks of the file, in any of these orders, with a gap between them.
	const orig, trans, htab = -1, -2, -3
	var order []int
	switch verif.Choose("order", 4) {
	case 0:
		order = []int{orig, trans, htab, 0, 1}
	case 1:
		order = []int{trans, orig, 1, 0, htab}
	case 2:
		order = []int{1, htab, trans, 0, orig}
	case 3:
		order = []int{htab, 0, orig, 1, trans}
	}
	gap, versions := 1, 1
	if verif.Param("many", 0) == 0 {
		gap, versions = verif.Choose("gap", 3), 2
	}
	hsize := verif.Choose("hash", 2) * 3
	pos := 28
	var at [5]int
	offs := map[int]int{}
	size := func(b int) int {
		switch b {
		case orig, trans:
			return 8 * n
		case htab:
			return 4 * hsize
		case 0:
			t := 0
			for _, s := range ids {
				t += len(s) + 1
			}
			return t
		}
		t := 0
		for _, s := range strs {
			t += len(s) + 1
		}
		return t
	}
	for i, b := range order {
		if share > 0 && b == 1 || share > 1 && b == trans {
			continue
		}
		pos += gap
		at[i] = pos
		offs[b] = pos
		pos += size(b)
	}
	if share > 0 {
		offs[1] = offs[0]
	}
	if share > 1 {
		offs[trans] = offs[orig]
	}
	d := make([]byte, pos)
	w16 := func(off int, v int) {
		if big {
			d[off], d[off+1] = byte(v>>8), byte(v)
		} else {
			d[off], d[off+1] = byte(v), byte(v>>8)
		}
	}
	w32 := func(off int, v int) {
		if big {
			w16(off, v>>16)
			w16(off+2, v)
		} else {
			w16(off, v)
			w16(off+2, v>>16)
		}
	}
	w32(0, 0x950412de)
	w32(4, verif.Choose("major", versions)<<16|verif.Choose("minor", versions))
	w32(8, n)
	w32(12, offs[orig])
	w32(16, offs[trans])
	w32(20, hsize)
	w32(24, offs[htab])
	put := func(tab int, blk int, ss []string) {
		o := offs[blk]
		for i, s := range ss {
			w32(offs[tab]+8*i, len(s))
			w32(offs[tab]+8*i+4, o)
			copy(d[o:], s)
			o += len(s) + 1
		}
	}
	put(orig, 0, ids)
	put(trans, 1, strs)
	var opts []parse.MoOption
	if verif.Choose("forced", 2) == 1 {
		if big {
			opts = append(opts, parse.MoWithEndianness(parse.BigEndian))
		} else {
			opts = append(opts, parse.MoWithEndianness(parse.LittleEndian))
		}
	}
	f, err := parse.MoFromBytes(d, "x", opts...)
	verif.Assert(err == nil, "a well-formed MO file is read without error")
	verif.Assert(len(f.Entries) == n, "every message is read")
	for i := range es {
		verif.Assert(gen.Same(f.Entries[i], es[i]), "every message is what the file says")
	}
	gen.Observe("f", f.Entries)
	verif.Reach("end")
}
