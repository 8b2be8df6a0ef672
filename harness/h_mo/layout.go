package h_mo

import (
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
)

// mo is an independent reader of MO files, after the GNU gettext manual.
type mo struct {
	d   string
	big bool
}

func (m mo) u32(off int) uint32 {
	if m.big {
		return uint32(m.d[off])<<24 | uint32(m.d[off+1])<<16 | uint32(m.d[off+2])<<8 | uint32(m.d[off+3])
	}
	return uint32(m.d[off+3])<<24 | uint32(m.d[off+2])<<16 | uint32(m.d[off+1])<<8 | uint32(m.d[off])
}

// hash is hash_string of GNU gettext.
func hash(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		h = h<<4 + uint32(s[i])
		g := h & 0xf0000000
		if g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

func (m mo) str(tab, i int) string {
	l, o := verif.Concrete(int(m.u32(tab+8*i))), verif.Concrete(int(m.u32(tab+8*i+4)))
	verif.Assert(l >= 0 && o >= 28 && o+l < len(m.d), "every string lies inside the file")
	verif.Assert(m.d[o+l] == 0, "every string ends with a NUL")
	return m.d[o : o+l]
}

func cstr(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return s[:i]
		}
	}
	return s
}

// HLayout: the file is one that the C library reads, where it finds every
// message, and nothing else, by binary search and through the hash table.
func HLayout() {
	es := messages()
	end := compile.Endianness(verif.Choose("endian", 3))
	withHash := verif.Choose("hash", 2) == 1
	data := compile.MoToBytes(gen.Clone(es), compile.MoWithEndianness(end), compile.MoWithHashTable(withHash))
	m := mo{string(data), end == compile.BigEndian}
	verif.Assert(len(m.d) >= 28, "the file has a header")
	verif.Assert(m.u32(0) == 0x950412de, "the file starts with the magic number in its byte order")
	verif.Assert(m.u32(4) == 0, "the file format revision is 0")
	n, orig, trans := int(m.u32(8)), int(m.u32(12)), int(m.u32(16))
	hsize, hoff := int(m.u32(20)), int(m.u32(24))
	verif.Assert(n == len(es), "the number of strings is right")
	verif.Assert(orig >= 28 && orig+8*n <= len(m.d), "the table of originals lies inside the file")
	verif.Assert(trans >= 28 && trans+8*n <= len(m.d), "the table of translations lies inside the file")
	verif.Assert(orig+8*n <= trans || trans+8*n <= orig, "the tables do not overlap")
	prev := ""
	find := func(s string) int {
		for i := 0; i < n; i++ {
			if cstr(m.str(orig, i)) == s {
				return i
			}
		}
		return -1
	}
	for i := 0; i < n; i++ {
		s := cstr(m.str(orig, i))
		m.str(trans, i)
		verif.Assert(i == 0 || prev < s, "the originals are in strictly increasing byte order")
		prev = s
	}
	for _, e := range es {
		k := find(gen.Key(e))
		verif.Assert(k >= 0, "every message is found")
		want, id := e.Str, gen.Key(e)
		if e.Plural != "" {
			id += "\x00" + e.Plural
			for j := range e.Plurals {
				if j > 0 {
					want += "\x00"
				}
				want += form(e, j)
			}
		}
		verif.Assert(m.str(orig, k) == id, "the original has the context, identifier and plural identifier")
		verif.Assert(m.str(trans, k) == want, "the translation has every form, in order")
	}
	if withHash {
		verif.Assert(hsize > 2 && hsize > n, "the hash table has room for a miss")
		verif.Assert(hoff >= 28 && hoff+4*hsize <= len(m.d), "the hash table lies inside the file")
		lookup := func(s string) int {
			h := hash(s)
			idx := verif.Concrete(int(h % uint32(hsize)))
			incr := verif.Concrete(1 + int(h%uint32(hsize-2)))
			for t := 0; t < hsize; t++ {
				v := verif.Concrete(int(m.u32(hoff + 4*idx)))
				if v == 0 {
					return -1
				}
				verif.Assert(v <= n, "the hash table refers to a message")
				if cstr(m.str(orig, v-1)) == s {
					return v - 1
				}
				if idx >= hsize-incr {
					idx -= hsize - incr
				} else {
					idx += incr
				}
			}
			return -2
		}
		for _, e := range es {
			k := lookup(gen.Key(e))
			verif.Assert(k >= 0 && k == find(gen.Key(e)), "every message is found through the hash table")
		}
		other := gen.Text("other", 0, verif.Param("other", 1))
		k := lookup(other)
		verif.Assert(k == find(other), "a lookup through the hash table ends, with what the table of originals says")
	} else {
		verif.Assert(hsize == 0, "there is no hash table")
	}
	verif.ObserveS("data", m.d)
	verif.Reach("end")
}

// HHash: the hash table is usable for any number of messages.
func HHash() {
	n := verif.Concrete(verif.Int("count", 0, verif.Param("n", 24)))
	var es po.Entries
	for i := 0; i < n; i++ {
		es = append(es, po.Entry{ID: "m" + string(rune('a'+i%26)) + string(rune('0'+i/26)), Str: "s"})
	}
	data := compile.MoToBytes(gen.Clone(es))
	m := mo{string(data), false}
	hsize, hoff := int(m.u32(20)), int(m.u32(24))
	verif.Assert(hsize > 2 && hsize > n, "the hash table has room for a miss")
	for d := 2; d*d <= hsize; d++ {
		verif.Assert(hsize%d != 0, "the size of the hash table is prime")
	}
	used := 0
	for i := 0; i < hsize; i++ {
		v := int(m.u32(hoff + 4*i))
		verif.Assert(v <= n, "the hash table refers to a message")
		if v > 0 {
			used++
		}
	}
	verif.Assert(used == n, "the hash table has every message once")
	verif.ObserveS("data", m.d)
	verif.Reach("end")
}
