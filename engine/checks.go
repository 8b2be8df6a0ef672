package main

// The bounds of every check. H names a harness function below /verif/harness,
// P its bounds (T overrides them in the thorough tier), Q and TT the time
// budgets in seconds, and Bound says what the bounds mean.

type P = map[string]int

const utf8Free = "strings are any bytes except NUL and EOT, which the format reserves"

var checks = []Check{
	{ID: "P01",
		Assume: []string{utf8Free, "identities (context, identifier) are pairwise distinct"},
		Runs: []Run{
			{H: "h_mo.HRoundTrip", P: P{"n": 1}, T: P{"id": 3, "str": 3}, Bound: "1 message, identifier and translation up to 2 bytes, context up to 1, 0-2 plural forms"},
			{H: "h_mo.HRoundTrip", P: P{"n": 2, "id": 1, "str": 1, "ctx": 0, "forms": 1}, T: P{"ctx": 1}, Bound: "2 messages, strings up to 1 byte, up to 1 plural form"},
			{H: "h_mo.HRoundTrip", P: P{"n": 3, "id": 1, "idmin": 1, "ctx": 0, "forms": 0, "str": 0}, T: P{"str": 1}, Bound: "3 messages, every order of their identifiers"},
			{H: "h_mo.HRoundTrip", P: P{"n": 0, "count": 300}, T: P{"count": 2000}, TT: 100, Bound: "303 messages of every kind, with any byte in 3 of them"},
			{H: "h_mo.HRoundTrip", P: P{"n": 0, "count": 3, "long": 70000}, TT: 100, Bound: "6 messages, of which 3 have strings longer than 64 kB, with any byte in them"},
			{H: "h_mo.HRoundTrip", P: P{"n": 1, "eot": 1, "id": 1, "str": 1}, Bound: "1 message with a context, whose identifier has a separator"},
			{H: "h_mo.HRoundTrip", P: P{"n": 2, "fixed": 1, "str": 2, "ctx": 0, "forms": 2}, Bound: "2 messages with translations up to 2 bytes or 2 plural forms"},
			{H: "h_mo.HRoundTrip", P: P{"n": 1, "fixed": 1, "str": 0, "ctx": 0, "forms": 3, "perm": 1}, T: P{"forms": 4}, TT: 100, Bound: "1 message with up to 3 plural forms in any order"},
			{H: "h_mo.HDropped", P: P{"n": 2}, T: P{"n": 3}, Bound: "n messages, each live, fuzzy or obsolete, identities not necessarily distinct"},
		},
		Outside: "more than 3 messages, strings longer than the bounds, non-consecutive plural form numbers"},
	{ID: "P02",
		Assume: []string{utf8Free, "identities are pairwise distinct"},
		Runs: []Run{
			{H: "h_mo.HLayout", P: P{"n": 1}, Bound: "1 message, identifier and translation up to 2 bytes"},
			{H: "h_mo.HLayout", P: P{"n": 2, "id": 1, "ctx": 0, "str": 1, "forms": 0}, Bound: "2 messages with strings up to 1 byte, a lookup of any string up to 1 byte"},
			{H: "h_mo.HLayout", P: P{"n": 1, "eot": 1, "id": 1, "str": 1, "forms": 1}, Bound: "1 message with a context, whose identifier has a separator"},
			{H: "h_mo.HLayout", P: P{"n": 2, "fixed": 1, "str": 3, "ctx": 0, "forms": 2, "other": 0}, Bound: "2 messages with translations up to 3 bytes or 2 plural forms"},
			{H: "h_mo.HLayout", P: P{"n": 3, "fixed": 1, "str": 1, "ctx": 0, "forms": 0, "other": 0}, T: P{"str": 2}, Bound: "3 messages with translations up to 1 byte"},
			{H: "h_mo.HLayout", P: P{"n": 0, "count": 100, "other": 0}, T: P{"count": 300}, TT: 100, Bound: "103 messages of every kind, with any byte in 3 of them"},
			{H: "h_mo.HLayout", P: P{"n": 0, "count": 3, "long": 70000, "other": 0}, Steps: 100000000, TT: 100, Bound: "6 messages, of which 3 have strings longer than 64 kB, with any byte in them"},
			{H: "h_mo.HLayout", P: P{"n": 3, "id": 1, "idmin": 1, "ctx": 0, "forms": 0, "str": 0, "other": 0}, Only: "thorough", TT: 300, Bound: "3 messages of 1 byte"},
			{H: "h_mo.HHash", P: P{"n": 24}, T: P{"n": 48}, Bound: "any number of messages up to n, with fixed identifiers"},
		},
		Outside: "longer strings, more messages"},
	{ID: "P03",
		Runs: []Run{
			{H: "h_mo.HAny", P: P{"max": 27}, Bound: "any bytes up to 27 (too short for a header)"},
			{H: "h_mo.HAny", P: P{"min": 28, "max": 28, "magic": 1, "endians": 1}, Only: "thorough", TT: 150, Bound: "any 28 byte header after the magic number"},
			{H: "h_mo.HBounds", P: P{}, Q: 100, TT: 200, Bound: "a one message file with any 32-bit value in each of its fields (count, table offsets, hash table size and offset, length and offset of a string), with or without its strings"},
		},
		Outside: "several wrong fields at once, except those of one descriptor"},
	{ID: "P04",
		Assume: []string{utf8Free},
		Runs: []Run{
			{H: "h_mo.HForeign", P: P{"n": 1}, Bound: "1 message; 4 orders of the blocks of the file, gaps of 0-2 bytes, both byte orders, revision 0 or 1, with or without a hash table"},
			{H: "h_mo.HForeign", P: P{"n": 1, "id": 1, "share": 1}, Bound: "1 message whose translation is its identifier, in the same place of the file"},
			{H: "h_mo.HForeign", P: P{"n": 1, "id": 1, "str": 0, "many": 150}, Steps: 60000000, Bound: "1 message before 150 others"},
			{H: "h_mo.HForeign", P: P{"n": 2, "id": 1, "str": 0}, Only: "thorough", Bound: "2 messages"},
		},
		Outside: "system dependent strings (minor revision 1)"},
	{ID: "P05",
		Assume: []string{utf8Free},
		Runs: []Run{
			{H: "h_po.HText", P: P{"n": 1}, Bound: "any 1 byte in any of the places of an entry, wrapped or not"},
			{H: "h_po.HText", P: P{"n": 2}, Q: 60, Bound: "any 2 bytes"},
			{H: "h_po.HText", P: P{"n": 2, "utf": 1}, Bound: "any character of 2 bytes, at the beginning or behind another"},
			{H: "h_po.HText", P: P{"n": 3, "utf": 1}, TT: 100, Bound: "any character of 3 bytes"},
			{H: "h_po.HText", P: P{"n": 4, "utf": 1, "plane": 1}, Bound: "any character from U+1F000 to U+1FFFF"},
			{H: "h_po.HText", P: P{"n": 4, "utf": 1}, Only: "thorough", TT: 400, Bound: "any character of 4 bytes"},
			{H: "h_po.HText", P: P{"n": 1, "pad": 40}, Bound: "any byte in the middle of a text of 80 words, wrapped or not"},
			{H: "h_po.HText", P: P{"n": 1, "from": 66, "to": 80}, T: P{"from": 40, "to": 100}, TT: 100, Bound: "any byte at any of the columns from 66 to 80 (thorough: 40 to 100) of a text without spaces"},
			{H: "h_po.HText", P: P{"n": 1, "from": 1500, "to": 1500, "after": 500}, Only: "thorough", TT: 100, Bound: "any byte in a text of 2000 bytes"},
			{H: "h_po.HText", P: P{"n": 1, "from": 48, "to": 70, "words": 1}, Only: "thorough", TT: 100, Bound: "any byte at any of the columns of a long word between others"},
			{H: "h_po.HText", P: P{"n": 2, "pad": 20}, Only: "thorough", TT: 100, Bound: "any 2 bytes in the middle of a text of 40 words"},
			{H: "h_po.HText", P: P{"n": 3}, Only: "thorough", TT: 500, Bound: "any 3 bytes"},
		},
		Outside: "longer strings of which more than the given bytes vary"},
	{ID: "P06",
		Assume: []string{utf8Free, "a flag has no commas, spaces or control characters; a file name has no control characters but tabs and no spaces around it; a file name without a line has no colon"},
		Runs: []Run{
			{H: "h_po.HMeta", P: P{"n": 1}, T: P{"full": 1}, TT: 100, Bound: "2 messages; any byte in a comment, extracted comment, previous message, flag or file name; any line up to 99; many, long and repeated comments, flags and references; 8 combinations of plural, obsolete, order, wrapping and obsolete prefix which pair every two"},
			{H: "h_po.HMeta", P: P{"n": 1, "inner": 1}, T: P{"n": 2, "inner": 1}, TT: 100, Bound: "file names with any byte or a tab between two letters"},
			{H: "h_po.HCatalogue", P: P{"many": 40}, Steps: 60000000, Q: 50, Bound: "any byte in a comment and a translation in a file of 40 messages"},
			{H: "h_po.HPrefix", P: P{}, Bound: "obsolete messages marked with any character that does not mark other comments"},
			{H: "h_po.HMeta", P: P{"n": 2}, T: P{"line": 12345}, TT: 200, Bound: "any 2 bytes"},
		},
		Outside: "longer texts, more messages"},
	{ID: "P07",
		Runs: []Run{
			{H: "h_po.HAny", P: P{"n": 2}, T: P{"n": 3}, TT: 300, Bound: "any text up to n bytes"},
			{H: "h_po.HTokens", P: P{"k": 2}, Q: 60, Bound: "every sequence of 2 of 18 tokens, one of which is any byte, after each of 4 beginnings"},
			{H: "h_po.HTokens", P: P{"k": 3}, Only: "thorough", TT: 400, Bound: "every sequence of 3 tokens"},
			{H: "h_po.HDamage", P: P{}, Q: 90, Bound: "a file with every part of the syntax in which any one byte is replaced by any other, or added, or where it ends early"},
			{H: "h_po.HRefused", P: P{}, Q: 50, TT: 100, Bound: "an obsolete message with every part of the syntax in which any one byte but a newline is replaced or added, or where it ends early"},
		},
		Outside: "longer texts with more than one arbitrary byte"},
	{ID: "P08",
		Assume: []string{utf8Free},
		Runs: []Run{
			{H: "h_po.HLayout", P: P{}, T: P{"full": 1}, TT: 200, Bound: "2 messages; any byte in each place; 7 kinds of white space before strings, 8 between their pieces, 6 between lines, 3 ends (two of the first three at a time)"},
			{H: "h_po.HEscapes", P: P{}, Bound: "every escape sequence of C, octal of 1-3 digits and hexadecimal of 2, and any byte behind it"},
			{H: "h_po.HComments", P: P{}, T: P{"lines": 3}, TT: 300, Bound: "2 comment lines of 9 kinds with any byte of text"},
			{H: "h_po.HForms", P: P{}, Bound: "a message with 12 plural forms, live or obsolete, with any byte in one"},
			{H: "h_po.HObsolete", P: P{}, Bound: "an obsolete message in 5 shapes with 4 kinds of space and 3 line ends in 4 places among others"},
		},
		Outside: "domain directives, charsets other than UTF-8"},
	{ID: "P09",
		Runs: []Run{
			{H: "h_ent.HOrder", P: P{"cmp": 0}, Bound: "3 entries: identifier of 1 byte, fuzzy or not, obsolete or not, up to 1 location with any line"},
			{H: "h_ent.HOrder", P: P{"cmp": 1}, Bound: "3 entries: identifier up to 2 bytes, context up to 1"},
			{H: "h_ent.HOrder", P: P{"cmp": 2, "file": 1}, T: P{"file": 2}, Bound: "3 entries with up to 2 locations"},
			{H: "h_ent.HOrder", P: P{"cmp": 3}, Bound: "3 entries with up to 2 locations with any line"},
			{H: "h_ent.HOrder", P: P{"cmp": 4}, Bound: "3 entries, fuzzy or not"},
			{H: "h_ent.HOrder", P: P{"cmp": 5}, Bound: "3 entries, obsolete or not"},
			{H: "h_ent.HOrder", P: P{"cmp": 6}, Bound: "3 entries: singular or plural, up to 2 forms with any number"},
			{H: "h_ent.HOrderParts", P: P{"file": 3}, Q: 40, Bound: "3 locations with file names up to 3 bytes, also ones like ./a, or 3 plural forms, with any line or number"},
			{H: "h_ent.HSort", P: P{"mode": 0, "n": 2}, T: P{"n": 3}, Bound: "n entries, everything"},
			{H: "h_ent.HSort", P: P{"mode": 1, "n": 3}, Bound: "3 entries by identity"},
			{H: "h_ent.HSort", P: P{"mode": 2, "n": 2}, T: P{"n": 3}, Bound: "n entries by file"},
			{H: "h_ent.HSort", P: P{"mode": 3, "n": 2}, T: P{"n": 3}, Bound: "n entries by line"},
			{H: "h_ent.HSort", P: P{"mode": 4, "n": 3}, Bound: "3 entries by fuzziness"},
			{H: "h_ent.HSort", P: P{"mode": 5, "n": 3}, Bound: "3 entries by obsolescence"},
			{H: "h_ent.HSort", P: P{"mode": 0, "n": 1, "many": 60}, Bound: "1 entry among 60 others, everything"},
			{H: "h_ent.HSort", P: P{"mode": 1, "n": 2, "many": 60}, Bound: "2 entries among 60 others, by identity"},
			{H: "h_ent.HSort", P: P{"mode": 2, "n": 1, "many": 60}, Bound: "1 entry among 60 others, by file"},
			{H: "h_ent.HSort", P: P{"mode": 3, "n": 1, "many": 60}, Bound: "1 entry among 60 others, by line"},
			{H: "h_ent.HSort", P: P{"mode": 4, "n": 2, "many": 40}, Bound: "2 entries among 40 others, by fuzziness"},
			{H: "h_ent.HSort", P: P{"mode": 5, "n": 2, "many": 40}, Bound: "2 entries among 40 others, by obsolescence"},
			{H: "h_ent.HSortParts", P: P{"n": 3}, Bound: "3 locations, or 3 plural forms"},
		},
		Outside: "more than 3 entries that vary, more than 62 in all, longer strings"},
	{ID: "P10",
		Runs: []Run{
			{H: "h_ent.HEqualEntry", P: P{}, Bound: "2 entries, strings up to 1 byte, up to 2 forms or flags"},
			{H: "h_ent.HEqualAll", P: P{"n": 1}, Bound: "2 collections or files of up to 1 entry; any part of it with up to 2 elements"},
			{H: "h_ent.HEqualAll", P: P{"n": 2}, Only: "thorough", TT: 200, Bound: "2 collections of up to 2 entries"},
			{H: "h_ent.HEqualShared", P: P{}, Bound: "2 collections, or parts of an entry, of up to 3 elements that may share memory"},
			{H: "h_ent.HEqualMany", P: P{"n": 40}, Bound: "2 collections of 40 entries that differ in any one place, or not"},
			{H: "h_ent.HEqualParts", P: P{}, Bound: "up to 2 locations or plural forms with any line or number"},
		},
		Outside: "longer strings and collections"},
	{ID: "P11",
		Runs: []Run{
			{H: "h_ent.HDuplicates", P: P{"n": 3}, Bound: "3 entries, identifier and context up to 1 byte"},
			{H: "h_ent.HDuplicates", P: P{"n": 2, "many": 100}, Bound: "2 entries among 100 others"},
			{H: "h_ent.HClean", P: P{"n": 3}, Bound: "3 entries, identifier and context up to 1 byte, 2 locations each"},
			{H: "h_ent.HClean", P: P{"n": 2, "many": 100}, Bound: "2 entries among 100 others"},
			{H: "h_ent.HFilter", P: P{"n": 3}, Bound: "3 entries, any of them fuzzy, obsolete, empty or the header"},
			{H: "h_ent.HFilter", P: P{"n": 2, "many": 40}, Bound: "2 entries among 40 others"},
			{H: "h_ent.HPluralSolve", P: P{"n": 3}, T: P{"n": 4}, Bound: "3 plural forms"},
		},
		Outside: "more than 3 entries that vary, more than 102 in all"},
	{ID: "P12",
		Assume: []string{"identities are pairwise distinct within each of the two files"},
		Runs: []Run{
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 1, "dfuzzy": 2}, Bound: "1 message and 1 in the template, each singular or plural, headers or none, every option"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 1, "ctx": 1, "dfuzzy": 2}, Bound: "the same with contexts"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 1, "rplurals": 3}, Bound: "1 message and 1 in the template, with another plural identifier"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 2, "similar": 1}, Bound: "1 message and 2 in the template, with similar identifiers"},
			{H: "h_ent.HMerge", P: P{"n": 2, "m": 1, "similar": 1}, Bound: "2 messages and 1 in the template, with similar identifiers"},
			{H: "h_ent.HMerge", P: P{"n": 2, "m": 2, "similar": 1}, Only: "thorough", TT: 100, Bound: "2 messages and 2 in the template, with similar identifiers"},
			{H: "h_ent.HMerge", P: P{"n": 2, "m": 1, "similar": 1, "ctx": 1, "headers": 1, "dplurals": 1, "rplurals": 1}, Bound: "2 messages and 1 in the template, with similar identifiers and contexts"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 2, "similar": 1, "rforms": 2}, Bound: "1 message and 2 in the template, with similar identifiers and empty forms"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 2, "robsolete": 2}, Bound: "1 message and 2 in the template, some of them obsolete"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 2, "long": 40}, Bound: "1 message and 2 in the template, with identifiers of 240 bytes that differ in one"},
			{H: "h_ent.HMerge", P: P{"n": 1, "m": 1, "many": 24}, Steps: 60000000, Q: 40, Bound: "1 message and 1 in the template among 24 others"},
			{H: "h_ent.HMergeForms", P: P{}, Bound: "a new message with a plural, each header absent or with up to 4 forms or none said"},
			{H: "h_ent.HMergeSort", P: P{"n": 1, "m": 2}, Q: 40, Bound: "1 message and 2 in the template in any 2 files and on any lines, each of the 6 orders and one that is none, with and without guessing and keeping"},
			{H: "h_ent.HMerge", P: P{"n": 2, "m": 1}, Q: 30, Bound: "2 messages and 1 in the template"},
			{H: "h_ent.HMerge", P: P{"n": 2, "m": 2}, Q: 60, TT: 200, Bound: "2 messages and 2 in the template, identifiers of 1 byte"},
		},
		Outside: "more messages that vary; how good a guessed match is, which is a heuristic"},
	{ID: "P13",
		Assume: []string{"identities are pairwise distinct within each file"},
		Runs: []Run{
			{H: "h_ent.HMsgcat", P: P{"files": 1, "n": 2}, Bound: "1 file of up to 2 messages"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 1}, Q: 60, Bound: "2 files of up to 1 message, singular or plural, live or obsolete, any limits"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 1, "comments": 1, "samename": 1}, Bound: "2 files of the same name"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 1, "comments": 1, "obsoletes": 1, "ids": 5}, Bound: "5 sets of forms, in order or not"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 1, "comments": 5, "plurals": 1, "obsoletes": 1}, Bound: "5 shapes of comments, with lines that both or only one of the files has"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 2, "comments": 1, "plurals": 1, "obsoletes": 1}, Bound: "2 files of up to 2 messages"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 1, "comments": 1, "plurals": 1, "obsoletes": 1, "many": 40}, Bound: "2 files of 1 message among 40 others"},
			{H: "h_ent.HMsgcat", P: P{"files": 2, "n": 2, "plurals": 1, "obsoletes": 1}, Only: "thorough", TT: 300, Bound: "2 files of up to 2 messages"},
			{H: "h_ent.HMsgcat", P: P{"files": 3, "n": 1, "plurals": 1, "obsoletes": 1, "comments": 1, "limit": 4}, Bound: "3 files, less than 0-6 and more than 0-3 definitions"},
			{H: "h_ent.HMsgcat", P: P{"files": 3, "n": 1, "plurals": 1, "obsoletes": 1, "comments": 2}, Q: 60, TT: 300, Bound: "3 files of up to 1 message"},
		},
		Outside: "more files, more messages that vary; the wording of conflict marks"},
	{ID: "P14",
		Assume: []string{"a field's name has no colon, space or newline; its value has no newline and no spaces around it"},
		Runs: []Run{
			{H: "h_cfg.HFields", P: P{}, T: P{"n": 3, "len": 3}, Bound: "up to 2 fields with values up to 2 bytes"},
			{H: "h_cfg.HFields", P: P{"n": 1, "len": 1, "many": 40}, Steps: 60000000, Bound: "1 field among 40 others"},
			{H: "h_cfg.HText", P: P{}, Bound: "1 field of any name and value up to 2 bytes between other lines, with 4 kinds of space"},
			{H: "h_cfg.HNplurals", P: P{"digits": 2}, T: P{"digits": 3}, TT: 100, Bound: "any number from 1 to 99 in 6 ways of writing it"},
			{H: "h_cfg.HNplurals", P: P{"digits": 1, "tens": 1}, Bound: "250-259"},
			{H: "h_cfg.HNplurals", P: P{"digits": 1, "tens": 2}, Bound: "65530-65539"},
			{H: "h_cfg.HNplurals", P: P{"digits": 1, "tens": 3}, Bound: "4294967290-4294967299"},
			{H: "h_cfg.HNplurals", P: P{"digits": 1, "tens": 4}, Bound: "18446744073709551600-9"},
			{H: "h_cfg.HConfig", P: P{}, Bound: "every field with any value of 1 byte, template or not; all 44 charsets, 4 plural rules"},
			{H: "h_cfg.HMap", P: P{"ops": 3}, T: P{"ops": 4}, Bound: "3 operations on names up to 1 byte"},
			{H: "h_cfg.HValid", P: P{}, Bound: "every combination of absent, valid and invalid fields"},
		},
		Outside: "most numbers of plural forms over 99, longer values"},
	{ID: "P15",
		Runs: []Run{
			{H: "h_cfg.HRestore", P: P{"kind": 0}, Bound: "every 1 or 2 of the 23 options of the PO compiler with any value"},
			{H: "h_cfg.HRestore", P: P{"kind": 1}, Bound: "the same for the MO compiler"},
			{H: "h_cfg.HRestore", P: P{"kind": 2}, Bound: "the same for the PO parser"},
			{H: "h_cfg.HRestore", P: P{"kind": 3}, Bound: "the same for the MO parser"},
			{H: "h_cfg.HRestore", P: P{"kind": 4}, Bound: "the same for the Go parser"},
			{H: "h_cfg.HTemporary", P: P{}, Bound: "every option given to one operation on a file of 5 messages, also one that fails"},
			{H: "h_cfg.HOptions", P: P{"kind": 0}, Bound: "every 1 or 2 of the 16 options of headers with any value up to 1 character, for each of the 3 kinds of header"},
			{H: "h_cfg.HOptions", P: P{"kind": 1}, Bound: "every 1 or 2 of the 5 options of merging"},
			{H: "h_cfg.HOptions", P: P{"kind": 2}, Bound: "every 1 or 2 of the 4 options of concatenating, with any number"},
		},
		Outside: "more than 2 options at once"},
	{ID: "P16",
		Runs: []Run{
			{H: "h_cfg.HWriter", P: P{}, Bound: "3 messages written to a writer which fails after any of 41 lengths"},
			{H: "h_cfg.HWriter", P: P{"big": 1, "pieces": 8}, T: P{"pieces": 40}, TT: 100, Bound: "8 messages of 5 kB, which is more than a buffer"},
			{H: "h_cfg.HTemporary", P: P{}, Bound: "every option given to one operation on a file of 5 messages, also one that fails"},
		},
		Outside: "output to files, which is P19"},
	{ID: "P17",
		Assume: []string{"the package is imported under its path; identifiers are literals, not expressions"},
		Runs: []Run{
			{H: "h_go.HCall", P: P{"n": 1}, Q: 60, T: P{"n": 2}, TT: 300, Bound: "1 call of any of 8 functions in 6 places of a file, with 6 kinds of import of the package, any ASCII byte in any of its literals, which are raw, interpreted or with escapes"},
			{H: "h_go.HTwo", P: P{}, Bound: "every 2 of the 8 functions, called with equal or different arguments"},
			{H: "h_go.HTwo", P: P{"many": 60}, Steps: 60000000, Q: 40, Bound: "every 2 of the 8 functions, behind 60 other calls"},
			{H: "h_go.HAll", P: P{"n": 1}, T: P{"n": 2}, Bound: "literals in every place of a file, with any ASCII byte"},
			{H: "h_go.HArgs", P: P{}, T: P{"full": 1, "n": 5}, TT: 200, Bound: "up to 4 arguments of every kind of expression"},
			{H: "h_go.HBroken", P: P{}, Bound: "a file in which any one byte is replaced or where it ends early"},
		},
		Outside: "longer literals, text that is not ASCII except in escapes, concatenated literals"},
	{ID: "P18",
		Runs: []Run{
			{H: "h_go.HLine", P: P{}, T: P{"n": 3}, TT: 100, Bound: "1 message after any comment and white space up to 2 bytes, in 5 shapes of call"},
			{H: "h_go.HLine", P: P{"lines": 150, "n": 1}, Steps: 60000000, Q: 40, Bound: "1 message after 150 lines"},
			{H: "h_go.HWalk", P: P{}, Bound: "a tree of 5 directories with 12 files, of which any 4 may be missing, 6 sets of paths and 7 of exclusions"},
			{H: "h_go.HReuse", P: P{}, T: P{}, Bound: "every 2 of 4 files, parsed one after another by the same parser"},
		},
		Outside: "larger trees, links, files that change while they are read"},
	{ID: "P19",
		Runs: []Run{
			{H: "h_file.HWrite", P: P{}, T: P{"str": 1, "limits": 12}, TT: 200, Bound: "a PO or MO file of 3 messages with any byte, written in 3 ways over nothing, a shorter, longer or empty file, a directory or below none; room for any of 7 parts of it; every combination of the options"},
			{H: "h_file.HWrite", P: P{"n": 0, "big": 4200, "limits": 4}, T: P{"big": 9000}, TT: 200, Bound: "a file larger than a buffer"},
			{H: "h_file.HRead", P: P{}, T: P{"str": 1}, TT: 200, Bound: "the same files, cut at any of 8 places or not, read in 3 ways, and 3 paths that are no file"},
		},
		Outside: "failures to close a file, permissions, links, other processes"},
	{ID: "P20",
		Assume: []string{utf8Free},
		Runs: []Run{
			{H: "h_opt.HStyle", P: P{"n": 1}, T: P{"n": 2}, TT: 200, Bound: "3 messages, live or obsolete, with any byte in each place, wrapped or not; 8 classes of highlighting, all of them, and the two given ones"},
			{H: "h_opt.HSource", P: P{"k": 2}, T: P{"n": 2}, TT: 200, Bound: "every sequence of 2 of 12 tokens, one of which is any byte but escape"},
		},
		Outside: "which class a part belongs to"},
	{ID: "P21",
		Runs: []Run{
			{H: "c_fmt.HCompile", P: P{}, Bound: "2 files or standard input in 4 combinations, of which one is broken in 4 ways; with a directory or not; 5 formats; 3 outputs, which exist or not; room for any of 3 parts of it"},
			{H: "c_fmt.HCompile", P: P{"n": 1}, T: P{"n": 2}, TT: 200, Bound: "any byte in a translation"},
			{H: "c_fmt.HDirectory", P: P{}, Bound: "a directory with 2 PO files and others, one of them broken or not, compiled before or not"},
			{H: "c_fmt.HDirectory", P: P{"n": 1}, T: P{"n": 2}, TT: 100, Bound: "any byte in a translation"},
		},
		Outside: "several directories, messages other than those of the 2 files"},
	{ID: "P22",
		Runs: []Run{
			{H: "c_fmt.HDecompile", P: P{}, Bound: "2 files or standard input in 5 combinations, of which one is broken in 2 ways; every option"},
			{H: "c_fmt.HDecompile", P: P{"n": 1}, T: P{"n": 2}, TT: 200, Bound: "any byte in an identifier or a translation"},
		},
		Outside: "messages other than those of the 2 files"},
	{ID: "P23",
		Runs: []Run{
			{H: "c_merge.HMerge", P: P{}, Steps: 60000000, Q: 60, Bound: "a file, a template and a compendium with messages that are kept, similar, new, gone and empty; every option; 9 things that go wrong; 5 outputs, one of which is the input"},
			{H: "c_merge.HMerge", P: P{"pairs": 1, "several": 2}, Steps: 60000000, Q: 60, Bound: "every 2 of the options, up to 3 compendiums"},
			{H: "c_merge.HMerge", P: P{"n": 1}, Steps: 60000000, Q: 60, T: P{"n": 2}, TT: 200, Bound: "any byte in a translation"},
			{H: "c_merge.HNoHeader", P: P{}, Bound: "a file without a header, or without anything; 3 languages"},
		},
		Outside: "three options at once, messages other than those"},
	{ID: "P24",
		Runs: []Run{
			{H: "c_cat.HCat", P: P{}, Q: 60, Bound: "2 files with messages of both, of one and in conflict, named in 6 ways; every option; 6 things that go wrong; 4 outputs"},
			{H: "c_cat.HCat", P: P{"pairs": 1}, Q: 60, Bound: "every 2 of the options"},
			{H: "c_cat.HCat", P: P{"n": 1}, Q: 60, T: P{"n": 2}, TT: 200, Bound: "any byte in a translation"},
		},
		Outside: "three options at once, messages other than those"},
	{ID: "P25",
		Assume: []string{"an output file is named if messages are to be joined"},
		Runs: []Run{
			{H: "c_xgo.HExtract", P: P{}, Q: 90, Steps: 30000000, Bound: "3 Go files in 3 directories, named in 8 ways; 15 options; 6 things that go wrong; 5 outputs"},
			{H: "c_xgo.HExtract", P: P{"pairs": 1}, Q: 60, Steps: 30000000, Bound: "every 2 of the options"},
			{H: "c_xgo.HExtract", P: P{"n": 1}, Q: 60, Steps: 30000000, T: P{"n": 2}, TT: 200, Bound: "any byte in an identifier"},
		},
		Outside: "three options at once, --default-domain, Go files other than those"},
	{ID: "P26",
		Runs: []Run{
			{H: "h_ent.HSet", P: P{"n": 2}, T: P{"n": 3}, Bound: "2 entries, identifier and context up to 1 byte"},
			{H: "h_ent.HSet", P: P{"n": 1, "many": 40}, Bound: "1 entry among 40 others"},
			{H: "h_ent.HSet", P: P{"n": 2, "any": 1, "setid": 3}, T: P{"n": 3}, Bound: "2 entries, an identifier up to 3 bytes and a context up to 1 that may have separators"},
		},
		Outside: "longer strings"},
	{ID: "P27",
		Runs: []Run{
			{H: "h_ent.HRatio", P: P{}, Bound: "2 messages with strings up to 1 byte, singular or with up to 2 forms"},
			{H: "h_ent.HRatio", P: P{"n": 2, "ctx": 0}, T: P{"n": 3}, TT: 200, Bound: "identifiers and translations up to 2 bytes"},
			{H: "h_ent.HBest", P: P{"n": 2}, T: P{"n": 3}, TT: 200, Bound: "2 messages and a third one to match"},
			{H: "h_ent.HBest", P: P{"n": 2, "long": 75, "str": 0}, Steps: 30000000, Bound: "the same with identifiers of 150 bytes"},
			{H: "h_ent.HBest", P: P{"n": 2, "ctx": 1, "str": 0}, Bound: "the same with contexts"},
		},
		Outside: "longer strings; how good a match is, other than none and all"},
	{ID: "P28",
		Runs: []Run{
			{H: "h_ent.HValidate", P: P{}, Bound: "1 entry with strings up to 1 byte and up to 2 forms"},
			{H: "h_ent.HDuplicates", P: P{"n": 3}, T: P{"n": 4}, Bound: "3 entries, identifier and context up to 1 byte"},
			{H: "h_ent.HDuplicates", P: P{"n": 2, "many": 100}, Bound: "2 entries among 100 others"},
		},
		Outside: "longer strings"},
	{ID: "P29",
		Runs: []Run{
			{H: "h_ent.HMergers", P: P{}, Bound: "2 messages of any kind, with up to 2 references, a priority of 2"},
			{H: "h_ent.HMergers", P: P{"n": 3, "obsolete": 0, "loc": 0}, Q: 40, Bound: "3 messages, singular or plural, fuzzy or not"},
			{H: "h_ent.HMergers", P: P{"ctx": 1, "obsolete": 0, "loc": 0}, Bound: "2 messages with contexts"},
		},
		Outside: "longer strings and lists"},
	{ID: "P30",
		Runs: []Run{
			{H: "c_all.HTool", P: P{}, Bound: "7 command lines for each of the 5 tools, by both names of it, the output there or not, the disk full or not"},
			{H: "c_all.HTool", P: P{"n": 1}, T: P{"n": 2}, TT: 200, Bound: "the same command lines with a translation of any text up to 1 character"},
			{H: "c_all.HDocs", P: P{}, Bound: "both formats, each tool, to a file or not, the disk full after 0 or 100 bytes"},
			{H: "c_all.HOther", P: P{}, Bound: "8 names and any single character, with and without a file"},
			{H: "c_all.HNoDocs", P: P{}, T: P{"n": 4}, Bound: "any name up to 2 ASCII characters, both formats"},
			{H: "c_all.HTree", P: P{}, Bound: "each tool"},
		},
		Outside: "other command lines; the completion scripts"},
	{ID: "P31",
		Assume: []string{utf8Free},
		Runs: []Run{
			{H: "h_opt.HCompile", P: P{}, Q: 40, Bound: "5 messages of every kind, every pair of 6 options, any prefix or suffix up to 1 byte"},
			{H: "h_opt.HHeader", P: P{}, Q: 40, Bound: "a header with any language up to 2 bytes, any title and copyright holder up to 1; every combination of the options on headers"},
			{H: "h_opt.HParse", P: P{}, Bound: "6 messages, every pair of 5 options"},
			{H: "h_opt.HMo", P: P{"n": 2}, Bound: "2 messages of any kind, every combination of the options on MO files"},
			{H: "h_opt.HMo", P: P{"n": 3, "as": 1}, Only: "thorough", TT: 200, Bound: "3 messages"},
		},
		Outside: "three options at once"},
	{ID: "P32",
		Runs: []Run{
			{H: "h_cfg.HReader", P: P{"kind": 0}, T: P{"pieces": 40}, TT: 100, Bound: "a PO file of 3 messages with any byte in one, given in 2 or 3 pieces, or failing, at 13 places"},
			{H: "h_cfg.HReader", P: P{"kind": 1}, T: P{"pieces": 40}, Bound: "the same for a MO file"},
			{H: "h_cfg.HReader", P: P{"kind": 2}, T: P{"pieces": 40}, Bound: "the same for a Go file"},
			{H: "h_cfg.HReader", P: P{"kind": 1, "big": 1100000, "mega": 4, "pieces": 1}, Bound: "a MO file of 1.1 MB"},
			{H: "h_cfg.HReader", P: P{"kind": 0, "big": 5000, "pieces": 1}, T: P{"big": 20000}, Steps: 100000000, TT: 200, Bound: "a PO file of 5 kB"},
			{H: "h_cfg.HReader", P: P{"kind": 2, "big": 70000, "pieces": 1}, Steps: 100000000, Bound: "a Go file of 70 kB"},
		},
		Outside: "readers which return no data and no error forever"},
	{ID: "P33",
		Assume: []string{"two operations at the same time are ordered by locks, sync.Once, sync.Map, sync.Pool and sync/atomic alone"},
		Runs: []Run{
			{H: "h_ind.HInTurn", P: P{}, T: P{"between": 1}, TT: 300, Bound: "2 (thorough: 3) of 22 operations, one after another, on files of 4 or 5 messages with any letter in them"},
			{H: "h_ind.HTogether", P: P{}, Bound: "2 of 22 operations at the same time, with any letter in the data of each; every schedule, by the memory that they access"},
			{H: "h_ind.HShared", P: P{}, Bound: "2 of 11 operations that read the same file of 4 messages, with any letter in them, at the same time"},
			{H: "h_ind.HChain", P: P{}, Bound: "2 of 11 operations, where the second one reads what the first one returned"},
		},
		Outside: "three operations at the same time; a parser or compiler that is itself used by two at the same time"},
}
