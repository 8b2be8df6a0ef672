prop("P01", "Compiling messages to MO and reading them back loses nothing",
 "Reading back a compiled MO file gives exactly the live messages that were compiled, each with its context, identifier, plural identifier and translations unchanged, in either byte order and with or without a hash table. Fuzzy and obsolete messages are left out, and of several live messages with the same context and identifier the first one is compiled.",
 ["inputs", "configurations"], "every set of messages whose strings are any bytes but NUL and EOT, every byte order, hash table and clean-up option",
 "The tests compile one fixed catalogue in native order and compare it; separators inside strings, odd bytes, swapped plural forms, equal prefixes and the other byte order are never combined.",
 ["pkg/po/compile/mo_compile.go", "pkg/po/compile/mo_compiler.go", "pkg/po/parse/mo_parser.go", "pkg/po/entry.go"],
 [("identifier and translation assembled with EOT and NUL", "pkg/po/entry.go"), ("tables written after sorting by identifier", "pkg/po/compile/mo_compile.go"), ("tables read and strings split again", "pkg/po/parse/mo_parser.go")])
prop("P02", "Compiled MO files are ones every gettext runtime can look messages up in",
 "A compiled MO file starts with the magic number in its byte order, its tables and NUL-terminated strings lie inside the file without overlapping, and its originals are in strictly increasing byte order. A lookup by binary search, or through the hash table with gettext's hash function and probing, finds every message with its translation, and finds nothing for any other string.",
 ["inputs", "configurations"], "every set of messages within the bounds, every looked-up string, both byte orders, with and without a hash table, any number of messages for the table size",
 "The tests only read the file back with this library's own parser, which needs neither the order nor the hash table that a C runtime relies on.",
 ["pkg/po/compile/mo_compile.go", "internal/util/hash.go", "internal/util/prime.go", "pkg/po/cmp.go"],
 [("hash table construction", "pkg/po/compile/mo_compile.go"), ("hash function", "internal/util/hash.go"), ("prime size", "internal/util/prime.go")])
prop("P03", "Any bytes at all are a MO file that is read or one that is refused",
 "Parsing arbitrary bytes as a MO file always ends without a crash or an allocation out of proportion, with either an error or exactly the messages the tables of the file describe. The caller's bytes are not modified, and parsing again gives the same result.",
 ["inputs"], "every byte sequence, every 32-bit value of every header field and descriptor",
 "The tests parse well-formed files only; offsets and counts that point outside of the file, wrap around or overlap are out of reach of examples.",
 ["pkg/po/parse/mo_parser.go", "internal/util/bytes.go"],
 [("bounds of tables and strings", "pkg/po/parse/mo_parser.go"), ("reading and byte order", "internal/util/bytes.go")])
prop("P04", "Well-formed MO files of any layout are read completely",
 "A well-formed MO file whose tables and strings are laid out in any order, with gaps or shared, in either byte order, with or without a hash table, is read without error as exactly the messages it has.",
 ["inputs", "configurations"], "every layout, byte order and revision within the bounds, every content of the strings",
 "The tests only read files written by this library, which always have the same layout.",
 ["pkg/po/parse/mo_parser.go"],
 [("tables located by their offsets", "pkg/po/parse/mo_parser.go")])
prop("P05", "Text written to a PO file reads back byte for byte",
 "A context, identifier, plural identifier or translation made of any bytes, including quotes, backslashes, newlines, control characters, escape-like sequences and non-ASCII text, is written to a PO file so that reading the file gives the same bytes, whether lines are wrapped or not.",
 ["inputs", "configurations"], "every string of any bytes but NUL and EOT within the bounds, every place of a message, wrapping on and off",
 "The tests use a few plain words; an escaping mistake needs a particular pair of bytes, such as a backslash before a quote or a control character before a digit.",
 ["pkg/po/compile/po_compiler_util.go", "pkg/po/compile/po_compiler_format.go", "internal/util/po_parse.go", "pkg/po/parse/po_parser.go"],
 [("escaping", "pkg/po/compile/po_compiler_util.go"), ("string token and unescaping", "internal/util/po_parse.go")])
prop("P09", "Orderings of messages are consistent and sorting only reorders",
 "Every comparison of messages, references and plural forms is a total preorder, for any line numbers and any mix of singular and plural, live and obsolete messages. Sorting in any mode returns exactly the given messages in the order the mode names, and reports sorted input as sorted.",
 ["inputs", "configurations"], "every triple of messages within the bounds, every 64-bit line or form number, every sort mode",
 "Tests sort one short list; a comparison that is not transitive or overflows only shows for particular triples or extreme numbers.",
 ["pkg/po/cmp.go", "pkg/po/entries.go", "pkg/po/locations.go", "pkg/po/plurals.go", "pkg/po/types.go"],
 [("comparisons", "pkg/po/cmp.go"), ("sorting of entries", "pkg/po/entries.go")])
prop("P10", "Messages and files compare equal exactly when they say the same",
 "Two messages are equal exactly when their context, identifier, plural identifier, translations, flags and obsolescence are the same, and two collections or files are equal exactly when every part of every message is the same, in order. Equality is reflexive and symmetric.",
 ["inputs"], "every pair of messages, collections and files within the bounds",
 "The tests use equality as their own oracle, so a comparison that ignores a field makes them pass for wrong results.",
 ["pkg/po/entry.go", "pkg/po/entries.go", "pkg/po/file.go", "internal/util/equal.go", "pkg/po/plurals.go", "pkg/po/locations.go"],
 [("deep equality", "internal/util/equal.go"), ("entry equality", "pkg/po/entry.go")])
prop("P11", "Solving duplicates and filtering lose nothing else",
 "Removing duplicates leaves every identity once, in its first place, with a translation it had and, where they are combined, every reference of its duplicates. Filters for fuzzy, obsolete, empty and header messages remove exactly those and keep all others unchanged and in order, and the caller's messages are never modified.",
 ["inputs"], "every collection within the bounds, with any identities equal",
 "Tests have one collection with one duplicate; identities that differ only in context or are empty, several duplicates and memory shared with the caller are not tried.",
 ["pkg/po/entries.go", "pkg/po/plurals.go"],
 [("duplicates solved", "pkg/po/entries.go")])
prop("P12", "Merging with a template loses no translation and no message",
 "After merging a translated file with a template, every message of the template is there once, live, with the template's references, extracted comments and plural; without guessing, a new one has the forms the header asks for, an exact match keeps its translation and translator comments, and a guessed or changed one is fuzzy. Every message that is gone from the template is kept as obsolete, fuzzy or as a guess, the translated file's header is kept, the result is in the order that is asked for, and neither input is modified.",
 ["inputs", "configurations"], "every pair of files within the bounds, every merge option",
 "Tests merge one pair of files; obsolete messages that come back, plurals that change, contexts and headers on either side are combinations they do not have.",
 ["pkg/po/merge.go", "pkg/po/entries.go", "pkg/po/header.go"],
 [("merge", "pkg/po/merge.go")])
prop("P13", "Concatenating files keeps every definition of every message",
 "Concatenating files gives every message whose number of definitions is within the requested limits exactly once, in order, with the references, flags and comments of all its definitions, or the first definition alone if that is asked for. Definitions that agree are merged unmarked, those that conflict are all kept and marked fuzzy, a message is obsolete only if all its definitions are, and the files are not modified.",
 ["inputs", "configurations"], "every set of files within the bounds, every limit and option",
 "Tests concatenate one fixed pair of files and do not use the limits, plural or obsolete messages.",
 ["pkg/po/msgcat_merge.go"],
 [("merge of definitions", "pkg/po/msgcat_merge.go")])
prop("P26", "Setting a message is seen by look-ups and by nothing else",
 "After a message is set by identifier and context, looking that identity up gives its translation; it replaces the one message it had or is added. All other messages and look-ups give what they gave before.",
 ["inputs", "histories"], "every file and identity within the bounds",
 "Tests look up one message by its plain identifier; contexts and several messages with one identifier are not tried.",
 ["pkg/po/file.go", "pkg/po/entries.go"],
 [("set and load", "pkg/po/file.go")])
prop("P28", "Validation reports exactly the invalid and duplicate messages",
 "A message is reported as invalid exactly when it has both a singular translation and plural forms. Every message that repeats the context and identifier of an earlier one is reported with its own place and that of the first, and nothing else is reported.",
 ["inputs"], "every message and collection within the bounds",
 "Tests validate one good and one bad example; which index is reported and for which repetitions is not covered.",
 ["pkg/po/entry.go", "pkg/po/entries.go", "pkg/po/file.go", "pkg/po/errors.go"],
 [("validation", "pkg/po/entries.go")])

prop("P06", "Everything known about a message survives a PO file",
 "Writing messages to a PO file and reading it back keeps, for live and obsolete messages alike, the translator and extracted comments, flags, references with or without lines (also for file names with spaces) and previous identifiers, in order and unchanged, with wrapping on or off and with a custom obsolete prefix.",
 ["inputs", "configurations"], "every text of a comment, flag or file name within the bounds, every pairing of plural, obsolete, order, wrapping and prefix",
 "The tests write a comment or two of plain words; texts that look like another kind of comment, odd file names, or what leaks from one message into the next are combinations they do not have.",
 ["pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler_util.go", "pkg/po/parse/po_parser.go", "internal/util/po_parse.go", "internal/util/po_parse.go"],
 [("comments written", "pkg/po/compile/po_compiler_format.go"), ("comments read", "pkg/po/parse/po_parser.go")])
prop("P07", "Any text at all is a PO file that is read or one that is refused",
 "Parsing arbitrary text as a PO file never crashes, leaves the caller's data alone and gives a file or an error; parsing it again gives the same. In a file that it gives no identity is there twice and no message has both a translation and plural forms. An obsolete message is refused when the same text without its marks would be.",
 ["inputs"], "every short text, every sequence of tokens and every damage to one byte of a file within the bounds",
 "The tests parse well-formed files and two or three broken ones; a crash needs a particular token in a particular place.",
 ["pkg/po/parse/po_parser.go", "internal/util/po_parse.go", "internal/util/po_parse.go"],
 [("parser", "pkg/po/parse/po_parser.go"), ("lexer", "internal/util/po_parse.go")])
prop("P08", "PO files written by others are read the way gettext reads them",
 "White space, line ends and how a string is split into pieces do not matter; escape sequences are those of C; comments of every kind, in any order and with or without spaces, belong to the message after them; obsolete messages are read with everything known about them, wherever they are in the file.",
 ["inputs"], "every layout, escape sequence, comment and placement within the bounds",
 "The tests read files in this library's own style; others' files combine layouts, escapes and comments in ways the tests do not.",
 ["pkg/po/parse/po_parser.go", "internal/util/po_parse.go", "internal/util/po_parse.go"],
 [("tokens", "internal/util/po_parse.go"), ("unescaping", "internal/util/po_parse.go"), ("entries and comments", "pkg/po/parse/po_parser.go")])
prop("P14", "Headers keep every field and say how many plural forms there are",
 "A header's fields, in order, survive being written as the message with the empty identifier and read back, and so does every part of a header configuration. The number of plural forms is the one its field states, however it is spaced, or 2 if it states none; a configuration is reported invalid exactly for the fields that are.",
 ["inputs", "configurations"], "every name and value of fields within the bounds, every number of plural forms up to 99, every combination of valid and invalid fields",
 "Tests convert one header; values with colons, spacing of the plural rule and fields unknown to the library are not tried.",
 ["pkg/po/header.go", "pkg/po/header_options.go", "pkg/po/file.go", "pkg/po/entries.go"],
 [("header text", "pkg/po/header.go"), ("header configuration", "pkg/po/header_options.go")])
prop("P15", "Options set what they say, for as long as they are meant to",
 "Every option of the compilers, the parsers, headers and merges changes the setting it names and no other, and of two options on one setting the later holds. Options given to one operation hold for that operation alone, also when it fails, and restoring takes back exactly the options applied last.",
 ["configurations", "histories"], "every sequence of up to two options with any values, every kind of operation",
 "Tests use a handful of options once; whether another setting changes, or one stays behind after the operation, is not looked at.",
 ["pkg/po/compile/po_config.go", "pkg/po/compile/mo_config.go", "pkg/po/header_options.go", "pkg/po/merge.go", "pkg/po/msgcat_merge.go", "pkg/po/parse/po_config.go", "pkg/po/parse/mo_config.go", "pkg/go/parse/config.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go"],
 [("options", "pkg/po/compile/po_config.go"), ("restoring", "pkg/po/compile/mo_config.go")])
prop("P16", "Compiling writes everything or reports that it could not",
 "Compiling the same messages gives the same output every time and whichever way it is asked for: as bytes, as a string or to a writer, from a file or from a collection. A failure of the writer is reported unless that is turned off, and the caller's messages are never changed.",
 ["inputs", "fault_sequences"], "every position of a failing writer within the bounds, every way of writing, every option",
 "Tests write to memory, which does not fail, and compare output only to itself read back.",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go", "pkg/po/compile/mo_compile.go"],
 [("ways of writing", "pkg/po/compile/po_compiler.go"), ("ways of writing", "pkg/po/compile/mo_compiler.go")])
prop("P32", "Parsing a stream reads all of it or reports that it could not",
 "Parsing from a reader gives what parsing the whole of its data gives, in whatever pieces the reader returns it. A reader that fails before its end makes parsing fail: a message is never silently cut or left out.",
 ["inputs", "fault_sequences"], "every way to cut the data within the bounds, every place to fail",
 "Tests read from memory in one piece.",
 ["pkg/po/parse/po_parser.go", "pkg/po/parse/mo_parser.go", "pkg/go/parse/parser.go"],
 [("reading", "pkg/po/parse/po_parser.go")])

prop("P20", "Highlighting adds colors and changes nothing else",
 "Output written with highlighting is, once the colors are taken away, byte for byte the output without it, and every class that is given colors its part of a message. Highlighting the text of a PO file keeps every byte of it.",
 ["inputs", "configurations"], "every text within the bounds in every place of a message, live or obsolete, wrapped or not, for every class",
 "The test of highlighting only prints its output; colors in the middle of an obsolete or wrapped message are not looked at.",
 ["pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_highlight.go", "internal/color/color.go"],
 [("styles", "pkg/po/compile/po_compiler_format.go"), ("highlighting of text", "pkg/po/compile/po_highlight.go")])
prop("P27", "How alike messages are is a percentage, and the best match the best",
 "The match ratio of two messages is between 0 and 100, 100 for the same identifiers or translations and 0 for ones with nothing in common. The best match in a collection is one of its messages, with its own ratio, that no other exceeds, and a message is found by its own identifier.",
 ["inputs"], "every pair of messages and every collection within the bounds",
 "Tests merge one pair of similar words; empty strings, plurals with different forms and ties are not tried.",
 ["pkg/po/cmp.go", "pkg/po/entries.go", "internal/util/average.go", "internal/util/equal.go"],
 [("ratios", "pkg/po/cmp.go"), ("best match", "pkg/po/entries.go")])
prop("P29", "Duplicates are merged by the rule that is asked for",
 "By default a duplicate has the references of both messages, one of their translations as a whole, and all else from one of the two. The rules with a priority list use its message as a base, instead of a duplicate, as a condition, or mark as obsolete what is not in it; nothing of the caller is changed.",
 ["inputs", "configurations"], "every collection, priority list and rule within the bounds",
 "No test uses the rules with priority lists.",
 ["pkg/po/entries.go"],
 [("merge rules", "pkg/po/entries.go")])
prop("P30", "The tool with all tools in it runs each of them as that tool itself does",
 "A tool that is run as a command of the one with all tools in it, by its name or by the name of its GNU counterpart, has the same arguments, output, files and exit as the tool run by itself. A name that is no tool is refused and nothing is written. The generated documentation of a tool names every option of it, and documentation that cannot be written makes the command fail.",
 ["inputs", "configurations", "fault_sequences"], "every tool, both names, the command lines, files and faults within the bounds",
 "No test runs the command-line tools.",
 ["cli/gotext-tools/cmd/root.go", "cli/gotext-tools/cmd/doc.go", "cli/gotext-tools/cmd/doc_tree.go", "cli/msgofmt/cmd/root.go", "cli/msgocat/cmd/root.go"],
 [("the commands", "cli/gotext-tools/cmd/root.go"), ("documentation", "cli/gotext-tools/cmd/doc.go")])
prop("P31", "Options change what they name in the output and nothing else",
 "Omitting the header or references, references without lines, prefixes and suffixes, commented fuzzy messages and managed headers appear in a written PO file exactly as asked, and everything else reads back unchanged. So do the parser's options to leave out headers, comments, obsolete messages or duplicates, and those on MO files to keep or sort messages and require an order of messages or bytes.",
 ["inputs", "configurations"], "every pair of options, any message kind, and any prefix, suffix or header text within the bounds",
 "Tests set an option or two and look at one part of the output; what an option does to other messages is not checked.",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler_util.go", "pkg/po/parse/po_parser.go", "pkg/po/compile/mo_compile.go", "pkg/po/parse/mo_parser.go"],
 [("options of output", "pkg/po/compile/po_compiler_format.go"), ("options of parsing", "pkg/po/parse/po_parser.go")])

prop("P17", "Every call that translates is extracted with what it means",
 "Every call of one of the translation functions in a Go file, wherever it is and under whichever name the package is imported, becomes a message with the identifier, plural and context that the call would look up, byte for byte, and nothing else does. Calls whose identifier is no literal are left out or reported and never keep others from being extracted; with all strings asked for, every string literal is. A file that is not Go is refused.",
 ["inputs", "programs"], "every function, place of a call, kind of literal and argument, and any byte of a literal within the bounds",
 "Tests extract a few calls in one file with plain identifiers.",
 ["pkg/go/parse/process.go", "pkg/go/parse/file.go", "pkg/go/parse/parser.go"],
 [("extraction", "pkg/go/parse/process.go")])
prop("P18", "Extraction finds every file and refers to the right place",
 "Every Go file at or below the given paths is read once, except excluded ones, and a path that cannot be read is reported. Every message refers to its file and to the line its identifier begins on. What a parser has read before makes no difference to what it extracts next.",
 ["inputs", "configurations", "histories"], "every choice of paths and exclusions in a tree, every line of a message, every order of files",
 "Tests read one file in one go and do not look at lines or other files.",
 ["pkg/go/parse/parser.go", "pkg/go/parse/file.go", "pkg/go/parse/process.go"],
 [("files", "pkg/go/parse/parser.go"), ("lines", "pkg/go/parse/process.go")])

prop("P19", "Files are written whole or a failure is reported",
 "After writing a PO or MO file without an error the file has exactly what was compiled, whatever was there before; a file that exists is replaced only if that is asked for, and no other file is touched. A file that cannot be opened or written to its end is reported unless errors are to be ignored. Reading a file gives what its content means, leaves it as it was, and reports a file that cannot be read.",
 ["inputs", "fault_sequences"], "every previous content of the target, every place at which the disk is full, every way of writing and reading within the bounds",
 "Tests write to fresh files on a disk that has room.",
 ["pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go", "pkg/po/parse/po_parser.go", "pkg/po/parse/mo_parser.go"],
 [("output files", "pkg/po/compile/po_compiler.go"), ("output files", "pkg/po/compile/mo_compiler.go")])

prop("P21", "msgofmt compiles all it is given or changes nothing",
 "msgofmt makes one MO file of all messages that are translated in the given files and standard input, in the format asked for, where it is asked for: a file, standard output, or one file for each PO file of a directory. A missing or malformed input, a duplicate message, or an output that exists without leave to replace it makes it fail with a message and write nothing; an output that cannot be written to its end makes it fail.",
 ["inputs", "configurations", "fault_sequences"], "every combination of inputs, faults, formats and outputs within the bounds, and any byte of a translation",
 "No test runs the command-line tools.",
 ["cli/msgofmt/cmd/root.go", "cli/msgofmt/cmd/flags.go", "pkg/po/compile/mo_compiler.go"],
 [("the tool", "cli/msgofmt/cmd/root.go")])
prop("P22", "msgounfmt writes all messages of MO files or changes nothing",
 "msgounfmt writes every message of the given MO files, or of standard input if there are none, once and unchanged as a PO file that reads back, in order of identifiers if that is asked for. A missing or malformed input or an output that exists without leave to replace it makes it fail with a message and write nothing; an output that cannot be written to its end makes it fail.",
 ["inputs", "configurations", "fault_sequences"], "every combination of inputs, faults, options and outputs within the bounds, and any byte of a message",
 "No test runs the command-line tools.",
 ["cli/msgounfmt/cmd/root.go", "cli/msgounfmt/cmd/flags.go", "pkg/po/parse/mo_parser.go"],
 [("the tool", "cli/msgounfmt/cmd/root.go")])
prop("P23", "msgomerge updates a file and never loses its translations",
 "msgomerge writes every message of the template with its references and the translation of the file, of a similar message (fuzzy, unless that is turned off) or of a compendium, keeps the other translations as obsolete ones, and keeps the header but for a language that is asked for. Whatever goes wrong before everything is read and merged, no file is changed, even if the output is an input; the template and compendiums never are.",
 ["inputs", "configurations", "fault_sequences"], "every option, fault and output within the bounds, and any byte of a translation",
 "No test runs the command-line tools.",
 ["cli/msgomerge/cmd/root.go", "cli/msgomerge/cmd/config.go", "pkg/po/merge.go"],
 [("the tool", "cli/msgomerge/cmd/root.go"), ("its options", "cli/msgomerge/cmd/config.go")])
prop("P24", "msgocat writes the messages of all files it is given",
 "msgocat reads the files that are named as arguments, in a list or by a directory, and standard input, and writes every message with the requested number of definitions, merged, with its references as asked for, sorted if asked for, and with the language that is asked for. A missing or malformed input or impossible request makes it fail with a message and write nothing; an output that cannot be written to its end makes it fail.",
 ["inputs", "configurations", "fault_sequences"], "every way to name the files, option, fault and output within the bounds, and any byte of a translation",
 "No test runs the command-line tools.",
 ["cli/msgocat/cmd/run.go", "cli/msgocat/cmd/parse.go", "cli/msgocat/cmd/flags.go", "pkg/po/msgcat_merge.go"],
 [("the tool", "cli/msgocat/cmd/run.go"), ("its inputs", "cli/msgocat/cmd/parse.go")])
prop("P25", "xgotext writes the messages of all files it is given",
 "xgotext extracts every message of the Go files that are named as arguments, in a list or by a directory, and of standard input, except those in excluded files and those of an excluded PO file, and writes them with the header, references, prefix and suffix that are asked for. Joining with an existing file keeps its header, its translations and, as obsolete ones, its other messages. A missing or malformed input makes it fail with a message and leave the output as it was; an output that cannot be written to its end makes it fail.",
 ["inputs", "configurations", "fault_sequences"], "every way to name the files, option, fault and output within the bounds, and any byte of an identifier",
 "No test runs the command-line tools.",
 ["cli/xgotext/cmd/root.go", "cli/xgotext/cmd/input.go", "cli/xgotext/cmd/output.go", "cli/xgotext/cmd/join.go", "cli/xgotext/cmd/config.go"],
 [("the tool", "cli/xgotext/cmd/root.go"), ("its inputs", "cli/xgotext/cmd/input.go"), ("joining", "cli/xgotext/cmd/join.go")])
prop("P33", "Operations do not affect one another",
 "What an operation on messages or files has returned (messages, bytes, a header or errors) is not changed by any later operation, and no operation gives anything else because others ran before it. Two operations at the same time, each on its own data or both reading the same file, give what each of them gives alone and never access the same memory without an order.",
 ["histories", "schedules"], "every pair of operations in turn and at the same time, every schedule of them, with any letter in their data",
 "The tests run each operation alone, once, in one goroutine.",
 ["pkg/po/parse/po_parser.go", "pkg/po/parse/mo_parser.go", "pkg/go/parse/parser.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go", "pkg/po/merge.go", "pkg/po/msgcat_merge.go", "pkg/po/entries.go"],
 [("the operations on messages", "pkg/po/entries.go"), ("the compilers", "pkg/po/compile/po_compiler.go"), ("the parsers", "pkg/po/parse/po_parser.go")])
