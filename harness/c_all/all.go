// Package c_all has the harnesses on the tool that has all others in it.
package c_all

import (
	"bytes"
	"os"
	"strings"
	_ "unsafe"

	all "github.com/Tom5521/gotext-tools/v2/cli/gotext-tools/cmd"
	msgocat "github.com/Tom5521/gotext-tools/v2/cli/msgocat/cmd"
	msgofmt "github.com/Tom5521/gotext-tools/v2/cli/msgofmt/cmd"
	msgomerge "github.com/Tom5521/gotext-tools/v2/cli/msgomerge/cmd"
	msgounfmt "github.com/Tom5521/gotext-tools/v2/cli/msgounfmt/cmd"
	xgotext "github.com/Tom5521/gotext-tools/v2/cli/xgotext/cmd"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/spf13/cobra"
)

//go:linkname msgocatRoot github.com/Tom5521/gotext-tools/v2/cli/msgocat/cmd.root
//go:linkname msgofmtRoot github.com/Tom5521/gotext-tools/v2/cli/msgofmt/cmd.root
//go:linkname msgomergeRoot github.com/Tom5521/gotext-tools/v2/cli/msgomerge/cmd.root
//go:linkname msgounfmtRoot github.com/Tom5521/gotext-tools/v2/cli/msgounfmt/cmd.root
//go:linkname xgotextRoot github.com/Tom5521/gotext-tools/v2/cli/xgotext/cmd.root
var msgocatRoot, msgofmtRoot, msgomergeRoot, msgounfmtRoot, xgotextRoot *cobra.Command

// alone runs a tool as it is in a program that does not have the others.
func alone(root **cobra.Command, execute func()) func() {
	return func() {
		if p := (*root).Parent(); p != nil {
			p.RemoveCommand(*root)
		}
		execute()
	}
}

// Tools are the command-line tools.
var Tools = map[string]func(){
	"gotext-tools": all.Execute, "msgocat": alone(&msgocatRoot, msgocat.Execute), "msgofmt": alone(&msgofmtRoot, msgofmt.Execute),
	"msgomerge": alone(&msgomergeRoot, msgomerge.Execute), "msgounfmt": alone(&msgounfmtRoot, msgounfmt.Execute),
	"xgotext": alone(&xgotextRoot, xgotext.Execute),
}

var names = []string{"msgocat", "msgofmt", "msgomerge", "msgounfmt", "xgotext"}

// aliases are the names that the tools have in GNU gettext.
var aliases = []string{"msgcat", "msgfmt", "msgmerge", "msgunfmt", "xgettext"}

func write(name string, data []byte) {
	if os.WriteFile(name, data, 0o644) != nil {
		panic("write")
	}
}

var files = []string{"a.po", "b.po", "c.mo", "d.go", "out", "messages.mo", "list"}

// state is what is in every file.
func state() [][]byte {
	var out [][]byte
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			b = nil
		} else if b == nil {
			b = []byte{}
		}
		out = append(out, b)
	}
	return out
}

func restore(s [][]byte) {
	for i, f := range files {
		if s[i] == nil {
			os.Remove(f)
		} else {
			write(f, s[i])
		}
	}
}

func same(a, b [][]byte) bool {
	ok := true
	for i := range a {
		ok = verif.And(ok, (a[i] == nil) == (b[i] == nil) && bytes.Equal(a[i], b[i]))
	}
	return ok
}

// HTool: a tool does the same whether it is run by itself or by the one that has all in it.
func HTool() {
	n := verif.Param("n", 0)
	str := "x" + gen.Text("str", 0, n)
	a := po.Entries{{Str: "Language: xx\n"}, {ID: "a", Str: str}, {ID: "b", Plural: "bs", Plurals: po.PluralEntries{{ID: 0, Str: "p"}, {ID: 1, Str: "q"}}}}
	write("a.po", compile.PoToBytes(a))
	write("b.po", compile.PoToBytes(po.Entries{{ID: "a", Str: "other"}, {ID: "c", Context: "d"}}))
	write("c.mo", compile.MoToBytes(a))
	write("d.go", []byte("package d\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar x = gotext.Get(\"a\")\n"))
	write("list", []byte("a.po\n"))
	every := n == 0
	if every && verif.Choose("exists", 2) == 1 {
		write("out", []byte("old"))
	}
	tool := verif.Choose("tool", len(names))
	stdin := ""
	var args []string
	switch names[tool] {
	case "msgocat":
		args = [][]string{{"a.po", "b.po"}, {"--use-first", "-o", "out", "b.po", "a.po"}, {"--files-from", "list", "b.po"}, {"-"}, {"--less-than", "2", "a.po", "b.po", "-o", "out", "-f"}, {"none.po"}, {"--no-option"}}[verif.Choose("args", 7)]
		stdin = "msgid \"i\"\nmsgstr \"j\"\n"
	case "msgofmt":
		args = [][]string{{"a.po"}, {"a.po", "-o", "out", "-f"}, {"a.po", "-o", "out"}, {"a.po", "b.po"}, {"-", "-o", "-"}, {"a.po", "--no-hash", "--endianness=big", "-o", "-"}, {}}[verif.Choose("args", 7)]
		stdin = "msgid \"i\"\nmsgstr \"j\"\n"
	case "msgomerge":
		args = [][]string{{"a.po", "b.po"}, {"a.po", "b.po", "-o", "out"}, {"-U", "a.po", "b.po"}, {"a.po", "b.po", "--no-fuzzy-matching", "--lang", "yy", "-o", "out", "-f"}, {"a.po"}, {"a.po", "none.po", "-o", "out"}, {"-C", "a.po", "b.po", "b.po"}}[verif.Choose("args", 7)]
	case "msgounfmt":
		args = [][]string{{"c.mo"}, {"c.mo", "-o", "out"}, {"c.mo", "-o", "out", "-f", "--sort-output"}, {}, {"a.po", "-o", "out"}, {"none.mo"}, {"-o"}}[verif.Choose("args", 7)]
		stdin = string(compile.MoToBytes(a[1:2]))
	case "xgotext":
		args = [][]string{{"d.go", "-o", "out"}, {"d.go", "-o", "-"}, {"-a", "-s", "d.go", "-o", "out"}, {"--join-existing", "-o", "a.po", "d.go"}, {"-", "-o", "-"}, {"none.go", "-o", "out"}, {"-o", "out", "--lang", "zz", "d.go"}}[verif.Choose("args", 7)]
		stdin = "package i\n"
	}
	before := state()
	limit := -1
	if every && verif.Choose("full", 2) == 1 {
		limit = 3
	}
	own := verif.Tool(names[tool], Tools[names[tool]], args, stdin, limit)
	after := state()
	restore(before)
	name := names[tool]
	if every && verif.Choose("alias", 2) == 1 {
		name = aliases[tool]
	}
	got := verif.Tool("gotext-tools", all.Execute, append([]string{name}, args...), stdin, limit)
	verif.ObserveI("code", got.Code)
	verif.ObserveS("stdout", got.Stdout)
	verif.Assert(own.Panic == "" && got.Panic == "", "the tool does not crash")
	verif.Assert(got.Code == own.Code, "it ends like the tool")
	if own.Code == 0 {
		verif.Assert(got.Stdout == own.Stdout, "it writes what the tool writes")
	} else {
		verif.Assert(got.Stderr != "", "what is wrong is reported")
	}
	verif.Assert(same(state(), after), "it does to files what the tool does")
	verif.Reach("end")
}

// HOther: what is no tool is refused.
func HOther() {
	name := []string{"msgcats", "Msgofmt", "xgotext.", "-o", "--output=out", "doc", "docs man", "root"}[verif.Choose("name", 8)]
	args := []string{name}
	if verif.Choose("how", 2) == 1 {
		c := verif.Byte("c")
		verif.Assume(verif.And(c != '-', verif.And(verif.And(c != 'h', c != 0), c < 0x80)))
		args = []string{string([]byte{c})}
	}
	if verif.Choose("file", 2) == 1 {
		args = append(args, "a.po")
	}
	before := state()
	r := verif.Tool("gotext-tools", all.Execute, args, "", -1)
	verif.Assert(r.Panic == "" && r.Code != 0 && strings.Contains(r.Stderr, "unknown"), "what is no tool is refused")
	verif.Assert(r.Stdout == "", "and nothing is written")
	verif.Assert(same(state(), before), "and no file is written")
	verif.Reach("end")
}

// options are the options that the help of a tool names.
func options(help string) []string {
	var out []string
	for _, l := range strings.Split(help, "\n") {
		l = strings.TrimLeft(l, " ")
		if len(l) > 4 && l[0] == '-' && l[1] != '-' && l[2] == ',' {
			l = l[4:]
		}
		if strings.HasPrefix(l, "--") && len(l) > 3 {
			w := strings.Fields(l)[0]
			if i := strings.IndexAny(w, "[="); i > 0 {
				w = w[:i]
			}
			out = append(out, w)
		}
	}
	return out
}

// HDocs: the documentation of a tool names every option that it has.
func HDocs() {
	tool := verif.Choose("tool", len(names))
	format := []string{"markdown", "man"}[verif.Choose("format", 2)]
	args := []string{"docs", format, "-c", names[tool]}
	own := verif.Choose("own", 2) == 1
	if own { // the one that has all in it
		args[3] = "gotext-tools"
	}
	file := verif.Choose("output", 2) == 1
	if file {
		args = append(args, "-o", "out")
	}
	before := state()
	if file {
		if n := verif.Choose("full", 3); n < 2 {
			r := verif.Tool("gotext-tools", all.Execute, args, "", n*100)
			verif.Assert(r.Panic == "" && r.Code != 0, "documentation that cannot be written is an error")
			verif.Reach("end")
			return
		}
	}
	r := verif.Tool("gotext-tools", all.Execute, args, "", -1)
	verif.Assert(r.Panic == "" && r.Code == 0, "it is written")
	after := state()
	text := r.Stdout
	if file {
		text = string(after[4])
		verif.Assert(r.Stdout == "", "where it is asked for")
	}
	after[4] = before[4]
	verif.Assert(same(after, before), "and nothing else is written")
	if format == "man" {
		verif.Assert(strings.HasPrefix(text, ".") && strings.Contains(text, "\" \"1\" "), "it is a page of the first section of the manual")
	}
	if own {
		verif.Assert(strings.Contains(text, names[tool]), "every tool is in the documentation")
		verif.Reach("end")
		return
	}
	help := verif.Tool(names[tool], Tools[names[tool]], []string{"--help"}, "", -1)
	verif.Assert(help.Code == 0, "the tool has help")
	opts := options(help.Stdout)
	for _, w := range opts {
		verif.Assert(strings.Contains(text, w), "every option is in the documentation")
	}
	verif.Assert(len(opts) > 2, "the tool has options")
	verif.ObserveI("count", len(opts))
	verif.Reach("end")
}

// HNoDocs: there is no documentation of what is no tool.
func HNoDocs() {
	name := gen.ASCII("name", 0, verif.Param("n", 2))
	format := []string{"markdown", "man"}[verif.Choose("format", 2)]
	write("out", []byte("old"))
	before := state()
	r := verif.Tool("gotext-tools", all.Execute, []string{"docs", format, "-o", "out", "--command=" + name}, "", -1)
	verif.Assert(r.Panic == "" && r.Code != 0 && r.Stderr != "", "what is no tool is refused")
	verif.Assert(same(state(), before), "and nothing is written")
	verif.Reach("end")
}

// HTree: the tree of documentation has a file for every tool, with all its options.
func HTree() {
	tool := verif.Choose("tool", len(names))
	r := verif.Tool("gotext-tools", all.Execute, []string{"doc-tree", "-D", "tree"}, "", -1)
	verif.Assert(r.Panic == "" && r.Code == 0, "it is written")
	b, err := os.ReadFile("tree/gotext-tools_" + names[tool] + ".md")
	verif.Assert(err == nil, "there is a file for every tool")
	help := verif.Tool(names[tool], Tools[names[tool]], []string{"--help"}, "", -1)
	for _, w := range options(help.Stdout) {
		verif.Assert(strings.Contains(string(b), w), "every option is in the documentation")
	}
	verif.Reach("end")
}
