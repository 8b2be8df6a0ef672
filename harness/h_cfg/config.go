package h_cfg

import (
	"io"

	"bytes"
	"log"
	"os"

	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/gen"
	"github.com/Tom5521/gotext-tools/v2/internal/zzverif/verif"
	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
)

func samePo(a, b compile.PoConfig) bool {
	return a.Logger == b.Logger && a.ForcePo == b.ForcePo && a.OmitHeader == b.OmitHeader && a.PackageName == b.PackageName &&
		a.CopyrightHolder == b.CopyrightHolder && a.ForeignUser == b.ForeignUser && a.Title == b.Title && a.NoLocation == b.NoLocation &&
		a.AddLocation == b.AddLocation && a.MsgstrPrefix == b.MsgstrPrefix && a.MsgstrSuffix == b.MsgstrSuffix && a.IgnoreErrors == b.IgnoreErrors &&
		a.Verbose == b.Verbose && a.CommentFuzzy == b.CommentFuzzy && a.ManageHeader == b.ManageHeader && a.HeaderComments == b.HeaderComments &&
		a.HeaderFields == b.HeaderFields && a.WordWrap == b.WordWrap && a.HeaderConfig == b.HeaderConfig && a.NoColor == b.NoColor &&
		a.UseCustomObsoletePrefix == b.UseCustomObsoletePrefix && a.CustomObsoletePrefixRune == b.CustomObsoletePrefixRune && len(a.Highlight) == len(b.Highlight)
}

func sameMo(a, b compile.MoConfig) bool {
	return a.Logger == b.Logger && a.Force == b.Force && a.Verbose == b.Verbose && a.IgnoreErrors == b.IgnoreErrors &&
		a.Endianness == b.Endianness && a.HashTable == b.HashTable && a.DepureEntries == b.DepureEntries && a.SortEntries == b.SortEntries
}

func samePoParse(a, b parse.PoConfig) bool {
	return a.IgnoreComments == b.IgnoreComments && a.IgnoreAllComments == b.IgnoreAllComments && a.Logger == b.Logger && a.Verbose == b.Verbose &&
		a.SkipHeader == b.SkipHeader && a.CleanDuplicates == b.CleanDuplicates && a.ParseObsoletes == b.ParseObsoletes &&
		a.UseCustomObsoletePrefix == b.UseCustomObsoletePrefix && a.CustomObsoletePrefix == b.CustomObsoletePrefix
}

func sameMoParse(a, b parse.MoConfig) bool {
	return a.Logger == b.Logger && a.Endianness == b.Endianness && a.MustBeSorted == b.MustBeSorted
}

func sameGo(a, b goparse.Config) bool {
	return gen.SameStrs(a.Exclude, b.Exclude) && a.ExtractAll == b.ExtractAll && a.NoHeader == b.NoHeader && a.HeaderConfig == b.HeaderConfig &&
		a.CustomHeader == b.CustomHeader && a.Logger == b.Logger && a.Verbose == b.Verbose && a.CleanDuplicates == b.CleanDuplicates
}

// Each option sets what it says, and set does the same to a plain copy.

func poOption(c *compile.PoConfig) compile.PoOption {
	b, s := verif.Bool("bool"), gen.Text("str", 0, 1)
	switch verif.Choose("option", 23) {
	case 0:
		c.ForcePo = b
		return compile.PoWithForcePo(b)
	case 1:
		c.OmitHeader = b
		return compile.PoWithOmitHeader(b)
	case 2:
		c.PackageName = s
		return compile.PoWithPackageName(s)
	case 3:
		c.CopyrightHolder = s
		return compile.PoWithCopyrightHolder(s)
	case 4:
		c.ForeignUser = b
		return compile.PoWithForeignUser(b)
	case 5:
		c.Title = s
		return compile.PoWithTitle(s)
	case 6:
		c.NoLocation = b
		return compile.PoWithNoLocation(b)
	case 7:
		c.AddLocation = compile.PoLocationMode(s)
		return compile.PoWithAddLocation(compile.PoLocationMode(s))
	case 8:
		c.MsgstrPrefix = s
		return compile.PoWithMsgstrPrefix(s)
	case 9:
		c.MsgstrSuffix = s
		return compile.PoWithMsgstrSuffix(s)
	case 10:
		c.IgnoreErrors = b
		return compile.PoWithIgnoreErrors(b)
	case 11:
		c.Verbose = b
		return compile.PoWithVerbose(b)
	case 12:
		c.CommentFuzzy = b
		return compile.PoWithCommentFuzzy(b)
	case 13:
		c.ManageHeader = b
		return compile.PoWithManageHeader(b)
	case 14:
		c.HeaderComments = b
		return compile.PoWithHeaderComments(b)
	case 15:
		c.HeaderFields = b
		return compile.PoWithHeaderFields(b)
	case 16:
		c.WordWrap = b
		return compile.PoWithWordWrap(b)
	case 17:
		c.UseCustomObsoletePrefix = b
		return compile.PoWithUseCustomObsoletePrefix(b)
	case 18:
		c.CustomObsoletePrefixRune = '!'
		return compile.PoWithCustomObsoletePrefixRune('!')
	case 19:
		c.NoColor = b
		return compile.PoWithNoColor(b)
	case 20:
		l := log.New(&bytes.Buffer{}, "", 0)
		c.Logger = l
		return compile.PoWithLogger(l)
	case 21:
		c.Highlight = compile.DefaultHighlight
		return compile.PoWithHighlight(compile.DefaultHighlight)
	}
	n := compile.DefaultPoConfig(compile.PoWithTitle(s), compile.PoWithWordWrap(b))
	*c = n
	return compile.PoWithConfig(n)
}

func moOption(c *compile.MoConfig) compile.MoOption {
	b := verif.Bool("bool")
	switch verif.Choose("option", 9) {
	case 0:
		c.Force = b
		return compile.MoWithForce(b)
	case 1:
		c.Verbose = b
		return compile.MoWithVerbose(b)
	case 2:
		c.IgnoreErrors = b
		return compile.MoWithIgnoreErrors(b)
	case 3:
		e := compile.Endianness(verif.Choose("endian", 3))
		c.Endianness = e
		return compile.MoWithEndianness(e)
	case 4:
		c.HashTable = b
		return compile.MoWithHashTable(b)
	case 5:
		c.DepureEntries = b
		return compile.MoWithDepureEntries(b)
	case 6:
		c.SortEntries = b
		return compile.MoWithSortEntries(b)
	case 7:
		l := log.New(&bytes.Buffer{}, "", 0)
		c.Logger = l
		return compile.MoWithLogger(l)
	}
	n := compile.DefaultMoConfig(compile.MoWithForce(b))
	*c = n
	return compile.MoWithConfig(n)
}

func poParseOption(c *parse.PoConfig) parse.PoOption {
	b := verif.Bool("bool")
	switch verif.Choose("option", 10) {
	case 0:
		c.IgnoreComments = b
		return parse.PoWithIgnoreComments(b)
	case 1:
		c.IgnoreAllComments = b
		return parse.PoWithIgnoreAllComments(b)
	case 2:
		c.Verbose = b
		return parse.PoWithVerbose(b)
	case 3:
		c.SkipHeader = b
		return parse.PoWithSkipHeader(b)
	case 4:
		c.CleanDuplicates = b
		return parse.PoWithCleanDuplicates(b)
	case 5:
		c.ParseObsoletes = b
		return parse.PoWithParseObsolete(b)
	case 6:
		c.UseCustomObsoletePrefix = b
		return parse.PoWithUseCustomObsoletePrefix(b)
	case 7:
		c.CustomObsoletePrefix = '!'
		return parse.PoWithCustomObsoletePrefix('!')
	case 8:
		l := log.New(&bytes.Buffer{}, "", 0)
		c.Logger = l
		return parse.PoWithLogger(l)
	}
	n := parse.DefaultPoConfig(parse.PoWithSkipHeader(b))
	*c = n
	return parse.PoWithConfig(n)
}

func moParseOption(c *parse.MoConfig) parse.MoOption {
	switch verif.Choose("option", 4) {
	case 0:
		b := verif.Bool("bool")
		c.MustBeSorted = b
		return parse.MoWithMustBeSorted(b)
	case 1:
		e := parse.Endianness(verif.Choose("endian", 3))
		c.Endianness = e
		return parse.MoWithEndianness(e)
	case 2:
		l := log.New(&bytes.Buffer{}, "", 0)
		c.Logger = l
		return parse.MoWithLogger(l)
	}
	n := parse.DefaultMoConfig(parse.MoWithEndianness(parse.BigEndian))
	*c = n
	return parse.MoWithConfig(n)
}

func goOption(c *goparse.Config) goparse.Option {
	b := verif.Bool("bool")
	switch verif.Choose("option", 9) {
	case 0:
		c.NoHeader = b
		return goparse.WithNoHeader(b)
	case 1:
		c.Verbose = b
		return goparse.WithVerbose(b)
	case 2:
		c.CleanDuplicates = b
		return goparse.WithCleanDuplicates(b)
	case 3:
		c.ExtractAll = b
		return goparse.WithExtractAll(b)
	case 4:
		s := gen.Text("exclude", 0, 1)
		c.Exclude = []string{"x", s}
		return goparse.WithExclude("x", s)
	case 5:
		h := &po.Header{}
		c.CustomHeader = h
		return goparse.WithCustomHeader(h)
	case 6:
		h := &po.HeaderConfig{}
		c.HeaderConfig = h
		return goparse.WithHeaderConfig(h)
	case 7:
		l := log.New(&bytes.Buffer{}, "", 0)
		c.Logger = l
		return goparse.WithLogger(l)
	}
	n := goparse.DefaultConfig(goparse.WithNoHeader(b))
	*c = n
	return goparse.WithConfig(n)
}

// restore applies options in two steps and takes them back in two.
func restore[C, O any](c *C, option func(*C) O, same func(a, b C) bool, apply func(...O), back func()) {
	ok := func(a, b C, msg string) { verif.Assert(same(a, b), msg) }
	zero := *c
	one := zero
	o1 := option(&one)
	apply(o1)
	ok(*c, one, "an option sets what it says and nothing else")
	two := one
	switch verif.Choose("steps", 4) {
	case 1:
		o2 := option(&two)
		apply(o2)
		ok(*c, two, "an option sets what it says and nothing else")
		back()
		ok(*c, one, "restoring gives the configuration before the last options")
	case 2:
		// Taken back, others are given again.
		back()
		ok(*c, zero, "restoring gives the configuration before the options")
		two = zero
		apply(option(&two))
		ok(*c, two, "an option sets what it says and nothing else")
	case 3:
		// Both at once: the second is the last word.
		two = zero
		back()
		again := option(&two)
		twice := option(&two)
		apply(again, twice)
		ok(*c, two, "options at once are applied in turn")
	}
	back()
	ok(*c, zero, "restoring gives the configuration before the options")
	verif.Reach("end")
}

// HRestore: options are applied and taken back.
func HRestore() {
	switch verif.Param("kind", 0) {
	case 0:
		c := compile.DefaultPoConfig()
		restore(&c, poOption, samePo, c.ApplyOptions, c.RestoreLastCfg)
	case 1:
		c := compile.DefaultMoConfig()
		restore(&c, moOption, sameMo, c.ApplyOptions, c.RestoreLastCfg)
	case 2:
		c := parse.DefaultPoConfig()
		restore(&c, poParseOption, samePoParse, c.ApplyOptions, c.RestoreLastCfg)
	case 3:
		c := parse.DefaultMoConfig()
		restore(&c, moParseOption, sameMoParse, c.ApplyOptions, c.RestoreLastCfg)
	case 4:
		c := goparse.DefaultConfig()
		restore(&c, goOption, sameGo, c.ApplyOptions, c.RestoreLastCfg)
	}
}

func headerOption(c *po.HeaderConfig) po.HeaderOption {
	b, s := verif.Bool("bool"), gen.Text("str", 0, 1)
	n := uint(verif.Choose("n", 3))
	switch verif.Choose("option", 16) {
	case 0:
		c.Template = b
		return po.HeaderWithTemplate(b)
	case 1:
		c.Plural = s
		return po.HeaderWithPlural(s)
	case 2:
		c.POTCreationDate = s
		return po.HeaderWithPOTCreationDate(s)
	case 3:
		c.PORevisionDate = s
		return po.HeaderWithPORevisionDate(s)
	case 4:
		c.XGenerator = s
		return po.HeaderWithXGenerator(s)
	case 5:
		c.ContentTransferEncoding = s
		return po.HeaderWtihContentTransferEncoding(s)
	case 6:
		c.MediaType = s
		return po.HeaderWithMediaType(s)
	case 7:
		c.Charset = s
		return po.HeaderWithCharset(s)
	case 8:
		c.MimeVersion = s
		return po.HeaderWithMimeVersion(s)
	case 9:
		c.Nplurals = n
		return po.HeaderWithNplurals(n)
	case 10:
		c.ProjectIDVersion = s
		return po.HeaderWithProjectIDVersion(s)
	case 11:
		c.ReportMsgidBugsTo = s
		return po.HeaderWithReportMsgidBugsTo(s)
	case 12:
		c.Language = s
		return po.HeaderWithLanguage(s)
	case 13:
		c.LanguageTeam = s
		return po.HeaderWithLanguageTeam(s)
	case 14:
		c.LastTranslator = s
		return po.HeaderWithLastTranslator(s)
	}
	n2 := po.HeaderConfig{Language: s, Nplurals: n, Template: b, ExtraFields: []po.HeaderField{{Key: "X-A", Value: s}}}
	*c = n2
	return po.HeaderWithConfig(n2)
}

func sameHeader(a, b po.HeaderConfig) bool {
	ok := len(a.ExtraFields) == len(b.ExtraFields)
	for i := range a.ExtraFields {
		ok = verif.And(ok, a.ExtraFields[i] == b.ExtraFields[i])
	}
	for _, x := range [][2]string{{a.ProjectIDVersion, b.ProjectIDVersion}, {a.ReportMsgidBugsTo, b.ReportMsgidBugsTo}, {a.POTCreationDate, b.POTCreationDate},
		{a.PORevisionDate, b.PORevisionDate}, {a.LastTranslator, b.LastTranslator}, {a.LanguageTeam, b.LanguageTeam}, {a.Language, b.Language},
		{a.MimeVersion, b.MimeVersion}, {a.MediaType, b.MediaType}, {a.Charset, b.Charset}, {a.ContentTransferEncoding, b.ContentTransferEncoding},
		{a.Plural, b.Plural}, {a.XGenerator, b.XGenerator}} {
		ok = verif.And(ok, x[0] == x[1])
	}
	return verif.And(ok, verif.And(a.Template == b.Template, a.Nplurals == b.Nplurals))
}

func mergeOption(c *po.MergeConfig) po.MergeOption {
	b, m := verif.Bool("bool"), po.SortMode(verif.Choose("mode", 7))
	switch verif.Choose("option", 5) {
	case 0:
		c.FuzzyMatch = b
		return po.MergeWithFuzzyMatch(b)
	case 1:
		c.KeepPreviousIDs = b
		return po.MergeWithKeepPreviousIDs(b)
	case 2:
		c.Sort = b
		return po.MergeWithSort(b)
	case 3:
		c.SortMode = m
		return po.MergeWithSortMode(m)
	}
	n := po.MergeConfig{FuzzyMatch: b, SortMode: m}
	*c = n
	return po.MergeWithMergeConfig(n)
}

func catOption(c *po.MsgcatMergeConfig) po.MsgcatMergeOption {
	b, u := verif.Bool("bool"), uint(verif.Uint32("u"))
	switch verif.Choose("option", 4) {
	case 0:
		c.LessThan = u
		return po.MsgcatMergeWithLessThan(u)
	case 1:
		c.MoreThan = u
		return po.MsgcatMergeWithMoreThan(u)
	case 2:
		c.UseFirst = b
		return po.MsgcatMergeWithUseFirst(b)
	}
	n := po.MsgcatMergeConfig{LessThan: u, UseFirst: b}
	*c = n
	return po.MsgcatMergeWithConfig(n)
}

// HOptions: options that are given when a configuration is made.
func HOptions() {
	msg := "an option sets what it says and nothing else"
	switch verif.Param("kind", 0) {
	case 0:
		make := []func(...po.HeaderOption) po.HeaderConfig{po.DefaultHeaderConfig, po.DefaultTemplateHeaderConfig, po.HeaderConfigFromOptions}[verif.Choose("make", 3)]
		c := make()
		o := []po.HeaderOption{headerOption(&c)}
		if verif.Choose("two", 2) == 1 {
			o = append(o, headerOption(&c))
		}
		verif.Assert(sameHeader(make(o...), c), msg)
		verif.Assert(!sameHeader(make(), make(po.HeaderWithLanguage("x"))), "and not for the next one")
	case 1:
		c := po.DefaultMergeConfig()
		d := c
		o := []po.MergeOption{mergeOption(&c)}
		if verif.Choose("two", 2) == 1 {
			o = append(o, mergeOption(&c))
		}
		verif.Assert(po.DefaultMergeConfig(o...) == c, msg)
		verif.Assert(po.DefaultMergeConfig() == d, "and not for the next one")
		d.ApplyOption(o...)
		verif.Assert(d == c, msg)
	case 2:
		c := po.DefaultMsgcatMergeConfig()
		d := c
		o := []po.MsgcatMergeOption{catOption(&c)}
		if verif.Choose("two", 2) == 1 {
			o = append(o, catOption(&c))
		}
		verif.Assert(po.DefaultMsgcatMergeConfig(o...) == c, msg)
		verif.Assert(po.DefaultMsgcatMergeConfig() == d, "and not for the next one")
		d.ApplyOption(o...)
		verif.Assert(d == c, msg)
	}
	verif.Reach("end")
}

// failing has room for n bytes. If it is silent it says how many it takes, but not why.
type failing struct {
	n   int
	how int // what it does with what does not fit
}

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.n {
		n := f.n
		f.n = 0
		switch f.how {
		case 1:
			return 0, errFail
		case 2:
			return n, io.ErrShortWrite
		}
		return n, errFail
	}
	f.n -= len(p)
	return len(p), nil
}

// HTemporary: options given to one operation hold for it and only for it.
func HTemporary() {
	es := po.Entries{{Str: "Language: x\n"}, {ID: "a", Str: "b\nc", Locations: po.Locations{{File: "f", Line: 1}}, Flags: []string{"fuzzy"}}, {ID: "o", Str: "p", Obsolete: true}, {ID: "u"}, {ID: "v", Str: "w"}}
	f := &po.File{Name: "x", Entries: gen.Clone(es)}
	switch verif.Choose("kind", 5) {
	case 0:
		c := compile.NewPo(f)
		want := c.Config
		o := poOption(&want)
		now := compile.PoToBytes(f)
		var then []byte
		switch verif.Choose("to", 6) {
		case 0:
			then = c.ToBytesWithOptions(o)
		case 1:
			then = []byte(c.ToStringWithOptions(o))
		case 2:
			var b bytes.Buffer
			verif.Assert(c.ToWriterWithOptions(&b, o) == nil, "there is no error")
			then = b.Bytes()
		case 3:
			then = compile.PoToBytes(f, o)
			// Also after a failure.
			err := c.ToWriterWithOptions(&failing{n: 3}, o)
			verif.Assert((err == nil) == want.IgnoreErrors, "a failure to write is reported")
		case 4:
			then = compile.PoToBytes(f, o)
			err := c.ToFileWithOptions("no/file", o)
			verif.Assert((err == nil) == want.IgnoreErrors, "a failure to write is reported")
		case 5:
			verif.Assert(c.ToFileWithOptions("file", o) == nil, "there is no error")
			then, _ = os.ReadFile("file")
		}
		verif.Assert(bytes.Equal(then, compile.PoToBytes(f, o)), "the options hold for the operation")
		verif.Assert(samePo(c.Config, compile.NewPo(f).Config) || c.Config.Logger != nil, "the configuration is as before")
		l := c.Config
		l.Logger = nil
		d := compile.DefaultPoConfig(compile.PoWithLogger(nil))
		verif.Assert(samePo(l, d), "the configuration is as before")
		verif.Assert(bytes.Equal(c.ToBytes(), now), "the next operation is as if it was the first")
	case 1:
		c := compile.NewMo(f)
		want := c.Config
		o := moOption(&want)
		now := compile.MoToBytes(f)
		var then []byte
		switch verif.Choose("to", 5) {
		case 0:
			then = c.ToBytesWithOptions(o)
		case 1:
			var b bytes.Buffer
			verif.Assert(c.ToWriterWithOptions(&b, o) == nil, "there is no error")
			then = b.Bytes()
		case 2:
			then = compile.MoToBytes(f, o)
			err := c.ToWriterWithOptions(&failing{n: 3}, o)
			verif.Assert((err == nil) == want.IgnoreErrors, "a failure to write is reported")
		case 3:
			then = compile.MoToBytes(f, o)
			err := c.ToFileWithOptions("no/file", o)
			verif.Assert((err == nil) == want.IgnoreErrors, "a failure to write is reported")
		case 4:
			verif.Assert(c.ToFileWithOptions("file", o) == nil, "there is no error")
			then, _ = os.ReadFile("file")
		}
		verif.Assert(bytes.Equal(then, compile.MoToBytes(f, o)), "the options hold for the operation")
		verif.Assert(sameMo(c.Config, compile.DefaultMoConfig()), "the configuration is as before")
		verif.Assert(bytes.Equal(c.ToBytes(), now), "the next operation is as if it was the first")
	case 2:
		data := compile.PoToBytes(f)
		p := parse.NewPoFromBytes(data, "x")
		want := p.Config
		o := poParseOption(&want)
		now := parse.NewPoFromBytes(data, "x").Parse()
		g := p.ParseWithOptions(o)
		h := parse.NewPoFromBytes(data, "x", o).Parse()
		verif.Assert(gen.SameAll(g.Entries, h.Entries), "the options hold for the operation")
		verif.Assert(samePoParse(p.Config, parse.DefaultPoConfig()), "the configuration is as before")
		verif.Assert(gen.SameAll(p.Parse().Entries, now.Entries), "the next operation is as if it was the first")
	case 3:
		data := compile.MoToBytes(f, compile.MoWithEndianness(compile.BigEndian))
		p := parse.NewMoFromBytes(data, "x")
		want := p.Config
		o := moParseOption(&want)
		g := p.ParseWithOptions(o)
		h, herr := parse.MoFromBytes(data, "x", o)
		verif.Assert((g == nil) == (h == nil) && (herr == nil) == (p.Error() == nil), "the options hold for the operation")
		if g != nil {
			verif.Assert(gen.SameAll(g.Entries, h.Entries), "the options hold for the operation")
		}
		verif.Assert(sameMoParse(p.Config, parse.DefaultMoConfig()), "the configuration is as before")
		verif.Assert(p.Parse() != nil && p.Error() == nil, "the next operation is as if it was the first")
	case 4:
		src := "package x\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar a, b, c = gotext.Get(\"a\"), gotext.Get(\"a\"), \"c\"\n"
		p, err := goparse.NewParserFromString(src, "x.go")
		verif.Assert(err == nil, "there is no error")
		before := p.Config
		want := p.Config
		o := goOption(&want)
		q, _ := goparse.NewParserFromString(src, "x.go", o)
		r, _ := goparse.NewParserFromString(src, "x.go")
		g, h := p.ParseWithOptions(o), q.Parse()
		verif.Assert((g == nil) == (h == nil) && (p.Error() == nil) == (q.Error() == nil), "the options hold for the operation")
		if g != nil && h != nil {
			verif.Assert(gen.SameAll(g.Entries, h.Entries), "the options hold for the operation")
		}
		verif.Assert(sameGo(p.Config, before), "the configuration is as before")
		g, h = p.Parse(), r.Parse()
		verif.Assert((g == nil) == (h == nil), "the next operation is as if it was the first")
		if g != nil && h != nil {
			verif.Assert(gen.SameAll(g.Entries, h.Entries), "the next operation is as if it was the first")
		}
	}
	verif.Assert(gen.SameAll(f.Entries, es), "the messages are left alone")
	verif.Reach("end")
}
