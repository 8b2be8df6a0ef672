From a9aeddd40f42c0250d99ab05405b48b33e332e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 01/62] fix: write the MO magic number in the file's own byte
 order

---
 internal/util/bytes.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..d8eff07 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -41,20 +41,11 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
+// MagicNumber returns the value that a MO file written in e starts with, as it
+// is read and written through [Endianness.Order]. It is the same for every
+// byte order, the order itself decides how the bytes are laid out.
 func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
+	return LittleEndianMagicNumber
 }
 
 func (e Endianness) String() string {
-- 
2.43.0


From d269ea116f430c794959edd196cb6a84a1a6ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 02/62] fix: hash the bytes of MO identifiers, not their code
 points

---
 internal/util/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..99a9571 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -1,11 +1,12 @@
 package util
 
-// PJWHash computes a hash value for a string using the PJW (Elf) hash algorithm.
+// PJWHash computes a hash value for a string using the PJW (Elf) hash algorithm,
+// over its bytes like gettext's hash_string does.
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	for i := 0; i < len(str); i++ {
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From df365bbd64c7b12623bd6a1d893d23e218be2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 03/62] fix: compile MO files without touching the source
 entries or losing live duplicates

---
 pkg/po/compile/mo_compile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..c5033db 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -54,10 +55,13 @@ func flen[X any, Y ~[]X](value Y) u32 {
 //
 // Returns an error if any step fails, unless IgnoreErrors is true.
 func (mc *MoCompiler) writeTo(writer io.Writer) error {
-	entries := mc.File.Entries
+	// The cleaning and sorting below work in place, the file is not ours to modify.
+	entries := slices.Clone(mc.File.Entries)
 	if mc.Config.DepureEntries {
 		mc.info("cleaning entries...")
-		entries = mc.File.Entries.CleanDuplicates().CleanFuzzy().CleanObsoletes()
+		// Duplicates go last, so that only entries that
+		// remain can take the place of another one.
+		entries = entries.CleanFuzzy().CleanObsoletes().CleanDuplicates()
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-- 
2.43.0


From c4ab8fd89aec3921fb63dc1ee6ea2eb9caf5492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 04/62] fix: reject MO files whose tables or strings lie
 outside of the file

---
 pkg/po/parse/mo_parser.go | 60 ++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..63d31ef 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -16,7 +16,6 @@ import (
 type (
 	u32 = uint32
 	i64 = int64
-	i32 = int32
 )
 
 // Common byte sequences used in MO file parsing.
@@ -174,6 +173,12 @@ func (m *MoParser) Parse() (file *po.File) {
 		m.error("invalid minor version number (%d)", v)
 	}
 
+	// Every string needs a place in the tables, which are in the file.
+	if i64(header.Nstrings)*8 > i64(len(m.data)) {
+		m.error("invalid number of strings (%d)", header.Nstrings)
+		return
+	}
+
 	// Read message ID table
 	msgIDStart := make([]u32, header.Nstrings)
 	msgIDLen := make([]u32, header.Nstrings)
@@ -195,8 +200,8 @@ func (m *MoParser) Parse() (file *po.File) {
 	}
 
 	// Read message string table
-	msgStrStart := make([]i32, header.Nstrings)
-	msgStrLen := make([]i32, header.Nstrings)
+	msgStrStart := make([]u32, header.Nstrings)
+	msgStrLen := make([]u32, header.Nstrings)
 	_, err = r.Seek(i64(header.TransTabOffset), 0)
 	if err != nil {
 		m.error("bad translation table offset(%d): %w", header.TransTabOffset, err)
@@ -218,7 +223,6 @@ func (m *MoParser) Parse() (file *po.File) {
 	file = &po.File{
 		Name: m.filename,
 		Entries: m.makeEntries(
-			r,
 			&header,
 			msgIDStart,
 			msgIDLen,
@@ -226,6 +230,9 @@ func (m *MoParser) Parse() (file *po.File) {
 			msgStrLen,
 		),
 	}
+	if m.Error() != nil {
+		return nil
+	}
 
 	// Validate sorting if required by configuration
 	if m.Config.MustBeSorted {
@@ -238,12 +245,19 @@ func (m *MoParser) Parse() (file *po.File) {
 	return
 }
 
+// stringAt returns the length bytes of the file that begin at start, if the file has them.
+func (m *MoParser) stringAt(start, length i64) ([]byte, bool) {
+	if start+length > i64(len(m.data)) {
+		return nil, false
+	}
+	return m.data[start : start+length], true
+}
+
 // makeEntries creates po.Entries from the parsed MO file data.
 func (m *MoParser) makeEntries(
-	r *bytes.Reader,
 	header *util.MoHeader,
 	msgIDStart, msgIDLen []u32,
-	msgStrStart, msgStrLen []i32,
+	msgStrStart, msgStrLen []u32,
 ) (entries po.Entries) {
 	for i := u32(0); i < header.Nstrings; i++ {
 		idStart := i64(msgIDStart[i])
@@ -252,35 +266,17 @@ func (m *MoParser) makeEntries(
 		strLen := msgStrLen[i]
 
 		// Read message ID data
-		_, err := r.Seek(idStart, 0)
-		if err != nil {
-			m.error("bad msgid start[%d]: %w", idStart, err)
-		}
-
-		msgIDData := make([]byte, idLen)
-		_, err = r.Read(msgIDData)
-		if err != nil {
-			m.error(
-				"error reading msgid data[start: %d len: %d]: %w",
-				idStart,
-				idLen,
-				err,
-			)
+		msgIDData, ok := m.stringAt(idStart, i64(idLen))
+		if !ok {
+			m.error("bad msgid[start: %d len: %d]", idStart, idLen)
+			return nil
 		}
 
 		// Read message string data
-		_, err = r.Seek(strStart, 0)
-		if err != nil {
-			m.error("bad msgstr start[%d]: %w", strStart, err)
-		}
-		msgStrData := make([]byte, strLen)
-		_, err = r.Read(msgStrData)
-		if err != nil {
-			m.error("error reading msgstr data[start: %d len: %d]: %w",
-				strStart,
-				strLen,
-				err,
-			)
+		msgStrData, ok := m.stringAt(strStart, i64(strLen))
+		if !ok {
+			m.error("bad msgstr[start: %d len: %d]", strStart, strLen)
+			return nil
 		}
 
 		entries = append(entries, makeEntry(msgIDData, msgStrData))
-- 
2.43.0


From 3116bb1c27cc328e1ea03e32b03f5b461c303058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 05/62] fix: parse a MO file anew after a failed parse

---
 pkg/po/parse/mo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 63d31ef..d4d902f 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -151,6 +151,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
 	var err error
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
-- 
2.43.0


From abab5333dd37aa1a7ccc56e9ea30f3dbde6ee310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 06/62] fix: read the only form of a plural MO message as a
 plural form

---
 pkg/po/parse/mo_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d4d902f..1560ac1 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -296,7 +296,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 	)
 
 	// Split context from message ID (separated by EOT)
-	d := bytes.Split(msgid, eot)
+	d := bytes.SplitN(msgid, eot, 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
@@ -317,7 +317,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 
 	// Handle plural forms in message string
 	msgstrParts := bytes.Split(msgstr, nul)
-	if len(msgstrParts) == 1 {
+	if len(msgidParts) == 1 && len(msgstrParts) == 1 {
 		entry.Str = string(msgstrParts[0])
 	} else {
 		for i, s := range msgstrParts {
-- 
2.43.0


From 26c771f949c54ff6a9ca0662348b784413deafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 07/62] fix: end PO strings at the quote after an escaped
 backslash

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..69086d9 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 37f94724788b99fd7e885a059a742e59bebd7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 08/62] fix: write control characters and non-printable text so
 that PO files read back the same

---
 pkg/po/compile/po_compiler_util.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..aef6e61 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -4,8 +4,8 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
@@ -41,25 +41,27 @@ func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries p
 
 func escapePOString(s string) string {
 	var buf strings.Builder
-	for _, r := range s {
-		switch r {
-		case '"':
+	for i := 0; i < len(s); {
+		r, size := utf8.DecodeRuneInString(s[i:])
+		switch {
+		case r == '"':
 			buf.WriteString(`\"`)
-		case '\\':
+		case r == '\\':
 			buf.WriteString(`\\`)
-		case '\n':
+		case r == '\n':
 			buf.WriteString(`\n`)
-		case '\t':
+		case r == '\t':
 			buf.WriteString(`\t`)
-		case '\r':
+		case r == '\r':
 			buf.WriteString(`\r`)
+		case r < ' ' || r == 0x7f || r == utf8.RuneError && size == 1:
+			// Exactly three octal digits, unlike the hexadecimal
+			// form they can be followed by any other digit.
+			fmt.Fprintf(&buf, "\\%03o", s[i])
 		default:
-			if strconv.IsPrint(r) {
-				buf.WriteRune(r)
-			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
-			}
+			buf.WriteString(s[i : i+size])
 		}
+		i += size
 	}
 	return buf.String()
 }
-- 
2.43.0


From 4b4e771d6c83c9e7a3444ad0ad4c2f4f889d62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 09/62] fix: keep the header in the source file when a PO
 compiler omits or manages it

---
 pkg/po/compile/po_compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index dafc01d..d51a184 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -93,7 +93,8 @@ func (c *PoCompiler) ToBytesWithOptions(opts ...PoOption) []byte {
 // ToWriter writes compiled PO content to an io.Writer.
 // Handles header writing, duplicate cleaning, and optional syntax highlighting.
 func (c PoCompiler) ToWriter(outputWriter io.Writer) error {
-	entries := c.File.Entries
+	// The header is taken out below, the file is not ours to modify.
+	entries := slices.Clone(c.File.Entries)
 
 	var highlightBackup *bytes.Buffer
 	buffer := bufio.NewWriter(outputWriter)
-- 
2.43.0


From 6021c0e2c2e82e89133a6d0503811ad7d8146828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 10/62] fix: write a managed PO header once, with its fields
 escaped

---
 pkg/po/compile/po_compiler_format.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..d217ae5 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -119,7 +119,12 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	if eb.Config.HeaderFields {
 		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
+			fmt.Fprintf(
+				&buf,
+				headerFieldFormat,
+				escapePOString(field.Key),
+				escapePOString(field.Value),
+			)
 
 			if i != len(header.Fields) {
 				fmt.Fprint(&buf, "\n")
@@ -129,9 +134,6 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	fmt.Fprintln(&buf)
 
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
 	return buf.Bytes()
 }
 
-- 
2.43.0


From 0fe08483a74c1e13db625f5a2bc04168c7c371de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:33 +0000
Subject: [PATCH 11/62] fix: split header fields at their first colon and write
 one per line

---
 pkg/po/header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..867f2a6 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -49,7 +49,7 @@ func NewHeader(options ...HeaderOption) Header {
 }
 
 var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
+	headerRegex = regexp.MustCompile(`^([^:]*?)\s*:\s*(.*)$`)
 	exprRegex   = regexp.MustCompile(
 		`(?: *(\S+?) *= *(.+?) *; *)`,
 	)
@@ -169,7 +169,7 @@ func (h Header) ToEntry() Entry {
 		if field.Value != " " {
 			field.Value = " " + field.Value
 		}
-		fmt.Fprintf(&b, "\n%s:%s\n", field.Key, field.Value)
+		fmt.Fprintf(&b, "%s:%s\n", field.Key, field.Value)
 	}
 	entry := Entry{Str: b.String()}
 	if h.Template {
-- 
2.43.0


From c2498cfeee9642ae2e9db5789149c04a8244c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 12/62] fix: restore the previous configuration whatever
 options replaced it

---
 pkg/go/parse/config.go      | 5 +++--
 pkg/po/compile/mo_config.go | 5 +++--
 pkg/po/compile/po_config.go | 8 ++++++--
 pkg/po/parse/mo_config.go   | 5 +++--
 pkg/po/parse/po_config.go   | 4 +++-
 5 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..b9456bf 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,12 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
-
+	last := *c
 	for _, opt := range opts {
 		opt(c)
 	}
+	// Last, an option may have replaced the whole configuration.
+	c.lastCfg = last
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..72e404e 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,12 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
-
+	last := *mc
 	for _, opt := range opts {
 		opt(mc)
 	}
+	// Last, an option may have replaced the whole configuration.
+	mc.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..03497a8 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,16 +64,20 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	last := *c
 	for _, po := range opts {
 		po(c)
 	}
+	// Last, an option may have replaced the whole configuration.
+	c.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..e65a982 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,12 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
-
+	last := *mc
 	for _, mo := range opts {
 		mo(mc)
 	}
+	// Last, an option may have replaced the whole configuration.
+	mc.lastCfg = last
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..d061fbb 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,12 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	last := *p
 	for _, opt := range opts {
 		opt(p)
 	}
+	// Last, an option may have replaced the whole configuration.
+	p.lastCfg = last
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From d9fdd735aaaa41e6ddf0541f0412b7787d35be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 13/62] fix: report the line of the first character of an
 extracted literal

---
 pkg/go/parse/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..9d73b46 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -64,7 +64,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()),
+			Line: util.FindLineFromReader(f.reader, n.Pos()-1),
 			File: f.name,
 		}},
 	}, nil
@@ -137,7 +137,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos),
+					Line: util.FindLineFromReader(f.reader, arg.pos-1),
 				},
 			)
 			fallthrough
-- 
2.43.0


From 8f3a734b7ccc5467d029ce33f6c41bf246b79b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 14/62] fix: do not extract empty raw strings, they are the
 header

---
 pkg/go/parse/process.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 9d73b46..5a4e0c1 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -97,18 +97,18 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
-		return
-	}
-
-	f.seenNodes[lit] = struct{}{}
-
 	str, err := strconv.Unquote(lit.Value)
 	if err != nil {
 		a.err = f.error("error unquoting basic literal: %w", err)
 		return
 	}
 
+	if str == "" {
+		return
+	}
+
+	f.seenNodes[lit] = struct{}{}
+
 	return argumentData{str, true, err, lit.Pos()}
 }
 
@@ -187,7 +187,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok || t.Value == `""` || t.Value == "``" {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
-- 
2.43.0


From 3b480c6c3a4407eb919f10f891c940d53278f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 15/62] fix: keep the messages of a file when one of its calls
 cannot be extracted

---
 pkg/go/parse/parser.go  | 4 +---
 pkg/go/parse/process.go | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..3b49f99 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -203,9 +203,7 @@ func (p *Parser) Parse() (file *po.File) {
 	for _, f := range p.files {
 		p.info("parsing %s...", f.name)
 		entries := f.Entries()
-		if err := f.Error(); err != nil {
-			continue
-		}
+		p.errors = append(p.errors, f.Errors()...)
 		file.Entries = append(file.Entries, entries...)
 	}
 
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 5a4e0c1..0800d59 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -84,7 +84,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 	if index < 0 || index >= len(call.Args) {
-		a.err = f.error("index (%d) out of range", index)
+		// The arguments can all be the results of one call.
 		return
 	}
 	lit, ok := call.Args[index].(*ast.BasicLit)
-- 
2.43.0


From 1ea0ee77ac843ec062194600151e607b841ff41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 16/62] fix: forget the imports of the previous file on reset

---
 pkg/go/parse/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..9f3fce4 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -58,6 +58,8 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
+	f.pkgName = DefaultPackageName
+	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
 		f.reader = r
-- 
2.43.0


From 63c617c6bd219a05ffb7d845baab3c10c9c6e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 17/62] fix: report source paths that cannot be read

---
 pkg/go/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 3b49f99..43d8bfe 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -58,6 +58,10 @@ func (p *Parser) appendFiles(files ...string) error {
 	for _, file := range files {
 		walker := krfs.Walk(file)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				p.error("error reading %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
 			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
 				continue
 			}
-- 
2.43.0


From 635edb2de0bfebd5bf83cdd80ae903fb2dac0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 18/62] fix: parse PO files that do not end in a newline and
 leave the data of the caller alone

---
 pkg/po/parse/po_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..ddb9be9 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -236,7 +236,8 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -249,8 +250,7 @@ func (p *PoParser) Parse() *po.File {
 	// unnecessary heavy and slow thing of ANTLR.
 
 	// Add temporary marker to handle edge cases
-	p.data = p.originalData
-	p.data = append(p.data, []byte(safeTemplate)...)
+	p.data = append(slices.Clone(p.originalData), safeTemplate...)
 
 	// Parse the file using the participle parser
 	pFile, err := util.PoParser.ParseBytes(p.filename, p.data)
-- 
2.43.0


From 4f2a1fc0acd500635d56c7cdc3128ad276388649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 19/62] fix: keep the warnings of the PO parser apart from its
 errors

---
 pkg/po/parse/po_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index ddb9be9..4324ba3 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -103,7 +103,7 @@ func (p *PoParser) warn(format string, a ...any) {
 		p.Config.Logger.Println(err)
 	}
 
-	p.errors = append(p.errors, err)
+	p.warns = append(p.warns, err)
 }
 
 // Error returns the first error encountered during parsing, if any.
@@ -244,6 +244,7 @@ msgstr "---"`
 func (p *PoParser) Parse() *po.File {
 	var entries po.Entries
 	p.errors = nil
+	p.warns = nil
 
 	// NOTE: REAAALYY there isn't a better way to do this???
 	// bruh; limitations of the parser, but it was this, or the
-- 
2.43.0


From 1d56d0ba223fee68299b4833ac379aa02606709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 20/62] fix: read PO comments by their first characters, with
 several flags or locations, and obsolete entries with their comments

---
 pkg/po/parse/po_parser.go | 168 +++++++++++++++++++++++---------------
 1 file changed, 103 insertions(+), 65 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 4324ba3..7262b45 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,100 +126,140 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#:(.*)`)      // Source location comments
+	generalRegex   = regexp.MustCompile(`^# ?(.*)`)     // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. ?(.*)`)   // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#,(.*)`)      // Flag comments
+	previousRegex  = regexp.MustCompile(`^#\| ?(.*)`)   // Previous message comments
+	referenceRegex = regexp.MustCompile(`^(.+):(\d+)$`) // A location with a line
 )
 
-// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
+// obsoletePrefix returns what the lines of an obsolete entry begin with.
+func (p *PoParser) obsoletePrefix() string {
 	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
-		}
+		return "#" + string(p.Config.CustomObsoletePrefix)
 	}
+	return "#~"
+}
 
-	cleanedLines := make([]string, 0, len(tokens))
+// isObsolete reports whether t is a line of an obsolete entry.
+func (p *PoParser) isObsolete(t lexer.Token) bool {
+	return t.Type == util.PoSymbols["Comment"] && strings.HasPrefix(t.Value, p.obsoletePrefix())
+}
+
+// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
+func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
+	var lines, comments []string
 	for _, token := range tokens {
-		if token.Type != util.PoSymbols["Comment"] {
-			continue
-		}
-		if !comp.MatchString(token.String()) {
-			continue
+		switch {
+		case p.isObsolete(token):
+			// The comments above an obsolete entry belong to it.
+			lines = append(lines, comments...)
+			comments = nil
+
+			line := strings.TrimPrefix(token.Value, p.obsoletePrefix())
+			if strings.HasPrefix(line, "|") {
+				line = "#" + line
+			}
+			lines = append(lines, line)
+		case token.Type == util.PoSymbols["Comment"]:
+			comments = append(comments, token.Value)
+		case token.Type != util.PoSymbols["WS"]:
+			comments = nil
 		}
-
-		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(token.String())[1],
-		)
 	}
 
-	fullFile := strings.Join(cleanedLines, "\n")
-
 	parser := NewPoFromString(
-		fullFile,
-		"tmp",
+		strings.Join(lines, "\n"),
+		p.filename,
 		PoWithConfig(p.Config),
 		poWithMarkAllAsObsolete(true),
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	p.errors = append(p.errors, parser.errors...)
+	if f == nil {
 		return nil
 	}
 
 	return f.Entries
 }
 
-// parseComments processes all comment tokens associated with an entry and
-// populates the corresponding fields in the Entry struct.
-func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+// entryComments returns the comments of an entry among its tokens,
+// those above an obsolete entry that precedes it are not its own.
+func (p *PoParser) entryComments(tokens []lexer.Token) []lexer.Token {
+	var comments []lexer.Token
 	for _, t := range tokens {
-		if t.Type != util.PoSymbols["Comment"] {
-			continue
+		if p.isObsolete(t) {
+			comments = nil
+		} else if t.Type == util.PoSymbols["Comment"] {
+			comments = append(comments, t)
 		}
-		if obsoleteRegex.MatchString(t.String()) {
-			continue
+	}
+	return comments
+}
+
+// parseLocations returns the locations in the text of a location comment, which
+// are separated by spaces. U+2068 and U+2069 enclose a file name with spaces.
+func parseLocations(text string) (locations po.Locations, err error) {
+	const open, end = "\u2068", "\u2069"
+	for text = strings.TrimSpace(text); text != ""; text = strings.TrimSpace(text) {
+		var file string
+		if strings.HasPrefix(text, open) && strings.Contains(text, end) {
+			i := strings.Index(text, end)
+			file, text = text[len(open):i], text[i+len(end):]
 		}
-		switch {
-		case locationRegex.MatchString(t.String()):
-			matches := locationRegex.FindStringSubmatch(t.String())
-			parts := strings.SplitN(matches[1], ":", 2)
-			line := -1
-			if parts[1] != "" {
-				line, err = strconv.Atoi(parts[1])
-				if err != nil {
-					return fmt.Errorf("error parsing integer: %w", err)
-				}
+		i := strings.IndexAny(text, " \t")
+		if i == -1 {
+			i = len(text)
+		}
+		file, text = file+text[:i], text[i:]
+
+		loc := po.Location{Line: -1, File: file}
+		if matches := referenceRegex.FindStringSubmatch(file); matches != nil {
+			loc.File = matches[1]
+			loc.Line, err = strconv.Atoi(matches[2])
+			if err != nil {
+				return nil, fmt.Errorf("error parsing integer: %w", err)
 			}
+		}
+		locations = append(locations, loc)
+	}
+
+	return locations, nil
+}
 
-			loc := po.Location{
-				Line: line,
-				File: parts[0],
+// parseComments processes all comment tokens associated with an entry and
+// populates the corresponding fields in the Entry struct.
+func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+	for _, t := range tokens {
+		comment := t.Value
+		switch {
+		case strings.HasPrefix(comment, "#~"):
+			continue
+		case locationRegex.MatchString(comment):
+			locations, err := parseLocations(locationRegex.FindStringSubmatch(comment)[1])
+			if err != nil {
+				return err
 			}
-			entry.Locations = append(entry.Locations, loc)
-		case extractedRegex.MatchString(t.String()):
+			entry.Locations = append(entry.Locations, locations...)
+		case extractedRegex.MatchString(comment):
 			entry.ExtractedComments = append(entry.ExtractedComments,
-				extractedRegex.FindStringSubmatch(t.String())[1],
-			)
-		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
+				extractedRegex.FindStringSubmatch(comment)[1],
 			)
-		case previousRegex.MatchString(t.String()):
+		case flagRegex.MatchString(comment):
+			for _, flag := range strings.Split(flagRegex.FindStringSubmatch(comment)[1], ",") {
+				if flag = strings.TrimSpace(flag); flag != "" {
+					entry.Flags = append(entry.Flags, flag)
+				}
+			}
+		case previousRegex.MatchString(comment):
 			entry.Previous = append(entry.Previous,
-				previousRegex.FindStringSubmatch(t.String())[1],
+				previousRegex.FindStringSubmatch(comment)[1],
 			)
 		default:
 			entry.Comments = append(entry.Comments,
-				generalRegex.FindStringSubmatch(t.String())[1],
+				generalRegex.FindStringSubmatch(comment)[1],
 			)
 		}
 	}
@@ -298,7 +338,7 @@ func (p *PoParser) Parse() *po.File {
 		}
 
 		// Parse comments associated with this entry
-		err = parseComments(&newEntry, e.Tokens)
+		err = parseComments(&newEntry, p.entryComments(e.Tokens))
 		if err != nil {
 			p.error(err.Error())
 		}
@@ -314,9 +354,7 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Process obsolete entries if configured to do so
-	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
-	}) && p.Config.ParseObsoletes {
+	if slices.ContainsFunc(pFile.Tokens, p.isObsolete) && p.Config.ParseObsoletes {
 		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
 	}
 
-- 
2.43.0


From a713b0c97a5b192ad5b02258328127357473f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 21/62] fix: comment out every line of an obsolete entry, and
 nothing else

---
 pkg/po/compile/po_compiler_format.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index d217ae5..3b162b2 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -70,15 +70,11 @@ func applyColor(c TermColorer, str string) string {
 func (eb *entryBuilder) BuildEntry() []byte {
 	var buf bytes.Buffer
 	buf.WriteString(eb.comment())
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
+	message := eb.msgid() + eb.msgstr()
 
 	commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy
 
 	if eb.Obsolete || commentFuzzy {
-		entry := buf.String()
-		buf.Reset()
-
 		prefix := "#"
 		if eb.Obsolete {
 			if eb.Config.UseCustomObsoletePrefix {
@@ -89,15 +85,15 @@ func (eb *entryBuilder) BuildEntry() []byte {
 		}
 		prefix += " "
 
-		for _, line := range strings.Split(entry, "\n") {
-			if strings.HasPrefix(line, "#") || line == "" {
-				buf.WriteString(line + "\n")
-				continue
-			}
-
+		// What follows the last newline, if anything, is highlighting.
+		lines := strings.Split(message, "\n")
+		last := len(lines) - 1
+		for _, line := range lines[:last] {
 			buf.WriteString(prefix + line + "\n")
 		}
+		message = lines[last]
 	}
+	buf.WriteString(message)
 
 	buf.WriteByte('\n')
 	return buf.Bytes()
-- 
2.43.0


From b9dd539f355558939df70e8b22fcd297e2e0062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 22/62] fix: comment out every line of a comment with several
 lines

---
 pkg/po/compile/po_compiler_format.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 3b162b2..cc2e236 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -198,7 +198,9 @@ func (eb *entryBuilder) comment() string {
 func (eb *entryBuilder) translatorComment() string {
 	var b strings.Builder
 	for _, comment := range eb.Comments {
-		fmt.Fprintf(&b, "# %s\n", comment)
+		for _, line := range strings.Split(comment, "\n") {
+			fmt.Fprintf(&b, "# %s\n", line)
+		}
 	}
 	return b.String()
 }
@@ -206,7 +208,9 @@ func (eb *entryBuilder) translatorComment() string {
 func (eb *entryBuilder) extractedComment() string {
 	var b strings.Builder
 	for _, comment := range eb.ExtractedComments {
-		fmt.Fprintf(&b, "#. %s\n", comment)
+		for _, line := range strings.Split(comment, "\n") {
+			fmt.Fprintf(&b, "#. %s\n", line)
+		}
 	}
 	return b.String()
 }
@@ -252,7 +256,9 @@ func (eb *entryBuilder) flagComment() string {
 func (eb *entryBuilder) previousComment() string {
 	var b strings.Builder
 	for _, p := range eb.Previous {
-		fmt.Fprintf(&b, "#| %s\n", p)
+		for _, line := range strings.Split(p, "\n") {
+			fmt.Fprintf(&b, "#| %s\n", line)
+		}
 	}
 	return b.String()
 }
-- 
2.43.0


From 0f36127d8dd2fa179328d4fc241f89a74c877003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 23/62] fix: write locations without a line, and files with
 spaces, so that they read back the same

---
 pkg/po/compile/po_compiler_format.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index cc2e236..3eddf69 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -221,17 +221,16 @@ func (eb *entryBuilder) referenceComment() string {
 	}
 	var b strings.Builder
 
-	var writeRef func(id int)
-	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
-		writeRef = func(id int) {
-			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
+	writeRef := func(id int) {
+		l := eb.Locations[id]
+		if strings.ContainsAny(l.File, " \t") {
+			// As GNU gettext does, see the manual of xgettext.
+			l.File = "\u2068" + l.File + "\u2069"
 		}
-	case PoLocationModeFile:
-		writeRef = func(id int) {
-			l := eb.Locations[id]
+		if eb.Config.AddLocation == PoLocationModeFile || l.Line < 0 {
 			fmt.Fprintf(&b, "%s\n", l.File)
+		} else {
+			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
 		}
 	}
 
-- 
2.43.0


From 87d5a0eb584420e8e357c249bd63a15ac9105fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 24/62] fix: read octal and hexadecimal escapes in PO files as
 bytes

---
 internal/util/po_parse.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 69086d9..dcd2b21 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -1,6 +1,9 @@
 package util
 
 import (
+	"strconv"
+	"strings"
+
 	"github.com/alecthomas/participle/v2"
 	"github.com/alecthomas/participle/v2/lexer"
 )
@@ -27,6 +30,29 @@ type (
 	}
 )
 
+// unquote replaces the escape sequences of a string, where an octal or a
+// hexadecimal one is a byte and not a code point.
+func unquote(t lexer.Token) (lexer.Token, error) {
+	var b strings.Builder
+	for s := t.Value[1 : len(t.Value)-1]; s != ""; {
+		char, multibyte, tail, err := strconv.UnquoteChar(s, '"')
+		if err != nil {
+			return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err)
+		}
+		switch {
+		case s[0] != '\\':
+			b.WriteString(s[:len(s)-len(tail)])
+		case multibyte:
+			b.WriteRune(char)
+		default:
+			b.WriteByte(byte(char))
+		}
+		s = tail
+	}
+	t.Value = b.String()
+	return t, nil
+}
+
 func SearchSymbol(t lexer.TokenType) string {
 	for k, tt := range PoSymbols {
 		if tt == t {
@@ -53,7 +79,7 @@ var (
 	PoLexer  = lexer.MustSimple(PoRules)
 	PoParser = participle.MustBuild[poFile](
 		participle.Lexer(PoLexer),
-		participle.Unquote("String"),
+		participle.Map(unquote, "String"),
 		participle.Elide(
 			"WS",
 			"Comment",
-- 
2.43.0


From 497973f5d8e141c9bdc8238f9cd9ef33197f544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 25/62] fix: entries that are not obsolete can be equal

---
 pkg/po/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..8d3b1f7 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -141,7 +141,7 @@ func (e Entry) Hash() uint32 {
 func (e Entry) Equal(x Entry) bool {
 	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
+	ok3 := e.Obsolete == x.Obsolete
 	return ok1 && ok2 && ok3
 }
 
-- 
2.43.0


From a253fddcc9114cbbaa85e3469f5aea05169c1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 26/62] fix: only keep messages with less than and more than
 the requested definitions

---
 pkg/po/msgcat_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..d2381b1 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -64,7 +64,7 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
+		return info.timesFound >= process.config.LessThan ||
 			info.timesFound <= process.config.MoreThan
 	})
 }
-- 
2.43.0


From 4ae97e96e38790db49a49b9777fd02063f6a8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 27/62] fix: keep flags, obsolescence and every plural form
 when msgcat merges entries, which conflict only when both are translated

---
 pkg/po/entry.go        |   2 +-
 pkg/po/msgcat_merge.go | 109 ++++++++++++++++++++++++++---------------
 2 files changed, 70 insertions(+), 41 deletions(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 8d3b1f7..b56d1b4 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -36,7 +36,7 @@ func (e *Entry) markAsObsolete() { e.Obsolete = true }
 // markAsFuzzy adds the "fuzzy" flag to the entry if not already present.
 func (e *Entry) markAsFuzzy() {
 	if !e.IsFuzzy() {
-		e.Flags = append(e.Flags, "fuzzy")
+		e.Flags = append(slices.Clip(e.Flags), "fuzzy")
 	}
 }
 
diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index d2381b1..a9b48a9 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -126,12 +126,7 @@ func msgcatMergeEntry(
 	originalFilename, newFilename string,
 ) Entry {
 	mergedEntry := Entry{
-		Flags: msgcatMergeComments(
-			originalEntry.Flags,
-			newEntry.Flags,
-			originalFilename,
-			newFilename,
-		),
+		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
 			originalEntry.Comments,
 			newEntry.Comments,
@@ -151,62 +146,96 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 
-		ID:      originalEntry.ID,
-		Context: originalEntry.Context,
-		Plural:  originalEntry.Plural,
-		Plurals: msgcatMergePlurals(
-			originalEntry,
-			newEntry,
-			originalFilename,
-			newFilename,
-		),
-		Str: msgcatMergeStrings(
-			originalEntry.Str,
-			newEntry.Str,
-			originalFilename,
-			newFilename,
-		),
+		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
+		ID:       originalEntry.ID,
+		Context:  originalEntry.Context,
+		Plural:   originalEntry.Plural,
 		Locations: append(
-			originalEntry.Locations,
+			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
 	}
 
-	if !mergedEntry.IsFuzzy() &&
-		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
-			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
-		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
+	mergedForms := msgcatMergePlurals(
+		msgcatForms(originalEntry),
+		msgcatForms(newEntry),
+		originalFilename,
+		newFilename,
+	)
+	if originalEntry.IsPlural() {
+		mergedEntry.Plurals = mergedForms
+	} else {
+		mergedEntry.Str = mergedForms.form(0)
+	}
+
+	if originalEntry.IsPlural() != newEntry.IsPlural() ||
+		originalEntry.Plural != newEntry.Plural ||
+		msgcatConflict(msgcatForms(originalEntry), msgcatForms(newEntry)) {
+		mergedEntry.markAsFuzzy()
 	}
 
 	return mergedEntry
 }
 
-// msgcatMergePlurals handles merging of plural form strings.
-func msgcatMergePlurals(
-	originalEntry, newEntry Entry,
-	originalFilename, newFilename string,
-) PluralEntries {
-	if !originalEntry.IsPlural() {
-		return originalEntry.Plurals
+// msgcatForms returns the translations of an entry,
+// the one of a singular message is its form 0.
+func msgcatForms(entry Entry) PluralEntries {
+	if entry.IsPlural() {
+		return entry.Plurals
 	}
+	return PluralEntries{{ID: 0, Str: entry.Str}}
+}
+
+// form returns the form with the given ID, or an empty string.
+func (p PluralEntries) form(id int) string {
+	for _, pe := range p {
+		if pe.ID == id {
+			return pe.Str
+		}
+	}
+	return ""
+}
 
-	mergedEntries := make(PluralEntries, 0, len(originalEntry.Plurals)+len(newEntry.Plurals))
+// msgcatConflict reports whether a form has two different translations.
+func msgcatConflict(originalForms, newForms PluralEntries) bool {
+	return slices.ContainsFunc(newForms, func(pe PluralEntry) bool {
+		original := originalForms.form(pe.ID)
+		return original != "" && pe.Str != "" && original != pe.Str
+	})
+}
 
-	for i, original := range originalEntry.Plurals {
-		if i >= len(newEntry.Plurals) {
-			mergedEntries = append(mergedEntries, original)
-			continue
+// msgcatMergeFlags returns the flags of both entries, each of them once.
+func msgcatMergeFlags(originalFlags, newFlags []string) []string {
+	merged := slices.Clip(originalFlags)
+	for _, flag := range newFlags {
+		if !slices.Contains(merged, flag) {
+			merged = append(merged, flag)
 		}
+	}
+	return merged
+}
+
+// msgcatMergePlurals handles merging of plural form strings.
+func msgcatMergePlurals(
+	originalForms, newForms PluralEntries,
+	originalFilename, newFilename string,
+) PluralEntries {
+	mergedEntries := make(PluralEntries, 0, len(originalForms)+len(newForms))
 
-		newPlural := newEntry.Plurals[i]
+	for _, original := range originalForms {
 		mergedEntries = append(mergedEntries, PluralEntry{
 			ID: original.ID,
 			Str: msgcatMergeStrings(
-				original.Str, newPlural.Str,
+				original.Str, newForms.form(original.ID),
 				originalFilename, newFilename,
 			),
 		})
 	}
+	for _, pe := range newForms {
+		if !slices.ContainsFunc(mergedEntries, func(m PluralEntry) bool { return m.ID == pe.ID }) {
+			mergedEntries = append(mergedEntries, pe)
+		}
+	}
 
 	return mergedEntries
 }
-- 
2.43.0


From 9e6f78a367ff2e2e7922859943ae63e77f735dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 28/62] fix: compare the first fields of structs, and nil
 pointers

---
 internal/util/equal.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 602c8b2..b1b532d 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -11,7 +11,13 @@ func FuzzyEqual(x, y string) bool {
 	return fuzzy.Ratio(x, y) >= 80
 }
 
-type visitedPairs map[[2]uintptr]struct{}
+// A variable and its first field have the same address, but not the same type.
+type visitedPair struct {
+	x, y uintptr
+	t    reflect.Type
+}
+
+type visitedPairs map[visitedPair]struct{}
 
 func Equal[X, Y any](x X, y Y) bool {
 	return equal(reflect.ValueOf(x), reflect.ValueOf(y), make(visitedPairs))
@@ -37,8 +43,7 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 		return false
 	}
 	if v1.CanAddr() && v2.CanAddr() {
-		addr1, addr2 := v1.UnsafeAddr(), v2.UnsafeAddr()
-		pair := [2]uintptr{addr1, addr2}
+		pair := visitedPair{v1.UnsafeAddr(), v2.UnsafeAddr(), v1.Type()}
 		if _, found := visited[pair]; found {
 			return true
 		}
@@ -68,6 +73,8 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 		return mapEqual(v1, v2, visited)
 	case reflect.Struct:
 		return structEqual(v1, v2, visited)
+	case reflect.Pointer:
+		return v1.IsNil() && v2.IsNil()
 	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return false
 	default:
-- 
2.43.0


From 08f47571f730af2aafce816b75cc96e702f0ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 29/62] fix: the average of no values is zero

---
 internal/util/average.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/util/average.go b/internal/util/average.go
index c59c242..4a2b331 100644
--- a/internal/util/average.go
+++ b/internal/util/average.go
@@ -13,5 +13,9 @@ func Average[T Number](values ...T) T {
 		total += v
 	}
 
+	if len(values) == 0 {
+		return 0
+	}
+
 	return total / T(len(values))
 }
-- 
2.43.0


From e6adfe4eef76f5c3a3406723140a162fbe2a1b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 30/62] fix: compare the translations, not the identifiers, for
 their match ratio

---
 pkg/po/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..5e241d2 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -36,7 +36,7 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, ratio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
-- 
2.43.0


From 291c074c8b43d9606375db815374fdf5b22480c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 31/62] fix: compare numbers without overflow

---
 pkg/po/cmp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 5e241d2..f15dd44 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -140,9 +140,19 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 	return strings.Compare(a.Str, b.Str)
 }
 
+// compareInt compares two numbers, their difference could overflow.
+func compareInt(a, b int) int {
+	if a < b {
+		return -1
+	} else if a > b {
+		return 1
+	}
+	return 0
+}
+
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInt(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -160,7 +170,7 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInt(a.Line, b.Line)
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
-- 
2.43.0


From 2273719aff62dec7fd16c7432aff7c8274a82b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 32/62] fix: order entries by translation transitively, plural
 or not

---
 pkg/po/cmp.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index f15dd44..99420f2 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -99,12 +99,10 @@ func CompareEntryByLocation(a, b Entry) int {
 
 // CompareEntryByStr compares entries by their translation strings, including plural forms.
 func CompareEntryByStr(a, b Entry) int {
-	if a.IsPlural() && b.IsPlural() {
-		if i := ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr); i != 0 {
-			return i
-		}
+	if str := strings.Compare(a.Str, b.Str); str != 0 {
+		return str
 	}
-	return strings.Compare(a.Str, b.Str)
+	return ComparePluralEntriesFunc(a.Plurals, b.Plurals, ComparePluralEntryByStr)
 }
 
 // CompareEntryByLine compares entries by line numbers in their locations.
-- 
2.43.0


From 761ada0bc5eda7a280ffcbbe0c8588c136a68349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 33/62] fix: do not write into the locations of the caller when
 solving duplicates

---
 pkg/po/entries.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..600e05e 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
-- 
2.43.0


From f4f4912949795a618faee9c89f358fe553b6d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 34/62] fix: keep the plural of a message that is also used
 without it

---
 pkg/po/entries.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 600e05e..1b132ab 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -141,6 +141,10 @@ func (e Entries) CleanObsoletes() Entries {
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
 		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
+		if !a.IsPlural() && a.Str == "" {
+			// The same message, used with and without plural.
+			a.Plural, a.Plurals, a.Str = b.Plural, b.Plurals, b.Str
+		}
 		return &a
 	})
 }
-- 
2.43.0


From afad2a72a8d07ebcfba862e3dc54b9982f0ab376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 35/62] fix: merge into every message of the template, once,
 live and with its references

---
 pkg/po/merge.go | 49 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..28b2743 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,7 @@
 package po
 
+import "github.com/Tom5521/gotext-tools/v2/internal/slices"
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -95,11 +97,17 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 	// NOTE: The implicit memory aliasing in loops
 	// are intentional, don't try to change it.
 
-	nplurals := int(ref.Header().Nplurals())
+	header := def.Header()
+	if !def.HasHeader() {
+		header = ref.Header()
+	}
+	nplurals := int(header.Nplurals())
 	def = def.Solve()
+	// The obsolete entries of ref are not in use anymore.
+	ref = slices.Clone(ref).CleanObsoletes()
 
 	for i, entry := range def {
-		if mergeDef(config, &entry, ref) {
+		if mergeDef(config, &entry, def, ref) {
 			continue
 		}
 		def[i] = entry
@@ -121,16 +129,19 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 }
 
 func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool {
-	if def.ContainsUnifiedID(entry.UnifiedID()) || entry.IsHeader() {
+	if def.ContainsUnifiedID(entry.UnifiedID()) {
 		return true
 	}
+	if entry.IsHeader() {
+		return false
+	}
 	if config.FuzzyMatch {
 		if bestID, ratio := def.BestIDRatio(*entry); ratio >= 50 {
 			entry.markAsFuzzy()
 			best := def[bestID]
 			mergeEntryStrings(entry, best)
 		}
-	} else if entry.IsPlural() {
+	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
 		for i := 0; i < nplurals; i++ {
 			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
 		}
@@ -138,15 +149,20 @@ func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool
 	return false
 }
 
-func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
-	if ref.ContainsUnifiedID(e.UnifiedID()) || e.IsHeader() {
+func mergeDef(config MergeConfig, e *Entry, def, ref Entries) bool {
+	if e.IsHeader() {
 		return true
 	}
+	if i := ref.IndexByUnifiedID(e.UnifiedID()); i != -1 {
+		mergeEntryReference(e, ref[i])
+		return false
+	}
 	switch {
 	case config.FuzzyMatch:
-		if bestID, ratio := ref.BestIDRatio(*e); ratio >= 50 {
+		bestID, ratio := ref.BestIDRatio(*e)
+		if ratio >= 50 && !def.ContainsUnifiedID(ref[bestID].UnifiedID()) {
 			e.markAsFuzzy()
-			e.ID = ref[bestID].ID
+			mergeEntryReference(e, ref[bestID])
 		} else {
 			e.markAsObsolete()
 		}
@@ -158,6 +174,22 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
 	return false
 }
 
+// mergeEntryReference makes e the entry of a message of ref: the identity and the
+// references to the source code are the ones in ref, the rest remains.
+func mergeEntryReference(e *Entry, ref Entry) {
+	if e.Plural != ref.Plural || e.IsPlural() != ref.IsPlural() {
+		e.markAsFuzzy()
+	}
+	if e.IsPlural() != ref.IsPlural() {
+		target := Entry{Plural: ref.Plural}
+		mergeEntryStrings(&target, *e)
+		e.Str, e.Plurals = target.Str, target.Plurals
+	}
+	e.ID, e.Context, e.Plural = ref.ID, ref.Context, ref.Plural
+	e.Obsolete = false
+	e.Locations, e.ExtractedComments = ref.Locations, ref.ExtractedComments
+}
+
 // mergeEntryStrings copies translation strings from source to target.
 //
 // If both entries are plural, plural forms are copied.
@@ -167,6 +199,7 @@ func mergeEntryStrings(target *Entry, source Entry) {
 	case target.IsPlural() && source.IsPlural():
 		target.Plurals = source.Plurals
 	case target.IsPlural() && !source.IsPlural():
+		target.Plurals = append(PluralEntries{}, target.Plurals...)
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
 		}
-- 
2.43.0


From 826ea052718691a17e2cf9bc124aad88df792660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 36/62] fix: read octal escapes with less than three digits

---
 internal/util/po_parse.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index dcd2b21..c5d3e3f 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -1,6 +1,7 @@
 package util
 
 import (
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -30,11 +31,24 @@ type (
 	}
 )
 
+var octalRegex = regexp.MustCompile(`^\\[0-7]{1,3}`)
+
 // unquote replaces the escape sequences of a string, where an octal or a
 // hexadecimal one is a byte and not a code point.
 func unquote(t lexer.Token) (lexer.Token, error) {
 	var b strings.Builder
 	for s := t.Value[1 : len(t.Value)-1]; s != ""; {
+		// Unlike in Go, an octal one may have less than three digits.
+		if octal := octalRegex.FindString(s); octal != "" {
+			n, err := strconv.ParseUint(octal[1:], 8, 8)
+			if err != nil {
+				return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err)
+			}
+			b.WriteByte(byte(n))
+			s = s[len(octal):]
+			continue
+		}
+
 		char, multibyte, tail, err := strconv.UnquoteChar(s, '"')
 		if err != nil {
 			return t, participle.Errorf(t.Pos, "invalid quoted string %q: %s", t.Value, err)
-- 
2.43.0


From 149b7023a4ad3d4b153f23b45f517672f7be95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:50 +0000
Subject: [PATCH 37/62] fix: keep the plural, but no translation of another
 duplicate

---
 pkg/po/entries.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 1b132ab..e6bf51c 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -141,7 +141,7 @@ func (e Entries) CleanObsoletes() Entries {
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
 		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
-		if !a.IsPlural() && a.Str == "" {
+		if b.IsPlural() && !a.IsPlural() && a.Str == "" {
 			// The same message, used with and without plural.
 			a.Plural, a.Plurals, a.Str = b.Plural, b.Plurals, b.Str
 		}
-- 
2.43.0


From 63ec2f7347bbd6c8b730fbc69d1c956ffd3abb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 38/62] fix: comment out the comments of fuzzy entries too,
 they are not about the next entry

---
 pkg/po/compile/po_compiler_format.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 3eddf69..b8ff670 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -69,10 +69,14 @@ func applyColor(c TermColorer, str string) string {
 
 func (eb *entryBuilder) BuildEntry() []byte {
 	var buf bytes.Buffer
-	buf.WriteString(eb.comment())
-	message := eb.msgid() + eb.msgstr()
+	comment, message := eb.comment(), eb.msgid()+eb.msgstr()
 
 	commentFuzzy := eb.IsFuzzy() && eb.Config.CommentFuzzy
+	if commentFuzzy && !eb.Obsolete {
+		// The comments too, or they would be those of the next entry.
+		comment, message = "", comment+message
+	}
+	buf.WriteString(comment)
 
 	if eb.Obsolete || commentFuzzy {
 		prefix := "#"
-- 
2.43.0


From 120a05101b56ec6115d82a29b250787d8014c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 39/62] fix: empty strings are equal, also fuzzily

---
 internal/util/equal.go | 3 ++-
 pkg/po/cmp.go          | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index b1b532d..72c0f17 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -8,7 +8,8 @@ import (
 )
 
 func FuzzyEqual(x, y string) bool {
-	return fuzzy.Ratio(x, y) >= 80
+	// The ratio of two empty strings is 0.
+	return x == y || fuzzy.Ratio(x, y) >= 80
 }
 
 // A variable and its first field have the same address, but not the same type.
diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 99420f2..d8ea546 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -41,6 +41,9 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
 			if i >= 0 && i < len(e2.Plurals) {
+				if pe.Str == "" && e2.Plurals[i].Str == "" {
+					continue // As above, there is nothing to compare.
+				}
 				ratios = append(ratios, ratio(pe.Str, e2.Plurals[i].Str))
 			}
 		}
-- 
2.43.0


From b02c8bd1820cb03fb7f83b18b16472fa142d9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 40/62] fix: exclude the files in an excluded directory

---
 internal/util/skip.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/util/skip.go b/internal/util/skip.go
index c27a3b9..b1a4b90 100644
--- a/internal/util/skip.go
+++ b/internal/util/skip.go
@@ -3,6 +3,7 @@ package util
 import (
 	"log"
 	"path/filepath"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	krfs "github.com/kr/fs"
@@ -40,11 +41,15 @@ func ShouldSkipFile(
 	return isExcludedPath(w.Path(), excludedPaths)
 }
 
-// isExcludedPath checks if a path is in the exclude list defined in the configuration.
+// isExcludedPath checks if a path, or a directory it is in, is in the exclude list defined in the configuration.
 func isExcludedPath(path string, exclude []string) bool {
 	return slices.ContainsFunc(exclude, func(s string) bool {
 		abs1, err1 := filepath.Abs(s)
 		abs2, err2 := filepath.Abs(path)
-		return (abs1 == abs2) && (err1 == nil && err2 == nil)
+		if err1 != nil || err2 != nil {
+			return false
+		}
+		dir := strings.TrimSuffix(abs1, string(filepath.Separator)) + string(filepath.Separator)
+		return abs1 == abs2 || strings.HasPrefix(abs2, dir)
 	})
 }
-- 
2.43.0


From d5884b09d6174e7227204b65834bd3b4aff0e087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 41/62] fix: write to standard output in msgofmt if the output
 is -

---
 cli/msgofmt/cmd/root.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..a499ffc 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,7 +38,9 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
@@ -105,6 +107,9 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From cf185bffc7e9016d6ff56194893427612f0f534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 42/62] fix: compile only the named files of the directory in
 msgofmt, or all PO files in it, with the given flags

---
 cli/msgofmt/cmd/root.go | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index a499ffc..b5c1b6c 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -47,42 +47,37 @@ If input file is -, standard input is read.`,
 				}
 				args[i] = filepath.Join(directory, v)
 			}
-			if len(args) >= 0 {
+			if len(args) == 0 {
 				var entries []os.DirEntry
 				entries, err = os.ReadDir(directory)
 				if err != nil {
 					return
 				}
-				if len(args) > 0 {
-					for _, de := range entries {
-						if !de.IsDir() && filepath.Ext(de.Name()) == ".po" {
-							args = append(args, filepath.Join(directory, de.Name()))
-						}
+				for _, de := range entries {
+					if de.IsDir() || filepath.Ext(de.Name()) != ".po" {
+						continue
 					}
-				} else {
-					for _, de := range entries {
-						if de.IsDir() {
-							continue
-						}
-						basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
-						newMo := filepath.Join(directory, basename+".mo")
+					basename := strings.TrimSuffix(de.Name(), filepath.Ext(de.Name()))
+					newMo := filepath.Join(directory, basename+".mo")
 
-						var poFile *po.File
-						poFile, err = parse.Po(filepath.Join(directory, de.Name()))
-						if err != nil {
-							return
-						}
-						if errs := poFile.Validate(); len(errs) > 0 {
-							err = errs[0]
-							return
-						}
-						err = compile.MoToFile(poFile, newMo)
-						if err != nil {
-							return
-						}
+					var poFile *po.File
+					poFile, err = parse.Po(
+						filepath.Join(directory, de.Name()),
+						parse.PoWithCleanDuplicates(false),
+					)
+					if err != nil {
+						return
+					}
+					if errs := poFile.Validate(); len(errs) > 0 {
+						err = errs[0]
+						return
+					}
+					err = compile.MoToFile(poFile, newMo, compile.MoWithConfig(compilerCfg))
+					if err != nil {
+						return
 					}
-					return
 				}
+				return
 			}
 		}
 
-- 
2.43.0


From 84ae2eb60684694ea8d27713007bd1b4ac92277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 43/62] fix: read standard input in msgounfmt if no file is
 given

---
 cli/msgounfmt/cmd/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/msgounfmt/cmd/root.go b/cli/msgounfmt/cmd/root.go
index f725082..e36a495 100644
--- a/cli/msgounfmt/cmd/root.go
+++ b/cli/msgounfmt/cmd/root.go
@@ -25,8 +25,10 @@ Input file location:
   FILE ...                    input .mo files
 If no input file is given or if it is -, standard input is read.`,
 	PreRunE: initCfg,
-	Args:    cobra.MinimumNArgs(1),
 	RunE: func(cmd *cobra.Command, args []string) error {
+		if len(args) == 0 {
+			args = []string{"-"}
+		}
 		file := &po.File{
 			Name: "input.mo",
 		}
-- 
2.43.0


From cd1199374a53ca5bb0b99887b925c2e0b6b3068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 44/62] fix: read the files in the list that msgocat is given

---
 cli/msgocat/cmd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..5530978 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,10 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, name := range strings.Split(string(filesFromBinContent), "\n") {
+		if name != "" {
+			filesFromContent = append(filesFromContent, name)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From 83c74adcbd6e3fecf3fa74803925c28d15a5c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 45/62] fix: do not empty the output of msgomerge before its
 inputs are read

---
 cli/msgomerge/cmd/root.go | 56 +++++++++++++++------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..51bb0d7 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -53,34 +53,11 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			refPath = filepath.Join(directory, refPath)
 		}
 
-		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
-			return err
-		}
-		defer defFile.Close()
-		defer refFile.Close()
-
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
 		var def, ref *po.File
-		if def, err = parse.PoFromFile(defFile); err != nil {
+		if def, err = parse.Po(defPath); err != nil {
 			return err
 		}
-		if ref, err = parse.PoFromFile(refFile); err != nil {
+		if ref, err = parse.Po(refPath); err != nil {
 			return err
 		}
 
@@ -97,23 +74,32 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
-		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
+		out := &po.File{
+			Name:    outputPath,
+			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		}
+
+		// Nothing is written before everything is read, the inputs may be the outputs too.
+		var outWriter io.Writer = os.Stdout
+		if outputPath != "-" {
+			var file *os.File
+			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
-			if err := defFile.Truncate(0); err != nil {
+			defer file.Close()
+			outWriter = file
+		}
+		if update {
+			var defFile *os.File
+			defFile, err = os.OpenFile(defPath, os.O_TRUNC|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
-
+			defer defFile.Close()
 			outWriter = io.MultiWriter(defFile, outWriter)
 		}
 
-		out := &po.File{
-			Name:    outputPath,
-			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
-		}
-
 		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From da69b34c418c99e89c1721fa5fb88d77dad10aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 46/62] fix: keep the header of the files that msgomerge merges

---
 cli/msgomerge/cmd/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
-- 
2.43.0


From 0442b2f8f1c43f8754fef190ca9b1d10552208fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 47/62] fix: require two files in msgomerge with compendiums
 too

---
 cli/msgomerge/cmd/root.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 51bb0d7..1b6b460 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -34,13 +34,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 %s es.po en.pot -U`,
 		use, use, use,
 	),
-	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
-	},
+	Args:   cobra.ExactArgs(2),
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		defPath, refPath := args[0], args[1]
-- 
2.43.0


From 1ac1f9f74f36bda933b8a145bdef1085b5638264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 48/62] fix: only take the translations of messages in use from
 the compendiums of msgomerge

---
 cli/msgomerge/cmd/root.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 1b6b460..d113da2 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
@@ -62,10 +63,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			if err != nil {
 				return err
 			}
-			ref.Entries = append(ref.Entries, c.Entries...)
-		}
-		if len(compendium) > 0 {
-			ref.Entries = ref.Solve()
+			def.Entries = useCompendium(def.Entries, ref.Entries, c.Entries)
 		}
 
 		out := &po.File{
@@ -98,6 +96,23 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 	},
 }
 
+// useCompendium adds the translations of the messages of ref that def does not have yet.
+func useCompendium(def, ref, compendium po.Entries) po.Entries {
+	for _, e := range compendium {
+		id := e.UnifiedID()
+		if e.IsHeader() || e.Obsolete || e.IsFuzzy() || !ref.ContainsUnifiedID(id) {
+			continue
+		}
+		i := def.IndexByUnifiedID(id)
+		if i == -1 {
+			def = append(def, e)
+		} else if strings.Trim(def[i].UnifiedStr(), "\x00") == "" && def[i].IsPlural() == e.IsPlural() {
+			def[i].Str, def[i].Plurals = e.Str, e.Plurals
+		}
+	}
+	return def
+}
+
 func Execute() {
 	err := root.Execute()
 	if err != nil {
-- 
2.43.0


From 5b30f8ff74a84ce0317c8e575a310836e4fce435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 49/62] fix: set the language that msgomerge is given

---
 cli/msgomerge/cmd/root.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index d113da2..696cd96 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -71,6 +71,14 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
 		}
 
+		if cmd.Flags().Changed("lang") {
+			if i := out.Index("", ""); i != -1 {
+				header := out.Entries.HeaderFromIndex(i)
+				header.Set("Language", lang)
+				out.Entries[i].Str = header.ToEntry().Str
+			}
+		}
+
 		// Nothing is written before everything is read, the inputs may be the outputs too.
 		var outWriter io.Writer = os.Stdout
 		if outputPath != "-" {
-- 
2.43.0


From 2f292d6cac54f267aa3b68c44aab22fa682bb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 50/62] fix: skip empty lines in the list of files for xgotext

---
 cli/xgotext/cmd/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..1982d94 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,7 +74,9 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
-		files = append(files, string(line))
+		if len(line) > 0 {
+			files = append(files, string(line))
+		}
 	}
 
 	return files, nil
-- 
2.43.0


From 39f5f4fc215aff056e0f459f2e620eff02bc0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 51/62] fix: report the files that xgotext cannot read

---
 cli/xgotext/cmd/input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..3f0a92f 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -73,6 +73,9 @@ func readFiles(paths []string) ([]*os.File, error) {
 	for _, path := range paths {
 		walker := krfs.Walk(path)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				return nil, err
+			}
 			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
 				continue
 			}
-- 
2.43.0


From bf878423b0734f875c45cb8a2b4ddb79d258bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 52/62] fix: read standard input in xgotext with a directory
 too

---
 cli/xgotext/cmd/input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 3f0a92f..7570136 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -31,6 +31,9 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 	}
 	if directory != "" {
 		for i, file := range inputFiles {
+			if file == "-" {
+				continue
+			}
 			inputFiles[i] = filepath.Join(directory, file)
 		}
 		for i, file := range exclude {
-- 
2.43.0


From ee8c4155c78303ed75b2a424720b2eab49c7d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 53/62] fix: keep the messages of xgotext out of its output

---
 cli/xgotext/cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 1982d94..5c2a18c 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -10,7 +10,7 @@ import (
 	"github.com/spf13/cobra"
 )
 
-var logger = log.New(os.Stdout, "", log.Ltime)
+var logger = log.New(os.Stderr, "", log.Ltime)
 
 var use = "xgotext"
 
-- 
2.43.0


From 69c8b40832bf1e7fe05e6980cc856397b259a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 54/62] fix: do not empty the file that xgotext joins messages
 with

---
 cli/xgotext/cmd/output.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..a893e65 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -8,6 +9,9 @@ import (
 
 func processOutput() (*os.File, error) {
 	if output == "-" {
+		if joinExisting {
+			return nil, errors.New("messages can only be joined with an output file")
+		}
 		return os.Stdout, nil
 	}
 
@@ -22,6 +26,11 @@ func processOutput() (*os.File, error) {
 		return nil, fmt.Errorf("file %s already exists", outputFilePath)
 	}
 
+	if joinExisting {
+		// Its messages are still to be read.
+		return os.OpenFile(outputFilePath, os.O_RDWR|os.O_CREATE, 0o666)
+	}
+
 	// Truncate file.
 	return os.Create(outputFilePath)
 }
-- 
2.43.0


From e51ea7ef4ff6ef291a096a5af5be0db2cc7013ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 55/62] fix: do not extract the entries of the file that
 xgotext is to exclude

---
 cli/xgotext/cmd/input.go |  9 ---------
 cli/xgotext/cmd/join.go  | 10 ++--------
 cli/xgotext/cmd/root.go  | 23 ++++++++++++++++++++++-
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 7570136..226983e 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -20,15 +20,6 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		inputFiles = files
 	}
 
-	if excludeFile != "" {
-		var files []string
-		files, err := readFilesFrom(excludeFile)
-		if err != nil {
-			return nil, fmt.Errorf("error reading file %s: %w", excludeFile, err)
-		}
-
-		exclude = append(exclude, files...)
-	}
 	if directory != "" {
 		for i, file := range inputFiles {
 			if file == "-" {
diff --git a/cli/xgotext/cmd/join.go b/cli/xgotext/cmd/join.go
index 31c8152..59f3970 100644
--- a/cli/xgotext/cmd/join.go
+++ b/cli/xgotext/cmd/join.go
@@ -3,13 +3,12 @@ package cmd
 import (
 	"os"
 
-	goparse "github.com/Tom5521/gotext-tools/v2/pkg/go/parse"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
 	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 )
 
-func join(newParse *goparse.Parser, rawfile *os.File) error {
+func join(newFile *po.File, rawfile *os.File) error {
 	baseParse, err := poparse.NewPoFromReader(
 		rawfile,
 		rawfile.Name(),
@@ -24,12 +23,7 @@ func join(newParse *goparse.Parser, rawfile *os.File) error {
 		return baseParse.Errors()[0]
 	}
 
-	goParsed := newParse.Parse()
-	if len(newParse.Errors()) > 0 {
-		return newParse.Errors()[0]
-	}
-
-	poParsed.Entries = po.Merge(poParsed.Entries, goParsed.Entries)
+	poParsed.Entries = po.Merge(poParsed.Entries, newFile.Entries)
 
 	compiler := compile.NewPo(poParsed, compile.PoWithConfig(CompilerCfg))
 
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 5c2a18c..fbeaaa4 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -6,7 +6,10 @@ import (
 	"log"
 	"os"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
+	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po/compile"
+	poparse "github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
 	"github.com/spf13/cobra"
 )
 
@@ -44,6 +47,13 @@ Similarly for optional arguments.`,
 			)
 		}
 
+		if excludeFile != "" {
+			parsedFile.Entries, err = excludeEntries(parsedFile.Entries)
+			if err != nil {
+				return fmt.Errorf("error reading file %s: %w", excludeFile, err)
+			}
+		}
+
 		out, err := processOutput()
 		if err != nil {
 			return err
@@ -55,7 +65,7 @@ Similarly for optional arguments.`,
 		}()
 
 		if joinExisting {
-			return join(parser, out)
+			return join(parsedFile, out)
 		}
 
 		err = compile.PoToWriter(parsedFile, out, compile.PoWithConfig(CompilerCfg))
@@ -67,6 +77,17 @@ Similarly for optional arguments.`,
 	},
 }
 
+// excludeEntries leaves out the entries that are in the PO file excludeFile.
+func excludeEntries(entries po.Entries) (po.Entries, error) {
+	excluded, err := poparse.Po(excludeFile, poparse.PoWithConfig(PoParserCfg))
+	if err != nil {
+		return nil, err
+	}
+	return slices.DeleteFunc(entries, func(e po.Entry) bool {
+		return !e.IsHeader() && excluded.ContainsUnifiedID(e.UnifiedID())
+	}), nil
+}
+
 func readFilesFrom(path string) ([]string, error) {
 	file, err := os.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 38dc1091587e42811274a3f91cfc3acd08062063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 56/62] fix: keep the obsolete messages of the file that
 xgotext joins messages with

---
 cli/xgotext/cmd/config.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index f92b5a7..ef2d73b 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -59,7 +59,5 @@ func initConfig() {
 		CompilerCfg.Highlight = compile.DefaultHighlight
 	}
 
-	PoParserCfg = poparse.PoConfig{
-		Logger: logger,
-	}
+	PoParserCfg = poparse.DefaultPoConfig(poparse.PoWithLogger(logger))
 }
-- 
2.43.0


From 12ba56e08aacf75afa4b919b12bea411ca3b2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 57/62] fix: mark the managed header of a template as fuzzy

---
 pkg/po/compile/po_compiler_format.go | 6 ++++--
 pkg/po/compile/po_compiler_util.go   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index b8ff670..f32481e 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -113,9 +113,11 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 		}
 
 		fmt.Fprintf(&buf, headerFormat, eb.Config.Title, copyright)
-	} else {
-		fmt.Fprint(&buf, headerEntry)
 	}
+	if header.Template {
+		fmt.Fprintln(&buf, "#, fuzzy")
+	}
+	fmt.Fprint(&buf, headerEntry)
 
 	if eb.Config.HeaderFields {
 		for i, field := range header.Fields {
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index aef6e61..3fdc858 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -18,7 +18,7 @@ const (
 	headerFormat           = `# %s
 %s
 #
-` + headerEntry
+`
 	headerEntry = `msgid ""
 msgstr ""
 `
-- 
2.43.0


From 76256a87bd5db4001c32af1f364de5a0605f8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 58/62] fix: write the title and the copyright that xgotext is
 given

---
 cli/xgotext/cmd/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/xgotext/cmd/config.go b/cli/xgotext/cmd/config.go
index ef2d73b..867be22 100644
--- a/cli/xgotext/cmd/config.go
+++ b/cli/xgotext/cmd/config.go
@@ -46,6 +46,7 @@ func initConfig() {
 		Verbose:         verbose,
 		HeaderComments:  true,
 		HeaderFields:    true,
+		ManageHeader:    !joinExisting,
 		WordWrap:        wordWrap,
 	}
 
-- 
2.43.0


From 52df1bf4144c535aece7bb5878117e0b72316fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 59/62] fix: accept vertical tabs as white space in PO files,
 as gettext does

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index c5d3e3f..477b60e 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -79,7 +79,7 @@ func SearchSymbol(t lexer.TokenType) string {
 var (
 	PoSymbols = PoLexer.Symbols()
 	PoRules   = []lexer.SimpleRule{
-		{Name: "WS", Pattern: `\s+`},
+		{Name: "WS", Pattern: `[\s\v]+`},
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-- 
2.43.0


From e2dd32f5e7f78bfa3a0be46df9941521094e5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 60/62] fix: read the files that are named besides a list of
 files

---
 cli/xgotext/cmd/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 226983e..d9beee1 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -17,7 +17,7 @@ func processInput(inputFiles []string) (*parse.Parser, error) {
 		if err != nil {
 			return nil, fmt.Errorf("error reading file %s: %w", filesFrom, err)
 		}
-		inputFiles = files
+		inputFiles = append(files, inputFiles...)
 	}
 
 	if directory != "" {
-- 
2.43.0


From f493131c5366763ab9c457405d55a191c04a4490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 61/62] fix: extract calls of a package that is imported twice,
 with a dot or a raw path

---
 pkg/go/parse/file.go    | 34 +++++++++++++++++++++-------------
 pkg/go/parse/process.go | 36 +++++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 9f3fce4..296e658 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -30,9 +31,9 @@ type File struct {
 	seenNodes map[ast.Node]struct{}
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
 	reader    *bytes.Reader
-	name      string // The path to the file.
-	pkgName   string // The name of the package declared in the file.
-	hasGotext bool   // Indicates if the file imports the desired "gotext" package.
+	name      string   // The path to the file.
+	pkgNames  []string // The names of the package declared in the file.
+	hasGotext bool     // Indicates if the file imports the desired "gotext" package.
 
 	errors []error
 }
@@ -58,7 +59,7 @@ func (f *File) error(format string, a ...any) error {
 func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
-	f.pkgName = DefaultPackageName
+	f.pkgNames = []string{DefaultPackageName}
 	f.hasGotext = false
 
 	if r, ok := d.(*bytes.Reader); ok {
@@ -89,10 +90,10 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 
 func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
 	file := &File{
-		reader:  bytes.NewReader(b),
-		name:    name,
-		pkgName: DefaultPackageName,
-		config:  config,
+		reader:   bytes.NewReader(b),
+		name:     name,
+		pkgNames: []string{DefaultPackageName},
+		config:   config,
 	}
 
 	if err := file.parse(); err != nil {
@@ -135,15 +136,22 @@ func (f *File) parse() error {
 }
 
 // determinePackageInfo analyzes the file's AST to extract package-related information.
-// It determines the package name and checks if the desired "gotext" package is imported.
+// It determines the package names and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
 	for _, imp := range f.file.Imports {
-		if imp.Path.Value == WantedImport {
-			f.hasGotext = true
+		// The path can also be a raw string.
+		path := strings.Trim(imp.Path.Value, "`\"")
+		if path == strings.Trim(WantedImport, `"`) {
+			name := DefaultPackageName
 			if imp.Name != nil {
-				f.pkgName = imp.Name.String()
+				name = imp.Name.String()
+			}
+			if !f.hasGotext {
+				f.pkgNames = nil
 			}
-			break
+			// It can be imported more than once.
+			f.pkgNames = append(f.pkgNames, name)
+			f.hasGotext = true
 		}
 	}
 }
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 0800d59..5ba939b 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -5,6 +5,7 @@ import (
 	"go/token"
 	"strconv"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -40,20 +41,34 @@ func (f *File) isGotextCall(n ast.Node) bool {
 		return false
 	}
 
-	selectorExpr, ok := callExpr.Fun.(*ast.SelectorExpr)
-	if !ok {
-		return false
-	}
-
-	ident, ok := selectorExpr.X.(*ast.Ident)
-	if !ok || ident.Name != f.pkgName {
-		return false
+	switch fun := callExpr.Fun.(type) {
+	case *ast.SelectorExpr:
+		ident, ok := fun.X.(*ast.Ident)
+		if !ok || !slices.Contains(f.pkgNames, ident.Name) {
+			return false
+		}
+	case *ast.Ident:
+		// The names of a package imported with a dot, unless they are declared anew.
+		if fun.Obj != nil || !slices.Contains(f.pkgNames, ".") {
+			return false
+		}
 	}
 
-	_, ok = translationMethods[selectorExpr.Sel.Name]
+	_, ok = translationMethods[calledName(callExpr)]
 	return ok
 }
 
+// calledName returns the name of the called function without the one of its package.
+func calledName(call *ast.CallExpr) string {
+	switch fun := call.Fun.(type) {
+	case *ast.SelectorExpr:
+		return fun.Sel.Name
+	case *ast.Ident:
+		return fun.Name
+	}
+	return ""
+}
+
 // basicLitToEntry converts a basic literal AST node to a translation entry.
 func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	str, err := strconv.Unquote(n.Value)
@@ -116,8 +131,7 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 func (f *File) processPoCall(
 	call *ast.CallExpr,
 ) (entry po.Entry, valid bool, err error) {
-	selector, _ := call.Fun.(*ast.SelectorExpr)
-	method := translationMethods[selector.Sel.Name]
+	method := translationMethods[calledName(call)]
 
 	args := []argumentData{
 		f.extractArg(method.ID, call),
-- 
2.43.0


From fb3e694d0197fae3bac3a19d5d021e5bb12a657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 62/62] fix: keep the references of the header with --lang

---
 cli/msgocat/cmd/run.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/msgocat/cmd/run.go b/cli/msgocat/cmd/run.go
index 2dadb84..9abb5e0 100644
--- a/cli/msgocat/cmd/run.go
+++ b/cli/msgocat/cmd/run.go
@@ -59,6 +59,8 @@ func run(cmd *cobra.Command, args []string) error {
 			newHeader.Comments = oldHeader.Comments
 			newHeader.ExtractedComments = oldHeader.ExtractedComments
 			newHeader.Previous = oldHeader.Previous
+			newHeader.Locations = oldHeader.Locations
+			newHeader.Obsolete = oldHeader.Obsolete
 
 			mergedFiles[hindex] = newHeader
 		}
-- 
2.43.0

