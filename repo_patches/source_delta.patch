From 5e3b170e8b27d6e1a2bc8d0d3f0351893d12dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 01/21] fix: heading that ends with # while escaping is
 disabled no longer panics or loses a character

---
 plugin/commonmark/render_heading.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..73ef85a 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -82,7 +82,7 @@ func escapePoundSignAtEnd(s []byte) []byte {
 	// -2 placeholder
 	// -3 maybe \
 
-	if s[len(s)-1] != '#' {
+	if len(s) == 0 || s[len(s)-1] != '#' {
 		// We don't have a # at the end,
 		// so there is no work to do...
 		return s
@@ -96,7 +96,10 @@ func escapePoundSignAtEnd(s []byte) []byte {
 	// Because we have a # at the end,
 	// we should manually force the escaping
 	// by overriding the placeholder.
-	s[len(s)-2] = '\\'
+	// (There is no placeholder if the escaping is disabled)
+	if len(s) >= 2 && s[len(s)-2] == marker.BytesMarkerEscaping[0] {
+		s[len(s)-2] = '\\'
+	}
 
 	return s
 }
-- 
2.43.0


From 1ebed0f05fb41b257a42def55c231a5d83730f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 02/21] fix: data races between conversions on the tag types
 and the list of plugins

---
 converter/convert.go  | 11 +++++++++--
 converter/register.go |  7 +++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..7fe4c26 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -47,6 +47,13 @@ func (conv *Converter) getError() error {
 	return conv.err
 }
 
+func (conv *Converter) hasPlugin(name string) bool {
+	conv.m.RLock()
+	defer conv.m.RUnlock()
+
+	return slices.Contains(conv.registeredPlugins, name)
+}
+
 var errNoRenderHandlers = errors.New(`no render handlers are registered. did you forget to register the "commonmark" and "base" plugins?`)
 var errBasePluginMissing = errors.New(`you registered the "commonmark" plugin but the "base" plugin is also required`)
 
@@ -76,8 +83,8 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
-	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
-	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	containsCommonmark := conv.hasPlugin("commonmark")
+	containsBase := conv.hasPlugin("base")
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
diff --git a/converter/register.go b/converter/register.go
index d200ded..f394ac1 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,8 +215,11 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
-	types.Sort()
-	firstType := types[0].Value
+	// The list is shared between conversions, so only sort a copy of it.
+	sorted := make(prioritizedSlice[tagType], len(types))
+	copy(sorted, types)
+	sorted.Sort()
+	firstType := sorted[0].Value
 
 	return firstType, true
 }
-- 
2.43.0


From 01c49d16c4b3e2642a266f9171e87159b9a7e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 03/21] fix: do not run the options of the caller while holding
 the lock of the converter

---
 converter/convert.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/converter/convert.go b/converter/convert.go
index 7fe4c26..2a374ab 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -70,12 +70,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, err
 	}
 
-	conv.m.Lock()
 	option := &convertOption{}
 	for _, fn := range opts {
 		fn(option)
 	}
-	conv.m.Unlock()
 
 	// If there are no render handlers registered this is
 	// usually a user error - since people want the Commonmark Plugin in 99% of cases.
-- 
2.43.0


From 1eb5ed560bf643a3714a8a63793326885e924409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 04/21] fix: handlers with the same priority always run in the
 order of registration

---
 converter/prioritized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/prioritized.go b/converter/prioritized.go
index b0d5196..6384da1 100644
--- a/converter/prioritized.go
+++ b/converter/prioritized.go
@@ -23,7 +23,7 @@ type prioritizedValue[V any] struct {
 type prioritizedSlice[V any] []prioritizedValue[V]
 
 func (s prioritizedSlice[V]) Sort() {
-	sort.Slice(s, func(i, j int) bool {
+	sort.SliceStable(s, func(i, j int) bool {
 		return s[i].Priority < s[j].Priority
 	})
 }
-- 
2.43.0


From 1812df807426d334ee84655e9d95200d18c79e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 05/21] fix: limit rowspan and colspan so that a small document
 cannot request a huge table

---
 plugin/table/2_collect.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..daacaa5 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -10,6 +10,10 @@ import (
 	"golang.org/x/net/html/atom"
 )
 
+// The limit for "rowspan" and "colspan", so that a small document
+// cannot request an arbitrary large table.
+const maxSpan = 1000
+
 type tableContent struct {
 	Alignments []string
 	Rows       [][][]byte
@@ -184,8 +188,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
-		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
+		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxSpan)
+		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxSpan)
 
 		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
 
-- 
2.43.0


From b4799f0cea578259b71aee6342eab91ffe4c5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 06/21] fix: cli reports errors while writing to stdout

---
 cli/html2markdown/cmd/cmd_help.go    |  5 +++--
 cli/html2markdown/cmd/cmd_version.go | 16 ++++++++++------
 cli/html2markdown/cmd/exec.go        | 10 ++++------
 cli/html2markdown/cmd/io_output.go   |  5 ++++-
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_help.go b/cli/html2markdown/cmd/cmd_help.go
index ffe4b2a..5774e4d 100644
--- a/cli/html2markdown/cmd/cmd_help.go
+++ b/cli/html2markdown/cmd/cmd_help.go
@@ -123,6 +123,7 @@ func (cli *CLI) initUsageText() error {
 	return nil
 }
 
-func (cli CLI) printUsage() {
-	fmt.Fprint(cli.Stdout, cli.usageText.String())
+func (cli CLI) printUsage() error {
+	_, err := fmt.Fprint(cli.Stdout, cli.usageText.String())
+	return err
 }
diff --git a/cli/html2markdown/cmd/cmd_version.go b/cli/html2markdown/cmd/cmd_version.go
index bd292c7..07ad4f2 100644
--- a/cli/html2markdown/cmd/cmd_version.go
+++ b/cli/html2markdown/cmd/cmd_version.go
@@ -2,10 +2,14 @@ package cmd
 
 import "fmt"
 
-func (cli CLI) printVersion() {
-	fmt.Fprintf(cli.Stdout, "%s\n\n", projectBinary)
-
-	fmt.Fprintf(cli.Stdout, "GitVersion:  %s\n", cli.Release.Version)
-	fmt.Fprintf(cli.Stdout, "GitCommit:   %s\n", cli.Release.Commit)
-	fmt.Fprintf(cli.Stdout, "BuildDate:   %s\n", cli.Release.Date)
+func (cli CLI) printVersion() error {
+	_, err := fmt.Fprintf(
+		cli.Stdout,
+		"%s\n\nGitVersion:  %s\nGitCommit:   %s\nBuildDate:   %s\n",
+		projectBinary,
+		cli.Release.Version,
+		cli.Release.Commit,
+		cli.Release.Date,
+	)
+	return err
 }
diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 785207a..1bcb7e8 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -112,11 +112,10 @@ func (cli *CLI) Execute() {
 	}
 
 	if err == flag.ErrHelp {
-		cli.printUsage()
+		err = cli.printUsage()
+	}
 
-		OsExiter(0)
-		return
-	} else if err != nil {
+	if err != nil {
 		cli.PrintErr(err)
 
 		OsExiter(1) // General Error
@@ -143,8 +142,7 @@ func (cli *CLI) run() ([]error, error) {
 	}
 
 	if cli.config.version {
-		cli.printVersion()
-		return nil, nil
+		return nil, cli.printVersion()
 	}
 
 	// - - - - - - - - - - - - - - - //
diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..a10714e 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -170,7 +170,10 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
+			if err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From 94a1b0ab77afbba04df71a9fca82d59aae0dbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 07/21] fix: control characters and backslashes cannot break
 out of a link destination

---
 converter/url.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..02d8923 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -6,6 +6,20 @@ import (
 )
 
 var percentEncodingReplacer = strings.NewReplacer(
+	// The control characters cannot be part of a destination
+	"\x00", "%00", "\x01", "%01", "\x02", "%02", "\x03", "%03",
+	"\x04", "%04", "\x05", "%05", "\x06", "%06", "\x07", "%07",
+	"\x08", "%08", "\x09", "%09", "\x0a", "%0A", "\x0b", "%0B",
+	"\x0c", "%0C", "\x0d", "%0D", "\x0e", "%0E", "\x0f", "%0F",
+	"\x10", "%10", "\x11", "%11", "\x12", "%12", "\x13", "%13",
+	"\x14", "%14", "\x15", "%15", "\x16", "%16", "\x17", "%17",
+	"\x18", "%18", "\x19", "%19", "\x1a", "%1A", "\x1b", "%1B",
+	"\x1c", "%1C", "\x1d", "%1D", "\x1e", "%1E", "\x1f", "%1F",
+	"\x7f", "%7F",
+
+	// A backslash would escape the closing parenthesis
+	"\\", "%5C",
+
 	" ", "%20",
 	"[", "%5B",
 	"]", "%5D",
-- 
2.43.0


From a707f828f1c0f75366a1d648b5a9a483f7f84795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 08/21] fix: every line of a code block inside of a blockquote
 gets the prefix

---
 plugin/commonmark/render_blockquote.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..057f440 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -22,6 +23,14 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 
+	// The newlines inside of code blocks were replaced by another character,
+	// but those lines also need the prefix.
+	content = bytes.ReplaceAll(
+		content,
+		marker.BytesMarkerCodeBlockNewline,
+		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
+	)
+
 	w.WriteRune('\n')
 	w.WriteRune('\n')
 	w.Write(content)
-- 
2.43.0


From 5ccb3bec6b04d8ca6bd3c1613ecf438c30e22b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 09/21] fix: code blocks inside of a table cell cannot break
 the row with preserved newlines

---
 plugin/table/2_collect.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index daacaa5..6374a95 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -21,7 +21,7 @@ type tableContent struct {
 }
 
 func containsNewline(b []byte) bool {
-	return bytes.Contains(b, []byte("\n"))
+	return bytes.Contains(b, []byte("\n")) || bytes.Contains(b, marker.BytesMarkerCodeBlockNewline)
 }
 
 func hasProblematicChildNode(node *html.Node) bool {
@@ -108,7 +108,9 @@ func (p *tablePlugin) collectTableContent(ctx converter.Context, node *html.Node
 			if containsNewline(cell) {
 				if p.newlineBehavior == NewlineBehaviorPreserve {
 					// Replace newlines with <br /> tags
-					rows[i][j] = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
+					cell = bytes.ReplaceAll(cell, []byte("\n"), []byte("<br />"))
+					// The newlines of code blocks were replaced by another character
+					rows[i][j] = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
 					continue
 				}
 				// We're configured to skip tables with newlines, return nil
-- 
2.43.0


From 4a443b2406427426602709bb5395d68e511ca527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 10/21] fix: reading the message of a validation error does not
 write to the shared error

---
 plugin/commonmark/validation.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..9784ac6 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -27,15 +27,13 @@ type ValidateConfigError struct {
 	patternDescription string
 }
 
-func (e *ValidateConfigError) setDefaultKeyWithValue() {
-	e.KeyWithValue = fmt.Sprintf("%s:%q", e.Key, e.Value)
-}
 func (e *ValidateConfigError) Error() string {
-	if e.KeyWithValue == "" {
-		e.setDefaultKeyWithValue()
+	keyWithValue := e.KeyWithValue
+	if keyWithValue == "" {
+		keyWithValue = fmt.Sprintf("%s:%q", e.Key, e.Value)
 	}
 
-	return fmt.Sprintf("invalid value for %s must be %s", e.KeyWithValue, e.patternDescription)
+	return fmt.Sprintf("invalid value for %s must be %s", keyWithValue, e.patternDescription)
 }
 
 func validateConfig(cfg *config) error {
-- 
2.43.0


From 82b58b356daaa9d99bd8f428e4468ae4b03ab48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 11/21] fix: reject commonmark options outside of their
 documented values

---
 plugin/commonmark/validation.go | 36 ++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index 9784ac6..b09cdb7 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -36,15 +36,27 @@ func (e *ValidateConfigError) Error() string {
 	return fmt.Sprintf("invalid value for %s must be %s", keyWithValue, e.patternDescription)
 }
 
+// A thematic break consists of one kind of character, with optional spaces in between.
+func isThematicBreak(rule string) bool {
+	chars := strings.NewReplacer(" ", "", "\t", "").Replace(rule)
+
+	for _, char := range []string{"*", "_", "-"} {
+		if count := strings.Count(chars, char); count >= 3 && count == len(chars) {
+			return true
+		}
+	}
+	return false
+}
+
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if !contains([]string{"__", "**"}, cfg.StrongDelimiter) {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -52,9 +64,7 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	if !isThematicBreak(cfg.HorizontalRule) {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
@@ -95,5 +105,21 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
+	possibleLinkBehaviors := []string{string(LinkBehaviorRender), string(LinkBehaviorSkip)}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyHrefBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyHrefBehavior",
+			Value:              string(cfg.LinkEmptyHrefBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyContentBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyContentBehavior",
+			Value:              string(cfg.LinkEmptyContentBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 396e9e5fc9982ce18439dc586c933a4a614098aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 12/21] fix: backslashes and carriage returns cannot break the
 title of a link or image

---
 internal/textutils/quote.go       | 3 +++
 plugin/commonmark/render_image.go | 1 +
 plugin/commonmark/render_link.go  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..f7f0221 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -17,6 +17,9 @@ func SurroundByQuotes(content []byte) []byte {
 		return nil
 	}
 
+	// A backslash in the content would otherwise escape the closing quote
+	content = bytes.ReplaceAll(content, []byte(`\`), []byte(`\\`))
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..f03e761 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -38,6 +38,7 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = strings.ReplaceAll(title, "\n", " ")
+	title = strings.ReplaceAll(title, "\r", " ")
 
 	alt := dom.GetAttributeOr(n, "alt", "")
 	alt = strings.ReplaceAll(alt, "\n", " ")
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..c98028f 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -60,6 +60,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = strings.ReplaceAll(title, "\n", " ")
+	title = strings.ReplaceAll(title, "\r", " ")
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From 71722126e1637e74a93bee6d0818010753195ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 13/21] fix: the class of a code element cannot break the
 opening fence

---
 plugin/commonmark/render_code.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..a7cf7f1 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -93,7 +93,9 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	// The classes can be separated by any whitespace and
+	// a backtick is not allowed in the info string of a fenced code block.
+	parts := strings.Fields(strings.ReplaceAll(class, "`", ""))
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
-- 
2.43.0


From f3cbbb531d5e6f75ac87c563adebe992760515a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 14/21] fix: include-selector keeps nested matches in place

---
 cli/html2markdown/cmd/cmd_convert.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..e4b5762 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -33,6 +33,15 @@ func overrideValidationError(e *commonmark.ValidateConfigError) error {
 	return e
 }
 
+func hasAncestor(node *html.Node, ancestor *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if p == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 	if len(cli.config.includeSelector) == 0 {
 		return doc, nil
@@ -41,6 +50,11 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	root := &html.Node{}
 	for _, n := range nodes {
+		if hasAncestor(n, root) {
+			// The node is inside of another match, so it is already included.
+			continue
+		}
+
 		dom.RemoveNode(n)
 		root.AppendChild(n)
 	}
-- 
2.43.0


From 33af77b72759d9eb222c13ffcd925428114571d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 15/21] fix: two inputs are never written to the same output
 file

---
 cli/html2markdown/cmd/io_output.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index a10714e..8fde8aa 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -86,6 +86,7 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 	)
 
 	allBasenames := make(map[string]int)
+	allOutputs := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
@@ -109,6 +110,11 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
 		}
 
+		if allOutputs[input.outputFullFilepath] {
+			return fmt.Errorf("the input %q would be written to %q just like another input", input.inputFullFilepath, input.outputFullFilepath)
+		}
+		allOutputs[input.outputFullFilepath] = true
+
 		allBasenames[basename]++
 	}
 
-- 
2.43.0


From 318db2fc31e69a829b9d3ca75a59fa809bc18f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 16/21] fix: converting a node does not look at or change the
 rest of its document

---
 converter/convert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 2a374ab..a19bfaa 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -103,6 +103,14 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 
 	// - - - - - - - - - - - - - - - - - - - //
 
+	// The handlers also look at (and change) the neighbors and ancestors of a node.
+	// So while converting, the node is detached from the rest of the document.
+	parent, prevSibling, nextSibling := doc.Parent, doc.PrevSibling, doc.NextSibling
+	doc.Parent, doc.PrevSibling, doc.NextSibling = nil, nil, nil
+	defer func() {
+		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
+	}()
+
 	// Pre-Render
 	for _, handler := range conv.getPreRenderHandlers() {
 		handler.Value(customCtx, doc)
-- 
2.43.0


From 8838ad3c63ed738f11caaeb502496ac243fd02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:49 +0000
Subject: [PATCH 17/21] fix: do not write the title of an image without a
 destination

---
 plugin/commonmark/render_image.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index f03e761..9b0deb6 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -53,7 +53,9 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	w.WriteRune(']')
 	w.WriteRune('(')
 	w.WriteString(src)
-	if title != "" {
+	// A title can not be written without a destination, since without
+	// a destination it would become the destination itself.
+	if title != "" && src != "" {
 		// The destination and title must be seperated by a space
 		w.WriteRune(' ')
 		w.Write(textutils.SurroundByQuotes([]byte(title)))
-- 
2.43.0


From b11775683a7beaa6f772a54e7482ba47718bb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:09 +0000
Subject: [PATCH 18/21] fix: do not add spaces to the text inside of code
 elements

---
 internal/domutils/add_space.go |  2 +-
 internal/domutils/domutils.go  | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..55818cb 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -43,7 +43,7 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func(*html.Node) bool) {
 	node := doc
 	for node != nil {
-		if isOuterNode(node) {
+		if isOuterNode(node) && !isInsideCode(node) {
 			firstChild := getFirstChildNode(node, isInnerNode)
 			if firstChild != nil {
 				prev := getPrevTextNode(node)
diff --git a/internal/domutils/domutils.go b/internal/domutils/domutils.go
index e0766c7..464e74b 100644
--- a/internal/domutils/domutils.go
+++ b/internal/domutils/domutils.go
@@ -41,3 +41,22 @@ func getPrevTextNode(startNode *html.Node) *html.Node {
 	}
 	return nil
 }
+
+func nameIsCode(name string) bool {
+	switch name {
+	case "pre", "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
+}
+
+// isInsideCode checks whether the node is somewhere below a code element,
+// where the text needs to stay exactly as it is.
+func isInsideCode(node *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if nameIsCode(dom.NodeName(p)) {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 4f6a3128808806dc78d02acee9bcce3e72b7b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:26 +0000
Subject: [PATCH 19/21] fix: do not add quotes or line breaks to the text
 inside of code elements

---
 internal/domutils/alternatives.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/domutils/alternatives.go b/internal/domutils/alternatives.go
index a3da350..401ab40 100644
--- a/internal/domutils/alternatives.go
+++ b/internal/domutils/alternatives.go
@@ -106,6 +106,12 @@ func LeafBlockAlternatives(ctx context.Context, doc *html.Node) {
 			isInsideInline = true
 		}
 
+		if nameIsCode(name) {
+			// The content of code is only used as text. So there are no
+			// blocks inside, and the text needs to stay exactly as it is.
+			return
+		}
+
 		for child := node.FirstChild; child != nil; child = child.NextSibling {
 			defer finder(child, isInsideLeafBlock, isInsideInline)
 		}
-- 
2.43.0


From 0eca4f015c8256579e7f922a5ba14a9cbc516bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:44 +0000
Subject: [PATCH 20/21] fix: carriage returns in code and in the alt text of
 images do not end a line

---
 plugin/commonmark/render_code.go  | 7 ++++++-
 plugin/commonmark/render_image.go | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index a7cf7f1..cd566a1 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -147,5 +147,10 @@ func getCodeWithoutTags(startNode *html.Node) ([]byte, string) {
 
 	f(startNode)
 
-	return buf.Bytes(), infoString
+	// A carriage return also ends a line in markdown. It is only left
+	// over if it was written as a character reference.
+	code := bytes.ReplaceAll(buf.Bytes(), []byte("\r\n"), []byte("\n"))
+	code = bytes.ReplaceAll(code, []byte("\r"), []byte("\n"))
+
+	return code, infoString
 }
diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 9b0deb6..a7787df 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -42,6 +42,7 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 
 	alt := dom.GetAttributeOr(n, "alt", "")
 	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = strings.ReplaceAll(alt, "\r", " ")
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
-- 
2.43.0


From 6b5696f14eb876a002f310e9d5e4e4fa28fb64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:22 +0000
Subject: [PATCH 21/21] fix: a pipe inside of a code span or a title cannot
 split the cell of a table

---
 plugin/table/2_collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 6374a95..321dc19 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -184,6 +184,9 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		content = bytes.TrimSpace(content)
 
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
+		// Also where it is not part of a text (e.g. inside of a code span or of a title).
+		content = bytes.ReplaceAll(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte("|"))
+		content = bytes.ReplaceAll(content, []byte("|"), ctx.EscapeContent([]byte("|")))
 		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
 		content = ctx.UnEscapeContent(content)
 
-- 
2.43.0

