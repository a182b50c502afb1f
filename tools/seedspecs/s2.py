D='cli/html2markdown/cmd/'
CLIH='''package cmd

import (
	"bytes"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

type seedInfo struct{ mode os.FileMode }

func (s seedInfo) Name() string       { return "x" }
func (s seedInfo) Size() int64        { return 0 }
func (s seedInfo) Mode() fs.FileMode  { return s.mode }
func (s seedInfo) ModTime() time.Time { return time.Time{} }
func (s seedInfo) IsDir() bool        { return false }
func (s seedInfo) Sys() any           { return nil }

type seedStream struct {
	bytes.Buffer
	mode os.FileMode
}

func (s *seedStream) Stat() (fs.FileInfo, error) { return seedInfo{s.mode}, nil }

func seedRun(t *testing.T, stdin string, args ...string) (code int, stdout string, stderr string) {
	t.Helper()
	in := &seedStream{}
	if stdin == "" {
		in.mode = os.ModeCharDevice
	}
	in.WriteString(stdin)
	out, errs := &seedStream{}, &seedStream{}
	code = -1
	old := OsExiter
	OsExiter = func(c int) {
		if code == -1 {
			code = c
		}
	}
	defer func() { OsExiter = old }()
	Run(in, out, errs, append([]string{"html2markdown"}, args...), Release{})
	return code, out.String(), errs.String()
}

func seedFile(t *testing.T, name, content string) string {
	t.Helper()
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		t.Fatal(err)
	}
	return name
}

func seedRead(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		return "(" + err.Error() + ")"
	}
	return string(b)
}

var _ = strings.TrimSpace
'''
LIBH='''package %s_test

import (
	"strings"
	"testing"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"golang.org/x/net/html"
)

func seedConv(opts ...commonmark.OptionFunc) *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(opts...), table.NewTablePlugin(), strikethrough.NewStrikethroughPlugin()))
}

func seedMD(t *testing.T, c *converter.Converter, in string, opts ...converter.ConvertOptionFunc) string {
	t.Helper()
	out, err := c.ConvertString(in, opts...)
	if err != nil {
		t.Fatal(err)
	}
	return out
}

var _ = strings.TrimSpace
var _ = html.Parse
'''
S=[
dict(id='c32-empty-replace',property='C32',edits=[(D+'io_output.go','''	if override {
		// We add this flag:''','''	if override || len(data) == 0 {
		// We add this flag:''')],
 test=('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	in := seedFile(t, filepath.Join(dir, "in.html"), "<p> </p>")
	out := seedFile(t, filepath.Join(dir, "out.md"), "precious")
	code, _, _ := seedRun(t, "", "--input", in, "--output", out)
	if got := seedRead(out); got != "precious" || code == 0 {
		t.Fatalf("the file was changed without --output-overwrite: %q (exit status %d)", got, code)
	}
}
''',''),needs='an existing output file, no --output-overwrite, and an input whose markdown is empty',breaks='the existing file is truncated'),
dict(id='c33-percent-name',property='C33',edits=[(D+'io_output.go','''		basename := fileNameWithoutExtension(basenameWithExt)
''','''		basename := fileNameWithoutExtension(basenameWithExt)
		if name, err := url.PathUnescape(basename); err == nil {
			// pages saved by a crawler have percent-encoded names
			basename = name
		}
'''),(D+'io_output.go','import (','import (\n\t"net/url"')],
 test=('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	seedFile(t, filepath.Join(dir, "in", "a.html"), "<p>x</p>")
	seedFile(t, filepath.Join(dir, "in", "..%2Fb.html"), "<p>x</p>")
	seedRun(t, "", "--input", filepath.Join(dir, "in", "*.html"), "--output", filepath.Join(dir, "out")+"/")
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".md") && filepath.Dir(p) != filepath.Join(dir, "out") {
			t.Errorf("written outside of the output directory: %s", p)
		}
		return nil
	})
}
''',''),needs='an input file with an encoded slash in its name',breaks='the output file is written outside of the output directory'),
dict(id='c34-skip-empty',property='C34',edits=[(D+'exec.go','''		markdown, err := cli.convert(data)''','''		if len(data) == 0 && len(inputs) > 1 {
			continue
		}

		markdown, err := cli.convert(data)''')],
 test=('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	seedFile(t, filepath.Join(dir, "a.html"), "<p>a</p>")
	seedFile(t, filepath.Join(dir, "b.html"), "")
	out := filepath.Join(dir, "out") + "/"
	code, _, _ := seedRun(t, "", "--input", filepath.Join(dir, "*.html"), "--output", out)
	if _, err := os.Stat(out + "b.md"); code == 0 && err != nil {
		t.Fatalf("exit status 0 although an output is missing: %v", err)
	}
}
''',''),needs='several inputs, one of them empty',breaks='an input is skipped and the exit status is 0'),
dict(id='c35-close-wins',property='C35',edits=[(D+'io_output.go','''	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''','''	if err != nil && len(data) > 0 {
		err = f.Sync()
	}
	return f.Close()''')],
 test=('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	if err := WriteFile("/dev/full", []byte("abc"), true); err == nil {
		t.Fatal("the error while writing is lost")
	}
}
''',''),needs='a write that fails, for example a full disk',breaks='the tool ends with status 0 although the output was not written'),
dict(id='c36-domain-include',property='C36',edits=[(D+'cmd_convert.go','''	markdown, err := conv.ConvertNode(doc, converter.WithDomain(cli.config.domain))''','''	var opts []converter.ConvertOptionFunc
	if doc.Type == html.DocumentNode {
		opts = append(opts, converter.WithDomain(cli.config.domain))
	}
	markdown, err := conv.ConvertNode(doc, opts...)''')],
 test=('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	_, out, _ := seedRun(t, `<main><a href="/x">y</a></main>`, "--domain", "https://example.com", "--include-selector", "main")
	if !strings.Contains(out, "https://example.com/x") {
		t.Fatalf("the domain is not used: %q", out)
	}
}
''',''),needs='--domain together with --include-selector',breaks='relative links stay relative although a domain was given'),
dict(id='c38-file-for-many',property='C38',edits=[(D+'io_output.go','''	if countInputs > 1 {
		// There are multiple inputs,''','''	if countInputs > 1 && filepath.Ext(outputPath) != ".txt" {
		// There are multiple inputs,''')],
 test=('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	seedFile(t, filepath.Join(dir, "a.html"), "<p>a</p>")
	seedFile(t, filepath.Join(dir, "b.html"), "<p>b</p>")
	out := filepath.Join(dir, "all.txt")
	code, _, _ := seedRun(t, "", "--input", filepath.Join(dir, "*.html"), "--output", out, "--output-overwrite")
	if code == 0 {
		t.Fatalf("two inputs were written to one file: %q", seedRead(out))
	}
}
''',''),needs='several inputs, --output-overwrite and an output file with the extension .txt',breaks='each input overwrites the output of the one before'),
dict(id='c17-fallback-last',property='C17',edits=[('converter/render.go','''	ctx.RenderChildNodes(ctx, w, node)
	if tagType == TagTypeBlock {
''','''	ctx.RenderChildNodes(ctx, w, node)
	if tagType == TagTypeBlock && node.NextSibling != nil {
''')],
 test=('converter',LIBH%'converter'+'''
func TestSeedDemo(t *testing.T) {
	out := seedMD(t, seedConv(), "<b><article>one</article></b>two")
	if !strings.Contains(out, "one**\\n\\ntwo") {
		t.Fatalf("blocks are not separated: %q", out)
	}
}
''',''),needs='a block element without a renderer of its own that is the last child of a bold element, followed by text',breaks='the block runs into the text that follows'),
]

S+=[
dict(id='c04-query-order',property='C04',edits=[('converter/url.go','''	for i, part := range rawParts {
		splitted''','''	seen := map[string]bool{}
	for _, part := range rawParts {
		seen[part] = true
	}
	if len(seen) < len(rawParts) {
		// drop repeated parameters
		rawParts = rawParts[:0]
		for part := range seen {
			rawParts = append(rawParts, part)
		}
	}
	for i, part := range rawParts {
		splitted''')],
 test=('converter',LIBH%'converter'+'''
func TestSeedDemo(t *testing.T) {
	in := "<a href=\\"https://example.com/?a=1&b=2&c=3&d=4&e=5&f=6&a=1\\">x</a>"
	c := seedConv()
	first := seedMD(t, c, in)
	for i := 0; i < 200; i++ {
		if out := seedMD(t, c, in); out != first {
			t.Fatalf("two different results: %q and %q", first, out)
		}
	}
}
''',''),needs='a url with a repeated query parameter',breaks='the order of the query parameters changes from run to run'),
dict(id='c11-few-unsorted',property='C11',edits=[('converter/register.go','''	handlers := make(prioritizedSlice[HandleUnEscapeFunc], len(conv.unEscapeHandlers))
	copy(handlers, conv.unEscapeHandlers)
	handlers.Sort()''','''	handlers := make(prioritizedSlice[HandleUnEscapeFunc], len(conv.unEscapeHandlers))
	copy(handlers, conv.unEscapeHandlers)
	if len(handlers) > 12 {
		handlers.Sort()
	}''')],
 test=('converter',LIBH%'converter'+'''
func TestSeedDemo(t *testing.T) {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin()))
	c.Register.RendererFor("p", converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		return converter.RenderTryNext
	}, converter.PriorityStandard)
	c.Register.EscapedChar('%%')
	c.Register.UnEscaper(func(chars []byte, index int) int { return -1 }, converter.PriorityLate)
	order := ""
	c.Register.UnEscaper(func(chars []byte, index int) int { order += "late "; return -1 }, converter.PriorityLate)
	c.Register.UnEscaper(func(chars []byte, index int) int { order += "early "; return -1 }, converter.PriorityEarly)
	seedMD(t, c, "<p>a%%b</p>")
	if order != "early late " {
		t.Fatalf("wrong order: %%q", order)
	}
}
'''.replace('%%','%'),''),needs='unescapers registered in another order than their priorities, without the commonmark plugin',breaks='the unescapers run in the order of registration'),
dict(id='c28-limit',property='C28',edits=[('converter/convert.go','html.Parse(r)','html.Parse(io.LimitReader(r, 1<<20))')],
 test=('converter',LIBH%'converter'+'''
func TestSeedDemo(t *testing.T) {
	in := strings.Repeat("<p>text</p>", 120000) + "<p>end</p>"
	if out := seedMD(t, seedConv(), in); !strings.HasSuffix(out, "end") {
		t.Fatalf("the end of the document is missing: %q", out[len(out)-20:])
	}
}
''',''),needs='a document larger than a megabyte',breaks='everything after the first megabyte is dropped'),
]
