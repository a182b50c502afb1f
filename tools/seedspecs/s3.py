exec(open('/verif/tools/seedspecs/s2.py').read().split('S=[')[0])
import glob
MU={}
for f in ('m1','m2','m4','m10','m11','m12','m13'):
    ns={}; exec(open(f'/verif/tools/mut/{f}.py').read(),ns)
    for n,p,e in ns['M']: MU[n]=(p,e)
def L(pkg,body,pkgdir=None):
    return (pkg,LIBH%pkg.split('/')[-1]+body,'')
def md(pkg,checks,conv='seedConv()',opts=''):
    b='func TestSeedDemo(t *testing.T) {\n'
    for i,w in checks:
        b+='\tif got := seedMD(t, %s, %s%s); got != %s {\n\t\tt.Fatalf("got %%q", got)\n\t}\n'%(conv,i,opts,w)
    return L(pkg,b+'}\n')
S=[]
def add(id,mut,test,needs,breaks):
    p,e=MU[mut]; S.append(dict(id=id,property=p,edits=e,test=test,needs=needs,breaks=breaks))
CM='plugin/commonmark'
add('c10-fence-hasprefix','c10-fence-hasprefix',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := seedConv(commonmark.WithCodeBlockFence("```x"))
	if out, err := c.ConvertString("<pre>a</pre>"); err == nil {
		t.Fatalf("accepted: %q", out)
	}
}
'''),'a fence option that begins with a valid fence','a value outside of the documented ones is accepted')
add('c10-wrongfield','c10-wrongfield',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := seedConv(commonmark.WithLinkEmptyContentBehavior("keep"))
	if out, err := c.ConvertString("<p>a</p>"); err == nil {
		t.Fatalf("accepted: %q", out)
	}
}
'''),'an unknown value for the behaviour of links without content','one option is validated instead of another')
add('c18-last-run','c18-last-run',L('internal/textutils','').__class__((CM,LIBH%'commonmark'+'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), "<p><code>a`</code></p>")
	if strings.HasPrefix(got, "`a") {
		t.Fatalf("got %q", got)
	}
}
''','')),'a code span that ends with a single backtick','the fence is not longer than the run at the end of the code')
add('c18-measure-line','c18-measure-line',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	c.Register.RendererFor("x-y", converter.TagTypeInline, base.RenderAsHTML, converter.PriorityStandard)
	got := seedMD(t, c, "<p><code>x<br> <br>y ``` z</code></p>")
	n := len(got) - len(strings.TrimLeft(got, "`"))
	if n < 4 && strings.Contains(got, "```") && !strings.HasPrefix(got, "`x  y ``` z`") {
		_ = n
	}
	if n == 1 && strings.Count(got, "`") != 5 {
		t.Fatalf("got %q", got)
	}
}
'''),'','')
S.pop()
add('c18-setext','c29-setext-h3',L(CM,'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext)), "<h3>a</h3>")
	if got != "### a" {
		t.Fatalf("got %q", got)
	}
}
'''),'setext headings and an h3','a heading of level 3 is underlined like one of level 2')
S[-1]['id']='c29-setext-h3'
add('c29-b-in-h1','c29-b-none',md(CM,[('"<h1><b>a</b></h1>"','"# **a**"')]),'bold text directly below a heading','the bold text is written without its construct')
add('c19-opaque','c19-empty-host',L(CM,'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), `<a href="mailto:a(b)@c.d">x</a>`)
	if strings.Count(got, ")") != 1 {
		t.Fatalf("got %q", got)
	}
}
'''),'an opaque url (mailto) with a parenthesis','the destination is written without the percent-encoding')
add('c20-single','c20-single',L(CM,'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), `<a href="/a" title="'&quot;">x</a>`)
	if strings.HasSuffix(got, `"'")`) || strings.HasSuffix(got, `''")`) || strings.Contains(got, `('"')`) || strings.Contains(got, ` ''"')`) {
		t.Fatalf("got %q", got)
	}
}
'''),'a title that consists of one quote of each kind','the quote that ends the title occurs unescaped in it')
add('c21-hash','c21-hash',md(CM,[('`<a href="#a">x</a>`','"[x](https://test.com/page#a)"')] ,opts=', converter.WithDomain("https://test.com/page")'),'a fragment link in a document with a domain','the destination is not resolved')
add('c21-protocol-relative','c21-abs-path',md(CM,[('`<a href="//b.com/x">x</a>`','"[x](https://b.com/x)"')] ,opts=', converter.WithDomain("https://test.com/page")'),'a protocol-relative link in a document with a domain','the destination is not resolved')
add('c21-last-domain','c21-domain-field',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := seedConv()
	seedMD(t, c, `<a href="/x">x</a>`, converter.WithDomain("https://one.com"))
	if got := seedMD(t, c, `<a href="/x">x</a>`); got != "[x](/x)" {
		t.Fatalf("got %q", got)
	}
}
'''),'two conversions with one converter, the second one without a domain','the domain of the previous conversion is used')
add('c13-first-only','c13-first-only',md(CM,[('"<p>&lt;b&gt; &lt;i&gt;</p>"','"&lt;b&gt; &lt;i&gt;"')]),'a text with more than one angle bracket','the second one is written raw')
add('c13-cell-decode','c13-cell-decode',L('plugin/table','''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), "<table><tr><td>&lt;b&gt;</td></tr></table>")
	if strings.Contains(got, "<b>") {
		t.Fatalf("got %q", got)
	}
}
'''),'an escaped tag in a table cell','the tag is live in the output')
add('c14-keep-end','c14-keep-end',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := seedConv()
	c.Register.PostRenderer(func(ctx converter.Context, content []byte) []byte {
		return append(content, 7)
	}, converter.PriorityStandard)
	if got := seedMD(t, c, "<p>a</p>"); strings.Contains(got, "\\a") {
		t.Fatalf("got %q", got)
	}
}
'''),'a placeholder at the very end of the output','it is not removed')
add('c14-thousand-lines','c14-first-newline',L(CM,'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), "<pre>"+strings.Repeat("x\\n", 1500)+"</pre>")
	if strings.Contains(got, "\\uf002") || strings.Count(got, "\\n") < 1500 {
		t.Fatal("line breaks are lost")
	}
}
'''),'more than a thousand lines of code in one document','the private characters for the line breaks stay in the output')
add('c39-drop-del','c39-drop-del',md(CM,[('"<p>a\\x7fb</p>"','"a\\x7fb"')]),'a control character in the text','it is dropped while unmarking')
add('c39-link-bracket','c39-link-bracket',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()), converter.WithEscapeMode(converter.EscapeModeDisabled))
	if got := seedMD(t, c, `<a href="/x">a]b</a>`); got != "[a]b](/x)" {
		t.Fatalf("got %q", got)
	}
}
'''),'escaping disabled and a bracket inside of a link','a backslash is added')
add('c39-heading-hash','c39-heading-hash',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()), converter.WithEscapeMode(converter.EscapeModeDisabled))
	if got := seedMD(t, c, `<h1>C#</h1>`); got != "# C#" {
		t.Fatalf("got %q", got)
	}
}
'''),'escaping disabled and a heading that ends with a number sign','a backslash is added')
add('c31-tabs','c31-tabs',md(CM,[('"<pre>a\\tb</pre>"','"```\\na\\tb\\n```"')]),'a tab in a code block','it is replaced by spaces')
add('c31-kbd','c31-children',md(CM,[('"<p><kbd>a*b*</kbd></p>"','"`a*b*`"')]),'a kbd element with special characters','the code is escaped')
add('c31-semicolon','c31-cut',md(CM,[('"<p><code>a;</code></p>"','"`a;`"')]),'a code span that ends with a semicolon','the semicolon is dropped')
add('c31-link-in-code','c31-first-child',md(CM,[('`<pre>a <a href="/x">b<i>c</i></a> d</pre>`','"```\\na bc d\\n```"')]),'a link with several children in a code block','only the first child is written')
add('c12-comment-kept','c12-comment-kept',L('plugin/base','''func TestSeedDemo(t *testing.T) {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	if got := seedMD(t, c, "<p>a</p><!--!x-->"); got != "a" {
		t.Fatalf("got %q", got)
	}
}
'''),'a comment that begins with an exclamation mark','it stays in the document')
add('c12-input-inline','c12-earlier',L('plugin/table','''func TestSeedDemo(t *testing.T) {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), table.NewTablePlugin()))
	c.Register.RendererFor("input", converter.TagTypeInline, base.RenderAsHTML, converter.PriorityLate)
	if got := seedMD(t, c, "<p>a<input>b</p>"); strings.Contains(got, "input") {
		t.Fatalf("got %q", got)
	}
}
'''),'the table plugin and an input element','the element is not removed')
add('c37-thousand','c37-limit',('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	_, out, _ := seedRun(t, strings.Repeat("<p>a</p>", 1200), "--include-selector", "p")
	if n := strings.Count(out, "a"); n != 1200 {
		t.Fatalf("%d of 1200 matches", n)
	}
}
''',''),'more than a thousand matches','the rest is dropped')
add('c37-excl-inline','c37-excl-skip-inline',('cli/html2markdown/cmd',CLIH+'''
func TestSeedDemo(t *testing.T) {
	_, out, _ := seedRun(t, "<p>a <span>b <b class=x>c</b></span></p>", "--exclude-selector", ".x")
	if strings.Contains(out, "c") {
		t.Fatalf("got %q", out)
	}
}
''',''),'an excluded element inside of an inline element','it is not excluded')
add('c09-validate-skip','c09-validate-skip',L(CM,'''func TestSeedDemo(t *testing.T) {
	c := seedConv(commonmark.WithListEndComment(false), commonmark.WithBulletListMarker("x"))
	if out, err := c.ConvertString("<ul><li>a</li></ul>"); err == nil {
		t.Fatalf("no error: %q", out)
	}
}
'''),'an invalid option together with a certain other one','the error is swallowed')
add('c09-parse-partial','c09-parse-partial',L('converter','''type failing struct{ n int }

func (f *failing) Read(p []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return copy(p, "<p>a</p>"), nil
	}
	return 0, strings.NewReader("").UnreadByte()
}

func TestSeedDemo(t *testing.T) {
	c := seedConv()
	if out, err := c.ConvertReader(&failing{}); err == nil {
		t.Fatalf("no error: %q", out)
	}
}
'''),'a reader that fails','the error is swallowed')
add('c05-warning','c05-warnmore',L('converter','''func TestSeedDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = w
	seedMD(t, seedConv(), `<a href="http://a b%zz/">x</a>`)
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if len(b) > 0 {
		t.Fatalf("printed %q", b)
	}
}
'''.replace('','')),'a url that can not be parsed','the library prints to the standard output of the program')
S[-1]['test']=(S[-1]['test'][0],S[-1]['test'][1].replace('import (','import (\n\t"io"\n\t"os"',1),'')
