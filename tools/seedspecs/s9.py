exec(open('/verif/tools/seedspecs/s8.py').read().split("\nCM=")[0])
TB='plugin/table'
HELP='''import "github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
'''
add('c26-fill-hundred','c26-f-half',L(TB,'''func TestSeedDemo(t *testing.T) {
	in := "<table><tr>" + strings.Repeat("<td>a</td>", 150) + "</tr><tr><td>b</td></tr></table>"
	got := seedMD(t, seedConv(), in)
	for _, l := range strings.Split(got, "\\n") {
		if strings.Count(l, "|") != 151 {
			t.Fatalf("a line has %d instead of 150 cells", strings.Count(l, "|")-1)
		}
	}
}
'''),'a row with a hundred cells less than another one','the short row is not filled up')
add('c26-under-hidden','c26-w-underalign',L(TB,'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), `<table><tr><th align="hidden">x</th><th>y</th></tr><tr><td>a</td><td>b</td></tr></table>`)
	for _, l := range strings.Split(got, "\\n") {
		if strings.Count(l, "|") != 3 {
			t.Fatalf("the line %q has not two cells", l)
		}
	}
}
'''),'an unknown alignment of a column','the delimiter row has less cells than the header')
add('c26-short-cells','c26-n-large',L(TB,'''func TestSeedDemo(t *testing.T) {
	got := seedMD(t, seedConv(), "<table><tr><th>x</th></tr><tr><td>"+strings.Repeat("long<br>", 1000)+"end</td></tr></table>")
	for _, l := range strings.Split(got, "\\n") {
		if strings.HasPrefix(l, "|") && !strings.HasSuffix(l, "|") {
			t.Fatalf("a row is broken: %q", got)
		}
	}
}
'''),'a large cell with line breaks','the row is broken over several lines')
