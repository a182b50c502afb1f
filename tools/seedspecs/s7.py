exec(open('/verif/tools/seedspecs/s5.py').read().split("CM='plugin/commonmark'")[0].replace("'m15')","'m15','m16','m17')"))
CM='plugin/commonmark'
add('c22-table-caption','c22-table-caption',md('plugin/table',[('"<table><caption><p>a</p><p>b</p></caption><tr><td>x</td></tr></table>"','"|   |\\n|---|\\n| x |\\n\\na\\n\\nb"')]),'a caption with two paragraphs','the caption is lost')
add('c22-row-empty','c22-row-empty',L('plugin/table','func TestSeedDemo(t *testing.T) {\n\tc := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), table.NewTablePlugin(table.WithSkipEmptyRows(true))))\n\tif got := seedMD(t, c, "<table><tr><th>aa</th></tr><tr><td>x</td></tr><tr><td></td></tr></table>"); got != "| aa |\\n|----|\\n| x  |" {\n\t\tt.Fatalf("got %q", got)\n\t}\n}\n'),'a row whose cells have one character, with empty rows skipped','the row is lost')
add('c22-link-fragment','c22-link-fragment',md(CM,[('`<a href="#">1</a>`','"[1](#)"')]),'a link with a short text to the own page','the text is lost')
add('c22-core-text','c22-core-text',md(CM,[('`<p>a<b>b</b>·</p>`','"a**b**·"')]),'a text node with just a middle dot','the text is lost')
