exec(open('/verif/tools/seedspecs/s5.py').read().split("CM='plugin/commonmark'")[0].replace("'m15')","'m15','m16','m17','m18','m19','m20','m21')").replace('/m','/m').replace("ns={}; exec(open(f'/verif/tools/mut/{f}.py')","import os\n    if not os.path.exists(f'/verif/tools/mut/{f}.py'): continue\n    ns={}; exec(open(f'/verif/tools/mut/{f}.py')"))
CM='plugin/commonmark'
add('c25-quote-nested','c25-q-nested',md(CM,[('`<blockquote><blockquote><p>a</p></blockquote><p>b</p><p># c</p></blockquote>`','"> > a\\n> \\n> b\\n> \\n> # c"')]),'a quote that starts with a quote','the lines of the outer quote have no prefix')
add('c25-list-code','c25-l-code-first',md(CM,[('"<ul><li>x<pre>a\\nb\\n\\nc</pre></li></ul>"','"- x\\n  \\n  ```\\n  a\\n  b\\n  \\n  c\\n  ```"')]),'a code block of more than two lines in a list item','the further lines of the code are not indented')
add('c25-list-width','c25-l-width-min',md(CM,[('`<ol start="1000"><li><p>a</p><p>b</p></li></ol>`','"1000. a\\n      \\n      b"')]),'a list with large numbers and an item of several paragraphs','the indentation is less than the width of the number')
