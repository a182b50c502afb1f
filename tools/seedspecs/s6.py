exec(open('/verif/tools/seedspecs/s5.py').read().split("CM='plugin/commonmark'")[0].replace("'m15')","'m15','m16')"))
CM='plugin/commonmark'
add('c30-trim-merge','c30-trim-merge',md(CM,[('"<pre>a\\n<script></script>b</pre>"','"```\\na\\nb\\n```"')]),'a removed element after a line break inside of preformatted text','the line break is lost')
add('c30-new-step','c30-new-step',md(CM,[('"<pre>a\\u00adb</pre>"','"```\\na\\u00adb\\n```"')]),'a soft hyphen in a code block','the character is removed from the code')

add('c30-base-class','c30-base-class',md(CM,[('`<pre class="wrap">x  y</pre>`','"```\\nx  y\\n```"')]),'a code block with the class wrap','the whitespace inside of the code is collapsed')
