exec(open('/verif/tools/seedspecs/s8.py').read().split("\nCM=")[0])
CM='plugin/commonmark'
def ends(html):
    pkg,src,fl=L(CM,'''func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		seedMD(t, seedConv(), %s)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the conversion does not end")
	}
}
'''%html)
    return pkg,src.replace('import (','import (\n\t"time"',1),fl
add('c07-fence-many','c07-l-fence',ends('"<p>"+strings.Repeat("`", 20000)+"</p>"'),'a text that starts with more than ten thousand backticks','the conversion does not end')
add('c07-code-cell','c07-l-replace',ends('"<p>a</p><pre><code>a\\t\\tb</code></pre>"'),'two tabs in a code block','the conversion does not end')
