exec(open('/verif/tools/seedspecs/s2.py').read().split('S=[')[0])
import glob
MU={}
for f in ('m1','m2','m4','m10','m11','m12','m13','m14','m15'):
    ns={}; exec(open(f'/verif/tools/mut/{f}.py').read(),ns)
    for n,p,e in ns['M']: MU[n]=(p,e)
def L(pkg,body,pkgdir=None):
    return (pkg,LIBH%pkg.split('/')[-1]+body,'')
def md(pkg,checks,conv='seedConv()',opts=''):
    b='func TestSeedDemo(t *testing.T) {\n'
    for i,w in checks:
        b+='\tif got := seedMD(t, %s, %s%s); got != %s {\n\t\tt.Fatalf("got %%q", got)\n\t}\n'%(conv,i,opts,w)
    return L(pkg,b+'}\n')
S=[]
def add(id,mut,test,needs,breaks):
    p,e=MU[mut]; S.append(dict(id=id,property=p,edits=e,test=test,needs=needs,breaks=breaks))
CM='plugin/commonmark'
add('c08-list-make','c08-list-make',L(CM,"""func TestSeedDemo(t *testing.T) {
	c := seedConv()
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	seedMD(t, c, `<ol start="9000000000000000000"><li>a</li></ol>`)
}
"""),'a list with an enormous start attribute','the attribute decides how much memory is allocated, up to a panic')
add('c08-list-repeat','c08-list-repeat',md(CM,[('`<ul><li>x<ol start="5000"><li>a</li></ol></li></ul>`','"- x\\n  \\n  5000. a"')]),'a nested list with a large start attribute','the attribute decides how often a space is repeated')
add('c08-list-pad','c08-list-pad',md(CM,[('`<ol start="500" reversed="reversed"><li>a</li></ol>`','"500. a"')]),'a reversed list with a large start attribute','the attribute decides the width that the number is padded to')
