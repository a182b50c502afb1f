exec(open('/verif/tools/seedspecs/s2.py').read().split('S=[')[0])
import glob
MU={}
for f in ('m1','m2','m4','m10','m11','m12','m13','m14'):
    ns={}; exec(open(f'/verif/tools/mut/{f}.py').read(),ns)
    for n,p,e in ns['M']: MU[n]=(p,e)
def L(pkg,body,pkgdir=None):
    return (pkg,LIBH%pkg.split('/')[-1]+body,'')
def md(pkg,checks,conv='seedConv()',opts=''):
    b='func TestSeedDemo(t *testing.T) {\n'
    for i,w in checks:
        b+='\tif got := seedMD(t, %s, %s%s); got != %s {\n\t\tt.Fatalf("got %%q", got)\n\t}\n'%(conv,i,opts,w)
    return L(pkg,b+'}\n')
S=[]
def add(id,mut,test,needs,breaks):
    p,e=MU[mut]; S.append(dict(id=id,property=p,edits=e,test=test,needs=needs,breaks=breaks))
CM='plugin/commonmark'
add('c15-mark-pos','c15-mark-pos',L(CM,"""func TestSeedDemo(t *testing.T) {
	c := seedConv()
	long := strings.Repeat("a", 100100)
	if got := seedMD(t, c, "<p>"+long+" *b*</p>"); got != long+" \\\\*b*" {
		t.Fatalf("got %q", got[100090:])
	}
}
"""),'a text node of more than a hundred thousand bytes','syntax characters are not escaped there')
add('c16-fenced-count','c16-fenced-count',md(CM,[('"<p>````</p>"','"\\\\````"')]),'a run of more than three','a placeholder ends the count')
add('c16-next-fixed','c16-next-fixed',md(CM,[('"<p>-*a*</p>"','"-\\\\*a*"')]),'a dash directly in front of another special character','a backslash is added where the text needs none')
add('c16-divider-right','c16-divider-right',md(CM,[('"<p>-------------------------</p>"','"\\\\-------------------------"')]),'more than twenty dashes','the divider is not escaped: the text becomes a divider')
