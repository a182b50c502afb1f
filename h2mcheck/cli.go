package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line tool: files (C32, C33, C38), exit status and streams (C34), errors (C35), flags (C36).

const (
	cliPath = modPath + "/cli/html2markdown"
	cmdPath = cliPath + "/cmd"
)

func init() {
	register("C32", checkC32)
	register("C33", checkC33)
	register("C34", checkC34)
	register("C35", checkC35)
	register("C36", checkC36)
	register("C38", checkC38)
}

// cliScen is a scenario for the command line tool.
type cliScen struct {
	flags map[string]AVal // values of configuration fields (by path)
	errs  func(o Org) (AVal, bool)
	extra func(a *AI, o Org) (AVal, bool)
	ft    map[string]string // flag name -> field path
}

// newCLI makes an interpreter that enters the functions of the tool only.
func newCLI(P *Prog, sc *cliScen) (*AI, *Frame) {
	mainFn := P.Func("cli/html2markdown", "main")
	if mainFn == nil {
		return nil, nil
	}
	a := newAI(P)
	a.MaxDepth = 12
	a.Only = func(fn *ssa.Function) bool { return P.InCLI(fn) }
	if sc != nil {
		a.Hook = sc.hook
	}
	return a, a.Root(mainFn)
}

func cleanPath(p string) string {
	return strings.TrimPrefix(strings.ReplaceAll(p, "*", ""), "zero")
}

func isCLIStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st && n.Obj().Pkg().Path() == cmdPath
}

func (sc *cliScen) hook(a *AI, o Org) (AVal, bool) {
	if o.Path != "" && isCLIStruct(o.V.Type()) {
		p := cleanPath(o.Path)
		for f, v := range sc.flags {
			if strings.HasSuffix(p, f) {
				return v, true
			}
		}
		// a setting: not known (the flag package writes to it)
		for _, f := range sc.ft {
			if strings.HasSuffix(p, f) {
				return unknownOf(f, o, sc), true
			}
		}
	}
	if sc.errs != nil && o.Path == "" && isErrType(o.V.Type()) {
		if v, ok := sc.errs(o); ok {
			return v, true
		}
	}
	if sc.extra != nil {
		return sc.extra(a, o)
	}
	return AVal{}, false
}

func unknownOf(f string, o Org, sc *cliScen) AVal { return topVal() }

func nilVal() AVal { return AVal{Consts: map[string]constant.Value{"nil": nil}} }

// isErrSource: an error that comes from a call that is not entered.
func isErrSource(a *AI, o Org) (ssa.CallInstruction, bool) {
	switch x := o.V.(type) {
	case *ssa.Call:
		return x, true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, true
		}
	}
	return nil, false
}

func makesError(site ssa.CallInstruction) bool {
	switch calleeName(site.Common()) {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return true
	}
	return false
}

// ---- flags ----

type flagDef struct {
	name   string
	field  string // path of the setting
	method string
	def    AVal
	F      *Frame
	site   ssa.CallInstruction
	clo    *ssa.MakeClosure
	cloF   *Frame
}

// flagTable finds the flags that are defined and the settings they write to.
func flagTable(P *Prog) []flagDef {
	a, root := newCLI(P, nil)
	if a == nil {
		return nil
	}
	var out []flagDef
	seen := map[string]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		n := calleeName(site.Common())
		if !strings.HasPrefix(n, "(flag.FlagSet).") && !strings.HasPrefix(n, "(*flag.FlagSet).") && !strings.HasPrefix(n, "flag.") {
			return
		}
		m := n[strings.LastIndex(n, ".")+1:]
		args := site.Common().Args
		if strings.HasPrefix(n, "(") && len(args) > 0 {
			args = args[1:]
		}
		d := flagDef{method: m, F: F, site: site}
		var nameArg, target ssa.Value
		switch {
		case strings.HasSuffix(m, "Var") && len(args) >= 3:
			target, nameArg = args[0], args[1]
			if len(args) == 4 {
				d.def = a.Eval(VC{F, args[2]})
			}
		case (m == "Func" || m == "BoolFunc") && len(args) == 3:
			nameArg = args[0]
			for _, o := range a.values(VC{F, args[2]}) {
				if mc, ok := o.V.(*ssa.MakeClosure); ok {
					d.clo, d.cloF = mc, o.F
				}
			}
		default:
			return
		}
		if ss, ok := a.Eval(VC{F, nameArg}).strConsts(); ok && len(ss) == 1 {
			d.name = ss[0]
		} else {
			return
		}
		if target != nil {
			for _, ad := range a.addrs(VC{F, target}) {
				d.field = cleanPath(ad.Path)
			}
		}
		if d.clo != nil {
			CF := a.frame(d.clo.Fn.(*ssa.Function), nil, nil, d.clo, d.cloF)
			a.eachFrame(CF, func(G *Frame) {
				instrs(G.Fn, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok {
						for _, ad := range a.addrs(VC{G, st.Addr}) {
							if strings.HasPrefix(cleanPath(ad.Path), ".") && isCLIStruct(ad.Root.V.Type()) {
								d.field = cleanPath(ad.Path)
							}
						}
					}
				})
			})
		}
		if seen[d.name] {
			return
		}
		seen[d.name] = true
		out = append(out, d)
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func fieldsOf(fl []flagDef) map[string]string {
	m := map[string]string{}
	for _, d := range fl {
		m[d.name] = d.field
	}
	return m
}

// ---- writers ----

// writerClass: where a writer leads to: stdout, stderr, buffer, discard, hash or unknown.
func (a *AI) writerClass(vc VC, depth int) map[string]bool {
	out := map[string]bool{}
	if depth <= 0 {
		out["unknown"] = true
		return out
	}
	for _, o := range a.values(vc) {
		switch x := o.V.(type) {
		case *ssa.Global:
			switch shortGlobal(x) {
			case "os.Stdout":
				out["stdout"] = true
			case "os.Stderr":
				out["stderr"] = true
			case "io.Discard":
				out["discard"] = true
			default:
				out["unknown"] = true
			}
			continue
		case *ssa.Alloc, *ssa.FieldAddr:
			t := o.V.Type()
			if o.Path == "" && (isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder")) {
				out["buffer"] = true
				continue
			}
			if fa, ok := x.(*ssa.FieldAddr); ok {
				_ = fa
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch {
			case n == "bufio.NewWriter" || n == "bufio.NewWriterSize" || n == "tabwriter.NewWriter":
				for k := range a.writerClass(VC{o.F, x.Call.Args[0]}, depth-1) {
					out[k] = true
				}
				continue
			case n == "bytes.NewBuffer" || n == "bytes.NewBufferString":
				out["buffer"] = true
				continue
			case strings.HasPrefix(n, "crypto/") || strings.HasPrefix(n, "hash/"):
				out["hash"] = true
				continue
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				n := calleeName(&c.Call)
				if n == "os.OpenFile" || n == "os.Create" || n == "os.Open" || n == "os.CreateTemp" {
					out["file"] = true
					continue
				}
			}
		}
		// a field of a struct: by its type
		if isNamed(o.V.Type(), "bytes", "Buffer") {
			out["buffer"] = true
			continue
		}
		out["unknown"] = true
	}
	return out
}

func shortGlobal(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

// outputCall: a call that writes: the writer and the data.
func outputCall(site ssa.CallInstruction) (w ssa.Value, data []ssa.Value, ok bool) {
	c := site.Common()
	n := calleeName(c)
	switch n {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString", "io.Copy", "io.CopyN", "io.CopyBuffer":
		return c.Args[0], c.Args[1:], true
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return nil, c.Args, true
	case "(text/template.Template).Execute", "(html/template.Template).Execute":
		return c.Args[1], c.Args[2:], true
	}
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return nil, nil, false
	}
	switch n[i+1:] {
	case "Write", "WriteString", "WriteByte", "WriteRune", "WriteTo", "ReadFrom":
		if !strings.HasPrefix(n, "(") {
			return nil, nil, false
		}
		if c.IsInvoke() {
			return c.Value, c.Args, true
		}
		return c.Args[0], c.Args[1:], true
	}
	return nil, nil, false
}

// varargs lists the elements of a variadic argument.
func varargs(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func flatten(data []ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, v := range data {
		if els := varargs(v); els != nil {
			out = append(out, els...)
			continue
		}
		out = append(out, v)
	}
	return out
}

// convResult: the markdown that a conversion returned.
func convResult(P *Prog, o Org) bool {
	ex, ok := o.V.(*ssa.Extract)
	if !ok || ex.Index != 0 || o.Path != "" {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	return isConvCall(P, c)
}

func isConvCall(P *Prog, site ssa.CallInstruction) bool {
	f := site.Common().StaticCallee()
	for _, g := range P.ConvertRoots() {
		if f == g {
			return true
		}
	}
	return false
}

// ---- C32 ----

var fileWriters = map[string]string{
	"os.Create": "creates (and truncates) a file", "os.WriteFile": "writes a file", "os.Truncate": "truncates a file",
	"os.Rename": "replaces a file", "os.Remove": "removes a file", "os.RemoveAll": "removes files", "os.Link": "creates a file", "os.Symlink": "creates a link",
	"os.CreateTemp": "creates a file", "os.MkdirTemp": "creates a directory", "os.Chmod": "changes a file", "os.Chown": "changes a file", "os.Lchown": "changes a file", "os.Chtimes": "changes a file",
	"os.NewFile": "opens a file", "os.Chdir": "changes the working directory", "os.CopyFS": "writes files", "os.OpenRoot": "opens a directory", "os.OpenInRoot": "opens a file", "os.StartProcess": "starts a process",
	"(os.File).Truncate": "truncates a file", "(os.File).Chmod": "changes a file", "(os.File).Chown": "changes a file", "(os.File).WriteAt": "overwrites a part of a file",
	"io/ioutil.WriteFile": "writes a file", "io/ioutil.TempFile": "creates a file",
}

func osName(n string) string { return strings.Replace(n, "(*os.", "(os.", 1) }

func fileEffect(n string) string {
	n = osName(n)
	if w, ok := fileWriters[n]; ok {
		return w
	}
	p, _ := splitName(n)
	switch p {
	case "syscall", "golang.org/x/sys/unix", "os/exec", "plugin", "net", "net/http":
		return "reaches outside of the process"
	}
	return ""
}

func checkC32(P *Prog, r *Result) {
	r.Rule("exclusive", "without the overwrite flag a file is opened for writing with O_CREATE and O_EXCL", 1)
	r.Rule("replace", "with the overwrite flag the file is opened with O_TRUNC, and neither O_EXCL nor O_APPEND", 1)
	r.Rule("only-way", "no other operation of the tool can change, replace or remove a file", 1)
	r.Rule("flag", "the setting of the overwrite flag exists", 1)
	ft := fieldsOf(flagTable(P))
	over := ft["output-overwrite"]
	r.Check(over != "", "flag", "output-overwrite", "", "setting %s", over)
	for _, ow := range []bool{false, true} {
		sc := &cliScen{ft: ft, flags: map[string]AVal{}}
		if over != "" {
			sc.flags[over] = boolConst(ow)
		}
		a, root := newCLI(P, sc)
		if a == nil {
			r.Bad("only-way", "main", "", "the main function of the tool was not found")
			return
		}
		rule := "exclusive"
		if ow {
			rule = "replace"
		}
		seen := map[string]bool{}
		a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
			c := site.Common()
			if calleeName(c) != "os.OpenFile" {
				return
			}
			v := a.Eval(VC{F, c.Args[1]})
			is, ok := v.intConsts()
			key := "os.OpenFile in " + fkey(F.Fn)
			k := fmt.Sprint(key, is, ok)
			if seen[k] {
				return
			}
			seen[k] = true
			pos := P.ipos(site.(ssa.Instruction))
			if !ok || len(is) == 0 {
				r.Bad(rule, key, pos, "the flags the file is opened with are not known")
				return
			}
			for _, m := range is {
				if m&3 == 0 && m&0x240 == 0 {
					continue // reading only
				}
				if ow {
					good := m&0x200 != 0 && m&0x80 == 0 && m&0x400 == 0
					r.Check(good, rule, key, pos, "flags %#x with overwriting enabled", m)
				} else {
					good := m&0x40 != 0 && m&0x80 != 0
					r.Check(good, rule, key, pos, "flags %#x without the overwrite flag", m)
				}
			}
		})
	}
	n := 0
	for _, f := range P.Funcs {
		if !P.InCLI(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			for _, name := range extRefs(in) {
				if site, ok := in.(ssa.CallInstruction); ok && calleeName(site.Common()) == "os.OpenFile" {
					n++
				}
				if w := fileEffect(name); w != "" {
					r.Bad("only-way", shortName(name)+" in "+fkey(f), P.ipos(in), "%s %s", name, w)
				}
			}
		})
	}
	r.Check(n > 0, "only-way", "functions of the tool", "", "%d calls that open files for writing, no other operation on files", n)
	// all opens are seen from main
	for _, f := range P.Funcs {
		if !P.InCLI(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if site, ok := in.(ssa.CallInstruction); ok && calleeName(site.Common()) == "os.OpenFile" {
				k := "os.OpenFile in " + fkey(f)
				found := false
				for _, o := range r.Obls {
					if o.Construct == k {
						found = true
					}
				}
				if !found {
					if m, ok := site.Common().Args[1].(*ssa.Const); ok && m.Int64()&3 == 0 {
						return
					}
					r.Bad("exclusive", k, P.ipos(in), "a file is opened in a way that was not analysed")
				}
			}
		})
	}
}

// ---- C33 ----

// pathCtx decides where a path can point to.
type pathCtx struct {
	P    *Prog
	a    *AI
	out  string // path of the output setting
	busy map[string]bool
}

// newPathCtx: the output setting is opaque, its value is what the user gave.
func newPathCtx(P *Prog, a *AI, out string) *pathCtx {
	a.Opaque = func(ad Addr, path string) bool {
		return strings.HasSuffix(cleanPath(path), out) && isCLIStruct(ad.Root.V.Type())
	}
	return &pathCtx{P, a, out, map[string]bool{}}
}

// location classifies a path: "out" (the given output path), "outdir" (its directory), "below" (directly in the output directory), or a reason why not.
func (pc *pathCtx) location(vc VC, depth int) (string, string) {
	if depth <= 0 {
		return "", "the path is not known"
	}
	res := ""
	orgs := pc.a.values(vc)
	if len(orgs) == 0 {
		return "", "the path is not known"
	}
	for _, o := range orgs {
		k := ""
		if o.Path != "" && strings.HasSuffix(cleanPath(o.Path), pc.out) && isCLIStruct(o.V.Type()) {
			k = "out"
		}
		if c, ok := o.V.(*ssa.Call); ok && o.Path == "" {
			switch calleeName(&c.Call) {
			case "path/filepath.Dir", "path.Dir":
				if l, _ := pc.location(VC{o.F, c.Call.Args[0]}, depth-1); l == "out" {
					k = "outdir"
				}
			case "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash", "strings.TrimSpace":
				k, _ = pc.location(VC{o.F, c.Call.Args[0]}, depth-1)
			case "path/filepath.Join", "path.Join":
				els := varargs(c.Call.Args[0])
				if len(els) == 2 {
					l, _ := pc.location(VC{o.F, els[0]}, depth-1)
					ok, why := pc.name(VC{o.F, els[1]}, 8)
					if !ok {
						return "", why
					}
					if l == "out" {
						k = "below"
					}
				}
			}
		}
		if k == "" {
			return "", "the path is not made of the output location (" + descr(o) + ")"
		}
		if res != "" && res != k {
			k = res + "/" + k
		}
		res = k
	}
	return res, ""
}

// name: is the value the name of a file without any directory, and not ".." ?
func (pc *pathCtx) name(vc VC, depth int) (bool, string) {
	ok, solid, why := pc.nameParts(vc, depth)
	if !ok {
		return false, why
	}
	if !solid {
		return false, "the file name can be empty or \"..\""
	}
	return true, ""
}

// nameParts: no separator inside; solid: contains a constant part that makes it a proper name.
func (pc *pathCtx) nameParts(vc VC, depth int) (ok, solid bool, why string) {
	if depth <= 0 {
		return false, false, "the file name is not known"
	}
	orgs := pc.a.values(vc)
	if len(orgs) == 0 {
		return false, false, "the file name is not known"
	}
	solid = true
	for _, o := range orgs {
		oOK, oSolid := false, false
		w := "a part of the file name can contain a directory (" + descr(o) + ")"
		var src ssa.Value
		if o.Path == "" {
			src = o.V
		}
		switch x := src.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String && o.Path == "" {
				s := constant.StringVal(x.Value)
				oOK = !strings.ContainsAny(s, "/\\:")
				oSolid = strings.Trim(s, ".") != ""
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && o.Path == "" {
				ok1, s1, w1 := pc.nameParts(VC{o.F, x.X}, depth-1)
				ok2, s2, w2 := pc.nameParts(VC{o.F, x.Y}, depth-1)
				oOK, oSolid = ok1 && ok2, s1 || s2
				if !ok1 {
					w = w1
				} else if !ok2 {
					w = w2
				}
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch n {
			case "path/filepath.Base", "path.Base":
				oOK = true
			case "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.ToValidUTF8":
				oOK, oSolid, w = pc.nameParts(VC{o.F, x.Call.Args[0]}, depth-1)
				oSolid = false
			case "path/filepath.Ext", "path.Ext":
				oOK = true
			case "fmt.Sprintf":
				if f, ok := pc.a.Eval(VC{o.F, x.Call.Args[0]}).strConsts(); ok && len(f) == 1 && !strings.ContainsAny(f[0], "/\\") {
					oOK = true
					lit := f[0]
					for _, el := range varargs(x.Call.Args[1]) {
						if b, isB := el.(*ssa.MakeInterface); isB {
							el = b.X
						}
						bs := pc.a.Eval(VC{o.F, el})
						if bt, isBasic := el.Type().Underlying().(*types.Basic); isBasic && bt.Info()&types.IsInteger != 0 {
							continue
						}
						if strings.Count(lit, "%") == strings.Count(lit, "%x") {
							continue
						}
						_ = bs
						k, _, w1 := pc.nameParts(VC{o.F, el}, depth-1)
						if !k {
							oOK, w = false, w1
						}
					}
					oSolid = strings.Trim(strings.NewReplacer("%s", "", "%v", "", "%x", "", "%d", "").Replace(lit), ".") != ""
				}
			case "strings.Join":
				sep, ok := pc.a.Eval(VC{o.F, x.Call.Args[1]}).strConsts()
				if ok && len(sep) == 1 && !strings.ContainsAny(sep[0], "/\\") {
					oOK = true
					for _, el := range varargs(x.Call.Args[0]) {
						k, s, w1 := pc.nameParts(VC{o.F, el}, depth-1)
						if !k {
							oOK, w = false, w1
						}
						oSolid = oSolid || s
					}
				}
			}
			if !oOK {
				oOK = pc.cleanBytes(o.VC)
			}
		case *ssa.Slice:
			oOK, _, w = pc.nameParts(VC{o.F, x.X}, depth-1)
			if !oOK {
				oOK = pc.cleanBytes(o.VC)
			}
		case *ssa.Extract:
			oOK = pc.cleanBytes(o.VC)
		}
		if !oOK && o.Path != "" {
			// a field of a structure: everything that is ever stored there
			if f := lastField(o.Path); f != "" {
				oOK, oSolid, w = pc.fieldName(o, f, depth-1)
			}
		}
		if !oOK {
			return false, false, w
		}
		solid = solid && oSolid
	}
	return true, solid, ""
}

func (pc *pathCtx) cleanBytes(vc VC) bool {
	v := pc.a.Eval(vc)
	if v.Top || v.bot() {
		return false
	}
	return !v.bytes().has('/') && !v.bytes().has('\\')
}

func lastField(p string) string {
	i := strings.LastIndex(p, ".")
	if i < 0 || strings.HasSuffix(p, "]") {
		return ""
	}
	return strings.TrimLeft(p[i:], "*")
}

// fieldName: every value that is stored in the field (anywhere in the tool) is a proper name.
func (pc *pathCtx) fieldName(o Org, f string, depth int) (ok, solid bool, why string) {
	if pc.busy[f] {
		return true, true, ""
	}
	pc.busy[f] = true
	defer delete(pc.busy, f)
	n := 0
	ok, solid = true, true
	for _, st := range fieldStores(pc.P, f) {
		n++
		for _, F := range pc.a.framesOf(st.Parent()) {
			k, s, w := pc.nameParts(VC{F, st.Val}, depth)
			if !k {
				return false, false, w
			}
			solid = solid && s
		}
	}
	if n == 0 {
		return false, false, "nothing is known about the field " + f
	}
	return
}

// fieldStores: all stores to a field of a structure of the tool (by name).
func fieldStores(P *Prog, f string) []*ssa.Store {
	var out []*ssa.Store
	for _, fn := range P.Funcs {
		if !P.InCLI(fn) {
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isCLIStruct(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == f {
					out = append(out, st)
				}
			}
		})
	}
	return out
}

// framesOf: the frames of a function that were seen (or a frame without context).
func (a *AI) framesOf(fn *ssa.Function) []*Frame {
	var out []*Frame
	for _, f := range a.frames {
		if f.Fn == fn && f.Up != nil {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		out = append(out, a.Root(fn))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func checkC33(P *Prog, r *Result) {
	r.Rule("location", "every file that is opened for writing is the given output path itself, or lies directly in it under a base name", 1)
	r.Rule("directories", "the only directories that are created are the output directory or the directory of the output file", 1)
	r.Rule("no-other", "no other operation of the tool writes to the file system", 1)
	ft := fieldsOf(flagTable(P))
	out := ft["output"]
	sc := &cliScen{ft: ft}
	a, root := newCLI(P, sc)
	if a == nil || out == "" {
		r.Bad("no-other", "main", "", "the main function of the tool, or its output setting, was not found")
		return
	}
	pc := newPathCtx(P, a, out)
	a.walkCalls(root, func(*Frame, ssa.CallInstruction) {})
	seen := map[string]bool{}
	handled := map[ssa.Instruction]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		c := site.Common()
		n := calleeName(c)
		in := site.(ssa.Instruction)
		switch n {
		case "os.OpenFile":
			handled[in] = true
			if is, ok := a.Eval(VC{F, c.Args[1]}).intConsts(); ok {
				write := false
				for _, m := range is {
					if m&3 != 0 || m&0x240 != 0 {
						write = true
					}
				}
				if !write {
					return
				}
			}
			l, why := pc.location(VC{F, c.Args[0]}, 8)
			key := "os.OpenFile in " + fkey(F.Fn)
			if F.Up != nil {
				key += " called from " + fkey(F.Up.Fn)
			}
			if seen[key+l] {
				return
			}
			seen[key+l] = true
			good := l == "out" || l == "below" || l == "out/below" || l == "below/out"
			r.Check(good, "location", key+" "+l, P.ipos(in), "%s", orElse(why, l))
		case "os.MkdirAll", "os.Mkdir":
			handled[in] = true
			l, why := pc.location(VC{F, c.Args[0]}, 8)
			key := n + " in " + fkey(F.Fn) + " " + l
			if seen[key] {
				return
			}
			seen[key] = true
			good := l != "" && !strings.Contains(l, "below")
			r.Check(good, "directories", key, P.ipos(in), "%s", orElse(why, l))
		}
	})
	for _, f := range P.Funcs {
		if !P.InCLI(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			for _, name := range extRefs(in) {
				if w := fileEffect(name); w != "" {
					r.Bad("no-other", shortName(name)+" in "+fkey(f), P.ipos(in), "%s %s", name, w)
				}
				switch name {
				case "os.OpenFile", "os.MkdirAll", "os.Mkdir":
					if !handled[in] {
						r.Bad("no-other", name+" in "+fkey(f), P.ipos(in), "this use was not analysed")
					}
				}
			}
		})
	}
	r.OK("no-other", "functions of the tool", "", "no other operation on files")
}
