package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: every loop makes progress on every way around it, and no recursion repeats its arguments.

func init() { register("C07", checkC07) }

// ---- what functions read and write ----

// effect: the kinds of memory that a function reads and writes (by field or element type).
type effect struct {
	reads, writes map[string]bool
	unknown       bool
}

type termRun struct {
	P    *Prog
	a    *AI
	sums map[*ssa.Function]*effect
	deps map[string]bool
}

func newEffect() *effect { return &effect{map[string]bool{}, map[string]bool{}, false} }

func (e *effect) merge(o *effect) {
	for k := range o.reads {
		e.reads[k] = true
	}
	for k := range o.writes {
		e.writes[k] = true
	}
	e.unknown = e.unknown || o.unknown
}

// memKey: what an address is about.
func memKey(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if al := localAlloc(x.X); al != nil {
			return fmt.Sprintf("var:%p", al)
		}
		return fieldKey(deref(x.X.Type()), x.Field)
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok && (al.Comment == "varargs" || al.Comment == "slicelit") {
			return ""
		}
		if ms, ok := x.X.(*ssa.MakeSlice); ok && onlyIndexed(ms) {
			return fmt.Sprintf("make:%p", ms)
		}
		return "elem:" + deref(x.Type()).String()
	case *ssa.Alloc:
		return fmt.Sprintf("var:%p", x)
	case *ssa.FreeVar:
		bs := boundOf(x.Parent(), x)
		if len(bs) == 1 {
			if al, ok := bs[0].(*ssa.Alloc); ok {
				return fmt.Sprintf("var:%p", al)
			}
			if _, ok := bs[0].(*ssa.FreeVar); ok {
				return memKey(bs[0])
			}
		}
		return "free:" + deref(x.Type()).String()
	case *ssa.Global:
		return "global:" + x.String()
	}
	return "mem:" + deref(addr.Type()).String()
}

// isFresh: the list is made in the function.
func isFresh(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeSlice:
			return true
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
}

// onlyIndexed: the list is only known under this name.
func onlyIndexed(ms *ssa.MakeSlice) bool {
	for _, r := range *ms.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Call:
			if n := calleeName(x.Common()); n != "builtin.len" && n != "builtin.cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func localAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		default:
			return nil
		}
	}
}

var purePkgs = []string{"strings", "bytes", "unicode", "unicode/utf8", "unicode/utf16", "strconv", "slices", "maps", "errors", "fmt", "math", "math/bits", "net/url", "path", "path/filepath", "regexp", "sync", "cmp", "html", "sort"}

// instrEffect: what one instruction reads and writes, including what it calls.
func (t *termRun) instrEffect(in ssa.Instruction, e *effect, d int) {
	switch x := in.(type) {
	case *ssa.Store:
		if k := memKey(x.Addr); k != "" {
			e.writes[k] = true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k := memKey(x.X); k != "" {
				e.reads[k] = true
			}
		}
		if x.Op == token.ARROW {
			e.unknown = true
		}
	case *ssa.MapUpdate:
		e.writes["map:"+x.Map.Type().String()] = true
	case *ssa.Lookup:
		e.reads["map:"+x.X.Type().String()] = true
	case *ssa.Next:
		e.writes["iter"] = true
	case *ssa.Send, *ssa.Select, *ssa.Go:
		e.unknown = true
	case *ssa.Range:
	case ssa.CallInstruction:
		t.callEffect(x, e, d)
	}
}

func (t *termRun) callEffect(site ssa.CallInstruction, e *effect, d int) {
	c := site.Common()
	n := calleeName(c)
	switch n {
	case "builtin.len", "builtin.cap", "builtin.append", "builtin.min", "builtin.max", "builtin.panic", "builtin.recover", "builtin.print", "builtin.println", "builtin.ssa:wrapnilchk":
		return
	case "builtin.copy", "builtin.clear":
		if d > 0 && isFresh(c.Args[0]) {
			return
		}
		e.writes["elem:"+elemType(c.Args[0].Type())] = true
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			e.writes["map:"+c.Args[0].Type().String()] = true
		}
		return
	case "builtin.delete":
		e.writes["map:"+c.Args[0].Type().String()] = true
		return
	}
	if c.StaticCallee() == nil && !c.IsInvoke() && isUnescape(c.Value.Type()) {
		return // is asked about a position in the text
	}
	cs := t.P.Callees(site)
	if len(cs) == 0 {
		if isBufCall(n) {
			e.writes["buffer"] = true
			return
		}
		e.unknown = true
		return
	}
	for _, f := range cs {
		e.merge(t.summary(f, d+1))
	}
}

func elemType(ty types.Type) string {
	if s, ok := ty.Underlying().(*types.Slice); ok {
		return s.Elem().String()
	}
	return ""
}

func isBufCall(n string) bool {
	for _, p := range []string{"(bytes.Buffer).", "(strings.Builder).", "(bufio.Writer).", "(io.Writer).", "(io.StringWriter)."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasSuffix(n, "converter.Writer).Write") || strings.HasSuffix(n, "converter.Writer).WriteString") || strings.HasSuffix(n, "converter.Writer).WriteByte") || strings.HasSuffix(n, "converter.Writer).WriteRune")
}

func (t *termRun) summary(f *ssa.Function, d int) *effect {
	if s, ok := t.sums[f]; ok {
		return s
	}
	s := newEffect()
	t.sums[f] = s
	pkg := fnPkgPath(f)
	switch {
	case isBufCall(fnName(f)):
		m := f.Name()
		if strings.HasPrefix(m, "Write") || m == "Grow" {
			s.writes["buffer"] = true
		} else if m == "Len" || m == "String" || m == "Bytes" || m == "Cap" {
			s.reads["buffer"] = true
		} else {
			s.unknown = true
		}
		return s
	case !inModule(pkg) && !thirdParty(f):
		ok := false
		for _, p := range purePkgs {
			ok = ok || pkg == p
		}
		s.unknown = !ok || strings.HasPrefix(f.Name(), "Fprint") || strings.HasPrefix(f.Name(), "Scan") || strings.HasPrefix(f.Name(), "Read")
		return s
	case f.Blocks == nil || d > 12:
		s.unknown = true
		return s
	}
	instrs(f, func(in ssa.Instruction) { t.instrEffect(in, s, d) })
	// its own variables are new in every call
	instrs(f, func(in ssa.Instruction) {
		k := ""
		switch x := in.(type) {
		case *ssa.Alloc:
			k = fmt.Sprintf("var:%p", x)
		case *ssa.MakeSlice:
			k = fmt.Sprintf("make:%p", x)
		}
		delete(s.reads, k)
		delete(s.writes, k)
	})
	return s
}

// ---- the ways around a loop ----

type path struct {
	blks  []*ssa.BasicBlock
	conds []pathCond
}

type pathCond struct {
	v     ssa.Value
	taken bool
}

// pred: the block before b on the path.
func (p *path) pred(b *ssa.BasicBlock) *ssa.BasicBlock {
	for i := 1; i < len(p.blks); i++ {
		if p.blks[i] == b {
			return p.blks[i-1]
		}
	}
	return nil
}

func (p *path) has(b *ssa.BasicBlock) bool {
	for _, x := range p.blks {
		if x == b {
			return true
		}
	}
	return false
}

const maxPaths = 4000

// paths: the ways around the loop on which no inner loop goes around; false if there are too many.
func (t *termRun) paths(F *Frame, l *loop) (out []*path, all bool) {
	fi := t.a.feasible(F)
	all = true
	steps := 0
	on := map[*ssa.BasicBlock]bool{}
	var blks []*ssa.BasicBlock
	var conds []pathCond
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		steps++
		if len(out) >= maxPaths || steps > 200000 {
			all = false
			return
		}
		on[b] = true
		blks = append(blks, b)
		defer func() {
			on[b] = false
			blks = blks[:len(blks)-1]
		}()
		cur := &path{blks: blks}
		for k, s := range b.Succs {
			if fi.dead[[2]int{b.Index, s.Index}] || !l.body[s] || s != l.head && on[s] {
				continue
			}
			n := len(conds)
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				v, taken := t.normCond(resolvePhi(cur, ifi.Cond), k == 0)
				if c, ok := v.(*ssa.Const); ok && c.Value != nil {
					if (c.Value.String() == "true") != taken {
						continue
					}
				} else {
					clash := false
					for _, x := range conds {
						clash = clash || x.taken != taken && sameExprOn(cur, x.v, v, 0) || t.excludes(cur, x, pathCond{v, taken})
					}
					if clash {
						continue
					}
					conds = append(conds, pathCond{v, taken})
				}
			}
			if s == l.head {
				out = append(out, &path{append([]*ssa.BasicBlock{}, blks...), append([]pathCond{}, conds...)})
			} else {
				visit(s)
			}
			conds = conds[:n]
		}
	}
	visit(l.head)
	return
}

// resolvePhi: the value that a phi in the middle of the path has on it.
func resolvePhi(p *path, v ssa.Value) ssa.Value {
	for n := 0; n < 10; n++ {
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() == p.blks[0] || !p.has(phi.Block()) {
			return v
		}
		q := p.pred(phi.Block())
		found := false
		for i, b := range phi.Block().Preds {
			if b == q {
				v = phi.Edges[i]
				found = true
				break
			}
		}
		if !found {
			return v
		}
	}
	return v
}

func (t *termRun) normCond(v ssa.Value, taken bool) (ssa.Value, bool) {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, taken
		}
		v, taken = u.X, !taken
	}
}

// excludes: two outcomes that cannot be at once (comparisons of the same value with constants).
func (t *termRun) excludes(p *path, x, y pathCond) bool {
	a, ok1 := x.v.(*ssa.BinOp)
	b, ok2 := y.v.(*ssa.BinOp)
	if !ok1 || !ok2 || !sameExprOn(p, a.X, b.X, 0) {
		return false
	}
	opa, opb := a.Op, b.Op
	if !x.taken {
		opa = negOp(opa)
	}
	if !y.taken {
		opb = negOp(opb)
	}
	if sameExprOn(p, a.Y, b.Y, 0) {
		ok := map[token.Token]int{token.LSS: 1, token.EQL: 2, token.GTR: 4, token.LEQ: 3, token.GEQ: 6, token.NEQ: 5}
		return ok[opa]&ok[opb] == 0
	}
	ca, ok1 := a.Y.(*ssa.Const)
	cb, ok2 := b.Y.(*ssa.Const)
	return ok1 && ok2 && opa == token.EQL && opb == token.EQL && ca.Value != nil && cb.Value != nil && ca.Value.ExactString() != cb.Value.ExactString()
}

// sameExpr: the same computation.
func sameExpr(x, y ssa.Value, d int) bool { return sameExprOn(nil, x, y, d) }

// sameExprOn: on the path.
func sameExprOn(p *path, x, y ssa.Value, d int) bool {
	if p != nil {
		x, y = resolvePhi(p, x), resolvePhi(p, y)
	}
	if x == y {
		return true
	}
	if d > 6 {
		return false
	}
	switch a := x.(type) {
	case *ssa.Const:
		b, ok := y.(*ssa.Const)
		return ok && (a.Value == nil) == (b.Value == nil) && (a.Value == nil || a.Value.ExactString() == b.Value.ExactString())
	case *ssa.BinOp:
		b, ok := y.(*ssa.BinOp)
		return ok && a.Op == b.Op && sameExprOn(p, a.X, b.X, d+1) && sameExprOn(p, a.Y, b.Y, d+1)
	case *ssa.UnOp:
		b, ok := y.(*ssa.UnOp)
		return ok && a.Op == b.Op && sameExprOn(p, a.X, b.X, d+1)
	case *ssa.FieldAddr:
		b, ok := y.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameExprOn(p, a.X, b.X, d+1)
	case *ssa.Field:
		b, ok := y.(*ssa.Field)
		return ok && a.Field == b.Field && sameExprOn(p, a.X, b.X, d+1)
	case *ssa.IndexAddr:
		b, ok := y.(*ssa.IndexAddr)
		return ok && sameExprOn(p, a.X, b.X, d+1) && sameExprOn(p, a.Index, b.Index, d+1)
	case *ssa.Lookup:
		b, ok := y.(*ssa.Lookup)
		return ok && sameExprOn(p, a.X, b.X, d+1) && sameExprOn(p, a.Index, b.Index, d+1)
	case *ssa.Slice:
		b, ok := y.(*ssa.Slice)
		opt := func(u, q ssa.Value) bool {
			if u == nil || q == nil {
				return u == nil && q == nil
			}
			return sameExprOn(p, u, q, d+1)
		}
		return ok && sameExprOn(p, a.X, b.X, d+1) && opt(a.Low, b.Low) && opt(a.High, b.High)
	case *ssa.Convert:
		b, ok := y.(*ssa.Convert)
		return ok && types.Identical(a.Type(), b.Type()) && sameExprOn(p, a.X, b.X, d+1)
	case *ssa.Extract:
		b, ok := y.(*ssa.Extract)
		return ok && a.Index == b.Index && sameExprOn(p, a.Tuple, b.Tuple, d+1)
	case *ssa.Call:
		b, ok := y.(*ssa.Call)
		if !ok || calleeName(a.Common()) != calleeName(b.Common()) || len(a.Call.Args) != len(b.Call.Args) || a.Call.StaticCallee() == nil && !strings.HasPrefix(calleeName(a.Common()), "builtin.") && !sameExprOn(p, a.Call.Value, b.Call.Value, d+1) {
			return false
		}
		for i := range a.Call.Args {
			if !sameExprOn(p, a.Call.Args[i], b.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// next: what a value is at the end of a way around the loop, as a step from a header phi.
type next struct {
	base   *ssa.Phi // nil: something else
	lo, hi int64    // the step
	known  [2]bool  // are the limits of the step known
	inv    bool     // the value does not depend on the round
	dir    string   // for nodes: F(orward), B(ackward), U(p), ?
}

func (n next) same(p *ssa.Phi) bool {
	return n.base == p && n.known[0] && n.known[1] && n.lo == 0 && n.hi == 0 && n.dir == ""
}

func (t *termRun) eval(F *Frame, l *loop, p *path, v ssa.Value, d int) next {
	v = resolvePhi(p, v)
	if d > 20 {
		return next{}
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || in.Block() == nil || !l.body[in.Block()] {
		return next{inv: true}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.head {
			return next{base: x, known: [2]bool{true, true}}
		}
	case *ssa.ChangeType:
		return t.eval(F, l, p, x.X, d+1)
	case *ssa.Convert:
		if isInteger(x.Type()) && isInteger(x.X.Type()) {
			return t.eval(F, l, p, x.X, d+1)
		}
	case *ssa.Slice:
		if x.High == nil && x.Max == nil && (x.Low == nil || isIntConst(x.Low, 0)) {
			return t.eval(F, l, p, x.X, d+1)
		}
	case *ssa.BinOp:
		if (x.Op == token.ADD || x.Op == token.SUB) && isInteger(x.Type()) {
			n := t.eval(F, l, p, x.X, d+1)
			o := x.Y
			if n.base == nil && x.Op == token.ADD {
				if m := t.eval(F, l, p, x.Y, d+1); m.base != nil {
					n, o = m, x.X
				}
			}
			if n.base == nil {
				return next{}
			}
			lo, hi, k := t.limits(F, p, o, 0)
			if x.Op == token.SUB {
				lo, hi, k = -hi, -lo, [2]bool{k[1], k[0]}
			}
			return next{base: n.base, lo: n.lo + lo, hi: n.hi + hi, known: [2]bool{n.known[0] && k[0], n.known[1] && k[1]}}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && isHTMLNode(x.Type()) {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				n := t.eval(F, l, p, fa.X, d+1)
				if n.base == nil {
					return next{}
				}
				n.dir = addDir(n.dir, fieldName(fa.X.Type(), fa.Field))
				return n
			}
		}
	case *ssa.Call:
		name := calleeName(x.Common())
		if isHTMLNode(x.Type()) && len(x.Call.Args) == 1 && isHTMLNode(x.Call.Args[0].Type()) {
			n := t.eval(F, l, p, x.Call.Args[0], d+1)
			if n.base == nil {
				return next{}
			}
			m := name[strings.LastIndex(name, ".")+1:]
			switch {
			case strings.HasPrefix(m, "GetNextNeighbor"):
				n.dir = addDir(n.dir, ".NextSibling")
			case strings.HasPrefix(m, "GetPrevNeighbor"):
				n.dir = addDir(n.dir, ".PrevSibling")
			default:
				n.dir = "?"
			}
			return n
		}
	}
	return next{}
}

func addDir(d, field string) string {
	s := map[string]string{".NextSibling": "F", ".FirstChild": "F", ".LastChild": "B", ".PrevSibling": "B", ".Parent": "U"}[field]
	if s == "" || d != "" && d != s {
		return "?"
	}
	return s
}

// limits: the smallest and the largest value of a number on the path.
func (t *termRun) limits(F *Frame, p *path, v ssa.Value, d int) (lo, hi int64, known [2]bool) {
	v = resolvePhi(p, v)
	if ns, ok := t.a.Eval(VC{F, v}).intConsts(); ok && len(ns) > 0 {
		ns = t.possible(p, v, ns)
		if len(ns) > 0 {
			return minInt(ns), maxInt(ns), [2]bool{true, true}
		}
	}
	if d > 8 {
		return
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return
		}
		l1, h1, k1 := t.limits(F, p, x.X, d+1)
		l2, h2, k2 := t.limits(F, p, x.Y, d+1)
		if x.Op == token.SUB {
			l2, h2, k2 = -h2, -l2, [2]bool{k2[1], k2[0]}
		}
		return l1 + l2, h1 + h2, [2]bool{k1[0] && k2[0], k1[1] && k2[1]}
	case *ssa.Call:
		// what the handlers for the escaping return: -1 or a positive number
		if cs, ok := t.unescaped(F, x, 0); ok {
			cs = t.possible(p, v, append(cs, 1, 1<<30))
			if len(cs) > 0 {
				return minInt(cs), maxInt(cs), [2]bool{true, maxInt(cs) < 1<<30}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && strings.HasPrefix(calleeName(c.Common()), "unicode/utf8.Decode") && x.Index == 1 {
			return 1, 4, [2]bool{true, true} // the text is not empty
		}
	}
	return
}

// possible: the values that the conditions of the path allow.
func (t *termRun) possible(p *path, v ssa.Value, ns []int64) []int64 {
	var out []int64
	for _, n := range ns {
		ok := true
		for _, c := range p.conds {
			b, isB := c.v.(*ssa.BinOp)
			if !isB || resolvePhi(p, b.X) != v {
				continue
			}
			k, isC := b.Y.(*ssa.Const)
			if !isC || k.Value == nil || !isInteger(k.Type()) {
				continue
			}
			m := k.Int64()
			r, known := map[token.Token]bool{token.EQL: n == m, token.NEQ: n != m, token.LSS: n < m, token.LEQ: n <= m, token.GTR: n > m, token.GEQ: n >= m}[b.Op]
			if known && r != c.taken {
				ok = false
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	return out
}

// isUnescape: the type of the handlers that recognise markdown.
func isUnescape(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 1 && isStrBytes(s.Params().At(0).Type()) && isInteger(s.Params().At(1).Type()) && isInteger(s.Results().At(0).Type())
}

// unescaped: the call returns what such a handler returned, or one of the constants.
func (t *termRun) unescaped(F *Frame, c *ssa.Call, d int) (cs []int64, ok bool) {
	if c.Call.StaticCallee() == nil && isUnescape(c.Call.Value.Type()) {
		return []int64{-1}, true
	}
	frs, complete := t.a.calleeFrames(F, c)
	if !complete || len(frs) == 0 || d > 3 {
		return nil, false
	}
	for _, fr := range frs {
		for _, rs := range t.a.returnSites(fr, 0) {
			if ns, isC := t.a.Eval(rs.VC).intConsts(); isC {
				cs = append(cs, ns...)
				continue
			}
			x, isCall := rs.VC.V.(*ssa.Call)
			if !isCall {
				return nil, false
			}
			ns, isU := t.unescaped(rs.VC.F, x, d+1)
			if !isU {
				return nil, false
			}
			ok = true
			cs = append(cs, ns...)
		}
	}
	return cs, ok
}

// depends: the header phis that decide whether the path is taken, and the values of these at its end.
func depends(l *loop, p *path) (out map[*ssa.Phi]bool, seen map[ssa.Value]bool) {
	out = map[*ssa.Phi]bool{}
	seen = map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		v = resolvePhi(p, v)
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || !l.body[in.Block()] {
			return
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.head {
			out[phi] = true
			for i, b := range l.head.Preds {
				if b == p.blks[len(p.blks)-1] {
					visit(phi.Edges[i])
				}
			}
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				visit(*op)
			}
		}
	}
	for _, c := range p.conds {
		visit(c.v)
	}
	return
}

// changes: the path can change what its conditions, and what they depend on, read.
func (t *termRun) changes(p *path, used map[ssa.Value]bool) bool {
	all := newEffect()
	for v := range used {
		if in, ok := v.(ssa.Instruction); ok {
			t.instrEffect(in, all, 0)
		}
	}
	on := newEffect()
	for _, b := range p.blks {
		for _, in := range b.Instrs {
			t.instrEffect(in, on, 0)
		}
	}
	return on.unknown || on.writes["iter"] || on.hits(all)
}

// hits: something is written that the other one reads.
func (e *effect) hits(o *effect) bool {
	vague := func(k string) bool { return strings.HasPrefix(k, "mem:") || strings.HasPrefix(k, "free:") }
	for k := range e.writes {
		if o.reads[k] || vague(k) && len(o.reads) > 0 {
			return true
		}
	}
	for k := range o.reads {
		if vague(k) && len(e.writes) > 0 {
			return true
		}
	}
	return false
}

// invariant: the value is the same in every round.
func invariant(l *loop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !l.body[in.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		return calleeName(x.Common()) == "builtin.len" && invariant(l, x.Call.Args[0])
	case *ssa.BinOp:
		return invariant(l, x.X) && invariant(l, x.Y)
	case *ssa.Convert:
		return invariant(l, x.X)
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		return ok && x.Op == token.MUL && setOnce(al, l)
	}
	return false
}

// setOnce: the variable is not changed in the loop or by a closure.
func setOnce(v ssa.Value, l *loop) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != v || l == nil || l.body[x.Block()] {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !setOnce(x.Fn.(*ssa.Function).FreeVars[i], nil) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// stuck: why the loop may not end.
func (t *termRun) stuck(F *Frame, l *loop) (why string, at ssa.Instruction, n int, all bool) {
	ps, all := t.paths(F, l)
	dirs := map[string]ssa.Instruction{}
	quiet := true
	for _, p := range ps {
		n++
		latch := p.blks[len(p.blks)-1]
		edge := -1
		for i, b := range l.head.Preds {
			if b == latch {
				edge = i
			}
		}
		deps, used := depends(l, p)
		changes := t.changes(p, used)
		still := true
		var moved *ssa.Phi
		var mv next
		for phi := range deps {
			x := t.eval(F, l, p, phi.Edges[edge], 0)
			if !x.same(phi) && !t.stays(F, l, p, phi, x) {
				if !still {
					moved = nil
				} else {
					moved, mv = phi, x
				}
				still = false
			}
		}
		last := lastPos(p)
		if still {
			if !changes {
				return "there is a way around the loop on which nothing changes", last, n, all
			}
			continue
		}
		if moved == nil {
			continue
		}
		if mv.base == moved && isHTMLNode(moved.Type()) && mv.dir != "" {
			if changes {
				quiet = false
			}
			if mv.dir != "?" {
				dirs[mv.dir] = last
			} else {
				quiet = false
			}
		}
		if mv.base == moved && isInteger(moved.Type()) && !changes {
			for _, c := range p.conds {
				b, ok := c.v.(*ssa.BinOp)
				if !ok || !t.exits(l, p, b) {
					continue
				}
				x, y, op := b.X, b.Y, b.Op
				if !c.taken {
					op = negOp(op)
				}
				if i := t.eval(F, l, p, y, 0); i.base == moved {
					x, y = y, x
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
				}
				if i := t.eval(F, l, p, x, 0); i.base != moved || !invariant(l, y) {
					continue
				}
				switch op {
				case token.LSS, token.LEQ:
					if mv.known[0] && mv.lo <= 0 || mv.known[1] && mv.hi <= 0 {
						return "there is a way around the loop on which the counter does not come closer to its end", last, n, all
					}
				case token.GTR, token.GEQ:
					if mv.known[1] && mv.hi >= 0 || mv.known[0] && mv.lo >= 0 {
						return "there is a way around the loop on which the counter does not come closer to its end", last, n, all
					}
				}
			}
		}
		if s := t.regrows(F, l, p, moved, moved.Edges[edge]); s != "" {
			return s, last, n, all
		}
	}
	if quiet && len(dirs) > 1 {
		var ks []string
		for k := range dirs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if !(len(ks) == 1) {
			return "the loop goes through the tree in more than one direction", dirs[ks[0]], n, all
		}
	}
	return "", nil, n, all
}

// stays: the number only goes on in a direction in which the conditions of the path still hold.
func (t *termRun) stays(F *Frame, l *loop, p *path, phi *ssa.Phi, n next) bool {
	if n.base != phi || !isInteger(phi.Type()) {
		return false
	}
	up, down := n.known[0] && n.lo >= 0, n.known[1] && n.hi <= 0
	if !up && !down {
		return false
	}
	some := false
	for _, c := range p.conds {
		if !dependsOn(l, p, c.v, phi) {
			continue
		}
		b, ok := c.v.(*ssa.BinOp)
		if !ok || !invariant(l, b.Y) {
			return false
		}
		if i := t.eval(F, l, p, b.X, 0); i.base != phi {
			return false
		}
		op := b.Op
		if !c.taken {
			op = negOp(op)
		}
		if !(up && (op == token.GTR || op == token.GEQ) || down && (op == token.LSS || op == token.LEQ)) {
			return false
		}
		some = true
	}
	if !some {
		return false
	}
	// nothing else is computed from it
	for _, in := range l.head.Instrs {
		q, ok := in.(*ssa.Phi)
		if !ok || q == phi {
			continue
		}
		for i, b := range l.head.Preds {
			if b == p.blks[len(p.blks)-1] && dependsOn(l, p, q.Edges[i], phi) {
				return false
			}
		}
	}
	return true
}

// dependsOn: the value is computed from the phi in the same round.
func dependsOn(l *loop, p *path, v ssa.Value, phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		v = resolvePhi(p, v)
		if v == ssa.Value(phi) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || !l.body[in.Block()] || in.Block() == l.head && isPhi(v) {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

// exits: one of the outcomes of the condition leaves the loop.
func (t *termRun) exits(l *loop, p *path, b *ssa.BinOp) bool {
	for _, x := range p.blks {
		ifi, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v, _ := t.normCond(resolvePhi(p, ifi.Cond), true)
		if v == ssa.Value(b) && (!l.body[x.Succs[0]] || !l.body[x.Succs[1]]) {
			return true
		}
	}
	return false
}

func lastPos(p *path) ssa.Instruction {
	for i := len(p.blks) - 1; i >= 0; i-- {
		for j := len(p.blks[i].Instrs) - 1; j >= 0; j-- {
			if in := p.blks[i].Instrs[j]; in.Pos().IsValid() {
				return in
			}
		}
	}
	return p.blks[0].Instrs[0]
}

// regrows: the text is looked through for something that its replacement contains again.
func (t *termRun) regrows(F *Frame, l *loop, p *path, phi *ssa.Phi, v ssa.Value) string {
	c, ok := resolvePhi(p, v).(*ssa.Call)
	if !ok {
		return ""
	}
	n := calleeName(c.Common())
	if n != "strings.ReplaceAll" && n != "bytes.ReplaceAll" && n != "strings.Replace" && n != "bytes.Replace" || resolvePhi(p, c.Call.Args[0]) != ssa.Value(phi) {
		return ""
	}
	olds, ok1 := t.a.Eval(VC{F, c.Call.Args[1]}).strConsts()
	news, ok2 := t.a.Eval(VC{F, c.Call.Args[2]}).strConsts()
	if !ok1 || !ok2 || len(olds) != 1 || len(news) != 1 {
		return ""
	}
	for _, x := range p.conds {
		k, ok := x.v.(*ssa.Call)
		if !ok || !x.taken || !strings.HasSuffix(calleeName(k.Common()), ".Contains") || resolvePhi(p, k.Call.Args[0]) != ssa.Value(phi) {
			continue
		}
		ws, ok := t.a.Eval(VC{F, k.Call.Args[1]}).strConsts()
		if !ok || len(ws) != 1 {
			continue
		}
		if strings.Contains(news[0], ws[0]) {
			return fmt.Sprintf("the text is replaced as long as it contains %q, but the replacement %q contains it", ws[0], news[0])
		}
		if !strings.Contains(ws[0], olds[0]) && news[0] == olds[0] {
			return "the replacement does not change the text"
		}
	}
	return ""
}
