package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C26: tables are rectangular and every row is one line ----

func init() { register("C26", checkC26) }

// A tableRun follows the cells of a table from where they are rendered to where they are written.
type tableRun struct {
	c       *rcase
	a       *AI
	base    func(a *AI, o Org) (AVal, bool)
	try     string
	frames  []*Frame
	tok     string
	reached map[VC]map[VC]bool
	clean1  map[VC]int // 1: being looked at, 2: clean, 3: not
	good    map[*Frame]map[*ssa.BasicBlock]bool
	points  map[*Frame]map[ssa.Instruction]bool
	cov     map[*Frame]int
	decl    map[string]int
	why     string
	whyPos  string
}

func isCells(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Slice)
	if !ok || isStrBytes(ty) {
		return false
	}
	return isStrBytes(s.Elem())
}

func isRows(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Slice)
	return ok && !isStrBytes(ty) && isCells(s.Elem())
}

// elemOf: the value is an element of a list.
func elemOf(v ssa.Value) *ssa.IndexAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, _ := u.X.(*ssa.IndexAddr)
	return ia
}

// addition: a text that becomes a cell.
type addition struct {
	vc VC
	in ssa.Instruction
}

// additions: what the cells of a list (or of a list of lists) can be. Elements that are taken from another list of
// cells are followed.
func (t *tableRun) additions(list VC) (out []addition, known bool) {
	out, known, _ = t.lookUp(list, true)
	return
}

// reach: the lists that a list can be.
func (t *tableRun) reach(list VC) map[VC]bool {
	if m, ok := t.reached[list]; ok {
		return m
	}
	_, _, m := t.lookUp(list, false)
	t.reached[list] = m
	return m
}

func (t *tableRun) lookUp(list VC, place bool) (out []addition, known bool, seen map[VC]bool) {
	a := t.a
	seen = map[VC]bool{}
	known = true
	have := map[VC]bool{}
	add := func(vc VC, in ssa.Instruction) {
		if !have[vc] {
			have[vc] = true
			out = append(out, addition{vc, in})
		}
	}
	var cont func(vc VC)
	elem := func(vc VC, in ssa.Instruction) {
		if isStrBytes(vc.V.Type()) {
			add(vc, in)
		} else {
			cont(vc)
		}
	}
	// stores to the elements of a list that is made here
	inPlace := func(made VC) {
		if !place {
			return
		}
		for _, F := range t.frames {
			fi := a.feasible(F)
			for _, b := range F.Fn.Blocks {
				if !fi.live[b.Index] {
					continue
				}
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && (isCells(ia.X.Type()) || isRows(ia.X.Type())) && t.reach(VC{F, ia.X})[made] {
							elem(VC{F, st.Val}, in)
						}
					}
				}
			}
		}
	}
	cont = func(vc VC) {
		if seen[vc] {
			return
		}
		seen[vc] = true
		F := vc.F
		switch x := vc.V.(type) {
		case *ssa.Const:
			return
		case *ssa.MakeSlice:
			inPlace(vc)
			return
		case *ssa.Slice:
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
				cont(VC{F, x.X})
				return
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							elem(VC{F, st.Val}, st)
						}
					}
				}
				inPlace(vc)
				return
			}
		case *ssa.Call:
			args := x.Call.Args
			n := genericName(calleeName(x.Common()))
			switch n {
			case "builtin.append", "slices.Insert", "slices.Concat", "slices.Replace", "slices.AppendSeq":
				for _, g := range args {
					if isCells(g.Type()) || isRows(g.Type()) {
						cont(VC{F, g})
					}
				}
				return
			case "slices.Delete", "slices.DeleteFunc", "slices.Clone", "slices.Grow", "slices.Clip", "slices.Compact", "slices.Repeat":
				cont(VC{F, args[0]})
				return
			}
		}
		if ia := elemOf(vc.V); ia != nil {
			if _, isPtr := ia.X.Type().Underlying().(*types.Pointer); !isPtr {
				cont(VC{F, ia.X})
				return
			}
		}
		if ss := a.step(vc); len(ss) > 0 {
			for _, s := range ss {
				cont(s)
			}
			return
		}
		if os := a.values(vc); len(os) > 0 {
			ok := true
			for _, o := range os {
				ok = ok && o.Path == "" && o.VC != vc
			}
			if ok {
				for _, o := range os {
					cont(o.VC)
				}
				return
			}
			// a field of an element of a list
			if vs := t.fieldStores(os, vc); len(vs) > 0 {
				for _, v := range vs {
					cont(v)
				}
				return
			}
		}
		known = false
	}
	cont(list)
	sort.SliceStable(out, func(i, j int) bool { return out[i].vc.V.Pos() < out[j].vc.V.Pos() })
	return
}

// fieldStores: what is stored into a field of a struct of this type (anywhere).
func (t *tableRun) fieldStores(os []Org, vc VC) []VC {
	name := ""
	for _, o := range os {
		if i := strings.LastIndex(o.Path, "."); i >= 0 {
			name = o.Path[i:]
		}
	}
	var st types.Type
	switch x := vc.V.(type) {
	case *ssa.Field:
		st = x.X.Type()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			st = deref(fa.X.Type())
		}
	}
	if name == "" || st == nil {
		return nil
	}
	var out []VC
	for _, F := range t.frames {
		instrs(F.Fn, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), st) && fieldName(fa.X.Type(), fa.Field) == name {
					out = append(out, VC{F, s.Val})
				}
			}
		})
	}
	return out
}

// isTok: the value is the text (or the character) that ends a line.
func (t *tableRun) isTok(vc VC) bool {
	v := t.a.Eval(vc)
	if ss, ok := v.strConsts(); ok && len(ss) == 1 {
		return ss[0] == t.tok
	}
	if ns, ok := v.intConsts(); ok && len(ns) == 1 {
		return len(t.tok) == 1 && ns[0] == int64(t.tok[0]) || string(rune(ns[0])) == t.tok
	}
	return false
}

// clean: the text has no line break. What is read from a list of cells is judged where it is put into the list.
func (t *tableRun) clean(vc VC) bool {
	switch t.clean1[vc] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	t.clean1[vc] = 1
	ok := t.clean0(vc)
	t.clean1[vc] = 3
	if ok {
		t.clean1[vc] = 2
	}
	return ok
}

func (t *tableRun) clean0(vc VC) bool {
	a := t.a
	v := a.Eval(vc)
	if ss, ok := v.strConsts(); ok {
		for _, s := range ss {
			if strings.Contains(s, t.tok) {
				return false
			}
		}
		return true
	}
	if !v.Top && v.Str && !v.B.has(t.tok[0]) {
		return true
	}
	if emptyLeaf(vc.V) {
		return true
	}
	F := vc.F
	switch x := vc.V.(type) {
	case *ssa.Call:
		args := x.Call.Args
		n := calleeName(x.Common())
		if strings.HasPrefix(n, "bytes.") {
			n = "strings." + n[6:]
		}
		switch n {
		case "strings.ReplaceAll", "strings.Replace":
			if n == "strings.Replace" {
				if ns, ok := a.Eval(VC{F, args[3]}).intConsts(); !ok || len(ns) != 1 || ns[0] >= 0 {
					return t.clean(VC{F, args[0]})
				}
			}
			if !t.clean(VC{F, args[2]}) {
				return false
			}
			return t.isTok(VC{F, args[1]}) || t.clean(VC{F, args[0]})
		case "strings.Trim", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Clone", "strings.ToLower", "strings.ToUpper":
			return t.clean(VC{F, args[0]})
		case "strings.Join":
			if isCells(args[0].Type()) && t.clean(VC{F, args[1]}) {
				return t.splitTok(VC{F, args[0]}) || t.cleanList(VC{F, args[0]})
			}
			return false
		}
	case *ssa.Slice:
		if isStrBytes(x.X.Type()) {
			return t.clean(VC{F, x.X})
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return t.clean(VC{F, x.X}) && t.clean(VC{F, x.Y})
		}
	}
	if ia := elemOf(vc.V); ia != nil && isCells(ia.X.Type()) {
		return t.cleanList(VC{F, ia.X})
	}
	if ss := a.step(vc); len(ss) > 0 {
		for _, s := range ss {
			if !t.clean(s) {
				return false
			}
		}
		return true
	}
	os := a.values(vc)
	if vs := t.fieldStores(os, vc); len(vs) > 0 {
		for _, s := range vs {
			if !t.clean(s) {
				return false
			}
		}
		return true
	}
	if len(os) > 0 {
		for _, o := range os {
			if o.Path != "" || o.VC == vc || !t.clean(o.VC) {
				return false
			}
		}
		return true
	}
	return false
}

// splitTok: the list has the parts of a text that was split at the line breaks.
func (t *tableRun) splitTok(vc VC) bool {
	for _, o := range t.a.values(vc) {
		c, ok := o.V.(*ssa.Call)
		if !ok || o.Path != "" {
			return false
		}
		switch calleeName(c.Common()) {
		case "bytes.Split", "strings.Split":
			if !t.isTok(VC{o.F, c.Call.Args[1]}) || rewritten(c) {
				return false
			}
		case "bytes.Fields", "strings.Fields":
			if t.tok != "\n" || rewritten(c) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (t *tableRun) cleanList(vc VC) bool {
	adds, known := t.additions(vc)
	if !known {
		return false
	}
	for _, ad := range adds {
		if !t.clean(ad.vc) {
			return false
		}
	}
	return true
}

// ---- paths ----

type penv map[ssa.Value]string // constants that are known on this path

func (e penv) key() string {
	var out []string
	for v, s := range e {
		out = append(out, fmt.Sprintf("%p=%s", v, s))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func (e penv) with(v ssa.Value, s string) penv {
	n := penv{}
	for k, x := range e {
		n[k] = x
	}
	if s == "" {
		delete(n, v)
	} else {
		n[v] = s
	}
	return n
}

// known: the constant that a value is on this path ("" = not known).
func (t *tableRun) known(F *Frame, v ssa.Value, env penv) string {
	if s, ok := env[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constKey(x.Value)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch t.known(F, x.X, env) {
			case "true":
				return "false"
			case "false":
				return "true"
			}
			return ""
		}
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeClosure:
		if _, ok := v.Type().Underlying().(*types.Pointer); ok {
			return "nonnil"
		}
	case *ssa.ChangeType:
		return t.known(F, x.X, env)
	case *ssa.Call:
		if calleeName(x.Common()) == "builtin.len" && t.known(F, x.Call.Args[0], env) == "nil" {
			return "0"
		}
	case *ssa.BinOp:
		l, r := t.known(F, x.X, env), t.known(F, x.Y, env)
		if l != "" && r != "" && (x.Op == token.EQL || x.Op == token.NEQ) {
			return fmt.Sprint((l == r) == (x.Op == token.EQL))
		}
		if l == "0" && isLenCall(x.X) && r != "" {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				switch x.Op {
				case token.LSS:
					return fmt.Sprint(0 < c.Int64())
				case token.LEQ:
					return fmt.Sprint(0 <= c.Int64())
				case token.GTR:
					return fmt.Sprint(0 > c.Int64())
				case token.GEQ:
					return fmt.Sprint(0 >= c.Int64())
				}
			}
		}
	}
	if isBoolType(v.Type()) {
		if tr, fa := t.a.Eval(VC{F, v}).mayBool(); tr != fa {
			return fmt.Sprint(tr)
		}
	}
	return ""
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && calleeName(c.Common()) == "builtin.len"
}

type pathEnd struct {
	ret  *ssa.Return
	from *ssa.BasicBlock // the path was stopped at this edge
	to   *ssa.BasicBlock
	env  penv
}

// paths follows all paths from an instruction (from the start of the block, if i is 0) until they return, or until
// stop or edge say that they end.
func (t *tableRun) paths(F *Frame, b *ssa.BasicBlock, i int, env penv, stop func(in ssa.Instruction) bool, edge func(from, to *ssa.BasicBlock, taken int) bool) []pathEnd {
	var out []pathEnd
	fi := t.a.feasible(F)
	type item struct {
		b   *ssa.BasicBlock
		i   int
		env penv
	}
	seen := map[string]bool{}
	have := map[string]bool{}
	add := func(e pathEnd) {
		k := fmt.Sprintf("%p|%p|%p|%s", e.ret, e.from, e.to, e.env.key())
		if !have[k] {
			have[k] = true
			out = append(out, e)
		}
	}
	work := []item{{b, i, env}}
	for len(work) > 0 && len(seen) < 3000 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprintf("%d|%d|%s", it.b.Index, it.i, it.env.key())
		if seen[k] {
			continue
		}
		seen[k] = true
		stopped := false
		env := it.env
		for n, in := range it.b.Instrs {
			if n < it.i {
				continue
			}
			if stop != nil && stop(in) {
				stopped = true
				break
			}
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); !isPhi {
					if _, ok := env[v]; ok {
						env = env.with(v, "") // computed anew
					}
				}
			}
			if r, ok := in.(*ssa.Return); ok {
				add(pathEnd{ret: r, env: env})
			}
		}
		if stopped {
			continue
		}
		ifi, isIf := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If)
		for si, s := range it.b.Succs {
			if fi.dead[[2]int{it.b.Index, s.Index}] {
				continue
			}
			if isIf && it.b.Succs[0] != it.b.Succs[1] {
				if k := t.known(F, ifi.Cond, env); k != "" && k != fmt.Sprint(si == 0) {
					continue
				}
			}
			idx := 0
			for pi, p := range s.Preds {
				if p == it.b {
					idx = pi
				}
			}
			nenv := env
			set := map[ssa.Value]string{}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				_, isPtr := phi.Type().Underlying().(*types.Pointer)
				_, isSl := phi.Type().Underlying().(*types.Slice)
				if isBoolType(phi.Type()) || isPtr || isSl || isNamed(phi.Type(), modPath+"/converter", "RenderStatus") {
					set[phi] = t.known(F, phi.Edges[idx], env)
				}
			}
			for v, c := range set {
				nenv = nenv.with(v, c)
			}
			if edge != nil && edge(it.b, s, si) {
				add(pathEnd{from: it.b, to: s, env: nenv})
				continue
			}
			work = append(work, item{s, 0, nenv})
		}
	}
	return out
}

// declines: this return leads to the next renderer instead of a table.
func (t *tableRun) declines(F *Frame, e pathEnd) bool {
	if F == t.c.F {
		k := t.known(F, e.ret.Results[0], e.env)
		if k != "" {
			return k == t.try
		}
		v := t.a.Eval(VC{F, e.ret.Results[0]})
		if v.Top || len(v.Consts) == 0 {
			return false
		}
		for _, c := range v.Consts {
			if constKey(c) != t.try {
				return false
			}
		}
		return true
	}
	if F.Up == nil || F.Site == nil {
		return false
	}
	call, ok := F.Site.(*ssa.Call)
	if !ok {
		return false
	}
	var ks []string
	any := false
	for _, x := range e.ret.Results {
		k := t.known(F, x, e.env)
		ks = append(ks, k)
		any = any || k != ""
	}
	if !any {
		return false
	}
	key := fmt.Sprintf("%p|%s", F, strings.Join(ks, ","))
	switch t.decl[key] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	t.decl[key] = 1
	env := penv{}
	if len(ks) == 1 {
		env = env.with(call, ks[0])
	} else {
		for _, ref := range *call.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ks[ex.Index] != "" {
				env = env.with(ex, ks[ex.Index])
			}
		}
	}
	good := t.allDecline(F.Up, call, env)
	t.decl[key] = 3
	if good {
		t.decl[key] = 2
	}
	return good
}

// allDecline: every path from behind the instruction declines the table.
func (t *tableRun) allDecline(F *Frame, in ssa.Instruction, env penv) bool {
	i := 0
	for n, x := range in.Block().Instrs {
		if x == in {
			i = n + 1
		}
	}
	// the extracts are not computed anew
	keep := env
	for n := i; n < len(in.Block().Instrs); n++ {
		if ex, ok := in.Block().Instrs[n].(*ssa.Extract); ok && ssa.Value(ex.Tuple) == in.(ssa.Value) {
			i = n + 1
		}
	}
	ends := t.paths(F, in.Block(), i, keep, nil, nil)
	for _, e := range ends {
		if e.ret == nil || !t.declines(F, e) {
			return false
		}
	}
	return true
}

// ---- the check for line breaks ----

// A lineTest is a test whether a cell (or one of the cells of a row) has a line break.
type lineTest struct {
	F    *Frame
	call *ssa.Call
	v    AVal // what it gives if there is one
	G    *Frame
	ia   *ssa.IndexAddr // the element of the list that is tested, in G
	l    *loop
}

// found: the answer of a library function when the text has the line break.
func (t *tableRun) found(F *Frame, c *ssa.Call) (x VC, v AVal, ok bool) {
	n := calleeName(c.Common())
	if strings.HasPrefix(n, "bytes.") {
		n = "strings." + n[6:]
	}
	args := c.Call.Args
	if len(args) < 2 || !strings.HasPrefix(n, "strings.") {
		return
	}
	x = VC{F, args[0]}
	pos := joinV(intConst(0), intConst(7))
	switch n {
	case "strings.Contains":
		return x, boolConst(true), t.isTok(VC{F, args[1]})
	case "strings.ContainsRune":
		return x, boolConst(true), t.isTok(VC{F, args[1]})
	case "strings.ContainsAny", "strings.IndexAny", "strings.LastIndexAny":
		ss, isC := t.a.Eval(VC{F, args[1]}).strConsts()
		v = boolConst(true)
		if n != "strings.ContainsAny" {
			v = pos
		}
		return x, v, isC && len(ss) == 1 && strings.Contains(ss[0], t.tok)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
		return x, pos, t.isTok(VC{F, args[1]})
	case "strings.Count":
		return x, joinV(intConst(1), intConst(7)), t.isTok(VC{F, args[1]})
	}
	return
}

// elemChain: the element of a list that a value is another name for.
func (t *tableRun) elemChain(vc VC) (*Frame, *ssa.IndexAddr) {
	for n := 0; n < 20; n++ {
		if ia := elemOf(vc.V); ia != nil && (isCells(ia.X.Type()) || isRows(ia.X.Type())) {
			return vc.F, ia
		}
		if sl, ok := vc.V.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil && isStrBytes(sl.X.Type()) {
			vc = VC{vc.F, sl.X}
			continue
		}
		if c, ok := vc.V.(*ssa.Call); ok {
			if n := calleeName(c.Common()); (n == "bytes.Join" || n == "strings.Join") && isCells(c.Call.Args[0].Type()) {
				vc = VC{vc.F, c.Call.Args[0]}
				continue
			}
		}
		ss := t.a.step(vc)
		if len(ss) != 1 {
			return nil, nil
		}
		vc = ss[0]
	}
	return nil, nil
}

// elemLoop: the loop whose counter is the index of the element.
func elemLoop(ia *ssa.IndexAddr) (*loop, int64) {
	h, init, ok := counter(ia.Index)
	if !ok {
		return nil, 0
	}
	for _, l := range loopsOf(ia.Parent()) {
		if l.head == h && l.body[ia.Block()] {
			return l, init
		}
	}
	return nil, 0
}

func (t *tableRun) tests() []lineTest {
	a := t.a
	var out []lineTest
	for _, F := range t.frames {
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				var x VC
				var v AVal
				switch genericName(calleeName(c.Common())) {
				case "slices.ContainsFunc", "slices.IndexFunc":
					if !isCells(c.Call.Args[0].Type()) {
						continue
					}
					frs := a.argFrames(F, c, c.Call.Args[1])
					all := len(frs) > 0
					for _, fr := range frs {
						all = all && t.tells(fr)
					}
					if !all {
						continue
					}
					x, v = VC{F, c.Call.Args[0]}, boolConst(true)
					if !isBoolType(c.Type()) {
						v = joinV(intConst(0), intConst(7))
					}
				default:
					x, v, ok = t.found(F, c)
					if !ok {
						continue
					}
				}
				G, ia := t.elemChain(x)
				if ia == nil {
					continue
				}
				l, _ := elemLoop(ia)
				if l == nil {
					continue
				}
				out = append(out, lineTest{F, c, v, G, ia, l})
			}
		}
	}
	return out
}

// tells: the function (which is given to a library function) tells whether its text has the line break.
func (t *tableRun) tells(fr *Frame) bool {
	var tests []lineTest
	t.a.eachFrame(fr, func(F *Frame) {
		instrs(F.Fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if x, v, ok := t.found(F, c); ok {
					for n := 0; n < 10; n++ {
						if x.F == fr && len(fr.Fn.Params) > 0 && x.V == ssa.Value(fr.Fn.Params[0]) {
							tests = append(tests, lineTest{F: F, call: c, v: v})
							break
						}
						ss := t.a.step(x)
						if len(ss) != 1 {
							break
						}
						x = ss[0]
					}
				}
			}
		})
	})
	if len(tests) == 0 {
		return false
	}
	t.hyp(tests)
	defer t.unhyp()
	for _, rs := range t.a.returnSites(fr, 0) {
		if _, f := t.a.Eval(rs.VC).mayBool(); f {
			return false
		}
	}
	return true
}

// hyp: assume that the text which is tested has the line break.
func (t *tableRun) hyp(tests []lineTest) {
	base := t.base
	t.a.setHook(func(a *AI, o Org) (AVal, bool) {
		if o.Path == "" {
			for _, x := range tests {
				if o.V == ssa.Value(x.call) && o.F == x.F {
					return x.v, true
				}
			}
		}
		return base(a, o)
	})
}
func (t *tableRun) unhyp() { t.a.setHook(t.base) }

// fullLoop: the loop looks at all elements of a list, from the first on.
func (t *tableRun) fullLoop(F *Frame, l *loop) string {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || ifi.Block().Succs[0] == l.head || ifi.Block().Succs[1] == l.head {
		return ""
	}
	b, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	if h, init, ok := counter(b.X); ok && h == l.head && init != 0 {
		return "the loop does not start with the first one"
	}
	if x := loopList(b); x != nil {
		return t.wholeList(VC{F, x}, 0)
	}
	if bo, ok := b.Y.(*ssa.BinOp); ok && bo.Op == token.SUB && isLenCall(bo.X) {
		return "the loop ends before the last one"
	}
	return ""
}

func (t *tableRun) wholeList(vc VC, d int) string {
	if s, ok := vc.V.(*ssa.Slice); ok {
		if _, isPtr := s.X.Type().Underlying().(*types.Pointer); isPtr {
			return ""
		}
		if s.Low != nil && !isIntConst(s.Low, 0) {
			return "the loop does not look at the first ones"
		}
		if s.High != nil && !isLenCall(s.High) {
			return "the loop does not look at the last ones"
		}
	}
	if d > 10 {
		return ""
	}
	for _, s := range t.a.step(vc) {
		if w := t.wholeList(s, d+1); w != "" {
			return w
		}
	}
	return ""
}

// cleanStore: the instruction puts a text without the line break at the place of the element.
func (t *tableRun) cleanStore(F *Frame, l *loop, in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	if k, init := elemLoop(ia); k == nil || k.head != l.head || init != 0 {
		return false
	}
	switch {
	case isCells(ia.X.Type()):
		if in2 := elemOf(ia.X); in2 != nil {
			// not the same index twice
			if k, _ := elemLoop(in2); k != nil && k.head == l.head {
				return false
			}
			if k, _ := elemLoop(in2); k == nil {
				if _, isC := in2.Index.(*ssa.Const); isC {
					return false
				}
			}
		}
		return t.clean(VC{F, st.Val})
	case isRows(ia.X.Type()):
		if _, isC := st.Val.(*ssa.Const); isC {
			return false
		}
		return t.cleanList(VC{F, st.Val})
	}
	return false
}

// validated finds the loops in which every round replaces the line breaks, or declines the table if there is one.
func (t *tableRun) validated() {
	a := t.a
	note := func(s, pos string) {
		if t.why == "" {
			t.why, t.whyPos = s, pos
		}
	}
	tests := t.tests()
	for _, F := range t.frames {
		for _, l := range loopsOf(F.Fn) {
			var mine []lineTest
			for _, x := range tests {
				if x.G == F && x.l.head == l.head {
					mine = append(mine, x)
				}
			}
			has := len(mine) > 0
			for b := range l.body {
				for _, in := range b.Instrs {
					has = has || t.cleanStore(F, l, in)
				}
			}
			if !has {
				continue
			}
			pos := a.P.ipos(l.head.Instrs[len(l.head.Instrs)-1])
			if w := t.fullLoop(F, l); w != "" {
				note(w, pos)
				continue
			}
			cleans := map[ssa.Instruction]bool{}
			for b := range l.body {
				for _, in := range b.Instrs {
					if t.cleanStore(F, l, in) {
						cleans[in] = true
					}
				}
			}
			t.hyp(mine)
			bad := ""
			var rest []pathEnd
			for si, s := range l.head.Succs {
				if !l.body[s] || bad != "" {
					continue
				}
				_ = si
				ends := t.paths(F, s, 0, penv{}, func(in ssa.Instruction) bool { return cleans[in] }, func(from, to *ssa.BasicBlock, taken int) bool {
					if to == l.head {
						return true
					}
					if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] && t.emptyCell(F, ifi.Cond, taken == 0) {
						return true
					}
					return !l.body[to]
				})
				for _, e := range ends {
					if e.from != nil && e.to != l.head && l.body[e.to] {
						continue // an empty cell
					}
					if e.from != nil && e.to != l.head {
						if ifi, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If); ok && e.from.Succs[0] != e.from.Succs[1] && t.emptyCell(F, ifi.Cond, e.from.Succs[0] == e.to) {
							continue
						}
					}
					rest = append(rest, e)
				}
			}
			t.unhyp()
			for _, e := range rest {
				if e.ret != nil {
					if !t.declines(F, e) {
						bad = "a table that has a cell with a line break is rendered (the return in " + F.Fn.Name() + ")"
					}
					continue
				}
				for _, x := range t.paths(F, e.to, 0, e.env, nil, nil) {
					if !t.declines(F, x) {
						bad = "a cell with a line break is kept"
					}
				}
			}
			if bad != "" {
				note(bad, pos)
				continue
			}
			t.setGood(F, l.head)
		}
	}
	// a list that is built without line breaks
	for _, F := range t.frames {
		instrs(F.Fn, func(in ssa.Instruction) {
			v, ok := in.(*ssa.Call)
			if !ok || !isRows(v.Type()) {
				return
			}
			if _, isF := v.Call.Value.(*ssa.Builtin); isF {
				return
			}
			adds, known := t.additions(VC{F, v})
			content := false
			for _, ad := range adds {
				content = content || isContentVal(a.Eval(ad.vc))
				known = known && t.clean(ad.vc)
			}
			if known && content {
				if t.points[F] == nil {
					t.points[F] = map[ssa.Instruction]bool{}
				}
				t.points[F][in] = true
			}
		})
	}
}

func (t *tableRun) emptyCell(F *Frame, cond ssa.Value, taken bool) bool {
	return emptyFact(t.a, F, cond, taken)
}

func (t *tableRun) setGood(F *Frame, h *ssa.BasicBlock) {
	if t.good[F] == nil {
		t.good[F] = map[*ssa.BasicBlock]bool{}
	}
	t.good[F][h] = true
}

// covered: the instruction is (or calls) a check of all cells.
func (t *tableRun) covered(F *Frame, in ssa.Instruction) bool {
	if t.good[F][in.Block()] && in == in.Block().Instrs[len(in.Block().Instrs)-1] {
		return true
	}
	if t.points[F][in] {
		return true
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	frs, _ := t.a.calleeFrames(F, c)
	if len(frs) == 0 {
		return false
	}
	for _, fr := range frs {
		if !t.covers(fr) {
			return false
		}
	}
	return true
}

// covers: no path through the frame goes on with a table whose cells are not checked.
func (t *tableRun) covers(F *Frame) bool {
	switch t.cov[F] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	t.cov[F] = 1
	// loops around a check: every round does it
	for again := true; again; {
		again = false
		for _, l := range loopsOf(F.Fn) {
			if t.good[F][l.head] {
				continue
			}
			any := false
			for b := range l.body {
				for _, in := range b.Instrs {
					any = any || t.covered(F, in)
				}
			}
			if !any {
				continue
			}
			if w := t.fullLoop(F, l); w != "" {
				if t.why == "" {
					t.why, t.whyPos = w, t.a.P.ipos(l.head.Instrs[len(l.head.Instrs)-1])
				}
				continue
			}
			good := true
			for _, s := range l.head.Succs {
				if !l.body[s] {
					continue
				}
				for _, e := range t.paths(F, s, 0, penv{}, func(in ssa.Instruction) bool { return t.covered(F, in) }, func(from, to *ssa.BasicBlock, taken int) bool {
					if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] && t.emptyCell(F, ifi.Cond, taken == 0) {
						return true
					}
					return to == l.head
				}) {
					if e.ret != nil {
						good = good && t.declines(F, e)
						continue
					}
					if ifi, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If); ok && e.from.Succs[0] != e.from.Succs[1] && t.emptyCell(F, ifi.Cond, e.from.Succs[0] == e.to) {
						continue
					}
					good = false
				}
			}
			if good {
				t.setGood(F, l.head)
				again = true
			}
		}
	}
	ok := true
	for _, e := range t.paths(F, F.Fn.Blocks[0], 0, penv{}, func(in ssa.Instruction) bool { return t.covered(F, in) }, nil) {
		if e.ret != nil && !t.declines(F, e) {
			ok = false
		}
	}
	t.cov[F] = 3
	if ok {
		t.cov[F] = 2
	}
	return ok
}

// coverPoints: the instructions of a frame that check the cells.
func (t *tableRun) coverPoints(F *Frame) (out []ssa.Instruction) {
	instrs(F.Fn, func(in ssa.Instruction) {
		if t.covered(F, in) {
			out = append(out, in)
		}
	})
	return
}

// late: the cell is added after the cells were checked.
func (t *tableRun) late(F *Frame, in ssa.Instruction) bool {
	for {
		for _, p := range t.coverPoints(F) {
			if p == in {
				continue
			}
			inLoop := false
			for _, l := range loopsOf(F.Fn) {
				if l.head == p.Block() && l.body[in.Block()] {
					inLoop = true // the same cell
				}
			}
			if !inLoop && t.a.reachesAvoiding(F, p, in, nil) {
				return true
			}
		}
		if F.Up == nil || F.Site == nil {
			return false
		}
		F, in = F.Up, F.Site
	}
}

func newTableRun(c *rcase, try string) *tableRun {
	t := &tableRun{c: c, a: c.a, base: c.a.Hook, try: try}
	c.a.eachFrame(c.F, func(F *Frame) { t.frames = append(t.frames, F) })
	t.reset("\n")
	return t
}

func (t *tableRun) reset(tok string) {
	t.tok = tok
	t.reached = map[VC]map[VC]bool{}
	t.clean1 = map[VC]int{}
	t.good = map[*Frame]map[*ssa.BasicBlock]bool{}
	t.points = map[*Frame]map[ssa.Instruction]bool{}
	t.cov = map[*Frame]int{}
	t.decl = map[string]int{}
	t.why, t.whyPos = "", ""
}

// cellOf: the value that is written is a cell; its list.
func (t *tableRun) cellOf(vc VC) (VC, bool) {
	for n := 0; n < 20; n++ {
		if ia := elemOf(vc.V); ia != nil && isCells(ia.X.Type()) {
			return VC{vc.F, ia.X}, true
		}
		if c, ok := vc.V.(*ssa.Call); ok && len(c.Call.Args) > 0 && isStrBytes(c.Call.Args[0].Type()) {
			switch n := calleeName(c.Common()); n {
			case "bytes.TrimSpace", "strings.TrimSpace", "bytes.ReplaceAll", "strings.ReplaceAll", "bytes.Clone":
				vc = VC{vc.F, c.Call.Args[0]}
				continue
			}
		}
		ss := t.a.step(vc)
		if len(ss) != 1 {
			return VC{}, false
		}
		vc = ss[0]
	}
	return VC{}, false
}

func checkC26(P *Prog, r *Result) {
	r.Rule("one-line", "every cell that is written has no line break: they are replaced in every cell, or a table with such a cell is declined", 4)
	r.Rule("pipes", "the \"|\" of the content of a cell is escaped", 1)
	r.Rule("written", "every line of the table has one cell for every round of the loop that writes it, and the loop looks at all columns", 2)
	r.Rule("filled", "the number of columns is counted over all rows, and every row is filled up to it before it is written", 4)
	_, try := renderStatus(P)
	key := "table"
	toks := []struct{ name, tok string }{{"line breaks", "\n"}, {"line breaks of code", "\uf002"}}
	n := 0
	for _, set := range tableConfigs(P) {
		sc := Scen{Name: "table"}
		if set != "" {
			cfg, err := cfgOf(P, map[string]string{}, set)
			if err != nil {
				r.Bad("one-line", set, "", "%v", err)
				continue
			}
			sc.Cfg = cfg
		}
		for _, c := range handlerCases(P, sc) {
			if c.key != "table" {
				continue
			}
			t := newTableRun(c, try)
			m := &pieceMachine{}
			c.run(m)
			lists := map[VC]bool{}
			var written []VC
			for _, p := range m.got {
				if p.vc.V == nil || !p.v.Labels["children"] {
					continue
				}
				if l, ok := t.cellOf(p.vc); ok {
					if !lists[l] {
						lists[l] = true
					}
					written = append(written, p.vc)
				}
			}
			k := key
			if set != "" {
				k += " with " + strings.TrimPrefix(set, "table.")
			}
			pos := P.pos(c.F.Fn.Pos())
			if len(written) == 0 {
				continue
			}
			for _, tk := range toks {
				n++
				t.reset(tk.tok)
				raw := 0
				var lateAt ssa.Instruction
				var raws []addition
				for _, w := range written {
					if t.clean(w) {
						continue
					}
					l, _ := t.cellOf(w)
					adds, _ := t.additions(l)
					for _, ad := range adds {
						if !t.clean(ad.vc) {
							raw++
							raws = append(raws, ad)
						}
					}
				}
				bad, at := "", pos
				if raw > 0 {
					t.validated()
					if !t.covers(c.F) {
						bad = orElse(t.why, "the cells are written without a look at their "+tk.name)
						at = orElse(t.whyPos, pos)
					} else {
						for _, ad := range raws {
							if t.late(ad.vc.F, ad.in) {
								lateAt = ad.in
							}
						}
						if lateAt != nil {
							bad, at = "a cell is added after the cells were checked for "+tk.name, P.ipos(lateAt)
						}
					}
				}
				if tk.tok == "\n" {
					out := ""
					for _, w := range written {
						if x := t.pipeFree(w, false, map[VC]bool{}); x != "" && (out == "" || out == "?") {
							out = x
						}
					}
					r.Check(out == "" || out == "?", "pipes", k, pos, "%s", ifelse(out == "?", "not decided", orElse(out, "every \"|\" of the content is escaped")))
					t.rectangular(r, k)
				}
				r.Check(bad == "", "one-line", k+": "+tk.name, at, "%s", orElse(bad, fmt.Sprintf("the cells that are written have no %s (%d places add a cell, checked afterwards)", tk.name, raw)))
			}
		}
	}
	r.Count("combinations of configuration and line break", n)
}

// tableConfigs: the ways in which line breaks in cells are handled.
func tableConfigs(P *Prog) []string {
	var out []string
	for _, pk := range P.Pkgs {
		if pk.PkgPath != modPath+"/plugin/table" {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if c, ok := sc.Lookup(n).(*types.Const); ok && isNamed(c.Type(), pk.PkgPath, "NewlineBehavior") {
				out = append(out, "table.WithNewlineBehavior="+constant.StringVal(c.Val()))
			}
		}
	}
	if len(out) == 0 {
		return []string{""}
	}
	return out
}
