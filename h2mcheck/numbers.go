package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numbers that are written in the document must be limited before they decide about the amount of
// work (C08).

func init() { register("C08", checkC08) }

// maxBound: a limit of more than this is none.
const maxBound = 1 << 17

type taintKind int

const (
	tNum  taintKind = 1 << iota // a number of unlimited size
	tText                       // a text that shows such a number
)

type numTaint struct {
	P      *Prog
	in     map[*ssa.Function]bool
	funcs  []*ssa.Function
	val    map[ssa.Value]taintKind
	ret    map[*ssa.Function][]taintKind
	mem    map[string]taintKind
	src    map[ssa.Value]string
	change bool
}

func newNumTaint(P *Prog) *numTaint {
	t := &numTaint{P: P, in: map[*ssa.Function]bool{}, val: map[ssa.Value]taintKind{}, ret: map[*ssa.Function][]taintKind{}, mem: map[string]taintKind{}, src: map[ssa.Value]string{}}
	for _, f := range convFuncs(P) {
		if P.InLib(f) && f.Blocks != nil {
			t.in[f] = true
			t.funcs = append(t.funcs, f)
		}
	}
	for _, f := range t.funcs {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				switch n := calleeName(c.Common()); n {
				case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
					if _, isC := c.Call.Args[0].(*ssa.Const); !isC {
						t.src[c] = n
					}
				}
			}
			// digits that are summed up
			if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.MUL || b.Op == token.SHL) && isInteger(b.Type()) {
				if phi, ok := b.X.(*ssa.Phi); ok && isBigConst(b.Y, b.Op) && feedsBack(b, phi, 0) {
					t.src[b] = "digits summed up in a loop"
				}
			}
		})
	}
	for i := 0; i < 40; i++ {
		t.change = false
		for _, f := range t.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					t.instr(f, in)
				}
			}
		}
		if !t.change {
			break
		}
	}
	return t
}

func isInteger(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isNumber(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isBigConst(v ssa.Value, op token.Token) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	return op == token.SHL && c.Int64() >= 1 || op == token.MUL && c.Int64() >= 2
}

func feedsBack(v ssa.Value, phi *ssa.Phi, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Phi:
			if x == phi || feedsBack(x, phi, d+1) {
				return true
			}
		case *ssa.BinOp:
			if (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.OR) && feedsBack(x, phi, d+1) {
				return true
			}
		case *ssa.Convert:
			if feedsBack(x, phi, d+1) {
				return true
			}
		}
	}
	return false
}

func (t *numTaint) set(v ssa.Value, k taintKind) {
	if k&^t.val[v] != 0 {
		t.val[v] |= k
		t.change = true
	}
}
func (t *numTaint) setMem(key string, k taintKind) {
	if k&^t.mem[key] != 0 {
		t.mem[key] |= k
		t.change = true
	}
}

// at: the taint of v when it is used in the block.
func (t *numTaint) at(v ssa.Value, blk *ssa.BasicBlock) taintKind {
	k := t.val[v]
	if k&tNum != 0 && t.limited(v, blk) {
		k &^= tNum
	}
	return k
}

// atoms: the tainted parts of a sum with their signs.
func (t *numTaint) atoms(v ssa.Value, blk *ssa.BasicBlock, sign int, out map[ssa.Value]int, d int) {
	if t.at(v, blk)&tNum == 0 && (d > 0 || !t.isSum(v)) {
		return
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if (x.Op == token.ADD || x.Op == token.SUB) && d < 8 {
			t.atoms(x.X, blk, sign, out, d+1)
			s := sign
			if x.Op == token.SUB {
				s = -sign
			}
			t.atoms(x.Y, blk, s, out, d+1)
			return
		}
	case *ssa.Convert:
		t.atoms(x.X, blk, sign, out, d+1)
		return
	case *ssa.Phi:
		// a counter: what it begins with
		if d < 8 {
			var init ssa.Value
			ok := true
			for i, e := range x.Edges {
				if x.Block().Dominates(x.Block().Preds[i]) {
					b, isB := e.(*ssa.BinOp)
					if !isB || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(x) || t.val[b.Y] != 0 {
						ok = false
					}
				} else if init != nil && init != e {
					ok = false
				} else {
					init = e
				}
			}
			if ok && init != nil && len(x.Edges) > 1 {
				t.atoms(init, blk, sign, out, d+1)
				return
			}
		}
	}
	out[v] += sign
}

func (t *numTaint) isSum(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && (b.Op == token.ADD || b.Op == token.SUB)
}

// rest: something tainted is left in the sum (x minus y).
func (t *numTaint) rest(blk *ssa.BasicBlock, x, y ssa.Value) bool {
	m := map[ssa.Value]int{}
	t.atoms(x, blk, 1, m, 0)
	if y != nil {
		t.atoms(y, blk, -1, m, 0)
	}
	for _, n := range m {
		if n != 0 {
			return true
		}
	}
	return false
}

// limited: a comparison that always holds in the block gives the value an upper limit.
func (t *numTaint) limited(v ssa.Value, blk *ssa.BasicBlock) bool {
	for d := blk; d != nil; d = d.Idom() {
		p := d.Idom()
		if len(d.Preds) != 1 {
			continue
		}
		p = d.Preds[0]
		if t.edgeLimits(v, p, d) {
			return true
		}
	}
	return false
}

func (t *numTaint) edgeLimits(v ssa.Value, p, s *ssa.BasicBlock) bool {
	ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	return t.condLimits(v, ifi.Cond, p.Succs[0] == s, p)
}

func (t *numTaint) condLimits(v ssa.Value, cond ssa.Value, truth bool, p *ssa.BasicBlock) bool {
	switch b := cond.(type) {
	case *ssa.UnOp:
		if b.Op == token.NOT {
			return t.condLimits(v, b.X, !truth, p)
		}
	case *ssa.BinOp:
		op := b.Op
		if !truth {
			op = negOp(op)
		}
		x, y := b.X, b.Y
		switch op {
		case token.GTR, token.GEQ:
			x, y = y, x
		case token.LSS, token.LEQ:
		case token.EQL:
			return t.contains(x, v, 0) && t.isLimit(y, p) || t.contains(y, v, 0) && t.isLimit(x, p)
		default:
			return false
		}
		// the length of the text that was parsed
		if n := t.lenOf(x); n != nil && t.parsedFrom(v, n) && t.isLimit(y, p) {
			if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Int64() <= 5 {
				return true
			}
		}
		return t.contains(x, v, 0) && t.isLimit(y, p)
	case *ssa.Call:
		// a predicate
		if g := b.Call.StaticCallee(); g != nil && t.in[g] && !b.Call.IsInvoke() {
			for i, a := range b.Call.Args {
				if a != v || i >= len(g.Params) {
					continue
				}
				all, n := true, 0
				for _, gb := range g.Blocks {
					ret, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return)
					if !ok || len(ret.Results) != 1 {
						continue
					}
					n++
					if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
						if constant.BoolVal(c.Value) != truth || t.limited(g.Params[i], gb) {
							continue
						}
						all = false
						continue
					}
					if !t.limited(g.Params[i], gb) && !t.condLimits(g.Params[i], ret.Results[0], truth, gb) {
						all = false
					}
				}
				if all && n > 0 {
					return true
				}
			}
		}
	case *ssa.Phi:
		// a && b
		if truth {
			for i, e := range b.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
					continue
				}
				if !t.condLimits(v, e, true, p) && !t.limited(v, b.Block().Preds[i]) {
					return false
				}
			}
			return true
		}
		// a || b is false
		for i, e := range b.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
				continue
			}
			if !t.condLimits(v, e, false, p) && !t.limited(v, b.Block().Preds[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func (t *numTaint) lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
		return c.Call.Args[0]
	}
	return nil
}

func (t *numTaint) parsedFrom(v, s ssa.Value) bool {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Call:
			return len(x.Call.Args) > 0 && x.Call.Args[0] == s
		}
		break
	}
	return false
}

// contains: x is v, or a product or sum that contains v.
func (t *numTaint) contains(x, v ssa.Value, d int) bool {
	if x == v {
		return true
	}
	if d > 4 {
		return false
	}
	switch b := x.(type) {
	case *ssa.BinOp:
		if b.Op == token.ADD || b.Op == token.MUL {
			return t.contains(b.X, v, d+1) || t.contains(b.Y, v, d+1)
		}
		if b.Op == token.SUB {
			return t.contains(b.X, v, d+1)
		}
	case *ssa.Convert:
		return t.contains(b.X, v, d+1)
	}
	if c, ok := v.(*ssa.Convert); ok {
		return x == c.X
	}
	return false
}

func (t *numTaint) isLimit(y ssa.Value, blk *ssa.BasicBlock) bool {
	if c, ok := y.(*ssa.Const); ok {
		if c.Value == nil {
			return false
		}
		if c.Value.Kind() == constant.Int || c.Value.Kind() == constant.Float {
			f, _ := constant.Float64Val(c.Value)
			return f <= maxBound
		}
		return false
	}
	if t.hugeVar(y) {
		return false
	}
	return t.at(y, blk)&tNum == 0
}

// hugeVar: a package variable with a very large number.
func (t *numTaint) hugeVar(y ssa.Value) bool {
	u, ok := y.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	huge := false
	if init := g.Pkg.Func("init"); init != nil {
		instrs(init, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
					f, _ := constant.Float64Val(constant.ToFloat(c.Value))
					huge = huge || f > maxBound
				}
			}
		})
	}
	return huge
}

func elemKey(f *ssa.Function, base ssa.Value, el types.Type) string {
	for i := 0; i < 4; i++ {
		switch x := base.(type) {
		case *ssa.Slice:
			base = x.X
			continue
		case *ssa.Alloc:
			if x.Comment == "varargs" || x.Comment == "slicelit" {
				return fmt.Sprintf("alloc %p", x)
			}
			if _, isArr := deref(x.Type()).Underlying().(*types.Array); isArr {
				return fmt.Sprintf("alloc %p", x)
			}
		}
		break
	}
	return "elem " + fnPkgPath(f) + " " + el.String()
}

func fieldKey(t types.Type, i int) string {
	return "field " + deref(t).String() + " " + fieldName(t, i)
}

// addrKeys: what a store to or a load from the address concerns.
func (t *numTaint) addrKeys(f *ssa.Function, addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return elemKey(f, x.X, deref(x.Type()))
	case *ssa.Global:
		return "global " + x.String()
	case *ssa.Alloc:
		return fmt.Sprintf("alloc %p", x)
	case *ssa.FreeVar:
		return fmt.Sprintf("free %p", x)
	}
	return "ptr " + fnPkgPath(f) + " " + deref(addr.Type()).String()
}

func (t *numTaint) instr(f *ssa.Function, in ssa.Instruction) {
	blk := in.Block()
	switch x := in.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			k := t.at(e, p)
			if k&tNum != 0 && t.edgeLimits(e, p, x.Block()) {
				k &^= tNum
			}
			t.set(x, k)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			if isText(x.Type()) {
				t.set(x, (t.at(x.X, blk)|t.at(x.Y, blk))&tText)
				return
			}
			k := t.at(x.X, blk) | t.at(x.Y, blk)
			if k&tNum != 0 {
				y := x.Y
				m := map[ssa.Value]int{}
				t.atoms(x.X, blk, 1, m, 1)
				s := 1
				if x.Op == token.SUB {
					s = -1
				}
				t.atoms(y, blk, s, m, 1)
				for _, n := range m {
					if n != 0 {
						t.set(x, tNum)
					}
				}
			}
		case token.MUL, token.OR, token.XOR, token.SHL:
			t.set(x, t.at(x.X, blk)|t.at(x.Y, blk))
		case token.QUO, token.SHR, token.AND_NOT:
			t.set(x, t.at(x.X, blk))
		case token.REM:
			if t.at(x.Y, blk)&tNum != 0 {
				t.set(x, t.at(x.X, blk))
			}
		case token.AND:
			t.set(x, t.at(x.X, blk)&t.at(x.Y, blk))
		}
		if t.src[x] != "" && !t.limited(x.X, blk) {
			t.set(x, tNum)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t.set(x, t.mem[t.addrKeys(f, x.X)])
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				t.set(x, t.val[fv])
			}
		} else {
			t.set(x, t.at(x.X, blk))
		}
	case *ssa.Field:
		t.set(x, t.mem[fieldKey(x.X.Type(), x.Field)])
	case *ssa.Index:
		t.set(x, t.mem[elemKey(f, x.X, x.Type())])
	case *ssa.Lookup:
		t.set(x, t.mem["elem "+fnPkgPath(f)+" "+mapElem(x.X.Type())])
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if t.src[c] != "" {
				if x.Index == 0 {
					t.set(x, tNum)
				}
				return
			}
			t.callResult(f, c, x, x.Index)
			return
		}
		t.set(x, t.val[x.Tuple])
	case *ssa.Convert:
		t.set(x, t.at(x.X, blk))
	case *ssa.ChangeType:
		t.set(x, t.at(x.X, blk))
	case *ssa.MakeInterface:
		t.set(x, t.at(x.X, blk))
	case *ssa.TypeAssert:
		t.set(x, t.at(x.X, blk))
	case *ssa.Slice:
		t.set(x, t.val[x.X]&tText)
	case *ssa.Store:
		if k := t.at(x.Val, blk); k != 0 {
			t.setMem(t.addrKeys(f, x.Addr), k)
			// a variable that closures share
			if fv, ok := x.Addr.(*ssa.FreeVar); ok {
				for _, b := range boundOf(f, fv) {
					t.setMem(t.addrKeys(f.Parent(), b), k)
				}
			}
		}
	case *ssa.MapUpdate:
		if k := t.at(x.Value, blk); k != 0 {
			t.setMem("elem "+fnPkgPath(f)+" "+mapElem(x.Map.Type()), k)
		}
	case *ssa.Return:
		r := t.ret[f]
		if r == nil {
			r = make([]taintKind, len(x.Results))
			t.ret[f] = r
		}
		for i, v := range x.Results {
			if k := t.at(v, blk); k&^r[i] != 0 {
				r[i] |= k
				t.change = true
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if i < len(g.FreeVars) {
				if _, isPtr := b.Type().Underlying().(*types.Pointer); isPtr {
					t.set(g.FreeVars[i], t.mem[t.addrKeys(f, b)])
				}
				t.set(g.FreeVars[i], t.at(b, blk))
			}
		}
	case ssa.CallInstruction:
		t.bind(f, x)
		if c, ok := x.(*ssa.Call); ok {
			t.callResult(f, c, c, 0)
		}
	}
}

func mapElem(ty types.Type) string {
	if m, ok := ty.Underlying().(*types.Map); ok {
		return m.Elem().String()
	}
	return "byte"
}

// boundOf: what a free variable is in the enclosing function.
func boundOf(f *ssa.Function, fv *ssa.FreeVar) []ssa.Value {
	if f.Parent() == nil {
		return nil
	}
	var out []ssa.Value
	for i, v := range f.FreeVars {
		if v != fv {
			continue
		}
		instrs(f.Parent(), func(in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && i < len(mc.Bindings) {
				out = append(out, mc.Bindings[i])
			}
		})
	}
	return out
}

func (t *numTaint) bind(f *ssa.Function, site ssa.CallInstruction) {
	c := site.Common()
	for _, g := range t.P.Callees(site) {
		if !t.in[g] {
			continue
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for i, p := range g.Params {
			if i < len(args) {
				t.set(p, t.at(args[i], site.Block()))
			}
		}
	}
}

func (t *numTaint) callResult(f *ssa.Function, c *ssa.Call, res ssa.Value, idx int) {
	blk := c.Block()
	n := calleeName(c.Common())
	args := c.Call.Args
	var all taintKind
	for _, a := range args {
		all |= t.at(a, blk)
		// the elements of variadic arguments
		if s, ok := a.(*ssa.Slice); ok {
			all |= t.mem[elemKey(f, s.X, types.Typ[types.Invalid])]
		}
	}
	switch n {
	case "builtin.min", "math.Min":
		k := tNum
		for _, a := range args {
			if cst, ok := a.(*ssa.Const); ok {
				if t.isLimit(cst, blk) {
					k = 0
				}
			} else if t.at(a, blk)&tNum == 0 && !t.hugeVar(a) {
				k = 0
			}
		}
		t.set(res, k&all)
		return
	case "builtin.max", "math.Max", "math.Abs":
		t.set(res, all)
		return
	case "builtin.append":
		if len(args) > 1 {
			if s, ok := args[1].(*ssa.Slice); ok {
				if st, ok := c.Type().Underlying().(*types.Slice); ok {
					if k := t.mem[elemKey(f, s.X, st.Elem())]; k != 0 {
						t.setMem(elemKey(f, res, st.Elem()), k)
					}
				}
			}
			t.set(res, all&tText)
		}
		return
	case "builtin.len", "builtin.cap", "builtin.copy":
		return
	}
	if strings.HasPrefix(n, "builtin.") {
		return
	}
	some := false
	for _, g := range t.P.Callees(c) {
		if !t.in[g] {
			continue
		}
		some = true
		if r := t.ret[g]; idx < len(r) {
			t.set(res, r[idx])
		}
	}
	if some || all == 0 {
		return
	}
	// other functions
	ty := res.Type()
	switch {
	case isText(ty) || isStrBytes(ty):
		t.set(res, tText)
	case isNumber(ty):
		if strings.HasPrefix(n, "unicode/utf8.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.") {
			return
		}
		t.set(res, all&tNum)
	default:
		if _, ok := ty.Underlying().(*types.Interface); ok {
			t.set(res, all)
		}
	}
}

func isText(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- the places where a number decides about the amount ----

type sink struct {
	f    *ssa.Function
	kind string
	bad  string
	in   ssa.Instruction
}

func (t *numTaint) sinks() []sink {
	var out []sink
	for _, f := range t.funcs {
		instrs(f, func(in ssa.Instruction) {
			blk := in.Block()
			unl := func(v ssa.Value) bool {
				return v != nil && t.at(v, blk)&tNum != 0 && t.rest(blk, v, nil)
			}
			switch x := in.(type) {
			case *ssa.MakeSlice:
				s := sink{f, "allocation", "", in}
				if unl(x.Len) || unl(x.Cap) {
					s.bad = "the size of an allocation is a number of the document without a limit"
				}
				out = append(out, s)
			case *ssa.MakeMap:
				if x.Reserve != nil && unl(x.Reserve) {
					out = append(out, sink{f, "allocation", "the size of a map is a number of the document without a limit", in})
				}
			case *ssa.MakeChan:
				if unl(x.Size) {
					out = append(out, sink{f, "allocation", "the size of a channel is a number of the document without a limit", in})
				}
			case ssa.CallInstruction:
				c := x.Common()
				n := calleeName(c)
				base := n[strings.LastIndex(n, ".")+1:]
				std := !inModule(strings.TrimPrefix(n, "(")) && !strings.HasPrefix(n, "builtin.")
				switch {
				case std && (base == "Repeat" || base == "Grow" || base == "Sleep" || strings.HasSuffix(n, "Size") && strings.HasPrefix(n, "bufio.") || base == "Truncate" || base == "CopyN"):
					s := sink{f, base, "", in}
					for _, a := range c.Args {
						if isInteger(a.Type()) && unl(a) {
							s.bad = "the argument of " + n + " is a number of the document without a limit"
						}
					}
					out = append(out, s)
				case strings.HasPrefix(n, "fmt.") && strings.HasSuffix(base, "f"):
					s := sink{f, "format", "", in}
					for i, a := range c.Args {
						if isText(a.Type()) && i < 2 {
							if t.at(a, blk)&tText != 0 {
								s.bad = "the format contains a number of the document (as a width)"
							}
							if cst, ok := a.(*ssa.Const); ok && cst.Value != nil {
								for _, b := range c.Args[i+1:] {
									for _, w := range starArgs(constant.StringVal(cst.Value)) {
										if t.elemTainted(b, w) {
											s.bad = "the width in the format is a number of the document without a limit"
										}
									}
								}
							}
						}
					}
					out = append(out, s)
				case strings.HasPrefix(n, "strconv.Format") || strings.HasPrefix(n, "strconv.AppendFloat"):
					if len(c.Args) > 2 && unl(c.Args[2]) {
						out = append(out, sink{f, "format", "the precision is a number of the document", in})
					}
				}
				// recursion as deep as the number
				if g := c.StaticCallee(); g == f {
					for i, a := range c.Args {
						b, ok := a.(*ssa.BinOp)
						if ok && i < len(f.Params) && b.X == ssa.Value(f.Params[i]) && (b.Op == token.SUB || b.Op == token.ADD) && t.val[f.Params[i]]&tNum != 0 && !t.limited(f.Params[i], blk) {
							out = append(out, sink{f, "recursion", "a number of the document without a limit decides how deep the recursion is", in})
						}
					}
				}
			}
		})
		for _, l := range loopsOf(f) {
			s := sink{f, "loop", "", nil}
			limited := false
			var bad *ssa.BasicBlock
			for b := range l.body {
				ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				exits := !l.body[b.Succs[0]] || !l.body[b.Succs[1]]
				tainted := t.condTainted(ifi.Cond, b, 0)
				dom := true
				for _, la := range l.latches() {
					if !b.Dominates(la) {
						dom = false
					}
				}
				if tainted && (exits || b == l.head || b.Idom() == l.head) {
					bad = b
				}
				if !tainted && exits && dom && countsTo(l, ifi.Cond) {
					limited = true
				}
			}
			if bad != nil && !limited {
				s.bad = "a number of the document without a limit decides how often a loop runs"
				s.in = bad.Instrs[len(bad.Instrs)-1]
			}
			out = append(out, s)
		}
	}
	return out
}

// starArgs: the arguments of a format that are widths or precisions.
func starArgs(s string) []int {
	var out []int
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		for i++; i < len(s) && strings.IndexByte("+-# 0123456789.*", s[i]) >= 0; i++ {
			if s[i] == '*' {
				out = append(out, n)
				n++
			}
		}
		if i < len(s) && s[i] != '%' {
			n++
		}
	}
	return out
}

// elemTainted: the element of a variadic argument is an unlimited number.
func (t *numTaint) elemTainted(args ssa.Value, idx int) bool {
	sl, ok := args.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return t.mem[elemKey(sl.Parent(), sl.X, types.Typ[types.Invalid])]&tNum != 0
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || !isIntConst(ia.Index, int64(idx)) {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				v := st.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if t.at(v, st.Block())&tNum != 0 && t.rest(st.Block(), v, nil) {
					return true
				}
			}
		}
	}
	return false
}

// countsTo: the condition follows something that moves in the loop (a counter or an iteration).
func countsTo(l *loop, cond ssa.Value) bool {
	switch x := cond.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		for _, v := range []ssa.Value{x.X, x.Y} {
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				v = b.X
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
				return true
			}
		}
	}
	return false
}

func (t *numTaint) condTainted(cond ssa.Value, blk *ssa.BasicBlock, d int) bool {
	if d > 4 {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return t.condTainted(x.X, blk, d+1)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			if !isNumber(x.X.Type()) {
				return false
			}
			if t.at(x.X, blk)&tNum == 0 && t.at(x.Y, blk)&tNum == 0 {
				return false
			}
			return t.rest(blk, x.X, x.Y)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if t.condTainted(e, blk, d+1) {
				return true
			}
		}
	}
	return false
}

func checkC08(P *Prog, r *Result) {
	r.Rule("source", "every place where a text is turned into a number is known", 1)
	r.Rule("amount", "no number of the document decides without a limit about a loop, an allocation, a repetition, a width or a recursion", 60)
	t := newNumTaint(P)
	count := map[string]int{}
	for v, how := range t.src {
		f := v.Parent()
		k := fkey(f) + " " + how
		if count[k]++; count[k] > 1 {
			continue
		}
		r.OK("source", k, P.ipos(v.(ssa.Instruction)), "followed")
	}
	if len(t.src) == 0 {
		r.OK("source", "none", "", "no text is turned into a number")
		r.OK("source", "none (digits)", "", "no digits are summed up")
	}
	ss := t.sinks()
	type grp struct {
		n   int
		bad []sink
		pos string
	}
	gs := map[string]*grp{}
	for _, s := range ss {
		k := s.kind + " in " + fkey(s.f)
		g := gs[k]
		if g == nil {
			g = &grp{pos: P.pos(s.f.Pos())}
			gs[k] = g
		}
		g.n++
		if s.bad != "" {
			g.bad = append(g.bad, s)
		}
	}
	var keys []string
	for k := range gs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := gs[k]
		if len(g.bad) > 0 {
			r.Bad("amount", k, P.ipos(g.bad[0].in), "%s", g.bad[0].bad)
		} else {
			r.OK("amount", k, g.pos, "%d places, no unlimited number", g.n)
		}
	}
}

func deref(ty types.Type) types.Type {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return ty
}
