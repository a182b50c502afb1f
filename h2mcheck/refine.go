package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values are narrowed by the conditions that hold where they are used: below "if v == c" the value
// is c, below "if !strings.Contains(v, c)" it has no c, and a character is one of those for which
// the condition can have that outcome.

func isCharType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}

// refineAt narrows v (the value of vc) by the conditions that dominate a block.
func (a *AI) refineAt(vc VC, blk *ssa.BasicBlock, v AVal) AVal {
	if a.noRefine || blk == nil || v.bot() || blk.Parent() != vc.F.Fn {
		return v
	}
	if isBoolType(vc.V.Type()) {
		return a.refineBool(vc, blk, v)
	}
	if !isStrBytes(vc.V.Type()) && !isCharType(vc.V.Type()) {
		return v
	}
	if _, ok := v.single(); ok {
		return v
	}
	if len(blk.Preds) > 1 && len(blk.Preds) <= 8 {
		v = a.refineJoin(vc, blk, v)
	}
	for d := blk.Idom(); d != nil; d = d.Idom() {
		if len(d.Preds) > 1 && len(d.Preds) <= 8 {
			v = a.refineJoin(vc, d, v)
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && (s == blk || s.Dominates(blk)) {
				v = a.refineCond(vc, v, VC{vc.F, ifi.Cond}, k == 0, 0)
			}
		}
	}
	return v
}

// refineJoin: a block that is entered only by branches (case "a", "b":) has one of the values that
// these branches allow.
func (a *AI) refineJoin(vc VC, blk *ssa.BasicBlock, v AVal) AVal {
	if in, ok := vc.V.(ssa.Instruction); ok && in.Block() == blk {
		return v
	}
	var out AVal
	for i, p := range blk.Preds {
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] || blk.Dominates(p) {
			return v
		}
		w := a.refineCond(vc, v, VC{vc.F, ifi.Cond}, p.Succs[0] == blk, 0)
		if i == 0 {
			out = w
		} else {
			out = joinV(out, w)
		}
	}
	return out
}

// refineEdge narrows v by the conditions on the edge from p to blk.
func (a *AI) refineEdge(vc VC, p, blk *ssa.BasicBlock, v AVal) AVal {
	if a.noRefine || v.bot() {
		return v
	}
	if isBoolType(vc.V.Type()) {
		if b, ok := edgeBool(p, blk, vc.V); ok {
			return boolConst(b)
		}
		return a.refineBool(vc, p, v)
	}
	if !isStrBytes(vc.V.Type()) && !isCharType(vc.V.Type()) {
		return v
	}
	v = a.refineAt(vc, p, v)
	if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		v = a.refineCond(vc, v, VC{vc.F, ifi.Cond}, p.Succs[0] == blk, 0)
	}
	return v
}

func (a *AI) refineCond(vc VC, v AVal, cond VC, taken bool, depth int) AVal {
	if depth > 4 {
		return v
	}
	same := func(F *Frame, x ssa.Value) bool {
		if F == vc.F && x == vc.V {
			return true
		}
		if isConst(x) {
			return false
		}
		if p, ok := x.(*ssa.Parameter); ok {
			for _, g := range a.paramArgs(F, p) {
				if g == vc {
					return true
				}
			}
			return false
		}
		return false
	}
	for {
		u, ok := cond.V.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = VC{cond.F, u.X}, !taken
	}
	if isCharType(vc.V.Type()) {
		return a.refineChar(vc, v, cond, taken)
	}
	switch x := cond.V.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL && taken || x.Op == token.NEQ && !taken {
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := p[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && same(cond.F, p[0]) {
					return withLabels(constVal(c.Value), v.Labels)
				}
			}
		}
		// strings.Index(v, c) == -1 and the like
		if c, ok := x.X.(*ssa.Call); ok && isConst(x.Y) {
			n := calleeName(c.Common())
			if strings.HasPrefix(n, "builtin.len") && len(c.Call.Args) == 1 && same(cond.F, c.Call.Args[0]) {
				k := x.Y.(*ssa.Const)
				if k.Value != nil && k.Value.ExactString() == "0" && (x.Op == token.EQL && taken || x.Op == token.NEQ && !taken || x.Op == token.GTR && !taken) {
					return withLabels(strConst(""), v.Labels)
				}
			}
			if (strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "bytes.Index")) && same(cond.F, c.Call.Args[0]) {
				k := x.Y.(*ssa.Const)
				if k.Value == nil {
					return v
				}
				i, _ := constant.Int64Val(k.Value)
				none := false
				switch x.Op {
				case token.EQL:
					none = taken && i == -1
				case token.NEQ:
					none = !taken && i == -1
				case token.LSS:
					none = taken && i == 0
				case token.GEQ:
					none = !taken && i == 0
				case token.GTR:
					none = !taken && i == -1
				case token.LEQ:
					none = taken && i == -1
				}
				if none {
					return a.without(v, n, VC{cond.F, c.Call.Args[1]})
				}
			}
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		if (strings.HasPrefix(n, "strings.Contains") || strings.HasPrefix(n, "bytes.Contains")) && same(cond.F, x.Call.Args[0]) {
			if !taken {
				return a.without(v, n, VC{cond.F, x.Call.Args[1]})
			}
			return v
		}
		if s := a.stepCall(cond.F, x, 0); len(s) == 1 && x.Call.Signature().Results().Len() == 1 {
			return a.refineCond(vc, v, s[0], taken, depth+1)
		}
	}
	return v
}

// without: none of the searched characters are in v.
func (a *AI) without(v AVal, name string, arg VC) AVal {
	w := a.ev(arg)
	var del bset
	if strings.HasSuffix(name, "Func") {
		return v
	}
	if is, ok := w.intConsts(); ok && len(is) == 1 && is[0] < 128 {
		del.add(byte(is[0]))
	} else if ss, ok := w.strConsts(); ok && len(ss) == 1 {
		if strings.HasSuffix(name, "Any") || len(ss[0]) == 1 {
			for i := 0; i < len(ss[0]); i++ {
				if ss[0][i] < 128 {
					del.add(ss[0][i])
				}
			}
		}
	}
	if del.empty() || !v.Str && !v.Top {
		return v
	}
	r := v
	r.Top, r.Str = false, true
	r.B = v.bytes().minus(del)
	if v.Top {
		r.Min = 0
	}
	r.Consts = nil
	for _, c := range v.Consts {
		if c != nil && c.Kind() == constant.String && bsOf(constant.StringVal(c)).and(del).empty() {
			r = joinV(r, constVal(c))
		}
	}
	return r
}

// refineChar keeps the characters for which the condition can have the outcome.
func (a *AI) refineChar(vc VC, v AVal, cond VC, taken bool) AVal {
	if a.refineD > 1 || !a.mentions(cond, vc, 0) {
		return v
	}
	set := v.bytes()
	var out bset
	for c := 0; c < 128; c++ {
		if !set.has(byte(c)) {
			continue
		}
		if a.canBe(vc, int64(c), cond, taken) {
			out.add(byte(c))
		}
	}
	hi := set.and(highBytes)
	if !hi.empty() {
		if isByteType(vc.V.Type()) {
			for c := 128; c < 256; c++ {
				if set.has(byte(c)) && a.canBe(vc, int64(c), cond, taken) {
					out.add(byte(c))
				}
			}
		} else {
			out = out.or(hi)
		}
	}
	if out == set {
		return v
	}
	return AVal{Str: true, B: out, Min: 1, Labels: v.Labels}
}

var highBytes = func() (b bset) {
	for i := 128; i < 256; i++ {
		b.add(byte(i))
	}
	return
}()

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// mentions: the condition is computed from the value.
func (a *AI) mentions(cond, vc VC, depth int) bool {
	if cond == vc {
		return true
	}
	if depth > 5 {
		return false
	}
	m := func(v ssa.Value) bool { return a.mentions(VC{cond.F, v}, vc, depth+1) }
	switch x := cond.V.(type) {
	case *ssa.BinOp:
		return m(x.X) || m(x.Y)
	case *ssa.UnOp:
		return x.Op != token.MUL && m(x.X)
	case *ssa.Convert:
		return m(x.X)
	case *ssa.ChangeType:
		return m(x.X)
	case *ssa.Call:
		for _, g := range x.Call.Args {
			if m(g) {
				return true
			}
		}
	}
	return false
}

// canBe: can the condition have this outcome if the value is the character c?
func (a *AI) canBe(vc VC, c int64, cond VC, taken bool) bool {
	t, f := a.evalWith(vc, intConst(c), cond).mayBool()
	if taken {
		return t
	}
	return f
}

// evalWith evaluates a value under the assumption that another one has the given value.
func (a *AI) evalWith(vc VC, v AVal, what VC) AVal {
	b := *a
	b.memo, b.approx, b.vis, b.nchg = map[VC]AVal{}, map[VC]AVal{}, map[VC]bool{}, map[VC]int{}
	b.evalD = 0
	b.refineD = a.refineD + 1
	b.feas = map[*Frame]*feasInfo{}
	for F := vc.F; F != nil; F = F.Up {
		if fi, ok := a.feas[F]; ok {
			b.feas[F] = fi
		}
	}
	b.vmemo = map[VC][]Org{}
	old := a.Hook
	b.Hook = func(x *AI, o Org) (AVal, bool) {
		if o.VC == vc && o.Path == "" {
			return v, true
		}
		if old != nil {
			return old(x, o)
		}
		return AVal{}, false
	}
	return b.Eval(what)
}

// mapBytes: the bytes of strings.Map(f, s) for the bytes of s.
func (a *AI) mapBytes(F *Frame, f ssa.Value, in bset, kept *bset) (bset, bool) {
	if a.refineD > 0 {
		return bset{}, false
	}
	var fr *Frame
	for _, o := range a.values(VC{F, f}) {
		var g *Frame
		switch x := o.V.(type) {
		case *ssa.Function:
			if x.Blocks != nil {
				g = a.frame(x, nil, o.F, nil, nil)
			}
		case *ssa.MakeClosure:
			g = a.frame(x.Fn.(*ssa.Function), nil, o.F, x, o.F)
		}
		if g == nil || fr != nil || o.Path != "" {
			return bset{}, false
		}
		fr = g
	}
	if fr == nil || len(fr.Fn.Params) == 0 {
		return bset{}, false
	}
	p := VC{fr, fr.Fn.Params[len(fr.Fn.Params)-1]}
	var out bset
	eval := func(c int64) {
		b := *a
		b.memo, b.approx, b.vis, b.nchg = map[VC]AVal{}, map[VC]AVal{}, map[VC]bool{}, map[VC]int{}
		b.evalD, b.refineD = 0, 1
		b.feas, b.vmemo = map[*Frame]*feasInfo{}, map[VC][]Org{}
		old := a.Hook
		b.Hook = func(x *AI, o Org) (AVal, bool) {
			if o.VC == p && o.Path == "" {
				return intConst(c), true
			}
			if old != nil {
				return old(x, o)
			}
			return AVal{}, false
		}
		r := b.retVal(fr, 0)
		if is, ok := r.intConsts(); ok {
			if len(is) == 1 && is[0] == c && c < 128 {
				kept.add(byte(c))
			}
			for _, i := range is {
				if i >= 0 {
					out = out.or(bsOf(string(rune(i))))
				}
			}
			return
		}
		out = out.or(r.bytes())
	}
	for c := 0; c < 128; c++ {
		if in.has(byte(c)) {
			eval(int64(c))
		}
	}
	if !in.and(highBytes).empty() {
		eval(0x2014)
		out = out.or(highBytes)
	}
	return out, true
}

// must labels: facts about all of a text.
func mustLabel(l string) bool { return strings.HasPrefix(l, "esc:") || strings.HasPrefix(l, "has:") }

// escapes: every c in the text is part of an escape.
func (v AVal) escapes(c byte) bool {
	if v.Labels["esc:"+string(rune(c))] || !v.bytes().has(c) {
		return true
	}
	ss, ok := v.strConsts()
	if !ok || v.Str {
		return false
	}
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			if s[i] == '\\' && i+1 < len(s) {
				i++
				continue
			}
			if s[i] == c {
				return false
			}
		}
	}
	return true
}

// contains: the text is known to contain c.
func (v AVal) contains(c string) bool {
	if v.Labels["has:"+c] {
		return true
	}
	ss, ok := v.strConsts()
	if !ok || v.Str || len(ss) == 0 {
		return false
	}
	for _, s := range ss {
		// (or is empty: then it does not matter between which quotes it stands)
		if s != "" && !strings.Contains(s, c) {
			return false
		}
	}
	return true
}

// mergeLabels: the labels of either (concat) or of one of both values.
func mergeLabels(x, y AVal, concat bool) map[string]bool {
	if len(x.Labels)+len(y.Labels) == 0 {
		return nil
	}
	r := map[string]bool{}
	add := func(p, q AVal) {
		for k := range p.Labels {
			switch {
			case strings.HasPrefix(k, "esc:"):
				if q.escapes(k[4]) {
					r[k] = true
				}
			case strings.HasPrefix(k, "has:"):
				if concat || q.contains(k[4:]) {
					r[k] = true
				}
			default:
				r[k] = true
			}
		}
	}
	add(x, y)
	add(y, x)
	return r
}

// dropMust removes the facts that do not hold for a part of the text.
func (v AVal) dropMust(cutBackslash bool) AVal {
	ch := false
	for k := range v.Labels {
		if strings.HasPrefix(k, "has:") || cutBackslash && strings.HasPrefix(k, "esc:") {
			ch = true
		}
	}
	if !ch {
		return v
	}
	n := v
	n.Labels = map[string]bool{}
	for k := range v.Labels {
		if !(strings.HasPrefix(k, "has:") || cutBackslash && strings.HasPrefix(k, "esc:")) {
			n.Labels[k] = true
		}
	}
	return n
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// edgeBool: the truth of a condition that is known on an edge.
func edgeBool(p, blk *ssa.BasicBlock, v ssa.Value) (val, ok bool) {
	ifi, isIf := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !isIf || p.Succs[0] == p.Succs[1] {
		return false, false
	}
	val = p.Succs[0] == blk
	c := ifi.Cond
	for {
		if c == v {
			return val, true
		}
		n, isNot := c.(*ssa.UnOp)
		if !isNot || n.Op != token.NOT {
			return false, false
		}
		val, c = !val, n.X
	}
}

// refineBool: a value that was tested on the way to a block.
func (a *AI) refineBool(vc VC, blk *ssa.BasicBlock, v AVal) AVal {
	if _, isC := vc.V.(*ssa.Const); isC {
		return v
	}
	fi := a.feasible(vc.F)
	for d := blk; d != nil; d = d.Idom() {
		if in, ok := vc.V.(ssa.Instruction); ok && in.Block() == d {
			return v
		}
		known, n := true, 0
		var val bool
		for _, p := range d.Preds {
			if fi.dead[[2]int{p.Index, d.Index}] || !fi.live[p.Index] || d.Dominates(p) {
				continue
			}
			b, ok := edgeBool(p, d, vc.V)
			if !ok || n > 0 && b != val {
				known = false
				break
			}
			val = b
			n++
		}
		if known && n > 0 {
			return boolConst(val)
		}
	}
	return v
}
