package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules that decide which special characters are escaped (C15, C16).

func init() {
	register("C15", checkC15)
	register("C16", checkC16)
}

// escRule: an escape rule, with its parameters.
type escRule struct {
	handlerCaseT
	chars, idx *ssa.Parameter
}

func escRules(P *Prog) []escRule {
	var out []escRule
	for _, h := range handlersOf(P, "UnEscaper", func(a *AI) {}) {
		e := escRule{handlerCaseT: h, chars: textParam(h.Fn.Fn)}
		e.idx = paramOf(h.Fn.Fn, func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		})
		if e.chars != nil && e.idx != nil {
			out = append(out, e)
		}
	}
	return out
}

// lin is base + index of the rule * i + c (base is nil, "len" or a value).
type lin struct {
	v   VC
	len bool
	i   int
	c   int64
	ok  bool
}

func (e escRule) isChars(vc VC) bool {
	a := e.a
	if vc == (VC{e.Fn, e.chars}) {
		return true
	}
	return a.skey(vc, 0) == a.skey(VC{e.Fn, e.chars}, 0)
}
func (e escRule) isIdx(vc VC) bool {
	return vc == (VC{e.Fn, e.idx}) || e.a.skey(vc, 0) == e.a.skey(VC{e.Fn, e.idx}, 0)
}

// linear takes a value apart.
func (e escRule) linear(vc VC, depth int) lin {
	a := e.a
	if depth > 12 {
		return lin{v: vc, ok: true}
	}
	if e.isIdx(vc) {
		return lin{i: 1, ok: true}
	}
	switch x := vc.V.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return lin{c: x.Int64(), ok: true}
		}
	case *ssa.Convert:
		return e.linear(VC{vc.F, x.X}, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			l, r := e.linear(VC{vc.F, x.X}, depth+1), e.linear(VC{vc.F, x.Y}, depth+1)
			if !l.ok || !r.ok {
				return lin{}
			}
			if x.Op == token.SUB {
				if r.v.V != nil || r.len {
					if l.v == r.v && l.len == r.len {
						return lin{i: l.i - r.i, c: l.c - r.c, ok: true}
					}
					return lin{v: vc, ok: true}
				}
				r.i, r.c = -r.i, -r.c
			}
			if (l.v.V != nil || l.len) && (r.v.V != nil || r.len) {
				return lin{v: vc, ok: true}
			}
			if l.v.V == nil && !l.len {
				l.v, l.len = r.v, r.len
			}
			l.i += r.i
			l.c += r.c
			return l
		}
	case *ssa.Call:
		if calleeName(x.Common()) == "builtin.len" {
			t := VC{vc.F, x.Call.Args[0]}
			if e.isChars(t) {
				return lin{len: true, ok: true}
			}
			if s, ok := e.sub(t); ok && s.hi.V == nil && s.lo.ok && s.lo.v.V == nil && !s.lo.len {
				return lin{len: true, i: -s.lo.i, c: -s.lo.c, ok: true}
			}
		}
	}
	if _, isPhi := vc.V.(*ssa.Phi); !isPhi {
		if s := a.step(vc); len(s) == 1 {
			return e.linear(s[0], depth+1)
		}
	}
	return lin{v: vc, ok: true}
}

// sub: the value is a part of the text.
type subText struct {
	lo   lin
	hi   VC
	hiOK bool
}

func (e escRule) sub(vc VC) (subText, bool) {
	for d := 0; d < 8; d++ {
		if e.isChars(vc) {
			return subText{lo: lin{ok: true}}, true
		}
		if s, ok := vc.V.(*ssa.Slice); ok && e.isChars(VC{vc.F, s.X}) {
			r := subText{lo: lin{ok: true}}
			if s.Low != nil {
				r.lo = e.linear(VC{vc.F, s.Low}, 0)
			}
			if s.High != nil {
				r.hi = VC{vc.F, s.High}
			}
			return r, true
		}
		if _, isPhi := vc.V.(*ssa.Phi); isPhi {
			return subText{}, false
		}
		if ex, ok := vc.V.(*ssa.Extract); ok && ex.Index < 2 {
			if c, ok := ex.Tuple.(*ssa.Call); ok {
				switch calleeName(c.Common()) {
				case "bytes.Cut", "strings.Cut":
					if s, ok := e.sub(VC{vc.F, c.Call.Args[0]}); ok {
						if ex.Index == 1 {
							s.lo = lin{v: vc, ok: true}
						} else {
							s.hi = vc
						}
						return s, true
					}
				}
			}
		}
		s := e.a.step(vc)
		if len(s) != 1 {
			return subText{}, false
		}
		vc = s[0]
	}
	return subText{}, false
}

// elem: the load is an element of the text; the position.
func (e escRule) elem(F *Frame, v ssa.Value) (lin, bool) {
	var base, idx ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok || x.Op != token.MUL || !isByteType(x.Type()) {
			return lin{}, false
		}
		base, idx = ia.X, ia.Index
	case *ssa.Index:
		base, idx = x.X, x.Index
	default:
		return lin{}, false
	}
	s, ok := e.sub(VC{F, base})
	if !ok || !s.lo.ok {
		return lin{}, false
	}
	l := e.linear(VC{F, idx}, 0)
	if !l.ok || s.lo.v.V != nil && l.v.V != nil {
		return lin{}, false
	}
	if l.v.V == nil {
		l.v = s.lo.v
	}
	l.i += s.lo.i
	l.c += s.lo.c
	return l, true
}

// withFirst: the character at the index of the rule is c.
func (e escRule) withFirst(c byte) {
	e.a.setHook(func(a *AI, o Org) (AVal, bool) {
		if o.Path != "" {
			return AVal{}, false
		}
		switch o.V.(type) {
		case *ssa.UnOp, *ssa.Index:
			if l, ok := e.elem(o.F, o.V); ok && l.v.V == nil && !l.len && l.i == 1 && l.c == 0 {
				return intConst(int64(c)), true
			}
		}
		return AVal{}, false
	})
}

// escapedChars: the special characters, by plugin.
func escapedChars(P *Prog) map[string]map[rune]bool {
	out := map[string]map[rune]bool{}
	a := newAI(P)
	for _, h := range registrations(a, "EscapedChar") {
		c := handlerCaseT{a, h}
		if !c.alwaysRegistered() {
			continue
		}
		p := fnPkgPath(h.F.Fn)
		if out[p] == nil {
			out[p] = map[rune]bool{}
		}
		els, _, _ := a.listElems(VC{h.F, h.Args[1]})
		for _, e := range els {
			if is, ok := a.Eval(e).intConsts(); ok {
				for _, i := range is {
					out[p][rune(i)] = true
				}
			}
		}
		if len(els) == 0 {
			// a list of its own
			if v := a.ev(VC{h.F, h.Args[1]}); v.Str {
				for c := 1; c < 128; c++ {
					if v.bytes().has(byte(c)) {
						out[p][rune(c)] = true
					}
				}
			}
		}
	}
	return out
}

func pkgTail(p string) string { return p[strings.LastIndex(p, "/")+1:] }

func runes(m map[rune]bool) string {
	var l []string
	for c := range m {
		l = append(l, string(c))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func checkC15(P *Prog, r *Result) {
	r.Rule("registered", "every character for which an escape rule can answer something else than 'no' is registered as a special character by the same plugin", 8)
	r.Rule("answer", "each answer of an escape rule is -1, or at least one and at most what is left of the text", 8)
	r.Rule("marked", "every registered character of a text is marked", 1)
	r.Rule("followed", "every special character that a handler looks for behind the mark is registered by the same plugin", 1)
	esc := escapedChars(P)
	if len(esc) == 0 {
		r.Bad("registered", "special characters", "", "no special characters are registered")
		return
	}
	for _, e := range escRules(P) {
		pkg := fnPkgPath(e.F.Fn)
		pos := P.pos(e.Fn.Fn.Pos())
		acts := map[rune]bool{}
		for c := 1; c < 128; c++ {
			if c == 7 {
				continue
			}
			e.withFirst(byte(c))
			is, ok := e.a.retVal(e.Fn, 0).intConsts()
			if ok && len(is) == 1 && is[0] == -1 {
				continue
			}
			acts[rune(c)] = true
		}
		e.a.setHook(nil)
		switch {
		case len(acts) > 40:
			r.OK("registered", e.key(), pos, "not decided: the characters on which the rule acts are not tested at its index")
		case len(acts) == 0:
			r.Bad("registered", e.key(), pos, "the rule never answers anything but 'no'")
		default:
			miss := map[rune]bool{}
			for c := range acts {
				if !esc[pkg][c] {
					miss[c] = true
				}
			}
			r.Check(len(miss) == 0, "registered", e.key(), pos, "%s", ifelse(len(miss) == 0, "it acts on "+runes(acts)+", all are registered", "it acts on "+runes(miss)+", which is not registered by the "+pkgTail(pkg)+" plugin"))
		}
		bad, undecided := e.answers()
		switch {
		case bad != "":
			r.Bad("answer", e.key(), pos, "%s", bad)
		case undecided != "":
			r.OK("answer", e.key(), pos, "not decided: %s", undecided)
		default:
			r.OK("answer", e.key(), pos, "in range on every return")
		}
	}
	// marked
	all := map[rune]bool{}
	for _, m := range esc {
		for c := range m {
			all[c] = true
		}
	}
	for _, f := range escapers(P, "EscapeContent") {
		p := textParam(f)
		if p == nil {
			continue
		}
		isReg := func(a *AI, o Org) bool {
			if o.Path != "" {
				return false
			}
			var lk *ssa.Lookup
			switch x := o.V.(type) {
			case *ssa.Lookup:
				if !x.CommaOk {
					lk = x
				}
			case *ssa.Extract:
				if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
					lk = l
				}
			}
			if lk == nil {
				return false
			}
			m, ok := lk.X.Type().Underlying().(*types.Map)
			return ok && isCharType(m.Key())
		}
		skip := bsAll()
		for c := range all {
			if c < 128 {
				skip.del(byte(c))
			}
		}
		lost, ok := notWritten("text", skip, func(h leafHook, data bset) (*AI, *Frame) {
			a := newAI(P)
			a.setHook(modeHook(P, false, func(a *AI, o Org) (AVal, bool) {
				if o.Path == "" && o.V == ssa.Value(p) {
					return strBytes(data, lset("text")), true
				}
				if isReg(a, o) {
					return boolConst(true), true
				}
				return h(a, o)
			}))
			return a, a.Root(f)
		}, func(G *Frame) bool { return fnPkgPath(G.Fn) == convPath }, func(c byte) byte { return 7 })
		switch {
		case !ok:
			r.OK("marked", fkey(f), P.pos(f.Pos()), "not decided: no loop over the text was found")
		default:
			r.Check(lost.empty(), "marked", fkey(f), P.pos(f.Pos()), "%s", ifelse(lost.empty(), fmt.Sprintf("each of the %d special characters is marked", len(all)), "there is a way on which these characters are not marked: "+lost.String()))
		}
	}
	// followed
	n := 0
	done := map[string]bool{}
	for _, k := range []string{"Renderer", "RendererFor", "TextTransformer", "PostRenderer"} {
		for _, h := range handlersOf(P, k, func(a *AI) {}) {
			pkg := fnPkgPath(h.F.Fn)
			h.a.walkCalls(h.Fn, func(F *Frame, site ssa.CallInstruction) {
				nm := calleeName(site.Common())
				if !strings.HasPrefix(nm, "strings.") && !strings.HasPrefix(nm, "bytes.") || len(site.Common().Args) < 2 {
					return
				}
				ss, ok := h.a.Eval(VC{F, site.Common().Args[1]}).strConsts()
				if !ok {
					return
				}
				for _, s := range ss {
					if len(s) != 2 || s[0] != 7 {
						continue
					}
					key := fmt.Sprintf("%q in %s", s[1:], fkey(F.Fn))
					if done[key] {
						continue
					}
					done[key] = true
					n++
					good := esc[pkg][rune(s[1])]
					r.Check(good, "followed", key, P.ipos(site), "%s", ifelse(good, "it is registered by the "+pkgTail(pkg)+" plugin", "it is not registered by the "+pkgTail(pkg)+" plugin, so the mark never precedes it"))
				}
			})
		}
	}
	if n == 0 {
		r.OK("followed", "none", "", "no handler looks for a marked character")
	}
}

// answers checks the range of all returned values.
func (e escRule) answers() (bad, undecided string) {
	a := e.a
	seen := map[string]bool{}
	var check func(vc VC, blk *ssa.BasicBlock, d int)
	check = func(vc VC, blk *ssa.BasicBlock, d int) {
		k := fmt.Sprintf("%p %p %p", vc.F, vc.V, blk)
		if seen[k] || d > 20 || bad != "" {
			return
		}
		seen[k] = true
		l := e.linear(vc, 0)
		at := ""
		if in, ok := vc.V.(ssa.Instruction); ok {
			at = " (" + a.P.ipos(in) + ")"
		} else {
			at = " (" + a.P.ipos(blk.Instrs[len(blk.Instrs)-1]) + ")"
		}
		switch {
		case !l.ok:
			undecided = "a returned value is computed in another way" + at
			return
		case l.v.V == nil && !l.len && l.i == 0:
			if l.c == -1 || l.c == 1 {
				return
			}
			if l.c < 1 {
				bad = fmt.Sprintf("the answer can be %d%s", l.c, at)
				return
			}
			undecided = fmt.Sprintf("it returns the constant %d%s", l.c, at)
			return
		case l.v.V == nil && l.len && l.i == -1:
			// len - index + c
			if l.c > 0 {
				bad = "the answer can be larger than what is left of the text" + at
			} else if l.c < 0 {
				bad = "the answer can be less than one" + at
			}
			return
		case l.v.V == nil && (l.len && l.i >= 0 || !l.len && l.i != 0):
			bad = "the answer depends on the position in the text, it can be larger than what is left" + at
			return
		case l.v.V == nil:
			undecided = "a returned value is computed in another way" + at
			return
		}
		// base value
		switch x := l.v.V.(type) {
		case *ssa.Call, *ssa.Extract:
			if l.i == 0 && l.c == 0 {
				var c *ssa.Call
				idx := 0
				if y, ok := x.(*ssa.Call); ok {
					c = y
				} else {
					ex := x.(*ssa.Extract)
					c, _ = ex.Tuple.(*ssa.Call)
					idx = ex.Index
				}
				if c != nil {
					if frs, ok := a.calleeFrames(l.v.F, c); ok && len(frs) > 0 {
						for _, fr := range frs {
							for _, rs := range a.returnSites(fr, idx) {
								check(rs.VC, rs.blk, d+1)
							}
						}
						return
					}
				}
			}
		case *ssa.Phi:
			if l.i == 0 && l.c == 0 && !e.isCounter(x) {
				fi := a.feasible(l.v.F)
				for i, ed := range x.Edges {
					pb := x.Block().Preds[i]
					if !fi.dead[[2]int{pb.Index, x.Block().Index}] {
						check(VC{l.v.F, ed}, pb, d+1)
					}
				}
				return
			}
			if l.i == -1 {
				e.rangeOf(l, x, blk, at, d, &bad, &undecided)
				return
			}
			if l.i == 0 && e.isCounter(x) {
				if init := e.counterInit(l.v.F, x); init.ok && init.i == 1 && init.v.V == nil && !init.len {
					bad = "the answer is a position in the text, it can be larger than what is left" + at
					return
				}
			}
		}
		undecided = "a returned value is computed in another way" + at
	}
	for _, rs := range a.returnSites(e.Fn, 0) {
		check(rs.VC, rs.blk, 0)
	}
	return bad, undecided
}

// isCounter: a phi at the head of a loop.
func (e escRule) isCounter(x *ssa.Phi) bool {
	for i := range x.Edges {
		if x.Block().Dominates(x.Block().Preds[i]) {
			return true
		}
	}
	return false
}

func (e escRule) counterInit(F *Frame, x *ssa.Phi) lin {
	for i, ed := range x.Edges {
		if !x.Block().Dominates(x.Block().Preds[i]) {
			return e.linear(VC{F, ed}, 0)
		}
	}
	return lin{}
}

// rangeOf: the answer is x - index + c.
func (e escRule) rangeOf(l lin, x *ssa.Phi, blk *ssa.BasicBlock, at string, d int, bad, undecided *string) {
	F := l.v.F
	if !e.isCounter(x) {
		// one of several positions
		for i, ed := range x.Edges {
			pb := x.Block().Preds[i]
			m := e.linear(VC{F, ed}, 0)
			if !m.ok {
				*undecided = "a returned value is computed in another way" + at
				return
			}
			m.i += l.i
			m.c += l.c
			switch {
			case m.v.V == nil && m.len && m.i == -1:
				if m.c > 0 {
					*bad = "the answer can be larger than what is left of the text" + at
				} else if m.c < 0 {
					*bad = "the answer can be less than one" + at
				}
			case m.v.V != nil && m.i == -1 && d < 10:
				if p, ok := m.v.V.(*ssa.Phi); ok {
					e.rangeOf(m, p, pb, at, d+1, bad, undecided)
				} else {
					*undecided = "a returned value is computed in another way" + at
				}
			case m.v.V == nil && !m.len && m.i == 0:
				if m.c < 1 {
					*bad = fmt.Sprintf("the answer can be %d%s", m.c, at)
				}
			default:
				*undecided = "a returned value is computed in another way" + at
			}
			if *bad != "" {
				return
			}
		}
		return
	}
	init := e.counterInit(F, x)
	if !init.ok || init.v.V != nil || init.len || init.i != 1 {
		*undecided = "the position is found in another way" + at
		return
	}
	// steps
	for i, ed := range x.Edges {
		if !x.Block().Dominates(x.Block().Preds[i]) {
			continue
		}
		s := e.linear(VC{F, ed}, 0)
		if !s.ok || s.v.V != ssa.Value(x) || s.i != 0 || s.len || s.c != 1 {
			if s.ok && s.v.V == ssa.Value(x) && s.c < 0 {
				*undecided = "the position goes backwards" + at
				return
			}
			if p, ok := ed.(*ssa.Phi); !ok || !phiSteps(p, x) {
				*undecided = "the position moves in another way" + at
				return
			}
		}
	}
	if init.c+l.c < 1 {
		*bad = "the answer can be less than one" + at
		return
	}
	// guards: x < len (inside of the loop)
	guard, below := false, false
	for _, in := range x.Block().Parent().Blocks {
		ifi, ok := in.Instrs[len(in.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		lx, ly := e.linear(VC{F, b.X}, 0), e.linear(VC{F, b.Y}, 0)
		if !(lx.ok && ly.ok && lx.v.V == ssa.Value(x) && lx.i == 0 && lx.c == 0 && ly.len && ly.v.V == nil && ly.i == 0 && ly.c == 0) {
			continue
		}
		side := -1
		switch b.Op {
		case token.LSS:
			side = 0
		case token.GEQ:
			side = 1
		}
		if side < 0 {
			continue
		}
		loop := innerLoopOf(x)
		if loop != nil && !loop[in.Succs[1-side]] || in == x.Block() {
			guard = true
		}
		s := in.Succs[side]
		if len(s.Preds) == 1 && (s == blk || s.Dominates(blk)) {
			below = true
		}
	}
	switch {
	case !guard:
		*undecided = "the position is limited in another way" + at
	case below && l.c <= 1, !below && l.c <= 0:
	default:
		*bad = "the answer can be larger than what is left of the text" + at
	}
}

func innerLoopOf(x *ssa.Phi) map[*ssa.BasicBlock]bool {
	return loopBlocks(x.Parent(), x.Block())
}

// phiSteps: every way into p adds one to x.
func phiSteps(p, x *ssa.Phi) bool {
	for _, ed := range p.Edges {
		b, ok := ed.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(x) || !isIntConst(b.Y, 1) {
			return false
		}
	}
	return true
}

// ---- C16 ----

func checkC16(P *Prog, r *Result) {
	r.Rule("single", "a rule looks at no single fixed position next to its character, where a placeholder can be", 8)
	r.Rule("skipped", "in a search to the left or to the right a placeholder is passed over, and changes nothing else", 5)
	r.Rule("compared", "no part of the text is compared or decoded as a whole from a position where a placeholder can be", 8)
	for _, e := range escRules(P) {
		a := e.a
		pos := P.pos(e.Fn.Fn.Pos())
		var skipped, compared []string
		offs := map[string]string{}
		nskip := 0
		type ld struct {
			F *Frame
			v ssa.Value
			l lin
		}
		var loads []ld
		seen := map[*Frame]bool{}
		var frames []*Frame
		var visit func(F *Frame)
		visit = func(F *Frame) {
			if seen[F] || F.depth > 10 {
				return
			}
			seen[F] = true
			frames = append(frames, F)
			instrs(F.Fn, func(in ssa.Instruction) {
				if site, ok := in.(ssa.CallInstruction); ok {
					frs, _ := a.calleeFrames(F, site)
					for _, fr := range frs {
						visit(fr)
					}
				}
			})
		}
		visit(e.Fn)
		for _, F := range frames {
			instrs(F.Fn, func(in ssa.Instruction) {
				if v, ok := in.(ssa.Value); ok {
					if l, ok := e.elem(F, v); ok {
						loads = append(loads, ld{F, v, l})
					}
				}
				if c, ok := in.(*ssa.Call); ok {
					if w := e.whole(F, c); w != "" {
						compared = append(compared, w+" ("+P.ipos(c)+")")
					}
				}
			})
		}
		for _, x := range loads {
			if x.l.v.V == nil {
				if x.l.i == 1 && x.l.c == 0 {
					continue
				}
				if e.behindSkip(x.F, x.v) {
					continue
				}
				if x.l.i == 1 {
					offs[fmt.Sprintf("index%+d", x.l.c)] = fmt.Sprintf("the character at index%+d is looked at without passing over placeholders (%s)", x.l.c, P.ipos(x.v.(ssa.Instruction)))
				}
				continue
			}
			phi, ok := x.l.v.V.(*ssa.Phi)
			if !ok || !e.isCounter(phi) || x.l.v.F != x.F {
				continue
			}
			loop := innerLoopOf(phi)
			if !loop[x.v.(ssa.Instruction).Block()] {
				continue
			}
			nskip++
			// all loads at this position are the placeholder
			a.setHook(func(a *AI, o Org) (AVal, bool) {
				if o.Path == "" {
					switch o.V.(type) {
					case *ssa.UnOp, *ssa.Index:
						if l, ok := e.elem(o.F, o.V); ok && l.v == x.l.v && l.i == x.l.i && l.c == x.l.c {
							return intConst(7), true
						}
					}
				}
				return AVal{}, false
			})
			if w := e.passes(x.F, x.v.(ssa.Instruction).Block(), phi, loop); w != "" {
				skipped = append(skipped, w+" ("+P.ipos(x.v.(ssa.Instruction))+")")
			}
			a.setHook(nil)
		}
		skipped, compared = uniq(skipped), uniq(compared)
		if len(offs) == 0 {
			r.OK("single", e.key(), pos, "none")
		}
		var ol []string
		for o := range offs {
			ol = append(ol, o)
		}
		sort.Strings(ol)
		for _, o := range ol {
			r.Bad("single", e.key()+" "+o, pos, "%s", offs[o])
		}
		r.Check(len(compared) == 0, "compared", e.key(), pos, "%s", orElse(strings.Join(first(compared, 2), "; "), "none"))
		if nskip > 0 {
			r.Check(len(skipped) == 0, "skipped", e.key(), pos, "%s", orElse(strings.Join(first(skipped, 2), "; "), fmt.Sprintf("%d looks in searches", nskip)))
		}
	}
}

// behindSkip: an earlier test shows that this position holds a real character.
func (e escRule) behindSkip(F *Frame, v ssa.Value) bool {
	in := v.(ssa.Instruction)
	for d := in.Block().Idom(); d != nil; d = d.Idom() {
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		l1, ok1 := e.elem(F, v)
		l2, ok2 := e.elem(F, b.X)
		if ok1 && ok2 && l1 == l2 {
			if is, ok := e.a.Eval(VC{F, b.Y}).intConsts(); ok && len(is) == 1 && is[0] == 7 {
				return true
			}
		}
	}
	// it is the test for the placeholder itself
	if refs := v.Referrers(); refs != nil {
		for _, r := range *refs {
			if b, ok := r.(*ssa.BinOp); ok {
				for _, y := range []ssa.Value{b.X, b.Y} {
					if is, ok := e.a.Eval(VC{F, y}).intConsts(); ok && len(is) == 1 && is[0] == 7 {
						return true
					}
				}
			}
		}
	}
	return false
}

// whole: the call compares or decodes a part of the text in which a placeholder can be in the way.
func (e escRule) whole(F *Frame, c *ssa.Call) string {
	n := calleeName(c.Common())
	args := c.Call.Args
	if len(args) == 0 || !isStrBytes(args[0].Type()) {
		return ""
	}
	s, ok := e.sub(VC{F, args[0]})
	if !ok || !s.lo.ok {
		return ""
	}
	lo := s.lo
	fixedLo := lo.v.V == nil && !lo.len && lo.i == 1
	hi := lin{}
	if s.hi.V != nil {
		hi = e.linear(s.hi, 0)
	}
	fixedHi := s.hi.V != nil && hi.ok && hi.v.V == nil && !hi.len && hi.i == 1
	short := strings.TrimPrefix(strings.TrimPrefix(n, "bytes."), "strings.")
	pat := ""
	if len(args) > 1 {
		if ss, ok := e.a.Eval(VC{F, args[1]}).strConsts(); ok && len(ss) == 1 {
			pat = ss[0]
		}
	}
	isTrim := strings.HasPrefix(short, "Trim")
	switch {
	case n == "unicode/utf8.DecodeRune" || n == "unicode/utf8.DecodeRuneInString":
		if fixedLo && lo.c != 0 {
			return "the character at a fixed position is decoded without passing over placeholders"
		}
	case n == "unicode/utf8.DecodeLastRune" || n == "unicode/utf8.DecodeLastRuneInString":
		if fixedHi {
			return "the character before a fixed position is decoded without passing over placeholders"
		}
	case short == "HasPrefix":
		if fixedLo && (lo.c != 0 || len(pat) > 1) && n != short {
			return "the text at a fixed position is compared without passing over placeholders"
		}
	case short == "HasSuffix":
		if fixedHi && n != short {
			return "the text before a fixed position is compared without passing over placeholders"
		}
	case (short == "Contains" || short == "Index" || short == "LastIndex" || short == "Count") && n != short:
		if len(pat) > 1 && !strings.Contains(pat, bel) {
			return fmt.Sprintf("%q is searched for as a whole, although placeholders can be inside of it", pat)
		}
	case isTrim && n != short:
		if pat != "" && !strings.Contains(pat, bel) || short == "TrimSpace" {
			return "trimming stops at a placeholder"
		}
	}
	return ""
}

// passes: from the block, with the placeholder at the position, the search goes on unchanged.
func (e escRule) passes(F *Frame, from *ssa.BasicBlock, phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) string {
	fi := e.a.feasible(F)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) string
	walk = func(b *ssa.BasicBlock) string {
		if seen[b] {
			return ""
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return "a placeholder ends the search with an answer"
		}
		if !loop[b] {
			return "a placeholder ends the search"
		}
		for _, s := range b.Succs {
			if fi.dead[[2]int{b.Index, s.Index}] {
				continue
			}
			if s == phi.Block() {
				for _, in := range s.Instrs {
					q, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if q == phi {
						continue
					}
					for i, p := range s.Preds {
						if p == b && q.Edges[i] != ssa.Value(q) && e.decides(F, q, map[ssa.Value]bool{}) && !samePhi(q.Edges[i], q, fi, map[ssa.Value]bool{}) {
							return "a placeholder changes what the search remembers (" + q.Comment + ")"
						}
					}
				}
				continue
			}
			if w := walk(s); w != "" {
				return w
			}
		}
		return ""
	}
	return walk(from)
}

// decides: the value reaches a decision (and is not just part of the answer of the rule).
func (e escRule) decides(F *Frame, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Return:
			if F != e.Fn {
				return true
			}
		case *ssa.Phi:
			if e.decides(F, x, seen) {
				return true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB:
				if e.decides(F, x, seen) {
					return true
				}
			default:
				return true
			}
		default:
			return true
		}
	}
	return false
}

// samePhi: the value is the phi on all live ways.
func samePhi(v ssa.Value, q *ssa.Phi, fi *feasInfo, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(q) || seen[v] {
		return true
	}
	seen[v] = true
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for i, ed := range p.Edges {
		if fi.dead[[2]int{p.Block().Preds[i].Index, p.Block().Index}] {
			continue
		}
		if !samePhi(ed, q, fi, seen) {
			return false
		}
	}
	return true
}
