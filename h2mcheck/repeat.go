package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// repeatOf: the value is a text repeated a number of times (a call of Repeat, or a loop that writes one thing n times).
func (a *AI) repeatOf(vc VC) (unit, count VC, rn bool, ok bool) {
	switch x := vc.V.(type) {
	case *ssa.Call:
		name := calleeName(x.Common())
		args := x.Call.Args
		switch name {
		case "strings.Repeat", "bytes.Repeat":
			return VC{vc.F, args[0]}, VC{vc.F, args[1]}, false, true
		case "(bytes.Buffer).Bytes", "(bytes.Buffer).String", "(strings.Builder).String":
			var tok *Tok
			for _, o := range a.values(VC{vc.F, args[0]}) {
				al, isAl := o.V.(*ssa.Alloc)
				if !isAl || o.Path != "" || o.F != vc.F || al.Parent() != vc.F.Fn {
					return
				}
				bad := false
				a.eachUse(o.VC, func(u Use) {
					call, isCall := u.In.(ssa.CallInstruction)
					if !isCall {
						return
					}
					for _, t := range a.writeTokens(u.F, call, o.VC) {
						t := t
						if tok != nil || t.Kind != tkWrite || u.F != vc.F || t.VC.V == nil && t.Lit == "" {
							bad = true
						}
						tok = &t
					}
				})
				if bad {
					return
				}
			}
			if tok == nil || tok.In == nil {
				return
			}
			n, isLoop := countedBlock(vc.F.Fn, tok.In.Block())
			if !isLoop || tok.VC.V == nil {
				return
			}
			return tok.VC, VC{vc.F, n}, tok.Rune, true
		}
	case *ssa.Phi:
		// s := ""; for i := 0; i < n; i++ { s += unit }
		if !isStrBytes(x.Type()) {
			return
		}
		f := x.Parent()
		var l *loop
		for _, k := range loopsOf(f) {
			if k.head == x.Block() {
				l = k
			}
		}
		if l == nil {
			return
		}
		var u ssa.Value
		for i, e := range x.Edges {
			if !l.body[x.Block().Preds[i]] {
				if ss, isC := a.Eval(VC{vc.F, e}).strConsts(); !emptyLeaf(e) && (!isC || len(ss) != 1 || ss[0] != "") {
					return
				}
				continue
			}
			if c, isC := e.(*ssa.Call); isC && calleeName(c.Common()) == "builtin.append" && c.Call.Args[0] == ssa.Value(x) && u == nil {
				// b = append(b, unit)
				n, isLoop := countedBlock(f, c.Block())
				vs, isSeq := a.seqVals(vc.F, c.Call.Args[1])
				if !isLoop || innerLoop(f, c.Block()).head != l.head || isSeq && len(vs) != 1 {
					return
				}
				count = VC{vc.F, n}
				u = c.Call.Args[1]
				if isSeq {
					u, rn = vs[0].V, !isStrBytes(vs[0].V.Type())
					if vs[0].F != vc.F {
						return
					}
				}
				continue
			}
			b, isB := e.(*ssa.BinOp)
			if !isB || b.Op != token.ADD || b.X != ssa.Value(x) || u != nil && u != b.Y {
				return
			}
			u = b.Y
			n, isLoop := countedBlock(f, b.Block())
			if !isLoop || innerLoop(f, b.Block()).head != l.head {
				return
			}
			count = VC{vc.F, n}
		}
		if u == nil || count.V == nil {
			return
		}
		return VC{vc.F, u}, count, rn, true
	}
	return
}

// countedBlock: the block is run exactly n times, by a loop that counts to n.
func countedBlock(f *ssa.Function, b *ssa.BasicBlock) (ssa.Value, bool) {
	l := innerLoop(f, b)
	if l == nil || b == l.head {
		return nil, false
	}
	for x := range l.body {
		for _, s := range x.Succs {
			if !l.body[s] && x != l.head {
				return nil, false
			}
		}
		if x != l.head {
			if k := innerLoop(f, x); k.head != l.head {
				return nil, false
			}
		}
	}
	for _, p := range l.latches() {
		if !b.Dominates(p) {
			return nil, false
		}
	}
	// not inside of another loop
	for _, k := range loopsOf(f) {
		if k.head != l.head && k.body[b] {
			return nil, false
		}
	}
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	c, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	op, x, y := c.Op, c.X, c.Y
	if !l.body[l.head.Succs[0]] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != l.head {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}[op]
		phi, ok = x.(*ssa.Phi)
		if !ok || phi.Block() != l.head {
			return nil, false
		}
	}
	var init ssa.Value
	step := token.ILLEGAL
	for i, e := range phi.Edges {
		if !l.body[phi.Block().Preds[i]] {
			init = e
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(phi) || !isIntConst(bo.Y, 1) || bo.Op != token.ADD && bo.Op != token.SUB {
			return nil, false
		}
		if step != token.ILLEGAL && step != bo.Op {
			return nil, false
		}
		step = bo.Op
	}
	if in, ok := y.(ssa.Instruction); ok && l.body[in.Block()] {
		return nil, false
	}
	switch {
	case step == token.ADD && op == token.LSS && isIntConst(init, 0), step == token.ADD && op == token.LEQ && isIntConst(init, 1):
		return y, true
	case step == token.SUB && op == token.GTR && isIntConst(y, 0), step == token.SUB && op == token.GEQ && isIntConst(y, 1):
		return init, init != nil
	}
	return nil, false
}

// loopRepeat: a loop (not a call of Repeat) that makes a repeated text.
func (a *AI) loopRepeat(vc VC) (AVal, bool) {
	if c, ok := vc.V.(*ssa.Call); ok && strings.HasSuffix(calleeName(c.Common()), ".Repeat") {
		return AVal{}, false
	}
	switch vc.V.(type) {
	case *ssa.Call, *ssa.Phi:
	default:
		return AVal{}, false
	}
	u, n, rn, ok := a.repeatOf(vc)
	if !ok {
		return AVal{}, false
	}
	v := a.ev(u)
	if rn {
		v = runeText(v)
	}
	if ns, ok := a.ev(n).intConsts(); ok && len(ns) == 1 && ns[0] >= 0 && ns[0] < 64 {
		if ss, ok := v.strConsts(); ok && len(ss) == 1 && !v.Str {
			return strConst(strings.Repeat(ss[0], int(ns[0]))), true
		}
	}
	if v.bot() {
		return v, true
	}
	return AVal{Str: true, B: v.bytes(), Labels: v.Labels}.label("repeat"), true
}
