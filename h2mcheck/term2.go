package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- recursion ----

// relOf: how an argument is related to a parameter: "same", or the direction through the tree.
func relOf(v ssa.Value, p *ssa.Parameter, seen map[ssa.Value]bool) map[string]bool {
	out := map[string]bool{}
	if v == ssa.Value(p) {
		out["same"] = true
		return out
	}
	if seen[v] {
		return out
	}
	seen[v] = true
	with := func(x ssa.Value, f string) {
		for r := range relOf(x, p, seen) {
			if f == "" {
				out[r] = true
			} else if r == "same" {
				out[f] = true
			} else if r == "U" && f == "U" {
				out["U"] = true
			} else {
				out["?"] = true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		with(x.X, "")
	case *ssa.Phi:
		for _, e := range x.Edges {
			with(e, "")
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && isHTMLNode(x.Type()) {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				with(fa.X, map[string]string{".FirstChild": "F", ".LastChild": "F", ".NextSibling": "F", ".PrevSibling": "B", ".Parent": "U"}[fieldName(fa.X.Type(), fa.Field)])
				return out
			}
		}
		out["?"] = true
	default:
		out["?"] = true
	}
	return out
}

// repeats: the call calls the function that it is in with the arguments that this function was called with.
func (t *termRun) repeats(f *ssa.Function, site ssa.CallInstruction) bool {
	c := site.Common()
	if c.IsInvoke() {
		return false
	}
	cs := t.P.Callees(site)
	if len(cs) != 1 || cs[0] != f || len(c.Args) != len(f.Params) || len(f.Params) == 0 {
		return false
	}
	for i, arg := range c.Args {
		if !relOf(arg, f.Params[i], map[ssa.Value]bool{})["same"] {
			return false
		}
	}
	// is something changed before that decides about the call?
	reads, w := newEffect(), newEffect()
	before := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		for _, p := range b.Preds {
			if !before[p] {
				before[p] = true
				visit(p)
			}
		}
	}
	visit(site.Block())
	seen := map[ssa.Value]bool{}
	var use func(v ssa.Value)
	use = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] {
			return
		}
		seen[v] = true
		if in != site.(ssa.Instruction) {
			t.instrEffect(in, reads, 0)
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				use(*op)
			}
		}
	}
	instrs(f, func(in ssa.Instruction) {
		if in == site.(ssa.Instruction) {
			return
		}
		if !before[in.Block()] && !(in.Block() == site.Block() && instrBefore(in, site.(ssa.Instruction))) {
			return
		}
		if x, ok := in.(ssa.CallInstruction); ok {
			if cs := t.P.Callees(x); len(cs) == 1 && cs[0] == f {
				return // what it does is what the others do
			}
		}
		t.instrEffect(in, w, 0)
		if ifi, ok := in.(*ssa.If); ok {
			use(ifi.Cond)
		}
	})
	return !w.unknown && !w.hits(reads)
}

// ---- rendering ----

// framesBelow: the function and all functions of the repository that it calls.
func framesBelow(a *AI, F *Frame) []*Frame {
	var out []*Frame
	seen := map[*Frame]bool{}
	var visit func(F *Frame)
	visit = func(F *Frame) {
		if seen[F] || len(out) > 400 {
			return
		}
		seen[F] = true
		out = append(out, F)
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					frs, _ := a.calleeFrames(F, c)
					for _, fr := range frs {
						visit(fr)
					}
				}
			}
		}
	}
	visit(F)
	return out
}

// rendersItself: a call in a renderer that renders the element (or one around it) again.
func (t *termRun) rendersItself(c *rcase) (bad string, at ssa.Instruction, n int) {
	a := c.a
	frs := framesBelow(a, c.F)
	renames := false
	for _, F := range frs {
		instrs(F.Fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isHTMLNode(fa.X.Type()) {
					renames = true
				}
			}
		})
	}
	for _, F := range frs {
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := calleeName(call.Common())
				if !isLeafCall(name) {
					continue
				}
				m := name[strings.LastIndex(name, ".")+1:]
				if m != "RenderNodes" && m != "RenderChildNodes" || len(call.Call.Args) != 3 {
					continue
				}
				n++
				vs := []VC{{F, call.Call.Args[2]}}
				if m == "RenderNodes" {
					vs, ok = a.seqVals(F, call.Call.Args[2])
					if !ok {
						continue
					}
				}
				for _, vc := range vs {
					for _, o := range t.leaves(a, vc, map[VC]bool{}) {
						if o.VC != c.n {
							continue
						}
						up := o.Path != ""
						for _, f := range strings.Split(strings.TrimPrefix(strings.ReplaceAll(o.Path, "*", ""), "."), ".") {
							up = up && f == "Parent"
						}
						switch {
						case up:
							return "an element around the one that is rendered is rendered again", in, n
						case o.Path == "" && m == "RenderNodes" && !renames:
							return "the element is rendered by rendering it again", in, n
						}
					}
				}
			}
		}
	}
	return "", nil, n
}

func (t *termRun) leaves(a *AI, vc VC, seen map[VC]bool) []Org {
	if seen[vc] {
		return nil
	}
	seen[vc] = true
	return a.values(vc)
}

// ---- what the handlers for the escaping return ----

// steps: "" if every result is -1 or positive, "?" if that is not known.
func (t *termRun) steps(a *AI, F *Frame, d int, seen map[*Frame]bool) (why string, at ssa.Instruction) {
	if seen[F] || d > 6 {
		return "", nil
	}
	seen[F] = true
	for _, rs := range a.returnSites(F, 0) {
		last := rs.blk.Instrs[len(rs.blk.Instrs)-1]
		w, p := t.step1(a, rs.VC, rs.blk, d, seen, last)
		if w != "" && (why == "" || why == "?") {
			why, at = w, p
		}
	}
	return
}

func (t *termRun) step1(a *AI, vc VC, blk *ssa.BasicBlock, d int, seen map[*Frame]bool, last ssa.Instruction) (string, ssa.Instruction) {
	if ns, ok := a.Eval(vc).intConsts(); ok {
		for _, n := range ns {
			if n != -1 && n < 1 {
				return fmt.Sprintf("the handler can return %d, with which the same character is looked at again", n), last
			}
		}
		return "", nil
	}
	switch x := vc.V.(type) {
	case *ssa.Call:
		frs, complete := a.calleeFrames(vc.F, x)
		if !complete || len(frs) == 0 {
			return "?", last
		}
		why, at := "", ssa.Instruction(nil)
		for _, fr := range frs {
			w, p := t.steps(a, fr, d+1, seen)
			if w != "" && (why == "" || why == "?") {
				why, at = w, p
			}
		}
		return why, at
	case *ssa.Phi:
		why, at := "", ssa.Instruction(nil)
		if isLoopHeader(x.Block()) {
			return "?", last
		}
		fi := a.feasible(vc.F)
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if fi.dead[[2]int{p.Index, x.Block().Index}] {
				continue
			}
			w, q := t.step1(a, VC{vc.F, e}, p, d, seen, last)
			if w != "" && (why == "" || why == "?") {
				why, at = w, q
			}
		}
		return why, at
	case *ssa.BinOp:
		if x.Op == token.SUB || x.Op == token.ADD {
			lo, ok := t.above(a, vc, map[ssa.Value]bool{})
			if !ok {
				return "?", last
			}
			if lo < 1 && !isPositive(x, blk) {
				return "the handler can return a number that is not positive, with which the same character is looked at again", last
			}
			return "", nil
		}
	}
	return "?", last
}

// isPositive: a condition in front of the block says that the number is positive.
func isPositive(v ssa.Value, blk *ssa.BasicBlock) bool {
	for d := blk.Idom(); d != nil; d = d.Idom() {
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		b, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		about := sameExpr(b.X, v, 0)
		if s, ok := v.(*ssa.BinOp); ok && s.Op == token.SUB {
			about = about || sameExpr(b.X, s.X, 0) && sameExpr(b.Y, s.Y, 0) || sameExpr(b.X, s.Y, 0) && sameExpr(b.Y, s.X, 0)
		}
		if !about {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && (s == blk || s.Dominates(blk)) {
				_ = k
				return true
			}
		}
	}
	return false
}

// above: a lower limit of the difference of two positions in the text.
func (t *termRun) above(a *AI, vc VC, seen map[ssa.Value]bool) (int64, bool) {
	x, ok := vc.V.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	if x.Op == token.ADD {
		for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if ns, ok := a.Eval(VC{vc.F, s[1]}).intConsts(); ok && len(ns) > 0 {
				lo, known := t.above(a, VC{vc.F, s[0]}, seen)
				return lo + minInt(ns), known
			}
		}
		return 0, false
	}
	if x.Op != token.SUB {
		return 0, false
	}
	if ns, ok := a.Eval(VC{vc.F, x.Y}).intConsts(); ok && len(ns) > 0 {
		lo, known := t.above(a, VC{vc.F, x.X}, seen)
		return lo - maxInt(ns), known
	}
	return t.relLow(a, vc.F, x.X, x.Y, seen)
}

// relLow: v - base is at least this.
func (t *termRun) relLow(a *AI, F *Frame, v, base ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
	const far = int64(1) << 40
	if v == base {
		return 0, true
	}
	if seen[v] {
		return far, true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if calleeName(x.Common()) == "builtin.len" {
			// the base is a position in the text
			in := false
			instrs(F.Fn, func(i ssa.Instruction) {
				ia, ok := i.(*ssa.IndexAddr)
				in = in || ok && ia.Index == base && sameExpr(ia.X, x.Call.Args[0], 0)
			})
			if in {
				return 1, true
			}
		}
	case *ssa.BinOp:
		ns, ok := a.Eval(VC{F, x.Y}).intConsts()
		if !ok || len(ns) == 0 {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			lo, known := t.relLow(a, F, x.X, base, seen)
			return lo + minInt(ns), known
		case token.SUB:
			lo, known := t.relLow(a, F, x.X, base, seen)
			return lo - maxInt(ns), known
		}
	case *ssa.Phi:
		seen[v] = true
		defer delete(seen, v)
		out := far
		fi := a.feasible(F)
		for i, e := range x.Edges {
			if fi.dead[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				continue
			}
			lo, known := t.relLow(a, F, e, base, seen)
			if !known {
				return 0, false
			}
			if lo > far/2 {
				if lo < far {
					return 0, false // it goes back
				}
				continue
			}
			out = min(out, lo)
		}
		return out, out < far/2 || out == far
	}
	return 0, false
}

// ---- the check ----

func checkC07(P *Prog, r *Result) {
	r.Rule("loops", "no way around a loop leaves everything that decides about its end as it was, moves a counter away from its end, or goes through the tree in two directions", 60)
	r.Rule("recursion", "no function calls itself with the arguments that it was called with", 3)
	r.Rule("rendering", "no renderer renders its own element, or one around it, again", 2)
	r.Rule("steps", "the handlers that recognise markdown return -1 or a positive number, so that the search for it goes on behind it", 10)
	a := newAI(P)
	t := &termRun{P: P, a: a, sums: map[*ssa.Function]*effect{}}
	paths, open := 0, 0
	for _, f := range P.Funcs {
		if !P.InRepo(f) || f.Blocks == nil || strings.HasPrefix(fnPkgPath(f), modPath+"/internal/tester") {
			continue
		}
		F := a.Root(f)
		fi := a.feasible(F)
		for i, l := range loopsOf(f) {
			if !fi.live[l.head.Index] {
				continue
			}
			why, at, n, all := t.stuck(F, l)
			paths += n
			if !all {
				open++
			}
			key := fmt.Sprintf("%s: loop %d", fkey(f), i+1)
			pos := P.pos(f.Pos())
			if why != "" {
				pos = P.ipos(at)
			}
			r.Check(why == "", "loops", key, pos, "%s", orElse(why, fmt.Sprintf("%d ways around the loop", n)))
		}
		k := 0
		instrs(f, func(in ssa.Instruction) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cs := P.Callees(site)
			if len(cs) != 1 || cs[0] != f {
				return
			}
			k++
			bad := t.repeats(f, site)
			r.Check(!bad, "recursion", fmt.Sprintf("%s: call %d", fkey(f), k), P.ipos(in), "%s", ifelse(bad, "the function calls itself with the same arguments", "the arguments are others"))
		})
	}
	r.Count("ways around loops", paths)
	r.Count("loops with more ways than were looked at", open)
	calls := 0
	for _, c := range handlerCases(P, Scen{}) {
		why, at, n := t.rendersItself(c)
		calls += n
		pos := P.pos(c.F.Fn.Pos())
		if why != "" {
			pos = P.ipos(at)
		}
		r.Check(why == "", "rendering", c.key, pos, "%s", orElse(why, fmt.Sprintf("%d calls render nodes below the element", n)))
	}
	r.Count("calls that render nodes", calls)
	for _, g := range registrations(a, "UnEscaper") {
		if g.Fn == nil {
			continue
		}
		why, at := t.steps(a, g.Fn, 0, map[*Frame]bool{})
		pos := P.pos(g.Fn.Fn.Pos())
		if why != "" && why != "?" {
			pos = P.ipos(at)
		}
		r.Check(why == "" || why == "?", "steps", "handler "+fkey(g.Fn.Fn), pos, "%s", ifelse(why == "?", "not decided", orElse(why, "every result is -1 or positive")))
	}
}
