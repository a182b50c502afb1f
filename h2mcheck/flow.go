package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Seq follows the instructions of a frame, and of the functions it enters, in execution order and
// runs a finite automaton over them.
type Seq struct {
	a *AI
	// Step handles an instruction: the next state, and whether the instruction is done with
	// (a call is then not entered).
	Step func(F *Frame, in ssa.Instruction, q string) (string, bool)
	// Edge (optional) is called for branch edges; ok=false drops the path.
	Edge func(F *Frame, ifi *ssa.If, taken bool, q string) (string, bool)
	memo map[seqKey]map[string]bool
	busy map[seqKey]bool
	chg  bool
}

type seqKey struct {
	F *Frame
	q string
}

func (s *Seq) Run(F *Frame, q string) []string {
	s.memo = map[seqKey]map[string]bool{}
	var out map[string]bool
	for i := 0; i < 10; i++ {
		s.chg = false
		s.busy = map[seqKey]bool{}
		out = s.frame(F, q)
		if !s.chg {
			break
		}
	}
	var r []string
	for k := range out {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *Seq) frame(F *Frame, q string) map[string]bool {
	k := seqKey{F, q}
	if s.busy[k] {
		return s.memo[k]
	}
	s.busy[k] = true
	fi := s.a.feasible(F)
	in := map[int]map[string]bool{0: {q: true}}
	work := []int{0}
	exits := map[string]bool{}
	var defers []*ssa.Defer
	for _, b := range F.Fn.Blocks {
		if !fi.live[b.Index] {
			continue
		}
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	done := map[int]map[string]bool{}
	for len(work) > 0 {
		bi := work[0]
		work = work[1:]
		b := F.Fn.Blocks[bi]
		cur := map[string]bool{}
		if done[bi] == nil {
			done[bi] = map[string]bool{}
		}
		for x := range in[bi] {
			if !done[bi][x] {
				done[bi][x] = true
				cur[x] = true
			}
		}
		if len(cur) == 0 {
			continue
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				continue
			}
			if _, ok := i.(*ssa.RunDefers); ok {
				for j := len(defers) - 1; j >= 0; j-- {
					cur = s.instr(F, defers[j], cur)
				}
				continue
			}
			cur = s.instr(F, i, cur)
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			for x := range cur {
				exits[x] = true
			}
		default:
			_ = t
		}
		for si, sb := range b.Succs {
			if fi.dead[[2]int{b.Index, sb.Index}] {
				continue
			}
			for x := range cur {
				y := x
				if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && s.Edge != nil {
					var keep bool
					y, keep = s.Edge(F, ifi, si == 0, x)
					if !keep {
						continue
					}
				}
				if in[sb.Index] == nil {
					in[sb.Index] = map[string]bool{}
				}
				if !in[sb.Index][y] {
					in[sb.Index][y] = true
					work = append(work, sb.Index)
				}
			}
		}
	}
	old := s.memo[k]
	for x := range exits {
		if !old[x] {
			s.chg = true
		}
	}
	s.memo[k] = exits
	return exits
}

func (s *Seq) instr(F *Frame, in ssa.Instruction, cur map[string]bool) map[string]bool {
	out := map[string]bool{}
	for q := range cur {
		n, done := s.Step(F, in, q)
		if done {
			if n != "" {
				out[n] = true
			}
			continue
		}
		site, ok := in.(ssa.CallInstruction)
		if !ok {
			out[n] = true
			continue
		}
		if _, isGo := in.(*ssa.Go); isGo {
			out[n] = true
			continue
		}
		frs, complete := s.a.calleeFrames(F, site)
		for _, fr := range frs {
			for x := range s.frame(fr, n) {
				out[x] = true
			}
		}
		if len(frs) == 0 || !complete {
			out[n] = true
		}
	}
	return out
}

// dynSig: the signature of a call through a function value (not a method of an interface).
func dynSig(site ssa.CallInstruction) *types.Signature {
	c := site.Common()
	if c.IsInvoke() || c.StaticCallee() != nil {
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	s, _ := c.Value.Type().Underlying().(*types.Signature)
	return s
}

// handlerSig finds the signature of one of the handler types of the converter package.
func handlerSig(P *Prog, typ string) *types.Signature {
	n := P.NamedType("converter", typ)
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Signature)
	return s
}

// lift brings two program points to their innermost common frame.
func lift(F1 *Frame, i1 ssa.Instruction, F2 *Frame, i2 ssa.Instruction) (F *Frame, a, b ssa.Instruction) {
	type pt struct {
		F  *Frame
		in ssa.Instruction
	}
	up := func(F *Frame, in ssa.Instruction) []pt {
		var out []pt
		for F != nil {
			out = append(out, pt{F, in})
			if F.Site == nil {
				break
			}
			in = F.Site
			F = F.Up
		}
		return out
	}
	l1, l2 := up(F1, i1), up(F2, i2)
	for _, p := range l1 {
		for _, q := range l2 {
			if p.F == q.F {
				return p.F, p.in, q.in
			}
		}
	}
	return nil, nil, nil
}

// before: (F1,i1) runs before (F2,i2) on every path to the latter (within their common frame).
func before(F1 *Frame, i1 ssa.Instruction, F2 *Frame, i2 ssa.Instruction) bool {
	F, a, b := lift(F1, i1, F2, i2)
	return F != nil && a != b && instrBefore(a, b)
}

// ---- loops ----

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func loopsOf(f *ssa.Function) []*loop {
	var out []*loop
	for _, h := range f.Blocks {
		isHead := false
		for _, p := range h.Preds {
			if h.Dominates(p) {
				isHead = true
			}
		}
		if isHead {
			out = append(out, &loop{h, loopBlocks(f, h)})
		}
	}
	return out
}

// innerLoop: the innermost loop that contains a block.
func innerLoop(f *ssa.Function, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range loopsOf(f) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// latches: the blocks from which the loop goes around.
func (l *loop) latches() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, p := range l.head.Preds {
		if l.body[p] {
			out = append(out, p)
		}
	}
	return out
}

// fullIteration decides whether the loop around the element access visits every element of the
// slice in order: the index starts at the first element, goes up by one, the loop goes on until the
// end of that slice and is not left otherwise (under the scenario).
func (a *AI) fullIteration(F *Frame, ia *ssa.IndexAddr) (bool, string, *loop) {
	l := innerLoop(F.Fn, ia.Block())
	if l == nil {
		return false, "the element is not accessed in a loop", nil
	}
	fi := a.feasible(F)
	// index: phi (or phi+1)
	idx := ia.Index
	step := func(v ssa.Value) (ssa.Value, int64, bool) {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok {
				return b.X, c.Int64(), true
			}
			if c, ok := b.X.(*ssa.Const); ok {
				return b.Y, c.Int64(), true
			}
		}
		return v, 0, false
	}
	base, off, _ := step(idx)
	phi, ok := base.(*ssa.Phi)
	if !ok || phi.Block() != l.head {
		return false, "the index does not count up from the start", l
	}
	for i, e := range phi.Edges {
		if l.body[phi.Block().Preds[i]] {
			x, s, ok := step(e)
			if !ok || x != ssa.Value(phi) || s != 1 {
				return false, "the index does not go up by one", l
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64()+off != 0 {
			return false, "the iteration does not start with the first element", l
		}
	}
	// exits
	for b := range l.body {
		if !fi.live[b.Index] {
			continue
		}
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return false, "the loop is left before the end", l
		}
		for _, s := range b.Succs {
			if l.body[s] || fi.dead[[2]int{b.Index, s.Index}] {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b != l.head {
				if isPanicBlock(s) {
					continue
				}
				return false, "the loop is left before the end", l
			}
			cmp, ok := ifi.Cond.(*ssa.BinOp)
			if !ok {
				return false, "the loop does not run to the end of the list", l
			}
			x, y, op := cmp.X, cmp.Y, cmp.Op
			if op == token.GTR {
				x, y, op = y, x, token.LSS
			}
			if op == token.NEQ {
				op = token.LSS
			}
			if op != token.LSS || b.Succs[0] == s {
				return false, "the loop does not run to the end of the list", l
			}
			xb, xo, _ := step(x)
			if xb != ssa.Value(phi) || xo != off {
				return false, "the loop does not run to the end of the list", l
			}
			if !a.isLenOf(F, y, ia.X) {
				return false, "the loop does not run to the end of the list", l
			}
		}
	}
	return true, "all elements, in order", l
}

// onEveryRound: the instruction runs in every iteration.
func (a *AI) onEveryRound(F *Frame, l *loop, in ssa.Instruction) bool {
	fi := a.feasible(F)
	for _, p := range l.latches() {
		if fi.dead[[2]int{p.Index, l.head.Index}] || !fi.live[p.Index] {
			continue
		}
		if !a.liveDominates(F, l, in.Block(), p) {
			return false
		}
	}
	return true
}

// liveDominates: every live path inside of the loop from its head to block p goes through block d.
func (a *AI) liveDominates(F *Frame, l *loop, d, p *ssa.BasicBlock) bool {
	fi := a.feasible(F)
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		if b == d || seen[b] {
			return false
		}
		seen[b] = true
		if b == p {
			return true
		}
		for _, s := range b.Succs {
			if s == l.head || !l.body[s] || fi.dead[[2]int{b.Index, s.Index}] {
				continue
			}
			if reach(s) {
				return true
			}
		}
		return false
	}
	return !reach(l.head)
}

func isPanicBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// isLenOf: v is the length of the slice s (as values of the same frame).
func (a *AI) isLenOf(F *Frame, v, s ssa.Value) bool {
	for _, o := range a.values(VC{F, v}) {
		c, ok := o.V.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "builtin.len" || o.Path != "" {
			return false
		}
		x := c.Call.Args[0]
		if x == s && o.F == F {
			continue
		}
		if !a.sameOrg(VC{o.F, x}, VC{F, s}) {
			return false
		}
	}
	return true
}

func (a *AI) sameOrg(x, y VC) bool {
	if x == y {
		return true
	}
	ox, oy := a.values(x), a.values(y)
	return len(ox) == 1 && len(oy) == 1 && ox[0] == oy[0]
}

// fieldOf resolves a component of a struct value.
func (a *AI) fieldOf(vc VC, path string) []Org {
	var out []Org
	have := map[Org]bool{}
	a.vals(vc, path, map[VC]bool{}, func(o Org) {
		if !have[o] {
			have[o] = true
			out = append(out, o)
		}
	})
	return out
}

// ---- iteration over the children of a node ----

type childLoop struct {
	*loop
	phi    *ssa.Phi
	parent ssa.Value       // the node whose children are visited
	next   ssa.Instruction // load of the next sibling
}

func nodeField(v ssa.Value, field string) (ssa.Value, *ssa.UnOp) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !isNamed(fa.X.Type(), htmlPath, "Node") {
		return nil, nil
	}
	if fieldName(fa.X.Type(), fa.Field) != "."+field {
		return nil, nil
	}
	return fa.X, u
}

// childLoops finds the loops over the child list of a node.
func childLoops(f *ssa.Function) []*childLoop {
	var out []*childLoop
	for _, l := range loopsOf(f) {
		for _, in := range l.head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !isHTMLNode(phi.Type()) {
				continue
			}
			cl := &childLoop{loop: l, phi: phi}
			good := true
			for i, e := range phi.Edges {
				if l.body[phi.Block().Preds[i]] {
					x, ld := nodeField(e, "NextSibling")
					if x != ssa.Value(phi) {
						good = false
						break
					}
					cl.next = ld
				} else {
					x, _ := nodeField(e, "FirstChild")
					if x == nil {
						good = false
						break
					}
					cl.parent = x
				}
			}
			if good && cl.next != nil && cl.parent != nil {
				out = append(out, cl)
			}
		}
	}
	return out
}
