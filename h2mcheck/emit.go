package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The emission engine: a path-sensitive, interprocedural typestate analysis. It runs a finite automaton
// over everything that is written to a writer (or a local buffer) along every path of a renderer.

type Machine interface {
	Start() string
	Text(e *Emit, q, s string) string
	Value(e *Emit, q string, vc VC, v AVal) string
	Node(e *Emit, q string, k tkKind, vc VC) string
	Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string
}

type EState struct {
	Q     string
	Facts string // path facts, sorted
	RetOf ssa.Value
	RetF  *Frame
	RetV  string
}

type Exit struct {
	Q   string
	Ret string
	Pos token.Pos
	F   *Frame
}

type Emit struct {
	A      *AI
	M      Machine
	Root   VC
	memo   map[string][]Exit
	keys   map[*ssa.Function]map[string]int
	steps  int
	depth  int
	Trace  func(string)
	opaque bool
	stop   map[ssa.Instruction]map[string]bool // states at the watched instructions
	stopF  *Frame
	acc    *accum // the text that is followed, if it is not a writer
}

func newEmit(a *AI, m Machine, root VC) *Emit {
	return &Emit{A: a, M: m, Root: root, memo: map[string][]Exit{}, keys: map[*ssa.Function]map[string]int{}}
}

// Run analyses frame F from the start state.
func (e *Emit) Run(F *Frame) []Exit {
	return e.frame(F, EState{Q: e.M.Start()})
}

func (e *Emit) frame(F *Frame, in EState) []Exit {
	mk := fmt.Sprintf("%d|%s|%s", F.id, in.Q, in.Facts)
	if x, ok := e.memo[mk]; ok {
		return x
	}
	e.memo[mk] = nil
	var exits []Exit
	have := map[string]bool{}
	addExit := func(x Exit) {
		k := x.Q + "|" + x.Ret + "|" + fmt.Sprint(x.Pos)
		if !have[k] {
			have[k] = true
			exits = append(exits, x)
		}
	}
	fi := e.A.feasible(F)
	seen := map[*ssa.BasicBlock]map[EState]bool{}
	type item struct {
		b *ssa.BasicBlock
		s EState
	}
	var work []item
	push := func(b *ssa.BasicBlock, s EState) {
		if seen[b] == nil {
			seen[b] = map[EState]bool{}
		}
		if seen[b][s] {
			return
		}
		if len(seen[b]) > 400 {
			// give up on path facts
			s.Facts = in.Facts
			s.RetOf = nil
			if seen[b][s] || len(seen[b]) > 2000 {
				return
			}
		}
		seen[b][s] = true
		work = append(work, item{b, s})
	}
	push(F.Fn.Blocks[0], in)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []EState{it.s}
		b := it.b
		e.steps++
		for _, in2 := range b.Instrs {
			if e.stop != nil && e.stopF == F {
				if m, ok := e.stop[in2]; ok {
					for _, s := range states {
						m[s.Q] = true
					}
				}
			}
			switch x := in2.(type) {
			case *ssa.Call:
				states = e.call(F, x, states)
			case *ssa.BinOp:
				if e.acc != nil {
					if toks := e.accTokens(F, x); len(toks) > 0 {
						states = e.tokens(F, nil, toks, states)
					}
				}
			case *ssa.Defer:
				if e.acc == nil && len(e.A.writeTokens(F, x, e.Root)) > 0 {
					for i := range states {
						states[i].Q = e.M.Node(e, states[i].Q, tkOpaque, VC{F, x.Call.Value})
					}
				}
			case *ssa.Return:
				for _, s := range states {
					for _, r := range e.retVals(F, x, s) {
						addExit(Exit{s.Q, r, x.Pos(), F})
					}
				}
			}
		}
		if len(b.Instrs) == 0 {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		ifi, isIf := last.(*ssa.If)
		for si, succ := range b.Succs {
			if fi.dead[[2]int{b.Index, succ.Index}] {
				continue
			}
			for _, s := range states {
				ns := s
				if isIf && b.Succs[0] != b.Succs[1] {
					ok := true
					ns, ok = e.branch(F, ifi, s, si == 0)
					if !ok {
						continue
					}
				}
				ns = e.enter(F, b, succ, ns)
				push(succ, ns)
			}
		}
	}
	e.memo[mk] = exits
	return exits
}

func factSet(fs string, k, v string) string {
	var out []string
	if fs != "" {
		for _, f := range strings.Split(fs, ";") {
			if !strings.HasPrefix(f, k+"=") {
				out = append(out, f)
			}
		}
	}
	if v != "" {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}
func factGet(fs string, k string) (string, bool) {
	if fs == "" {
		return "", false
	}
	for _, f := range strings.Split(fs, ";") {
		if strings.HasPrefix(f, k+"=") {
			return f[len(k)+1:], true
		}
	}
	return "", false
}

// enter records which value the phis of succ get, and drops facts about values that are computed anew.
func (e *Emit) enter(F *Frame, from, succ *ssa.BasicBlock, s EState) EState {
	if succ.Dominates(from) { // back edge
		pre := fmt.Sprintf("F%d:", F.id)
		var out []string
		if s.Facts != "" {
			for _, f := range strings.Split(s.Facts, ";") {
				if strings.HasPrefix(f, pre) {
					continue
				}
				out = append(out, f)
			}
		}
		s.Facts = strings.Join(out, ";")
		if s.RetF == F {
			s.RetOf, s.RetV, s.RetF = nil, "", nil
		}
		if countedHeader(succ) || e.fullText(F, succ) {
			s.Facts = factSet(s.Facts, fmt.Sprintf("F%d:i%d", F.id, succ.Index), "n")
		}
		return s
	}
	idx := -1
	for i, p := range succ.Preds {
		if p == from {
			idx = i
		}
	}
	// loop headers: values change
	for _, p := range succ.Preds {
		if succ.Dominates(p) {
			if countedHeader(succ) || e.fullText(F, succ) {
				s.Facts = factSet(s.Facts, fmt.Sprintf("F%d:i%d", F.id, succ.Index), "f")
			}
			return s
		}
	}
	for i, in := range succ.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 || idx >= len(phi.Edges) {
			break
		}
		_, basic := phi.Type().Underlying().(*types.Basic)
		if !basic && !isStrBytes(phi.Type()) && !isContainer(phi.Type()) {
			continue
		}
		s.Facts = factSet(s.Facts, fmt.Sprintf("F%d:p%d.%d", F.id, succ.Index, i), fmt.Sprint(idx))
	}
	return s
}

// fullText: a loop over the characters of the content, which is assumed not to be empty where the form of a
// construct is compared.
func (e *Emit) fullText(F *Frame, hdr *ssa.BasicBlock) bool {
	if _, ok := e.M.(*tmplMachine); !ok {
		return false
	}
	t := loopText(hdr)
	return t != nil && isContentVal(e.A.Eval(VC{F, t}))
}

// resolve follows phis along the path.
func (e *Emit) resolve(F *Frame, v ssa.Value, s EState) ssa.Value {
	for n := 0; n < 20; n++ {
		phi, ok := v.(*ssa.Phi)
		if !ok {
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
				continue
			}
			return v
		}
		pi := -1
		for i, in := range phi.Block().Instrs {
			if in == ssa.Instruction(phi) {
				pi = i
			}
		}
		f, ok := factGet(s.Facts, fmt.Sprintf("F%d:p%d.%d", F.id, phi.Block().Index, pi))
		if !ok {
			return v
		}
		var ei int
		fmt.Sscan(f, &ei)
		v = phi.Edges[ei]
	}
	return v
}

func constKey(c constant.Value) string {
	if c == nil {
		return "nil"
	}
	return c.ExactString()
}

func (e *Emit) retVals(F *Frame, r *ssa.Return, s EState) []string {
	if len(r.Results) == 0 {
		return []string{""}
	}
	v := e.resolve(F, r.Results[0], s)
	if s.RetOf == v && s.RetF == F {
		return []string{s.RetV}
	}
	av := e.A.Eval(VC{F, v})
	if av.Top || av.Str || len(av.Consts) == 0 {
		return []string{"?"}
	}
	var out []string
	for _, c := range av.Consts {
		out = append(out, constKey(c))
	}
	sort.Strings(out)
	return out
}

func (e *Emit) call(F *Frame, call *ssa.Call, states []EState) []EState {
	var toks []Tok
	if e.acc != nil {
		toks = e.accTokens(F, call)
	} else {
		toks = e.A.writeTokens(F, call, e.Root)
	}
	if len(toks) == 0 {
		return states
	}
	return e.tokens(F, call, toks, states)
}

func (e *Emit) tokens(F *Frame, call *ssa.Call, toks []Tok, states []EState) []EState {
	var out []EState
	have := map[EState]bool{}
	add := func(s EState) {
		if !have[s] {
			have[s] = true
			out = append(out, s)
		}
	}
	for _, s := range states {
		cur := []EState{s}
		for _, t := range toks {
			var next []EState
			for _, c := range cur {
				switch t.Kind {
				case tkInline:
					frs, _ := e.A.calleeFrames(F, call)
					for _, fr := range frs {
						e.depth++
						for _, x := range e.frame(fr, EState{Q: c.Q, Facts: c.Facts}) {
							n := c
							n.Q = x.Q
							n.RetOf, n.RetF, n.RetV = call, F, x.Ret
							next = append(next, n)
						}
						e.depth--
					}
				case tkWrite:
					for _, q := range e.text(c, t) {
						n := c
						n.Q = q
						next = append(next, n)
					}
				default:
					n := c
					n.Q = e.M.Node(e, c.Q, t.Kind, t.VC)
					next = append(next, n)
				}
			}
			cur = next
		}
		for _, c := range cur {
			add(c)
		}
	}
	return out
}

func (e *Emit) text(s EState, t Tok) []string {
	if t.VC.V == nil {
		return []string{e.M.Text(e, s.Q, t.Lit)}
	}
	if t.Num {
		av := e.A.Eval(t.VC)
		if is, ok := av.intConsts(); ok && len(is) == 1 && !t.Hex {
			return []string{e.M.Text(e, s.Q, fmt.Sprint(is[0]))}
		}
		return []string{e.M.Value(e, s.Q, t.VC, t.digits())}
	}
	return e.value([]string{s.Q}, t.VC, s, t.Rune, 0)
}

// value feeds a (possibly composed) text value to the automaton.
func (e *Emit) value(qs []string, vc VC, s EState, rn bool, depth int) []string {
	each := func(f func(q string) []string) []string {
		m := map[string]bool{}
		var out []string
		for _, q := range qs {
			for _, r := range f(q) {
				if !m[r] {
					m[r] = true
					out = append(out, r)
				}
			}
		}
		return out
	}
	vc.V = e.resolve(vc.F, vc.V, s)
	av := e.A.Eval(vc)
	if rn {
		av = runeText(av)
	}
	if ss, ok := av.strConsts(); ok && len(ss) <= 6 && len(av.Labels) == 0 {
		return each(func(q string) []string {
			var out []string
			for _, c := range ss {
				out = append(out, e.M.Text(e, q, c))
			}
			return out
		})
	}
	if depth < 10 && !rn && av.Labels["repeat"] {
		if _, ok := e.A.loopRepeat(vc); ok {
			return each(func(q string) []string { return []string{e.M.Value(e, q, vc, av)} })
		}
	}
	if call, ok := vc.V.(*ssa.Call); ok && depth < 10 && !rn {
		switch calleeName(call.Common()) {
		case "bytes.Join", "strings.Join":
			if out, ok := e.joined(qs, vc.F, call.Call.Args[0], call.Call.Args[1], s, depth); ok {
				return out
			}
		}
	}
	if depth < 10 && !rn {
		if alts, ok := e.parts(vc, s, depth); ok {
			m := map[string]bool{}
			var out []string
			_, full := factGet(s.Facts, fmt.Sprintf("F%d:ne%s", vc.F.id, vc.V.Name()))
			for _, seq := range alts {
				if full && len(seq) == 1 && seq[0].V != nil {
					if c, ok := seq[0].V.(*ssa.Const); ok && (c.Value == nil || c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "") {
						continue
					}
				}
				cur := qs
				for _, p := range seq {
					if p.V == nil {
						continue
					}
					cur = e.value(cur, p, s, false, depth+1)
				}
				for _, q := range cur {
					if !m[q] {
						m[q] = true
						out = append(out, q)
					}
				}
			}
			return out
		}
		if call, ok := vc.V.(*ssa.Call); ok && calleeName(call.Common()) == "fmt.Sprintf" {
			c := call.Common()
			if toks, ok := e.A.fmtToks(vc.F, c.Args[0], c.Args[1], call); ok && len(toks) > 0 {
				cur := qs
				for _, t := range toks {
					m := map[string]bool{}
					var next []string
					for _, q := range cur {
						ts := s
						ts.Q = q
						for _, r := range e.text(ts, t) {
							if !m[r] {
								m[r] = true
								next = append(next, r)
							}
						}
					}
					cur = next
				}
				return cur
			}
		}
		// a text that was built up in a variable
		if out, ok := e.accumulated(qs, vc); ok {
			return out
		}
		// a local buffer that was filled before
		if call, ok := vc.V.(*ssa.Call); ok {
			switch calleeName(call.Common()) {
			case "(bytes.Buffer).Bytes", "(bytes.Buffer).String", "(strings.Builder).String":
				if out, ok := e.nested(qs, vc.F, call); ok {
					return out
				}
			}
		}
	}
	if m, ok := e.M.(composedMachine); ok && depth < 24 {
		return each(func(q string) []string { return m.Composed(e, q, vc, av, s, depth) })
	}
	return each(func(q string) []string { return []string{e.M.Value(e, q, vc, av)} })
}

// composedMachine: a machine that looks into values itself.
type composedMachine interface {
	Composed(e *Emit, q string, vc VC, v AVal, s EState, depth int) []string
}

// nested runs the automaton over what was written to a local buffer.
func (e *Emit) nested(qs []string, F *Frame, call *ssa.Call) ([]string, bool) {
	os := e.A.values(VC{F, call.Common().Args[0]})
	if len(os) != 1 {
		return nil, false
	}
	al, ok := os[0].V.(*ssa.Alloc)
	if !ok || os[0].F != F || al.Parent() != F.Fn || os[0].Path != "" {
		return nil, false
	}
	var out []string
	for _, q := range qs {
		sub := newEmit(e.A, e.M, os[0].VC)
		sub.depth = e.depth + 1
		sub.stopF = F
		sub.stop = map[ssa.Instruction]map[string]bool{call: {}}
		sub.frame(F, EState{Q: q})
		for r := range sub.stop[call] {
			out = append(out, r)
		}
	}
	sort.Strings(out)
	return out, len(out) > 0
}

// parts splits a composed value into alternatives of sequences.
func (e *Emit) parts(vc VC, s EState, depth int) ([][]VC, bool) {
	F := vc.F
	switch x := vc.V.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && isStrBytes(x.Type()) {
			return [][]VC{{{F, x.X}, {F, x.Y}}}, true
		}
	case *ssa.Convert:
		if isStrBytes(x.Type()) && isStrBytes(x.X.Type()) {
			return [][]VC{{{F, x.X}}}, true
		}
	case *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
		var ops [1]*ssa.Value
		o := vc.V.(ssa.Instruction).Operands(ops[:0])
		return [][]VC{{{F, *o[0]}}}, true
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return [][]VC{{{F, x.X}}}, true
			}
		}
	case *ssa.Phi:
		fi := e.A.feasible(F)
		for _, p := range x.Block().Preds {
			if x.Block().Dominates(p) {
				return nil, false
			}
		}
		var out [][]VC
		for i, ed := range x.Edges {
			if !fi.dead[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				out = append(out, []VC{{F, ed}})
			}
		}
		return out, true
	case *ssa.Parameter:
		args := e.A.paramArgs(F, x)
		e.A.elemStores(F, x, func(*ssa.Store) { args = nil })
		if len(args) > 0 {
			var out [][]VC
			for _, g := range args {
				out = append(out, []VC{g})
			}
			return out, true
		}
	case *ssa.FreeVar:
		if F.Clo != nil {
			for i, fv := range F.Fn.FreeVars {
				if fv == x && i < len(F.Clo.Bindings) {
					return [][]VC{{{F.CloF, F.Clo.Bindings[i]}}}, true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			os := e.A.values(vc)
			var out [][]VC
			for _, o := range os {
				if o.Path != "" || o.VC == vc {
					return nil, false
				}
				if emptyLeaf(o.V) && startOf(e.A, o.VC, os) {
					continue
				}
				out = append(out, []VC{o.VC})
			}
			return out, len(out) > 0
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return e.callParts(F, call, x.Index)
		}
	case *ssa.Call:
		name := calleeName(x.Common())
		switch name {
		case "builtin.append":
			if isStrBytes(x.Common().Args[0].Type()) {
				return [][]VC{{{F, x.Common().Args[0]}, {F, x.Common().Args[1]}}}, true
			}
			return nil, false
		case "bytes.Clone", "strings.Clone", "slices.Clone":
			return [][]VC{{{F, x.Common().Args[0]}}}, true
		case "slices.Concat":
			if vs, ok := e.A.seqVals(F, x.Common().Args[0]); ok {
				return [][]VC{vs}, true
			}
			return nil, false
		case "bytes.Join", "strings.Join":
			return nil, false
		}
		return e.callParts(F, x, 0)
	}
	return nil, false
}

// startOf: the empty text is only the start of another one that is built up from it.
func startOf(a *AI, vc VC, os []Org) bool {
	for _, o := range os {
		if o.F != vc.F || o.VC == vc || emptyLeaf(o.V) || !isStrBytes(o.V.Type()) {
			continue
		}
		if ac := a.accumulator(o.VC); ac.ok {
			return true
		}
	}
	return false
}

func (e *Emit) callParts(F *Frame, call *ssa.Call, idx int) ([][]VC, bool) {
	name := calleeName(call.Common())
	if isLeafCall(name) || strings.HasPrefix(name, domPath) {
		return nil, false
	}
	frs, complete := e.A.calleeFrames(F, call)
	if len(frs) == 0 || !complete {
		return nil, false
	}
	var out [][]VC
	for _, fr := range frs {
		for _, r := range e.A.returns(fr, idx) {
			out = append(out, []VC{r})
		}
	}
	return out, len(out) > 0
}

// condKey gives a key for a condition, so that two tests of the same thing are recognised.
func (e *Emit) condKey(v ssa.Value, depth int) (string, bool) {
	if depth > 6 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "#" + x.String(), true
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc, *ssa.Phi, *ssa.Global:
		return v.Name(), true
	case *ssa.BinOp:
		a, ok1 := e.condKey(x.X, depth+1)
		b, ok2 := e.condKey(x.Y, depth+1)
		return "(" + a + x.Op.String() + b + ")", ok1 && ok2
	case *ssa.UnOp:
		a, ok := e.condKey(x.X, depth+1)
		if !ok {
			return "", false
		}
		if x.Op == token.MUL && storedElsewhere(x) {
			return v.Name(), true
		}
		return x.Op.String() + a, true
	case *ssa.FieldAddr:
		a, ok := e.condKey(x.X, depth+1)
		return a + fieldName(x.X.Type(), x.Field), ok
	case *ssa.Field:
		a, ok := e.condKey(x.X, depth+1)
		return a + fieldName(x.X.Type(), x.Field), ok
	case *ssa.Call:
		n := calleeName(x.Common())
		if n == "builtin.len" || n == domPath+".NodeName" || strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "strings.") {
			k := n
			for _, g := range x.Common().Args {
				a, ok := e.condKey(g, depth+1)
				if !ok {
					return "", false
				}
				k += "," + a
			}
			return k + ")", true
		}
		return v.Name(), true
	case *ssa.Convert:
		a, ok := e.condKey(x.X, depth+1)
		return "cv" + a, ok
	case *ssa.ChangeType:
		return e.condKey(x.X, depth+1)
	}
	return v.Name(), true
}

// storedElsewhere: the function stores to the location that is loaded (so two loads can differ).
func storedElsewhere(l *ssa.UnOp) bool {
	fa, ok := l.X.(*ssa.FieldAddr)
	if !ok {
		if al, ok := l.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					n++
				}
			}
			return n > 1
		}
		return true
	}
	res := false
	instrs(l.Parent(), func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if fb, ok := st.Addr.(*ssa.FieldAddr); ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
				if !st.Block().Dominates(l.Block()) || st.Block() == l.Block() {
					res = true
				}
			}
		}
	})
	return res
}

// normCond strips negations: the key is for the positive form.
func (e *Emit) normCond(v ssa.Value) (string, bool, bool) {
	pol := true
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v = u.X
			pol = !pol
			continue
		}
		break
	}
	if b, ok := v.(*ssa.BinOp); ok {
		x, ok1 := e.condKey(b.X, 0)
		y, ok2 := e.condKey(b.Y, 0)
		if ok1 && ok2 {
			switch b.Op {
			case token.EQL:
				return x + "==" + y, pol, true
			case token.NEQ:
				return x + "==" + y, !pol, true
			case token.LSS:
				return x + "<" + y, pol, true
			case token.GEQ:
				return x + "<" + y, !pol, true
			case token.GTR:
				return y + "<" + x, pol, true
			case token.LEQ:
				return y + "<" + x, !pol, true
			}
		}
		return "", pol, false
	}
	k, ok := e.condKey(v, 0)
	return k, pol, ok
}

func (e *Emit) keyCount(fn *ssa.Function, key string) int {
	m, ok := e.keys[fn]
	if !ok {
		m = map[string]int{}
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if k, _, ok := e.normCond(ifi.Cond); ok {
					m[k]++
				}
			}
		}
		e.keys[fn] = m
	}
	return m[key]
}

func (e *Emit) branch(F *Frame, ifi *ssa.If, s EState, taken bool) (EState, bool) {
	// known by the path?
	cond := e.resolve(F, ifi.Cond, s)
	if c, ok := cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) != taken {
			return s, false
		}
	}
	// the answer of a helper on this path
	for c, t := cond, taken; c != nil; {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, t = u.X, !t
			continue
		}
		if c == s.RetOf && s.RetF == F && (s.RetV == "true" && !t || s.RetV == "false" && t) {
			return s, false
		}
		break
	}
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		l, r := e.resolve(F, b.X, s), e.resolve(F, b.Y, s)
		lv, rv := "", ""
		get := func(v ssa.Value) string {
			if v == s.RetOf && s.RetF == F && s.RetV != "?" {
				return s.RetV
			}
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				return constKey(c.Value)
			}
			return ""
		}
		lv, rv = get(l), get(r)
		if lv != "" && rv != "" {
			eq := lv == rv
			if (b.Op == token.EQL) != eq == taken {
				return s, false
			}
		}
	}
	if !e.counterAllows(F, cond, s, taken) {
		return s, false
	}
	if !taken && e.fullText(F, ifi.Block()) {
		if f, _ := factGet(s.Facts, fmt.Sprintf("F%d:i%d", F.id, ifi.Block().Index)); f == "f" {
			return s, false
		}
	}
	if key, pol, ok := e.normCond(ifi.Cond); ok {
		fk := fmt.Sprintf("F%d:c%s", F.id, strings.NewReplacer(";", ",", "=", "~").Replace(key))
		val := "F"
		if taken == pol {
			val = "T"
		}
		if have, ok := factGet(s.Facts, fk); ok {
			if have != val {
				return s, false
			}
		} else if e.keyCount(F.Fn, key) >= 2 {
			s.Facts = factSet(s.Facts, fk, val)
		}
	}
	if v := nonEmptyBy(cond, taken); v != nil {
		if alts, ok := e.parts(VC{F, v}, s, 0); ok && len(alts) > 1 {
			s.Facts = factSet(s.Facts, fmt.Sprintf("F%d:ne%s", F.id, v.Name()), "1")
		}
	}
	s.Q = e.M.Branch(e, s.Q, F, cond, taken)
	return s, true
}

// nonEmptyBy: the text that is known not to be empty if the branch is taken.
func nonEmptyBy(cond ssa.Value, taken bool) ssa.Value {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	v := b.X
	if c, ok := v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
		if !isIntConst(b.Y, 0) {
			return nil
		}
		v = c.Call.Args[0]
	} else if c, ok := b.Y.(*ssa.Const); !ok || c.Value != nil && !(c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "") {
		return nil
	}
	if !isStrBytes(v.Type()) {
		return nil
	}
	switch b.Op {
	case token.EQL, token.LEQ:
		if !taken {
			return v
		}
	case token.NEQ, token.GTR:
		if taken {
			return v
		}
	}
	return nil
}

// ---- handlers and scenarios ----

type handlerReg struct {
	Kind string // Renderer, RendererFor, PreRenderer, ...
	Site ssa.CallInstruction
	F    *Frame
	Fn   *Frame // frame of the handler
	Prio AVal
	Args []ssa.Value
	Tag  string
}

// registrations finds what the built-in plugins register.
func registrations(a *AI, kinds ...string) []handlerReg {
	P := a.P
	var out []handlerReg
	for _, init := range pluginInits(P) {
		F := a.Root(init)
		a.walkCalls(F, func(F *Frame, site ssa.CallInstruction) {
			name := calleeName(site.Common())
			pre := "(" + modPath + "/converter.register)."
			if !strings.HasPrefix(name, pre) {
				return
			}
			k := name[len(pre):]
			if len(kinds) > 0 {
				ok := false
				for _, x := range kinds {
					ok = ok || x == k
				}
				if !ok {
					return
				}
			}
			args := site.Common().Args
			h := handlerReg{Kind: k, Site: site, F: F, Args: args}
			fi := 1
			if k == "RendererFor" {
				fi = 3
				if s, ok := a.Eval(VC{F, args[1]}).strConsts(); ok && len(s) == 1 {
					h.Tag = s[0]
				}
			}
			if k == "TagType" || k == "EscapedChar" || k == "Plugin" {
				out = append(out, h)
				return
			}
			h.Prio = a.Eval(VC{F, args[len(args)-1]})
			for _, o := range a.values(VC{F, args[fi]}) {
				g := h
				switch v := o.V.(type) {
				case *ssa.Function:
					g.Fn = a.frame(v, nil, nil, nil, nil)
				case *ssa.MakeClosure:
					g.Fn = a.frame(v.Fn.(*ssa.Function), nil, nil, v, o.F)
				}
				out = append(out, g)
			}
		})
	}
	return out
}

// pluginInits: the Init methods of the plugins of the repository.
func pluginInits(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Name() == "Init" && f.Signature.Recv() != nil && f.Synthetic == "" && strings.HasPrefix(fnPkgPath(f), modPath+"/plugin/") {
			if f.Signature.Params().Len() == 1 && isNamed(f.Signature.Params().At(0).Type(), modPath+"/converter", "Converter") {
				out = append(out, f)
			}
		}
	}
	return out
}

// walkCalls visits the calls of a frame and of the functions that it enters.
func (a *AI) walkCalls(F *Frame, fn func(F *Frame, site ssa.CallInstruction)) {
	seen := map[*Frame]bool{}
	var walk func(F *Frame)
	walk = func(F *Frame) {
		if seen[F] || F.depth > 10 {
			return
		}
		seen[F] = true
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				fn(F, site)
				frs, _ := a.calleeFrames(F, site)
				for _, fr := range frs {
					walk(fr)
				}
			}
		}
	}
	walk(F)
}

// eachFrame visits the frames that are entered from F (including closures that are called by library functions).
func (a *AI) eachFrame(F *Frame, fn func(F *Frame)) {
	seen := map[*Frame]bool{}
	var walk func(F *Frame)
	walk = func(F *Frame) {
		if seen[F] || F.depth > 10 {
			return
		}
		seen[F] = true
		fn(F)
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				if site, ok := in.(ssa.CallInstruction); ok {
					frs, _ := a.calleeFrames(F, site)
					for _, fr := range frs {
						walk(fr)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && a.inlined(mc.Fn.(*ssa.Function)) {
					walk(a.frame(mc.Fn.(*ssa.Function), nil, nil, mc, F))
				}
			}
		}
	}
	walk(F)
}

// Scen is a scenario: what is known about the node and the configuration.
type Scen struct {
	Name    string // name of the element; "" = unknown
	Data    string // data of a comment
	TagType string
	Cfg     map[string]AVal // field name -> value
	Node    VC
	Extra   func(a *AI, o Org) (AVal, bool)
}

func (sc *Scen) hook(a *AI, o Org) (AVal, bool) {
	if sc.Extra != nil {
		if v, ok := sc.Extra(a, o); ok {
			return v, ok
		}
	}
	if o.Path == "" {
		switch x := o.V.(type) {
		case *ssa.Call:
			if sc.Name != "" && calleeName(x.Common()) == domPath+".NodeName" && a.isNode(VC{o.F, x.Common().Args[0]}, sc.Node) {
				return strConst(sc.Name), true
			}
			if sc.Name != "" && strings.HasPrefix(calleeName(x.Common()), domPath+".NameIs") {
				if ss, ok := a.ev(VC{o.F, x.Common().Args[0]}).strConsts(); ok && len(ss) == 1 {
					if v, ok := domNameIs(calleeName(x.Common()), ss[0]); ok {
						return boolConst(v), true
					}
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && sc.TagType != "" && strings.HasSuffix(calleeName(c.Common()), "converter.Context).GetTagType") {
				if ls := a.ev(VC{o.F, c.Common().Args[0]}); ls.Labels["nodename"] || !ls.Top {
					if x.Index == 0 {
						return strConst(sc.TagType), true
					}
					return boolConst(true), true
				}
			}
		}
		return AVal{}, false
	}
	// fields
	if sc.Name != "" && o.VC == sc.Node {
		switch {
		case strings.TrimLeft(o.Path, "*") == ".Data":
			if sc.Name == "#comment" || sc.Name == "#text" {
				if sc.Data != "" {
					return strConst(sc.Data), true
				}
				return AVal{}, false
			}
			return strConst(sc.Name), true
		case strings.TrimLeft(o.Path, "*") == ".Type":
			if sc.Name == "#comment" {
				return intConst(4), true
			}
			if sc.Name == "#text" {
				return intConst(1), true
			}
			return intConst(3), true
		}
	}
	if sc.Cfg != nil && !strings.HasPrefix(o.Path, "zero") {
		i := strings.LastIndex(o.Path, ".")
		if i >= 0 {
			if v, ok := sc.Cfg[o.Path[i+1:]]; ok && isPluginStruct(o.V.Type()) {
				return v, true
			}
		}
	}
	return AVal{}, false
}

func isPluginStruct(t types.Type) bool {
	t = types.Unalias(t)
	for {
		p, ok := t.(*types.Pointer)
		if !ok {
			break
		}
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/plugin/")
}

func domNameIs(fn, name string) (bool, bool) {
	switch fn[strings.LastIndex(fn, ".")+1:] {
	case "NameIsHeading":
		return len(name) == 2 && name[0] == 'h' && name[1] >= '1' && name[1] <= '6', true
	}
	return false, false
}

func (a *AI) isNode(vc VC, node VC) bool {
	os := a.values(vc)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if o.VC != node || o.Path != "" {
			return false
		}
	}
	return true
}

// renderStatus returns the keys of the two status constants.
func renderStatus(P *Prog) (success, tryNext string) {
	p := P.Pkg("converter")
	get := func(n string) string {
		if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
			return constKey(c.Val())
		}
		return "missing"
	}
	return get("RenderSuccess"), get("RenderTryNext")
}

// counter: v is a loop counter (plus a constant); its first value and the header of the loop.
func counter(v ssa.Value) (hdr *ssa.BasicBlock, init int64, ok bool) {
	var add int64
	if b, isB := v.(*ssa.BinOp); isB && (b.Op == token.ADD || b.Op == token.SUB) {
		c, isC := b.Y.(*ssa.Const)
		if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
			return
		}
		add = c.Int64()
		if b.Op == token.SUB {
			add = -add
		}
		v = b.X
	}
	phi, isP := v.(*ssa.Phi)
	if !isP {
		return
	}
	have := false
	for i, p := range phi.Block().Preds {
		e := phi.Edges[i]
		if phi.Block().Dominates(p) {
			b, isB := e.(*ssa.BinOp)
			if !isB || b.Op != token.ADD || b.X != ssa.Value(phi) {
				return nil, 0, false
			}
			c, isC := b.Y.(*ssa.Const)
			if !isC || c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() < 1 {
				return nil, 0, false
			}
			continue
		}
		c, isC := e.(*ssa.Const)
		if !isC || c.Value == nil || c.Value.Kind() != constant.Int || have && c.Int64() != init {
			return nil, 0, false
		}
		init, have = c.Int64(), true
	}
	return phi.Block(), init + add, have
}

// counterCond: a comparison of a loop counter with a constant.
func counterCond(cond ssa.Value) (hdr *ssa.BasicBlock, init, c int64, op token.Token, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB {
		return
	}
	y, isC := b.Y.(*ssa.Const)
	if !isC || y.Value == nil || y.Value.Kind() != constant.Int {
		return
	}
	hdr, init, ok = counter(b.X)
	return hdr, init, y.Int64(), b.Op, ok
}

var countedMemo sync.Map

// countedHeader: some condition compares the counter of the loop with a constant.
func countedHeader(hdr *ssa.BasicBlock) bool {
	if v, ok := countedMemo.Load(hdr); ok {
		return v.(bool)
	}
	found := false
	instrs(hdr.Parent(), func(in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok && !found {
			if h, _, _, _, ok := counterCond(v); ok && h == hdr {
				found = true
			}
		}
	})
	countedMemo.Store(hdr, found)
	return found
}

// counterAllows: can the condition have this outcome in this round of the loop?
func (e *Emit) counterAllows(F *Frame, cond ssa.Value, s EState, taken bool) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	hdr, init, c, op, ok := counterCond(cond)
	if !ok {
		return true
	}
	f, ok := factGet(s.Facts, fmt.Sprintf("F%d:i%d", F.id, hdr.Index))
	if !ok {
		return true
	}
	if f == "f" {
		r := false
		switch op {
		case token.EQL:
			r = init == c
		case token.NEQ:
			r = init != c
		case token.LSS:
			r = init < c
		case token.LEQ:
			r = init <= c
		case token.GTR:
			r = init > c
		case token.GEQ:
			r = init >= c
		default:
			return true
		}
		return r == taken
	}
	// a later round: at least one more
	low := init + 1
	switch op {
	case token.EQL:
		return !taken || c >= low
	case token.NEQ:
		return taken || c >= low
	case token.LSS:
		return !taken || low < c
	case token.LEQ:
		return !taken || low <= c
	case token.GTR:
		return taken || low <= c
	case token.GEQ:
		return taken || low < c
	}
	return true
}
