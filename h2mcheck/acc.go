package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// An accumulator is a text that is built up step by step in variables (acc = append(acc, ...), s += ...).
// Its members are the versions of the variable; appends to members count as writes to a writer.
type accum struct {
	member map[VC]bool
	loop   bool // some version is carried around a loop
	ok     bool
}

func emptyLeaf(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == ""
	case *ssa.MakeSlice:
		return isZeroConst(x.Len)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if x.High != nil {
				return isZeroConst(x.High)
			}
			if p, ok := al.Type().Underlying().(*types.Pointer); ok {
				if ar, ok := p.Elem().Underlying().(*types.Array); ok && ar.Len() == 0 {
					return true
				}
			}
		}
	}
	return false
}

func (a *AI) accumulator(vc VC) *accum {
	ac := &accum{member: map[VC]bool{}, ok: true}
	entered := map[*Frame]bool{vc.F: true}
	appends := 0
	var visit func(vc VC)
	visit = func(vc VC) {
		if !ac.ok || ac.member[vc] {
			return
		}
		if !isStrBytes(vc.V.Type()) {
			ac.ok = false
			return
		}
		switch x := vc.V.(type) {
		case *ssa.Phi:
			ac.member[vc] = true
			fi := a.feasible(vc.F)
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				if fi.dead[[2]int{p.Index, x.Block().Index}] {
					continue
				}
				if x.Block().Dominates(p) {
					ac.loop = true
				}
				visit(VC{vc.F, e})
			}
			return
		case *ssa.Call:
			if calleeName(x.Common()) == "builtin.append" {
				ac.member[vc] = true
				appends++
				visit(VC{vc.F, x.Common().Args[0]})
				return
			}
			frs, complete := a.calleeFrames(vc.F, x)
			if complete && len(frs) == 1 && !isLeafCall(calleeName(x.Common())) {
				fr := frs[0]
				// a helper that extends the text that it is given
				gets := false
				for _, g := range x.Common().Args {
					if ac.member[VC{vc.F, g}] {
						gets = true
					}
				}
				if gets || entered[fr] {
					ac.member[vc] = true
					entered[fr] = true
					for _, r := range a.returns(fr, 0) {
						visit(r)
					}
					return
				}
			}
			ac.ok = false
			return
		case *ssa.BinOp:
			if x.Op == token.ADD {
				ac.member[vc] = true
				appends++
				visit(VC{vc.F, x.X})
				return
			}
		case *ssa.ChangeType:
			ac.member[vc] = true
			visit(VC{vc.F, x.X})
			return
		case *ssa.Convert:
			if isStrBytes(x.X.Type()) {
				ac.member[vc] = true
				visit(VC{vc.F, x.X})
				return
			}
		case *ssa.Parameter:
			if entered[vc.F] && vc.F.Site != nil {
				args := a.paramArgs(vc.F, x)
				if len(args) == 1 && ac.member[args[0]] {
					ac.member[vc] = true
					return
				}
			}
		}
		if emptyLeaf(vc.V) {
			return
		}
		ac.ok = false
	}
	visit(vc)
	if appends == 0 || !ac.loop {
		ac.ok = false
	}
	return ac
}

// accTokens: what an instruction adds to the accumulator.
func (e *Emit) accTokens(F *Frame, in ssa.Instruction) []Tok {
	v, ok := in.(ssa.Value)
	if !ok || !e.acc.member[VC{F, v}] {
		return nil
	}
	switch x := in.(type) {
	case *ssa.Call:
		c := x.Common()
		if calleeName(c) == "builtin.append" {
			if vs, ok := e.A.seqVals(F, c.Args[1]); ok {
				var ts []Tok
				for _, v := range vs {
					ts = append(ts, Tok{Kind: tkWrite, VC: v, Rune: !isStrBytes(v.V.Type()), In: x, F: F})
				}
				return ts
			}
			return []Tok{{Kind: tkWrite, VC: VC{F, c.Args[1]}, In: x, F: F}}
		}
		return []Tok{{Kind: tkInline, In: x, F: F}}
	case *ssa.BinOp:
		return []Tok{{Kind: tkWrite, VC: VC{F, x.Y}, F: F}}
	}
	return nil
}

// accumulated runs the automaton over what was added to an accumulator.
func (e *Emit) accumulated(qs []string, vc VC) ([]string, bool) {
	if e.depth > 12 {
		return nil, false
	}
	ac := e.A.accumulator(vc)
	if !ac.ok {
		return nil, false
	}
	F := vc.F
	stop := map[ssa.Instruction]map[string]bool{}
	ref := vc.V.Referrers()
	if ref == nil {
		return nil, false
	}
	for _, in := range *ref {
		if in.Parent() != F.Fn {
			continue
		}
		if v, ok := in.(ssa.Value); ok && ac.member[VC{F, v}] {
			if c, isCall := in.(*ssa.Call); !isCall || calleeName(c.Common()) == "builtin.append" {
				continue
			}
			continue
		}
		if c, ok := in.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		if phi, ok := in.(*ssa.Phi); ok && len(phi.Block().Instrs) > 0 {
			// the value is selected further on
			pb := phi.Block()
			for i, ed := range phi.Edges {
				if ed == vc.V {
					p := pb.Preds[i]
					stop[p.Instrs[len(p.Instrs)-1]] = map[string]bool{}
				}
			}
			continue
		}
		stop[in] = map[string]bool{}
	}
	if len(stop) == 0 {
		return nil, false
	}
	res := map[string]bool{}
	var out []string
	for _, q := range qs {
		for k := range stop {
			stop[k] = map[string]bool{}
		}
		sub := newEmit(e.A, e.M, vc)
		sub.acc = ac
		sub.depth = e.depth + 1
		sub.stopF = F
		sub.stop = stop
		sub.frame(F, EState{Q: q})
		for _, m := range stop {
			for r := range m {
				if !res[r] {
					res[r] = true
					out = append(out, r)
				}
			}
		}
	}
	return out, len(out) > 0
}

// listSeq: the elements of a list of texts that is built without a loop, in order.
func (e *Emit) listSeq(vc VC, s EState, depth int) ([]VC, bool) {
	if depth > 40 {
		return nil, false
	}
	vc.V = e.resolve(vc.F, vc.V, s)
	switch x := vc.V.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.ChangeType:
		return e.listSeq(VC{vc.F, x.X}, s, depth+1)
	case *ssa.MakeSlice:
		return nil, isZeroConst(x.Len)
	case *ssa.Slice:
		if emptyLeaf(x) {
			return nil, true
		}
		if vs, ok := e.A.seqVals(vc.F, x); ok {
			return vs, true
		}
	case *ssa.Call:
		if calleeName(x.Common()) == "builtin.append" {
			l, ok := e.listSeq(VC{vc.F, x.Common().Args[0]}, s, depth+1)
			if !ok {
				return nil, false
			}
			r, ok := e.A.seqVals(vc.F, x.Common().Args[1])
			return append(append([]VC{}, l...), r...), ok
		}
	}
	return nil, false
}

// listElems: what the elements of a list of texts can be, and whether the list can be empty.
func (a *AI) listElems(vc VC) (elems []VC, empty bool, ok bool) {
	seen := map[VC]bool{}
	have := map[VC]bool{}
	ok = true
	add := func(v VC) {
		if !have[v] {
			have[v] = true
			elems = append(elems, v)
		}
	}
	var visit func(vc VC)
	visit = func(vc VC) {
		if seen[vc] || !ok {
			return
		}
		seen[vc] = true
		if refs := vc.V.Referrers(); refs != nil {
			for _, in := range *refs {
				if ia, isIA := in.(*ssa.IndexAddr); isIA && in.Parent() == vc.F.Fn {
					for _, r2 := range *ia.Referrers() {
						if st, isSt := r2.(*ssa.Store); isSt && st.Addr == ssa.Value(ia) {
							add(VC{vc.F, st.Val})
						}
					}
				}
			}
		}
		switch x := vc.V.(type) {
		case *ssa.Const:
			empty = true
			return
		case *ssa.MakeSlice:
			empty = true
			return
		case *ssa.Phi:
			for _, g := range a.step(vc) {
				visit(g)
			}
			return
		case *ssa.ChangeType:
			visit(VC{vc.F, x.X})
			return
		case *ssa.Slice:
			if emptyLeaf(x) {
				empty = true
				return
			}
			if vs, isSeq := a.seqVals(vc.F, x); isSeq {
				for _, v := range vs {
					add(v)
				}
				return
			}
			if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
				empty = true
				visit(VC{vc.F, x.X})
				return
			}
		case *ssa.Parameter, *ssa.FreeVar:
			if gs := a.step(vc); len(gs) > 0 {
				for _, g := range gs {
					visit(g)
				}
				return
			}
		case *ssa.Call:
			switch calleeName(x.Common()) {
			case "builtin.append":
				visit(VC{vc.F, x.Common().Args[0]})
				if vs, isSeq := a.seqVals(vc.F, x.Common().Args[1]); isSeq {
					for _, v := range vs {
						add(v)
					}
				} else {
					visit(VC{vc.F, x.Common().Args[1]})
				}
				return
			case "bytes.Split", "strings.Split", "bytes.SplitAfter", "strings.SplitAfter", "bytes.SplitN", "strings.SplitN", "bytes.Fields", "strings.Fields":
				if !rewritten(x) {
					add(vc)
				}
				return
			}
			if gs := a.step(vc); len(gs) > 0 {
				for _, g := range gs {
					visit(g)
				}
				return
			}
		}
		ok = false
	}
	visit(vc)
	return elems, empty, ok && len(elems) > 0
}

// joined runs the automaton over a list of texts that is joined.
func (e *Emit) joined(qs []string, F *Frame, list, sep ssa.Value, s EState, depth int) ([]string, bool) {
	feed := func(qs []string, vc VC) []string { return e.value(qs, vc, s, false, depth+1) }
	if seq, ok := e.listSeq(VC{F, list}, s, 0); ok {
		cur := qs
		for i, v := range seq {
			if i > 0 {
				cur = feed(cur, VC{F, sep})
			}
			cur = feed(cur, v)
		}
		return cur, true
	}
	elems, empty, ok := e.A.listElems(VC{F, list})
	if !ok {
		return nil, false
	}
	seen := map[string]bool{}
	var out []string
	work := qs
	for first := true; len(work) > 0; first = false {
		var next []string
		if !first {
			work = feed(work, VC{F, sep})
		}
		for _, v := range elems {
			for _, q := range feed(work, v) {
				if !seen[q] {
					seen[q] = true
					next = append(next, q)
					out = append(out, q)
				}
			}
		}
		work = next
	}
	if empty {
		for _, q := range qs {
			if !seen[q] {
				seen[q] = true
				out = append(out, q)
			}
		}
	}
	sort.Strings(out)
	return out, true
}

// rewritten: a loop over the whole list gives every element a new value.
func rewritten(list ssa.Value) bool {
	f := list.Parent()
	for _, l := range loopsOf(f) {
		if len(l.head.Instrs) == 0 {
			continue
		}
		ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || loopList(b) != list || !l.body[l.head.Succs[0]] {
			continue
		}
		for _, in := range *list.Referrers() {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !l.body[ia.Block()] || ia.Index != b.X {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(ia) {
					continue
				}
				all := true
				for _, lt := range l.latches() {
					all = all && st.Block().Dominates(lt)
				}
				for blk := range l.body {
					for _, s := range blk.Succs {
						all = all && (l.body[s] || blk == l.head)
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}
