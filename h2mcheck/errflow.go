package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error flow: an error that a call returns reaches a returned error (or an exit with failure) on
// every path on which it is not nil.

type errFlow struct {
	P    *Prog
	memo map[string]int // summaries of functions that are given an error: 0 unknown, 1 handled, 2 not
	// AllowDrop: comparisons with these variables mark an error as expected.
	AllowDrop map[string]bool
	steps     int
}

func newErrFlow(P *Prog) *errFlow {
	return &errFlow{P: P, memo: map[string]int{}, AllowDrop: map[string]bool{"flag.ErrHelp": true, "io.EOF": true}}
}

func (P *Prog) errFlow() *errFlow {
	if P.ef == nil {
		P.ef = newErrFlow(P)
	}
	return P.ef
}

func isErrType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func implementsError(t types.Type) bool {
	if isErrType(t) {
		return true
	}
	return types.NewMethodSet(t).Lookup(nil, "Error") != nil
}

// errResult: the index of the error result of a call (-1: none).
func errResult(c *ssa.CallCommon) int {
	res := c.Signature().Results()
	if n := res.Len(); n > 0 && isErrType(res.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// errValue: the SSA value that holds the error of a call (nil: it is not used).
func errValue(call *ssa.Call, idx int) ssa.Value {
	if call.Call.Signature().Results().Len() == 1 {
		return call
	}
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == idx {
			return ex
		}
	}
	return nil
}

type errState struct {
	hold map[ssa.Value]bool // values that hold the error (or something made of it)
	nn   map[ssa.Value]bool // values known to be not nil
	env  map[*ssa.Phi]ssa.Value
}

func (s errState) clone() errState {
	c := errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[*ssa.Phi]ssa.Value{}}
	for k := range s.hold {
		c.hold[k] = true
	}
	for k := range s.nn {
		c.nn[k] = true
	}
	for k, v := range s.env {
		c.env[k] = v
	}
	return c
}

func (s errState) key() string {
	var k []string
	for v := range s.hold {
		k = append(k, fmt.Sprintf("h%p", v))
	}
	for v := range s.nn {
		k = append(k, fmt.Sprintf("n%p", v))
	}
	for p, v := range s.env {
		k = append(k, fmt.Sprintf("e%p=%p", p, v))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

func (s errState) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		p, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		w, ok := s.env[p]
		if !ok || w == v {
			return v
		}
		v = w
	}
	return v
}

func (s errState) holds(v ssa.Value) bool {
	return s.hold[v] || s.hold[s.resolve(v)]
}

type errProblem struct {
	pos  string
	what string
}

// check follows the error value e from the instruction after `from` (nil: from the entry).
// stored: whether storing the error (in a field) is a way to handle it.
func (ef *errFlow) check(f *ssa.Function, from ssa.Instruction, e ssa.Value, depth int) []errProblem {
	var probs []errProblem
	seen := map[string]bool{}
	type item struct {
		b  *ssa.BasicBlock
		i  int
		st errState
	}
	st := errState{map[ssa.Value]bool{e: true}, map[ssa.Value]bool{}, map[*ssa.Phi]ssa.Value{}}
	var work []item
	if from == nil {
		work = append(work, item{f.Blocks[0], 0, st})
	} else {
		for i, in := range from.Block().Instrs {
			if in == from {
				work = append(work, item{from.Block(), i + 1, st})
			}
		}
	}
	report := func(in ssa.Instruction, what string) {
		p := ef.P.ipos(in)
		for _, x := range probs {
			if x.pos == p && x.what == what {
				return
			}
		}
		probs = append(probs, errProblem{p, what})
	}
	n := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 4000 {
			report(it.b.Instrs[0], "the paths after the error are too many to follow")
			break
		}
		st := it.st
		b := it.b
		stop := false
		for i := it.i; i < len(b.Instrs) && !stop; i++ {
			in := b.Instrs[i]
			if in == from {
				// the call is made again: the old error is only kept if something holds it
				alive := false
				for v := range st.hold {
					if v != e && v != ssa.Value(nil) {
						if _, isEx := v.(*ssa.Extract); !isEx {
							alive = true
						}
					}
				}
				if !alive {
					report(in, "the error is overwritten when the call is repeated")
					stop = true
					break
				}
				// from here on only what was kept is the old error
				own := func(v ssa.Value) bool {
					if v == e {
						return true
					}
					ex, ok := v.(*ssa.Extract)
					return ok && ssa.Value(ex.Tuple) == from.(ssa.Value)
				}
				for v := range st.hold {
					if own(v) {
						delete(st.hold, v)
					}
				}
				for v := range st.nn {
					if own(v) {
						delete(st.nn, v)
					}
				}
				for p, v := range st.env {
					if own(v) {
						delete(st.env, p)
					}
				}
				continue
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.MakeInterface:
				if st.holds(x.X) {
					st.hold[x] = true
				}
			case *ssa.ChangeInterface:
				if st.holds(x.X) {
					st.hold[x] = true
				}
			case *ssa.ChangeType:
				if st.holds(x.X) {
					st.hold[x] = true
				}
			case *ssa.TypeAssert:
				if st.holds(x.X) {
					st.hold[x] = true
				}
			case *ssa.Extract:
				if _, ok := x.Tuple.(*ssa.TypeAssert); ok && st.holds(x.Tuple) && x.Index == 0 {
					st.hold[x] = true
				}
			case *ssa.Slice:
				if st.holds(x.X) {
					st.hold[x] = true
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && (st.holds(x.X) || st.holds(x.Y)) {
					st.hold[x] = true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if _, ok := x.X.(*ssa.Alloc); ok && st.holds(x.X) {
						st.hold[x] = true
					}
					if fa, ok := x.X.(*ssa.FieldAddr); ok && st.holds(fa.X) {
						st.hold[x] = true
					}
					if _, ok := x.X.(*ssa.FreeVar); ok && st.holds(x.X) {
						st.hold[x] = true
					}
				}
			case *ssa.Store:
				if st.holds(x.Val) {
					switch ad := x.Addr.(type) {
					case *ssa.Alloc:
						st.hold[ad] = true
					case *ssa.FreeVar:
						stop = true // kept in a variable of the enclosing function
					case *ssa.FieldAddr:
						if al, ok := ad.X.(*ssa.Alloc); ok {
							st.hold[al] = true
						} else if isErrType(ad.Type().Underlying().(*types.Pointer).Elem()) || isErrSlice(ad.Type().Underlying().(*types.Pointer).Elem()) {
							stop = true // stored for later
						}
					case *ssa.IndexAddr:
						if al, ok := ad.X.(*ssa.Alloc); ok {
							st.hold[al] = true
						} else {
							st.hold[ad.X] = true
						}
					default:
						if isErrType(x.Val.Type()) {
							stop = true
						}
					}
				} else if al, ok := x.Addr.(*ssa.Alloc); ok && st.hold[al] && isErrType(al.Type().Underlying().(*types.Pointer).Elem()) {
					delete(st.hold, al)
				}
			case *ssa.Send:
				if st.holds(x.X) {
					stop = true
				}
			case *ssa.Panic:
				stop = true
			case *ssa.Call:
				if code, ok := exitCall(ef.P, x, 3); ok {
					if len(code) == 0 {
						stop = true
						break
					}
					for _, c := range code {
						if k, ok := c.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 0 {
							report(in, "the process exits with status 0 although there was an error")
						}
					}
					stop = true
					break
				}
				given := -1
				for ai, arg := range x.Call.Args {
					if st.holds(arg) {
						given = ai
					}
				}
				recvHeld := x.Call.IsInvoke() && st.holds(x.Call.Value)
				if given < 0 && !recvHeld {
					break
				}
				if recvHeld {
					// err.Error()
					st.hold[x] = true
					break
				}
				switch ef.consume(x, given, depth) {
				case 1:
					stop = true
				case 2:
					st.hold[x] = true
				}
			case *ssa.Return:
				ok := false
				for _, v := range x.Results {
					if !implementsError(v.Type()) && !isErrSlice(v.Type()) {
						if st.holds(v) {
							if _, isAl := st.resolve(v).(*ssa.Alloc); isAl {
								ok = true
							}
						}
						continue
					}
					w := st.resolve(v)
					if st.holds(v) || st.nn[v] || st.nn[w] || ef.nonNil(w, 4) {
						ok = true
					}
				}
				for v := range st.nn {
					// a closure that found an error in the variable of the enclosing function
					if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
						if _, isFV := u.X.(*ssa.FreeVar); isFV {
							ok = true
						}
					}
				}
				if !ok {
					report(in, "this return does not report the error")
				}
				stop = true
			}
		}
		if stop {
			continue
		}
		var ifi *ssa.If
		if len(b.Instrs) > 0 {
			ifi, _ = b.Instrs[len(b.Instrs)-1].(*ssa.If)
		}
		if len(b.Succs) == 0 {
			continue
		}
		for si, s := range b.Succs {
			ns := st.clone()
			if ifi != nil && b.Succs[0] != b.Succs[1] {
				if !ef.edge(ifi.Cond, si == 0, &ns) {
					continue
				}
			}
			// phis
			pi := -1
			for j, p := range s.Preds {
				if p == b {
					pi = j
				}
			}
			var upd []func()
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isErrLike(phi.Type()) {
					continue
				}
				v := ns.resolve(phi.Edges[pi])
				h := ns.holds(phi.Edges[pi])
				nn := ns.nn[phi.Edges[pi]] || ns.nn[v]
				upd = append(upd, func() {
					delete(ns.hold, phi)
					delete(ns.nn, phi)
					ns.env[phi] = v
					if h {
						ns.hold[phi] = true
					}
					if nn {
						ns.nn[phi] = true
					}
				})
			}
			for _, u := range upd {
				u()
			}
			k := fmt.Sprintf("%d|%s", s.Index, ns.key())
			if seen[k] {
				continue
			}
			seen[k] = true
			work = append(work, item{s, 0, ns})
		}
	}
	return probs
}

func isErrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrType(s.Elem())
}

func isErrLike(t types.Type) bool { return implementsError(t) || isErrSlice(t) }

// edge refines the state on a branch; false: the path is not of interest (the error is nil, or expected).
func (ef *errFlow) edge(cond ssa.Value, taken bool, st *errState) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond = u.X
		taken = !taken
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return true
		}
		eq := taken == (x.Op == token.EQL)
		l, r := x.X, x.Y
		if c, ok := l.(*ssa.Const); ok && c.IsNil() {
			l, r = r, l
		}
		if c, ok := r.(*ssa.Const); ok && c.IsNil() && implementsError(l.Type()) {
			if eq {
				if st.holds(l) {
					return false
				}
				// another value known to be not nil
				if st.nn[l] || st.nn[st.resolve(l)] {
					return false
				}
			} else {
				st.nn[l] = true
				st.nn[st.resolve(l)] = true
			}
			return true
		}
		if eq && (st.holds(l) || st.holds(r)) {
			for _, v := range []ssa.Value{l, r} {
				if n := globalName(v); ef.AllowDrop[n] {
					return false
				}
			}
		}
	case *ssa.Call:
		if taken && calleeName(&x.Call) == "errors.As" && len(x.Call.Args) == 2 && st.holds(x.Call.Args[0]) {
			// the target now is the error, or an error inside of it
			if mi, ok := x.Call.Args[1].(*ssa.MakeInterface); ok {
				if al, ok := mi.X.(*ssa.Alloc); ok {
					st.hold[al] = true
				}
			}
		}
		if taken && calleeName(&x.Call) == "errors.Is" && len(x.Call.Args) == 2 && st.holds(x.Call.Args[0]) {
			if ef.AllowDrop[globalName(x.Call.Args[1])] {
				return false
			}
		}
	}
	return true
}

func globalName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil {
			return g.Pkg.Pkg.Path() + "." + g.Name()
		}
	case *ssa.MakeInterface:
		return globalName(x.X)
	case *ssa.ChangeInterface:
		return globalName(x.X)
	}
	return ""
}

// consume: what a call does with the error it is given: 0 nothing, 1 handles it, 2 its result carries it.
func (ef *errFlow) consume(call *ssa.Call, arg int, depth int) int {
	n := calleeName(&call.Call)
	switch n {
	case "fmt.Errorf", "errors.Join", "builtin.append", "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "fmt.Append", "fmt.Appendf":
		return 2
	case "errors.Unwrap":
		return 0
	case "builtin.panic":
		return 1
	}
	callees := ef.P.Callees(call)
	if len(callees) == 0 || depth <= 0 {
		return 0
	}
	hasErr := errResult(&call.Call) >= 0
	if !hasErr {
		for i := 0; i < call.Call.Signature().Results().Len(); i++ {
			if implementsError(call.Call.Signature().Results().At(i).Type()) {
				hasErr = true
			}
		}
	}
	for _, g := range callees {
		if g.Blocks == nil || !inModule(fnPkgPath(g)) {
			return 0
		}
		i := arg
		if call.Call.IsInvoke() {
			i++
		}
		if i >= len(g.Params) {
			return 0
		}
		k := fmt.Sprintf("%p|%d", g, i)
		m, ok := ef.memo[k]
		if !ok {
			ef.memo[k] = 2
			m = 2
			if len(ef.check(g, nil, g.Params[i], depth-1)) == 0 {
				m = 1
			}
			ef.memo[k] = m
		}
		if m != 1 {
			return 0
		}
	}
	if hasErr {
		return 2
	}
	if call.Call.Signature().Results().Len() > 0 {
		return 2
	}
	return 1
}

// nonNil: an error value that is never nil.
func (ef *errFlow) nonNil(v ssa.Value, depth int) bool {
	if depth < 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return ef.nonNil(x.X, depth)
		}
		return true
	case *ssa.Alloc, *ssa.MakeClosure:
		return true
	case *ssa.ChangeInterface:
		return ef.nonNil(x.X, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ef.nonNil(e, depth-1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ef.callNonNil(c, x.Index, depth)
		}
	case *ssa.Call:
		return ef.callNonNil(x, 0, depth)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return ef.globalNonNil(g, depth)
		}
	}
	return false
}

func (ef *errFlow) callNonNil(c *ssa.Call, idx, depth int) bool {
	switch calleeName(&c.Call) {
	case "fmt.Errorf", "errors.New":
		return true
	}
	callees := ef.P.Callees(c)
	if len(callees) == 0 {
		return false
	}
	for _, g := range callees {
		if g.Blocks == nil || !inModule(fnPkgPath(g)) {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if idx >= len(r.Results) || !ef.nonNil(r.Results[idx], depth-1) {
					return false
				}
			}
		}
	}
	return true
}

func (ef *errFlow) globalNonNil(g *ssa.Global, depth int) bool {
	if g.Pkg == nil {
		return false
	}
	if !inModule(g.Pkg.Pkg.Path()) {
		return strings.HasPrefix(g.Name(), "Err") || g.Name() == "EOF"
	}
	n := 0
	ok := true
	for f := range ef.P.All {
		if fnPkgPath(f) != g.Pkg.Pkg.Path() {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if st, is := in.(*ssa.Store); is && st.Addr == ssa.Value(g) {
				n++
				ok = ok && ef.nonNil(st.Val, depth-1)
			}
		})
	}
	return ok && n > 0
}

// exitCall: the call ends the process; code: the exit status values (empty: not known).
func exitCall(P *Prog, call *ssa.Call, depth int) ([]ssa.Value, bool) {
	c := &call.Call
	n := calleeName(c)
	if n == "os.Exit" {
		return []ssa.Value{c.Args[0]}, true
	}
	if n == "log.Fatal" || n == "log.Fatalf" || n == "log.Fatalln" {
		return nil, true
	}
	// through a variable that is set to os.Exit
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && isExitVar(P, g) {
			return []ssa.Value{c.Args[0]}, true
		}
	}
	f := c.StaticCallee()
	if f == nil || f.Blocks == nil || depth == 0 || !inModule(fnPkgPath(f)) {
		return nil, false
	}
	// a helper that always exits
	var codes []ssa.Value
	seen := map[*ssa.BasicBlock]bool{}
	always := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !always {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if cs, ok := exitCall(P, ci, depth-1); ok {
					codes = append(codes, cs...)
					return
				}
			}
			if _, ok := in.(*ssa.Return); ok {
				always = false
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	if !always || len(codes) == 0 {
		return nil, false
	}
	var out []ssa.Value
	for _, v := range codes {
		if p, ok := v.(*ssa.Parameter); ok {
			for i, q := range f.Params {
				if q == p && i < len(c.Args) {
					out = append(out, c.Args[i])
				}
			}
			continue
		}
		out = append(out, v)
	}
	return out, true
}

func isExitVar(P *Prog, g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	for f := range P.All {
		if fnPkgPath(f) != g.Pkg.Pkg.Path() {
			continue
		}
		found := false
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if fn, ok := st.Val.(*ssa.Function); ok && fnName(fn) == "os.Exit" {
					found = true
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}
