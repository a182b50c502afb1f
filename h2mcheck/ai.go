package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A context-sensitive abstract interpreter over SSA: values are resolved to their origins through
// calls, closures, fields and local cells; strings are abstracted by constants or byte sets; branches
// whose condition is decided by a scenario (for example the name of the element) are pruned.

type Frame struct {
	Fn    *ssa.Function
	Site  ssa.CallInstruction
	Up    *Frame
	Clo   *ssa.MakeClosure
	CloF  *Frame
	depth int
	id    int
}

type VC struct {
	F *Frame
	V ssa.Value
}

// Org is the origin of a value: V itself, or what is found below V at a path of fields.
type Org struct {
	VC
	Path string
}

type AI struct {
	P      *Prog
	frames map[string]*Frame
	nfr    int
	// Hook gives scenario values of leaves.
	Hook       func(a *AI, o Org) (AVal, bool)
	approx     map[VC]AVal
	memo       map[VC]AVal
	vis        map[VC]bool
	evalD      int
	chg        bool
	feas       map[*Frame]*feasInfo
	noPrune    bool
	vmemo      map[VC][]Org
	MaxDepth   int
	URLBytes   *bset // bytes of what AssembleAbsoluteURL returns
	nchg       map[VC]int
	Focus      map[ssa.Value]int64 // arrays of which only one element is looked at
	inVals     map[VC]bool
	Stop       map[*ssa.Function]bool // functions that are not entered
	Only       func(fn *ssa.Function) bool
	Leaf       *VC // a parameter that is not resolved further
	noRefine   bool
	refineD    int
	ChildBytes *bset                           // bytes of rendered children
	EscapeOff  bool                            // EscapeContent and UnEscapeContent change nothing
	MapConst   func(vc VC, v AVal) AVal        // changes constants
	NoErrRet   bool                            // returns with an error are left out (their other results are not used)
	Opaque     func(ad Addr, path string) bool // locations whose content is not looked up
}

type feasInfo struct {
	dead map[[2]int]bool // infeasible edges
	live []bool
	done bool
}

func newAI(P *Prog) *AI {
	return &AI{P: P, frames: map[string]*Frame{}, approx: map[VC]AVal{}, memo: map[VC]AVal{}, vis: map[VC]bool{}, feas: map[*Frame]*feasInfo{}, vmemo: map[VC][]Org{}, nchg: map[VC]int{}, inVals: map[VC]bool{}, MaxDepth: 14}
}

func (a *AI) frame(fn *ssa.Function, site ssa.CallInstruction, up *Frame, clo *ssa.MakeClosure, cloF *Frame) *Frame {
	k := fmt.Sprintf("%p|%p|%p|%p|%p", fn, site, up, clo, cloF)
	if f, ok := a.frames[k]; ok {
		return f
	}
	d := 0
	if up != nil {
		d = up.depth + 1
	} else if cloF != nil {
		d = cloF.depth + 1
	}
	a.nfr++
	f := &Frame{fn, site, up, clo, cloF, d, a.nfr}
	a.frames[k] = f
	return f
}

func (a *AI) Root(fn *ssa.Function) *Frame { return a.frame(fn, nil, nil, nil, nil) }

func (f *Frame) contains(fn *ssa.Function) int {
	n := 0
	for x := f; x != nil; x = x.Up {
		if x.Fn == fn {
			n++
		}
	}
	return n
}

// inlined: functions that are entered (repository library code and small helpers).
func (a *AI) inlined(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || a.Stop[fn] || (a.Only != nil && !a.Only(fn)) {
		return false
	}
	pp := fnPkgPath(fn)
	if strings.HasPrefix(pp, modPath+"/internal/tester") {
		return false
	}
	return inModule(pp)
}

// calleeFrames resolves a call in a context to the frames of the functions it enters.
// complete=false: some callee is not entered (external, unknown or recursive).
func (a *AI) calleeFrames(F *Frame, site ssa.CallInstruction) (fr []*Frame, complete bool) {
	c := site.Common()
	complete = true
	add := func(fn *ssa.Function, clo *ssa.MakeClosure, cloF *Frame) {
		if !a.inlined(fn) || F.contains(fn) >= 2 || F.depth >= a.MaxDepth {
			complete = false
			return
		}
		fr = append(fr, a.frame(fn, site, F, clo, cloF))
	}
	if c.IsInvoke() {
		for _, g := range a.P.Callees(site) {
			add(g, nil, nil)
		}
		if len(fr) == 0 {
			complete = false
		}
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		add(v, nil, nil)
		return
	case *ssa.Builtin:
		return nil, false
	}
	for _, o := range a.values(VC{F, c.Value}) {
		switch v := o.V.(type) {
		case *ssa.Function:
			if o.Path == "" {
				add(v, nil, nil)
				continue
			}
		case *ssa.MakeClosure:
			if o.Path == "" {
				add(v.Fn.(*ssa.Function), v, o.F)
				continue
			}
		}
		if cst, ok := o.V.(*ssa.Const); ok && cst.IsNil() {
			continue
		}
		if _, isA := o.V.(*ssa.Alloc); isA && strings.HasPrefix(o.Path, "zero") {
			continue // nil as well
		}
		complete = false
	}
	return
}

// recFrame: the frame that stands for a recursive call that is not entered once more.
func (a *AI) recFrame(F *Frame, site ssa.CallInstruction) *Frame {
	fn := site.Common().StaticCallee()
	if fn == nil || !a.inlined(fn) || F.contains(fn) < 2 {
		return nil
	}
	for x := F; x != nil; x = x.Up {
		if x.Fn == fn {
			return x
		}
	}
	return nil
}

// returns lists the returned values of a frame (index i).
func (a *AI) returns(fr *Frame, i int) []VC {
	var out []VC
	for _, r := range a.returnSites(fr, i) {
		out = append(out, r.VC)
	}
	return out
}

type retSite struct {
	VC  VC
	blk *ssa.BasicBlock
}

func (a *AI) returnSites(fr *Frame, i int) []retSite {
	var out []retSite
	fi := a.feasible(fr)
	for _, b := range fr.Fn.Blocks {
		if !fi.live[b.Index] {
			continue
		}
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			if e := len(r.Results) - 1; a.NoErrRet && i < e && isErrType(r.Results[e].Type()) && a.P.errFlow().nonNil(resolveResult(r, e), 4) {
				continue
			}
			out = append(out, retSite{VC{fr, resolveResult(r, i)}, b})
		}
	}
	return out
}

// usesRecover: can a panic end in a normal return of the function?
func usesRecover(f *ssa.Function) bool {
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		found := false
		instrs(g, func(in ssa.Instruction) {
			if site, ok := in.(ssa.CallInstruction); ok && calleeName(site.Common()) == "builtin.recover" {
				found = true
			}
			if d, ok := in.(*ssa.Defer); ok {
				if c := d.Call.StaticCallee(); c != nil && c.Parent() == nil && inModule(fnPkgPath(c)) {
					instrs(c, func(in ssa.Instruction) {
						if site, ok := in.(ssa.CallInstruction); ok && calleeName(site.Common()) == "builtin.recover" {
							found = true
						}
					})
				}
			}
		})
		if found {
			return true
		}
	}
	return false
}

// resolveResult: the returned value; functions with deferred calls keep their results in cells.
func resolveResult(r *ssa.Return, i int) ssa.Value {
	v := r.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return v
	}
	for _, in := range *al.Referrers() {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return v
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return v // the deferred function can change it
		}
	}
	ins := u.Block().Instrs
	for j := len(ins) - 1; j >= 0; j-- {
		if st, ok := ins[j].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return st.Val
		}
	}
	return v
}

// feasible determines which edges of a frame can be taken under the scenario.
func (a *AI) feasible(F *Frame) *feasInfo {
	if fi, ok := a.feas[F]; ok {
		return fi
	}
	fi := &feasInfo{dead: map[[2]int]bool{}, live: make([]bool, len(F.Fn.Blocks))}
	for i := range fi.live {
		fi.live[i] = true
	}
	a.feas[F] = fi
	rec := F.Fn.Recover
	if rec != nil && usesRecover(F.Fn) {
		rec = nil
	}
	if rec != nil {
		fi.live[rec.Index] = false
	}
	if a.noPrune || a.Hook == nil {
		fi.done = true
		return fi
	}
	// reverse postorder
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append([]*ssa.BasicBlock{b}, order...)
	}
	dfs(F.Fn.Blocks[0])
	for _, b := range order {
		if b.Index != 0 {
			any := false
			for _, p := range b.Preds {
				if !fi.dead[[2]int{p.Index, b.Index}] && fi.live[p.Index] {
					any = true
				}
			}
			if !any && F.Fn.Recover != b {
				fi.live[b.Index] = false
			}
		}
		if !fi.live[b.Index] {
			for _, s := range b.Succs {
				fi.dead[[2]int{b.Index, s.Index}] = true
			}
			continue
		}
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if b.Succs[0] == b.Succs[1] {
				continue
			}
			v := a.evalFresh(VC{F, ifi.Cond})
			t, f := v.mayBool()
			if !t && f {
				fi.dead[[2]int{b.Index, b.Succs[0].Index}] = true
			}
			if !f && t {
				fi.dead[[2]int{b.Index, b.Succs[1].Index}] = true
			}
		}
	}
	// blocks without a live path from the entry
	for i := range fi.live {
		fi.live[i] = false
	}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if fi.live[b.Index] {
			return
		}
		fi.live[b.Index] = true
		for _, s := range b.Succs {
			if !fi.dead[[2]int{b.Index, s.Index}] {
				walk(s)
			}
		}
	}
	walk(F.Fn.Blocks[0])
	if F.Fn.Recover != nil && rec == nil {
		walk(F.Fn.Recover)
	}
	for _, b := range F.Fn.Blocks {
		if !fi.live[b.Index] {
			for _, s := range b.Succs {
				fi.dead[[2]int{b.Index, s.Index}] = true
			}
		}
	}
	fi.done = true
	if len(fi.dead) > 0 {
		// what was found out below before this was known
		for G, gi := range a.feas {
			if G == F || !gi.done {
				continue
			}
			for x := G.Up; x != nil; x = x.Up {
				if x == F {
					delete(a.feas, G)
					break
				}
			}
		}
	}
	// values computed with partial knowledge are recomputed
	a.memo = map[VC]AVal{}
	a.vmemo = map[VC][]Org{}
	return fi
}

func isStrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune)
	}
	return false
}

// values resolves copies: it returns the origins of a value.
func (a *AI) values(vc VC) []Org {
	if o, ok := a.vmemo[vc]; ok {
		return o
	}
	if a.inVals[vc] {
		// a pointer that is loaded through itself (a list walk): the value stays opaque
		return []Org{{vc, ""}}
	}
	a.inVals[vc] = true
	defer delete(a.inVals, vc)
	seen := map[VC]bool{}
	var out []Org
	have := map[Org]bool{}
	emit := func(o Org) {
		if !have[o] {
			have[o] = true
			out = append(out, o)
		}
	}
	a.vals(vc, "", seen, emit)
	a.vmemo[vc] = out
	return out
}

type emitFn func(Org)

func (a *AI) vals(vc VC, path string, seen map[VC]bool, emit emitFn) {
	key := vc
	if path == "" {
		if seen[key] {
			return
		}
		seen[key] = true
	}
	switch x := vc.V.(type) {
	case *ssa.Parameter:
		for _, arg := range a.paramArgs(vc.F, x) {
			a.vals(arg, path, seen, emit)
			key.V = nil
		}
		if key.V == nil {
			return
		}
	case *ssa.FreeVar:
		if vc.F.Clo != nil {
			for i, fv := range vc.F.Fn.FreeVars {
				if fv == x && i < len(vc.F.Clo.Bindings) {
					a.vals(VC{vc.F.CloF, vc.F.Clo.Bindings[i]}, path, seen, emit)
					return
				}
			}
		}
	case *ssa.Phi:
		fi := a.feasible(vc.F)
		for i, e := range x.Edges {
			if fi.dead[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				continue
			}
			a.vals(VC{vc.F, e}, path, seen, emit)
		}
		return
	case *ssa.ChangeType:
		a.vals(VC{vc.F, x.X}, path, seen, emit)
		return
	case *ssa.ChangeInterface:
		a.vals(VC{vc.F, x.X}, path, seen, emit)
		return
	case *ssa.MakeInterface:
		a.vals(VC{vc.F, x.X}, path, seen, emit)
		return
	case *ssa.Convert:
		if isStrBytes(x.Type()) && isStrBytes(x.X.Type()) {
			a.vals(VC{vc.F, x.X}, path, seen, emit)
			return
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				a.vals(VC{vc.F, x.X}, path, seen, emit)
				return
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			a.vals(VC{vc.F, x.X}, path, seen, emit)
			return
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if a.callVals(vc.F, call, x.Index, path, seen, emit) {
				return
			}
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			a.vals(VC{vc.F, ta.X}, path, seen, emit)
			return
		}
	case *ssa.Call:
		if a.callVals(vc.F, x, 0, path, seen, emit) {
			return
		}
	case *ssa.Field:
		a.vals(VC{vc.F, x.X}, fieldName(x.X.Type(), x.Field)+path, map[VC]bool{}, emit)
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, ad := range a.addrs(VC{vc.F, x.X}) {
				a.loadAddr(ad, path, seen, emit, VC{vc.F, x})
			}
			return
		}
	}
	emit(Org{vc, path})
}

// paramArgs: what a parameter is bound to.
func (a *AI) paramArgs(F *Frame, p *ssa.Parameter) []VC {
	if a.Leaf != nil && a.Leaf.F == F && a.Leaf.V == ssa.Value(p) {
		return nil
	}
	idx := -1
	for i, q := range F.Fn.Params {
		if q == p {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	bind := func(site ssa.CallInstruction, up *Frame) (VC, bool) {
		c := site.Common()
		if c.IsInvoke() {
			if idx == 0 {
				return VC{up, c.Value}, true
			}
			if idx-1 < len(c.Args) {
				return VC{up, c.Args[idx-1]}, true
			}
			return VC{}, false
		}
		if idx < len(c.Args) {
			return VC{up, c.Args[idx]}, true
		}
		return VC{}, false
	}
	if F.Site != nil {
		if v, ok := bind(F.Site, F.Up); ok {
			return []VC{v}
		}
		return nil
	}
	if F.Clo != nil {
		var out []VC
		for _, s := range a.P.Callers(F.Fn) {
			if s.Common().IsInvoke() {
				return nil
			}
			switch s.Parent() {
			case F.CloF.Fn:
				if v, ok := bind(s, F.CloF); ok {
					out = append(out, v)
				}
			case F.Fn:
				if v, ok := bind(s, F); ok {
					out = append(out, v)
				}
			default:
				return nil
			}
		}
		return out
	}
	return nil
}

func (a *AI) callVals(F *Frame, call *ssa.Call, i int, path string, seen map[VC]bool, emit emitFn) bool {
	if isLeafCall(calleeName(call.Common())) {
		return false
	}
	frs, complete := a.calleeFrames(F, call)
	if x := a.recFrame(F, call); x != nil && path == "" && len(frs) == 0 {
		frs, complete = []*Frame{x}, true
	}
	if len(frs) == 0 || !complete {
		return false
	}
	for _, fr := range frs {
		for _, r := range a.returns(fr, i) {
			if path == "" && isErrType(r.V.Type()) && a.guardedReturns(fr, i, r.V) {
				// returned only where it was found not to be nil
				a.vals(r, path, map[VC]bool{}, func(o Org) {
					if c, ok := o.V.(*ssa.Const); ok && c.IsNil() {
						return
					}
					emit(o)
				})
				continue
			}
			a.vals(r, path, seen, emit)
		}
	}
	return true
}

// guardedReturns: every live return of the value stands behind a test that it is not nil.
func (a *AI) guardedReturns(fr *Frame, i int, v ssa.Value) bool {
	fi := a.feasible(fr)
	n := 0
	for _, b := range fr.Fn.Blocks {
		if !fi.live[b.Index] || len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && resolveResult(r, i) == v {
			if !knownNonNil(v, r) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// isLeafCall: methods of the conversion context are treated as primitives of the analysis.
func isLeafCall(name string) bool {
	return strings.HasPrefix(name, "("+modPath+"/converter.Context).")
}

// Addr is a memory location relative to a root pointer.
type Addr struct {
	Root VC
	Path string
}

func (a *AI) addrs(vc VC) []Addr {
	var out []Addr
	for _, o := range a.values(vc) {
		switch x := o.V.(type) {
		case *ssa.FieldAddr:
			if o.Path == "" {
				n := fieldName(x.X.Type(), x.Field)
				for _, b := range a.addrs(VC{o.F, x.X}) {
					out = append(out, Addr{b.Root, b.Path + n})
				}
				continue
			}
		case *ssa.IndexAddr:
			if o.Path == "" {
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					for _, b := range a.addrs(VC{o.F, x.X}) {
						out = append(out, Addr{b.Root, b.Path + "[]"})
					}
				} else {
					out = append(out, Addr{VC{o.F, x.X}, "[]"})
				}
				continue
			}
		}
		out = append(out, Addr{o.VC, o.Path})
	}
	return out
}

type memStore struct {
	Path string
	Val  VC
	In   *ssa.Store
}

// loadAddr emits the values that can be stored at an address.
// at is the load, to leave out stores that are always overwritten before it.
func (a *AI) loadAddr(ad Addr, rest string, seen map[VC]bool, emit emitFn, at VC) {
	path := ad.Path + rest
	if a.Opaque != nil && a.Opaque(ad, path) {
		emit(Org{ad.Root, "*" + path})
		return
	}
	switch r := ad.Root.V.(type) {
	case *ssa.Const:
		if ad.Path == "" || r.Value != nil {
			break
		}
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			return // nothing is loaded through nil
		}
	case *ssa.Alloc:
		n := 0
		init := false
		opaque := false
		sts := a.storesTo(ad.Root)
		dead, noZero := a.overwritten(ad.Root, path, sts, at)
		for i, st := range sts {
			if dead[i] {
				n++
				continue
			}
			if st.Path == path || strings.HasPrefix(path, st.Path) && st.Path != path && (path[len(st.Path)] == '.' || path[len(st.Path)] == '[') {
				n++
				if st.In.Block() == r.Block() && st.In.Parent() == r.Parent() {
					init = true
				}
				rp := path[len(st.Path):]
				if rp == "" {
					a.vals(st.Val, "", seen, emit)
				} else {
					a.vals(st.Val, rp, map[VC]bool{}, emit)
				}
			} else if strings.HasPrefix(st.Path, path) {
				opaque = true
			}
		}
		if opaque {
			emit(Org{ad.Root, "*" + path})
			return
		}
		if n == 0 {
			emit(Org{ad.Root, "zero" + path})
			return
		}
		if !init && !noZero {
			emit(Org{ad.Root, "zero" + path})
		}
		return
	case *ssa.Slice:
		// a list literal: the elements of the array below
		if _, isPtr := r.X.Type().Underlying().(*types.Pointer); isPtr && r.Low == nil && r.High == nil && strings.HasPrefix(path, "[]") {
			for _, b := range a.addrs(VC{ad.Root.F, r.X}) {
				a.loadAddr(Addr{b.Root, b.Path + ad.Path}, rest, seen, emit, at)
			}
			return
		}
	case *ssa.Global:
		n := 0
		for _, st := range a.globalStores(r) {
			if st.Path == path || strings.HasPrefix(path, st.Path) {
				n++
				a.vals(st.Val, path[len(st.Path):], map[VC]bool{}, emit)
			}
		}
		if n > 0 {
			return
		}
	}
	emit(Org{ad.Root, "*" + path})
}

// overwritten tells which stores to a location can not reach the load, because the location is
// stored to again on every way (and whether the zero value can not reach it).
func (a *AI) overwritten(root VC, path string, sts []memStore, at VC) (map[int]bool, bool) {
	al, ok := root.V.(*ssa.Alloc)
	if !ok || strings.Contains(path, "[]") {
		return nil, false
	}
	R := root.F
	li, ok := at.V.(ssa.Instruction)
	if !ok {
		return nil, false
	}
	load := a.siteAt(at.F, li, R)
	if load == nil || al.Parent() != R.Fn {
		return nil, false
	}
	cover := map[ssa.Instruction]bool{}
	for _, st := range sts {
		if st.Val.F == R && !strings.Contains(st.Path, "[]") && (st.Path == path || strings.HasPrefix(path, st.Path) && (st.Path == "" || path[len(st.Path)] == '.')) {
			cover[st.In] = true
		}
	}
	if len(cover) == 0 {
		return nil, false
	}
	dead := map[int]bool{}
	for i, st := range sts {
		if strings.Contains(st.Path, "[]") {
			continue
		}
		var from ssa.Instruction = st.In
		if st.Val.F != R {
			from = a.siteAt(st.Val.F, st.In, R)
			if from == nil {
				continue
			}
		}
		if from == load {
			continue
		}
		if !a.reachesAvoiding(R, from, load, cover) {
			dead[i] = true
		}
	}
	return dead, !a.reachesAvoiding(R, al, load, cover)
}

// reachesAvoiding: control can get from one instruction to another without passing one of avoid.
func (a *AI) reachesAvoiding(F *Frame, from, to ssa.Instruction, avoid map[ssa.Instruction]bool) bool {
	fi := a.feasible(F)
	scan := func(b *ssa.BasicBlock, start int) (hit, stop bool) {
		for _, in := range b.Instrs[start:] {
			if in == to {
				return true, true
			}
			if avoid[in] {
				return false, true
			}
		}
		return false, false
	}
	si := -1
	for i, in := range from.Block().Instrs {
		if in == from {
			si = i
		}
	}
	hit, stop := scan(from.Block(), si+1)
	if hit {
		return true
	}
	if stop {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from.Block()}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range b.Succs {
			if fi.dead[[2]int{b.Index, s.Index}] || seen[s] {
				continue
			}
			seen[s] = true
			hit, stop := scan(s, 0)
			if hit {
				return true
			}
			if !stop {
				work = append(work, s)
			}
		}
	}
	return false
}

func (a *AI) globalStores(g *ssa.Global) []memStore {
	var out []memStore
	if g.Pkg == nil || g.Object() == nil || !inModule(g.Pkg.Pkg.Path()) {
		return nil
	}
	for _, f := range a.P.Funcs {
		if fnPkgPath(f) != g.Pkg.Pkg.Path() && !g.Object().Exported() {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				p, base := addrPath(st.Addr)
				if base == ssa.Value(g) {
					out = append(out, memStore{p, VC{a.Root(f), st.Val}, st})
				}
			}
		})
	}
	if init := g.Pkg.Func("init"); init != nil {
		has := false
		for _, f := range a.P.Funcs {
			if f == init {
				has = true
			}
		}
		if !has {
			instrs(init, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					p, base := addrPath(st.Addr)
					if base == ssa.Value(g) {
						out = append(out, memStore{p, VC{a.Root(init), st.Val}, st})
					}
				}
			})
		}
	}
	return out
}

func addrPath(v ssa.Value) (string, ssa.Value) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		p, b := addrPath(x.X)
		return p + fieldName(x.X.Type(), x.Field), b
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			p, b := addrPath(x.X)
			return p + "[]", b
		}
	}
	return "", v
}

// storesTo finds all stores through aliases of an allocated pointer.
func (a *AI) storesTo(root VC) []memStore {
	var out []memStore
	a.eachUse(root, func(u Use) {
		if st, ok := u.In.(*ssa.Store); ok && u.Path != "!" {
			if a.Focus != nil && a.outOfFocus(st.Addr) {
				return
			}
			out = append(out, memStore{u.Path, VC{u.F, st.Val}, st})
		}
	})
	return out
}

// Use is an instruction that uses (an alias of) a pointer; Path is the field path for address uses.
type Use struct {
	F    *Frame
	In   ssa.Instruction
	V    ssa.Value
	Path string
}

// eachUse follows a pointer forward through copies, closures and calls.
func (a *AI) eachUse(root VC, fn func(Use)) {
	type key struct {
		vc   VC
		path string
	}
	seen := map[key]bool{}
	type cell struct {
		vc   VC
		path string
	}
	var walk func(vc VC, path string)
	walk = func(vc VC, path string) {
		k := key{vc, path}
		if seen[k] || len(seen) > 4000 {
			return
		}
		seen[k] = true
		refs := vc.V.Referrers()
		if refs == nil {
			return
		}
		fi := a.feasible(vc.F)
		for _, in := range *refs {
			if in.Parent() != vc.F.Fn {
				continue
			}
			if in.Block() != nil && !fi.live[in.Block().Index] {
				continue
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				walk(VC{vc.F, x}, path+fieldName(x.X.Type(), x.Field))
			case *ssa.IndexAddr:
				if x.X == vc.V {
					walk(VC{vc.F, x}, path+"[]")
				}
			case *ssa.Slice:
				fn(Use{vc.F, in, vc.V, path})
				if x.X == vc.V && x.Low == nil && x.High == nil {
					walk(VC{vc.F, x}, path)
				}
			case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
				walk(VC{vc.F, in.(ssa.Value)}, path)
			case *ssa.MakeClosure:
				cf := x.Fn.(*ssa.Function)
				if !a.inlined(cf) {
					continue
				}
				for i, b := range x.Bindings {
					if b == vc.V {
						walk(VC{a.frame(cf, nil, nil, x, vc.F), cf.FreeVars[i]}, path)
					}
				}
			case *ssa.Store:
				if x.Addr == vc.V {
					fn(Use{vc.F, in, vc.V, path})
				}
				if x.Val == vc.V {
					fn(Use{vc.F, in, vc.V, "!"})
					// the pointer is kept in a cell: its loads are aliases
					for _, ad := range a.addrs(VC{vc.F, x.Addr}) {
						if _, ok := ad.Root.V.(*ssa.Alloc); ok && ad.Root != root {
							ad := ad
							a.eachLoad(ad, func(l VC) { walk(l, path) })
						}
					}
				}
			case *ssa.Return:
				// the caller gets an alias
				fn(Use{vc.F, in, vc.V, path})
				if vc.F.Site != nil && vc.F.Up != nil {
					if call, ok := vc.F.Site.(*ssa.Call); ok {
						if len(x.Results) == 1 {
							walk(VC{vc.F.Up, call}, path)
						} else {
							for i, rv := range x.Results {
								if rv != vc.V {
									continue
								}
								for _, ref := range *call.Referrers() {
									if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
										walk(VC{vc.F.Up, ex}, path)
									}
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				fn(Use{vc.F, in, vc.V, path})
				c := x.Common()
				if isLeafCall(calleeName(c)) {
					continue
				}
				frs, _ := a.calleeFrames(vc.F, x)
				for _, fr := range frs {
					off := 0
					if c.IsInvoke() {
						off = 1
						if c.Value == vc.V && len(fr.Fn.Params) > 0 {
							walk(VC{fr, fr.Fn.Params[0]}, path)
						}
					}
					for i, arg := range c.Args {
						if arg == vc.V && i+off < len(fr.Fn.Params) {
							walk(VC{fr, fr.Fn.Params[i+off]}, path)
						}
					}
				}
			default:
				fn(Use{vc.F, in, vc.V, path})
			}
		}
	}
	walk(root, "")
}

// eachLoad finds the loads from a memory cell (an alloc and a field path).
func (a *AI) eachLoad(ad Addr, fn func(VC)) {
	a.eachUse(ad.Root, func(u Use) {
		if l, ok := u.In.(*ssa.UnOp); ok && l.Op == token.MUL && u.Path == ad.Path {
			fn(VC{u.F, l})
		}
	})
}

// ---- abstract values ----

type bset [4]uint64

func (b *bset) add(c byte)     { b[c>>6] |= 1 << (c & 63) }
func (b *bset) del(c byte)     { b[c>>6] &^= 1 << (c & 63) }
func (b bset) has(c byte) bool { return b[c>>6]&(1<<(c&63)) != 0 }
func (b bset) or(o bset) bset {
	for i := range b {
		b[i] |= o[i]
	}
	return b
}
func (b bset) minus(o bset) bset {
	for i := range b {
		b[i] &^= o[i]
	}
	return b
}
func (b bset) and(o bset) bset {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b bset) empty() bool { return b == bset{} }
func bsOf(s string) (b bset) {
	for i := 0; i < len(s); i++ {
		b.add(s[i])
	}
	return
}
func bsAll() bset { return bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func (b bset) String() string {
	if b == bsAll() {
		return "any byte"
	}
	var sb strings.Builder
	n := 0
	for i := 0; i < 256; i++ {
		if b.has(byte(i)) {
			n++
			if n < 40 {
				fmt.Fprintf(&sb, "%q", string(rune(i)))
			}
		}
	}
	return sb.String()
}

type AVal struct {
	Top    bool
	Consts map[string]constant.Value
	Str    bool // non-constant string content, with the bytes B
	B      bset
	Min    int // minimal length of the non-constant content
	Labels map[string]bool
}

func (v AVal) bot() bool { return !v.Top && len(v.Consts) == 0 && !v.Str }

func (v AVal) mayBool() (t, f bool) {
	if v.Top || v.Str || v.bot() {
		return true, true
	}
	for _, c := range v.Consts {
		if c == nil || c.Kind() != constant.Bool {
			return true, true
		}
		if constant.BoolVal(c) {
			t = true
		} else {
			f = true
		}
	}
	return
}

func topVal() AVal { return AVal{Top: true} }
func constVal(c constant.Value) AVal {
	return AVal{Consts: map[string]constant.Value{ckey(c): c}}
}
func strConst(s string) AVal { return constVal(constant.MakeString(s)) }
func intConst(i int64) AVal  { return constVal(constant.MakeInt64(i)) }
func boolConst(b bool) AVal  { return constVal(constant.MakeBool(b)) }
func strAny(labels ...string) AVal {
	return AVal{Str: true, B: bsAll(), Labels: lset(labels...)}
}
func strBytes(b bset, labels map[string]bool) AVal { return AVal{Str: true, B: b, Labels: labels} }
func lset(l ...string) map[string]bool {
	if len(l) == 0 {
		return nil
	}
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}
func ckey(c constant.Value) string {
	if c == nil {
		return "nil"
	}
	return c.Kind().String() + ":" + c.ExactString()
}

func (v AVal) label(l ...string) AVal {
	n := v
	n.Labels = map[string]bool{}
	for k := range v.Labels {
		n.Labels[k] = true
	}
	for _, k := range l {
		n.Labels[k] = true
	}
	return n
}
func withLabels(v AVal, ls map[string]bool) AVal {
	if len(ls) == 0 {
		return v
	}
	var l []string
	for k := range ls {
		l = append(l, k)
	}
	return v.label(l...)
}
func (v AVal) labelList() string {
	var l []string
	for k := range v.Labels {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

const maxConsts = 24

func joinV(x, y AVal) AVal {
	if x.bot() && len(x.Labels) == 0 {
		return y
	}
	if y.bot() && len(y.Labels) == 0 {
		return x
	}
	r := AVal{Top: x.Top || y.Top, Consts: map[string]constant.Value{}}
	r.Labels = mergeLabels(x, y, false)
	for k, c := range x.Consts {
		r.Consts[k] = c
	}
	for k, c := range y.Consts {
		r.Consts[k] = c
	}
	r.Str = x.Str || y.Str
	r.B = x.B.or(y.B)
	switch {
	case x.Str && y.Str:
		r.Min = min(x.Min, y.Min)
	case x.Str:
		r.Min = x.Min
	case y.Str:
		r.Min = y.Min
	}
	if len(r.Consts) > maxConsts {
		allStr := true
		m := -1
		var b bset
		for _, c := range r.Consts {
			if c == nil || c.Kind() != constant.String {
				allStr = false
				break
			}
			s := constant.StringVal(c)
			b = b.or(bsOf(s))
			if m < 0 || len(s) < m {
				m = len(s)
			}
		}
		if allStr {
			if r.Str {
				r.Min = min(r.Min, m)
			} else {
				r.Min = m
			}
			r.Str = true
			r.B = r.B.or(b)
		} else {
			r.Top = true
		}
		r.Consts = map[string]constant.Value{}
	}
	return r
}

func eqV(x, y AVal) bool {
	if x.Top != y.Top || x.Str != y.Str || x.B != y.B || x.Min != y.Min || len(x.Consts) != len(y.Consts) || len(x.Labels) != len(y.Labels) {
		return false
	}
	for k := range x.Consts {
		if _, ok := y.Consts[k]; !ok {
			return false
		}
	}
	for k := range x.Labels {
		if !y.Labels[k] {
			return false
		}
	}
	return true
}

// bytes gives the set of bytes that a string value can contain.
func (v AVal) bytes() bset {
	var b bset
	if v.Top {
		return bsAll()
	}
	if v.Str {
		b = v.B
	}
	for _, c := range v.Consts {
		if c == nil {
			continue
		}
		switch c.Kind() {
		case constant.String:
			b = b.or(bsOf(constant.StringVal(c)))
		case constant.Int:
			if i, ok := constant.Int64Val(c); ok {
				b = b.or(bsOf(string(rune(i))))
				if i >= 128 && i < 256 {
					b.add(byte(i))
				}
			}
		}
	}
	return b
}
func (v AVal) minLen() int {
	m := -1
	up := func(n int) {
		if m < 0 || n < m {
			m = n
		}
	}
	if v.Top {
		return 0
	}
	if v.Str {
		up(v.Min)
	}
	for _, c := range v.Consts {
		if c != nil && c.Kind() == constant.String {
			up(len(constant.StringVal(c)))
		} else if c == nil {
			up(0)
		}
	}
	if m < 0 {
		return 0
	}
	return m
}

// single returns the only constant of a value.
func (v AVal) single() (constant.Value, bool) {
	if v.Top || v.Str || len(v.Consts) != 1 {
		return nil, false
	}
	for _, c := range v.Consts {
		return c, c != nil
	}
	return nil, false
}
func (v AVal) strConsts() ([]string, bool) {
	if v.Top || v.Str {
		return nil, false
	}
	var out []string
	for _, c := range v.Consts {
		if c == nil {
			out = append(out, "")
			continue
		}
		switch c.Kind() {
		case constant.String:
			out = append(out, constant.StringVal(c))
		case constant.Int:
			i, _ := constant.Int64Val(c)
			out = append(out, string(rune(i)))
		default:
			return nil, false
		}
	}
	sort.Strings(out)
	return out, len(out) > 0
}
func (v AVal) intConsts() ([]int64, bool) {
	if v.Top || v.Str || len(v.Consts) == 0 {
		return nil, false
	}
	var out []int64
	for _, c := range v.Consts {
		if c == nil || c.Kind() != constant.Int {
			return nil, false
		}
		i, ok := constant.Int64Val(c)
		if !ok {
			return nil, false
		}
		out = append(out, i)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, true
}

func (v AVal) String() string {
	var p []string
	if v.Top {
		p = append(p, "top")
	}
	if v.Str {
		p = append(p, fmt.Sprintf("str{min %d, %s}", v.Min, v.B))
	}
	var ks []string
	for k := range v.Consts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		p = append(p, "{"+strings.Join(ks, ",")+"}")
	}
	if len(v.Labels) > 0 {
		p = append(p, "<"+v.labelList()+">")
	}
	if len(p) == 0 {
		return "bottom"
	}
	return strings.Join(p, " ")
}

// Eval computes the abstract value of v in its context.
func (a *AI) Eval(vc VC) AVal {
	if v, ok := a.memo[vc]; ok {
		return v
	}
	if a.evalD > 0 {
		return a.ev(vc)
	}
	saveVis := a.vis
	a.approx = map[VC]AVal{}
	var v AVal
	for i := 0; i < 30; i++ {
		a.chg = false
		a.vis = map[VC]bool{}
		a.evalD++
		v = a.ev(vc)
		a.evalD--
		if !a.chg {
			break
		}
	}
	a.vis = saveVis
	for k, x := range a.approx {
		a.memo[k] = x
	}
	a.memo[vc] = v
	return v
}

// evalFresh evaluates independently of an evaluation that is going on.
func (a *AI) evalFresh(vc VC) AVal {
	d, ap, vis, chg := a.evalD, a.approx, a.vis, a.chg
	a.evalD = 0
	v := a.Eval(vc)
	a.evalD, a.approx, a.vis, a.chg = d, ap, vis, chg
	return v
}

func (a *AI) ev(vc VC) AVal {
	if v, ok := a.memo[vc]; ok {
		return v
	}
	if a.evalD == 0 {
		return a.Eval(vc)
	}
	if a.vis[vc] {
		return a.approx[vc]
	}
	a.vis[vc] = true
	v := a.ev1(vc)
	if a.MapConst != nil {
		v = a.MapConst(vc, v)
	}
	v = joinV(a.approx[vc], v)
	if old, ok := a.approx[vc]; !ok || !eqV(old, v) {
		a.nchg[vc]++
		if a.nchg[vc] > 60 {
			v = withLabels(topVal(), v.Labels)
		}
		a.approx[vc] = v
		a.chg = true
	}
	return v
}

func zeroOf(t types.Type) AVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strConst("")
		case u.Info()&types.IsBoolean != 0:
			return boolConst(false)
		case u.Info()&types.IsInteger != 0:
			return intConst(0)
		}
		return topVal()
	case *types.Slice:
		if isStrBytes(t) {
			return strConst("")
		}
		return AVal{}
	case *types.Struct, *types.Array:
		return AVal{}
	}
	return AVal{Consts: map[string]constant.Value{"nil": nil}}
}

func (a *AI) ev1(vc VC) AVal {
	if a.Hook != nil {
		if v, ok := a.Hook(a, Org{vc, ""}); ok {
			return v
		}
	}
	F := vc.F
	e := func(v ssa.Value) AVal { return a.ev(VC{F, v}) }
	switch x := vc.V.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return constVal(x.Value)
	case *ssa.Parameter:
		args := a.paramArgs(F, x)
		if len(args) == 0 {
			return a.leaf(vc, "")
		}
		var v AVal
		for _, g := range args {
			v = joinV(v, a.ev(g))
		}
		if _, ok := x.Type().Underlying().(*types.Basic); ok && F.Up != nil && F.contains(F.Fn) >= 2 {
			// deeper levels of a recursion
			for i, q := range F.Fn.Params {
				if q != x {
					continue
				}
				for _, site := range a.P.Callers(F.Fn) {
					if c := site.Common(); site.Parent() == F.Fn && !c.IsInvoke() && i < len(c.Args) && c.Args[i] != ssa.Value(x) {
						v = joinV(v, a.ev(VC{F, c.Args[i]}))
					}
				}
			}
		}
		return a.withStores(F, vc.V, v)
	case *ssa.FreeVar:
		if F.Clo != nil {
			for i, fv := range F.Fn.FreeVars {
				if fv == x && i < len(F.Clo.Bindings) {
					return a.ev(VC{F.CloF, F.Clo.Bindings[i]})
				}
			}
		}
		return a.leaf(vc, "")
	case *ssa.Phi:
		if v, ok := a.loopRepeat(vc); ok {
			return v
		}
		fi := a.feasible(F)
		var v AVal
		for i, ed := range x.Edges {
			if fi.dead[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				continue
			}
			v = joinV(v, a.refineEdge(VC{F, ed}, x.Block().Preds[i], x.Block(), e(ed)))
		}
		return v
	case *ssa.ChangeType:
		return e(x.X)
	case *ssa.ChangeInterface:
		return e(x.X)
	case *ssa.MakeInterface:
		return e(x.X)
	case *ssa.TypeAssert:
		if x.CommaOk {
			return topVal()
		}
		return e(x.X)
	case *ssa.Convert:
		v := e(x.X)
		if isStrBytes(x.Type()) {
			if isStrBytes(x.X.Type()) {
				return a.withStores(F, vc.V, v)
			}
			// rune/byte to string
			if ss, ok := v.strConsts(); ok {
				r := AVal{Labels: v.Labels}
				for _, s := range ss {
					r = joinV(r, withLabels(strConst(s), v.Labels))
				}
				return r
			}
			if v.Str {
				return v
			}
			return withLabels(strAny(), v.Labels)
		}
		return v
	case *ssa.Slice:
		v := e(x.X)
		if x.Low == nil && x.High == nil {
			return v
		}
		return a.sliceOf(v, x, F)
	case *ssa.SliceToArrayPointer:
		return e(x.X)
	case *ssa.Index:
		return charAt(e(x.X), e(x.Index))
	case *ssa.Lookup:
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return charAt(e(x.X), e(x.Index))
		}
		if v, _, ok := a.mapLookup(F, x); ok {
			return v
		}
		return a.leaf(vc, "")
	case *ssa.BinOp:
		return a.binop(F, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			t, f := e(x.X).mayBool()
			v := e(x.X)
			if v.bot() {
				return v
			}
			if t && f {
				return AVal{Consts: map[string]constant.Value{"Bool:true": constant.MakeBool(true), "Bool:false": constant.MakeBool(false)}}
			}
			return boolConst(f)
		case token.MUL:
			return a.evalLoad(vc, x)
		case token.SUB:
			if is, ok := e(x.X).intConsts(); ok && len(is) == 1 {
				return intConst(-is[0])
			}
			return topVal()
		}
		return topVal()
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return a.evalCall(F, t, x.Index, vc)
		case *ssa.Next:
			if t.IsString {
				if x.Index == 2 {
					return charOf(e(t.Iter))
				}
				return topVal()
			}
			return a.leaf(vc, "")
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return e(t.X)
			}
		case *ssa.Lookup:
			if v, found, ok := a.mapLookup(F, t); ok {
				if x.Index == 0 {
					return v
				}
				return found
			}
			return a.leaf(vc, "")
		}
		return a.leaf(vc, "")
	case *ssa.Range:
		return e(x.X)
	case *ssa.Call:
		return a.evalCall(F, x, 0, vc)
	case *ssa.MakeSlice:
		if isStrBytes(x.Type()) {
			if is, ok := e(x.Len).intConsts(); ok && len(is) == 1 && is[0] == 0 {
				return a.withStores(F, vc.V, strConst(""))
			}
			return a.withStores(F, vc.V, strBytes(bsOf("\x00"), nil))
		}
		return a.containerStores(vc)
	case *ssa.Alloc:
		if at, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return a.byteArray(vc, x, int(at.Len()))
			}
		}
		return a.containerStores(vc)
	case *ssa.Field:
		var v AVal
		for _, o := range a.values(vc) {
			v = joinV(v, a.evOrg(o, vc))
		}
		return v
	case *ssa.Function, *ssa.MakeClosure, *ssa.Builtin, *ssa.MakeMap:
		return topVal()
	case *ssa.Global:
		return topVal()
	}
	return a.leaf(vc, "")
}

func (a *AI) evOrg(o Org, from VC) AVal {
	if o.VC == from && o.Path == "" {
		return a.leaf(from, "")
	}
	if o.Path == "" {
		return a.ev(o.VC)
	}
	if a.Hook != nil {
		if v, ok := a.Hook(a, o); ok {
			return v
		}
	}
	if strings.HasPrefix(o.Path, "zero") {
		return zeroOf(from.V.Type())
	}
	if o.Path == "*[]" && isStrBytes(o.V.Type()) {
		// a character of a text
		if v := a.ev(o.VC); !v.Top {
			if ss, ok := v.strConsts(); ok && len(ss) == 1 && len(ss[0]) == 1 {
				return intConst(int64(ss[0][0]))
			}
			return charOf(v)
		}
	}
	return a.leaf(o.VC, o.Path)
}

func (a *AI) leaf(vc VC, path string) AVal {
	if a.Hook != nil && path != "" {
		if v, ok := a.Hook(a, Org{vc, path}); ok {
			return v
		}
	}
	if strings.HasSuffix(path, ".Data") && isNamed(vc.V.Type(), htmlPath, "Node") {
		return strAny("nodedata")
	}
	return leafOf(vc.V.Type())
}

func leafOf(t types.Type) AVal {
	if isStrBytes(t) {
		return strAny()
	}
	return topVal()
}

// charOf: one character out of a string value.
// charAt: the character of a text at an index.
func charAt(v, i AVal) AVal {
	ss, ok1 := v.strConsts()
	is, ok2 := i.intConsts()
	if !ok1 || !ok2 || len(is) != 1 || v.Str {
		return charOf(v)
	}
	var r AVal
	for _, s := range ss {
		if is[0] >= 0 && is[0] < int64(len(s)) {
			r = joinV(r, intConst(int64(s[is[0]])))
		}
	}
	if r.bot() {
		return charOf(v)
	}
	return r
}

func charOf(v AVal) AVal {
	if v.bot() {
		return v
	}
	if v.Top {
		return topVal()
	}
	r := AVal{Str: true, B: v.bytes(), Min: 1, Labels: v.Labels}.dropMust(true)
	if r.Labels["attr:title"] {
		r = r.label("bytewise")
	}
	return r
}

func (a *AI) sliceOf(v AVal, x *ssa.Slice, F *Frame) AVal {
	if v.Top || v.bot() {
		return v
	}
	if !isStrBytes(x.X.Type()) {
		return v
	}
	if ss, ok := v.strConsts(); ok && !v.Str {
		if _, isStr := x.Type().Underlying().(*types.Basic); isStr {
			bound := func(b ssa.Value, def int) (int, bool) {
				if b == nil {
					return def, true
				}
				is, ok := a.ev(VC{F, b}).intConsts()
				if !ok || len(is) != 1 || is[0] < 0 || is[0] > 1000 {
					return 0, false
				}
				return int(is[0]), true
			}
			var r AVal
			for _, s := range ss {
				lo, ok1 := bound(x.Low, 0)
				hi, ok2 := bound(x.High, len(s))
				if !ok1 || !ok2 {
					r = AVal{}
					break
				}
				if lo <= hi && hi <= len(s) {
					r = joinV(r, strConst(s[lo:hi]))
				}
			}
			if !r.bot() {
				r.Labels = v.Labels
				return r
			}
		}
	}
	if b, ok := a.cutSpace(VC{F, x}); ok {
		return AVal{Str: true, B: v.bytes().and(b)}
	}
	return AVal{Str: true, B: v.bytes(), Labels: v.Labels}.dropMust(true)
}

// trimSet: the characters that a call takes off its argument, if these are only white space.
func (a *AI) trimSet(vc VC) (call *ssa.Call, side string, set bset, ok bool) {
	for n := 0; n < 6; n++ {
		c, isCall := vc.V.(*ssa.Call)
		if isCall {
			name := calleeName(c.Common())
			fn := name[strings.LastIndex(name, ".")+1:]
			if strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.") {
				switch fn {
				case "TrimRight", "TrimLeft":
					ss, isC := a.ev(VC{vc.F, c.Call.Args[1]}).strConsts()
					if !isC || len(ss) != 1 {
						return nil, "", bset{}, false
					}
					return c, fn[4:], bsOf(ss[0]), true
				case "TrimRightFunc", "TrimLeftFunc":
					if a.isSpaceFunc(VC{vc.F, c.Call.Args[1]}) {
						return c, fn[4 : len(fn)-4], wsBytes, true
					}
				}
				return nil, "", bset{}, false
			}
		}
		s := a.step(vc)
		if len(s) != 1 {
			return nil, "", bset{}, false
		}
		vc = s[0]
	}
	return nil, "", bset{}, false
}

// isSpaceFunc: unicode.IsSpace, or a function that only returns its result.
func (a *AI) isSpaceFunc(vc VC) bool {
	for _, o := range a.values(vc) {
		var f *ssa.Function
		switch x := o.V.(type) {
		case *ssa.Function:
			f = x
		case *ssa.MakeClosure:
			f = x.Fn.(*ssa.Function)
		}
		if f == nil {
			return false
		}
		if fkey(f) == "unicode.IsSpace" {
			continue
		}
		if len(f.Blocks) != 1 {
			return false
		}
		ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return false
		}
		c, ok := ret.Results[0].(*ssa.Call)
		if !ok || calleeName(c.Common()) != "unicode.IsSpace" || c.Call.Args[0] != ssa.Value(f.Params[0]) {
			return false
		}
	}
	return true
}

// cutSpace: the slice is what a trim function cuts off (the white space before or after a text).
func (a *AI) cutSpace(vc VC) (bset, bool) {
	x := vc.V.(*ssa.Slice)
	lenOf := func(v ssa.Value) (VC, bool) {
		c, ok := v.(*ssa.Call)
		if !ok || calleeName(c.Common()) != "builtin.len" {
			return VC{}, false
		}
		return VC{vc.F, c.Call.Args[0]}, true
	}
	same := func(p, q VC) bool { return p == q || a.skey(p, 0) == a.skey(q, 0) }
	if x.Low != nil && x.High == nil {
		t, ok := lenOf(x.Low)
		if !ok {
			return bset{}, false
		}
		c, side, set, ok := a.trimSet(t)
		if ok && side == "Right" && same(VC{t.F, c.Call.Args[0]}, VC{vc.F, x.X}) {
			return set, true
		}
		return bset{}, false
	}
	if x.High == nil || x.Low != nil && !isZeroConst(x.Low) {
		return bset{}, false
	}
	d, ok := x.High.(*ssa.BinOp)
	if !ok || d.Op != token.SUB {
		return bset{}, false
	}
	r, ok1 := lenOf(d.X)
	t, ok2 := lenOf(d.Y)
	if !ok1 || !ok2 {
		return bset{}, false
	}
	c, side, set, ok := a.trimSet(t)
	if !ok || side != "Left" || !same(VC{t.F, c.Call.Args[0]}, r) {
		return bset{}, false
	}
	if same(r, VC{vc.F, x.X}) {
		return set, true
	}
	if c2, side2, _, ok := a.trimSet(r); ok && side2 == "Right" && same(VC{r.F, c2.Call.Args[0]}, VC{vc.F, x.X}) {
		return set, true
	}
	return bset{}, false
}

// withStores adds the bytes that are stored into elements of byte slices in the function.
func (a *AI) withStores(F *Frame, base ssa.Value, v AVal) AVal {
	a.elemStores(F, base, func(st *ssa.Store) {
		sv := a.ev(VC{F, st.Val})
		v = joinV(AVal{Str: true, B: v.bytes().or(sv.bytes()), Labels: v.Labels, Min: v.minLen()}, AVal{})
	})
	return v
}

// elemStores: the live stores to single characters of a text.
func (a *AI) elemStores(F *Frame, base ssa.Value, fn func(st *ssa.Store)) {
	if _, ok := base.Type().Underlying().(*types.Slice); !ok || !isStrBytes(base.Type()) {
		return
	}
	der := map[ssa.Value]bool{base: true}
	work := []ssa.Value{base}
	for len(work) > 0 {
		u := work[0]
		work = work[1:]
		if u.Referrers() == nil {
			continue
		}
		for _, in := range *u.Referrers() {
			switch y := in.(type) {
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
				w := y.(ssa.Value)
				if !der[w] {
					der[w] = true
					work = append(work, w)
				}
			case *ssa.IndexAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(y) && a.feasible(F).live[st.Block().Index] {
						fn(st)
					}
				}
			}
		}
	}
}

// containerStores abstracts a container (array, slice of strings, struct) by what is stored in it.
func (a *AI) containerStores(vc VC) AVal {
	var v AVal
	if al, ok := vc.V.(*ssa.Alloc); ok {
		for _, st := range a.storesTo(vc) {
			if st.Path == "" || strings.HasSuffix(st.Path, "[]") {
				v = joinV(v, a.ev(st.Val))
			}
		}
		_ = al
		return v
	}
	// slice: stores to its elements in this function
	for _, in := range *vc.V.Referrers() {
		if ia, ok := in.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					v = joinV(v, a.ev(VC{vc.F, st.Val}))
				}
			}
		}
	}
	return v
}

func (a *AI) evalLoad(vc VC, x *ssa.UnOp) AVal {
	F := vc.F
	// element of a container or of a byte slice
	if ia, ok := x.X.(*ssa.IndexAddr); ok {
		v := a.ev(VC{F, ia.X})
		if isStrBytes(ia.X.Type()) {
			if ss, ok := v.strConsts(); ok && len(ss) == 1 && len(ss[0]) == 1 && isByteType(x.Type()) {
				return withLabels(intConst(int64(ss[0][0])), v.Labels)
			}
			return charOf(v)
		}
		if _, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
			// array in a cell
			return a.arrayElem(F, ia)
		}
		return v
	}
	var v AVal
	any := false
	for _, o := range a.values(vc) {
		any = true
		v = joinV(v, a.evOrg(o, vc))
	}
	if !any {
		return AVal{}
	}
	return a.withStores(F, vc.V, v)
}

func (a *AI) arrayElem(F *Frame, ia *ssa.IndexAddr) AVal {
	var v AVal
	for _, ad := range a.addrs(VC{F, ia.X}) {
		switch r := ad.Root.V.(type) {
		case *ssa.Alloc:
			for _, st := range a.storesTo(ad.Root) {
				if st.Path == ad.Path+"[]" {
					v = joinV(v, a.ev(st.Val))
				}
			}
		case *ssa.Global:
			for _, st := range a.globalStores(r) {
				if st.Path == ad.Path+"[]" {
					v = joinV(v, a.ev(st.Val))
				}
			}
		default:
			return leafOf(ia.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	return v
}

func cmpStr(op token.Token, x, y constant.Value) (res bool, ok bool) {
	if x == nil || y == nil {
		return false, false
	}
	if x.Kind() != y.Kind() {
		return false, false
	}
	return constant.Compare(x, op, y), true
}

func (a *AI) binop(F *Frame, x *ssa.BinOp) AVal {
	if x.Op == token.EQL || x.Op == token.NEQ {
		if v, ok := a.nilCompare(F, x); ok {
			return v
		}
	}
	l, r := a.ev(VC{F, x.X}), a.ev(VC{F, x.Y})
	if l.bot() || r.bot() {
		return AVal{}
	}
	both := AVal{Consts: map[string]constant.Value{"Bool:true": constant.MakeBool(true), "Bool:false": constant.MakeBool(false)}}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !l.Top && !r.Top {
			if !l.Str && !r.Str {
				t, f := false, false
				for _, c1 := range l.Consts {
					for _, c2 := range r.Consts {
						if c1 == nil && c2 == nil && (x.Op == token.EQL || x.Op == token.NEQ) {
							if x.Op == token.EQL {
								t = true
							} else {
								f = true
							}
							continue
						}
						res, ok := cmpStr(x.Op, c1, c2)
						if !ok {
							return both
						}
						if res {
							t = true
						} else {
							f = true
						}
					}
				}
				if t != f {
					return boolConst(t)
				}
				return both
			}
			if x.Op == token.EQL || x.Op == token.NEQ {
				// disjoint?
				if a.disjoint(l, r) || a.disjoint(r, l) {
					return boolConst(x.Op == token.NEQ)
				}
				if isByteType(x.X.Type()) && l.bytes().and(r.bytes()).empty() {
					return boolConst(x.Op == token.NEQ)
				}
			}
		}
		return both
	case token.ADD:
		if isStrBytes(x.Type()) {
			return concatV(l, r)
		}
	}
	if !l.Top && !r.Top && !l.Str && !r.Str && len(l.Consts)*len(r.Consts) <= 64 {
		out := AVal{}
		for _, c1 := range l.Consts {
			for _, c2 := range r.Consts {
				if c1 == nil || c2 == nil {
					return topVal()
				}
				if c1.Kind() != constant.Int || c2.Kind() != constant.Int {
					return topVal()
				}
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
					out = joinV(out, constVal(constant.BinaryOp(c1, x.Op, c2)))
				default:
					return topVal()
				}
			}
		}
		return out
	}
	return topVal()
}

// nilCompare decides comparisons with nil from the origins of the other operand.
func (a *AI) nilCompare(F *Frame, x *ssa.BinOp) (AVal, bool) {
	o := x.X
	c, ok := x.Y.(*ssa.Const)
	if !ok {
		c, ok = x.X.(*ssa.Const)
		o = x.Y
	}
	if !ok || !c.IsNil() || isStrBytes(o.Type()) {
		return AVal{}, false
	}
	isNil, notNil := false, false
	for _, og := range a.values(VC{F, o}) {
		if a.Hook != nil {
			if v, ok := a.Hook(a, og); ok {
				nn, oth := false, v.Top || v.Str
				for _, cc := range v.Consts {
					if cc == nil {
						nn = true
					} else {
						oth = true
					}
				}
				isNil = isNil || nn || v.Top
				notNil = notNil || oth
				continue
			}
		}
		switch y := og.V.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			if og.Path == "" {
				notNil = true
				continue
			}
			if strings.HasPrefix(og.Path, "zero") {
				isNil = true
				continue
			}
		case *ssa.Call:
			if n := calleeName(y.Common()); og.Path == "" && (n == "fmt.Errorf" || n == "errors.New") {
				notNil = true
				continue
			}
		case *ssa.Const:
			if og.Path == "" && y.IsNil() {
				isNil = true
				// a nil pointer inside of an interface is not nil
				if types.IsInterface(o.Type()) && !types.IsInterface(y.Type()) {
					notNil = true
				}
				continue
			}
		}
		return AVal{}, false
	}
	switch {
	case isNil && notNil:
		return AVal{Consts: map[string]constant.Value{"Bool:true": constant.MakeBool(true), "Bool:false": constant.MakeBool(false)}}, true
	case isNil:
		return boolConst(x.Op == token.EQL), true
	case notNil:
		return boolConst(x.Op == token.NEQ), true
	}
	return AVal{}, false
}

// disjoint: can the (partly) non-constant l never equal one of r's values?
func (a *AI) disjoint(l, r AVal) bool {
	if !l.Str || r.Str || r.Top {
		return false
	}
	for _, c := range l.Consts {
		for _, d := range r.Consts {
			res, ok := cmpStr(token.EQL, c, d)
			if !ok || res {
				return false
			}
		}
	}
	for _, c := range r.Consts {
		if c == nil {
			return false
		}
		switch c.Kind() {
		case constant.String:
			s := constant.StringVal(c)
			if len(s) >= l.Min && bsOf(s).minus(l.B).empty() {
				return false
			}
		case constant.Int:
			i, _ := constant.Int64Val(c)
			if i < 0 || i > 127 || l.B.has(byte(i)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func concatV(l, r AVal) AVal {
	if l.bot() || r.bot() {
		return AVal{}
	}
	lc, ok1 := l.strConsts()
	rc, ok2 := r.strConsts()
	if ok1 && ok2 && len(lc)*len(rc) <= 32 {
		var v AVal
		for _, s := range lc {
			for _, t := range rc {
				v = joinV(v, strConst(s+t))
			}
		}
		v.Labels = mergeLabels(l, r, true)
		return v
	}
	v := AVal{Str: true, B: l.bytes().or(r.bytes()), Min: l.minLen() + r.minLen()}
	if v.Min > 4 {
		v.Min = 4
	}
	v.Labels = mergeLabels(l, r, true)
	return v
}

// byteArray assembles a byte array literal.
func (a *AI) byteArray(vc VC, x *ssa.Alloc, n int) AVal {
	vals := make([]*AVal, n)
	ok := true
	var b bset
	var labels map[string]bool
	for _, ref := range *x.Referrers() {
		ia, isI := ref.(*ssa.IndexAddr)
		if !isI {
			continue
		}
		ic, isC := ia.Index.(*ssa.Const)
		for _, r2 := range *ia.Referrers() {
			st, isS := r2.(*ssa.Store)
			if !isS || st.Addr != ssa.Value(ia) {
				continue
			}
			if st.Parent() == vc.F.Fn && !a.feasible(vc.F).live[st.Block().Index] {
				continue
			}
			v := a.refineAt(VC{vc.F, st.Val}, st.Block(), a.ev(VC{vc.F, st.Val}))
			if v.bot() {
				return AVal{}
			}
			b = b.or(v.bytes())
			if len(v.Labels) > 0 {
				labels = withLabels(AVal{Labels: labels}, v.Labels).Labels
			}
			if !isC || vals[ic.Int64()] != nil {
				ok = false
				continue
			}
			vals[ic.Int64()] = &v
		}
	}
	if ok {
		out := make([]byte, 0, n)
		for _, v := range vals {
			if v == nil {
				out = append(out, 0)
				continue
			}
			is, isInt := v.intConsts()
			if !isInt || len(is) != 1 || is[0] < 0 || is[0] > 255 {
				ok = false
				break
			}
			out = append(out, byte(is[0]))
		}
		if ok {
			return withLabels(strConst(string(out)), labels)
		}
	}
	return AVal{Str: true, B: b, Min: min(n, 4), Labels: labels}
}

// mapLookup evaluates a lookup with a known key in a map that is only filled with known keys.
func (a *AI) mapLookup(F *Frame, x *ssa.Lookup) (v, found AVal, ok bool) {
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return
	}
	key := a.ev(VC{F, x.Index})
	ks, isK := key.strConsts()
	if !isK || len(ks) == 0 {
		return
	}
	type entry struct {
		k string
		v VC
	}
	var entries []entry
	for _, o := range a.values(VC{F, x.X}) {
		if strings.HasPrefix(o.Path, "zero") {
			continue
		}
		mm, isM := o.V.(*ssa.MakeMap)
		if !isM || o.Path != "" {
			return
		}
		// every use of the map is an update with a known key, a lookup, or keeps it in a variable
		good := true
		a.eachUse(o.VC, func(u Use) {
			switch in := u.In.(type) {
			case *ssa.MapUpdate:
				if in.Map != u.V {
					return
				}
				kc, isC := a.ev(VC{u.F, in.Key}).strConsts()
				if !isC || len(kc) != 1 {
					good = false
					return
				}
				entries = append(entries, entry{kc[0], VC{u.F, in.Value}})
			case ssa.CallInstruction:
				if frs, complete := a.calleeFrames(u.F, in); len(frs) == 0 || !complete {
					if n := calleeName(in.Common()); n != "builtin.len" {
						good = false
					}
				}
			}
		})
		_ = mm
		if !good {
			return
		}
	}
	// package-level maps that are updated elsewhere
	for _, ad := range a.addrsOfLoad(F, x.X) {
		if g, isG := ad.Root.V.(*ssa.Global); isG {
			for _, f := range a.P.Funcs {
				bad := false
				instrs(f, func(in ssa.Instruction) {
					if mu, isU := in.(*ssa.MapUpdate); isU {
						if l, isL := mu.Map.(*ssa.UnOp); isL && l.X == ssa.Value(g) {
							bad = true
						}
					}
				})
				if bad {
					return
				}
			}
		}
	}
	for _, k := range ks {
		hit := false
		for _, e := range entries {
			if e.k == k {
				hit = true
				v = joinV(v, a.ev(e.v))
			}
		}
		if !hit {
			v = joinV(v, zeroOf(mt.Elem()))
		}
		found = joinV(found, boolConst(hit))
	}
	return v, found, true
}

func (a *AI) addrsOfLoad(F *Frame, v ssa.Value) []Addr {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		return a.addrs(VC{F, l.X})
	}
	return nil
}
