package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis: an interprocedural, context-sensitive dataflow over lock states.

type lmode int

const (
	lR lmode = 1
	lW lmode = 2
)

type lockState struct {
	must map[string]lmode
	may  map[string]lmode
	defs map[*ssa.Defer]bool // deferred calls that may be pending
	defm map[*ssa.Defer]bool // deferred calls that must be pending
}

func newLS() lockState {
	return lockState{map[string]lmode{}, map[string]lmode{}, map[*ssa.Defer]bool{}, map[*ssa.Defer]bool{}}
}
func (s lockState) clone() lockState {
	n := newLS()
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	for k := range s.defs {
		n.defs[k] = true
	}
	for k := range s.defm {
		n.defm[k] = true
	}
	return n
}
func (s lockState) join(o lockState) (lockState, bool) {
	ch := false
	n := s.clone()
	for k, v := range n.must {
		w, ok := o.must[k]
		if !ok {
			delete(n.must, k)
			ch = true
		} else if w < v {
			n.must[k] = w
			ch = true
		}
	}
	for k, v := range o.may {
		if n.may[k] < v {
			n.may[k] = v
			ch = true
		}
	}
	for k := range o.defs {
		if !n.defs[k] {
			n.defs[k] = true
			ch = true
		}
	}
	for k := range n.defm {
		if !o.defm[k] {
			delete(n.defm, k)
			ch = true
		}
	}
	return n, ch
}
func modesKey(m map[string]lmode) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
func showLocks(m map[string]lmode) string {
	if len(m) == 0 {
		return "no lock"
	}
	var ks []string
	for k, v := range m {
		if v == lW {
			ks = append(ks, k+" (exclusive)")
		} else {
			ks = append(ks, k+" (shared)")
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

type lockEvent struct {
	in   ssa.Instruction
	must map[string]lmode
	may  map[string]lmode
}

type lockSummary struct {
	exits []lockState
	rets  []ssa.Instruction
}

type LockAn struct {
	P      *Prog
	A      *PTS
	memo   map[string]*lockSummary
	active map[string]bool
	at     map[ssa.Instruction][]lockEvent // contexts seen for each instruction
	acq    map[ssa.Instruction]string
	deps   map[[2]string]ssa.Instruction // lock order edges
	reacq  map[ssa.Instruction]string    // acquisition of a lock that may already be held
	unlock map[ssa.Instruction]string    // release of a lock that is not held
}

func newLockAn(P *Prog, A *PTS) *LockAn {
	return &LockAn{P: P, A: A, memo: map[string]*lockSummary{}, active: map[string]bool{}, at: map[ssa.Instruction][]lockEvent{}, acq: map[ssa.Instruction]string{}, deps: map[[2]string]ssa.Instruction{}, reacq: map[ssa.Instruction]string{}, unlock: map[ssa.Instruction]string{}}
}

func isLockOp(c *ssa.CallCommon) (op string, recv ssa.Value) {
	name := calleeName(c)
	for _, t := range []string{"(sync.RWMutex).", "(sync.Mutex).", "(sync.Locker)."} {
		if strings.HasPrefix(name, t) {
			op = strings.TrimPrefix(name, t)
			if c.IsInvoke() {
				recv = c.Value
			} else {
				recv = c.Args[0]
			}
			return
		}
	}
	return "", nil
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// locName names a location by the type it lives in: "converter.Converter.m".
func locName(l Loc) string {
	switch l.O.Kind {
	case oGlobal:
		return strings.ReplaceAll(l.O.Site.(*ssa.Global).RelString(nil), modPath+"/", "") + l.Path
	case oUnknown:
		return "caller-supplied" + l.Path
	}
	t := l.O.Typ
	if t == nil {
		return "?" + l.Path
	}
	return shortType(t) + l.Path
}

func (L *LockAn) lockKey(v ssa.Value) string {
	names := map[string]bool{}
	all := map[string]bool{}
	for l := range L.A.pts(v) {
		all[locName(l)] = true
		if l.O.Kind == oUnknown {
			continue // an object of the caller cannot be a lock of the library
		}
		if t := locType(l); t != nil && !isNamed(t, "sync", "RWMutex") && !isNamed(t, "sync", "Mutex") {
			continue
		}
		names[locName(l)] = true
	}
	if len(names) == 0 {
		names = all
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "unresolved lock " + v.Name()
	}
	return strings.Join(ks, "|")
}

// analyse runs fn with the given lock context and returns its summary.
func (L *LockAn) analyse(fn *ssa.Function, must, may map[string]lmode) *lockSummary {
	key := fmt.Sprintf("%p|%s|%s", fn, modesKey(must), modesKey(may))
	if s, ok := L.memo[key]; ok {
		return s
	}
	if L.active[key] {
		return nil
	}
	L.active[key] = true
	defer delete(L.active, key)
	entry := newLS()
	for k, v := range must {
		entry.must[k] = v
	}
	for k, v := range may {
		entry.may[k] = v
	}
	states := make([]*lockState, len(fn.Blocks))
	states[0] = &entry
	work := []int{0}
	iter := 0
	for len(work) > 0 && iter < 2000 {
		iter++
		bi := work[0]
		work = work[1:]
		st := states[bi].clone()
		for _, in := range fn.Blocks[bi].Instrs {
			L.transfer(in, &st, false)
		}
		for _, s := range fn.Blocks[bi].Succs {
			if states[s.Index] == nil {
				c := st.clone()
				states[s.Index] = &c
				work = append(work, s.Index)
			} else if n, ch := states[s.Index].join(st); ch {
				states[s.Index] = &n
				work = append(work, s.Index)
			}
		}
	}
	sum := &lockSummary{}
	for bi, b := range fn.Blocks {
		if states[bi] == nil {
			continue
		}
		st := states[bi].clone()
		for _, in := range b.Instrs {
			L.transfer(in, &st, true)
			if _, ok := in.(*ssa.Return); ok {
				sum.exits = append(sum.exits, st.clone())
				sum.rets = append(sum.rets, in)
			}
		}
	}
	L.memo[key] = sum
	return sum
}

func (L *LockAn) lockOp(op string, key string, st *lockState, in ssa.Instruction, record bool, certain bool) {
	switch op {
	case "Lock", "RLock", "TryLock", "TryRLock":
		if record {
			L.acq[in] = key
			for k := range st.may {
				if k == key {
					L.reacq[in] = key
				} else {
					L.deps[[2]string{k, key}] = in
				}
			}
		}
		m := lW
		if op == "RLock" || op == "TryRLock" {
			m = lR
		}
		if op == "Lock" || op == "RLock" {
			st.must[key] = m
		}
		st.may[key] = m
	case "Unlock", "RUnlock":
		if record && certain {
			want := lW
			if op == "RUnlock" {
				want = lR
			}
			if st.must[key] != want {
				L.unlock[in] = key
			}
		}
		delete(st.must, key)
		if certain {
			delete(st.may, key)
		}
	}
}

func (L *LockAn) transfer(in ssa.Instruction, st *lockState, record bool) {
	if record {
		L.at[in] = append(L.at[in], lockEvent{in, st.clone().must, st.clone().may})
	}
	switch x := in.(type) {
	case *ssa.Defer:
		st.defs[x] = true
		st.defm[x] = true
	case *ssa.RunDefers:
		var ds []*ssa.Defer
		for d := range st.defs {
			ds = append(ds, d)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() > ds[j].Pos() })
		for _, d := range ds {
			L.apply(d, st, record, st.defm[d])
		}
	case *ssa.Go:
		if record {
			for _, g := range L.P.Callees(x) {
				if L.A.in[g] {
					L.analyse(g, nil, nil)
				}
			}
		}
	case *ssa.Call:
		L.apply(x, st, record, true)
	}
}

func (L *LockAn) apply(site ssa.CallInstruction, st *lockState, record, certain bool) {
	c := site.Common()
	if op, recv := isLockOp(c); op != "" {
		L.lockOp(op, L.lockKey(recv), st, site, record, certain)
		return
	}
	callees := L.P.Callees(site)
	var outs []lockState
	for _, g := range callees {
		if !L.A.in[g] {
			// functions passed to an external function run under the current locks
			for _, a := range c.Args {
				for l := range L.A.pts(a) {
					if (l.O.Kind == oFunc || l.O.Kind == oClosure) && L.A.in[fnOf(l.O)] {
						if _, isf := a.Type().Underlying().(*types.Signature); isf {
							L.analyse(fnOf(l.O), st.must, st.may)
						}
					}
				}
			}
			continue
		}
		s := L.analyse(g, st.must, st.may)
		if s == nil {
			continue
		}
		for _, e := range s.exits {
			outs = append(outs, e)
		}
	}
	if len(outs) == 0 {
		return
	}
	m := outs[0].clone()
	for _, o := range outs[1:] {
		m, _ = m.join(o)
	}
	st.must = m.must
	if certain {
		st.may = m.may
	} else {
		for k, v := range m.may {
			st.may[k] = v
		}
	}
}

func fnOf(o *Obj) *ssa.Function {
	switch x := o.Site.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}
