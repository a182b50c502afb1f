package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory accesses of one instruction, resolved to abstract locations.
type access struct {
	in    ssa.Instruction
	locs  []Loc
	write bool
	base  ssa.Value // address or container through which the access is made
	what  string
}

var extWriters = map[string][]int{ // external functions that modify (the elements of) an argument
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0},
	"math/rand.Shuffle": {}, "io.ReadFull": {1}, "binary.PutUvarint": {0}, "utf8.EncodeRune": {0}, "unicode/utf8.EncodeRune": {0},
	"encoding/json.Unmarshal": {1}, "io.ReadAtLeast": {1},
	"(strings.Reader).Read": {1}, "(bytes.Buffer).Read": {1}, "(io.Reader).Read": {0},
}

// methods of external types that are safe on a shared value
var extSafeRecv = []string{"(strings.Replacer).", "(regexp.Regexp).", "(sync.", "(reflect.", "(context.", "(url.URL).String", "(net/url.URL).", "(error).", "(atomic.", "(sync/atomic."}

func appendLen(A *PTS) {}

// fullSliceGlobal: the slice value is a package-level slice whose capacity equals its length
// (it is only ever set to a complete array literal), so that append always copies it.
func fullSlice(P *Prog, v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	n := 0
	for f := range P.All {
		bad := false
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g) {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr != ssa.Value(g) {
						bad = true
						continue
					}
					n++
					s, ok := x.Val.(*ssa.Slice)
					if !ok || s.Low != nil || s.High != nil || s.Max != nil {
						bad = true
						continue
					}
					if _, ok := s.X.(*ssa.Alloc); !ok {
						bad = true
					}
				case *ssa.UnOp:
				default:
					bad = true
				}
			}
		})
		if bad {
			return false
		}
	}
	return n > 0
}

func addAll(dst []Loc, s locset, suffix string) []Loc {
	for l := range s {
		if l.O.Kind == oUnknown || l.O.Kind == oFunc || l.O.Kind == oClosure {
			continue
		}
		dst = append(dst, Loc{l.O, l.Path + suffix})
	}
	return dst
}

func (A *PTS) accesses(in ssa.Instruction) []access {
	var out []access
	add := func(write bool, base ssa.Value, suffix, what string) {
		locs := addAll(nil, A.pts(base), suffix)
		if len(locs) > 0 {
			out = append(out, access{in, locs, write, base, what})
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		add(true, x.Addr, "", "store")
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(false, x.X, "", "load")
		}
	case *ssa.MapUpdate:
		add(true, x.Map, "[v]", "map update")
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(false, x.X, "[v]", "map lookup")
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(false, x.X, "[v]", "map iteration")
		}
	case *ssa.Next:
		if !x.IsString {
			add(false, x.Iter, "[v]", "map iteration")
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if !fullSlice(A.P, c.Args[0]) {
					add(true, c.Args[0], "[]", "append (in place, when there is spare capacity)")
				}
				add(false, c.Args[0], "[]", "append source")
				if len(c.Args) > 1 {
					if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
						add(false, c.Args[1], "[]", "append source")
					}
				}
			case "copy":
				add(true, c.Args[0], "[]", "copy destination")
				add(false, c.Args[1], "[]", "copy source")
			case "delete":
				add(true, c.Args[0], "[v]", "map delete")
			case "clear":
				add(true, c.Args[0], "[v]", "clear")
				add(true, c.Args[0], "[]", "clear")
			}
			return out
		}
		if op, _ := isLockOp(c); op != "" {
			return nil
		}
		callees := A.P.Callees(x)
		ext := len(callees) == 0
		for _, g := range callees {
			if !A.in[g] {
				ext = true
			}
		}
		if !ext {
			return nil
		}
		name := calleeName(c)
		if w, ok := extWriters[name]; ok {
			for _, i := range w {
				if i < len(c.Args) {
					add(true, c.Args[i], "[]", name+" (modifies its argument)")
				}
			}
		}
		// receivers of external types
		var recv ssa.Value
		if !c.IsInvoke() && c.Signature().Recv() != nil && len(c.Args) > 0 {
			recv = c.Args[0]
			if _, ok := recv.Type().Underlying().(*types.Pointer); ok {
				safe := false
				for _, s := range extSafeRecv {
					if strings.HasPrefix(name, s) {
						safe = true
					}
				}
				if !safe {
					add(true, recv, "", name+" (method that may modify its receiver)")
				}
			}
		}
		for i, a := range c.Args {
			if i == 0 && recv != nil {
				continue
			}
			switch a.Type().Underlying().(type) {
			case *types.Slice:
				add(false, a, "[]", name+" reads its argument")
			case *types.Map:
				add(false, a, "[v]", name+" reads its argument")
			}
		}
	}
	return out
}

// prePublication: the access goes to memory that was allocated in this very function and has not been
// published (stored anywhere or passed on) on any path to the access.
func prePublication(base ssa.Value, at ssa.Instruction) bool {
	roots := map[ssa.Value]bool{}
	ok := true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || !ok {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			roots[v] = true
		case *ssa.Const:
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Convert:
			if _, isS := x.X.Type().Underlying().(*types.Basic); isS {
				roots[v] = true
			} else {
				ok = false
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
				roots[v] = true
				walk(x.Call.Args[0])
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(base)
	if !ok || len(roots) == 0 {
		return false
	}
	// all values derived from the roots
	der := map[ssa.Value]bool{}
	work := []ssa.Value{}
	for r := range roots {
		der[r] = true
		work = append(work, r)
	}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Phi:
				w := x.(ssa.Value)
				if !der[w] {
					der[w] = true
					work = append(work, w)
				}
			case *ssa.Store:
				if x.Val == v && reaches(u, at) {
					return false
				}
			case *ssa.MapUpdate:
				if (x.Value == v || x.Key == v) && reaches(u, at) {
					return false
				}
			case *ssa.MakeClosure:
				if reaches(u, at) && u != at {
					// captured by a closure that is only passed to the accessing call is fine
					pub := false
					for _, cu := range *x.Referrers() {
						if cu != at {
							pub = true
						}
					}
					if pub {
						return false
					}
				}
			case *ssa.Call:
				if b, isB := x.Call.Value.(*ssa.Builtin); isB {
					if b.Name() == "append" && x.Call.Args[0] == v {
						w := ssa.Value(x)
						if !der[w] {
							der[w] = true
							work = append(work, w)
						}
					}
					continue
				}
				if u != at && reaches(u, at) {
					// a callee could keep it: only accept callees without a place to keep it
					if f := x.Call.StaticCallee(); f == nil || !keepsNothing(f) {
						return false
					}
				}
			}
		}
	}
	return true
}

var nonKeeping = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true}

func keepsNothing(f *ssa.Function) bool {
	if nonKeeping[fnName(f)] {
		return true
	}
	if f.Blocks == nil {
		return false
	}
	res := true
	instrs(f, func(in ssa.Instruction) {
		switch in.(type) {
		case *ssa.Store:
			if s := in.(*ssa.Store); hasPtr(s.Val.Type()) {
				if _, ok := s.Addr.(*ssa.IndexAddr); !ok {
					if _, ok := s.Addr.(*ssa.Alloc); !ok {
						res = false
					}
				}
			}
		case *ssa.MapUpdate, *ssa.Go, *ssa.Send:
			res = false
		}
	})
	return res
}

// reaches: is there a control flow path from instruction a to instruction b (a before b)?
func reaches(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return true
	}
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, in := range a.Block().Instrs {
			if in == a {
				ia = i
			}
			if in == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	work = append(work, a.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b.Block() {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// registerMethods: the exported methods with which handlers are registered (also after construction).
func (P *Prog) registerMethods() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if fnPkgPath(f) != modPath+"/converter" || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil && (isNamed(rv.Type(), modPath+"/converter", "register") || isNamed(rv.Type(), modPath+"/converter", "Converter")) {
			out = append(out, f)
		}
	}
	return out
}

func (P *Prog) converterConvertMethods() []*ssa.Function {
	var out []*ssa.Function
	for _, n := range []string{"ConvertNode", "ConvertReader", "ConvertString"} {
		if f := P.Method("converter", "Converter", n); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func (A *PTS) sharedObjs() map[*Obj]bool {
	roots := locset{}
	for _, o := range A.list {
		if o.Kind == oGlobal && inModule(o.Site.(*ssa.Global).Pkg.Pkg.Path()) {
			roots[Loc{o, ""}] = true
		}
	}
	for _, f := range A.P.converterConvertMethods() {
		for l := range A.pts(f.Params[0]) {
			roots[l] = true
		}
	}
	return A.Reachable(roots)
}

func init() {
	register("C01", checkC01)
	register("C02", checkC02)
	register("C03", checkC03)
}

func checkC01(P *Prog, r *Result) {
	r.Rule("guarded-access", "each access to a location that is reachable from the converter or a package-level variable, and that is written by a conversion or registration, happens with one common lock held (exclusive for writes)", 6)
	r.Rule("lock-exists", "there is at least one lock that protects the state shared by conversions and registrations", 1)
	r.Assume = append(r.Assume, "objects of one allocation site are treated as one object; external functions modify only receivers and the arguments listed in the checker", "constructors and option functions run before the converter is shared")
	A := solvePTS(P)
	shared := A.sharedObjs()
	roots := P.registerMethods()
	if len(roots) < 5 {
		r.Bad("anchors", "converter.Register", "", "registration methods not found")
	}
	run := P.Reach(roots, nil)
	L := newLockAn(P, A)
	for _, f := range roots {
		L.analyse(f, nil, nil)
	}
	// functions that are reached only through calls that the lock analysis does not enter
	var fns []*ssa.Function
	for f := range run {
		if A.in[f] {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fkey(fns[i]) < fkey(fns[j]) })
	type acc struct {
		a  access
		ev lockEvent
		l  Loc
	}
	groups := map[Loc][]acc{}
	n := 0
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			for _, a := range A.accesses(in) {
				for _, l := range a.locs {
					if !shared[l.O] {
						continue
					}
					if prePublication(a.base, in) {
						continue
					}
					evs := L.at[in]
					if len(evs) == 0 {
						evs = []lockEvent{{in, nil, nil}}
					}
					for _, ev := range evs {
						groups[l] = append(groups[l], acc{a, ev, l})
						n++
					}
				}
			}
		})
	}
	r.Count("functions reachable from conversions and registrations", len(fns))
	r.Count("shared abstract objects", len(shared))
	r.Count("accesses to shared locations", n)
	locks := map[string]bool{}
	for _, k := range L.acq {
		locks[k] = true
	}
	for k := range locks {
		r.OK("lock-exists", k, "", "lock used")
	}
	var ls []Loc
	for l := range groups {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return locName(ls[i]) < locName(ls[j]) })
	readonly := 0
	for _, l := range ls {
		g := groups[l]
		hasWrite := false
		for _, a := range g {
			if a.a.write {
				hasWrite = true
			}
		}
		if !hasWrite {
			readonly++
			continue
		}
		// which lock do most accesses hold?
		cnt := map[string]int{}
		for _, a := range g {
			for k := range a.ev.must {
				cnt[k]++
			}
		}
		best := ""
		for k, c := range cnt {
			if best == "" || c > cnt[best] || c == cnt[best] && k < best {
				best = k
			}
		}
		seen := map[ssa.Instruction]bool{}
		for _, a := range g {
			m := a.ev.must[best]
			ok := best != "" && (m == lW || m == lR && !a.a.write)
			kind := "read"
			if a.a.write {
				kind = "write"
			}
			if ok {
				if !seen[a.a.in] {
					r.OK("guarded-access", locName(l)+" "+kind+" in "+fkey(a.a.in.Parent()), P.ipos(a.a.in), "%s holding %s", a.a.what, showLocks(a.ev.must))
				}
			} else {
				r.Bad("guarded-access", locName(l)+" "+kind+" in "+fkey(a.a.in.Parent()), P.ipos(a.a.in), "%s of %s with %s; other calls on the same converter write this location (path %s)", a.a.what, l, showLocks(a.ev.must), chain(run, a.a.in.Parent()))
			}
			seen[a.a.in] = true
		}
	}
	r.Count("shared locations that are never written after construction", readonly)
	r.Count("shared locations written after construction", len(ls)-readonly)
	for in, k := range L.unlock {
		r.Bad("guarded-access", "unlock in "+fkey(in.Parent()), P.ipos(in), "%s is released here although it is not (or not in this mode) held on every path", k)
	}
	// goroutines started by a conversion
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				for _, c := range P.Callees(g) {
					r.Note("goroutine %s started in %s", fkey(c), fkey(f))
				}
				if spawnsSharedWrite(P, A, g) {
					r.Bad("guarded-access", "goroutine in "+fkey(f), P.ipos(g), "a conversion starts a goroutine that works on memory of its caller")
				}
			}
		})
	}
}

// spawnsSharedWrite: the goroutine gets references to memory of the function that starts it.
func spawnsSharedWrite(P *Prog, A *PTS, g *ssa.Go) bool {
	c := g.Common()
	for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
		if a == nil || !hasPtr(a.Type()) {
			continue
		}
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if hasPtr(b.Type()) {
					return true
				}
			}
			continue
		}
		if _, ok := a.(*ssa.Function); ok {
			continue
		}
		if len(A.pts(a)) > 0 {
			return true
		}
	}
	return false
}

func checkC02(P *Prog, r *Result) {
	r.Rule("released", "a function that takes a lock releases it on every path to each of its exits", 6)
	r.Rule("no-foreign-call", "no function value or interface implementation that was supplied by the caller of the library is called while a lock may be held", 5)
	r.Rule("no-reacquire", "no lock is acquired on a path on which it may already be held", 6)
	r.Rule("lock-order", "the order in which locks are nested has no cycle", 0)
	A := solvePTS(P)
	L := newLockAn(P, A)
	var roots []*ssa.Function
	for _, f := range P.Funcs {
		if P.InLib(f) && f.Parent() == nil && f.Object() != nil && A.in[f] {
			if f.Object().Exported() || len(P.Callers(f)) == 0 {
				roots = append(roots, f)
			}
		}
	}
	for _, f := range roots {
		s := L.analyse(f, nil, nil)
		if s == nil {
			continue
		}
		for i, e := range s.exits {
			if len(e.may) > 0 {
				r.Bad("released", "exit of "+fkey(f), P.ipos(s.rets[i]), "%s may still be held when the function returns", showLocks(e.may))
			}
		}
	}
	// closures and methods reached only as values
	for _, f := range P.Funcs {
		if P.InLib(f) && A.in[f] {
			any := false
			instrs(f, func(in ssa.Instruction) {
				if len(L.at[in]) > 0 {
					any = true
				}
			})
			if !any {
				L.analyse(f, nil, nil)
			}
		}
	}
	// balance of each function that acquires
	fns := map[*ssa.Function]string{}
	for in, k := range L.acq {
		fns[in.Parent()] = k
		if L.reacq[in] == "" {
			r.OK("no-reacquire", k+" in "+fkey(in.Parent()), P.ipos(in), "not held at the acquisition")
		}
	}
	for in, k := range L.reacq {
		r.Bad("no-reacquire", k+" in "+fkey(in.Parent()), P.ipos(in), "%s may already be held here: the goroutine would wait for itself", k)
	}
	for f, k := range fns {
		bal := true
		msg := ""
		if s := L.analyse(f, nil, nil); s != nil {
			for i, e := range s.exits {
				if modesKey(e.may) != modesKey(e.must) {
					bal = false
					msg = "at " + P.ipos(s.rets[i]) + " the lock is held on some paths only"
				}
				if i > 0 && modesKey(e.may) != modesKey(s.exits[0].may) {
					bal = false
					msg = "the exits disagree about the lock"
				}
			}
		}
		r.Check(bal, "released", fkey(f), P.pos(f.Pos()), "lock %s is balanced on all paths %s", k, msg)
	}
	for in, k := range L.unlock {
		r.Bad("released", "unlock in "+fkey(in.Parent()), P.ipos(in), "%s is released although it is not held (in this mode) on every path", k)
	}
	// dynamic calls
	n := 0
	for _, f := range P.Funcs {
		if !P.InLib(f) || !A.in[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := site.Common()
			if c.StaticCallee() != nil {
				if n := calleeName(c); blockingExt(n) {
					for _, ev := range L.at[in] {
						if len(ev.may) > 0 {
							r.Bad("no-foreign-call", n+" in "+fkey(f), P.ipos(in), "may block while holding %s", showLocks(ev.may))
						}
					}
				}
				return
			}
			if _, ok := c.Value.(*ssa.Builtin); ok {
				return
			}
			if op, _ := isLockOp(c); op != "" {
				return
			}
			foreign := false
			for l := range A.pts(c.Value) {
				if l.O.Kind == oUnknown || l.O.Kind == oExtern {
					foreign = true
				}
			}
			if len(A.pts(c.Value)) == 0 {
				foreign = true
			}
			if !foreign {
				return
			}
			n++
			bad := false
			for _, ev := range L.at[in] {
				if len(ev.may) > 0 {
					bad = true
					r.Bad("no-foreign-call", "dynamic call of "+c.Value.Name()+" in "+fkey(f), P.ipos(in), "code supplied by the caller runs here while holding %s", showLocks(ev.may))
				}
			}
			if !bad {
				r.OK("no-foreign-call", "dynamic call in "+fkey(f), P.ipos(in), "no lock is held")
			}
		})
	}
	r.Count("calls of caller-supplied code", n)
	r.Count("lock acquisitions", len(L.acq))
	// lock order
	for e, in := range L.deps {
		if _, ok := L.deps[[2]string{e[1], e[0]}]; ok {
			r.Bad("lock-order", e[0]+" / "+e[1], P.ipos(in), "the two locks are nested in both orders")
		} else {
			r.OK("lock-order", e[0]+" -> "+e[1], P.ipos(in), "nested in one order only")
		}
	}
}

func blockingExt(n string) bool {
	switch n {
	case "time.Sleep", "(sync.WaitGroup).Wait", "(sync.Cond).Wait":
		return true
	}
	return false
}

func checkC03(P *Prog, r *Result) {
	r.Rule("no-write", "no instruction that a conversion can execute writes a location that is reachable from the converter, its plugins or a package-level variable", 30)
	r.Assume = append(r.Assume, "the document handed to a conversion is working storage of that conversion")
	A := solvePTS(P)
	shared := A.sharedObjs()
	roots := P.converterConvertMethods()
	run := P.Reach(roots, nil)
	var fns []*ssa.Function
	for f := range run {
		if A.in[f] {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fkey(fns[i]) < fkey(fns[j]) })
	writes := 0
	for _, f := range fns {
		bad := false
		instrs(f, func(in ssa.Instruction) {
			for _, a := range A.accesses(in) {
				if !a.write {
					continue
				}
				writes++
				if prePublication(a.base, in) {
					continue
				}
				for _, l := range a.locs {
					if shared[l.O] {
						bad = true
						r.Bad("no-write", locName(l)+" in "+fkey(f), P.ipos(in), "%s changes %s, which outlives the conversion (path %s)", a.what, l, chain(run, f))
						break
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if n := calleeName(c.Common()); statefulExt(n) {
					var locs []Loc
					if len(c.Common().Args) > 0 {
						locs = addAll(nil, A.pts(c.Common().Args[0]), "")
					}
					for _, l := range locs {
						if shared[l.O] {
							bad = true
							r.Bad("no-write", n+" in "+fkey(f), P.ipos(in), "%s keeps state in %s beyond the conversion", n, l)
							break
						}
					}
				}
			}
		})
		if !bad {
			r.OK("no-write", fkey(f), P.pos(f.Pos()), "writes only memory created by the conversion or the document")
		}
	}
	r.Count("functions of a conversion", len(fns))
	r.Count("write accesses examined", writes)
}

func statefulExt(n string) bool {
	for _, p := range []string{"(sync.Map).Store", "(sync.Map).LoadOrStore", "(sync.Map).Delete", "(sync.Map).Swap", "(sync.Pool).Put", "(sync.Pool).Get", "(sync.Once).Do", "(sync/atomic."} {
		if strings.HasPrefix(n, p) && !strings.HasSuffix(n, ".Load") {
			return true
		}
	}
	return strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "sync/atomic.Store") || strings.HasPrefix(n, "sync/atomic.CompareAndSwap") || strings.HasPrefix(n, "sync/atomic.Swap")
}
