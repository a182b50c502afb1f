package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A field-sensitive, context-insensitive inclusion based points-to analysis over the
// functions of the repository, the dom helper package and instantiated generic helpers.

type objKind int

const (
	oAlloc objKind = iota
	oGlobal
	oFunc
	oClosure
	oExtern  // result of a function outside of the analysed code
	oUnknown // handed in by the caller of the library
)

type Obj struct {
	Kind objKind
	Site ssa.Value
	Fn   *ssa.Function // function in which the object is created
	Typ  types.Type
	id   int
}

func (o *Obj) String() string {
	switch o.Kind {
	case oGlobal:
		return "global " + o.Site.(*ssa.Global).RelString(nil)
	case oFunc, oClosure:
		return "func " + o.Site.Name()
	case oUnknown:
		return "caller-supplied " + o.Site.Name() + " of " + fkey(o.Fn)
	case oExtern:
		return "external result in " + fkey(o.Fn)
	}
	return fmt.Sprintf("%s allocated in %s", types.TypeString(o.Typ, func(p *types.Package) string { return p.Name() }), fkey(o.Fn))
}

// Loc is a memory location: an object and a path of fields and elements inside of it.
type Loc struct {
	O    *Obj
	Path string
}

func (l Loc) String() string { return l.O.String() + l.Path }

type locset map[Loc]bool

type PTS struct {
	P      *Prog
	cells  map[any]map[string]locset // base (ssa.Value or *Obj) -> path -> locations
	objs   map[string]*Obj
	list   []*Obj
	funcs  []*ssa.Function
	in     map[*ssa.Function]bool
	change bool
}

func hasPtr(t types.Type) bool { return hasPtrD(t, 0) }
func hasPtrD(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtrD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtrD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtrD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (A *PTS) analysed(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	pp := fnPkgPath(f)
	if strings.HasPrefix(pp, modPath+"/internal/tester") {
		return false
	}
	if pp == "slices" && readsOnly(f) {
		return false // a read of the argument at the call site
	}
	if inModule(pp) || pp == domPath || pp == "slices" || pp == "maps" {
		return true
	}
	return false
}

// readsOnly: functions that only read the elements of their arguments.
func readsOnly(f *ssa.Function) bool {
	n := f.Name()
	if o := f.Origin(); o != nil {
		n = o.Name()
	}
	switch n {
	case "Contains", "Index", "Equal", "Compare", "Max", "Min", "BinarySearch", "IsSorted":
		return true
	}
	return false
}

func (A *PTS) obj(kind objKind, site ssa.Value, fn *ssa.Function, t types.Type, tag string) *Obj {
	k := fmt.Sprintf("%d|%p|%s", kind, site, tag)
	if o, ok := A.objs[k]; ok {
		return o
	}
	o := &Obj{Kind: kind, Site: site, Fn: fn, Typ: t, id: len(A.list)}
	A.objs[k] = o
	A.list = append(A.list, o)
	return o
}

const maxPath = 48

func (A *PTS) addTo(base any, path string, l Loc) {
	if len(path) > maxPath || len(l.Path) > maxPath {
		return
	}
	if v, ok := base.(ssa.Value); ok && path == "" && !typeOK(l, v.Type()) {
		return
	}
	if o, ok := base.(*Obj); ok && o.Kind != oUnknown && path != "*" {
		if t := locType(Loc{o, path}); t != nil && !typeOK(l, t) {
			return
		}
	}
	m := A.cells[base]
	if m == nil {
		m = map[string]locset{}
		A.cells[base] = m
	}
	s := m[path]
	if s == nil {
		s = locset{}
		m[path] = s
	}
	if !s[l] {
		s[l] = true
		A.change = true
	}
}

// copyCells copies everything stored at (src,sp) and below to (dst,dp).
func (A *PTS) copyCells(dst any, dp string, src any, sp string) {
	if dst == src && dp == sp {
		return
	}
	m := A.cells[src]
	if len(m) == 0 {
		return
	}
	type pair struct {
		p string
		l Loc
	}
	var add []pair
	for p, s := range m {
		if !strings.HasPrefix(p, sp) {
			continue
		}
		rest := p[len(sp):]
		if rest != "" && rest[0] != '.' && rest[0] != '[' {
			continue
		}
		for l := range s {
			add = append(add, pair{dp + rest, l})
		}
	}
	for _, a := range add {
		A.addTo(dst, a.p, a.l)
	}
}

func (A *PTS) pts(v ssa.Value) locset { return A.val(v, "") }

func (A *PTS) val(v ssa.Value, path string) locset {
	switch x := v.(type) {
	case *ssa.Global:
		return locset{Loc{A.obj(oGlobal, x, nil, x.Type(), ""), ""}: true}
	case *ssa.Function:
		return locset{Loc{A.obj(oFunc, x, x, x.Type(), ""), ""}: true}
	case *ssa.Const:
		return nil
	}
	m := A.cells[v]
	if m == nil {
		return nil
	}
	return m[path]
}

func (A *PTS) flow(dst any, dp string, src ssa.Value) {
	switch src.(type) {
	case *ssa.Global, *ssa.Function:
		for l := range A.pts(src) {
			A.addTo(dst, dp, l)
		}
		return
	case *ssa.Const, *ssa.Builtin:
		return
	}
	A.copyCells(dst, dp, src, "")
}

func fieldName(t types.Type, i int) string {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	return "." + t.(*types.Struct).Field(i).Name()
}

func solvePTS(P *Prog) *PTS {
	A := &PTS{P: P, cells: map[any]map[string]locset{}, objs: map[string]*Obj{}, in: map[*ssa.Function]bool{}}
	for f := range P.All {
		if A.analysed(f) {
			A.funcs = append(A.funcs, f)
			A.in[f] = true
		}
	}
	sort.Slice(A.funcs, func(i, j int) bool { return fkey(A.funcs[i]) < fkey(A.funcs[j]) })
	// Arguments of the exported API come from the caller.
	for _, f := range A.funcs {
		if !A.isAPI(f) {
			continue
		}
		for i, p := range f.Params {
			if i == 0 && f.Signature.Recv() != nil {
				continue // receivers are created by our own constructors
			}
			if hasPtr(p.Type()) {
				o := A.obj(oUnknown, p, f, p.Type(), "")
				A.addTo(p, "", Loc{o, ""})
				// a caller's object refers to other objects of the caller
				A.addTo(o, "", Loc{o, ""})
				A.addTo(o, "[]", Loc{o, ""})
			}
		}
	}
	for n := 0; n < 60; n++ {
		A.change = false
		for _, f := range A.funcs {
			A.step(f)
		}
		if !A.change {
			break
		}
	}
	return A
}

// isAPI: exported functions and methods of packages that a user of the library can import.
func (A *PTS) isAPI(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	pp := fnPkgPath(f)
	if !inModule(pp) || strings.Contains(pp, "/internal/") || strings.Contains(pp, "/cli/") {
		return false
	}
	if f.Object() == nil || !f.Object().Exported() {
		return false
	}
	return true
}

func (A *PTS) step(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			A.instr(f, in)
		}
	}
}

func (A *PTS) loadInto(dst any, dp string, ptr ssa.Value) {
	for l := range A.pts(ptr) {
		A.copyCells(dst, dp, l.O, l.Path)
		if l.O.Kind == oUnknown {
			A.addTo(dst, dp, Loc{l.O, ""})
		}
	}
}

func (A *PTS) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		A.addTo(x, "", Loc{A.obj(oAlloc, x, f, x.Type().Underlying().(*types.Pointer).Elem(), ""), ""})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		A.addTo(v, "", Loc{A.obj(oAlloc, v, f, v.Type(), ""), ""})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		o := A.obj(oClosure, x, fn, x.Type(), "")
		A.addTo(x, "", Loc{o, ""})
		for i, b := range x.Bindings {
			A.flow(o, fmt.Sprintf(".fv%d", i), b)
			if A.in[fn] {
				A.flow(fn.FreeVars[i], "", b)
			}
		}
	case *ssa.MakeInterface:
		if !hasPtr(x.X.Type()) {
			return
		}
		if _, ok := x.X.Type().Underlying().(*types.Struct); ok {
			o := A.obj(oAlloc, x, f, x.X.Type(), "box")
			A.addTo(x, "", Loc{o, ""})
			A.flow(o, "", x.X)
			return
		}
		A.flow(x, "", x.X)
	case *ssa.ChangeType:
		A.flow(x, "", x.X)
	case *ssa.ChangeInterface:
		A.flow(x, "", x.X)
	case *ssa.SliceToArrayPointer:
		A.flow(x, "", x.X)
	case *ssa.Convert:
		if hasPtr(x.Type()) {
			if hasPtr(x.X.Type()) {
				A.flow(x, "", x.X)
			} else {
				A.addTo(x, "", Loc{A.obj(oAlloc, x, f, x.Type(), ""), ""})
			}
		}
	case *ssa.TypeAssert:
		if !hasPtr(x.AssertedType) {
			return
		}
		dp := ""
		if x.CommaOk {
			dp = ".#0"
		}
		if _, ok := x.AssertedType.Underlying().(*types.Struct); ok {
			A.loadInto(x, dp, x.X)
			return
		}
		A.flow(x, dp, x.X)
	case *ssa.FieldAddr:
		n := fieldName(x.X.Type(), x.Field)
		for l := range A.pts(x.X) {
			if l.O.Kind == oUnknown {
				A.addTo(x, "", Loc{l.O, ""})
				continue
			}
			A.addTo(x, "", Loc{l.O, l.Path + n})
		}
	case *ssa.Field:
		A.copyCells(x, "", x.X, fieldName(x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		for l := range A.pts(x.X) {
			if l.O.Kind == oUnknown {
				A.addTo(x, "", Loc{l.O, ""})
				continue
			}
			A.addTo(x, "", Loc{l.O, l.Path + "[]"})
		}
	case *ssa.Index:
		A.copyCells(x, "", x.X, "[]")
	case *ssa.Slice:
		A.flow(x, "", x.X)
	case *ssa.Lookup:
		if !hasPtr(x.Type()) {
			return
		}
		dp := ""
		if x.CommaOk {
			dp = ".#0"
		}
		for l := range A.pts(x.X) {
			A.copyCells(x, dp, l.O, l.Path+"[v]")
		}
	case *ssa.MapUpdate:
		for l := range A.pts(x.Map) {
			A.flow(l.O, l.Path+"[v]", x.Value)
			A.flow(l.O, l.Path+"[k]", x.Key)
		}
	case *ssa.Store:
		if !hasPtr(x.Val.Type()) {
			return
		}
		for l := range A.pts(x.Addr) {
			A.flow(l.O, l.Path, x.Val)
		}
	case *ssa.UnOp:
		if x.Op.String() == "*" && hasPtr(x.Type()) {
			A.loadInto(x, "", x.X)
		}
	case *ssa.Phi:
		if hasPtr(x.Type()) {
			for _, e := range x.Edges {
				A.flow(x, "", e)
			}
		}
	case *ssa.Extract:
		A.copyCells(x, "", x.Tuple, fmt.Sprintf(".#%d", x.Index))
	case *ssa.Range:
		A.flow(x, "", x.X)
	case *ssa.Next:
		for l := range A.pts(x.Iter) {
			A.copyCells(x, ".#1", l.O, l.Path+"[k]")
			A.copyCells(x, ".#2", l.O, l.Path+"[v]")
		}
	case *ssa.Return:
		// handled at the call sites through results()
	case ssa.CallInstruction:
		A.call(f, x)
	}
}

func (A *PTS) call(f *ssa.Function, site ssa.CallInstruction) {
	c := site.Common()
	var res ssa.Value
	if v, ok := site.(*ssa.Call); ok {
		res = v
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if res != nil {
				A.flow(res, "", c.Args[0])
				o := A.obj(oAlloc, res, f, res.Type(), "")
				A.addTo(res, "", Loc{o, ""})
				for l := range A.pts(c.Args[0]) {
					A.copyCells(o, "[]", l.O, l.Path+"[]")
				}
				if len(c.Args) > 1 {
					for l := range A.pts(c.Args[1]) {
						A.copyCells(o, "[]", l.O, l.Path+"[]")
						for d := range A.pts(c.Args[0]) {
							A.copyCells(d.O, d.Path+"[]", l.O, l.Path+"[]")
						}
					}
				}
			}
		case "copy":
			for l := range A.pts(c.Args[1]) {
				for d := range A.pts(c.Args[0]) {
					A.copyCells(d.O, d.Path+"[]", l.O, l.Path+"[]")
				}
			}
		}
		return
	}
	args := c.Args
	callees := A.P.Callees(site)
	ext := len(callees) == 0
	for _, g := range callees {
		if !A.in[g] {
			ext = true
			continue
		}
		ps := g.Params
		as := args
		if c.IsInvoke() {
			if len(ps) > 0 {
				// receiver: only objects whose type fits
				for l := range A.pts(c.Value) {
					if fits(l, ps[0].Type()) {
						if _, st := ps[0].Type().Underlying().(*types.Struct); st {
							A.copyCells(ps[0], "", l.O, l.Path)
						} else {
							A.addTo(ps[0], "", l)
						}
					}
				}
				ps = ps[1:]
			}
		}
		for i, p := range ps {
			if i < len(as) && hasPtr(p.Type()) {
				A.flow(p, "", as[i])
			}
		}
		if res != nil {
			instrs(g, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok {
					if len(r.Results) == 1 {
						A.flow(res, "", r.Results[0])
					} else {
						for i, rv := range r.Results {
							A.flow(res, fmt.Sprintf(".#%d", i), rv)
						}
					}
				}
			})
		}
	}
	// values of unknown functions / interfaces given by the caller: treat the result as caller-supplied
	if ext && res != nil && hasPtr(res.Type()) {
		name := calleeName(c)
		all := locset{}
		add := func(v ssa.Value) {
			if v == nil || !hasPtr(v.Type()) {
				return
			}
			for p, s := range A.cells[v] {
				_ = p
				for l := range s {
					all[l] = true
					if l.O.Kind == oExtern {
						for _, s2 := range A.cells[l.O] {
							for l2 := range s2 {
								all[l2] = true
							}
						}
					}
				}
			}
			for l := range A.pts(v) {
				all[l] = true
				// contents of a variadic slice
				for p2, s2 := range A.cells[l.O] {
					if p2 == l.Path+"[]" {
						for l2 := range s2 {
							all[l2] = true
						}
					}
				}
			}
		}
		switch aliasRule(name) {
		case "fresh":
		case "arg0":
			add(args[0])
		default:
			for _, a := range args {
				add(a)
			}
			if c.IsInvoke() {
				add(c.Value)
			}
		}
		put := func(dp string, t types.Type) {
			if !hasPtr(t) {
				return
			}
			ot := t
			if p, ok := t.Underlying().(*types.Pointer); ok {
				ot = p.Elem()
			}
			o := A.obj(oExtern, res, f, ot, dp)
			for l := range all {
				A.addTo(o, "*", l)
			}
			A.addTo(res, dp, Loc{o, ""})
			for l := range all {
				if aliasPossible(l, t) {
					A.addTo(res, dp, l)
				}
			}
		}
		if tu, ok := res.Type().(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				put(fmt.Sprintf(".#%d", i), tu.At(i).Type())
			}
		} else {
			put("", res.Type())
		}
	}
}

func locType(l Loc) types.Type {
	t := l.O.Typ
	if l.O.Kind == oGlobal {
		t = t.Underlying().(*types.Pointer).Elem()
	}
	p := l.Path
	for p != "" && t != nil {
		switch {
		case strings.HasPrefix(p, "[v]"):
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t, p = m.Elem(), p[3:]
		case strings.HasPrefix(p, "[k]"):
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t, p = m.Key(), p[3:]
		case strings.HasPrefix(p, "[]"):
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					t = a.Elem()
				} else {
					return nil
				}
			default:
				return nil
			}
			p = p[2:]
		case p[0] == '.':
			e := strings.IndexAny(p[1:], ".[")
			name := p[1:]
			if e >= 0 {
				name = p[1 : 1+e]
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			var ft types.Type
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					ft = st.Field(i).Type()
				}
			}
			t = ft
			p = p[1+len(name):]
		default:
			return nil
		}
	}
	return t
}

// fits: can a location be the receiver of type t (used for interface calls)?
func fits(l Loc, t types.Type) bool {
	if l.O.Kind == oUnknown {
		return true
	}
	lt := locType(l)
	if lt == nil {
		return l.O.Kind != oExtern
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.Identical(lt, p.Elem())
	}
	return types.Identical(lt, t)
}

// aliasPossible: may a result of type t of an external function alias the location?
func aliasPossible(l Loc, t types.Type) bool {
	if l.O.Kind == oUnknown {
		return true
	}
	lt := locType(l)
	if lt == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Pointer:
		return types.Identical(lt, u.Elem())
	case *types.Slice:
		if s, ok := lt.Underlying().(*types.Slice); ok {
			return types.Identical(s.Elem(), u.Elem())
		}
		if a, ok := lt.Underlying().(*types.Array); ok {
			return types.Identical(a.Elem(), u.Elem())
		}
		return false
	case *types.Map, *types.Signature, *types.Chan:
		return types.Identical(lt, t)
	}
	return true
}

// Reachable closes a set of locations under the heap: everything that can be reached from roots.
func (A *PTS) Reachable(roots locset) map[*Obj]bool {
	seen := map[*Obj]bool{}
	var work []*Obj
	for l := range roots {
		if !seen[l.O] {
			seen[l.O] = true
			work = append(work, l.O)
		}
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		for _, s := range A.cells[o] {
			for l := range s {
				if !seen[l.O] {
					seen[l.O] = true
					work = append(work, l.O)
				}
			}
		}
	}
	return seen
}

// aliasRule: what the result of a standard library function can share memory with.
func aliasRule(name string) string {
	switch name {
	case "bytes.ReplaceAll", "bytes.Replace", "bytes.Repeat", "bytes.Join", "bytes.ToUpper", "bytes.ToLower", "bytes.Clone", "bytes.Map", "bytes.Title",
		"(regexp.Regexp).ReplaceAll", "(regexp.Regexp).ReplaceAllLiteral", "strings.Split", "strings.SplitN", "strings.Fields",
		"regexp.MustCompile", "regexp.Compile", "strings.NewReplacer", "fmt.Append", "fmt.Appendf", "io.ReadAll", "os.ReadFile", "bytes.Runes":
		return "fresh"
	}
	if strings.HasPrefix(name, "bytes.") && name != "bytes.NewBuffer" && name != "bytes.NewReader" {
		return "arg0"
	}
	return ""
}

// typeOK: can a variable of type t refer to the location?
func typeOK(l Loc, t types.Type) bool {
	if l.O.Kind == oUnknown {
		return true
	}
	if l.O.Kind == oFunc || l.O.Kind == oClosure {
		switch t.Underlying().(type) {
		case *types.Signature, *types.Interface:
			return true
		case *types.Basic:
			return t.Underlying().(*types.Basic).Kind() == types.UnsafePointer
		}
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return true
	}
	lt := locType(l)
	if lt == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return types.Identical(lt.Underlying(), u.Elem().Underlying())
	case *types.Slice:
		switch w := lt.Underlying().(type) {
		case *types.Slice:
			return types.Identical(w.Elem(), u.Elem())
		case *types.Array:
			return types.Identical(w.Elem(), u.Elem())
		}
		return false
	case *types.Map:
		return types.Identical(lt.Underlying(), u)
	case *types.Signature:
		_, ok := lt.Underlying().(*types.Signature)
		return ok
	}
	return true
}
