package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Walks over the document that remove elements (C12, C37).

func init() {
	register("C12", checkC12)
	register("C37", checkC37)
}

// walker: a function that calls itself for the children of its node.
type walker struct {
	F *Frame
	p *ssa.Parameter
}

// enters: the call enters fn (directly or through a closure that only passes on).
func (a *AI) enters(F *Frame, site ssa.CallInstruction, fn *ssa.Function) bool {
	frs, _ := a.calleeFrames(F, site)
	for _, fr := range frs {
		if fr.Fn == fn {
			return true
		}
	}
	if site.Common().StaticCallee() == fn {
		return true
	}
	for _, o := range a.values(VC{F, site.Common().Value}) {
		if mc, ok := o.V.(*ssa.MakeClosure); ok && o.Path == "" && mc.Fn == fn {
			return true
		}
	}
	return false
}

// recCall: a call of fn somewhere below the call site, always run, with the node argument.
func (a *AI) recArg(F *Frame, site ssa.CallInstruction, fn *ssa.Function, p *ssa.Parameter) (VC, bool) {
	if !a.enters(F, site, fn) {
		return VC{}, false
	}
	for i, q := range fn.Params {
		if q == p {
			if args := site.Common().Args; i < len(args) {
				return VC{F, args[i]}, true
			}
		}
	}
	return VC{}, false
}

func findWalkers(a *AI, root *Frame) []walker {
	var out []walker
	seen := map[*ssa.Function]bool{}
	a.eachFrame(root, func(F *Frame) {
		if seen[F.Fn] {
			return
		}
		p := paramOf(F.Fn, isHTMLNode)
		if p == nil || F.Site == nil {
			return
		}
		rec := false
		stop := map[*Frame]bool{}
		var look func(G *Frame, depth int)
		look = func(G *Frame, depth int) {
			if stop[G] || depth > 4 {
				return
			}
			stop[G] = true
			instrs(G.Fn, func(in ssa.Instruction) {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if a.enters(G, site, F.Fn) {
					rec = true
					return
				}
				frs, _ := a.calleeFrames(G, site)
				for _, fr := range frs {
					look(fr, depth+1)
				}
			})
		}
		look(F, 0)
		if rec {
			seen[F.Fn] = true
			out = append(out, walker{F, p})
		}
	})
	return out
}

// leaf makes the node of the walker a value of its own.
func (w walker) leaf(a *AI) VC {
	n := VC{w.F, w.p}
	a.Leaf = &n
	a.setHook(a.Hook)
	return n
}

// setHook changes the scenario.
func (a *AI) setHook(h func(a *AI, o Org) (AVal, bool)) {
	a.Hook = h
	a.approx, a.memo, a.vis = map[VC]AVal{}, map[VC]AVal{}, map[VC]bool{}
	a.feas = map[*Frame]*feasInfo{}
	a.vmemo = map[VC][]Org{}
	a.nchg, a.inVals = map[VC]int{}, map[VC]bool{}
}

// removesNode: the call takes the node out of its parent.
func (a *AI) removesNode(F *Frame, site ssa.CallInstruction, n VC) bool {
	c := site.Common()
	switch calleeName(c) {
	case domPath + ".RemoveNode":
		return a.isNode(VC{F, c.Args[0]}, n)
	case "(" + htmlPath + ".Node).RemoveChild":
		if !a.isNode(VC{F, c.Args[1]}, n) {
			return false
		}
		for _, o := range a.values(VC{F, c.Args[0]}) {
			if o.VC != n || cleanPath(o.Path) != ".Parent" {
				return false
			}
		}
		return true
	}
	return false
}

// hasParts: the node has a parent and children.
func hasParts(n *VC) func(a *AI, o Org) (AVal, bool) {
	return func(a *AI, o Org) (AVal, bool) {
		if n.V != nil && o.VC == *n {
			switch cleanPath(o.Path) {
			case ".Parent", ".FirstChild", ".LastChild":
				return strAny("node"), true
			}
		}
		return AVal{}, false
	}
}

// alwaysRemoves: every way through the walker takes the node out.
func alwaysRemoves(a *AI, w walker) (bool, bool) {
	n := VC{w.F, w.p}
	s := &Seq{a: a}
	s.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		site, ok := in.(ssa.CallInstruction)
		if !ok {
			return q, false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return q, true
		}
		if a.removesNode(F, site, n) {
			return "gone", true
		}
		if a.enters(F, site, w.F.Fn) {
			return q, true
		}
		return q, false
	}
	all, any := true, false
	for _, q := range s.Run(w.F, "there") {
		if q == "gone" {
			any = true
		} else {
			all = false
		}
	}
	return all, any
}

// visitsChildren: every way through the walker calls it for every child of the node.
func visitsChildren(a *AI, w walker) (bool, string) { return visitsChildren2(a, w, true) }

// visitsChildren2: removes tells whether a visit can remove a child.
func visitsChildren2(a *AI, w walker, removes bool) (bool, string) {
	P := a.P
	n := VC{w.F, w.p}
	heads := map[*Frame]map[*ssa.BasicBlock]bool{}
	why := "the children of the node are not visited"
	var frames []*Frame
	have := map[*Frame]bool{}
	var collect func(F *Frame, d int)
	collect = func(F *Frame, d int) {
		if have[F] || d > 5 {
			return
		}
		have[F] = true
		frames = append(frames, F)
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				if site, ok := in.(ssa.CallInstruction); ok {
					frs, _ := a.calleeFrames(F, site)
					for _, fr := range frs {
						if fr.Fn != w.F.Fn {
							collect(fr, d+1)
						}
					}
				}
			}
		}
	}
	collect(w.F, 0)
	mark := func(F *Frame, b *ssa.BasicBlock) {
		if heads[F] == nil {
			heads[F] = map[*ssa.BasicBlock]bool{}
		}
		heads[F][b] = true
	}
	// the recursive calls, with the child
	type rec struct {
		F   *Frame
		in  ssa.Instruction
		arg VC
	}
	var recs []rec
	for _, F := range frames {
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				if site, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					if arg, ok := a.recArg(F, site, w.F.Fn, w.p); ok {
						recs = append(recs, rec{F, in, arg})
					}
				}
			}
		}
	}
	earlyExit := func(F *Frame, l *loop) bool {
		fi := a.feasible(F)
		for b := range l.body {
			if !fi.live[b.Index] {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
			for _, s := range b.Succs {
				if !l.body[s] && b != l.head && !fi.dead[[2]int{b.Index, s.Index}] && !isPanicBlock(s) {
					return true
				}
			}
		}
		return false
	}
	for _, F := range frames {
		for _, cl := range childLoops(F.Fn) {
			if !a.isNode(VC{F, cl.parent}, n) || !a.feasible(F).live[cl.head.Index] {
				continue
			}
			if earlyExit(F, cl.loop) {
				why = "the loop over the children can be left early"
				continue
			}
			if c, ok := cl.cond(); !ok || c {
				why = "the loop over the children does not go on to the last one"
				continue
			}
			for _, rc := range recs {
				in := a.siteAt(rc.F, rc.in, F)
				if in == nil || !cl.body[in.Block()] || !a.isPhi(rc.arg, VC{F, cl.phi}) {
					continue
				}
				if !a.alwaysRuns(rc.F, rc.in, F) || !a.onEveryRound(F, cl.loop, in) {
					why = "a child can be skipped"
					continue
				}
				if _, def := in.(*ssa.Defer); removes && !def && !instrBefore(cl.next, in) {
					why = "the next sibling is read after the visit of a child, which can have been removed (" + P.ipos(in) + ")"
					continue
				}
				mark(F, cl.head)
			}
		}
		for _, rc := range recs {
			ia, IF, lst := a.elementOf(rc.arg)
			if ia == nil || IF != F {
				continue
			}
			in := a.siteAt(rc.F, rc.in, F)
			if in == nil {
				continue
			}
			full, w1, l := a.fullIteration(F, ia)
			if !full {
				why = "not every child is visited: " + w1
				continue
			}
			if !a.isChildList(lst, n) {
				why = "the visited list is not the list of all children"
				continue
			}
			if !a.alwaysRuns(rc.F, rc.in, F) || !a.onEveryRound(F, l, in) {
				why = "a child can be skipped"
				continue
			}
			mark(F, l.head)
		}
	}
	// the loop is reached on every path
	s := &Seq{a: a}
	s.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		if heads[F][in.Block()] {
			q = "visited"
		}
		if site, ok := in.(ssa.CallInstruction); ok && a.enters(F, site, w.F.Fn) {
			return q, true
		}
		return q, false
	}
	for _, q := range s.Run(w.F, "not") {
		if q != "visited" {
			return false, why
		}
	}
	return true, "every child is visited, on every path"
}

// cond: the loop condition compares the child with something else than nil (bad), or is missing.
func (cl *childLoop) cond() (other bool, ok bool) {
	ifi, isIf := cl.head.Instrs[len(cl.head.Instrs)-1].(*ssa.If)
	if !isIf {
		return true, false
	}
	b, isB := ifi.Cond.(*ssa.BinOp)
	if !isB || (b.Op != token.NEQ && b.Op != token.EQL) {
		return true, true
	}
	isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
	if b.X == ssa.Value(cl.phi) && isNil(b.Y) || b.Y == ssa.Value(cl.phi) && isNil(b.X) {
		return false, true
	}
	return true, true
}

// isPhi: the value is that phi (through parameters and cells).
func (a *AI) isPhi(vc, phi VC) bool {
	if vc == phi {
		return true
	}
	switch x := vc.V.(type) {
	case *ssa.Parameter:
		args := a.paramArgs(vc.F, x)
		if len(args) == 0 {
			return false
		}
		for _, g := range args {
			if !a.isPhi(g, phi) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		if vc.F.Clo != nil {
			for i, fv := range vc.F.Fn.FreeVars {
				if fv == x && i < len(vc.F.Clo.Bindings) {
					return a.isPhi(VC{vc.F.CloF, vc.F.Clo.Bindings[i]}, phi)
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				n := 0
				okAll := true
				for _, st := range a.storesTo(VC{vc.F, al}) {
					n++
					okAll = okAll && a.isPhi(st.Val, phi)
				}
				return n > 0 && okAll
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok && vc.F.Clo != nil {
				for i, f := range vc.F.Fn.FreeVars {
					if f == fv && i < len(vc.F.Clo.Bindings) {
						if al, ok := vc.F.Clo.Bindings[i].(*ssa.Alloc); ok {
							n := 0
							okAll := true
							for _, st := range a.storesTo(VC{vc.F.CloF, al}) {
								n++
								okAll = okAll && a.isPhi(st.Val, phi)
							}
							return n > 0 && okAll
						}
					}
				}
			}
		}
	}
	return false
}

// isChildList: the list holds all the children of the node.
func (a *AI) isChildList(lst VC, n VC) bool {
	os := a.values(lst)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		c, ok := o.V.(*ssa.Call)
		if !ok || o.Path != "" {
			return a.collectedChildren(lst, n)
		}
		if calleeName(&c.Call) != domPath+".AllChildNodes" || !a.isNode(VC{o.F, c.Call.Args[0]}, n) {
			return a.collectedChildren(lst, n)
		}
	}
	return true
}

// collectedChildren: the list was built by appending every child in a loop over all of them.
func (a *AI) collectedChildren(lst VC, n VC) bool {
	phi, ok := lst.V.(*ssa.Phi)
	if !ok {
		if os := a.values(lst); len(os) == 1 && os[0].Path == "" && os[0].V != lst.V {
			return a.collectedChildren(os[0].VC, n)
		}
		return false
	}
	for _, cl := range childLoops(phi.Parent()) {
		if cl.head != phi.Block() || !a.isNode(VC{lst.F, cl.parent}, n) {
			continue
		}
		if c, ok := cl.cond(); !ok || c {
			return false
		}
		for i, e := range phi.Edges {
			if !cl.body[phi.Block().Preds[i]] {
				if c, ok := e.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				if _, ok := e.(*ssa.MakeSlice); ok {
					continue
				}
				if sl, ok := e.(*ssa.Slice); ok && sl.High != nil {
					continue
				}
				return false
			}
			ap, ok := e.(*ssa.Call)
			if !ok || calleeName(&ap.Call) != "builtin.append" || ap.Call.Args[0] != ssa.Value(phi) {
				return false
			}
			els := varargs(ap.Call.Args[1])
			if len(els) != 1 || els[0] != ssa.Value(cl.phi) {
				return false
			}
		}
		return true
	}
	return false
}

// keepNames: elements that are not removed, with their kind.
var keepNames = []struct{ name, typ string }{
	{"html", "block"}, {"body", "block"}, {"div", "block"}, {"p", "block"}, {"span", "inline"}, {"a", "inline"}, {"b", "inline"}, {"ul", "block"}, {"li", "block"},
	{"table", "block"}, {"td", "block"}, {"pre", "block"}, {"template", ""}, {"my-element", ""}, {"blockquote", "block"}, {"h1", "block"}, {"form", "block"},
	{"body", ""}, {"div", "inline"},
}

// ---- C12 ----

var removedNames = []string{"#comment", "head", "script", "style", "link", "meta", "iframe", "noscript", "input", "textarea"}

func checkC12(P *Prog, r *Result) {
	r.Rule("registered", "the base plugin registers the element for removal, on every path, and nothing of an earlier or the same priority registers it as something else", 10)
	r.Rule("removes", "the removal step takes a node of a removed kind out of the document on every path", 10)
	r.Rule("descends", "for every other node the removal step visits every child, on every path, and reads the next sibling before a visited child can be gone", 15)
	r.Rule("start", "the removal step starts with the node that is converted, on every path", 1)
	r.Rule("first", "the removal step runs before every other pre-render step of the built-in plugins", 2)
	base := P.Method("plugin/base", "base", "Init")
	a := newAI(P)
	inits := pluginInits(P)
	var baseInit *ssa.Function
	for _, f := range inits {
		if strings.HasSuffix(fnPkgPath(f), "/plugin/base") {
			baseInit = f
		}
	}
	_ = base
	if baseInit == nil {
		r.Bad("registered", "base plugin", "", "its initialisation was not found")
		return
	}
	// the kinds
	regs := registrations(a, "TagType", "RendererFor")
	rmVal := ""
	for _, name := range []string{"TagTypeRemove"} {
		rmVal = constOf(P, "converter", name)
	}
	type def struct {
		typ  AVal
		prio AVal
		base bool
		pos  string
		why  string
	}
	defs := map[string][]def{}
	for _, g := range regs {
		typArg := 2
		names, ok := a.Eval(VC{g.F, g.Args[1]}).strConsts()
		if !ok {
			r.Bad("registered", P.ipos(g.Site.(ssa.Instruction)), P.ipos(g.Site.(ssa.Instruction)), "the names that are registered here are not known")
			continue
		}
		isBase := false
		why := ""
		for F := g.F; F != nil; F = F.Up {
			if F.Fn == baseInit {
				isBase = true
				in := a.siteAt(g.F, g.Site.(ssa.Instruction), F)
				_, iF, _ := a.elementOf(VC{g.F, g.Args[1]})
				switch {
				case len(names) > 1:
					ia, EF, _ := a.elementOf(VC{g.F, g.Args[1]})
					if ia == nil {
						why = "several names are registered here, but not one after the other"
						break
					}
					full, w1, l := a.fullIteration(EF, ia)
					lin := a.siteAt(g.F, g.Site.(ssa.Instruction), EF)
					if !full || lin == nil || !a.onEveryRound(EF, l, lin) {
						why = "not every name of the list is registered: " + w1
						break
					}
					if !runsBeforeReturn(a, F, loopEntry(a, EF, l, F)) {
						why = "the registration can be skipped"
					}
				default:
					_ = iF
					if !a.alwaysRuns(g.F, g.Site.(ssa.Instruction), F) || !runsBeforeReturn(a, F, in) {
						why = "the registration can be skipped"
					}
				}
			}
		}
		prio := g.Args[len(g.Args)-1]
		for _, n := range names {
			defs[n] = append(defs[n], def{a.Eval(VC{g.F, g.Args[typArg]}), a.Eval(VC{g.F, prio}), isBase, P.ipos(g.Site.(ssa.Instruction)), why})
		}
	}
	for _, n := range removedNames {
		best := int64(1 << 40)
		pos, why := "", "it is not registered by the base plugin"
		for _, d := range defs[n] {
			ps, ok := d.prio.intConsts()
			ts, ok2 := d.typ.strConsts()
			if d.base && ok && ok2 && len(ps) == 1 && len(ts) == 1 && ts[0] == rmVal {
				if d.why != "" {
					why = d.why
					continue
				}
				if ps[0] < best {
					best, pos = ps[0], d.pos
				}
			}
		}
		ok := best < 1<<40
		if ok {
			for _, d := range defs[n] {
				ps, okp := d.prio.intConsts()
				ts, okt := d.typ.strConsts()
				if okt && len(ts) == 1 && ts[0] == rmVal {
					continue
				}
				if !okp || !okt || minInt(ps) <= best {
					ok = false
					why = "it is also registered as something else, with the same or an earlier priority (" + d.pos + ")"
				}
			}
		}
		r.Check(ok, "registered", n, pos, "%s", ifelse(ok, "registered for removal", why))
	}
	// the step
	pre := registrations(a, "PreRenderer")
	var step *handlerReg
	var w walker
	for i := range pre {
		g := &pre[i]
		if g.Fn == nil {
			continue
		}
		inBase := false
		for F := g.F; F != nil; F = F.Up {
			inBase = inBase || F.Fn == baseInit
		}
		if !inBase {
			continue
		}
		if fa := findAllForm(a, g.Fn); fa != nil {
			if typeTest(a, g.Fn) {
				step = g
				checkFindAll(P, r, a, g.Fn, fa)
				break
			}
		}
		for _, x := range findWalkers(a, g.Fn) {
			if typeTest(a, x.F) {
				step, w = g, x
			}
		}
		if step != nil {
			break
		}
	}
	if step == nil {
		r.Bad("removes", "removal step", "", "no pre-render step of the base plugin was found that walks over the document and removes nodes")
		return
	}
	pos := P.pos(step.Fn.Fn.Pos())
	// order
	p0, ok0 := step.Prio.intConsts()
	for _, g := range pre {
		if g.Site == step.Site {
			continue
		}
		ps, ok := g.Prio.intConsts()
		if !ok && g.Fn == nil {
			continue
		}
		good := ok && ok0 && maxInt(p0) < minInt(ps)
		r.Check(good, "first", handlerKey(g), P.ipos(g.Site.(ssa.Instruction)), "priority %v, the removal step has %v", g.Prio, step.Prio)
	}
	if w.F == nil {
		return
	}
	n := w.leaf(a)
	parts := hasParts(&n)
	for _, name := range removedNames {
		sc := Scen{Name: name, TagType: rmVal, Node: n, Extra: parts}
		a.setHook(sc.hook)
		all, _ := alwaysRemoves(a, w)
		r.Check(all, "removes", name, pos, "%s", ifelse(all, "taken out on every path", "there is a way through the removal step on which the node stays in the document"))
	}
	for _, k := range keepNames {
		sc := Scen{Name: k.name, Node: n, Extra: parts}
		key := k.name + " (unknown kind)"
		if k.typ != "" {
			sc.TagType = k.typ
			key = k.name + " (" + k.typ + ")"
		}
		a.setHook(func(a *AI, o Org) (AVal, bool) {
			if v, ok := sc.hook(a, o); ok {
				return v, ok
			}
			if sc.TagType == "" {
				if ex, ok := o.V.(*ssa.Extract); ok && o.Path == "" {
					if c, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(calleeName(c.Common()), "converter.Context).GetTagType") {
						if ex.Index == 0 {
							return strConst(""), true
						}
						return boolConst(false), true
					}
				}
			}
			return AVal{}, false
		})
		ok, why := visitsChildren(a, w)
		r.Check(ok, "descends", key, pos, "%s", why)
	}
	{
		sc := Scen{Name: "#text", TagType: "inline", Node: n, Extra: parts}
		a.setHook(sc.hook)
		_, any := alwaysRemoves(a, w)
		r.Check(!any, "descends", "#text", pos, "text stays in the document")
	}
	a.Leaf = nil
	a.setHook(nil)
	ok, why := startsWith(a, step.Fn, w)
	r.Check(ok, "start", fnName(step.Fn.Fn), pos, "%s", why)
}

func handlerKey(g handlerReg) string {
	if g.Fn != nil {
		return fnName(g.Fn.Fn)
	}
	return g.Kind
}

func constOf(P *Prog, pkg, name string) string {
	if c, ok := P.Pkg(pkg).Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
		return constant.StringVal(c.Val())
	}
	return ""
}

func minInt(v []int64) int64 {
	m := int64(1 << 60)
	for _, x := range v {
		if x < m {
			m = x
		}
	}
	return m
}
func maxInt(v []int64) int64 {
	m := int64(-1 << 60)
	for _, x := range v {
		if x > m {
			m = x
		}
	}
	return m
}

// runsBeforeReturn: the instruction runs on every path to a return of F that reports no error.
func runsBeforeReturn(a *AI, F *Frame, in ssa.Instruction) bool {
	if in == nil {
		return false
	}
	ef := a.P.errFlow()
	fi := a.feasible(F)
	for _, b := range F.Fn.Blocks {
		if !fi.live[b.Index] || len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if i := len(ret.Results) - 1; i >= 0 && isErrType(ret.Results[i].Type()) && a.nonNilErr(ef, VC{F, resolveResult(ret, i)}) {
			continue
		}
		if !instrBefore(in, ret) {
			return false
		}
	}
	return true
}

// loopEntry: an instruction of G that is reached exactly if the loop of frame F is.
func loopEntry(a *AI, F *Frame, l *loop, G *Frame) ssa.Instruction {
	if F == G {
		return l.head.Instrs[0]
	}
	return a.siteAt(F, l.head.Instrs[0], G)
}

// typeTest: the frames below ask for the kind of an element.
func typeTest(a *AI, F *Frame) bool {
	found, rm := false, false
	a.eachFrame(F, func(G *Frame) {
		instrs(G.Fn, func(in ssa.Instruction) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch nm := calleeName(site.Common()); {
			case strings.HasSuffix(nm, "converter.Context).GetTagType"):
				found = true
			case nm == domPath+".RemoveNode", nm == "("+htmlPath+".Node).RemoveChild":
				rm = true
			}
		})
	})
	return found && rm
}

// startsWith: on every path the walker is called for the document.
func startsWith(a *AI, root *Frame, w walker) (bool, string) {
	doc := paramOf(root.Fn, isHTMLNode)
	if doc == nil {
		return false, "no document"
	}
	if root.Fn == w.F.Fn {
		return true, "the step is the walk"
	}
	s := &Seq{a: a}
	s.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		site, ok := in.(ssa.CallInstruction)
		if !ok {
			return q, false
		}
		if arg, ok := a.recArg(F, site, w.F.Fn, w.p); ok {
			if a.isNode(arg, VC{root, doc}) {
				return "1", true
			}
			return q, true
		}
		return q, false
	}
	for _, q := range s.Run(root, "0") {
		if q != "1" {
			return false, "there is a path on which the walk does not start with the converted node"
		}
	}
	return true, "the walk starts with the converted node"
}

// findAllForm: for _, n := range dom.FindAllNodes(doc, match) { dom.RemoveNode(n) }
func findAllForm(a *AI, F *Frame) *ssa.Call {
	var res *ssa.Call
	a.eachFrame(F, func(G *Frame) {
		instrs(G.Fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && calleeName(&c.Call) == domPath+".FindAllNodes" {
				res = c
			}
		})
	})
	return res
}

func checkFindAll(P *Prog, r *Result, a *AI, root *Frame, call *ssa.Call) {
	pos := P.ipos(call)
	var CF *Frame
	a.eachFrame(root, func(G *Frame) {
		if G.Fn == call.Parent() {
			CF = G
		}
	})
	doc := paramOf(root.Fn, isHTMLNode)
	okStart := CF != nil && doc != nil && a.isNode(VC{CF, call.Call.Args[0]}, VC{root, doc}) && a.alwaysRuns(CF, call, root) && runsBeforeReturn(a, root, a.siteAt(CF, call, root))
	r.Check(okStart, "start", fnName(root.Fn), pos, "all nodes below the converted node are examined")
	if CF == nil {
		return
	}
	// the loop
	good, why := false, "not every node that was found is taken out"
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if calleeName(site.Common()) != domPath+".RemoveNode" {
			return
		}
		ia, IF, lst := a.elementOf(VC{F, site.Common().Args[0]})
		if ia == nil {
			return
		}
		os := a.values(lst)
		if len(os) != 1 || os[0].V != ssa.Value(call) {
			return
		}
		full, w1, l := a.fullIteration(IF, ia)
		in := a.siteAt(F, site.(ssa.Instruction), IF)
		if full && in != nil && a.onEveryRound(IF, l, in) {
			good = true
		} else if w1 != "" {
			why = w1
		}
	})
	var mf *Frame
	for _, o := range a.values(VC{CF, call.Call.Args[1]}) {
		switch v := o.V.(type) {
		case *ssa.MakeClosure:
			mf = a.frame(v.Fn.(*ssa.Function), nil, nil, v, o.F)
		case *ssa.Function:
			mf = a.frame(v, nil, nil, nil, nil)
		}
	}
	if mf == nil {
		r.Bad("removes", "removal step", pos, "the test of the nodes was not found")
		return
	}
	n := VC{mf, paramOf(mf.Fn, isHTMLNode)}
	for _, name := range removedNames {
		sc := Scen{Name: name, TagType: constOf(P, "converter", "TagTypeRemove"), Node: n, Extra: hasParts(&n)}
		a.setHook(sc.hook)
		ok := good
		for _, v := range a.returns(mf, 0) {
			t, f := a.Eval(v).mayBool()
			ok = ok && t && !f
		}
		r.Check(ok, "removes", name, pos, "%s", ifelse(ok, "found and taken out", why))
	}
	a.setHook(nil)
	for _, k := range keepNames {
		r.OK("descends", k.name+" ("+k.typ+")", pos, "all nodes below the converted node are examined before any is taken out")
	}
}

// ---- C37 ----

func checkC37(P *Prog, r *Result) {
	r.Rule("exclude-removes", "an element that matches an exclude selector is taken out of the document on every path", 1)
	r.Rule("exclude-keeps", "an element that does not match is not taken out, and all of its children are examined, on every path", 15)
	r.Rule("include", "exactly the matches are moved into the new document, in order, except for those that are inside of another match", 1)
	r.Rule("applied", "with selectors set, the converted document went through the including and then through the excluding step", 4)
	fl := flagTable(P)
	ft := fieldsOf(fl)
	inc, exc := ft["include-selector"], ft["exclude-selector"]
	if inc == "" || exc == "" {
		r.Bad("applied", "flags", "", "the settings of the selectors were not found")
		return
	}
	isField := func(os []Org, f string) bool {
		for _, o := range os {
			if strings.HasSuffix(cleanPath(o.Path), f) {
				return true
			}
		}
		return false
	}
	type set struct{ inc, exc bool }
	scen := func(s set, extra func(a *AI, o Org) (AVal, bool)) (*AI, *Frame, *cliScen) {
		sc := &cliScen{ft: ft, flags: map[string]AVal{}}
		if f := ft["version"]; f != "" {
			sc.flags[f] = boolConst(false)
		}
		val := func(b bool) AVal {
			if b {
				return strAny("selector")
			}
			return nilVal()
		}
		sc.flags[inc], sc.flags[exc] = val(s.inc), val(s.exc)
		ne := noErrors(P)
		sc.extra = func(a *AI, o Org) (AVal, bool) {
			if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && calleeName(&c.Call) == "builtin.len" {
				os := a.values(VC{o.F, c.Call.Args[0]})
				n := func(b bool) AVal {
					if b {
						return intConst(2)
					}
					return intConst(0)
				}
				if isField(os, inc) {
					return n(s.inc), true
				}
				if isField(os, exc) {
					return n(s.exc), true
				}
			}
			if extra != nil {
				if v, ok := extra(a, o); ok {
					return v, ok
				}
			}
			return ne(a, o)
		}
		a, root := newCLI(P, sc)
		return a, root, sc
	}
	// exclude: the walk
	a, root, _ := scen(set{true, true}, nil)
	if a == nil {
		r.Bad("applied", "main", "", "the main function was not found")
		return
	}
	matchCall := func(a *AI, F *Frame, c *ssa.CallCommon) (VC, bool) {
		nm := calleeName(c)
		if !strings.HasPrefix(nm, "(github.com/andybalholm/cascadia.") || !strings.HasSuffix(nm, ").Match") {
			return VC{}, false
		}
		var recv, arg ssa.Value
		if c.IsInvoke() {
			recv, arg = c.Value, c.Args[0]
		} else {
			recv, arg = c.Args[0], c.Args[1]
		}
		if !isField(a.values(VC{F, recv}), exc) {
			return VC{}, false
		}
		return VC{F, arg}, true
	}
	var w walker
	for _, x := range findWalkers(a, root) {
		has := false
		x.leaf(a)
		a.walkCalls(x.F, func(F *Frame, site ssa.CallInstruction) {
			if n, ok := matchCall(a, F, site.Common()); ok && a.isNode(n, VC{x.F, x.p}) {
				has = true
			}
		})
		if has {
			w = x
		}
	}
	if w.F == nil {
		r.Bad("exclude-removes", "exclude", "", "no walk over the document was found that asks whether a node matches the exclude selectors")
	} else {
		n := w.leaf(a)
		parts := hasParts(&n)
		pos := P.pos(w.F.Fn.Pos())
		old := a.Hook
		with := func(name string, match bool) {
			sc := Scen{Name: name, Node: n, Extra: parts}
			a.setHook(func(a *AI, o Org) (AVal, bool) {
				if c, ok := o.V.(*ssa.Call); ok && o.Path == "" {
					if m, ok := matchCall(a, o.F, &c.Call); ok && a.isNode(m, n) {
						return boolConst(match), true
					}
				}
				if v, ok := sc.hook(a, o); ok {
					return v, ok
				}
				return old(a, o)
			})
		}
		for _, name := range []string{"div", "p", "span", "a", "li", "td", "my-element", "pre", "h2"} {
			with(name, true)
			all, _ := alwaysRemoves(a, w)
			r.Check(all, "exclude-removes", "matching "+name, pos, "%s", ifelse(all, "taken out on every path", "there is a path on which a matching element stays in the document"))
		}
		for _, k := range keepNames {
			with(k.name, false)
			_, any := alwaysRemoves(a, w)
			ok, why := visitsChildren(a, w)
			if any {
				ok, why = false, "an element that does not match can be taken out"
			}
			r.Check(ok, "exclude-keeps", "other "+k.name+" ("+k.typ+")", pos, "%s", why)
		}
		with("#text", false)
		_, any := alwaysRemoves(a, w)
		r.Check(!any, "exclude-keeps", "#text", pos, "text stays in the document")
		a.setHook(old)
	}
	// include
	checkInclude(P, r, func(extra func(a *AI, o Org) (AVal, bool)) (*AI, *Frame) {
		a, root, _ := scen(set{true, false}, extra)
		return a, root
	}, func(a *AI, vc VC) bool { return isField(a.values(vc), inc) })
	// applied
	for _, s := range []set{{false, false}, {true, false}, {false, true}, {true, true}} {
		a, root, _ := scen(s, nil)
		key := fmt.Sprintf("include %v, exclude %v", s.inc, s.exc)
		bad := ""
		n := 0
		seq := &Seq{a: a}
		seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return q, false
			}
			c := site.Common()
			nm := calleeName(c)
			if strings.HasPrefix(nm, "golang.org/x/net/html.Parse") {
				return "P", true
			}
			if strings.HasPrefix(nm, "github.com/andybalholm/cascadia.Query") || strings.HasSuffix(nm, ").MatchAll") {
				if !strings.Contains(q, "I") {
					q += "I"
				}
				return q, true
			}
			if w.F != nil && F.Fn != w.F.Fn && a.enters(F, site, w.F.Fn) {
				if !strings.Contains(q, "E") {
					q += "E"
				}
				// the same document as the one that is converted is checked by its origin
				if arg, ok := a.recArg(F, site, w.F.Fn, w.p); ok && !docOrigin(a, arg, s.inc) {
					bad = "excluding works on another document than the one that is converted, " + P.ipos(in)
				}
				return q, true
			}
			if isConvCall(P, site) {
				n++
				want := "P"
				if s.inc {
					want += "I"
				}
				if s.exc {
					want += "E"
				}
				if q != want && (s.inc || s.exc) {
					bad = fmt.Sprintf("the conversion at %s can be reached after the steps %q instead of %q (P: parsed, I: included, E: excluded)", P.ipos(in), q, want)
				}
				for _, x := range c.Args {
					if isHTMLNode(x.Type()) && !docOrigin(a, VC{F, x}, s.inc) {
						bad = "what is converted at " + P.ipos(in) + " is not " + ifelse(s.inc, "the document with the included parts", "the parsed document")
					}
				}
			}
			return q, false
		}
		seq.Run(root, "")
		if n == 0 {
			bad = "no conversion was found"
		}
		r.Check(bad == "", "applied", key, "", "%s", orElse(bad, "the steps are applied in order"))
	}
}

// docOrigin: the node is the parsed document, or (include) a new node.
func docOrigin(a *AI, vc VC, include bool) bool {
	os := a.values(vc)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if o.Path != "" {
			return false
		}
		switch x := o.V.(type) {
		case *ssa.Alloc:
			if !include || !isHTMLNode(x.Type()) {
				return false
			}
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if include || !ok || !strings.HasPrefix(calleeName(&c.Call), "golang.org/x/net/html.Parse") {
				return false
			}
		case *ssa.Const:
			// together with an error
			if !x.IsNil() {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func checkInclude(P *Prog, r *Result, mk func(extra func(a *AI, o Org) (AVal, bool)) (*AI, *Frame), isInc func(a *AI, vc VC) bool) {
	// no node is inside of another match
	outside := func(a *AI, o Org) (AVal, bool) {
		if o.Path != "" {
			return AVal{}, false
		}
		switch x := o.V.(type) {
		case *ssa.BinOp:
			if (x.Op == token.EQL || x.Op == token.NEQ) && isHTMLNode(x.X.Type()) {
				for _, y := range []ssa.Value{x.X, x.Y} {
					if c, ok := y.(*ssa.Const); ok && c.IsNil() {
						return AVal{}, false
					}
				}
				return boolConst(x.Op == token.NEQ), true
			}
		case *ssa.Call:
			if strings.HasPrefix(calleeName(&x.Call), "slices.Contains") && len(x.Call.Args) == 2 && isHTMLNode(x.Call.Args[1].Type()) {
				return boolConst(false), true
			}
		case *ssa.Lookup:
			if isHTMLNode(x.Index.Type()) && !x.CommaOk {
				return boolConst(false), true
			}
		}
		return AVal{}, false
	}
	type app struct {
		F    *Frame
		site ssa.CallInstruction
	}
	find := func(a *AI, root *Frame) []app {
		var out []app
		a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
			if calleeName(site.Common()) == "("+htmlPath+".Node).AppendChild" {
				out = append(out, app{F, site})
			}
		})
		return out
	}
	a, root := mk(outside)
	apps := find(a, root)
	good, why, pos := false, "the step that collects the matches was not found", ""
	for _, x := range apps {
		arg := x.site.Common().Args[1]
		pos = P.ipos(x.site.(ssa.Instruction))
		ia, IF, lst := a.elementOf(VC{x.F, arg})
		if ia == nil {
			why = "what is added is not a match"
			continue
		}
		fromQuery := true
		os := a.values(lst)
		for _, o := range os {
			c, ok := o.V.(*ssa.Call)
			if !ok || o.Path != "" || calleeName(&c.Call) != "github.com/andybalholm/cascadia.QueryAll" {
				fromQuery = false
				continue
			}
			if !isInc(a, VC{o.F, c.Call.Args[1]}) && !isInc(a, stripIface(VC{o.F, c.Call.Args[1]})) {
				fromQuery = false
			}
			for _, d := range a.values(VC{o.F, c.Call.Args[0]}) {
				if ex, ok := d.V.(*ssa.Extract); !ok || d.Path != "" || !strings.HasPrefix(calleeName(ex.Tuple.(*ssa.Call).Common()), "golang.org/x/net/html.Parse") {
					fromQuery = false
				}
			}
		}
		if !fromQuery || len(os) == 0 {
			why = "what is added does not come from a query for all matches of the include selectors in the parsed document"
			continue
		}
		full, w1, l := a.fullIteration(IF, ia)
		in := a.siteAt(x.F, x.site.(ssa.Instruction), IF)
		if !full {
			why = "not all matches are taken: " + w1
			continue
		}
		if in == nil || !a.onEveryRound(IF, l, in) || !a.alwaysRuns(x.F, x.site.(ssa.Instruction), IF) {
			why = "a match that is not inside of another match can be left out"
			continue
		}
		// detached before
		det := false
		a.walkCalls(IF, func(F *Frame, site ssa.CallInstruction) {
			if site.Common().Args == nil || len(site.Common().Args) == 0 {
				return
			}
			if calleeName(site.Common()) == domPath+".RemoveNode" {
				if ib, _, _ := a.elementOf(VC{F, site.Common().Args[0]}); ib == ia || sameElem(ib, ia) {
					if before(F, site.(ssa.Instruction), x.F, x.site.(ssa.Instruction)) {
						det = true
					}
				}
			}
		})
		if !det {
			why = "a match is added without being taken out of its place first"
			continue
		}
		// nested matches
		a2, root2 := mk(nil)
		nested := false
		for _, y := range find(a2, root2) {
			if y.site != x.site {
				continue
			}
			ia2, IF2, _ := a2.elementOf(VC{y.F, arg})
			if ia2 == nil {
				continue
			}
			_, _, l2 := a2.fullIteration(IF2, ia2)
			in2 := a2.siteAt(y.F, y.site.(ssa.Instruction), IF2)
			if l2 != nil && in2 != nil && (!a2.onEveryRound(IF2, l2, in2) || !a2.alwaysRuns(y.F, y.site.(ssa.Instruction), IF2)) && ancestorLoop(a2, IF2, l2) {
				nested = true
			}
		}
		if !nested {
			why = "a match inside of another match is taken out of its place (no test of all of its ancestors was found)"
			continue
		}
		good = true
		break
	}
	r.Check(good, "include", "matches", pos, "%s", ifelse(good, "every match is moved to the new document in order, matches inside of it stay where they are", why))
}

func sameElem(x, y *ssa.IndexAddr) bool {
	return x != nil && y != nil && x.X == y.X && x.Index == y.Index
}

func stripIface(vc VC) VC {
	if mi, ok := vc.V.(*ssa.MakeInterface); ok {
		return VC{vc.F, mi.X}
	}
	return vc
}

// ancestorLoop: below the loop there is a walk up to all ancestors of a node.
func ancestorLoop(a *AI, F *Frame, l *loop) bool {
	found := false
	check := func(fn *ssa.Function, in func(b *ssa.BasicBlock) bool) {
		for _, m := range loopsOf(fn) {
			for _, i := range m.head.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok || !isHTMLNode(phi.Type()) || !in(phi.Block()) {
					continue
				}
				for j, e := range phi.Edges {
					if m.body[phi.Block().Preds[j]] {
						if x, _ := nodeField(e, "Parent"); x == ssa.Value(phi) {
							found = true
						}
					}
				}
			}
		}
	}
	check(F.Fn, func(b *ssa.BasicBlock) bool { return l.body[b] })
	fi := a.feasible(F)
	for b := range l.body {
		if !fi.live[b.Index] {
			continue
		}
		for _, in := range b.Instrs {
			if site, ok := in.(ssa.CallInstruction); ok {
				frs, _ := a.calleeFrames(F, site)
				for _, fr := range frs {
					a.eachFrame(fr, func(G *Frame) { check(G.Fn, func(*ssa.BasicBlock) bool { return true }) })
					// recursion upwards
					instrs(fr.Fn, func(in ssa.Instruction) {
						if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fr.Fn {
							for _, g := range c.Call.Args {
								if x, _ := nodeField(g, "Parent"); x != nil {
									found = true
								}
							}
						}
					})
				}
			}
		}
	}
	return found
}
