package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A case is a renderer that is analysed for one kind of element.
type rcase struct {
	key  string
	a    *AI
	sc   *Scen
	F    *Frame
	w, n VC
}

func paramOf(f *ssa.Function, ok func(t types.Type) bool) *ssa.Parameter {
	for _, p := range f.Params {
		if ok(p.Type()) {
			return p
		}
	}
	return nil
}
func isWriterType(t types.Type) bool { return isNamed(t, modPath+"/converter", "Writer") }
func isHTMLNode(t types.Type) bool {
	_, ptr := types.Unalias(t).(*types.Pointer)
	return ptr && isNamed(t, htmlPath, "Node")
}

// isRenderSig: func(ctx, w, n) RenderStatus.
func isRenderSig(s *types.Signature) bool {
	if s.Params().Len() != 3 || s.Results().Len() != 1 {
		return false
	}
	return isWriterType(s.Params().At(1).Type()) && isHTMLNode(s.Params().At(2).Type()) && isNamed(s.Results().At(0).Type(), modPath+"/converter", "RenderStatus")
}

func mkCase(a *AI, sc *Scen, key string, F *Frame) *rcase {
	w := paramOf(F.Fn, isWriterType)
	n := paramOf(F.Fn, isHTMLNode)
	if w == nil || n == nil {
		return nil
	}
	sc.Node = VC{F, n}
	return &rcase{key: key, a: a, sc: sc, F: F, w: VC{F, w}, n: VC{F, n}}
}

// handlerCases: all registered renderers of the built-in plugins for a scenario.
func handlerCases(P *Prog, sc Scen) []*rcase {
	a0 := newAI(P)
	regs := registrations(a0, "Renderer", "RendererFor")
	var out []*rcase
	for i := range regs {
		s := sc
		a := newAI(P)
		a.Hook = (&s).hook
		rs := registrations(a, "Renderer", "RendererFor")
		if i >= len(rs) || rs[i].Fn == nil {
			continue
		}
		if rs[i].Tag != "" && sc.Name != "" && rs[i].Tag != sc.Name {
			continue
		}
		pl := fnPkgPath(rs[i].F.Fn)
		pl = pl[strings.LastIndex(pl, "/")+1:]
		if c := mkCase(a, &s, pl, rs[i].Fn); c != nil {
			out = append(out, c)
		}
	}
	return out
}

// coreRenderer: the function of the converter that dispatches a node to the render handlers.
func coreRenderer(P *Prog) *ssa.Function {
	var res *ssa.Function
	for _, f := range P.Funcs {
		if fnPkgPath(f) != modPath+"/converter" || paramOf(f, isWriterType) == nil || paramOf(f, isHTMLNode) == nil {
			continue
		}
		if f.Parent() != nil {
			continue
		}
		found := false
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == nil && !c.Call.IsInvoke() && isRenderSig(c.Call.Signature()) {
				found = true
			}
		})
		if found {
			res = f
		}
	}
	if res == nil {
		return nil
	}
	// the handlers can be tried in a helper: the dispatcher is the outermost function with these parameters
	for i := 0; i < 4; i++ {
		var up *ssa.Function
		for _, c := range P.Callers(res) {
			g := c.Parent()
			if g != res && fnPkgPath(g) == modPath+"/converter" && g.Parent() == nil && paramOf(g, isWriterType) != nil && paramOf(g, isHTMLNode) != nil {
				if sl := g.Signature; sl.Variadic() {
					continue
				}
				if recvNamed(g, "converterContext") {
					continue
				}
				up = g
			}
		}
		if up == nil {
			break
		}
		res = up
	}
	return res
}

func recvNamed(f *ssa.Function, name string) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	t := types.Unalias(r.Type())
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

// coreCase: the dispatcher of the converter, with no handler that accepts the node.
func coreCase(P *Prog, sc Scen, key string) *rcase {
	f := coreRenderer(P)
	if f == nil {
		return nil
	}
	a := newAI(P)
	s := sc
	a.Hook = (&s).hook
	return mkCase(a, &s, key, a.Root(f))
}

// exportedRenderers: render functions that users can register.
func exportedRenderers(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() && P.InLib(f) && isRenderSig(f.Signature) {
			out = append(out, f)
		}
	}
	return out
}

func (c *rcase) run(m Machine) []Exit {
	return newEmit(c.a, m, c.w).Run(c.F)
}

// ---- C17 ----

// sepMachine counts the line breaks at the start and at the end of what is written.
// "L<k>": only k line breaks so far; "X<lead>,<trail>": with content; "H": handed to a handler.
type sepMachine struct{}

func (sepMachine) Start() string { return "L0" }
func (sepMachine) step(q string, c byte) string {
	if q == "H" {
		return q
	}
	if q[0] == 'L' {
		if c == '\n' {
			switch q {
			case "L0":
				return "L1"
			}
			return "L2"
		}
		return "X" + q[1:] + ",0"
	}
	if c == '\n' {
		switch q[3:] {
		case "0":
			return q[:3] + "1"
		}
		return q[:3] + "2"
	}
	return q[:3] + "0"
}
func (m sepMachine) Text(e *Emit, q, s string) string {
	for i := 0; i < len(s); i++ {
		q = m.step(q, s[i])
	}
	return q
}
func (m sepMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	if ss, ok := v.strConsts(); ok && len(ss) > 0 {
		// the worst of the alternatives
		worst := ""
		for _, s := range ss {
			x := m.Text(e, q, s)
			if worst == "" || x < worst {
				worst = x
			}
		}
		return worst
	}
	return m.step(q, 'x')
}
func (m sepMachine) Node(e *Emit, q string, k tkKind, vc VC) string {
	if k == tkOpaque {
		return "H"
	}
	return m.step(q, 'x')
}
func (sepMachine) Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string { return q }

type namedScen struct {
	id string
	sc Scen
}

func blockScens() []namedScen {
	var out []namedScen
	for i := 1; i <= 6; i++ {
		out = append(out, namedScen{fmt.Sprintf("h%d", i), Scen{Name: fmt.Sprintf("h%d", i)}})
	}
	for _, n := range []string{"blockquote", "ul", "ol", "pre", "hr", "table", "tr"} {
		out = append(out, namedScen{n, Scen{Name: n}})
	}
	out = append(out, namedScen{"list separator comment", Scen{Name: "#comment", Data: "THE END"}})
	return out
}

func successMay(x Exit, succ string) bool {
	if strings.HasPrefix(succ, "!") {
		return x.Ret != succ[1:]
	}
	return x.Ret == succ || x.Ret == "?"
}

func init() {
	register("C17", func(P *Prog, r *Result) {
		succ, try := renderStatus(P)
		r.Rule("separated", "on every path that reports success, what the renderer wrote starts with two line breaks and ends with two line breaks (or is nothing at all)", 14)
		r.Rule("handled", "the block element is handled by a renderer", 13)
		check := func(c *rcase, key string) {
			seen := map[string]bool{}
			n := 0
			for _, x := range c.run(sepMachine{}) {
				if x.Ret == try || x.Q == "H" {
					continue
				}
				n++
				ok := x.Q == "L0" || x.Q == "L2" || x.Q == "X2,2"
				k := fmt.Sprint(x.Q, c.a.P.pos(x.Pos))
				if seen[k] {
					continue
				}
				seen[k] = true
				why := "starts and ends with a blank line"
				if !ok {
					why = "what is written does not start or end with a blank line (state " + x.Q + ": line breaks before, after)"
				}
				r.Check(ok, "separated", key, P.pos(x.Pos), "%s", why)
			}
			r.Count("successful exits", n)
		}
		for _, s := range blockScens() {
			handled := false
			for _, c := range handlerCases(P, s.sc) {
				did := false
				for _, x := range c.run(sepMachine{}) {
					if successMay(x, succ) {
						did = true
					}
				}
				if did {
					handled = true
					check(c, s.id+" by "+c.key)
				}
			}
			r.Check(handled, "handled", s.id, "", "a registered renderer accepts the element")
		}
		if c := coreCase(P, Scen{Name: "section", TagType: "block"}, "fallback"); c != nil {
			check(c, "any other block element")
		} else {
			r.Bad("handled", "fallback", "", "the dispatcher of the converter was not found")
		}
		for _, f := range exportedRenderers(P) {
			if strings.Contains(f.Name(), "HTMLWrapper") {
				continue
			}
			a := newAI(P)
			s := Scen{Name: "section", TagType: "block"}
			a.Hook = (&s).hook
			if c := mkCase(a, &s, f.Name(), a.Root(f)); c != nil {
				check(c, "block with "+f.Name())
			}
		}
	})
	register("C27", func(P *Prog, r *Result) {
		_, try := renderStatus(P)
		r.Rule("declines-silently", "on every path on which a render handler declines, nothing was written to the writer before", 3)
		m := wroteMachine{}
		run := func(c *rcase, key string) {
			bad := map[string]bool{}
			nDecl := 0
			for _, x := range c.run(m) {
				if x.Ret != try && x.Ret != "?" {
					continue
				}
				if x.Q == "1" {
					p := P.pos(x.Pos)
					if !bad[p] {
						bad[p] = true
						r.Bad("declines-silently", key, p, "the handler can decline here although it has already written to the output")
					}
					continue
				}
				nDecl++
			}
			r.Count("declining exits", nDecl)
			if len(bad) == 0 {
				r.OK("declines-silently", key, P.pos(c.F.Fn.Pos()), "%d declining exits, none after a write", nDecl)
			}
		}
		names := []string{"", "strong", "em", "hr", "br", "ul", "ol", "pre", "code", "blockquote", "h1", "h3", "img", "a", "table", "tr", "del"}
		for _, n := range names {
			for _, c := range handlerCases(P, Scen{Name: n}) {
				id := n
				if id == "" {
					id = "any element"
				}
				run(c, id+" by "+c.key)
			}
		}
		for _, c := range handlerCases(P, Scen{Name: "#comment"}) {
			run(c, "#comment by "+c.key)
		}
		for _, f := range exportedRenderers(P) {
			a := newAI(P)
			s := Scen{}
			a.Hook = (&s).hook
			if c := mkCase(a, &s, f.Name(), a.Root(f)); c != nil {
				run(c, f.Name())
			}
		}
	})
}

type wroteMachine struct{}

func (wroteMachine) Start() string { return "0" }
func (wroteMachine) Text(e *Emit, q, s string) string {
	if s != "" {
		return "1"
	}
	return q
}
func (wroteMachine) Value(e *Emit, q string, vc VC, v AVal) string                  { return "1" }
func (wroteMachine) Node(e *Emit, q string, k tkKind, vc VC) string                 { return "1" }
func (wroteMachine) Branch(e *Emit, q string, F *Frame, c ssa.Value, t bool) string { return q }

var _ = constant.Bool
var _ = token.ADD
var _ = sort.Strings
