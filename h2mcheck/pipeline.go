package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The conversion pipeline: setup errors (C09), order of handlers (C11), detaching (C24), entry points (C28).

const convPath = modPath + "/converter"

type handlerKinds struct{ pre, render, post, text, unesc *types.Signature }

func kinds(P *Prog) *handlerKinds {
	return &handlerKinds{handlerSig(P, "HandlePreRenderFunc"), handlerSig(P, "HandleRenderFunc"), handlerSig(P, "HandlePostRenderFunc"), handlerSig(P, "HandleTextTransformFunc"), handlerSig(P, "HandleUnEscapeFunc")}
}

// kind tells which kind of handler a call runs.
func (h *handlerKinds) kind(site ssa.CallInstruction) string {
	s := dynSig(site)
	if s == nil || fnPkgPath(site.Parent()) != convPath {
		return ""
	}
	// a closure of the same function is not a handler
	if _, ok := site.Common().Value.(*ssa.MakeClosure); ok {
		return ""
	}
	switch {
	case h.pre != nil && types.Identical(s, h.pre):
		return "pre"
	case h.render != nil && types.Identical(s, h.render):
		return "render"
	case h.post != nil && types.Identical(s, h.post):
		return "post"
	case h.text != nil && types.Identical(s, h.text):
		return "text"
	case h.unesc != nil && types.Identical(s, h.unesc):
		return "unescape"
	}
	return ""
}

func isConverterType(t types.Type) bool { return isNamed(t, convPath, "Converter") }

type handlerCall struct {
	kind string
	F    *Frame
	site ssa.CallInstruction
}

// handlerCalls finds the calls of handlers below a frame (also in closures that are called there).
func handlerCalls(a *AI, root *Frame, h *handlerKinds) []handlerCall {
	var out []handlerCall
	seen := map[*Frame]bool{}
	done := map[VC]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		_ = seen
		if k := h.kind(site); k != "" {
			key := VC{F, site.Value()}
			if site.Value() != nil && done[key] {
				return
			}
			done[key] = true
			out = append(out, handlerCall{k, F, site})
		}
	})
	return out
}

func init() {
	register("C09", checkC09)
	register("C11", checkC11)
	register("C24", checkC24)
	register("C28", checkC28)
}

// nonNilErr: is the value an error that is certainly not nil in this context?
func (a *AI) nonNilErr(ef *errFlow, vc VC) bool {
	os := a.values(vc)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if a.Hook != nil {
			if v, ok := a.Hook(a, o); ok {
				if len(v.Consts) > 0 && !v.Top {
					nn := true
					for _, c := range v.Consts {
						if c == nil {
							nn = false
						}
					}
					if nn {
						continue
					}
				}
			}
		}
		switch o.V.(type) {
		case *ssa.Global:
			if ef.globalNonNil(o.V.(*ssa.Global), 4) {
				continue
			}
		case *ssa.Alloc:
			if o.Path == "" {
				continue
			}
		default:
			if o.Path == "" && ef.nonNil(o.V, 4) {
				continue
			}
		}
		return false
	}
	return true
}

func checkC09(P *Prog, r *Result) {
	r.Rule("error-flow", "an error of parsing, of a plugin, an option or a configuration check reaches a returned error or is stored as the setup error on every path on which it is not nil", 8)
	r.Rule("no-output", "a conversion function that returns an error returns nothing else with it", 4)
	r.Rule("setup-error", "with a stored setup error every conversion returns an error and runs no handler", 1)
	r.Rule("no-handlers", "without any render handler every conversion returns an error and runs no handler", 1)
	r.Rule("base-missing", "with the commonmark but without the base plugin every conversion returns an error and runs no handler", 1)
	r.Rule("stored-error", "only errors are stored as the setup error, and nothing resets it", 1)
	ef := newErrFlow(P)
	initSig := func(c *ssa.CallCommon) bool {
		n := calleeName(c)
		if strings.HasPrefix(n, htmlPath+".Parse") || n == "io.ReadAll" || n == "("+convPath+".Plugin).Init" {
			return true
		}
		if n == "(io.Reader).Read" {
			return true
		}
		if strings.HasPrefix(n, modPath) || strings.HasPrefix(n, "("+modPath) {
			p, _ := splitName(n)
			if inModule(p) && !strings.HasSuffix(n, ").Write") && !strings.HasSuffix(n, ".WriteRune") && !strings.HasSuffix(n, ".WriteString") && !strings.HasSuffix(n, ".WriteByte") {
				return true
			}
		}
		if s := c.Signature(); !c.IsInvoke() && c.StaticCallee() == nil {
			for i := 0; i < s.Params().Len(); i++ {
				if isConverterType(s.Params().At(i).Type()) || isPluginStruct(s.Params().At(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range P.Funcs {
		if !P.InLib(f) || f.Synthetic != "" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			idx := errResult(site.Common())
			if idx < 0 || !initSig(site.Common()) {
				return
			}
			name := calleeName(site.Common())
			if name == "" {
				name = "a function value"
			}
			key := fkey(f) + " calls " + shortName(name)
			call, ok := in.(*ssa.Call)
			if !ok {
				r.Bad("error-flow", key, P.ipos(in), "the error of a deferred call is dropped")
				return
			}
			e := errValue(call, idx)
			if e == nil {
				// the whole tuple may be returned
				r.Bad("error-flow", key, P.ipos(in), "the error is ignored")
				return
			}
			ps := ef.check(f, in, e, 4)
			for _, p := range ps {
				r.Bad("error-flow", key, p.pos, "%s (error of the call at %s)", p.what, P.ipos(in))
			}
			if len(ps) == 0 {
				r.OK("error-flow", key, P.ipos(in), "reaches an error result or the setup error on every path")
			}
		})
	}
	// results that come with an error
	for _, f := range P.ConvertRoots() {
		a := newAI(P)
		F := a.Root(f)
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) < 2 {
				continue
			}
			if b == f.Recover && !usesRecover(f) {
				continue
			}
			errv := resolveResult(ret, len(ret.Results)-1)
			if c, ok := errv.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			good := true
			for vi := range ret.Results[:len(ret.Results)-1] {
				v := resolveResult(ret, vi)
				if isZeroConst(v) {
					continue
				}
				// both are results of one call
				if cv, ok := v.(*ssa.Convert); ok && isStrBytes(cv.Type()) && isStrBytes(cv.X.Type()) {
					v = cv.X
				}
				e1, ok1 := v.(*ssa.Extract)
				e2, ok2 := errv.(*ssa.Extract)
				if ok1 && ok2 && e1.Tuple == e2.Tuple {
					continue
				}
				good = false
			}
			_ = F
			r.Check(good, "no-output", fkey(f)+" return "+exprOf(errv), P.ipos(ret), "the other results are empty or come from the same call")
		}
	}
	// scenarios
	conv := P.Method("converter", "Converter", "ConvertNode")
	if conv == nil {
		r.Bad("setup-error", "ConvertNode", "", "the conversion function was not found")
		return
	}
	h := kinds(P)
	scen := func(rule, what string, hook func(a *AI, o Org) (AVal, bool)) {
		a := newAI(P)
		a.Hook = hook
		F := a.Root(conv)
		ok := true
		for _, hc := range handlerCalls(a, F, h) {
			ok = false
			r.Bad(rule, what+": "+hc.kind+" handler", P.ipos(hc.site), "a handler runs although %s", what)
		}
		n := 0
		for _, v := range a.returns(F, 1) {
			n++
			if !a.nonNilErr(ef, v) {
				ok = false
				r.Bad(rule, what+": return", P.ipos(v.V.(interface{ Parent() *ssa.Function }).Parent().Blocks[0].Instrs[0]), "ConvertNode can return without an error although %s", what)
			}
		}
		if ok {
			r.OK(rule, what, P.pos(conv.Pos()), "%d possible returns, all with an error", n)
		}
	}
	errField := convErrFields(P)
	scen("setup-error", "the setup failed", func(a *AI, o Org) (AVal, bool) {
		if o.Path != "" && isConverterType(o.V.Type()) && errField[strings.TrimPrefix(o.Path, "*")] {
			return strConst("error"), true
		}
		return AVal{}, false
	})
	noErr := func(a *AI, o Org) (AVal, bool) {
		if o.Path != "" && isConverterType(o.V.Type()) && errField[strings.TrimPrefix(o.Path, "*")] {
			return AVal{Consts: map[string]constant.Value{"nil": nil}}, true
		}
		return AVal{}, false
	}
	scen("no-handlers", "no render handler is registered", func(a *AI, o Org) (AVal, bool) {
		if v, ok := noErr(a, o); ok {
			return v, true
		}
		if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && calleeName(&c.Call) == "builtin.len" && holdsHandlers(c.Call.Args[0].Type(), h.render) {
			return intConst(0), true
		}
		return AVal{}, false
	})
	scen("base-missing", "the base plugin is missing", func(a *AI, o Org) (AVal, bool) {
		if v, ok := noErr(a, o); ok {
			return v, true
		}
		if o.Path != "" {
			return AVal{}, false
		}
		// "is this plugin registered?"
		var args []ssa.Value
		switch x := o.V.(type) {
		case *ssa.Call:
			n := calleeName(&x.Call)
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				return AVal{}, false
			}
			if n != "slices.Contains" && !strings.HasPrefix(n, "("+convPath) && !strings.HasPrefix(n, convPath) {
				return AVal{}, false
			}
			args = x.Call.Args
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
				args = []ssa.Value{l.Index}
			}
		case *ssa.Lookup:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				args = []ssa.Value{x.Index}
			}
		}
		for _, g := range args {
			if b, ok := g.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if ss, ok := a.ev(VC{o.F, g}).strConsts(); ok && len(ss) == 1 {
				switch ss[0] {
				case "commonmark":
					return boolConst(true), true
				case "base":
					return boolConst(false), true
				}
			}
		}
		if c, ok := o.V.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.len" && holdsHandlers(c.Call.Args[0].Type(), h.render) {
			return AVal{Consts: map[string]constant.Value{"Int:1": constant.MakeInt64(1)}}, true
		}
		return AVal{}, false
	})
	// what is stored as the setup error
	for _, f := range P.Funcs {
		if !P.InLib(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isErrType(st.Val.Type()) || !(isConverterType(fa.X.Type()) || isPluginStruct(fa.X.Type())) {
				return
			}
			key := fkey(f) + " stores " + fieldName(fa.X.Type(), fa.Field)
			bad := storedNil(P, ef, st.Val, in, 3)
			r.Check(bad == "", "stored-error", key, P.ipos(in), "%s", orElse(bad, "only errors are stored"))
		})
	}
}

func orElse(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// storedNil: can a nil error be stored (which would forget an earlier error)?
func storedNil(P *Prog, ef *errFlow, v ssa.Value, at ssa.Instruction, depth int) string {
	if ef.nonNil(v, 4) || knownNonNil(v, at) {
		return ""
	}
	if p, ok := v.(*ssa.Parameter); ok && depth > 0 {
		idx := -1
		for i, q := range p.Parent().Params {
			if q == p {
				idx = i
			}
		}
		sites := P.Callers(p.Parent())
		for _, s := range sites {
			if s.Common().IsInvoke() || idx >= len(s.Common().Args) {
				return "the stored error is not known"
			}
			if w := storedNil(P, ef, s.Common().Args[idx], s.(ssa.Instruction), depth-1); w != "" {
				return w
			}
		}
		return ""
	}
	return "a nil error can be stored at " + P.ipos(at) + ", which forgets an earlier setup error"
}

// knownNonNil: at this point v was compared with nil before.
func knownNonNil(v ssa.Value, at ssa.Instruction) bool {
	for d := at.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := b.X, b.Y
		if c, ok := x.(*ssa.Const); ok && c.IsNil() {
			x, y = y, x
		}
		c, ok := y.(*ssa.Const)
		if !ok || !c.IsNil() || x != v {
			continue
		}
		var s *ssa.BasicBlock
		if b.Op == token.NEQ {
			s = p.Succs[0]
		} else if b.Op == token.EQL {
			s = p.Succs[1]
		}
		if s != nil && len(s.Preds) == 1 && s.Dominates(at.Block()) {
			return true
		}
	}
	return false
}

func exprOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "error of " + shortName(calleeName(&c.Call))
		}
	case *ssa.Call:
		return shortName(calleeName(&x.Call))
	case *ssa.UnOp:
		if n := globalName(v); n != "" {
			return shortName(n)
		}
	case *ssa.Const:
		return "nil"
	}
	return "error"
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath, "html2md")
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int:
		return c.Int64() == 0
	}
	return false
}

// convErrFields: the fields of the converter that hold an error.
func convErrFields(P *Prog) map[string]bool {
	out := map[string]bool{}
	n := P.NamedType("converter", "Converter")
	if n == nil {
		return out
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		if isErrType(st.Field(i).Type()) {
			out["."+st.Field(i).Name()] = true
		}
	}
	return out
}

// holdsHandlers: a slice type whose elements carry a function of this signature.
func holdsHandlers(t types.Type, sig *types.Signature) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok || sig == nil {
		return false
	}
	el := s.Elem().Underlying()
	if f, ok := el.(*types.Signature); ok {
		return types.Identical(f, sig)
	}
	if st, ok := el.(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if f, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && types.Identical(f, sig) {
				return true
			}
		}
	}
	return false
}

// ---- C11 ----

func checkC11(P *Prog, r *Result) {
	r.Rule("phases", "during a conversion all pre-render handlers run before anything is rendered, and post-render handlers run after that", 2)
	r.Rule("document", "each pre-render handler gets the whole document", 1)
	r.Rule("every-handler", "the handlers are called in a loop over the complete list, in order, each of them on every round", 5)
	r.Rule("sorted", "the list that a phase goes through is the complete list of registered handlers, sorted stably by ascending priority", 5)
	r.Rule("chained", "each handler of a chained phase gets the result of the one before, and the last result is used", 2)
	r.Rule("first-success", "after the first handler that succeeds no other one runs", 2)
	r.Rule("tag-type", "the tag type of an element is the one that was registered with the lowest priority (the first one for equal priority)", 1)
	r.Rule("registration", "registering adds the handler with the given priority at the end of its list", 6)
	h := kinds(P)
	conv := P.Method("converter", "Converter", "ConvertNode")
	core := coreRenderer(P)
	if conv == nil || core == nil {
		r.Bad("phases", "anchors", "", "ConvertNode or the dispatcher of the render handlers was not found")
		return
	}
	a := newAI(P)
	F := a.Root(conv)
	doc := paramOf(conv, isHTMLNode)
	// phases
	problems := map[string]string{}
	saw := map[string]int{}
	seq := &Seq{a: a}
	seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		site, ok := in.(ssa.CallInstruction)
		if !ok {
			return q, true
		}
		k := h.kind(site)
		isRender := k == "render" || k == "text" || writesOutput(site)
		switch {
		case k == "pre":
			saw["pre"]++
			if q != "pre" {
				problems["pre-render handlers run after rendering"] = P.ipos(in)
			}
			return q, true
		case k == "post":
			saw["post"]++
			return "post", true
		case isRender:
			saw["render"]++
			if q == "post" {
				problems["something is rendered after post-render handlers ran"] = P.ipos(in)
			}
			if q == "pre" {
				return "render", k != ""
			}
			return q, k != ""
		}
		return q, false
	}
	ends := seq.Run(F, "pre")
	for w, p := range problems {
		r.Bad("phases", w, p, "%s", w)
	}
	if len(problems) == 0 {
		r.OK("phases", "order", P.pos(conv.Pos()), "pre-render, render, post-render (end states %v)", ends)
	}
	r.Check(saw["pre"] > 0 && saw["render"] > 0 && saw["post"] > 0, "phases", "all phases", P.pos(conv.Pos()), "pre %d, render %d, post %d sites", saw["pre"], saw["render"], saw["post"])
	r.Count("program points followed", len(seq.memo))

	// what every loop goes through
	type root struct {
		name string
		hook func(a *AI, o Org) (AVal, bool)
		f    *ssa.Function
	}
	_, try := renderStatus(P)
	_ = try
	failHook := handlerResult(h, tryNextVal(P), intConst(-1))
	seen := map[string]bool{}
	var roots []*ssa.Function
	roots = append(roots, conv)
	for _, f := range P.Funcs {
		if fnPkgPath(f) == convPath && recvNamed(f, "Converter") && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	for _, rf := range roots {
		a := newAI(P)
		a.Hook = failHook
		F := a.Root(rf)
		for _, hc := range handlerCalls(a, F, h) {
			k := hc.kind
			key := k + " handlers in " + fkey(hc.site.Parent())
			if seen[key] {
				continue
			}
			if !hc.F.hasUp(F) {
				continue
			}
			ia, IF, lst := a.elementOf(VC{hc.F, hc.site.Common().Value})
			if ia == nil {
				if hc.F.Up == nil && rf != conv {
					continue // the handler is an argument here: seen from the callers
				}
				seen[key] = true
				r.Bad("every-handler", key, P.ipos(hc.site), "the handler that is called is not an element of the list of handlers")
				continue
			}
			seen[key] = true
			ok, why, l := a.fullIteration(IF, ia)
			if ok {
				// the call runs on every round
				in := a.siteAt(hc.F, hc.site, IF)
				if in == nil || !a.onEveryRound(IF, l, in) {
					ok, why = false, "the handler is not called on every round"
				}
			}
			r.Check(ok, "every-handler", key, P.ipos(hc.site), "%s", why)
			so, swhy := a.sortedList(F, lst, IF, ia, h)
			r.Check(so, "sorted", key, P.ipos(ia), "%s", swhy)
			// arguments
			args := hc.site.Common().Args
			switch k {
			case "pre":
				good := true
				for _, o := range a.values(VC{hc.F, args[1]}) {
					if o.V != ssa.Value(doc) || o.Path != "" {
						good = false
					}
				}
				r.Check(good || rf != conv, "document", key, P.ipos(hc.site), "the handler gets the document that is converted")
			case "post", "text":
				chained := false
				for _, o := range a.values(VC{hc.F, args[1]}) {
					if o.V == hc.site.Value() && o.Path == "" {
						chained = true
					}
				}
				used := false
				if k == "post" {
					for _, v := range a.returns(F, 0) {
						for _, o := range a.values(v) {
							if o.V == hc.site.Value() {
								used = true
							}
						}
					}
					if rf != conv {
						used = true
					}
				} else {
					used = a.reachesWriter(F, hc.site.Value(), hc.F)
				}
				why := "chained"
				if !chained {
					why = "the handler does not get the result of the handler before"
				} else if !used {
					why = "the result of the handlers is not used"
				}
				r.Check(chained && used, "chained", key, P.ipos(hc.site), "%s", why)
			}
		}
	}
	for _, k := range []string{"pre", "render", "post", "text", "unescape"} {
		found := false
		for s := range seen {
			if strings.HasPrefix(s, k+" ") {
				found = true
			}
		}
		r.Check(found, "every-handler", k, "", "the handlers of the phase are called somewhere")
	}
	// the first success decides
	succHook := handlerResult(h, successVal(P), intConst(3))
	for _, rf := range roots {
		a := newAI(P)
		a.Hook = succHook
		F := a.Root(rf)
		for _, hc := range handlerCalls(a, F, h) {
			if hc.kind != "render" && hc.kind != "unescape" {
				continue
			}
			ia, IF, _ := a.elementOf(VC{hc.F, hc.site.Common().Value})
			key := hc.kind + " handlers in " + fkey(hc.site.Parent())
			if ia == nil || seen["first "+key] {
				continue
			}
			seen["first "+key] = true
			l := innerLoop(IF.Fn, ia.Block())
			in := a.siteAt(hc.F, hc.site, IF)
			if l == nil || in == nil {
				continue // reported above
			}
			again := a.loopsAgain(IF, l, in.Block())
			r.Check(!again, "first-success", key, P.ipos(hc.site), "%s", ifelse(again, "another handler can run after one has succeeded", "no other handler runs"))
		}
	}
	// nothing else is rendered after a success
	{
		a := newAI(P)
		a.Hook = succHook
		F := a.Root(core)
		bad := ""
		seq := &Seq{a: a}
		seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return q, true
			}
			if h.kind(site) == "render" {
				if q == "done" {
					bad = P.ipos(in)
				}
				return "done", true
			}
			if writesOutput(site) {
				if q == "done" {
					bad = P.ipos(in)
				}
				return q, true
			}
			return q, false
		}
		seq.Run(F, "")
		r.Check(bad == "", "first-success", "output after a render handler", orElse(bad, P.pos(core.Pos())), "%s", ifelse(bad != "", "the node is rendered again after a handler has rendered it", "nothing else is written"))
	}
	// tag types
	checkTagType(P, r)
	checkRegistration(P, r)
}

func ifelse(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// writesOutput: a call that writes to the writer of the conversion, or renders nodes to it.
func writesOutput(site ssa.CallInstruction) bool {
	n := calleeName(site.Common())
	if strings.HasPrefix(n, "("+convPath+".Writer).") {
		return true
	}
	return strings.HasPrefix(n, "("+convPath+".Context).Render")
}

func tryNextVal(P *Prog) AVal { return statusVal(P, "RenderTryNext") }
func successVal(P *Prog) AVal { return statusVal(P, "RenderSuccess") }
func statusVal(P *Prog, n string) AVal {
	if c, ok := P.Pkg("converter").Pkg.Scope().Lookup(n).(*types.Const); ok {
		return constVal(c.Val())
	}
	return topVal()
}

// handlerResult gives the results of render handlers and unescapers.
func handlerResult(h *handlerKinds, render, unesc AVal) func(a *AI, o Org) (AVal, bool) {
	return func(a *AI, o Org) (AVal, bool) {
		c, ok := o.V.(*ssa.Call)
		if !ok || o.Path != "" {
			return AVal{}, false
		}
		switch h.kind(c) {
		case "render":
			return render, true
		case "unescape":
			return unesc, true
		}
		return AVal{}, false
	}
}

func (f *Frame) hasUp(g *Frame) bool {
	for x := f; x != nil; x = x.Up {
		if x == g {
			return true
		}
		if x.Up == nil && x.CloF != nil {
			return x.CloF.hasUp(g)
		}
	}
	return false
}

// siteAt lifts a call to the frame G above it.
func (a *AI) siteAt(F *Frame, in ssa.Instruction, G *Frame) ssa.Instruction {
	for F != G {
		if F.Site == nil {
			return nil
		}
		in = F.Site
		F = F.Up
		if F == nil {
			return nil
		}
	}
	return in
}

// elementOf: the value is (a component of) an element of a list: the element access, its frame and the list.
func (a *AI) elementOf(vc VC) (*ssa.IndexAddr, *Frame, VC) {
	var find func(vc VC, depth int) (*ssa.IndexAddr, *Frame)
	find = func(vc VC, depth int) (*ssa.IndexAddr, *Frame) {
		if depth > 12 {
			return nil, nil
		}
		switch x := vc.V.(type) {
		case *ssa.IndexAddr:
			return x, vc.F
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return find(VC{vc.F, x.X}, depth+1)
			}
		case *ssa.Field:
			return find(VC{vc.F, x.X}, depth+1)
		case *ssa.FieldAddr:
			return find(VC{vc.F, x.X}, depth+1)
		case *ssa.ChangeType:
			return find(VC{vc.F, x.X}, depth+1)
		case *ssa.Alloc:
			var res *ssa.IndexAddr
			var rf *Frame
			for _, st := range a.storesTo(vc) {
				if st.Path == "" || st.Path == ".Value" {
					if ia, f := find(st.Val, depth+1); ia != nil {
						if res != nil && res != ia {
							return nil, nil
						}
						res, rf = ia, f
					}
				}
			}
			return res, rf
		case *ssa.Parameter:
			args := a.paramArgs(vc.F, x)
			if len(args) == 1 {
				return find(args[0], depth+1)
			}
		case *ssa.FreeVar:
			if vc.F.Clo != nil {
				for i, fv := range vc.F.Fn.FreeVars {
					if fv == x && i < len(vc.F.Clo.Bindings) {
						return find(VC{vc.F.CloF, vc.F.Clo.Bindings[i]}, depth+1)
					}
				}
			}
		}
		return nil, nil
	}
	ia, f := find(vc, 0)
	if ia == nil {
		return nil, nil, VC{}
	}
	return ia, f, VC{f, ia.X}
}

// loopsAgain: from block b the loop can go around under the scenario.
func (a *AI) loopsAgain(F *Frame, l *loop, b *ssa.BasicBlock) bool {
	fi := a.feasible(F)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if fi.dead[[2]int{x.Index, s.Index}] || !l.body[s] {
				continue
			}
			if s == l.head {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// sortCalls recognises a stable sort; arg: the list, less: the comparison function.
func sortCall(P *Prog, c *ssa.CallCommon) (list ssa.Value, less ssa.Value, stable bool, ok bool) {
	switch calleeName(c) {
	case "sort.SliceStable":
		return c.Args[0], c.Args[1], true, true
	case "sort.Slice":
		return c.Args[0], c.Args[1], false, true
	case "slices.SortStableFunc":
		return c.Args[0], c.Args[1], true, true
	case "slices.SortFunc":
		return c.Args[0], c.Args[1], false, true
	case "sort.Stable":
		return c.Args[0], nil, true, true
	case "sort.Sort":
		return c.Args[0], nil, false, true
	}
	return nil, nil, false, false
}

// sortedList decides whether the list comes from a registered list, complete and sorted.
func (a *AI) sortedList(root *Frame, lst VC, useF *Frame, use ssa.Instruction, h *handlerKinds) (bool, string) {
	os := a.values(lst)
	if len(os) == 0 {
		return false, "the list is not known"
	}
	for _, o := range os {
		if ok, why := a.sortedOrigin(root, o, useF, use); !ok {
			return false, why
		}
	}
	return true, "a complete copy of the registered list, sorted stably by ascending priority"
}

// isRegList: the value is the list that a register method appends to.
func (a *AI) isRegList(vc VC) bool {
	for _, o := range a.values(vc) {
		if lk, ok := o.V.(*ssa.Lookup); ok && o.Path == "" {
			if !a.isRegList(VC{o.F, lk.X}) {
				return false
			}
			continue
		}
		if ex, ok := o.V.(*ssa.Extract); ok && o.Path == "" && ex.Index == 0 {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok && a.isRegList(VC{o.F, lk.X}) {
				continue
			}
		}
		if !isConvField(o) {
			return false
		}
	}
	return len(a.values(vc)) > 0
}

// isConvField: the origin is a field of the converter (possibly reached through other structs).
func isConvField(o Org) bool {
	t := o.V.Type()
	parts := strings.Split(strings.ReplaceAll(o.Path, "*", ""), ".")
	if len(parts) < 2 {
		return false
	}
	for i, p := range parts[1:] {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		last := i == len(parts)-2
		if last && !isConverterType(t) {
			return false
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		found := false
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == p {
				t, found = st.Field(j).Type(), true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (a *AI) sortedOrigin(root *Frame, o Org, useF *Frame, use ssa.Instruction) (bool, string) {
	complete := ""
	if o.Path == "" {
		switch x := o.V.(type) {
		case *ssa.MakeSlice:
			// filled by copy
			lenOK := false
			for _, lo := range a.values(VC{o.F, x.Len}) {
				c, ok := lo.V.(*ssa.Call)
				lenOK = ok && calleeName(&c.Call) == "builtin.len" && a.isRegList(VC{lo.F, c.Call.Args[0]})
			}
			isZero := false
			if c, ok := x.Len.(*ssa.Const); ok && c.Int64() == 0 {
				isZero = true
			}
			var copied *ssa.Call
			var copiedF *Frame
			a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
				c, ok := site.(*ssa.Call)
				if !ok {
					return
				}
				n := calleeName(&c.Call)
				if n == "builtin.copy" && a.hasOrigin(VC{F, c.Call.Args[0]}, o) && a.isRegList(VC{F, c.Call.Args[1]}) {
					copied, copiedF = c, F
				}
			})
			_ = copiedF
			if copied == nil || !lenOK || isZero {
				return false, "the list is not a complete copy of the registered list"
			}
			complete = "copy"
		case *ssa.Call:
			n := calleeName(&x.Call)
			switch n {
			case "slices.Clone":
				if a.isRegList(VC{o.F, x.Call.Args[0]}) {
					complete = "clone"
				}
			case "builtin.append":
				base := x.Call.Args[0]
				empty := isZeroConst(base)
				if ms, ok := base.(*ssa.MakeSlice); ok {
					if c, ok := ms.Len.(*ssa.Const); ok && c.Int64() == 0 {
						empty = true
					}
				}
				if sl, ok := base.(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
							empty = true
						}
						if c, ok := sl.High.(*ssa.Const); ok && c.Int64() == 0 {
							empty = true
						}
					}
				}
				if empty && a.isRegList(VC{o.F, x.Call.Args[1]}) {
					complete = "append"
				}
			}
		}
	}
	if complete == "" {
		if a.isRegList(o.VC) || isConvField(o) {
			return false, "the registered list is used without sorting a copy of it"
		}
		return false, "the list is not a complete copy of the registered list"
	}
	// sorted before it is used
	var why string
	found := false
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		list, less, stable, ok := sortCall(a.P, site.Common())
		if !ok || !a.hasOrigin(VC{F, list}, o) {
			return
		}
		if !stable {
			why = "the list is sorted with an unstable sort: handlers of equal priority do not keep the order of their registration"
			return
		}
		if asc, w := a.ascending(F, list, less); !asc {
			why = w
			return
		}
		FF, i1, i2 := lift(F, site.(ssa.Instruction), useF, use)
		if FF == nil || !(instrBefore(i1, i2)) {
			// the use may be in the same call chain (a getter that sorts and returns)
			if FF == nil {
				why = "the list is not sorted before it is used"
				return
			}
			if i1 != i2 {
				why = "the list is not sorted before it is used on every path"
				return
			}
		}
		// on every path of the functions below the common frame
		if !a.alwaysRuns(F, site.(ssa.Instruction), FF) {
			why = "the list is not sorted on every path"
			return
		}
		found = true
	})
	if !found {
		return false, orElse(why, "the list is not sorted by priority")
	}
	return true, ""
}

// alwaysRuns: the instruction runs whenever the functions between G and its frame are entered.
func (a *AI) alwaysRuns(F *Frame, in ssa.Instruction, G *Frame) bool {
	for F != G && F != nil {
		fi := a.feasible(F)
		// every return is dominated
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !instrBefore(in, ret) {
				// a return of something else (e.g. nothing is registered) is fine if it comes before
				if len(ret.Results) > 0 && allConst(ret.Results) {
					continue
				}
				return false
			}
		}
		in = F.Site
		F = F.Up
	}
	return true
}

func allConst(vs []ssa.Value) bool {
	for _, v := range vs {
		if _, ok := v.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

func (a *AI) hasOrigin(vc VC, o Org) bool {
	for _, x := range a.values(vc) {
		if x == o {
			return true
		}
	}
	return false
}

// ascending decides whether a comparison function sorts by ascending priority, with ties left alone.
func (a *AI) ascending(F *Frame, list, less ssa.Value) (bool, string) {
	var fn *ssa.Function
	if less != nil {
		for _, o := range a.values(VC{F, less}) {
			switch x := o.V.(type) {
			case *ssa.Function:
				fn = x
			case *ssa.MakeClosure:
				fn = x.Fn.(*ssa.Function)
			}
		}
	} else {
		// sort.Interface
		v := list
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		ms := a.P.SSA.MethodSets.MethodSet(v.Type())
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Less" {
				fn = a.P.SSA.MethodValue(ms.At(i))
			}
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return false, "the order of the list is not known"
	}
	k := len(fn.Params)
	p0, p1 := fn.Params[k-2], fn.Params[k-1]
	which := func(v ssa.Value) int {
		return prioOperand(v, p0, p1, 0)
	}
	if len(fn.Blocks) == 1 {
		if ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			switch x := ret.Results[0].(type) {
			case *ssa.BinOp:
				l, rr := which(x.X), which(x.Y)
				switch {
				case x.Op == token.LSS && l == 0 && rr == 1, x.Op == token.GTR && l == 1 && rr == 0, x.Op == token.SUB && l == 0 && rr == 1:
					return true, ""
				case (x.Op == token.LEQ || x.Op == token.GEQ) && l >= 0 && rr >= 0:
					return false, "the comparison is not strict: handlers of equal priority do not keep their order"
				case l >= 0 && rr >= 0:
					return false, "the list is sorted by descending priority"
				}
			case *ssa.Call:
				if calleeName(&x.Call) == "cmp.Compare" {
					l, rr := which(x.Call.Args[0]), which(x.Call.Args[1])
					if l == 0 && rr == 1 {
						return true, ""
					}
					if l == 1 && rr == 0 {
						return false, "the list is sorted by descending priority"
					}
				}
				if calleeName(&x.Call) == "cmp.Less" {
					l, rr := which(x.Call.Args[0]), which(x.Call.Args[1])
					return l == 0 && rr == 1, "the list is not sorted by ascending priority"
				}
			}
		}
	} else {
		// if a < b return true/-1 ...: decided by cases
		if ok, dec := compareByCases(fn, which); dec {
			return ok, "the list is not sorted by ascending priority"
		}
	}
	return false, "the comparison is not by priority"
}

// compareByCases evaluates a comparison function for p0<p1, p0==p1, p0>p1.
func compareByCases(fn *ssa.Function, which func(v ssa.Value) int) (ok, decided bool) {
	isBool := false
	if b, k := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); k && b.Kind() == types.Bool {
		isBool = true
	}
	eval := func(c int) (int64, bool, bool) { // c: -1, 0, 1; result int/bool
		b := fn.Blocks[0]
		var prev *ssa.BasicBlock
		boolOf := func(v ssa.Value) (bool, bool) {
			for {
				phi, ok := v.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range phi.Block().Preds {
					if p == prev {
						v = phi.Edges[i]
					}
				}
				if v == ssa.Value(phi) {
					return false, false
				}
			}
			switch x := v.(type) {
			case *ssa.Const:
				if x.Value.Kind() == constant.Bool {
					return constant.BoolVal(x.Value), true
				}
			case *ssa.BinOp:
				l, r := which(x.X), which(x.Y)
				if l < 0 || r < 0 || l == r {
					return false, false
				}
				d := c
				if l == 1 {
					d = -c
				}
				switch x.Op {
				case token.LSS:
					return d < 0, true
				case token.GTR:
					return d > 0, true
				case token.LEQ:
					return d <= 0, true
				case token.GEQ:
					return d >= 0, true
				case token.EQL:
					return d == 0, true
				case token.NEQ:
					return d != 0, true
				}
			}
			return false, false
		}
		for n := 0; n < 50; n++ {
			switch t := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				v, ok := boolOf(t.Cond)
				if !ok {
					return 0, false, false
				}
				prev = b
				if v {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
			case *ssa.Jump:
				prev = b
				b = b.Succs[0]
			case *ssa.Return:
				if isBool {
					v, ok := boolOf(t.Results[0])
					return 0, v, ok
				}
				k, ok := t.Results[0].(*ssa.Const)
				if !ok {
					return 0, false, false
				}
				return k.Int64(), false, true
			default:
				return 0, false, false
			}
		}
		return 0, false, false
	}
	i1, b1, k1 := eval(-1)
	i2, b2, k2 := eval(0)
	i3, b3, k3 := eval(1)
	if !k1 || !k2 || !k3 {
		return false, false
	}
	if isBool {
		return b1 && !b2 && !b3, true
	}
	return i1 < 0 && i2 == 0 && i3 > 0, true
}

// prioOperand: v is the priority of the element that parameter 0 or 1 stands for.
func prioOperand(v ssa.Value, p0, p1 *ssa.Parameter, depth int) int {
	if depth > 10 {
		return -1
	}
	isP := func(w ssa.Value) int {
		switch w {
		case ssa.Value(p0):
			return 0
		case ssa.Value(p1):
			return 1
		}
		return -1
	}
	var elem func(w ssa.Value, d int) int
	elem = func(w ssa.Value, d int) int {
		if d > 8 {
			return -1
		}
		if k := isP(w); k >= 0 {
			return k
		}
		switch x := w.(type) {
		case *ssa.IndexAddr:
			return isP(x.Index)
		case *ssa.Index:
			return isP(x.Index)
		case *ssa.UnOp:
			return elem(x.X, d+1)
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == w {
					return elem(st.Val, d+1)
				}
			}
		}
		return -1
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fieldName(fa.X.Type(), fa.Field) == ".Priority" {
			return elem(fa.X, 0)
		}
	case *ssa.Field:
		if fieldName(x.X.Type(), x.Field) == ".Priority" {
			return elem(x.X, 0)
		}
	}
	return -1
}

// reachesWriter: the value (or something made of it) is written to a writer.
func (a *AI) reachesWriter(root *Frame, v ssa.Value, F *Frame) bool {
	found := false
	a.walkCalls(root, func(G *Frame, site ssa.CallInstruction) {
		if !strings.HasPrefix(calleeName(site.Common()), "("+convPath+".Writer).") {
			return
		}
		for _, g := range site.Common().Args {
			for _, o := range a.values(VC{G, g}) {
				if o.V == v {
					found = true
				}
			}
		}
	})
	return found
}

// checkTagType: the tag type that is used is the first one of a sorted copy.
func checkTagType(P *Prog, r *Result) {
	get := P.Method("converter", "converterContext", "GetTagType")
	if get == nil {
		r.Bad("tag-type", "GetTagType", "", "the method was not found")
		return
	}
	a := newAI(P)
	F := a.Root(get)
	n := 0
	for _, v := range a.returns(F, 0) {
		for _, o := range a.values(v) {
			if _, ok := o.V.(*ssa.Const); ok && o.Path == "" {
				continue // default of the element
			}
			n++
			key := "tag type returned by " + fkey(o.F.Fn)
			if a.minScan(o.F) {
				r.OK("tag-type", key, P.pos(get.Pos()), "the first one with the lowest priority in a scan of the registered list")
				continue
			}
			ia, IF, lst := a.elementOrg(o)
			if ia == nil {
				r.Bad("tag-type", key, P.pos(get.Pos()), "the returned tag type is not an element of the registered list")
				continue
			}
			if c, ok := ia.Index.(*ssa.Const); !ok || c.Int64() != 0 {
				r.Bad("tag-type", key, P.ipos(ia), "the returned tag type is not the first one of the list")
				continue
			}
			ok, why := a.sortedList(F, lst, IF, ia, nil)
			r.Check(ok, "tag-type", key, P.ipos(ia), "%s", orElse(why, "first of the sorted list"))
		}
	}
	r.Check(n > 0, "tag-type", "registered types", P.pos(get.Pos()), "a registered tag type is returned")
}

// minScan: the function goes through a registered list and keeps the first element with the lowest priority.
func (a *AI) minScan(F *Frame) bool {
	elem := func(v ssa.Value) *ssa.IndexAddr {
		prio := false
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == ".Priority" {
				prio = true
			}
		}
		if f, ok := v.(*ssa.Field); ok && fieldName(f.X.Type(), f.Field) == ".Priority" {
			prio = true
		}
		if !prio {
			return nil
		}
		// all stores to a variable: the element of the innermost loop wins
		var best *ssa.IndexAddr
		var find func(v ssa.Value, d int)
		find = func(v ssa.Value, d int) {
			if d > 8 {
				return
			}
			switch x := v.(type) {
			case *ssa.IndexAddr:
				if best == nil {
					best = x
				} else if best != x {
					best = &ssa.IndexAddr{}
				}
			case *ssa.UnOp:
				find(x.X, d+1)
			case *ssa.FieldAddr:
				find(x.X, d+1)
			case *ssa.Field:
				find(x.X, d+1)
			case *ssa.Alloc:
				for _, ref := range *x.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
						find(st.Val, d+1)
					}
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					find(e, d+1)
				}
			}
		}
		find(v, 0)
		return best
	}
	n, good := 0, false
	instrs(F.Fn, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		x, y := b.X, b.Y
		ex, ey := elem(x), elem(y)
		if ex == nil || ey == nil {
			return
		}
		n++
		switch b.Op {
		case token.GTR:
			x, y, ex, ey = y, x, ey, ex
		case token.LSS:
		default:
			return
		}
		// the element of the loop is on the smaller side, what was kept on the other
		if ex.X == nil || ex.Index == nil {
			return
		}
		if ey == ex {
			return
		}
		l := innerLoop(F.Fn, ex.Block())
		if l == nil {
			return
		}
		lst := ex.X
		from := int64(0)
		if s, ok := lst.(*ssa.Slice); ok && s.High == nil {
			if c, ok := s.Low.(*ssa.Const); ok {
				from = c.Int64()
			}
			lst = s.X
		}
		full, _, _ := a.fullIteration(F, ex)
		if !full || from > 1 || !a.isRegList(VC{F, lst}) {
			return
		}
		// the update is done when the comparison holds
		for _, r := range *b.Referrers() {
			if ifi, ok := r.(*ssa.If); ok && ifi.Cond == ssa.Value(b) {
				good = true
			}
		}
		_, _ = x, y
	})
	return n == 1 && good
}

// elementOrg: an origin that is an element of a list.
func (a *AI) elementOrg(o Org) (*ssa.IndexAddr, *Frame, VC) {
	v := o.V
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Field:
			v = x.X
			continue
		case *ssa.IndexAddr:
			return x, o.F, VC{o.F, x.X}
		}
		break
	}
	if strings.HasPrefix(o.Path, "[]") || strings.Contains(o.Path, "[]") {
		// the root is the list: find the access in the frames
		var res *ssa.IndexAddr
		var rf *Frame
		top := o.F
		for top.Up != nil {
			top = top.Up
		}
		a.eachFrame(top, func(G *Frame) {
			instrs(G.Fn, func(in ssa.Instruction) {
				if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == o.V && G == o.F {
					res, rf = ia, G
				}
			})
		})
		if res != nil {
			return res, rf, VC{rf, res.X}
		}
	}
	return nil, nil, VC{}
}

// checkRegistration: every register method appends what it is given.
func checkRegistration(P *Prog, r *Result) {
	type reg struct {
		method string
		val    int // parameter with the value
		prio   int
	}
	for _, g := range []reg{{"PreRenderer", 1, 2}, {"Renderer", 1, 2}, {"PostRenderer", 1, 2}, {"TextTransformer", 1, 2}, {"UnEscaper", 1, 2}, {"TagType", 2, 3}} {
		f := P.Method("converter", "register", g.method)
		if f == nil {
			r.Bad("registration", g.method, "", "the method was not found")
			continue
		}
		a := newAI(P)
		F := a.Root(f)
		n := 0
		var bad string
		seenIns := map[ssa.Instruction]bool{}
		check := func(F *Frame, in ssa.Instruction, val ssa.Value) {
			if seenIns[in] {
				return
			}
			seenIns[in] = true
			n++
			// append(list, element)
			for _, o := range a.values(VC{F, val}) {
				c, ok := o.V.(*ssa.Call)
				if !ok || calleeName(&c.Call) != "builtin.append" {
					bad = "the list is replaced by something other than the list with one more element"
					return
				}
				if !a.isRegList(VC{o.F, c.Call.Args[0]}) {
					bad = "the new element is not added at the end of the registered list"
					return
				}
				el := a.singleElem(VC{o.F, c.Call.Args[1]})
				if el == nil {
					bad = "more than the given element is added"
					return
				}
				if !a.isParam(a.fieldOf(*el, ".Value"), F0(F), f.Params[g.val]) {
					bad = "the element that is added is not the one that was given"
					return
				}
				if !a.isParam(a.fieldOf(*el, ".Priority"), F0(F), f.Params[g.prio]) {
					bad = "the priority is not the one that was given"
					return
				}
			}
			// on every path
			if !a.alwaysRuns(F, in, nil) {
				bad = "the handler is not added on every path"
			}
		}
		a.eachFrame(F, func(G *Frame) {
			instrs(G.Fn, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Store:
					if _, ok := x.Val.Type().Underlying().(*types.Slice); ok {
						for _, ad := range a.addrs(VC{G, x.Addr}) {
							if isConverterType(ad.Root.V.Type()) || strings.Contains(ad.Path, ".") {
								if _, isAl := ad.Root.V.(*ssa.Alloc); !isAl {
									check(G, in, x.Val)
								}
							}
						}
					}
				case *ssa.MapUpdate:
					if _, ok := x.Value.Type().Underlying().(*types.Slice); ok {
						check(G, in, x.Value)
						for _, o := range a.values(VC{G, x.Key}) {
							if o.V != ssa.Value(f.Params[1]) {
								bad = "the tag type is registered for another element"
							}
						}
					}
				}
			})
		})
		if n == 0 {
			bad = "nothing is added to a list"
		}
		r.Check(bad == "", "registration", g.method, P.pos(f.Pos()), "%s", orElse(bad, "appends the given handler with the given priority"))
	}
}

func F0(F *Frame) *Frame {
	for F.Up != nil {
		F = F.Up
	}
	return F
}

func (a *AI) isParam(os []Org, F *Frame, p *ssa.Parameter) bool {
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if o.V != ssa.Value(p) || o.Path != "" {
			return false
		}
	}
	return true
}

// singleElem: a slice literal with exactly one element (a variadic argument).
func (a *AI) singleElem(vc VC) *VC {
	s, ok := vc.V.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() != 1 {
		return nil
	}
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					return &VC{vc.F, st.Val}
				}
			}
		}
	}
	return nil
}

// ---- C24 ----

func checkC24(P *Prog, r *Result) {
	r.Rule("detached", "before any handler runs or anything is rendered, the links of the document to its parent and siblings are cut", 3)
	r.Rule("restored", "on every way out the links have the values they had before", 3)
	h := kinds(P)
	conv := P.Method("converter", "Converter", "ConvertNode")
	if conv == nil {
		r.Bad("detached", "ConvertNode", "", "the conversion function was not found")
		return
	}
	a := newAI(P)
	F := a.Root(conv)
	doc := paramOf(conv, isHTMLNode)
	for _, field := range []string{".Parent", ".PrevSibling", ".NextSibling"} {
		problems := map[string]string{}
		n := 0
		seq := &Seq{a: a}
		// states: I (initial), C (cut), R (restored), ?: changed
		seq.Step = func(G *Frame, in ssa.Instruction, q string) (string, bool) {
			switch x := in.(type) {
			case *ssa.Store:
				ads := a.addrs(VC{G, x.Addr})
				hit := len(ads) > 0
				for _, ad := range ads {
					if !(ad.Path == field && ad.Root.V == ssa.Value(doc)) {
						hit = false
					}
				}
				if !hit {
					return q, true
				}
				if c, ok := x.Val.(*ssa.Const); ok && c.IsNil() {
					return "C", true
				}
				vs := a.values(VC{G, x.Val})
				good := len(vs) > 0
				for _, o := range vs {
					// loaded from the same field while it still had its initial value
					if !(o.V == ssa.Value(doc) && strings.TrimPrefix(o.Path, "*") == field) {
						good = false
					}
				}
				if good && a.savedBefore(VC{G, x.Val}, field, doc) {
					return "R", true
				}
				return "?", true
			case ssa.CallInstruction:
				k := h.kind(x)
				if k != "" || writesOutput(x) {
					n++
					if q != "C" {
						problems[P.ipos(in)] = "a handler runs while the document is still linked to its surroundings by its " + field[1:] + " field"
					}
					return q, k != ""
				}
				return q, false
			}
			return q, true
		}
		ends := seq.Run(F, "I")
		for p, w := range problems {
			r.Bad("detached", field[1:], p, "%s", w)
		}
		if len(problems) == 0 {
			r.Check(n > 0, "detached", field[1:], P.pos(conv.Pos()), "%d handler and render calls, all while detached", n)
		}
		good := len(ends) > 0
		for _, q := range ends {
			if q != "I" && q != "R" {
				good = false
			}
		}
		r.Check(good, "restored", field[1:], P.pos(conv.Pos()), "%s (states at the end: %v)", ifelse(good, "restored", "the field of the document is not restored on every way out"), ends)
	}
}

// savedBefore: the saved value was loaded before the field is set to nil.
func (a *AI) savedBefore(vc VC, field string, doc *ssa.Parameter) bool {
	// find the load
	var ld *ssa.UnOp
	var find func(v VC, d int)
	find = func(v VC, d int) {
		if d > 6 {
			return
		}
		switch x := v.V.(type) {
		case *ssa.UnOp:
			if w, u := nodeField(x, field[1:]); w != nil {
				ld = u
				return
			}
			for _, ad := range a.addrs(VC{v.F, x.X}) {
				if _, ok := ad.Root.V.(*ssa.Alloc); ok {
					for _, st := range a.storesTo(ad.Root) {
						find(st.Val, d+1)
					}
				}
			}
		case *ssa.FreeVar:
			if v.F.Clo != nil {
				for i, fv := range v.F.Fn.FreeVars {
					if fv == x {
						find(VC{v.F.CloF, v.F.Clo.Bindings[i]}, d+1)
					}
				}
			}
		case *ssa.Parameter:
			for _, g := range a.paramArgs(v.F, x) {
				find(g, d+1)
			}
		case *ssa.Alloc:
			for _, st := range a.storesTo(v) {
				find(st.Val, d+1)
			}
		case *ssa.Field:
			find(VC{v.F, x.X}, d+1)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				frs, _ := a.calleeFrames(v.F, c)
				for _, fr := range frs {
					for _, rv := range a.returns(fr, x.Index) {
						find(rv, d+1)
					}
				}
			}
		}
	}
	find(vc, 0)
	if ld == nil {
		return false
	}
	// no store of nil to the field can run before the load in its function
	ok := true
	instrs(ld.Parent(), func(in ssa.Instruction) {
		st, is := in.(*ssa.Store)
		if !is {
			return
		}
		fa, is := st.Addr.(*ssa.FieldAddr)
		if !is || !isNamed(fa.X.Type(), htmlPath, "Node") || fieldName(fa.X.Type(), fa.Field) != field {
			return
		}
		if reachesInstr(st, ld) {
			ok = false
		}
	})
	return ok
}

func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// ---- C28 ----

func checkC28(P *Prog, r *Result) {
	r.Rule("same-conversion", "every entry point ends in the conversion of one node and returns its result and error", 5)
	r.Rule("same-parser", "text and readers are parsed by the same parser, from the complete input", 4)
	r.Rule("options", "all options of the caller are passed on", 5)
	r.Rule("same-plugins", "the package-level functions use the same plugins and options", 3)
	node := P.Method("converter", "Converter", "ConvertNode")
	if node == nil {
		r.Bad("same-conversion", "ConvertNode", "", "the conversion function was not found")
		return
	}
	sets := map[string][]string{}
	parsers := map[string]bool{}
	for _, f := range P.ConvertRoots() {
		if f == node {
			continue
		}
		a := newAI(P)
		a.Stop = map[*ssa.Function]bool{node: true}
		F := a.Root(f)
		key := fkey(f)
		// result
		var terms []VC
		termOf := func(o Org, idx int) bool {
			switch x := o.V.(type) {
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok && o.Path == "" && x.Index == idx && c.Call.StaticCallee() == node {
					terms = append(terms, VC{o.F, c})
					return true
				}
			}
			return false
		}
		bad := ""
		nres := 0
		for _, v := range a.returns(F, 0) {
			for _, o := range a.values(v) {
				if termOf(o, 0) {
					nres++
					continue
				}
				if isZeroConst(o.V) && o.Path == "" {
					continue
				}
				bad = "the result is not the result of the conversion as it is (" + descr(o) + ")"
			}
		}
		nerr := 0
		for _, v := range a.returns(F, 1) {
			for _, o := range a.values(v) {
				if termOf(o, 1) {
					nerr++
					continue
				}
				if isZeroConst(o.V) && o.Path == "" {
					continue
				}
				if ex, ok := o.V.(*ssa.Extract); ok {
					if c, ok := ex.Tuple.(*ssa.Call); ok && (strings.HasPrefix(calleeName(&c.Call), htmlPath+".Parse") || calleeName(&c.Call) == "io.ReadAll") {
						continue
					}
				}
				if ex, ok := o.V.(*ssa.Call); ok && calleeName(&ex.Call) == "fmt.Errorf" {
					continue
				}
				bad = "the error is not the error of the conversion (" + descr(o) + ")"
			}
		}
		if bad == "" && (nres == 0 || nerr == 0) {
			bad = "the result of the conversion of the node is not returned"
		}
		// a result that is empty while the error is nil
		for _, G := range a.framesBelow(F) {
			if G.Fn.Signature.Results().Len() != 2 || errResultOf(G.Fn) != 1 {
				continue
			}
			for _, b := range G.Fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 2 && (b != G.Fn.Recover || usesRecover(G.Fn)) && isZeroConst(resolveResult(ret, 0)) && isZeroConst(resolveResult(ret, 1)) && inModule(fnPkgPath(G.Fn)) && (fnPkgPath(G.Fn) == modPath || fnPkgPath(G.Fn) == convPath) {
					bad = "nothing is returned without an error at " + P.ipos(ret)
				}
			}
		}
		r.Check(bad == "", "same-conversion", key, P.pos(f.Pos()), "%s", orElse(bad, "result and error of the conversion"))
		// calls
		optParam := f.Params[len(f.Params)-1]
		recv := 0
		if f.Signature.Recv() != nil {
			recv = 1
		}
		input := f.Params[recv]
		ncalls := 0
		a.walkCalls(F, func(G *Frame, site ssa.CallInstruction) {
			c := site.Common()
			if c.StaticCallee() == node {
				ncalls++
				args := c.Args
				good := len(args) == 3
				for _, o := range a.values(VC{G, args[2]}) {
					if o.V != ssa.Value(optParam) || o.Path != "" {
						good = false
					}
				}
				r.Check(good, "options", key, P.ipos(site.(ssa.Instruction)), "%s", ifelse(good, "the options are passed on", "the options of the caller are not passed on as they are"))
				// document
				for _, o := range a.values(VC{G, args[1]}) {
					if o.V == ssa.Value(input) && o.Path == "" {
						continue
					}
					ex, ok := o.V.(*ssa.Extract)
					var pc *ssa.Call
					if ok {
						pc, _ = ex.Tuple.(*ssa.Call)
					}
					if pc == nil || !strings.HasPrefix(calleeName(&pc.Call), htmlPath+".Parse") {
						r.Bad("same-parser", key, P.ipos(site.(ssa.Instruction)), "the converted node does not come from the parser (%s)", descr(o))
						continue
					}
					nopt := 0
					if len(pc.Call.Args) > 1 && !isZeroConst(pc.Call.Args[1]) {
						nopt = 1
					}
					parsers[fmt.Sprintf("%s/%d", calleeName(&pc.Call), nopt)] = true
					good := true
					why := "the complete input is parsed"
					for _, s := range a.values(VC{o.F, pc.Call.Args[0]}) {
						if s.V == ssa.Value(input) && s.Path == "" {
							continue
						}
						if rc, ok := s.V.(*ssa.Call); ok {
							n := calleeName(&rc.Call)
							if n == "strings.NewReader" || n == "bytes.NewReader" || n == "bytes.NewBufferString" || n == "bytes.NewBuffer" || n == "bufio.NewReader" {
								fine := true
								for _, t := range a.values(VC{s.F, rc.Call.Args[0]}) {
									if t.V != ssa.Value(input) || t.Path != "" {
										fine = false
									}
								}
								if fine {
									continue
								}
							}
						}
						good = false
						why = "what is parsed is not the complete input (" + descr(s) + ")"
					}
					r.Check(good, "same-parser", key, P.ipos(pc), "%s", why)
				}
			}
			if p := fnPkgPath(G.Fn); p == modPath {
				callee := c.StaticCallee()
				if callee != nil && strings.HasPrefix(fnPkgPath(callee), modPath+"/plugin/") {
					sets[key] = append(sets[key], fnName(callee)+argText(a, G, c))
				}
				if callee != nil && fnPkgPath(callee) == convPath && callee.Name() != "NewConverter" && callee.Name() != "WithPlugins" && callee.Signature.Recv() == nil {
					sets[key] = append(sets[key], fnName(callee)+argText(a, G, c))
				}
				if callee != nil && recvNamed(callee, "register") {
					sets[key] = append(sets[key], fnName(callee)+argText(a, G, c))
				}
			}
		})
		r.Check(ncalls == 1, "same-conversion", key+" calls", P.pos(f.Pos()), "%d conversions of the node", ncalls)
	}
	r.Check(len(parsers) == 1, "same-parser", "all entry points", "", "parsers in use: %v", keysOf(parsers))
	var ref string
	for _, n := range []string{"ConvertString", "ConvertReader", "ConvertNode"} {
		f := P.Func("", n)
		if f == nil {
			r.Bad("same-plugins", n, "", "the package-level function was not found")
			continue
		}
		s := sets[fkey(f)]
		sort.Strings(s)
		x := strings.Join(s, ", ")
		if ref == "" {
			ref = x
		}
		has := strings.Contains(x, "plugin/base.") && strings.Contains(x, "plugin/commonmark.")
		r.Check(x == ref && has, "same-plugins", n, P.pos(f.Pos()), "plugins and options: %s", shortName(x))
	}
}

func errResultOf(f *ssa.Function) int {
	res := f.Signature.Results()
	if n := res.Len(); n > 0 && isErrType(res.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func (a *AI) framesBelow(F *Frame) []*Frame {
	var out []*Frame
	seen := map[*Frame]bool{}
	a.walkCalls(F, func(G *Frame, _ ssa.CallInstruction) {
		if !seen[G] {
			seen[G] = true
			out = append(out, G)
		}
	})
	return out
}

func argText(a *AI, F *Frame, c *ssa.CallCommon) string {
	var out []string
	for _, g := range c.Args {
		if isZeroConst(g) {
			continue
		}
		if isStrBytes(g.Type()) {
			out = append(out, fmt.Sprint(a.Eval(VC{F, g})))
			continue
		}
		if s, ok := g.Type().Underlying().(*types.Slice); ok {
			if sl, ok := g.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						out = append(out, fmt.Sprintf("%d elements", at.Len()))
						continue
					}
				}
			}
			_ = s
			out = append(out, "list")
			continue
		}
		if c, ok := g.(*ssa.Const); ok {
			out = append(out, c.String())
		}
	}
	return "(" + strings.Join(out, "; ") + ")"
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func descr(o Org) string {
	s := ""
	switch x := o.V.(type) {
	case *ssa.Call:
		s = "result of " + shortName(calleeName(&x.Call))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s = "result of " + shortName(calleeName(&c.Call))
		}
	case *ssa.Const:
		s = "constant " + x.String()
	case *ssa.Parameter:
		s = "parameter " + x.Name()
	}
	if s == "" {
		s = o.V.String()
	}
	return s + o.Path
}
