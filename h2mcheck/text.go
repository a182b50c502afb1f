package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The text of the document on its way to the output: C13 (angle brackets), C14 (placeholders),
// C39 (backslashes).

func init() {
	register("C13", checkC13)
	register("C14", checkC14)
	register("C39", checkC39)
}

// elements: names for which the renderers are looked at one by one ("" is an unknown element).
var elements = append([]string{"h1", "h2", "h3", "h4", "h5", "h6", "strong", "b", "em", "i", "del", "s", "strike", "code", "var", "samp", "kbd", "tt", "pre", "hr", "br", "blockquote", "ul", "ol", "li", "a", "img", "table", "thead", "tbody", "tr", "td", "th", "caption", "#comment"}, plainElements...)

var codeElements = map[string]bool{"pre": true, "code": true, "var": true, "samp": true, "kbd": true, "tt": true}

const bel = "\a"

// A piece is a part of a text that is written.
type piece struct {
	vc VC
	v  AVal
	s  string // constant text, if vc is empty
}

// pieceMachine collects everything that is written.
type pieceMachine struct {
	got  []piece
	seen map[string]bool
}

func (m *pieceMachine) Start() string { return "0" }
func (m *pieceMachine) add(p piece) {
	if m.seen == nil {
		m.seen = map[string]bool{}
	}
	k := fmt.Sprintf("%p|%p|%s|%s|%v", p.vc.F, p.vc.V, p.s, p.v.labelList(), p.v.B)
	if !m.seen[k] {
		m.seen[k] = true
		m.got = append(m.got, p)
	}
}
func (m *pieceMachine) Text(e *Emit, q, s string) string {
	m.add(piece{s: s, v: strConst(s)})
	return q
}
func (m *pieceMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	m.add(piece{vc: vc, v: v})
	return q
}
func (m *pieceMachine) Node(e *Emit, q string, k tkKind, vc VC) string                 { return q }
func (m *pieceMachine) Branch(e *Emit, q string, F *Frame, c ssa.Value, t bool) string { return q }

// textHook: the text of the document and of attributes has only these bytes.
func textHook(data, attr bset) func(a *AI, o Org) (AVal, bool) {
	return func(a *AI, o Org) (AVal, bool) {
		if strings.HasSuffix(o.Path, ".Data") && isNamed(o.V.Type(), htmlPath, "Node") && !strings.HasPrefix(o.Path, "zero") {
			return strBytes(data, lset("nodedata")), true
		}
		if o.Path == "" {
			var c *ssa.Call
			switch x := o.V.(type) {
			case *ssa.Call:
				c = x
			case *ssa.Extract:
				if t, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
					c = t
				}
			}
			if c != nil {
				switch calleeName(c.Common()) {
				case domPath + ".GetAttributeOr", domPath + ".GetAttribute":
					if isStrBytes(o.V.Type()) {
						l := "attr:?"
						if ss, ok := a.ev(VC{o.F, c.Call.Args[1]}).strConsts(); ok && len(ss) == 1 {
							l = "attr:" + ss[0]
						}
						v := strBytes(attr, lset(l))
						if strings.HasSuffix(calleeName(c.Common()), "Or") {
							v = joinV(v, a.ev(VC{o.F, c.Call.Args[2]}))
						}
						return v, true
					}
				case domPath + ".CollectText":
					return strBytes(data, lset("nodedata")), true
				}
			}
		}
		return AVal{}, false
	}
}

var tagRE = regexp.MustCompile("<[^<>]*>")

// withoutTags takes the tags and comments that the program writes itself out of its constants (and
// in a quote its prefix).
func withoutTags(quote bool) func(vc VC, v AVal) AVal {
	return func(vc VC, v AVal) AVal {
		c, ok := vc.V.(*ssa.Const)
		if !ok || c.Value == nil {
			return v
		}
		switch c.Value.Kind() {
		case constant.String:
			s := constant.StringVal(c.Value)
			t := tagRE.ReplaceAllString(s, "")
			if quote {
				t = strings.ReplaceAll(t, ">", "")
			}
			if t != s {
				return strConst(t)
			}
		case constant.Int:
			if quote && isCharType(c.Type()) {
				if i, ok := constant.Int64Val(c.Value); ok && i == '>' {
					return intConst(' ')
				}
			}
		}
		return v
	}
}

// handlersOf: the registered handlers of a kind, each with an analysis of its own.
func handlersOf(P *Prog, kind string, mk func(a *AI)) []handlerCaseT {
	n := len(registrations(newAI(P), kind))
	var out []handlerCaseT
	for i := 0; i < n; i++ {
		a := newAI(P)
		mk(a)
		rs := registrations(a, kind)
		if i >= len(rs) || rs[i].Fn == nil {
			continue
		}
		out = append(out, handlerCaseT{a, rs[i]})
	}
	return out
}

type handlerCaseT struct {
	a *AI
	handlerReg
}

// lastText: the parameter of a handler that is the text.
func textParam(f *ssa.Function) *ssa.Parameter {
	return paramOf(f, isStrBytes)
}

// result is what a handler returns for a text with the given bytes.
func (h handlerCaseT) result(in bset, labels ...string) AVal {
	p := textParam(h.Fn.Fn)
	if p == nil {
		return strAny()
	}
	prev := h.a.Hook
	h.a.setHook(func(a *AI, o Org) (AVal, bool) {
		if o.Path == "" && o.V == ssa.Value(p) && o.F == h.Fn {
			return strBytes(in, lset(labels...)), true
		}
		if prev != nil {
			return prev(a, o)
		}
		return AVal{}, false
	})
	v := h.a.Eval(VC{h.Fn, p})
	_ = v
	v = h.a.retVal(h.Fn, 0)
	h.a.setHook(prev)
	return v
}

func (h handlerCaseT) key() string {
	pl := fnPkgPath(h.F.Fn)
	return fkey(h.Fn.Fn) + " (" + pl[strings.LastIndex(pl, "/")+1:] + ")"
}

// alwaysRegistered: the registration runs on every successful way through the set-up of the plugin.
func (h handlerCaseT) alwaysRegistered() bool {
	F := h.F
	var in ssa.Instruction = h.Site
	for {
		for _, b := range F.Fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == F.Fn.Recover || instrBefore(in, ret) {
				continue
			}
			if e := len(ret.Results) - 1; F.Up == nil && e >= 0 && isErrType(ret.Results[e].Type()) && (h.a.P.errFlow().nonNil(resolveResult(ret, e), 4) || notNilAt(resolveResult(ret, e), b)) {
				continue
			}
			if !allLoopBodies(F.Fn, in, ret) {
				return false
			}
		}
		if F.Site == nil || F.Up == nil {
			return true
		}
		in, F = F.Site, F.Up
	}
}

// notNilAt: at the block it is known that the value is not nil.
func notNilAt(v ssa.Value, blk *ssa.BasicBlock) bool {
	for d := blk.Idom(); d != nil; d = d.Idom() {
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		c, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(c.X == v && isNilConst(c.Y) || c.Y == v && isNilConst(c.X)) {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && (s == blk || s.Dominates(blk)) && (c.Op.String() == "!=") == (k == 0) {
				return true
			}
		}
	}
	return false
}

// allLoopBodies: the instruction is inside of a loop over a fixed table (which then runs).
func allLoopBodies(f *ssa.Function, in ssa.Instruction, ret ssa.Instruction) bool {
	for _, l := range loopsOf(f) {
		if l.body[in.Block()] && !l.body[ret.Block()] && l.head.Dominates(ret.Block()) {
			for _, lt := range l.latches() {
				if !in.Block().Dominates(lt) {
					return false
				}
			}
			return countedHeader(l.head) || rangesOverTable(l)
		}
	}
	return false
}

func rangesOverTable(l *loop) bool {
	for _, in := range l.head.Instrs {
		if b, ok := in.(*ssa.BinOp); ok {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
				return true
			}
			if c, ok := b.Y.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
				return true
			}
		}
	}
	return false
}

// ---- C13 ----

func checkC13(P *Prog, r *Result) {
	r.Rule("encoded", "a text transformer of the base plugin, which is always registered, returns text without angle brackets for any text", 1)
	r.Rule("kept-encoded", "the other text transformers, the post-render handlers and the renderers do not turn text without angle brackets into text with them", 20)
	r.Rule("only-way", "the text of the document is written only after it went through the text transformers; other renderers write the data of text nodes only for code", 30)
	r.Rule("escaping", "marking the text for escaping adds no angle brackets", 1)
	brackets := bsOf("<>")
	clean := bsAll().minus(brackets)
	show := func(v AVal) string { return v.bytes().and(brackets).String() }

	enc := 0
	for _, h := range handlersOf(P, "TextTransformer", func(a *AI) {}) {
		p := P.pos(h.Fn.Fn.Pos())
		v := h.result(bsAll(), "text")
		if v.bytes().and(brackets).empty() && !v.bot() && h.alwaysRegistered() {
			enc++
			r.OK("encoded", h.key(), p, "every returned text is free of angle brackets")
		} else if pl := fnPkgPath(h.F.Fn); strings.HasSuffix(pl, "/plugin/base") {
			if !h.alwaysRegistered() {
				r.Bad("encoded", h.key(), P.ipos(h.Site), "the text transformer is not registered on every path")
			} else {
				r.Bad("encoded", h.key(), p, "the returned text can contain %s", show(v))
			}
			enc++
		}
		w := h.result(clean, "text")
		r.Check(w.bytes().and(brackets).empty(), "kept-encoded", h.key(), p, "for a text without angle brackets the result has none%s", orElse(ifelse(w.bytes().and(brackets).empty(), "", ": it can contain "+show(w)), ""))
	}
	if enc == 0 {
		r.Bad("encoded", "base plugin", "", "no text transformer encodes the angle brackets")
	}
	for _, h := range handlersOf(P, "PostRenderer", func(a *AI) { a.MapConst = withoutTags(false) }) {
		w := h.result(clean, "children")
		p := P.pos(h.Fn.Fn.Pos())
		if w.bytes().and(brackets).empty() {
			r.OK("kept-encoded", h.key(), p, "for an output without angle brackets the result has none of the document")
			continue
		}
		// what it writes on its own is fine
		h2 := handlersOf(P, "PostRenderer", func(a *AI) {})
		_ = h2
		r.Bad("kept-encoded", h.key(), p, "the output can contain %s although the text was encoded before", show(w))
	}
	// renderers
	n := 0
	for _, name := range elements {
		var bad []string
		var pos string
		extra := textHook(bsAll(), bsAll())
		for _, c := range withCore(P, Scen{Name: name, Extra: extra}) {
			m := &pieceMachine{}
			c.run(m)
			for _, p := range m.got {
				if p.v.Labels["nodedata"] && !p.v.bytes().and(brackets).empty() {
					bad = append(bad, "the data of a node is written by "+c.key+" as it is")
					pos = P.pos(c.F.Fn.Pos())
				}
			}
			n++
		}
		if !codeElements[name] && name != "#comment" {
			r.Check(len(bad) == 0, "only-way", name, pos, "%s", orElse(strings.Join(first(uniq(bad), 3), "; "), "no renderer writes the data of text nodes"))
		}
		bad, pos = nil, ""
		for _, c := range withCore(P, Scen{Name: name, Extra: extra}) {
			c.a.ChildBytes = &clean
			c.a.MapConst = withoutTags(name == "blockquote")
			m := &pieceMachine{}
			c.run(m)
			for _, p := range m.got {
				if p.v.Labels["children"] && !p.v.Labels["nodedata"] && !hasAttr(p.v) && !p.v.Labels["html"] && !p.v.bytes().and(brackets).empty() {
					bad = append(bad, c.key+" writes rendered text in which it can have introduced "+show(p.v))
					pos = P.pos(c.F.Fn.Pos())
				}
			}
		}
		r.Check(len(bad) == 0, "kept-encoded", "renderers of "+name, pos, "%s", orElse(strings.Join(first(uniq(bad), 3), "; "), "rendered text is written without new angle brackets"))
	}
	r.Count("renderer cases", n)
	// the converter writes only what the transformers return
	checkTextWay(P, r)
	// EscapeContent
	for _, f := range escapers(P, "EscapeContent") {
		if textParam(f) == nil {
			continue
		}
		a := newAI(P)
		F := a.Root(f)
		h := handlerCaseT{a, handlerReg{Fn: F}}
		v := h.result(clean, "text")
		r.Check(v.bytes().and(brackets).empty(), "escaping", fkey(f), P.pos(f.Pos()), "for a text without angle brackets the result has none%s", ifelse(v.bytes().and(brackets).empty(), "", ": it can contain "+show(v)))
	}
}

// withCore: the renderers of an element and what the converter itself writes for it.
func withCore(P *Prog, sc Scen) []*rcase {
	out := handlerCases(P, sc)
	if c := coreCase(P, sc, "the converter"); c != nil {
		out = append(out, c)
	}
	return out
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func hasAttr(v AVal) bool {
	for l := range v.Labels {
		if strings.HasPrefix(l, "attr:") || strings.HasPrefix(l, "url:") {
			return true
		}
	}
	return false
}

// escapers: the implementations of a method of the conversion context.
func escapers(P *Prog, m string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if fnPkgPath(f) == convPath && f.Name() == m && f.Signature.Recv() != nil && f.Synthetic == "" && f.Parent() == nil {
			out = append(out, f)
		}
	}
	return out
}

// checkTextWay: in the dispatcher, for a text node, every write comes after the loop over the text
// transformers and writes its result.
func checkTextWay(P *Prog, r *Result) {
	c := coreCase(P, Scen{Name: "#text"}, "text")
	if c == nil {
		r.Bad("only-way", "dispatcher", "", "the function that dispatches the nodes was not found")
		return
	}
	a := c.a
	h := kinds(P)
	var calls []handlerCall
	for _, hc := range handlerCalls(a, c.F, h) {
		if hc.kind == "text" {
			calls = append(calls, hc)
		}
	}
	if len(calls) == 0 {
		r.Bad("only-way", "text nodes", P.pos(c.F.Fn.Pos()), "no text transformer is called for a text node")
		return
	}
	writes := 0
	done := map[VC]bool{}
	a.walkCalls(c.F, func(F *Frame, site ssa.CallInstruction) {
		for _, t := range a.writeTokens(F, site, c.w) {
			if t.Kind != tkWrite || t.VC.V == nil {
				continue
			}
			v := a.Eval(t.VC)
			if ss, ok := v.strConsts(); ok && len(ss) > 0 || v.bot() || done[t.VC] {
				continue
			}
			done[t.VC] = true
			writes++
			key := "text nodes: write in " + fkey(F.Fn)
			good := false
			for _, hc := range calls {
				l := innerLoop(hc.F.Fn, hc.site.Block())
				if l == nil {
					continue
				}
				if f, x, y := lift(hc.F, l.head.Instrs[0], F, site); f != nil && x.Block().Dominates(y.Block()) {
					good = true
				}
			}
			if !good {
				r.Bad("only-way", key, P.ipos(site), "the text is written without going through the text transformers")
				continue
			}
			bad := ""
			for _, o := range a.values(t.VC) {
				ok := false
				for _, hc := range calls {
					if o.V == hc.site.Value() {
						ok = true
					}
				}
				if o.Path != "" && strings.HasSuffix(o.Path, ".Data") {
					ok = true // nothing is registered
				}
				if cc, isC := o.V.(*ssa.Const); isC && cc.Value != nil {
					ok = true
				}
				if !ok && isStrBytes(o.V.Type()) {
					bad = "what is written is not the result of the text transformers (" + descr(o) + ")"
				}
			}
			r.Check(bad == "" || !a.Eval(t.VC).Labels["nodedata"], "only-way", key, P.ipos(site), "%s", orElse(bad, "the result of the text transformers is written"))
		}
	})
	r.Check(writes > 0, "only-way", "text nodes", P.pos(c.F.Fn.Pos()), "%d writes of text", writes)
}

// ---- C39 ----

// modeOff: escaping is disabled (or enabled).
func modeHook(P *Prog, disabled bool, next func(a *AI, o Org) (AVal, bool)) func(a *AI, o Org) (AVal, bool) {
	off := constAVal(P, "EscapeModeDisabled")
	on := constAVal(P, "EscapeModeSmart")
	return func(a *AI, o Org) (AVal, bool) {
		if isMode(P, o) {
			if disabled {
				return off, true
			}
			return on, true
		}
		if next != nil {
			return next(a, o)
		}
		return AVal{}, false
	}
}

func constAVal(P *Prog, name string) AVal {
	if c, ok := P.Pkg("converter").Pkg.Scope().Lookup(name).(*types.Const); ok {
		return constVal(c.Val())
	}
	return topVal()
}

// isMode: the setting for escaping (a field of the type of the modes).
func isMode(P *Prog, o Org) bool {
	if strings.HasPrefix(o.Path, "zero") {
		return false
	}
	c := P.Pkg("converter").Pkg.Scope().Lookup("EscapeModeDisabled")
	if c == nil {
		return false
	}
	i := strings.LastIndex(o.Path, ".")
	if i < 0 {
		return false
	}
	f := o.Path[i+1:]
	sc := P.Pkg("converter").Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == f && types.Identical(st.Field(k).Type(), c.Type()) {
				return true
			}
		}
	}
	return false
}

func checkC39(P *Prog, r *Result) {
	r.Rule("disabled", "with escaping disabled, marking and unmarking return the text unchanged", 2)
	r.Rule("no-backslash", "with escaping disabled, no step adds a backslash to text that has none", 30)
	r.Rule("added", "with escaping enabled, marking adds only the placeholder, unmarking adds only backslashes", 2)
	r.Rule("kept", "with escaping enabled, every character of the text is kept", 2)
	back := bsOf("\\")
	plain := bsAll().minus(bsOf("\\" + bel))
	lower := bsOf("abcdefghijklmnopqrstuvwxyz ")

	for _, m := range []string{"EscapeContent", "UnEscapeContent"} {
		fs := escapers(P, m)
		if len(fs) == 0 {
			r.Bad("disabled", m, "", "the method was not found")
		}
		for _, f := range fs {
			p := textParam(f)
			if p == nil {
				continue
			}
			key := fkey(f)
			a := newAI(P)
			a.Hook = modeHook(P, true, nil)
			F := a.Root(f)
			bad := ""
			for _, v := range a.returns(F, 0) {
				for _, o := range a.values(v) {
					if o.V != ssa.Value(p) || o.Path != "" || o.F != F {
						if w := a.altered(v, bsAll(), map[VC]bool{}); w != "" {
							bad = w
						} else if !a.copyOf(VC{o.F, o.V}, VC{F, p}, 0) {
							bad = "something else than the given text is returned (" + descr(o) + ")"
						}
					}
				}
			}
			r.Check(bad == "", "disabled", key, P.pos(f.Pos()), "%s", orElse(bad, "the given text is returned"))

			// enabled
			a = newAI(P)
			h := handlerCaseT{a, handlerReg{Fn: a.Root(f)}}
			a.Hook = modeHook(P, false, nil)
			allow := back
			if m == "EscapeContent" {
				allow = bsOf(bel + "\ufffd")
			}
			extra := bset{}
			for ch := 1; ch < 128; ch++ {
				// the letters, with each of the other characters
				if ch > 'a' && ch <= 'z' || ch > '0' && ch <= '9' || ch > 'A' && ch <= 'Z' {
					continue
				}
				in := lower
				in.add(byte(ch))
				in.add(7)
				w := h.result(in, "text")
				extra = extra.or(w.bytes().minus(in))
				if w.bot() {
					extra = bsAll()
				}
			}
			r.Check(extra.minus(allow).empty(), "added", key, P.pos(f.Pos()), "%s", ifelse(extra.minus(allow).empty(), "nothing else is added", "it can add "+extra.minus(allow).String()))
			checkKept(P, r, f, m)
		}
	}

	// disabled: nothing adds a backslash
	noLine := func(vc VC, v AVal) AVal {
		if ss, ok := v.strConsts(); ok && len(ss) == 1 && ss[0] == "\\\n" {
			return withLabels(strConst("\n"), v.Labels)
		}
		return v
	}
	mk := func(a *AI) {
		a.Hook = modeHook(P, true, textHook(plain, lower))
		a.EscapeOff = true
		a.ChildBytes = &plain
		a.URLBytes = &lower
		a.MapConst = noLine
	}
	for _, k := range []string{"TextTransformer", "PostRenderer"} {
		for _, h := range handlersOf(P, k, mk) {
			v := h.result(plain, "text")
			r.Check(!v.bytes().has('\\'), "no-backslash", h.key(), P.pos(h.Fn.Fn.Pos()), "%s", ifelse(v.bytes().has('\\'), "it can add a backslash to a text without any, although escaping is disabled", "no backslash is added"))
		}
	}
	for _, name := range elements {
		if name == "br" || name == "#comment" {
			continue
		}
		var bad []string
		pos := ""
		for _, c := range withCore(P, Scen{Name: name, Extra: modeHook(P, true, textHook(plain, lower))}) {
			c.a.EscapeOff = true
			c.a.ChildBytes = &plain
			c.a.URLBytes = &lower
			c.a.MapConst = noLine
			m := &pieceMachine{}
			c.run(m)
			for _, p := range m.got {
				if p.v.bytes().has('\\') && (p.v.Labels["children"] || p.v.Labels["nodedata"]) {
					bad = append(bad, c.key+" can add a backslash to rendered text, although escaping is disabled")
					pos = P.pos(c.F.Fn.Pos())
				}
			}
		}
		r.Check(len(bad) == 0, "no-backslash", "renderers of "+name, pos, "%s", orElse(strings.Join(first(uniq(bad), 3), "; "), "no backslash is added"))
	}
}

// copyOf: the value is a copy of another one.
func (a *AI) copyOf(vc, want VC, depth int) bool {
	if vc == want {
		return true
	}
	if depth > 8 {
		return false
	}
	if ss := a.step(vc); len(ss) > 0 {
		for _, s := range ss {
			if !a.copyOf(s, want, depth+1) {
				return false
			}
		}
		return true
	}
	if c, ok := vc.V.(*ssa.Call); ok {
		switch calleeName(c.Common()) {
		case "bytes.Clone", "strings.Clone", "slices.Clone":
			return a.copyOf(VC{vc.F, c.Call.Args[0]}, want, depth+1)
		case "builtin.append":
			if v := a.ev(VC{vc.F, c.Call.Args[0]}); v.bot() || v.String() == strConst("").String() {
				return a.copyOf(VC{vc.F, c.Call.Args[1]}, want, depth+1)
			}
		}
	}
	return false
}

// checkKept: for every byte, each round of a loop that looks at the characters of the text and builds
// the result puts this character into the result.
func checkKept(P *Prog, r *Result, f *ssa.Function, m string) {
	p := textParam(f)
	skip := bsOf("\x00")
	if m == "UnEscapeContent" {
		skip = bsOf(bel)
	}
	lost, ok := lostIn("text", skip, func(h leafHook, data bset) (*AI, *Frame) {
		a := newAI(P)
		a.setHook(modeHook(P, false, func(a *AI, o Org) (AVal, bool) {
			if o.Path == "" && o.V == ssa.Value(p) {
				return strBytes(data, lset("text")), true
			}
			return h(a, o)
		}))
		return a, a.Root(f)
	}, func(G *Frame) bool { return fnPkgPath(G.Fn) == convPath })
	if !ok {
		r.OK("kept", fkey(f), P.pos(f.Pos()), "not decided: no loop over the text was found")
		return
	}
	r.Check(lost.empty(), "kept", fkey(f), P.pos(f.Pos()), "%s", ifelse(lost.empty(), "every character is put into the result", "these characters can get lost: "+lost.String()))
}

type leafHook = func(a *AI, o Org) (AVal, bool)

// lostIn: the bytes that a loop over the characters of a text (with this label) can leave out. mk sets
// up the analysis for a text with the given bytes.
func lostIn(label string, skip bset, mk func(h leafHook, data bset) (*AI, *Frame), scope func(G *Frame) bool) (bset, bool) {
	return notWritten(label, skip, mk, scope, func(c byte) byte { return c })
}

// notWritten: the bytes for which want(c) is not put into the result.
func notWritten(label string, skip bset, mk func(h leafHook, data bset) (*AI, *Frame), scope func(G *Frame) bool, want func(c byte) byte) (bset, bool) {
	type lp struct {
		F *Frame
		l *loop
	}
	builds := func(a *AI, F *Frame, in ssa.Instruction) (VC, bool) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return VC{}, false
		}
		n := calleeName(c.Common())
		switch {
		case n == "builtin.append" && isStrBytes(c.Type()):
			return VC{F, c.Call.Args[1]}, true
		case strings.HasPrefix(n, "(bytes.Buffer).Write"), strings.HasPrefix(n, "(strings.Builder).Write"):
			return VC{F, c.Call.Args[1]}, true
		case strings.HasPrefix(n, "unicode/utf8.Append"):
			return VC{F, c.Call.Args[1]}, true
		}
		return VC{}, false
	}
	var find func(a *AI, F *Frame, depth int) []lp
	anyBuild := func(a *AI, F *Frame, l *loop) bool {
		found := false
		for b := range l.body {
			for _, in := range b.Instrs {
				if _, ok := builds(a, F, in); ok {
					found = true
				}
				if site, ok := in.(ssa.CallInstruction); ok {
					frs, _ := a.calleeFrames(F, site)
					for _, fr := range frs {
						a.eachFrame(fr, func(G *Frame) {
							instrs(G.Fn, func(in ssa.Instruction) {
								if _, ok := builds(a, G, in); ok && scope(G) {
									found = true
								}
							})
						})
					}
				}
			}
		}
		return found
	}
	readsText := func(a *AI, F *Frame, l *loop) bool {
		for b := range l.body {
			for _, in := range b.Instrs {
				var x ssa.Value
				switch y := in.(type) {
				case *ssa.IndexAddr:
					x = y.X
				case *ssa.Index:
					x = y.X
				case *ssa.Next:
					if rg, ok := y.Iter.(*ssa.Range); ok {
						x = rg.X
					}
				}
				if x != nil && isStrBytes(x.Type()) && a.Eval(VC{F, x}).Labels[label] {
					return true
				}
			}
		}
		return false
	}
	find = func(a *AI, F *Frame, depth int) []lp {
		var out []lp
		a.eachFrame(F, func(G *Frame) {
			if !scope(G) {
				return
			}
			for _, l := range loopsOf(G.Fn) {
				if readsText(a, G, l) && anyBuild(a, G, l) {
					inner := false
					for _, l2 := range loopsOf(G.Fn) {
						if l2.head != l.head && l2.body[l.head] {
							inner = true
						}
					}
					if !inner {
						out = append(out, lp{G, l})
					}
				}
			}
		})
		return out
	}
	leaf := func(elem AVal) leafHook {
		return func(a *AI, o Org) (AVal, bool) {
			if !elem.bot() && o.Path == "" {
				switch x := o.V.(type) {
				case *ssa.UnOp:
					if ia, ok := x.X.(*ssa.IndexAddr); ok && isByteType(x.Type()) && a.evalFresh(VC{o.F, ia.X}).Labels[label] {
						return elem, true
					}
				case *ssa.Index:
					if isByteType(x.Type()) && a.evalFresh(VC{o.F, x.X}).Labels[label] {
						return elem, true
					}
				}
			}
			return AVal{}, false
		}
	}
	a0, F0 := mk(leaf(AVal{}), bsAll())
	if F0 == nil || len(find(a0, F0, 0)) == 0 {
		return bset{}, false
	}
	lost := bset{}
	for c := 0; c < 256; c++ {
		if skip.has(byte(c)) {
			continue
		}
		// one byte stands for the letters and for the bytes of longer characters
		if c > 'b' && c < 'z' || c > 0x81 && c != 0xc2 && c != 0xef && c != 0xff || c > '1' && c < '9' || c > 'B' && c < 'Z' {
			continue
		}
		var one bset
		one.add(byte(c))
		a, F := mk(leaf(intConst(int64(c))), one)
		if F == nil {
			continue
		}
		ls := find(a, F, 0)
		for _, x := range ls {
			// a way through a round that writes nothing with this byte
			writesIt := func(b *ssa.BasicBlock) bool {
				hit := false
				check := func(G *Frame, in ssa.Instruction) {
					if v, ok := builds(a, G, in); ok {
						av := a.Eval(v)
						if is, ok := av.intConsts(); ok {
							for _, i := range is {
								if i == int64(want(byte(c))) {
									hit = true
								}
							}
						} else if av.bytes().has(want(byte(c))) || av.Top {
							hit = true
						}
					}
				}
				for _, in := range b.Instrs {
					check(x.F, in)
					if site, ok := in.(ssa.CallInstruction); ok {
						frs, _ := a.calleeFrames(x.F, site)
						for _, fr := range frs {
							a.eachFrame(fr, func(G *Frame) { instrs(G.Fn, func(in ssa.Instruction) { check(G, in) }) })
						}
					}
				}
				return hit
			}
			fi := a.feasible(x.F)
			seen := map[*ssa.BasicBlock]bool{}
			bad := false
			var walk func(b *ssa.BasicBlock, in bool)
			walk = func(b *ssa.BasicBlock, entered bool) {
				if seen[b] || !fi.live[b.Index] || !x.l.body[b] {
					return
				}
				seen[b] = true
				if writesIt(b) {
					return
				}
				for _, s := range b.Succs {
					if fi.dead[[2]int{b.Index, s.Index}] {
						continue
					}
					if s == x.l.head && b != x.l.head {
						bad = true
					}
					walk(s, true)
				}
			}
			walk(x.l.head, false)
			if bad {
				lost.add(byte(c))
			}
		}
	}
	return lost, true
}

// ---- C14 ----

func privateRunes(s string) []rune {
	var out []rune
	for _, c := range s {
		if c == 7 || c >= 0xE000 && c <= 0xF8FF {
			out = append(out, c)
		}
	}
	return out
}

// markers finds the private characters that the functions below a frame can put into a text.
func (a *AI) markers(F *Frame, fn func(m rune, in ssa.Instruction)) {
	seen := map[*ssa.Function]bool{}
	a.eachFrame(F, func(G *Frame) {
		if seen[G.Fn] {
			return
		}
		seen[G.Fn] = true
		instrs(G.Fn, func(in ssa.Instruction) {
			for i, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				var s string
				switch x := (*op).(type) {
				case *ssa.Const:
					if x.Value == nil {
						continue
					}
					switch x.Value.Kind() {
					case constant.String:
						s = constant.StringVal(x.Value)
					case constant.Int:
						if c, ok := constant.Int64Val(x.Value); ok && isCharType(x.Type()) && c > 0 && c < 0x110000 {
							s = string(rune(c))
						}
					}
				case *ssa.Global:
					u, ok := in.(*ssa.UnOp)
					if !ok || !isStrBytes(u.Type()) && !isCharType(u.Type()) {
						continue
					}
					v := a.Eval(VC{G, u})
					if ss, ok := v.strConsts(); ok && len(ss) == 1 {
						s = ss[0]
					} else if is, ok := v.intConsts(); ok && len(is) == 1 && is[0] > 0 && is[0] < 0x110000 {
						s = string(rune(is[0]))
					}
				default:
					continue
				}
				ms := privateRunes(s)
				if len(ms) == 0 {
					continue
				}
				var val ssa.Value
				if v, ok := in.(ssa.Value); ok {
					val = v
				}
				if _, isG := (*op).(*ssa.Global); isG {
					if !createsText(val, map[ssa.Value]bool{}) {
						continue
					}
				} else if !createsAt(in, i, *op, map[ssa.Value]bool{}) {
					continue
				}
				for _, m := range ms {
					fn(m, in)
				}
			}
		})
	})
}

// createsText: the value is used for more than searching and comparing.
func createsText(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		for i, op := range in.Operands(nil) {
			if *op == v && createsAt(in, i, v, seen) {
				return true
			}
		}
	}
	return false
}

func createsAt(in ssa.Instruction, i int, v ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		if _, ok := cmpOps[x.Op.String()]; ok {
			return false
		}
		return createsText(x, seen)
	case *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.MakeInterface:
		return createsText(x.(ssa.Value), seen)
	case *ssa.Index, *ssa.IndexAddr, *ssa.UnOp:
		return createsText(x.(ssa.Value), seen)
	case *ssa.DebugRef:
		return false
	case *ssa.If:
		return false
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
			// an array that is only searched for
			if al, ok := ia.X.(*ssa.Alloc); ok {
				return createsText(al, seen)
			}
		}
		return x.Val == v
	case *ssa.Call:
		n := calleeName(x.Common())
		n = strings.TrimPrefix(strings.TrimPrefix(n, "bytes."), "strings.")
		switch {
		case strings.HasPrefix(n, "Contains"), strings.HasPrefix(n, "Index"), strings.HasPrefix(n, "LastIndex"), strings.HasPrefix(n, "HasPrefix"), strings.HasPrefix(n, "HasSuffix"), strings.HasPrefix(n, "Count"), strings.HasPrefix(n, "Equal"), strings.HasPrefix(n, "Trim"), strings.HasPrefix(n, "Split"), strings.HasPrefix(n, "Cut"), n == "builtin.len":
			return len(x.Call.Args) > 0 && x.Call.Args[0] == v && !strings.HasPrefix(n, "builtin") && false
		case strings.HasPrefix(n, "Replace") && len(x.Call.Args) >= 3:
			return x.Call.Args[2] == v
		case n == "NewReplacer":
			return false
		}
		return true
	}
	return true
}

var cmpOps = map[string]bool{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true}

func checkC14(P *Prog, r *Result) {
	r.Rule("unmarked", "with escaping enabled, unmarking removes every placeholder", 1)
	r.Rule("not-marked", "with escaping disabled no placeholder is added", 1)
	r.Rule("resolved", "a post-render handler that is always registered resolves the placeholder in the whole output", 2)
	r.Rule("order", "no step that runs after it can add the placeholder again", 2)

	for _, f := range escapers(P, "UnEscapeContent") {
		if textParam(f) == nil {
			continue
		}
		a := newAI(P)
		a.Hook = modeHook(P, false, nil)
		h := handlerCaseT{a, handlerReg{Fn: a.Root(f)}}
		v := h.result(bsAll(), "text")
		r.Check(!v.bytes().has(7) && !v.bot(), "unmarked", fkey(f), P.pos(f.Pos()), "%s", ifelse(v.bytes().has(7), "a placeholder can remain", "no placeholder remains"))
	}
	for _, f := range escapers(P, "EscapeContent") {
		if textParam(f) == nil {
			continue
		}
		a := newAI(P)
		a.Hook = modeHook(P, true, nil)
		h := handlerCaseT{a, handlerReg{Fn: a.Root(f)}}
		in := bsAll()
		in.del(7)
		v := h.result(in, "text")
		r.Check(!v.bytes().has(7) && !v.bot(), "not-marked", fkey(f), P.pos(f.Pos()), "%s", ifelse(v.bytes().has(7), "a placeholder can be added, which is not removed with escaping disabled", "no placeholder is added"))
	}
	// the private characters that are put into the text while rendering
	found := map[rune]string{}
	for _, k := range []string{"Renderer", "RendererFor", "TextTransformer", "PreRenderer"} {
		for _, h := range handlersOf(P, k, func(a *AI) {}) {
			h.a.markers(h.Fn, func(m rune, in ssa.Instruction) {
				if _, ok := found[m]; !ok {
					found[m] = P.ipos(in)
				}
			})
		}
	}
	if len(found) == 0 {
		r.OK("resolved", "placeholders", "", "no renderer adds a private character")
		r.OK("order", "placeholders", "", "no renderer adds a private character")
	}
	found[7] = orElse(found[7], "converter")
	var ms []int
	for m := range found {
		ms = append(ms, int(m))
	}
	sort.Ints(ms)
	posts := handlersOf(P, "PostRenderer", func(a *AI) {})
	for _, mi := range ms {
		m := rune(mi)
		key := fmt.Sprintf("U+%04X", mi)
		var resolver *handlerCaseT
		why := "no post-render handler resolves it (it is added at " + found[m] + ")"
		for i := range posts {
			h := posts[i]
			p := textParam(h.Fn.Fn)
			if p == nil {
				continue
			}
			handles, w := h.a.resolvesAll(h.Fn, m)
			if !handles {
				if w != "" {
					why = w
				}
				continue
			}
			if !h.alwaysRegistered() {
				why = "the handler that resolves it (" + fkey(h.Fn.Fn) + ") is not always registered (" + P.ipos(h.Site) + ")"
				continue
			}
			resolver = &posts[i]
		}
		if resolver == nil {
			r.Bad("resolved", key, found[m], "the placeholder can remain in the output: %s", why)
			continue
		}
		r.OK("resolved", key, P.pos(resolver.Fn.Fn.Pos()), "resolved by %s", fkey(resolver.Fn.Fn))
		// later steps
		bad, pos := "", ""
		rp, ok := resolver.Prio.intConsts()
		for _, h := range posts {
			if h.Fn.Fn == resolver.Fn.Fn {
				continue
			}
			hp, ok2 := h.Prio.intConsts()
			if ok && ok2 && len(rp) == 1 && len(hp) == 1 && hp[0] < rp[0] {
				continue
			}
			h.a.markers(h.Fn, func(x rune, in ssa.Instruction) {
				if x == m {
					bad, pos = fkey(h.Fn.Fn)+" adds it again after it was resolved", P.ipos(in)
				}
			})
			if m == 7 {
				h.a.walkCalls(h.Fn, func(F *Frame, site ssa.CallInstruction) {
					if strings.HasSuffix(calleeName(site.Common()), "converter.Context).EscapeContent") {
						bad, pos = fkey(h.Fn.Fn)+" marks text again after the placeholders were resolved", P.ipos(site)
					}
				})
			}
		}
		r.Check(bad == "", "order", key, pos, "%s", orElse(bad, "nothing adds it afterwards"))
	}
}

// resolvesAll: every result of the handler went through a step that removes all of these characters.
func (a *AI) resolvesAll(F *Frame, m rune) (bool, string) {
	why := ""
	mentioned := false
	isM := func(vc VC) bool {
		v := a.Eval(vc)
		if ss, ok := v.strConsts(); ok && len(ss) == 1 {
			return ss[0] == string(m)
		}
		if is, ok := v.intConsts(); ok && len(is) == 1 {
			return is[0] == int64(m)
		}
		return false
	}
	var via func(vc VC, blk *ssa.BasicBlock, seen map[VC]bool) bool
	via = func(vc VC, blk *ssa.BasicBlock, seen map[VC]bool) bool {
		if seen[vc] {
			return true
		}
		seen[vc] = true
		if blk != nil && a.lacks(vc, blk, isM) {
			mentioned = true
			return true
		}
		switch x := vc.V.(type) {
		case *ssa.Phi:
			fi := a.feasible(vc.F)
			for i, e := range x.Edges {
				pb := x.Block().Preds[i]
				if fi.dead[[2]int{pb.Index, x.Block().Index}] {
					continue
				}
				ev := VC{vc.F, e}
				if a.lacksEdge(ev, pb, x.Block(), isM) {
					mentioned = true
					continue
				}
				if !via(ev, pb, seen) {
					return false
				}
			}
			return true
		case *ssa.Call, *ssa.Extract:
			c, _ := x.(*ssa.Call)
			idx := 0
			if ex, ok := x.(*ssa.Extract); ok {
				c, _ = ex.Tuple.(*ssa.Call)
				idx = ex.Index
			}
			if c == nil {
				return false
			}
			n := calleeName(c.Common())
			n = strings.TrimPrefix(strings.TrimPrefix(n, "bytes."), "strings.")
			arg := func(i int) VC { return VC{vc.F, c.Call.Args[i]} }
			if m == 7 && strings.HasSuffix(n, "converter.Context).UnEscapeContent") {
				mentioned = true
				return true
			}
			switch n {
			case "ReplaceAll", "Replace":
				if isM(arg(1)) {
					mentioned = true
					if n == "Replace" {
						if k, ok := a.Eval(arg(3)).intConsts(); !ok || len(k) != 1 || k[0] >= 0 {
							why = "only a limited number of them is replaced at " + a.P.ipos(c)
							return false
						}
					}
					if ss, ok := a.Eval(arg(2)).strConsts(); ok {
						for _, s := range ss {
							if strings.ContainsRune(s, m) {
								return false
							}
						}
					}
					return true
				}
				if ss, ok := a.Eval(arg(1)).strConsts(); ok && len(ss) == 1 && strings.ContainsRune(ss[0], m) {
					why = "it is replaced only together with other characters at " + a.P.ipos(c)
				}
				return via(arg(0), c.Block(), seen)
			case "Join":
				for _, o := range a.values(arg(0)) {
					sc, ok := o.V.(*ssa.Call)
					if ok && (strings.HasSuffix(calleeName(sc.Common()), ".Split")) && isM(VC{o.F, sc.Call.Args[1]}) {
						mentioned = true
						return true
					}
				}
				return via(arg(0), c.Block(), seen)
			case "(strings.Replacer).Replace":
				if ps, ok := a.replacerPairs(vc.F, c.Call.Args[0]); ok {
					for i := 0; i+1 < len(ps); i += 2 {
						if ss, ok := ps[i].strConsts(); ok && len(ss) == 1 && ss[0] == string(m) {
							mentioned = true
							return true
						}
					}
				}
				return via(arg(1), c.Block(), seen)
			case "Map":
				if !a.Eval(vc).bytes().has(string(m)[0]) {
					return true
				}
				// a mapping that knows the character
				for _, o := range a.values(arg(0)) {
					var fn *ssa.Function
					switch y := o.V.(type) {
					case *ssa.Function:
						fn = y
					case *ssa.MakeClosure:
						fn = y.Fn.(*ssa.Function)
					}
					if fn != nil && knowsChar(a, fn, m) {
						mentioned = true
						return true
					}
				}
				return via(arg(1), c.Block(), seen)
			}
			if frs, complete := a.calleeFrames(vc.F, c); complete && len(frs) > 0 && !isLeafCall(calleeName(c.Common())) {
				for _, fr := range frs {
					for _, rs := range a.returnSites(fr, idx) {
						if !via(rs.VC, rs.blk, seen) {
							return false
						}
					}
				}
				return true
			}
			if len(c.Call.Args) > 0 && isStrBytes(c.Call.Args[0].Type()) && isStrBytes(vc.V.Type()) {
				return via(arg(0), c.Block(), seen)
			}
			// built in a buffer or a list
			if a.Eval(vc).bytes().has(string(m)[0]) && !frameKnows(a, vc.F, m) {
				return false
			}
			return frameKnows(a, vc.F, m) || !a.Eval(vc).bytes().has(string(m)[0])
		}
		if s := a.step(vc); len(s) > 0 {
			for _, y := range s {
				if !via(y, blk, seen) {
					return false
				}
			}
			return true
		}
		switch x := vc.V.(type) {
		case *ssa.Slice:
			return via(VC{vc.F, x.X}, blk, seen)
		case *ssa.Const:
			return true
		}
		return false
	}
	n := 0
	for _, rs := range a.returnSites(F, 0) {
		n++
		if !via(rs.VC, rs.blk, map[VC]bool{}) {
			if mentioned && why == "" {
				why = "the handler " + fkey(F.Fn) + " returns a text in which it was not resolved"
			}
			return false, why
		}
	}
	return n > 0 && mentioned, why
}

// frameKnows: the function compares characters with this one.
func frameKnows(a *AI, F *Frame, m rune) bool { return knowsChar(a, F.Fn, m) }

func knowsChar(a *AI, fn *ssa.Function, m rune) bool {
	found := false
	instrs(fn, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || !cmpOps[b.Op.String()] {
			return
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if is, ok := a.Eval(VC{a.Root(fn), v}).intConsts(); ok && len(is) == 1 && (is[0] == int64(m) || is[0] == int64(string(m)[0])) {
				found = true
			}
		}
	})
	return found
}

// lacks: at the block it is known that the text does not contain the character.
func (a *AI) lacks(vc VC, blk *ssa.BasicBlock, isM func(vc VC) bool) bool {
	if blk.Parent() != vc.F.Fn {
		return false
	}
	for d := blk.Idom(); d != nil; d = d.Idom() {
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && (s == blk || s.Dominates(blk)) && a.saysLacks(vc, VC{vc.F, ifi.Cond}, k == 0, isM) {
				return true
			}
		}
	}
	return false
}

func (a *AI) lacksEdge(vc VC, p, blk *ssa.BasicBlock, isM func(vc VC) bool) bool {
	if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		if a.saysLacks(vc, VC{vc.F, ifi.Cond}, p.Succs[0] == blk, isM) {
			return true
		}
	}
	return a.lacks(vc, p, isM)
}

func (a *AI) saysLacks(vc VC, cond VC, taken bool, isM func(vc VC) bool) bool {
	for {
		u, ok := cond.V.(*ssa.UnOp)
		if !ok || u.Op.String() != "!" {
			break
		}
		cond, taken = VC{cond.F, u.X}, !taken
	}
	match := func(c *ssa.Call) bool {
		return c.Call.Args[0] == vc.V && isM(VC{cond.F, c.Call.Args[1]})
	}
	switch x := cond.V.(type) {
	case *ssa.Call:
		n := calleeName(x.Common())
		if !taken && (strings.HasSuffix(n, ".Contains") || strings.HasSuffix(n, ".ContainsRune") || strings.HasSuffix(n, ".ContainsAny")) && len(x.Call.Args) == 2 {
			return match(x)
		}
	case *ssa.BinOp:
		c, ok := x.X.(*ssa.Call)
		if !ok || !isConst(x.Y) || len(c.Call.Args) != 2 {
			return false
		}
		n := calleeName(c.Common())
		k, _ := constant.Int64Val(x.Y.(*ssa.Const).Value)
		switch {
		case strings.HasSuffix(n, ".Index") || strings.HasSuffix(n, ".IndexRune") || strings.HasSuffix(n, ".IndexByte"):
			switch x.Op.String() {
			case "==":
				return taken && k == -1 && match(c)
			case "!=":
				return !taken && k == -1 && match(c)
			case "<":
				return taken && k == 0 && match(c)
			case ">=":
				return !taken && k == 0 && match(c)
			}
		case strings.HasSuffix(n, ".Count"):
			switch x.Op.String() {
			case "==":
				return taken && k == 0 && match(c)
			case "!=", ">":
				return !taken && k == 0 && match(c)
			}
		}
	}
	return false
}
