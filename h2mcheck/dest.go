package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/url"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C19, C20, C21: destinations and titles of links and images ----

// what a destination cannot contain
var destForbidden = func() bset {
	b := bsOf(" ()[]<>\\\x7f")
	for i := 0; i < 32; i++ {
		b.add(byte(i))
	}
	return b
}()

func destClean() bset { return bsAll().minus(destForbidden) }

func isResolverSig(s *types.Signature) bool {
	if s.Params().Len() != 3 || s.Results().Len() != 1 || s.Variadic() {
		return false
	}
	str := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	for i := 0; i < 3; i++ {
		if !str(s.Params().At(i).Type()) {
			return false
		}
	}
	return str(s.Results().At(0).Type())
}

// resolveMethod: the method of the context that resolves destinations.
func resolveMethod(P *Prog) *ssa.Function {
	return P.Method("converter", "converterContext", "AssembleAbsoluteURL")
}

// resolveCall is a call (below the method) of a function that resolves a destination.
type resolveCall struct {
	F    *Frame
	site ssa.CallInstruction
	fns  []*ssa.Function
	args []ssa.Value
}

func resolveCalls(P *Prog, a *AI, root *Frame) []resolveCall {
	var out []resolveCall
	done := map[ssa.CallInstruction]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		c := site.Common()
		if done[site] || c.IsInvoke() || !isResolverSig(c.Signature()) || len(c.Args) < 3 {
			return
		}
		var fns []*ssa.Function
		for _, g := range P.Callees(site) {
			if inModule(fnPkgPath(g)) && g.Blocks != nil {
				fns = append(fns, g)
			}
		}
		if len(fns) == 0 {
			return
		}
		done[site] = true
		out = append(out, resolveCall{F, site, fns, c.Args[len(c.Args)-3:]})
	})
	return out
}

func resolvers(P *Prog) []*ssa.Function {
	m := resolveMethod(P)
	if m == nil {
		return nil
	}
	a := newAI(P)
	have := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, rc := range resolveCalls(P, a, a.Root(m)) {
		for _, f := range rc.fns {
			if !have[f] {
				have[f] = true
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fkey(out[i]) < fkey(out[j]) })
	return out
}

func linkCfg(P *Prog) (map[string]AVal, error) {
	const cm = "commonmark."
	return cfgOf(P, map[string]string{}, cm+"WithLinkEmptyHrefBehavior=render,"+cm+"WithLinkEmptyContentBehavior=render,commonmark.:inlined")
}

// destCases: the renderers that accept the element.
func destCases(P *Prog, name string, cfg map[string]AVal, extra func(a *AI, o Org) (AVal, bool), urlBytes bset) []*rcase {
	_, try := renderStatus(P)
	var out []*rcase
	for _, c := range handlerCases(P, Scen{Name: name, Cfg: cfg, Extra: extra}) {
		ub := urlBytes
		c.a.URLBytes = &ub
		acc := false
		for _, x := range c.run(wroteMachine{}) {
			if x.Ret != try && x.Q == "1" {
				acc = true
			}
		}
		if acc {
			out = append(out, c)
		}
	}
	return out
}

// fit reports all exits that do not match a template.
func (c *rcase) fit(m *tmplMachine, try string) (n int, bad []string) {
	seen := map[string]bool{}
	for _, x := range c.run(m) {
		if x.Ret == try {
			continue
		}
		n++
		if m.t.match(x.Q) {
			continue
		}
		why := "the output ends too early"
		if strings.HasPrefix(x.Q, "!") {
			why = "unexpected " + x.Q[1:]
		}
		s := fmt.Sprintf("%s (returns at %s)", why, c.a.P.pos(x.Pos))
		if !seen[s] {
			seen[s] = true
			bad = append(bad, s)
		}
	}
	sort.Strings(bad)
	return
}

func urlLabels(v AVal) (urls []string, other bool) {
	for l := range v.Labels {
		if strings.HasPrefix(l, "url:") {
			urls = append(urls, l)
		} else {
			other = true
		}
	}
	sort.Strings(urls)
	return
}

// destClass: a destination made of clean characters is U, white space around the text is W.
func destClass(clean bset, tag string) func(e *Emit, vc VC, v AVal) string {
	return func(e *Emit, vc VC, v AVal) string {
		urls, other := urlLabels(v)
		if len(urls) > 0 {
			if other || !v.bytes().minus(clean).empty() || tag != "" && (len(urls) != 1 || urls[0] != "url:"+tag) {
				return "V"
			}
			return "U"
		}
		return ""
	}
}

func init() {
	register("C19", checkC19)
	register("C20", checkC20)
	register("C21", checkC21)
}

func checkC19(P *Prog, r *Result) {
	_, try := renderStatus(P)
	r.Rule("clean", "on every path of a function that resolves destinations, the result contains no space, control character, parenthesis, bracket, angle bracket or backslash", 1)
	r.Rule("unchanged", "the context gives out what these functions return", 1)
	r.Rule("slot", "between the parentheses of a link or an image only such a destination (and a title) is written", 2)
	clean := destClean()
	m := resolveMethod(P)
	fns := resolvers(P)
	if m == nil || len(fns) == 0 {
		r.Bad("clean", "resolvers", "", "the functions that resolve destinations were not found")
		return
	}
	for _, f := range fns {
		a := newAI(P)
		F := a.Root(f)
		bad := ""
		n := 0
		for _, s := range a.returnSites(F, 0) {
			n++
			v := a.refineAt(s.VC, s.blk, a.Eval(s.VC))
			if x := v.bytes().and(destForbidden); !x.empty() {
				bad = fmt.Sprintf("the value returned at %s can contain %s", P.pos(s.blk.Instrs[len(s.blk.Instrs)-1].Pos()), x)
			}
		}
		r.Check(bad == "" && n > 0, "clean", fkey(f), P.pos(f.Pos()), "%d returned values; %s", n, orElse(bad, "none can contain one of "+destForbidden.String()))
	}
	// the method
	a := newAI(P)
	a.Hook = func(a *AI, o Org) (AVal, bool) {
		if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && !c.Call.IsInvoke() && isResolverSig(c.Call.Signature()) {
			for _, g := range P.Callees(c) {
				for _, f := range fns {
					if g == f {
						return AVal{Str: true, B: clean}, true
					}
				}
			}
		}
		return AVal{}, false
	}
	v := a.retVal(a.Root(m), 0)
	x := v.bytes().and(destForbidden)
	r.Check(x.empty(), "unchanged", fkey(m), P.pos(m.Pos()), "the result can contain %s of the characters that are not allowed", orElse(x.String(), "none"))

	cfg, err := linkCfg(P)
	if err != nil {
		r.Bad("slot", "configuration", "", "%v", err)
	}
	for _, n := range []string{"a", "img"} {
		cs := destCases(P, n, cfg, nil, clean)
		if len(cs) == 0 {
			r.Bad("slot", n, "", "no renderer accepts the element")
		}
		for _, c := range cs {
			t := newTmpl(`[^\]]*\]\(({U}|[!-'*-;=?-Z^-~])*( .*)?\)({K}|{W}|\s)*`)
			k, bad := c.fit(&tmplMachine{t: t, class: destClass(clean, "")}, try)
			key := n + " by " + c.key
			if len(bad) > 0 {
				r.Bad("slot", key, P.pos(c.F.Fn.Pos()), "what is written as the destination can contain other characters: %s", strings.Join(first(bad, 3), "; "))
			} else {
				r.OK("slot", key, P.pos(c.F.Fn.Pos()), "%d successful exits", k)
			}
		}
	}
}

func first(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

// titleClass tells between which quotes a title can stand.
func titleClass(e *Emit, vc VC, v AVal) string {
	if urls, other := urlLabels(v); len(urls) > 0 && !other {
		return "U"
	}
	if !v.Labels["attr:title"] {
		return ""
	}
	if !v.bytes().and(bsOf("\n\r")).empty() {
		return "V"
	}
	dq, sq := v.escapes('"'), v.escapes('\'')
	if !v.escapes('\\') {
		return "T"
	}
	switch {
	case dq && sq:
		return "Z"
	case dq:
		return "X"
	case sq:
		return "Y"
	}
	return "T"
}

func checkC20(P *Prog, r *Result) {
	_, try := renderStatus(P)
	r.Rule("quoted", "whichever quotes the title contains: it is written between quotes of one kind, has none of these inside that is not escaped, no backslash that is not escaped and no line break, and a space before it", 8)
	r.Rule("alone", "without a destination no title is written", 2)
	cfg, err := linkCfg(P)
	if err != nil {
		r.Bad("quoted", "configuration", "", "%v", err)
		return
	}
	clean := destClean()
	quoted := newTmpl(`[^\]]*\]\(({U}|[!-'*-;=?-Z^-~])*( +"(\\?({X}|{Z})|\\["'\\])*"| +'(\\?({Y}|{Z})|\\["'\\])*'| *)\)({K}|{W}|\s)*`)
	for _, n := range []string{"a", "img"} {
		for _, q := range []struct {
			id     string
			dq, sq bool
		}{{"no quotes", false, false}, {"double quotes", true, false}, {"single quotes", false, true}, {"both kinds of quotes", true, true}} {
			hook := func(a *AI, o Org) (AVal, bool) {
				c := titleLeaf(a, o)
				if c == nil {
					return AVal{}, false
				}
				b := bsAll()
				v := AVal{Str: true, Labels: lset("attr:title")}
				if q.dq {
					v = v.label(`has:"`)
				} else {
					b = b.minus(bsOf(`"`))
				}
				if q.sq {
					v = v.label(`has:'`)
				} else {
					b = b.minus(bsOf(`'`))
				}
				v.B = b
				return v, true
			}
			cs := destCases(P, n, cfg, hook, clean)
			if len(cs) == 0 {
				r.Bad("quoted", n, "", "no renderer accepts the element")
			}
			for _, c := range cs {
				key := fmt.Sprintf("%s by %s, title with %s", n, c.key, q.id)
				bytewise := false
				k, bad := c.fit(&tmplMachine{t: quoted, class: func(e *Emit, vc VC, v AVal) string {
					s := titleClass(e, vc, v)
					if (s == "T" || s == "V") && v.Labels["bytewise"] {
						bytewise = true
						return "Z"
					}
					return s
				}}, try)
				switch {
				case len(bad) > 0:
					r.Bad("quoted", key, P.pos(c.F.Fn.Pos()), "the title can end early or break the line: %s", strings.Join(first(bad, 3), "; "))
				case bytewise:
					r.OK("quoted", key, P.pos(c.F.Fn.Pos()), "not decided: the title is put together from single characters")
				default:
					r.OK("quoted", key, P.pos(c.F.Fn.Pos()), "%d successful exits have the form %s", k, quoted.src)
				}
			}
		}
		// no destination
		hook := func(a *AI, o Org) (AVal, bool) {
			if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && strings.HasSuffix(calleeName(c.Common()), ".AssembleAbsoluteURL") {
				return strConst(""), true
			}
			return AVal{}, false
		}
		for _, c := range destCases(P, n, cfg, hook, clean) {
			t := newTmpl(`[^\]]*\]\(\)({K}|{W}|\s)*`)
			k, bad := c.fit(&tmplMachine{t: t, class: titleClass}, try)
			key := n + " by " + c.key
			if len(bad) > 0 {
				r.Bad("alone", key, P.pos(c.F.Fn.Pos()), "something is written between the parentheses although the destination is empty: %s", strings.Join(first(bad, 3), "; "))
			} else {
				r.OK("alone", key, P.pos(c.F.Fn.Pos()), "%d successful exits write nothing between the parentheses", k)
			}
		}
	}
}

// titleLeaf: the call that reads the title of an element.
func titleLeaf(a *AI, o Org) *ssa.Call {
	var c *ssa.Call
	switch x := o.V.(type) {
	case *ssa.Call:
		c = x
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			c = t
		}
	}
	if c == nil || o.Path != "" {
		return nil
	}
	switch calleeName(c.Common()) {
	case domPath + ".GetAttributeOr", domPath + ".GetAttribute":
		if ss, ok := a.ev(VC{o.F, c.Call.Args[1]}).strConsts(); ok && len(ss) == 1 && ss[0] == "title" {
			return c
		}
	}
	return nil
}

// ---- C21 ----

// altered: the text is changed on its way from a leaf to vc (found by following the names of the value).
func (a *AI) altered(vc VC, safe bset, seen map[VC]bool) string {
	if seen[vc] || len(seen) > 200 {
		return ""
	}
	seen[vc] = true
	if ss := a.step(vc); len(ss) > 0 {
		for _, s := range ss {
			if w := a.altered(s, safe, seen); w != "" {
				return w
			}
		}
		return ""
	}
	at := func(v ssa.Value) string {
		if in, ok := v.(ssa.Instruction); ok {
			return a.P.ipos(in)
		}
		return ""
	}
	F := vc.F
	switch x := vc.V.(type) {
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return a.altered(VC{F, x.X}, safe, seen)
		}
		if _, ok := a.cutSpace(vc); ok {
			return a.altered(VC{F, x.X}, safe, seen)
		}
		return "a part is cut off at " + at(x)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return "something is added at " + at(x)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			n := calleeName(c.Common())
			if strings.HasPrefix(n, "strings.Cut") || strings.HasPrefix(n, "bytes.Cut") {
				return "a part is cut off at " + at(c)
			}
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		if strings.HasPrefix(n, "bytes.") {
			n = "strings." + n[6:]
		}
		arg := func(i int) VC { return VC{F, x.Call.Args[i]} }
		switch n {
		case "strings.TrimSpace", "strings.Clone":
			return a.altered(arg(0), safe, seen)
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
			if a.ev(arg(1)).bytes().minus(bsOf(" \t\n\r\f\v")).empty() {
				return a.altered(arg(0), safe, seen)
			}
			return "a part is cut off at " + at(x)
		case "strings.ReplaceAll", "strings.Replace":
			if a.ev(arg(1)).bytes().and(safe).empty() {
				return a.altered(arg(0), safe, seen)
			}
			return "a part is replaced at " + at(x)
		case "strings.TrimPrefix", "strings.TrimSuffix":
			return "a part is cut off at " + at(x)
		case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.ToTitle", "strings.Repeat", "net/url.QueryEscape", "net/url.PathEscape", "html.EscapeString":
			return n + " is applied at " + at(x)
		}
	}
	return ""
}

func checkC21(P *Prog, r *Result) {
	_, try := renderStatus(P)
	r.Rule("resolved", "what is written as the destination is the result of the resolution step for this kind of element", 2)
	r.Rule("kind", "every resolution in the renderer is asked for with the name of the element and the whole text of its own attribute", 2)
	r.Rule("passed", "the context passes the name of the element and the text on as they are", 2)
	r.Rule("domain", "the domain used for the resolution comes from the options of this conversion", 2)
	r.Rule("provided", "every context that a conversion hands out has the resolution step and the domain", 1)
	r.Rule("against", "a relative destination is resolved against the domain on every path", 10)
	cfg, err := linkCfg(P)
	if err != nil {
		r.Bad("resolved", "configuration", "", "%v", err)
		return
	}
	clean := destClean()
	for _, k := range []struct{ name, attr string }{{"a", "href"}, {"img", "src"}} {
		cs := destCases(P, k.name, cfg, nil, clean)
		if len(cs) == 0 {
			r.Bad("resolved", k.name, "", "no renderer accepts the element")
		}
		for _, c := range cs {
			key := k.name + " by " + c.key
			t := newTmpl(`[^\]]*\]\({U}?( .*)?\)({K}|{W}|\s)*`)
			changed := ""
			cls := destClass(clean, k.name)
			n, bad := c.fit(&tmplMachine{t: t, class: func(e *Emit, vc VC, v AVal) string {
				s := cls(e, vc, v)
				if s == "U" {
					if w := e.A.altered(vc, clean, map[VC]bool{}); w != "" {
						changed = w
					}
				}
				return s
			}}, try)
			switch {
			case len(bad) > 0:
				r.Bad("resolved", key, P.pos(c.F.Fn.Pos()), "something else can be written as the destination: %s", strings.Join(first(bad, 3), "; "))
			case changed != "":
				r.Bad("resolved", key, P.pos(c.F.Fn.Pos()), "the resolved destination is changed before it is written: %s", changed)
			default:
				r.OK("resolved", key, P.pos(c.F.Fn.Pos()), "%d successful exits", n)
			}
			// what is asked for
			a := c.a
			done := map[ssa.CallInstruction]bool{}
			calls := 0
			a.walkCalls(c.F, func(F *Frame, site ssa.CallInstruction) {
				cc := site.Common()
				if !strings.HasSuffix(calleeName(cc), ".AssembleAbsoluteURL") || len(cc.Args) < 3 || done[site] {
					return
				}
				done[site] = true
				calls++
				args := cc.Args[len(cc.Args)-3:]
				tag := a.Eval(VC{F, args[1]})
				raw := a.Eval(VC{F, args[2]})
				p := P.ipos(site)
				ts, ok := tag.strConsts()
				switch {
				case !ok || len(ts) != 1 || ts[0] != k.name:
					r.Bad("kind", key, p, "the destination of %s is resolved as one of %s", k.name, tag)
				case !raw.Labels["attr:"+k.attr] || len(raw.Labels) != 1:
					r.Bad("kind", key, p, "the text that is resolved is not just the attribute %s (it comes from: %s)", k.attr, orElse(raw.labelList(), "a constant"))
				default:
					if w := a.altered(VC{F, args[2]}, bsAll().minus(wsBytes), map[VC]bool{}); w != "" {
						r.Bad("kind", key, p, "the attribute is changed before it is resolved: %s", w)
					} else {
						r.OK("kind", key, p, "resolved as %q from the attribute %s", k.name, k.attr)
					}
				}
			})
			if calls == 0 {
				r.Bad("kind", key, P.pos(c.F.Fn.Pos()), "the destination is never resolved")
			}
		}
	}

	// the context
	m := resolveMethod(P)
	conv := P.Method("converter", "Converter", "ConvertNode")
	if m == nil || conv == nil || len(m.Params) < 4 {
		r.Bad("passed", "method", "", "the method of the context was not found")
		return
	}
	a := newAI(P)
	root := a.Root(m)
	calls := resolveCalls(P, a, root)
	if len(calls) == 0 {
		r.Bad("passed", fkey(m), P.pos(m.Pos()), "no call of a function that resolves destinations was found")
		return
	}
	tagP, rawP := VC{root, m.Params[2]}, VC{root, m.Params[3]}
	ac := newAI(P)
	croot := ac.Root(conv)
	for _, rc := range calls {
		p := P.ipos(rc.site)
		name := fkey(rc.site.Parent())
		is := func(v ssa.Value, want VC) bool {
			os := a.values(VC{rc.F, v})
			for _, o := range os {
				if o.VC != want || o.Path != "" {
					return false
				}
			}
			return len(os) > 0
		}
		r.Check(is(rc.args[0], tagP), "passed", name+": element", p, "the name of the element is passed on")
		r.Check(is(rc.args[1], rawP), "passed", name+": text", p, "the text is passed on")
		src := &domSource{P: P, a: ac, conv: croot}
		src.fromMethod(a, root, VC{rc.F, rc.args[2]})
		if len(src.bad) > 0 {
			sort.Strings(src.bad)
			r.Bad("domain", name, p, "%s", strings.Join(src.bad, "; "))
		} else {
			r.OK("domain", name, p, "the domain comes from %s", orElse(strings.Join(src.good, ", "), "not decided"))
		}
		if len(src.bad) == 0 && len(src.good) == 0 && src.zero && !src.unknown {
			r.Bad("domain", name+": given", p, "the domain is always empty")
		} else {
			r.OK("domain", name+": given", p, "the domain is not always empty")
		}
	}
	checkProvided(P, r, a, root, calls, ac, croot)
	for _, f := range resolvers(P) {
		checkAgainst(P, r, f)
	}
}

// domSource follows the domain back to the options of the conversion.
type domSource struct {
	P       *Prog
	a       *AI // frames of ConvertNode
	conv    *Frame
	good    []string
	bad     []string
	zero    bool
	unknown bool
}

// ctxValueCall: the key of a call ctx.Value(key).
func ctxValueCall(a *AI, vc VC) (*ssa.Call, string, bool) {
	c, ok := vc.V.(*ssa.Call)
	if !ok || !strings.HasSuffix(calleeName(c.Common()), ".Value") || len(c.Call.Args) == 0 {
		return nil, "", false
	}
	arg := c.Call.Args[len(c.Call.Args)-1]
	return c, ctxKey(a, VC{vc.F, arg}), true
}

// ctxKey names a key by its type and value.
func ctxKey(a *AI, vc VC) string {
	for _, o := range a.values(vc) {
		if c, ok := o.V.(*ssa.Const); ok && c.Value != nil {
			return types.TypeString(c.Type(), nil) + ":" + c.Value.ExactString()
		}
		if o.Path == "" {
			return types.TypeString(o.V.Type(), nil) + ":" + o.V.String()
		}
	}
	return "?"
}

func (s *domSource) fromMethod(a *AI, root *Frame, vc VC) {
	s.keptBetween(a, vc, map[VC]bool{})
	for _, o := range a.values(vc) {
		if c, key, ok := ctxValueCall(a, o.VC); ok {
			recv := c.Call.Value
			if !c.Call.IsInvoke() {
				recv = c.Call.Args[0]
			}
			own := true
			for _, ro := range a.values(VC{o.F, recv}) {
				if p, ok := ro.V.(*ssa.Parameter); !ok || p.Parent() != root.Fn {
					own = false
					if _, isGlobal := ro.V.(*ssa.Global); isGlobal {
						s.bad = append(s.bad, "the domain is looked up in a context that is kept at package level")
					}
				}
			}
			if !own {
				s.unknown = true
				continue
			}
			found := false
			for _, pv := range providedValues(s.a, s.conv, key) {
				found = true
				s.fromConversion(pv, 0)
			}
			if !found {
				s.bad = append(s.bad, "no conversion provides the value "+key+" of the context")
			}
			continue
		}
		s.origin(a, o, false, 0)
	}
}

// keptBetween: a package variable that is written during a conversion and read here.
func (s *domSource) keptBetween(a *AI, vc VC, seen map[VC]bool) {
	if seen[vc] {
		return
	}
	seen[vc] = true
	switch x := vc.V.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.keptBetween(a, VC{vc.F, e}, seen)
		}
	case *ssa.Parameter:
		for _, g := range a.paramArgs(vc.F, x) {
			s.keptBetween(a, g, seen)
		}
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok || x.Op != token.MUL {
			return
		}
		for _, f := range s.P.Funcs {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					s.bad = append(s.bad, "the domain is taken from the package variable "+g.Name()+", which "+fkey(f)+" sets")
				}
			})
		}
	}
}

// providedValues: the values that are put into the context under a key.
func providedValues(a *AI, root *Frame, key string) []VC {
	var out []VC
	done := map[VC]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if calleeName(site.Common()) != "context.WithValue" {
			return
		}
		args := site.Common().Args
		if ctxKey(a, VC{F, args[1]}) == key {
			v := VC{F, args[2]}
			if !done[v] {
				done[v] = true
				out = append(out, v)
			}
		}
	})
	return out
}

func (s *domSource) fromConversion(vc VC, depth int) {
	for _, o := range s.a.values(vc) {
		s.origin(s.a, o, true, depth)
	}
}

func ptrNamed(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (s *domSource) origin(a *AI, o Org, inConv bool, depth int) {
	P := s.P
	path := strings.Trim(o.Path, "*")
	if strings.HasPrefix(path, "zero") {
		s.zero = true
		path = strings.TrimPrefix(path, "zero")
		if path == "" || ptrNamed(o.V.Type()) == "" {
			return
		}
		// the options set it later
	}
	switch x := o.V.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "" {
			s.zero = true
			return
		}
		s.bad = append(s.bad, "the domain can be the fixed text "+x.Value.String())
		return
	case *ssa.Global:
		s.bad = append(s.bad, "the domain is taken from the package variable "+x.Name())
		return
	}
	if path != "" {
		i := strings.LastIndex(path, ".")
		field := path[i+1:]
		owner := ptrNamed(o.V.Type())
		if strings.Count(path, ".") > 1 {
			owner = ""
		}
		if owner == "Converter" {
			s.bad = append(s.bad, "the domain is taken from the converter (field "+field+"), not from the options of the conversion")
			return
		}
		if owner != "" {
			fromOpt, other, n := optionStores(P, owner, field)
			switch {
			case other != "":
				s.bad = append(s.bad, fmt.Sprintf("the field %s.%s is also set at %s", owner, field, other))
			case fromOpt:
				s.good = append(s.good, "the option WithDomain (field "+owner+"."+field+")")
			case n > 0:
				s.bad = append(s.bad, fmt.Sprintf("the field %s.%s is not the one that WithDomain sets", owner, field))
			default:
				s.bad = append(s.bad, fmt.Sprintf("the field %s.%s is never set", owner, field))
			}
			return
		}
	}
	// a changed domain: what it is made of
	if c, ok := o.V.(*ssa.Call); ok && depth < 4 && path == "" && len(c.Call.Args) > 0 && isStrBytes(c.Type()) {
		n := calleeName(c.Common())
		if strings.HasPrefix(n, "strings.Trim") || n == "strings.Clone" {
			for _, oo := range a.values(VC{o.F, c.Call.Args[0]}) {
				s.origin(a, oo, inConv, depth+1)
			}
			return
		}
	}
	s.unknown = true
}

// optionStores: is the field set by the option, and where else?
func optionStores(P *Prog, owner, field string) (fromOpt bool, other string, n int) {
	for _, f := range P.Funcs {
		if fnPkgPath(f) != convPath {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || ptrNamed(fa.X.Type()) != owner {
				return
			}
			stt, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok || stt.Field(fa.Field).Name() != field {
				return
			}
			n++
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			v := st.Val
			for {
				if c, ok := v.(*ssa.Call); ok && strings.HasPrefix(calleeName(c.Common()), "strings.Trim") {
					v = c.Call.Args[0]
					continue
				}
				break
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			}
			switch x := v.(type) {
			case *ssa.FreeVar, *ssa.Parameter:
				if top.Name() == "WithDomain" {
					fromOpt = true
					return
				}
				_ = x
			case *ssa.Const:
				if top.Name() != "WithDomain" && x.Value != nil && constant.StringVal(x.Value) == "" {
					return
				}
			}
			other = P.ipos(st)
		})
	}
	return
}

// checkProvided: the context of a conversion has all values that the resolution looks up.
func checkProvided(P *Prog, r *Result, a *AI, root *Frame, calls []resolveCall, ac *AI, croot *Frame) {
	need := map[string]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if c, ok := site.(*ssa.Call); ok {
			if _, k, ok := ctxValueCall(a, VC{F, c}); ok && k != "?" {
				need[k] = true
			}
		}
	})
	var keys []string
	for k := range need {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// has: the context is derived from one that has the value on every path
	var has func(vc VC, key string, depth int, seen map[VC]bool) bool
	has = func(vc VC, key string, depth int, seen map[VC]bool) bool {
		if depth > 30 || seen[vc] {
			return seen[vc]
		}
		seen[vc] = true
		os := ac.values(vc)
		if len(os) == 0 {
			return false
		}
		for _, o := range os {
			ok := false
			if o.Path == "" {
				if c, isC := o.V.(*ssa.Call); isC {
					n := calleeName(c.Common())
					if strings.HasPrefix(n, "context.With") {
						if n == "context.WithValue" && ctxKey(ac, VC{o.F, c.Call.Args[1]}) == key {
							ok = true
						} else {
							ok = has(VC{o.F, c.Call.Args[0]}, key, depth+1, seen)
						}
					}
				}
				if x, isX := o.V.(*ssa.Extract); isX {
					if c, isC := x.Tuple.(*ssa.Call); isC && strings.HasPrefix(calleeName(c.Common()), "context.With") {
						ok = has(VC{o.F, c.Call.Args[0]}, key, depth+1, seen)
					}
				}
				if al, isA := o.V.(*ssa.Alloc); isA && ptrNamed(al.Type()) == "converterContext" {
					ok = true // checked where it is made
				}
			} else if strings.HasSuffix(o.Path, ".Context") && ptrNamed(o.V.Type()) == "converterContext" {
				ok = true
			}
			if !ok {
				return false
			}
		}
		return true
	}
	n := 0
	ac.eachFrame(croot, func(F *Frame) {
		instrs(F.Fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || ptrNamed(fa.X.Type()) != "converterContext" {
				return
			}
			stt := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if stt.Field(fa.Field).Name() != "Context" {
				return
			}
			n++
			for _, k := range keys {
				r.Check(has(VC{F, st.Val}, k, 0, map[VC]bool{}), "provided", fkey(F.Fn)+": "+k, P.ipos(st), "the new context has the value %s", k)
			}
		})
	})
	r.Count("contexts made", n)
	if len(keys) == 0 {
		r.OK("provided", "no values", "", "the resolution looks up no values of the context")
	}
	_ = calls
}

// checkAgainst: with a domain, relative destinations are resolved against it on all paths.
func checkAgainst(P *Prog, r *Result, f *ssa.Function) {
	if len(f.Params) < 3 {
		r.Bad("against", fkey(f), P.pos(f.Pos()), "the function has too few parameters")
		return
	}
	ps := f.Params[len(f.Params)-3:]
	for _, dom := range []string{"example.org", "https://example.org/sub/"} {
		for _, raw := range []string{"page", "/page", "../page?q=1", "?q=1", "page#part", "#part", "//cdn.example.net/x.png", "./page;v=1"} {
			for _, tag := range []string{"a", "img"} {
				a := newAI(P)
				root := a.Root(f)
				vals := map[VC]AVal{{root, ps[0]}: strConst(tag), {root, ps[1]}: strConst(raw), {root, ps[2]}: strConst(dom)}
				a.Hook = func(a *AI, o Org) (AVal, bool) {
					if o.Path == "" {
						if v, ok := vals[o.VC]; ok {
							return v, true
						}
					}
					// a base that is found in a way that is not followed here is taken to be there
					if b, ok := o.V.(*ssa.BinOp); ok && o.Path == "" && (b.Op == token.EQL || b.Op == token.NEQ) && isNilConst(b.Y) && isNamed(b.X.Type(), "net/url", "URL") {
						if v, ok := a.nilCompare(o.F, b); ok {
							if _, ok := v.single(); ok {
								return v, true
							}
						}
						x := VC{o.F, b.X}
						if a.reaches(x, VC{root, ps[2]}, 0, map[VC]bool{}) && !a.reaches(x, VC{root, ps[1]}, 0, map[VC]bool{}) {
							return boolConst(b.Op == token.NEQ), true
						}
					}
					return urlParse(a, o)
				}
				key := fmt.Sprintf("%s: %s of %s with %s", fkey(f), raw, tag, dom)
				bad := ""
				n := 0
				for _, s := range a.returnSites(root, 0) {
					n++
					if !a.viaReference(s.VC, VC{root, ps[2]}, VC{root, ps[1]}, 0, map[VC]bool{}) {
						bad = fmt.Sprintf("the value returned at %s is not resolved against the domain", P.pos(s.blk.Instrs[len(s.blk.Instrs)-1].Pos()))
					}
				}
				r.Check(bad == "" && n > 0, "against", key, P.pos(f.Pos()), "%s", orElse(bad, "resolved on all paths that can be taken"))
			}
		}
	}
}

// urlParse folds url.Parse of a constant.
func urlParse(a *AI, o Org) (AVal, bool) {
	nonNil := boolConst(true)
	null := AVal{Consts: map[string]constant.Value{"nil": nil}}
	if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && calleeName(c.Common()) == "(net/url.URL).IsAbs" {
		var v AVal
		for _, u := range a.values(VC{o.F, c.Call.Args[0]}) {
			if s, ok := urlParse(a, Org{u.VC, u.Path + ".Scheme"}); ok {
				if ss, ok := s.strConsts(); ok && len(ss) == 1 {
					v = joinV(v, boolConst(ss[0] != ""))
					continue
				}
			}
			return AVal{}, false
		}
		return v, !v.bot()
	}
	x, ok := o.V.(*ssa.Extract)
	if !ok {
		return AVal{}, false
	}
	c, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return AVal{}, false
	}
	n := calleeName(c.Common())
	if n != "net/url.Parse" && n != "net/url.ParseRequestURI" {
		return AVal{}, false
	}
	ss, ok := a.ev(VC{o.F, c.Call.Args[0]}).strConsts()
	if !ok || len(ss) != 1 {
		return AVal{}, false
	}
	u, err := url.Parse(ss[0])
	if n == "net/url.ParseRequestURI" {
		u, err = url.ParseRequestURI(ss[0])
	}
	path := strings.ReplaceAll(o.Path, "*", "")
	if x.Index == 1 {
		if path != "" {
			return AVal{}, false
		}
		if err == nil {
			return null, true
		}
		return nonNil, true
	}
	if err != nil {
		return null, path == ""
	}
	switch path {
	case "":
		return nonNil, true
	case ".Scheme":
		return strConst(u.Scheme), true
	case ".Host":
		return strConst(u.Host), true
	case ".Path":
		return strConst(u.Path), true
	case ".Opaque":
		return strConst(u.Opaque), true
	case ".Fragment":
		return strConst(u.Fragment), true
	}
	return AVal{}, false
}

// viaReference: the value is made from ResolveReference of the two parameters on every path.
func (a *AI) viaReference(vc, dom, raw VC, depth int, seen map[VC]bool) bool {
	if depth > 30 {
		return false
	}
	if seen[vc] {
		return true
	}
	seen[vc] = true
	if ss := a.step(vc); len(ss) > 0 {
		for _, s := range ss {
			if isNilConst(s.V) {
				continue
			}
			if !a.viaReference(s, dom, raw, depth+1, seen) {
				return false
			}
		}
		return true
	}
	c, ok := vc.V.(*ssa.Call)
	if !ok {
		if x, isX := vc.V.(*ssa.Extract); isX && x.Index == 0 {
			c, ok = x.Tuple.(*ssa.Call)
		}
		if !ok {
			return false
		}
	}
	arg := func(i int) VC { return VC{vc.F, c.Call.Args[i]} }
	switch n := calleeName(c.Common()); n {
	case "(net/url.URL).ResolveReference", "(net/url.URL).Parse":
		return a.reaches(arg(0), dom, 0, map[VC]bool{}) && a.reaches(arg(1), raw, 0, map[VC]bool{})
	case "(net/url.URL).String", "(net/url.URL).Redacted":
		return a.viaReference(arg(0), dom, raw, depth+1, seen)
	case "(strings.Replacer).Replace":
		return a.viaReference(arg(1), dom, raw, depth+1, seen)
	case "strings.Map":
		return a.viaReference(arg(1), dom, raw, depth+1, seen)
	default:
		if strings.HasPrefix(n, "strings.") && len(c.Call.Args) > 0 {
			return a.viaReference(arg(0), dom, raw, depth+1, seen)
		}
		if (n == "(strings.Builder).String" || n == "(bytes.Buffer).String") && len(c.Call.Args) > 0 {
			return a.bufferVia(vc.F, c.Call.Args[0], dom, raw, depth, seen)
		}
	}
	return false
}

// bufferVia: a text that is put together again from the characters of a resolved one.
func (a *AI) bufferVia(F *Frame, buf ssa.Value, dom, raw VC, depth int, seen map[VC]bool) bool {
	found := false
	for _, o := range a.values(VC{F, buf}) {
		a.eachUse(o.VC, func(u Use) {
			call, ok := u.In.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, t := range a.writeTokens(u.F, call, o.VC) {
				if t.VC.V == nil {
					continue
				}
				v := t.VC
				for {
					switch x := v.V.(type) {
					case *ssa.Convert:
						v = VC{v.F, x.X}
						continue
					case *ssa.Index:
						v = VC{v.F, x.X}
						continue
					case *ssa.Lookup:
						v = VC{v.F, x.X}
						continue
					case *ssa.Extract:
						if nx, ok := x.Tuple.(*ssa.Next); ok {
							if rg, ok := nx.Iter.(*ssa.Range); ok {
								v = VC{v.F, rg.X}
								continue
							}
						}
					case *ssa.UnOp:
						if ia, ok := x.X.(*ssa.IndexAddr); ok {
							v = VC{v.F, ia.X}
							continue
						}
					}
					break
				}
				if a.viaReference(v, dom, raw, depth+1, seen) {
					found = true
				}
			}
		})
	}
	return found
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// reaches: the value is computed from want.
func (a *AI) reaches(vc, want VC, depth int, seen map[VC]bool) bool {
	if vc == want {
		return true
	}
	if depth > 40 || seen[vc] {
		return false
	}
	seen[vc] = true
	if ss := a.step(vc); len(ss) > 0 {
		for _, s := range ss {
			if a.reaches(s, want, depth+1, seen) {
				return true
			}
		}
		return false
	}
	var c *ssa.Call
	switch x := vc.V.(type) {
	case *ssa.Call:
		c = x
	case *ssa.Extract:
		c, _ = x.Tuple.(*ssa.Call)
	case *ssa.BinOp:
		return a.reaches(VC{vc.F, x.X}, want, depth+1, seen) || a.reaches(VC{vc.F, x.Y}, want, depth+1, seen)
	case *ssa.Slice:
		return a.reaches(VC{vc.F, x.X}, want, depth+1, seen)
	case *ssa.FieldAddr:
		return a.reaches(VC{vc.F, x.X}, want, depth+1, seen)
	case *ssa.UnOp:
		return a.reaches(VC{vc.F, x.X}, want, depth+1, seen)
	}
	if c != nil {
		for _, g := range c.Call.Args {
			if a.reaches(VC{vc.F, g}, want, depth+1, seen) {
				return true
			}
		}
		frs, _ := a.calleeFrames(vc.F, c)
		for _, fr := range frs {
			for i := 0; i < fr.Fn.Signature.Results().Len(); i++ {
				for _, s := range a.returns(fr, i) {
					if a.reaches(s, want, depth+1, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}
