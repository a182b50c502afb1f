package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The text of code (C31).

func init() { register("C31", checkC31) }

var space = bsOf(" \t\n\r\f\v")

// losses follows a text back to the nodes from which it was collected and finds the steps that take
// a part of it away or change it.
type losses struct {
	a     *AI
	block bool // of a code block: only one line break at the end may be cut off
	got   map[string]string
	seen  map[string]bool
	bufs  []VC
	label string // what is followed (the data of nodes, if it is not set)
}

func (l *losses) follows(v AVal) bool { return v.Labels[orElse(l.label, "nodedata")] }

func (l *losses) bad(in ssa.Value, format string, args ...any) {
	p := ""
	if i, ok := in.(ssa.Instruction); ok {
		p = l.a.P.ipos(i)
	}
	s := fmt.Sprintf(format, args...)
	if _, ok := l.got[s]; !ok {
		l.got[s] = p
	}
}

// trace: cuts is the number of line breaks that were cut off; node: the text is that of one node.
func (l *losses) trace(vc VC, cuts int, node bool) {
	a := l.a
	k := fmt.Sprintf("%p %p %d %v", vc.F, vc.V, cuts, node)
	if l.seen[k] || len(l.seen) > 3000 {
		return
	}
	l.seen[k] = true
	if in, ok := vc.V.(ssa.Instruction); ok && (isByteType(vc.V.Type()) || isCharType(vc.V.Type())) && innerLoop(vc.F.Fn, in.Block()) != nil {
		l.scanned(vc.F, cuts, node)
		return
	}
	if !isStrBytes(vc.V.Type()) || !l.follows(a.Eval(vc)) {
		return
	}
	if ss := a.step(vc); len(ss) > 0 {
		for _, s := range ss {
			l.trace(s, cuts, node)
		}
		return
	}
	F := vc.F
	newline := func(in ssa.Value) int {
		if node {
			l.bad(in, "a part of the text of a node is cut off")
		} else if l.block && cuts > 0 {
			l.bad(in, "more than one line break is cut off")
		}
		return 1
	}
	spaces := func(in ssa.Value, what string) {
		if node {
			l.bad(in, "white space of the text of a node is %s", what)
		} else if l.block {
			l.bad(in, "white space of a code block is %s", what)
		}
	}
	switch x := vc.V.(type) {
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			l.trace(VC{F, x.X}, cuts, node)
			return
		}
		if _, ok := a.cutSpace(vc); ok {
			spaces(x, "cut off")
			l.trace(VC{F, x.X}, cuts, node)
			return
		}
		switch s, known := l.cutOff(F, x); {
		case !known:
		case s == "\n":
			cuts = newline(x)
		case s == "?":
			l.bad(x, "a part of the code is cut off without a look at it")
		default:
			l.bad(x, "%q is cut off", s)
		}
		l.trace(VC{F, x.X}, cuts, node)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && l.label != "" {
			// a part of a text that was split
			for _, o := range a.values(VC{F, ia.X}) {
				if sc, ok := o.V.(*ssa.Call); ok {
					for _, y := range sc.Call.Args {
						if isStrBytes(y.Type()) {
							l.trace(VC{o.F, y}, cuts, node)
						}
					}
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			l.trace(VC{F, x.X}, cuts, node)
			l.trace(VC{F, x.Y}, cuts, node)
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return
		}
		n := strings.TrimPrefix(strings.TrimPrefix(calleeName(c.Common()), "bytes."), "strings.")
		switch n {
		case "CutSuffix", "CutPrefix":
			l.affix(F, c, n == "CutSuffix", newline)
			l.trace(VC{F, c.Call.Args[0]}, cuts, node)
		case "Cut":
			l.bad(c, "a part of the code is cut off")
			l.trace(VC{F, c.Call.Args[0]}, cuts, node)
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		short := strings.TrimPrefix(strings.TrimPrefix(n, "bytes."), "strings.")
		arg := func(i int) VC { return VC{F, x.Call.Args[i]} }
		switch short {
		case "TrimSpace":
			spaces(x, "cut off")
			l.trace(arg(0), cuts, node)
			return
		case "Trim", "TrimLeft", "TrimRight":
			if rest := a.Eval(arg(1)).bytes().minus(space); !rest.empty() {
				l.bad(x, "%s is cut off", rest)
			} else {
				spaces(x, "cut off")
			}
			l.trace(arg(0), cuts, node)
			return
		case "TrimSuffix", "TrimPrefix":
			cuts = l.affix(F, x, short == "TrimSuffix", newline)
			l.trace(arg(0), cuts, node)
			return
		case "ReplaceAll", "Replace":
			ss, ok := a.Eval(arg(1)).strConsts()
			for _, s := range ss {
				b := strConst(s).bytes()
				switch {
				case l.label != "" && l.keeps(arg(2), s):
				case (s == "\r" || s == "\r\n") && l.isNewline(arg(2)):
					// another way to write a line break
				case !b.minus(space).empty():
					l.bad(x, "%q is replaced", s)
				case l.block && s != "\n":
					spaces(x, "replaced")
				case node:
					spaces(x, "replaced")
				}
			}
			_ = ok
			l.trace(arg(0), cuts, node)
			return
		case "ToLower", "ToUpper", "Title", "ToTitle", "ToValidUTF8":
			l.bad(x, "%s is applied", n)
			l.trace(arg(0), cuts, node)
			return
		case "Fields":
			spaces(x, "replaced")
		case "builtin.append":
			l.scanned(F, cuts, node)
		case "(bytes.Buffer).Bytes", "(bytes.Buffer).String", "(Builder).String", "(strings.Builder).String":
			l.buffer(F, x)
			return
		}
		for i, y := range x.Call.Args {
			if isStrBytes(y.Type()) {
				l.trace(arg(i), cuts, node)
			}
		}
		for _, e := range x.Call.Args {
			// lists of parts
			for _, o := range a.values(VC{F, e}) {
				if sc, ok := o.V.(*ssa.Call); ok && o.Path == "" {
					for _, y := range sc.Call.Args {
						if isStrBytes(y.Type()) && sc != x {
							l.trace(VC{o.F, y}, cuts, node)
						}
					}
				}
			}
		}
	}
}

// isNewline: the text is one line break.
func (l *losses) isNewline(vc VC) bool {
	ss, ok := l.a.Eval(vc).strConsts()
	return ok && len(ss) == 1 && ss[0] == "\n"
}

// keeps: the replacement contains what is replaced.
func (l *losses) keeps(by VC, s string) bool {
	v := l.a.Eval(by)
	if ss, ok := v.strConsts(); ok {
		for _, r := range ss {
			if !strings.Contains(r, s) {
				return false
			}
		}
		return true
	}
	return strConst(s).bytes().minus(v.bytes()).empty()
}

// affix: a fixed prefix or suffix is cut off.
func (l *losses) affix(F *Frame, c *ssa.Call, suffix bool, newline func(in ssa.Value) int) int {
	ss, ok := l.a.Eval(VC{F, c.Call.Args[1]}).strConsts()
	if !ok {
		return 0
	}
	n := 0
	for _, s := range ss {
		switch {
		case s == "":
		case s == "\n" && suffix:
			n = newline(c)
		case strConst(s).bytes().minus(space).empty() && !l.block:
			newline(c)
		default:
			l.bad(c, "%q is cut off", s)
		}
	}
	return n
}

// cutOff: what is known about the part that a slice expression takes away ("?" if nothing is tested).
func (l *losses) cutOff(F *Frame, x *ssa.Slice) (string, bool) {
	a := l.a
	if innerLoop(F.Fn, x.Block()) != nil {
		return "", false
	}
	same := func(v ssa.Value) bool {
		return v == x.X || a.skey(VC{F, v}, 0) == a.skey(VC{F, x.X}, 0)
	}
	conds := 0
	for d := x.Block().Idom(); d != nil; d = d.Idom() {
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		side := -1
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && (s == x.Block() || s.Dominates(x.Block())) {
				side = k
			}
		}
		if side < 0 {
			continue
		}
		conds++
		switch c := ifi.Cond.(type) {
		case *ssa.Call:
			n := calleeName(c.Common())
			if len(c.Call.Args) == 2 && same(c.Call.Args[0]) && (strings.HasSuffix(n, ".HasSuffix") || strings.HasSuffix(n, ".HasPrefix")) {
				if ss, ok := a.Eval(VC{F, c.Call.Args[1]}).strConsts(); ok && len(ss) == 1 && side == 0 {
					if strings.HasSuffix(n, "Prefix") && l.block {
						return "?", true
					}
					if !l.lenIs(F, x, len(ss[0])) {
						return "", false
					}
					return ss[0], true
				} else if !ok && side == 0 && l.label != "" {
					return "?", true
				}
			}
		case *ssa.BinOp:
			for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				is, ok := a.Eval(VC{F, p[1]}).intConsts()
				if !ok || len(is) != 1 || !isCharType(p[0].Type()) && !isByteType(p[0].Type()) {
					continue
				}
				if (c.Op == token.EQL) == (side == 0) && is[0] < 128 {
					if !l.lenIs(F, x, 1) {
						return "", false
					}
					return string(rune(is[0])), true
				}
			}
		}
	}
	if conds == 0 || l.label != "" && l.atIndex(F, x) {
		return "?", true
	}
	return "", false
}

// atIndex: the text is cut at a place that was searched for, and the other part is not used.
func (l *losses) atIndex(F *Frame, x *ssa.Slice) bool {
	search := func(v ssa.Value) ssa.Value {
		for n := 0; n < 5 && v != nil; n++ {
			switch y := v.(type) {
			case *ssa.BinOp:
				if _, ok := y.Y.(*ssa.Const); !ok {
					return nil
				}
				v = y.X
			case *ssa.Call:
				s := calleeName(y.Common())
				if i := strings.LastIndexByte(s, '.'); (strings.HasPrefix(s, "bytes.") || strings.HasPrefix(s, "strings.")) && strings.Contains(s[i:], "Index") {
					return y
				}
				return nil
			default:
				return nil
			}
		}
		return nil
	}
	at := search(x.Low)
	if at == nil {
		at = search(x.High)
	}
	if at == nil {
		return false
	}
	other := false
	instrs(F.Fn, func(in ssa.Instruction) {
		if y, ok := in.(*ssa.Slice); ok && y != x && (search(y.Low) == at && search(x.High) == at || search(y.High) == at && search(x.Low) == at) {
			other = true
		}
	})
	return !other
}

// lenIs: the slice takes n bytes away at the end (or at the beginning).
func (l *losses) lenIs(F *Frame, x *ssa.Slice, n int) bool {
	if x.Low != nil && !isZeroConst(x.Low) {
		return false
	}
	b, ok := x.High.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return false
	}
	is, ok := l.a.Eval(VC{F, b.Y}).intConsts()
	return ok && len(is) == 1 && is[0] == int64(n)
}

// buffer: the text that was written to a local buffer.
func (l *losses) buffer(F *Frame, c *ssa.Call) {
	a := l.a
	for _, o := range a.values(VC{F, c.Call.Args[0]}) {
		if _, ok := o.V.(*ssa.Alloc); !ok || o.Path != "" {
			continue
		}
		l.scanned(F, 0, false)
		l.bufs = append(l.bufs, o.VC)
		a.eachUse(o.VC, func(u Use) {
			call, ok := u.In.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, t := range a.writeTokens(u.F, call, o.VC) {
				if t.Kind == tkWrite && t.VC.V != nil {
					// what one visit of a node collects
					l.trace(t.VC, 0, l.label == "" && len(findEnclosing(a, u.F)) > 0)
				}
			}
		})
	}
}

// scanned: the texts of which the function looks at the characters one by one.
func (l *losses) scanned(F *Frame, cuts int, node bool) {
	instrs(F.Fn, func(in ssa.Instruction) {
		var x ssa.Value
		switch y := in.(type) {
		case *ssa.IndexAddr:
			x = y.X
		case *ssa.Index:
			x = y.X
		case *ssa.Range:
			x = y.X
		}
		if x != nil && isStrBytes(x.Type()) {
			l.trace(VC{F, x}, cuts, node)
		}
	})
}

// findEnclosing: the frames above in which a function calls itself.
func findEnclosing(a *AI, F *Frame) []*Frame {
	var out []*Frame
	for G := F; G != nil; G = G.Up {
		rec := false
		instrs(G.Fn, func(in ssa.Instruction) {
			if site, ok := in.(ssa.CallInstruction); ok && a.enters(G, site, G.Fn) {
				rec = true
			}
		})
		if rec {
			out = append(out, G)
		}
	}
	return out
}

func checkC31(P *Prog, r *Result) {
	r.Rule("only-collected", "code is collected from the text nodes: neither text that is marked for escaping nor rendered markdown is written", 6)
	r.Rule("unchanged", "no character of the code is replaced by other characters (except for white space)", 6)
	r.Rule("nothing-cut", "on the way to the output only white space of code spans, and one line break at the end of code blocks, is taken away", 6)
	r.Rule("line-breaks", "every line break inside of a code block is protected from the later steps", 1)
	r.Rule("kept", "a loop that goes through the characters of the code keeps all of them", 6)
	r.Rule("all-nodes", "the collector visits all children of every element, except for the contents of style, script and textarea", 2)
	r.Rule("text-nodes", "the collector takes the text of every text node", 2)
	var names []string
	for n := range codeElements {
		names = append(names, n)
	}
	sort.Strings(names)
	all := bsAll()
	for _, name := range names {
		block := name == "pre"
		allowed := space
		if block {
			allowed = bsOf("\uf002")
		}
		cases := func(in bset) []*rcase { return handlerCases(P, Scen{Name: name, Extra: textHook(in, bsOf("ab"))}) }
		// labels, cuts
		rendered, n := "", 0
		raw := ""
		writes := map[string]bool{}
		cuts := map[string]string{}
		var pos string
		for _, c := range cases(all) {
			m := &pieceMachine{}
			c.run(m)
			ls := &losses{a: c.a, block: block, got: map[string]string{}, seen: map[string]bool{}}
			for _, p := range m.got {
				pos = P.pos(c.F.Fn.Pos())
				for _, lb := range []string{"children", "html", "escaped"} {
					if p.v.Labels[lb] {
						rendered = c.key + " writes text that is not the plain text of the nodes (" + lb + ")"
					}
				}
				if p.vc.V != nil && p.v.Labels["nodedata"] {
					n++
					if p.v.bytes().has('\n') {
						raw = c.key + " writes code with line breaks that the later steps can change"
					}
					writes[c.key] = true
					ls.trace(p.vc, 0, len(findEnclosing(c.a, p.vc.F)) > 0)
				}
			}
			for k, v := range ls.got {
				cuts[k] = v
			}
			if len(c.a.escapeCalls(c.F)) > 0 {
				rendered = c.key + " marks the code for escaping or renders the children (" + c.a.escapeCalls(c.F)[0] + ")"
			}
		}
		if n == 0 {
			rendered = orElse(rendered, "no renderer writes the text of the nodes")
		}
		r.Check(rendered == "", "only-collected", name, pos, "%s", orElse(rendered, fmt.Sprintf("%d texts are written", n)))
		var bad []string
		for k, v := range cuts {
			bad = append(bad, k+" at "+v)
		}
		sort.Strings(bad)
		r.Check(len(bad) == 0, "nothing-cut", name, pos, "%s", orElse(strings.Join(first(bad, 3), "; "), "nothing else is cut off"))
		if block {
			r.Check(raw == "", "line-breaks", name, pos, "%s", orElse(raw, "no line break of the code is written as it is"))
		}
		// characters
		bad = nil
		for ch := 0; ch < 128; ch++ {
			if ch > 'b' && ch <= 'z' || ch > '1' && ch <= '9' || ch > 'B' && ch < 'Z' || ch == 'a' {
				continue
			}
			in := bsOf("ab")
			in.add(byte(ch))
			for _, c := range cases(in) {
				if !writes[c.key] {
					continue
				}
				m := &pieceMachine{}
				c.run(m)
				for _, p := range m.got {
					if !p.v.Labels["nodedata"] {
						continue
					}
					out := p.v.bytes().minus(in)
					if block && (ch == '\n' || ch == '\r') || !block && space.has(byte(ch)) {
						out = out.minus(allowed)
					} else {
						// line breaks of br and div
						out = out.minus(allowed)
					}
					if !out.empty() {
						bad = append(bad, fmt.Sprintf("code with %q can be written with %s", rune(ch), out))
					}
				}
			}
		}
		r.Check(len(bad) == 0, "unchanged", name, pos, "%s", orElse(strings.Join(first(uniq(bad), 3), "; "), "nothing else is written"))
		// loops
		lost := bset{}
		for _, c := range cases(all) {
			c := c
			if !writes[c.key] {
				continue
			}
			skip := space
			if block {
				skip = bset{}
			}
			ls, ok := lostIn("nodedata", skip, func(h leafHook, data bset) (*AI, *Frame) {
				for _, d := range handlerCases(P, Scen{Name: name, Extra: func(a *AI, o Org) (AVal, bool) {
					if v, ok := h(a, o); ok {
						return v, ok
					}
					return textHook(data, bsOf("ab"))(a, o)
				}}) {
					if d.key == c.key {
						return d.a, d.F
					}
				}
				return nil, nil
			}, func(G *Frame) bool { return P.InLib(G.Fn) })
			if ok {
				lost = lost.or(ls)
			}
		}
		r.Check(lost.empty(), "kept", name, pos, "%s", ifelse(lost.empty(), "no loop loses a character", "these characters can get lost: "+lost.String()))
	}
	// the collectors
	for _, name := range []string{"pre", "code"} {
		for _, c := range handlerCases(P, Scen{Name: name}) {
			key := name + " by " + c.key
			if !c.a.collects(c.F) {
				continue
			}
			found := false
			for _, w := range findWalkers(c.a, c.F) {
				a := c.a
				n := w.leaf(a)
				old := a.Hook
				with := func(name string) {
					sc := Scen{Name: name, Node: n, Extra: hasParts(&n)}
					a.setHook(func(a *AI, o Org) (AVal, bool) { return sc.hook(a, o) })
				}
				takes := func(F *Frame, in ssa.Instruction) bool {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						return false
					}
					for _, x := range call.Common().Args {
						if !isStrBytes(x.Type()) {
							continue
						}
						for _, o := range a.values(VC{F, x}) {
							if o.VC == n && cleanPath(o.Path) == ".Data" {
								nm := calleeName(call.Common())
								if strings.Contains(nm, ").Write") || nm == "builtin.append" || strings.HasSuffix(nm, ".WriteString") {
									return true
								}
							}
						}
					}
					return false
				}
				with("#text")
				any := false
				a.walkCalls(w.F, func(F *Frame, site ssa.CallInstruction) {
					if takes(F, site) {
						any = true
					}
				})
				if !any {
					a.setHook(old)
					continue
				}
				found = true
				s := &Seq{a: a}
				s.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
					if takes(F, in) {
						return "taken", true
					}
					if site, ok := in.(ssa.CallInstruction); ok && a.enters(F, site, w.F.Fn) {
						return q, true
					}
					return q, false
				}
				good := true
				for _, q := range s.Run(w.F, "not") {
					if q != "taken" {
						good = false
					}
				}
				pos := P.pos(w.F.Fn.Pos())
				r.Check(good, "text-nodes", key, pos, "%s", ifelse(good, "the text of every text node is taken", "there is a path on which the text of a text node is not taken"))
				var bad []string
				for _, nm := range append([]string{"span", "a", "b", "div", "p", "code", "i", "em", "td", "li", "h1", "kbd", "pre", "table", "tr"}, plainElements...) {
					with(nm)
					if ok, why := visitsChildren2(a, w, false); !ok {
						bad = append(bad, nm+": "+why)
					}
				}
				r.Check(len(bad) == 0, "all-nodes", key, pos, "%s", orElse(strings.Join(first(bad, 3), "; "), "all children are visited"))
				a.setHook(old)
				break
			}
			if !found {
				r.OK("text-nodes", key, P.pos(c.F.Fn.Pos()), "not decided: no recursive collector was found")
				r.OK("all-nodes", key, P.pos(c.F.Fn.Pos()), "not decided: no recursive collector was found")
			}
		}
	}
}

// collects: the renderer reads the data of nodes to write it.
func (a *AI) collects(F *Frame) bool {
	old := a.Hook
	a.setHook(func(a *AI, o Org) (AVal, bool) {
		if v, ok := textHook(bsAll(), bsAll())(a, o); ok {
			return v, ok
		}
		return old(a, o)
	})
	defer a.setHook(old)
	for _, w := range []string{"Write", "WriteString"} {
		found := false
		a.walkCalls(F, func(G *Frame, site ssa.CallInstruction) {
			c := site.Common()
			n := calleeName(c)
			if strings.HasSuffix(n, "."+w) && len(c.Args) > 0 && isStrBytes(c.Args[len(c.Args)-1].Type()) && a.Eval(VC{G, c.Args[len(c.Args)-1]}).Labels["nodedata"] {
				found = true
			}
		})
		if found {
			return true
		}
	}
	return false
}

// escapeCalls: calls that mark text for escaping or render nodes.
func (a *AI) escapeCalls(F *Frame) []string {
	var out []string
	a.walkCalls(F, func(G *Frame, site ssa.CallInstruction) {
		n := calleeName(site.Common())
		for _, s := range []string{".EscapeContent", ".RenderNodes", ".RenderChildNodes"} {
			if strings.HasSuffix(n, "converter.Context)"+s) {
				out = append(out, a.P.ipos(site))
			}
		}
	})
	return out
}
