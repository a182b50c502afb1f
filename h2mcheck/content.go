package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the renderers do not lose the content of an element.

func init() { register("C22", checkC22) }

// contentMachine: the state is a letter ("0" nothing of the content is written yet, "E" it was found to be
// empty, "W" content is written, "H" handed over to something else, "!" a part was skipped) and the stack
// of the loops over the parts of the content that are being run, with "+" if the part was written.
type contentMachine struct {
	bad    map[string]string
	writes map[string]bool
}

func (m *contentMachine) Start() string                    { return "0" }
func (m *contentMachine) Text(e *Emit, q, s string) string { return q }
func isContentVal(v AVal) bool {
	return v.Labels["children"] || v.Labels["nodedata"] || v.Labels["html"]
}
func (m *contentMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	if isContentVal(v) {
		return m.wrote(q)
	}
	return q
}

// replaced: helpers that return nothing in place of the content.
func (c *rcase) replaced() map[string]string {
	a := c.a
	bad := map[string]string{}
	a.eachFrame(c.F, func(F *Frame) {
		if F == c.F || F.Fn.Signature.Results().Len() == 0 || !isStrBytes(F.Fn.Signature.Results().At(0).Type()) || !a.P.InLib(F.Fn) {
			return
		}
		rss := a.returnSites(F, 0)
		has := false
		for _, rs := range rss {
			has = has || a.Eval(rs.VC).Labels["children"]
		}
		for _, rs := range rss {
			if has && emptyLeaf(rs.VC.V) && !emptyAt(a, F, rs.blk) {
				bad["the content is dropped in "+fkey(F.Fn)] = a.P.pos(rs.blk.Instrs[len(rs.blk.Instrs)-1].Pos())
			}
		}
	})
	return bad
}

// removed: parts of a list of contents are only removed if they are empty.
func (c *rcase) removed() map[string]string {
	a := c.a
	bad := map[string]string{}
	a.walkCalls(c.F, func(F *Frame, site ssa.CallInstruction) {
		n := genericName(calleeName(site.Common()))
		args := site.Common().Args
		if len(args) < 2 || !isContainer(args[0].Type()) || !isContentVal(a.Eval(VC{F, args[0]})) {
			return
		}
		switch n {
		case "slices.DeleteFunc":
			for _, fr := range a.argFrames(F, site, args[1]) {
				if !emptyResult(a, fr, true) {
					bad["parts of the content that are not known to be empty are removed"] = a.P.ipos(site)
				}
			}
		case "slices.Delete":
			if !emptyAt(a, F, site.Block()) {
				bad["a part of the content that is not known to be empty is removed"] = a.P.ipos(site)
			}
		case "slices.Compact", "slices.CompactFunc":
			bad["parts of the content that are equal to others are removed"] = a.P.ipos(site)
		}
	})
	return bad
}

func genericName(s string) string {
	if i := strings.IndexByte(s, '['); i >= 0 {
		return s[:i]
	}
	return s
}

// argFrames: the frames in which a library function calls the function that it is given.
func (a *AI) argFrames(F *Frame, site ssa.CallInstruction, fn ssa.Value) []*Frame {
	var out []*Frame
	for _, o := range a.values(VC{F, fn}) {
		switch x := o.V.(type) {
		case *ssa.Function:
			out = append(out, a.frame(x, site, F, nil, nil))
		case *ssa.MakeClosure:
			if f, ok := x.Fn.(*ssa.Function); ok {
				out = append(out, a.frame(f, site, F, x, o.F))
			}
		}
	}
	return out
}

// everyRound: the loop goes on to the next part only if this one is empty.
func everyRound(a *AI, F *Frame, h *ssa.BasicBlock) bool {
	var l *loop
	for _, x := range loopsOf(F.Fn) {
		if x.head == h {
			l = x
		}
	}
	if l == nil {
		return false
	}
	fi := a.feasible(F)
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !ok {
			return
		}
		seen[b] = true
		ifi, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if fi.dead[[2]int{b.Index, s.Index}] || !l.body[s] {
				continue
			}
			if isIf && b != h && b.Succs[0] != b.Succs[1] && emptyFact(a, F, ifi.Cond, i == 0) {
				continue
			}
			if s == h {
				ok = false
				return
			}
			walk(s)
		}
	}
	walk(h)
	return ok
}

// blankRound: the loop over the characters goes on only if the character is white space.
func blankRound(a *AI, F *Frame, h *ssa.BasicBlock) bool {
	body := loopBlocks(F.Fn, h)
	old := a.Hook
	defer a.setHook(old)
	for _, ch := range []int64{'a', '#', '.', 0x80, 0xe4, 0x2014} {
		a.setHook(func(a *AI, o Org) (AVal, bool) {
			if o.Path == "" && o.F == F {
				switch x := o.V.(type) {
				case *ssa.UnOp:
					if ia, ok := x.X.(*ssa.IndexAddr); ok && isStrBytes(ia.X.Type()) {
						return intConst(ch & 0xff), true
					}
				case *ssa.Index:
					return intConst(ch & 0xff), true
				case *ssa.Lookup:
					return intConst(ch & 0xff), true
				case *ssa.Extract:
					if _, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
						return intConst(ch), true
					}
				}
			}
			if old != nil {
				return old(a, o)
			}
			return AVal{}, false
		})
		fi := a.feasible(F)
		for _, p := range h.Preds {
			if body[p] && fi.live[p.Index] && !fi.dead[[2]int{p.Index, h.Index}] {
				return false
			}
		}
	}
	return true
}

// emptyAt: the content is known to be empty in this block.
func emptyAt(a *AI, F *Frame, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		if isLoopHeader(p) && !loopBlocks(F.Fn, p)[d] {
			if c := loopText(p); c != nil && isContentVal(a.Eval(VC{F, c})) && blankRound(a, F, p) {
				return true
			}
			if c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if bo, ok := c.Cond.(*ssa.BinOp); ok && loopList(bo) != nil && everyRound(a, F, p) {
					return true
				}
			}
		}
		if ifi, isIf := p.Instrs[len(p.Instrs)-1].(*ssa.If); isIf && p.Succs[0] != p.Succs[1] && emptyFact(a, F, ifi.Cond, p.Succs[0] == d) {
			return true
		}
	}
	return false
}

// wrote: content is written (in the loop that is run).
func (m *contentMachine) wrote(q string) string {
	if q == "!" || q == "H" {
		return q
	}
	if i := strings.LastIndexByte(q, '/'); i >= 0 {
		return strings.TrimSuffix(q, "+") + "+"
	}
	return "W"
}
func (m *contentMachine) Node(e *Emit, q string, k tkKind, vc VC) string {
	if k == tkOpaque {
		return "H"
	}
	return m.wrote(q)
}
func (m *contentMachine) Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string {
	if q == "!" || q == "H" {
		return q
	}
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	if b, ok := cond.(*ssa.BinOp); ok {
		if list := loopList(b); list != nil && isContentVal(e.A.Eval(VC{F, list})) && m.loopWrites(e, F, b.Block()) {
			key := fmt.Sprintf("%d:%d", F.id, b.Block().Index)
			stack := strings.Split(q, "/")
			for i, s := range stack {
				if i == 0 || strings.TrimSuffix(s, "+") != key {
					continue
				}
				if i != len(stack)-1 {
					m.bad["a loop over the parts of the content is left early"] = e.A.P.ipos(b)
					return "!"
				}
				if !strings.HasSuffix(s, "+") {
					m.bad["a part of the content is skipped"] = e.A.P.ipos(b)
					return "!"
				}
				q = strings.Join(stack[:i], "/")
			}
			if taken {
				return q + "/" + key
			}
			return m.wrote(q)
		}
	}
	if h := loopText(condBlock(cond)); h != nil && !taken && condBlock(cond).Instrs[len(condBlock(cond).Instrs)-1].(*ssa.If).Cond == cond && isContentVal(e.A.Eval(VC{F, h})) && m.loopWrites(e, F, condBlock(cond)) {
		return m.wrote(q) // which characters are written is checked by the rule kept
	}
	if emptyFact(e.A, F, cond, taken) {
		if q == "0" {
			return "E"
		}
		if strings.Contains(q, "/") {
			return m.wrote(q)
		}
	}
	return q
}

// loopWrites: the loop writes something.
func (m *contentMachine) loopWrites(e *Emit, F *Frame, h *ssa.BasicBlock) bool {
	key := fmt.Sprintf("%d:%d %p %v", F.id, h.Index, e.acc, e.Root)
	if w, ok := m.writes[key]; ok {
		return w
	}
	w := false
	for _, l := range loopsOf(F.Fn) {
		if l.head != h {
			continue
		}
		for b := range l.body {
			for _, in := range b.Instrs {
				if e.acc != nil {
					w = w || len(e.accTokens(F, in)) > 0
				} else if c, ok := in.(*ssa.Call); ok {
					w = w || len(e.A.writeTokens(F, c, e.Root)) > 0
				}
			}
		}
	}
	m.writes[key] = w
	return w
}

// loopList: the condition of a loop over all parts of a list.
func loopList(b *ssa.BinOp) ssa.Value {
	if b.Op != token.LSS || !isLoopHeader(b.Block()) {
		return nil
	}
	c, ok := b.Y.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "builtin.len" {
		return nil
	}
	x := c.Call.Args[0]
	s, ok := x.Type().Underlying().(*types.Slice)
	if !ok || !isContainer(x.Type()) || !(isStrBytes(s.Elem()) || isContainer(s.Elem())) {
		return nil
	}
	return x
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func condBlock(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// loopText: the block is the header of a loop over the characters of this text.
func loopText(b *ssa.BasicBlock) ssa.Value {
	if b == nil || len(b.Instrs) == 0 || !isLoopHeader(b) {
		return nil
	}
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	switch c := ifi.Cond.(type) {
	case *ssa.BinOp:
		for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if l, ok := p[1].(*ssa.Call); ok && calleeName(l.Common()) == "builtin.len" && isStrBytes(l.Call.Args[0].Type()) {
				if _, ok := p[0].(*ssa.Const); !ok {
					return l.Call.Args[0]
				}
			}
		}
	case *ssa.Extract:
		if nx, ok := c.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && isStrBytes(rg.X.Type()) {
				return rg.X
			}
		}
	}
	return nil
}

// emptyFact: the outcome of the condition tells that the content (or the list of its parts) is empty.
func emptyFact(a *AI, F *Frame, cond ssa.Value, taken bool) bool {
	isContent := func(x ssa.Value) bool {
		v := a.Eval(VC{F, x})
		if isContentVal(v) {
			// nothing but white space was taken away before the test
			ls := &losses{a: a, got: map[string]string{}, seen: map[string]bool{}, label: "children"}
			if !v.Labels["children"] {
				ls.label = "nodedata"
			}
			if isStrBytes(x.Type()) {
				ls.trace(VC{F, x}, 0, false)
			}
			return len(ls.got) == 0
		}
		_, isList := x.Type().Underlying().(*types.Slice)
		return isList && !isStrBytes(x.Type())
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			op := c.Op
			if p[0] == c.Y {
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if l, ok := p[0].(*ssa.Call); ok && calleeName(l.Common()) == "builtin.len" {
				if !isContent(l.Call.Args[0]) {
					continue
				}
				zero, one := isIntConst(p[1], 0), isIntConst(p[1], 1)
				switch {
				case zero && (op == token.EQL || op == token.LEQ), one && op == token.LSS:
					return taken
				case zero && (op == token.NEQ || op == token.GTR), one && op == token.GEQ:
					return !taken
				}
				continue
			}
			if k, ok := p[1].(*ssa.Const); ok && k.IsNil() && isHTMLNode(p[0].Type()) {
				// there is no such node
				return (op == token.EQL) == taken
			}
			if k, ok := p[1].(*ssa.Const); ok && (k.IsNil() || k.Value != nil && k.Value.ExactString() == `""`) && isContent(p[0]) {
				switch op {
				case token.EQL:
					return taken
				case token.NEQ:
					return !taken
				}
			}
		}
	case *ssa.Call:
		// a helper that tests it
		frs, complete := a.calleeFrames(F, c)
		if len(frs) == 0 || !complete {
			return false
		}
		for _, fr := range frs {
			if !emptyResult(a, fr, taken) {
				return false
			}
		}
		return true
	}
	return false
}

// emptyResult: the helper gives this answer only for empty content.
func emptyResult(a *AI, fr *Frame, want bool) bool {
	n := 0
	for _, rs := range a.returnSites(fr, 0) {
		t, f := a.refineAt(rs.VC, rs.blk, a.Eval(rs.VC)).mayBool()
		if want && !t || !want && !f {
			continue
		}
		n++
		if emptyFact(a, rs.F(), rs.VC.V, want) {
			continue
		}
		if !emptyAt(a, rs.F(), rs.blk) {
			return false
		}
	}
	return n > 0
}

func (r retSite) F() *Frame { return r.VC.F }

var noContent = map[string]bool{"hr": true, "br": true, "img": true, "#comment": true}

func checkC22(P *Prog, r *Result) {
	succ, try := renderStatus(P)
	r.Rule("written", "on every path that reports success the content of the element was written, or it was found to be empty", 20)
	r.Rule("whole", "only white space is cut off from the rendered content before it is written", 15)
	r.Rule("parts", "a loop over the parts of the content writes or keeps every part", 15)
	r.Rule("kept", "a loop over the characters of the rendered content keeps all of them but white space", 2)
	r.Rule("nodes", "a loop that renders nodes one by one into a list renders every node that is no comment and keeps what is not empty", 1)
	names := []string{"h1", "h2", "h3", "h4", "h5", "h6", "strong", "b", "em", "i", "a", "blockquote", "ul", "ol", "li", "pre", "code", "var", "samp", "kbd", "tt", "table", "tr", "td", "th", "caption", "del", "s", "strike", "p", "div", "section", "span", "main"}
	keepSkip := bsOf(" \t\r\n\f\v\a\x00")
	run := func(c *rcase, key string, again func(h leafHook) *rcase) {
		m := &contentMachine{bad: map[string]string{}, writes: map[string]bool{}}
		seen := map[string]bool{}
		n := 0
		for _, x := range c.run(m) {
			if x.Ret == try || x.Q == "H" {
				continue
			}
			_ = succ
			n++
			k := x.Q + P.pos(x.Pos)
			if seen[k] {
				continue
			}
			seen[k] = true
			switch {
			case x.Q == "!":
			case x.Q == "0":
				r.Bad("written", key, P.pos(x.Pos), "success is reported here although the content was not written and is not known to be empty")
			case strings.Contains(x.Q, "/"):
				r.Bad("written", key, P.pos(x.Pos), "the loop over the parts of the content is left early")
			default:
				r.OK("written", key, P.pos(x.Pos), "the content is written or empty (%s)", x.Q)
			}
		}
		if n == 0 {
			return
		}
		r.Count("successful exits", n)
		var bad []string
		for w, p := range c.replaced() {
			m.bad[w] = p
		}
		for w, p := range c.removed() {
			m.bad[w] = p
		}
		for w, p := range m.bad {
			bad = append(bad, w+" at "+p)
		}
		sort.Strings(bad)
		r.Check(len(bad) == 0, "parts", key, P.pos(c.F.Fn.Pos()), "%s", orElse(strings.Join(bad, "; "), "every part is written"))
		// what is cut off
		pm := &pieceMachine{}
		c.run(pm)
		ls := &losses{a: c.a, got: map[string]string{}, seen: map[string]bool{}, label: "children"}
		np := 0
		for _, p := range pm.got {
			if p.vc.V != nil && p.v.Labels["children"] {
				np++
				ls.trace(p.vc, 0, false)
			}
		}
		bad = nil
		for k, v := range ls.got {
			bad = append(bad, k+" at "+v)
		}
		sort.Strings(bad)
		r.Check(len(bad) == 0, "whole", key, P.pos(c.F.Fn.Pos()), "%s", orElse(strings.Join(first(bad, 3), "; "), fmt.Sprintf("nothing but white space is cut off (%d pieces)", np)))
		if np > 0 && again != nil {
			lost, ok := lostIn("children", keepSkip, func(h leafHook, data bset) (*AI, *Frame) {
				d := again(h)
				if d == nil {
					return nil, nil
				}
				d.a.ChildBytes = &data
				return d.a, d.F
			}, func(G *Frame) bool { return P.InLib(G.Fn) })
			if ok {
				r.Check(lost.empty(), "kept", key, P.pos(c.F.Fn.Pos()), "%s", ifelse(lost.empty(), "no loop over the characters of the content loses one", "these characters of the content can get lost: "+lost.String()))
			}
		}
		c.partsKept(r, key)
	}
	for _, name := range names {
		for _, c := range handlerCases(P, Scen{Name: name}) {
			c := c
			var again func(h leafHook) *rcase
			if strings.Contains(" h1 strong em a blockquote ol li table del p ", " "+name+" ") {
				again = func(h leafHook) *rcase {
					for _, d := range handlerCases(P, Scen{Name: name, Extra: h}) {
						if d.key == c.key {
							return d
						}
					}
					return nil
				}
			}
			run(c, name+" by "+c.key, again)
		}
	}
	for _, tt := range []string{"block", "inline", ""} {
		if c := coreCase(P, Scen{Name: "section", TagType: tt}, "fallback"); c != nil {
			run(c, "any other "+orElse(tt, "unknown")+" element", nil)
		}
	}
	if c := coreCase(P, Scen{Name: "#text"}, "text"); c != nil {
		run(c, "text", nil)
	}
	r.Rule("every-node", "the loop of the converter that renders a list of nodes renders all of them", 1)
	if f := coreRenderer(P); f != nil {
		for _, g := range P.Funcs {
			if fnPkgPath(g) == convPath && g.Synthetic == "" {
				everyNode(P, r, g, f)
			}
		}
	}
	for _, f := range exportedRenderers(P) {
		a := newAI(P)
		s := Scen{Name: "section"}
		a.Hook = (&s).hook
		if c := mkCase(a, &s, f.Name(), a.Root(f)); c != nil {
			run(c, f.Name(), nil)
		}
	}
}

// partsKept: loops that render nodes one by one into a local buffer and keep the texts in a list.
func (c *rcase) partsKept(r *Result, key string) {
	a := c.a
	seen := map[string]bool{}
	a.eachFrame(c.F, func(F *Frame) {
		for _, l := range loopsOf(F.Fn) {
			renders := func(in ssa.Instruction) bool {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				if v, ok := in.(*ssa.Call); ok && isStrBytes(v.Type()) && v.Call.StaticCallee() != nil {
					for _, x := range v.Call.Args {
						if isHTMLNode(x.Type()) && a.Eval(VC{F, v}).Labels["children"] {
							return true // by a helper
						}
					}
				}
				for _, x := range call.Common().Args {
					for _, o := range a.values(VC{F, x}) {
						al, ok := o.V.(*ssa.Alloc)
						if !ok || o.Path != "" || isHTMLNode(al.Type()) {
							continue
						}
						for _, t := range a.writeTokens(F, call, o.VC) {
							if t.Kind == tkChildren {
								return true
							}
						}
					}
				}
				return false
			}
			keeps := func(in ssa.Instruction) bool {
				call, ok := in.(*ssa.Call)
				if !ok || calleeName(call.Common()) != "builtin.append" || !isContainer(call.Type()) {
					return false
				}
				return isContentVal(a.Eval(VC{F, call.Call.Args[1]}))
			}
			any, kept := false, false
			for b := range l.body {
				for _, in := range b.Instrs {
					any = any || renders(in)
					kept = kept || keeps(in)
				}
			}
			if !any || !kept {
				continue
			}
			// the innermost loop
			fi := a.feasible(F)
			bad := ""
			type st struct {
				b *ssa.BasicBlock
				q byte
			}
			done := map[st]bool{}
			var walk func(s st)
			walk = func(s st) {
				if done[s] || bad != "" {
					return
				}
				done[s] = true
				for _, in := range s.b.Instrs {
					switch {
					case renders(in):
						s.q = 'r'
					case keeps(in) && s.q == 'r':
						s.q = 'k'
					}
				}
				last := s.b.Instrs[len(s.b.Instrs)-1]
				ifi, isIf := last.(*ssa.If)
				for i, nx := range s.b.Succs {
					if fi.dead[[2]int{s.b.Index, nx.Index}] {
						continue
					}
					q := s.q
					if isIf && q != 'k' && s.b.Succs[0] != s.b.Succs[1] && (emptyFact(a, F, ifi.Cond, i == 0) || isCommentFact(a, F, ifi.Cond, i == 0)) {
						q = 'k'
					}
					if nx == l.head {
						switch q {
						case 'n':
							bad = "a round of the loop renders no node"
						case 'r':
							bad = "what was rendered is not kept"
						}
						continue
					}
					if l.body[nx] {
						walk(st{nx, q})
					} else if s.b != l.head && q != 'k' {
						// the loop is left early
						bad = "the loop is left before all nodes are rendered"
					}
				}
			}
			walk(st{l.head, 'n'})
			k := key + " in " + fkey(F.Fn)
			if seen[k+bad] {
				continue
			}
			seen[k+bad] = true
			r.Check(bad == "", "nodes", k, a.P.ipos(l.head.Instrs[len(l.head.Instrs)-1]), "%s", orElse(bad, "every node is rendered and kept"))
		}
	})
}

// isCommentFact: the outcome of the condition tells that the node is no element and no text.
func isCommentFact(a *AI, F *Frame, cond ssa.Value, taken bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		v := a.Eval(VC{F, x})
		if ss, ok := v.strConsts(); ok && len(ss) == 1 && ss[0] == "#comment" {
			return (b.Op == token.EQL) == taken
		}
		if k, ok := x.(*ssa.Const); ok && strings.HasSuffix(k.Type().String(), "html.NodeType") {
			is, _ := v.intConsts()
			return len(is) == 1 && is[0] >= 4 && (b.Op == token.EQL) == taken
		}
	}
	return false
}

// everyNode: loops that render nodes with the renderer of the converter.
func everyNode(P *Prog, r *Result, g, core *ssa.Function) {
	a := newAI(P)
	F := a.Root(g)
	for _, l := range loopsOf(g) {
		calls := func(in ssa.Instruction) bool {
			site, ok := in.(ssa.CallInstruction)
			return ok && (site.Common().StaticCallee() == core || a.enters(F, site, core))
		}
		any := false
		for b := range l.body {
			for _, in := range b.Instrs {
				any = any || calls(in)
			}
		}
		if !any {
			continue
		}
		fi := a.feasible(F)
		bad := ""
		type st struct {
			b    *ssa.BasicBlock
			done bool
		}
		seen := map[st]bool{}
		var walk func(b *ssa.BasicBlock, done bool)
		walk = func(b *ssa.BasicBlock, done bool) {
			if seen[st{b, done}] {
				return
			}
			seen[st{b, done}] = true
			for _, in := range b.Instrs {
				done = done || calls(in)
			}
			ifi, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			for i, s := range b.Succs {
				if fi.dead[[2]int{b.Index, s.Index}] {
					continue
				}
				d := done || isIf && (isCommentFact(a, F, ifi.Cond, i == 0) || b != l.head && emptyFact(a, F, ifi.Cond, i == 0))
				switch {
				case s == l.head && !d:
					bad = "a node is not rendered"
				case s == l.head:
				case !l.body[s] && b != l.head:
					bad = "the loop can end before all nodes are rendered"
				case l.body[s]:
					walk(s, d)
				}
			}
		}
		walk(l.head, false)
		r.Check(bad == "", "every-node", fkey(g), P.ipos(l.head.Instrs[len(l.head.Instrs)-1]), "%s", orElse(bad, "every node is rendered"))
	}
}
