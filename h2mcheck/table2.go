package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- pipes in the content of cells ----

// pipeFree: "" = every "|" of the text is escaped, "?" = not decided, else what is wrong.
func (t *tableRun) pipeFree(vc VC, resolves bool, seen map[VC]bool) string {
	if seen[vc] {
		return ""
	}
	seen[vc] = true
	a := t.a
	F := vc.F
	v := a.Eval(vc)
	if ss, ok := v.strConsts(); ok {
		for _, s := range ss {
			if strings.Contains(s, "|") {
				return "a raw \"|\" is put into a cell"
			}
		}
		return ""
	}
	if !v.bytes().has('|') || emptyLeaf(vc.V) {
		return ""
	}
	if !isContentVal(v) {
		// the content may have come here in a field
		out := ""
		for _, s := range t.fieldStores(a.values(vc), vc) {
			if w := t.pipeFree(s, resolves, seen); w != "" && (out == "" || out == "?") {
				out = w
			}
		}
		return out
	}
	switch x := vc.V.(type) {
	case *ssa.Call:
		args := x.Call.Args
		n := calleeName(x.Common())
		if strings.HasPrefix(n, "bytes.") {
			n = "strings." + n[6:]
		}
		switch n {
		case "strings.ReplaceAll", "strings.Replace":
			all := n == "strings.ReplaceAll"
			if !all {
				ns, ok := a.Eval(VC{F, args[3]}).intConsts()
				all = ok && len(ns) == 1 && ns[0] < 0
			}
			olds, ok := a.Eval(VC{F, args[1]}).strConsts()
			if !ok || len(olds) != 1 {
				return "?"
			}
			nv := a.Eval(VC{F, args[2]})
			news, isC := nv.strConsts()
			if olds[0] == "|" && all {
				switch {
				case isC && len(news) == 1 && (news[0] == `\|` || !strings.Contains(news[0], "|")):
					return ""
				case resolves && nv.bytes().has(7):
					return ""
				}
			}
			if olds[0] == bel+"|" && isC && len(news) == 1 && strings.HasSuffix(news[0], `\|`) && all {
				resolves = true
			}
			return t.pipeFree(VC{F, args[0]}, resolves, seen)
		case "strings.Trim", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.Clone":
			return t.pipeFree(VC{F, args[0]}, resolves, seen)
		}
		if strings.HasSuffix(n, ".UnEscapeContent") && len(args) > 0 {
			return t.pipeFree(VC{F, args[len(args)-1]}, resolves, seen)
		}
		if n == "(strings.Buffer).Bytes" || n == "(bytes.Buffer).Bytes" || n == "(bytes.Buffer).String" || n == "(strings.Builder).String" {
			// the buffer that the nodes of the cell were rendered to
			for _, o := range a.values(VC{F, args[0]}) {
				only := o.Path == ""
				a.eachUse(o.VC, func(u Use) {
					if c, ok := u.In.(ssa.CallInstruction); ok {
						for _, tk := range a.writeTokens(u.F, c, o.VC) {
							only = only && tk.Kind == tkChildren
						}
					}
				})
				if !only {
					return "?"
				}
			}
			return "the \"|\" of the rendered content is not escaped everywhere"
		}
	case *ssa.Slice:
		if isStrBytes(x.X.Type()) {
			return t.pipeFree(VC{F, x.X}, resolves, seen)
		}
	case *ssa.Phi:
		fi := a.feasible(F)
		out := ""
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if fi.dead[[2]int{p.Index, x.Block().Index}] || a.lacksEdge(VC{F, e}, p, x.Block(), a.isPipe) {
				continue
			}
			switch w := t.pipeFree(VC{F, e}, resolves, seen); w {
			case "":
			case "?":
				out = w
			default:
				return w
			}
		}
		return out
	}
	many := func(vs []VC) string {
		out := ""
		for _, s := range vs {
			switch w := t.pipeFree(s, resolves, seen); w {
			case "":
			case "?":
				out = w
			default:
				return w
			}
		}
		return out
	}
	if ia := elemOf(vc.V); ia != nil && isCells(ia.X.Type()) {
		adds, known := t.additions(VC{F, ia.X})
		var vs []VC
		for _, ad := range adds {
			vs = append(vs, ad.vc)
		}
		if w := many(vs); w != "" || known {
			return w
		}
		return "?"
	}
	if c, ok := vc.V.(*ssa.Call); ok {
		if frs, complete := a.calleeFrames(F, c); complete && len(frs) > 0 {
			var vs []VC
			for _, fr := range frs {
				for _, rs := range a.returnSites(fr, 0) {
					if !a.lacks(rs.VC, rs.blk, a.isPipe) {
						vs = append(vs, rs.VC)
					}
				}
			}
			return many(vs)
		}
	}
	if ss := a.step(vc); len(ss) > 0 {
		return many(ss)
	}
	os := a.values(vc)
	if vs := t.fieldStores(os, vc); len(vs) > 0 {
		return many(vs)
	}
	return "?"
}

func (a *AI) isPipe(y VC) bool {
	ss, ok := a.Eval(y).strConsts()
	if ok && len(ss) == 1 && ss[0] == "|" {
		return true
	}
	ns, ok := a.Eval(y).intConsts()
	return ok && len(ns) == 1 && ns[0] == '|'
}

// ---- rows of the same length ----

// rowMachine counts the pipes of a line against the rounds of the loop that writes it.
type rowMachine struct {
	t     *tableRun
	bad   map[string]string
	loops map[string]rowLoop
	ids   map[VC]int // the lists that can be known to be empty
}

type rowLoop struct {
	F    *Frame
	l    *loop
	list VC
}

func (m *rowMachine) Start() string { return "0,0,0" }

// dec: were there rounds, pipes minus rounds, and the list (by number) that is known to be empty.
func (m *rowMachine) dec(q string) (r, e, z int) {
	fmt.Sscanf(q, "%d,%d,%d", &r, &e, &z)
	return
}
func (m *rowMachine) enc(r, e, z int) string {
	return fmt.Sprintf("%d,%d,%d", r, max(-4, min(4, e)), z)
}
func (m *rowMachine) Text(e *Emit, q, s string) string {
	if q == "-" {
		return q
	}
	r, x, z := m.dec(q)
	for _, c := range s {
		switch c {
		case '|':
			x++
		case '\n':
			if r > 0 && x != 1 {
				m.bad[fmt.Sprintf("a line of the table can have %s", ifelse(x < 1, "too few cells", "too many cells"))] = ""
			}
			r, x, z = 0, 0, 0
		}
	}
	return m.enc(r, x, z)
}
func (m *rowMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	return q
}
func (m *rowMachine) Node(e *Emit, q string, k tkKind, vc VC) string { return q }
func (m *rowMachine) Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string {
	if q == "-" {
		return q
	}
	r, x, z := m.dec(q)
	rl, body, ok := m.rowLoop(F, cond)
	if !ok {
		if l, isE := m.t.emptyTest(F, cond, taken); isE {
			if _, have := m.ids[l]; !have {
				m.ids[l] = len(m.ids) + 1
			}
			return m.enc(r, x, m.ids[l])
		}
		return q
	}
	if taken != body {
		return q
	}
	m.loops[fmt.Sprintf("%d:%d", F.id, rl.l.head.Index)] = rl
	if z != 0 && m.ids[rl.list] == z {
		return "-" // there is no round
	}
	return m.enc(1, x-1, z)
}

// emptyTest: the outcome of the condition means that a list is empty.
func (t *tableRun) emptyTest(F *Frame, cond ssa.Value, taken bool) (VC, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || isLoopHeader(b.Block()) {
		return VC{}, false
	}
	list, ok := t.lenList(VC{F, b.X})
	if !ok {
		return VC{}, false
	}
	ns, ok := t.a.Eval(VC{F, b.Y}).intConsts()
	if !ok || len(ns) != 1 {
		return VC{}, false
	}
	op := b.Op
	if !taken {
		op = negOp(op)
	}
	empty := ns[0] == 0 && (op == token.EQL || op == token.LEQ) || ns[0] == 1 && op == token.LSS
	return list, empty
}

// rowLoop: the condition of a loop over the cells of a row, or over the columns, that writes something.
func (m *rowMachine) rowLoop(F *Frame, cond ssa.Value) (rl rowLoop, body bool, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB || !isLoopHeader(b.Block()) {
		return
	}
	for _, l := range loopsOf(F.Fn) {
		if l.head != b.Block() {
			continue
		}
		h, _, isC := counter(b.X)
		if !isC || h != l.head || b.Op != token.LSS {
			return
		}
		list, isL := m.t.lenList(VC{F, b.Y})
		if !isL {
			return
		}
		writes := false
		for x := range l.body {
			for _, in := range x.Instrs {
				if c, ok := in.(*ssa.Call); ok && len(m.t.a.writeTokens(F, c, m.t.c.w)) > 0 {
					writes = true
				}
			}
		}
		if !writes {
			return
		}
		return rowLoop{F, l, list}, l.body[l.head.Succs[0]], true
	}
	return
}

// lenList: the number is the length of a list of cells, of widths or of alignments.
func (t *tableRun) lenList(vc VC) (VC, bool) {
	for n := 0; n < 10; n++ {
		if c, ok := vc.V.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
			x := c.Call.Args[0]
			s, ok := x.Type().Underlying().(*types.Slice)
			if !ok || isStrBytes(x.Type()) {
				return VC{}, false
			}
			if isCells(x.Type()) || isInteger(s.Elem()) {
				return VC{vc.F, x}, true
			}
			return VC{}, false
		}
		ss := t.a.step(vc)
		if len(ss) != 1 {
			return VC{}, false
		}
		vc = ss[0]
	}
	return VC{}, false
}

// isWidths: a list of numbers.
func isWidths(ty types.Type) bool {
	s, ok := ty.Underlying().(*types.Slice)
	return ok && isInteger(s.Elem())
}

// lin: width·W + cells·L + c, for a number of cells. ok is false if there is something else in it.
type width struct{ w, l, c int64 }

func (t *tableRun) lin(vc VC, d int) (width, bool) {
	if d > 12 {
		return width{}, false
	}
	switch x := vc.V.(type) {
	case *ssa.Const:
		if x.Value != nil && isInteger(x.Type()) {
			return width{c: x.Int64()}, true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			l, ok1 := t.lin(VC{vc.F, x.X}, d+1)
			r, ok2 := t.lin(VC{vc.F, x.Y}, d+1)
			if x.Op == token.SUB {
				r = width{-r.w, -r.l, -r.c}
			}
			return width{l.w + r.w, l.l + r.l, l.c + r.c}, ok1 && ok2
		}
	case *ssa.Phi:
		if t.maxLoop(vc) != nil {
			return width{w: 1}, true
		}
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "builtin.len":
			ty := x.Call.Args[0].Type()
			if isWidths(ty) {
				return width{w: 1}, true
			}
			if isCells(ty) {
				if ia := elemOf(x.Call.Args[0]); ia != nil && isConst(ia.Index) {
					return width{}, false // always the same row
				}
				return width{l: 1}, true
			}
			return width{}, false
		case "builtin.max":
			// at least nothing
			if len(x.Call.Args) == 2 {
				for i := range x.Call.Args {
					if isIntConst(x.Call.Args[i], 0) {
						return t.lin(VC{vc.F, x.Call.Args[1-i]}, d+1)
					}
				}
			}
		}
	}
	ss := t.a.step(vc)
	if len(ss) == 0 {
		return width{}, false
	}
	var out width
	for i, s := range ss {
		if s == vc {
			return width{}, false
		}
		y, ok := t.lin(s, d+1)
		if !ok || i > 0 && y != out {
			return width{}, false
		}
		out = y
	}
	return out, true
}

// maxLoop: the number is the largest length of a row; the loop that finds it.
func (t *tableRun) maxLoop(vc VC) *loop {
	phi, ok := vc.V.(*ssa.Phi)
	if !ok {
		return nil
	}
	for _, l := range loopsOf(phi.Parent()) {
		if l.head != phi.Block() {
			continue
		}
		isLen := func(v ssa.Value) bool {
			y := VC{vc.F, v}
			for n := 0; n < 8; n++ {
				if c, ok := y.V.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
					return isCells(c.Call.Args[0].Type())
				}
				if _, isPhi := y.V.(*ssa.Phi); isPhi {
					return false
				}
				ss := t.a.step(y)
				if len(ss) != 1 {
					return false
				}
				y = ss[0]
			}
			return false
		}
		for i, e := range phi.Edges {
			if !l.body[phi.Block().Preds[i]] {
				continue
			}
			if c, ok := e.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.max" {
				for _, g := range c.Call.Args {
					if isLen(g) {
						return l
					}
				}
			}
			p, ok := e.(*ssa.Phi)
			if !ok || p.Block().Idom() == nil {
				continue
			}
			d := p.Block().Idom()
			ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := ifi.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for k, g := range p.Edges {
				if !isLen(g) {
					continue
				}
				taken := d.Succs[0] == p.Block().Preds[k] || d.Succs[0].Dominates(p.Block().Preds[k]) && d.Succs[0] != p.Block()
				op := bo.Op
				if isLen(bo.Y) && bo.X == ssa.Value(phi) {
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
				} else if !isLen(bo.X) || bo.Y != ssa.Value(phi) {
					continue
				}
				if !taken {
					op = negOp(op)
				}
				if op == token.GTR || op == token.GEQ {
					return l
				}
			}
		}
	}
	return nil
}

// says: the outcome of the condition implies that the row has no missing cell ("yes"), or it is about something else ("").
func (t *tableRun) says(F *Frame, cond ssa.Value, taken bool) string {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	l, ok1 := t.lin(VC{F, b.X}, 0)
	r, ok2 := t.lin(VC{F, b.Y}, 0)
	if !ok1 || !ok2 {
		return ""
	}
	d := width{l.w - r.w, l.l - r.l, l.c - r.c}
	op := b.Op
	if !taken {
		op = negOp(op)
	}
	if d.w == -1 && d.l == 1 {
		d = width{1, -1, -d.c}
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	if d.w != 1 || d.l != -1 {
		return ""
	}
	// missing + c  op  0
	switch op {
	case token.LSS:
		if -d.c-1 <= 0 {
			return "yes"
		}
	case token.LEQ, token.EQL:
		if -d.c <= 0 {
			return "yes"
		}
	}
	return "no"
}

// A growth: a place at which empty cells are added to a row.
type growth struct {
	F   *Frame
	l   *loop // the loop around it, or nil
	in  ssa.Instruction
	bad string
}

// growths: the places at which a row is filled up to the number of columns.
func (t *tableRun) growths() []growth {
	var out []growth
	for _, F := range t.frames {
		fi := t.a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] {
				continue
			}
			for _, in := range b.Instrs {
				if ms, ok := in.(*ssa.MakeSlice); ok && isCells(ms.Type()) {
					if y, ok := t.lin(VC{F, ms.Len}, 0); ok && y.w == 1 {
						// for the whole row, or for what is missing
						switch {
						case y.c != 0:
							out = append(out, growth{F, nil, in, fmt.Sprintf("the row is filled up to %+d of the number of columns", y.c)})
						case y.l == 0 || y.l == -1:
							out = append(out, growth{F, nil, in, ""})
						}
					}
					continue
				}
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(c.Common()) != "builtin.append" || !isCells(c.Type()) {
					continue
				}
				l := innerLoop(F.Fn, b)
				if l == nil {
					continue
				}
				ifi, bottom := loopCond(l)
				if ifi == nil {
					continue
				}
				bo, ok := ifi.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				stay := l.body[ifi.Block().Succs[0]]
				if h, init, ok := counter(bo.X); ok && h == l.head {
					y, ok := t.lin(VC{F, bo.Y}, 0)
					if !ok || y.w != 1 {
						continue
					}
					g := growth{F, l, in, ""}
					// rounds = W - L + c - init (+1)
					n := y.c - init
					if bo.Op == token.LEQ {
						n++
					}
					if bottom {
						n++
					}
					if y.l == 0 {
						// from len(cells) on
						continue
					}
					if y.l != -1 || !stay || bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.NEQ {
						continue
					}
					if n != 0 {
						g.bad = fmt.Sprintf("%+d cells are added to a row that is too short", n)
					}
					out = append(out, g)
					continue
				}
				if s := t.says(F, bo, !stay); s != "" {
					g := growth{F, l, in, ""}
					if s == "no" {
						g.bad = "a row that is too short is not filled up to the number of columns"
					}
					out = append(out, g)
					continue
				}
				// for i := len(cells); i < width; i++
				if phi, ok := bo.X.(*ssa.Phi); ok && phi.Block() == l.head {
					y, ok := t.lin(VC{F, bo.Y}, 0)
					if !ok || y.w != 1 || y.l != 0 {
						continue
					}
					for i, e := range phi.Edges {
						if l.body[phi.Block().Preds[i]] {
							continue
						}
						s, ok := t.lin(VC{F, e}, 0)
						if !ok || s.w != 0 || s.l != 1 {
							continue
						}
						n := y.c - s.c
						if bo.Op == token.LEQ {
							n++
						}
						g := growth{F, l, in, ""}
						if n != 0 {
							g.bad = fmt.Sprintf("%+d cells are added to a row that is too short", n)
						}
						out = append(out, g)
					}
				}
			}
		}
	}
	return out
}

// loopCond: the condition on which the loop goes on, and whether it is tested at the end of a round.
func loopCond(l *loop) (*ssa.If, bool) {
	var out *ssa.If
	for b := range l.body {
		for _, s := range b.Succs {
			if l.body[s] {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || out != nil && out != ifi {
				return nil, false
			}
			out = ifi
		}
	}
	if out == nil {
		return nil, false
	}
	for _, s := range out.Block().Succs {
		if s == l.head {
			return out, true
		}
	}
	return out, out.Block() != l.head
}

// fills: every path through the frame passes a place that fills up the row, or knows that nothing is missing.
func (t *tableRun) fills(F *Frame, b *ssa.BasicBlock, head *ssa.BasicBlock, gs []growth, d int) bool {
	if d > 4 {
		return false
	}
	stop := func(in ssa.Instruction) bool {
		for _, g := range gs {
			if g.F == F && (g.in == in || g.l != nil && g.l.head == in.Block() && (head == nil || g.l.head != head)) {
				return true
			}
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		frs, _ := t.a.calleeFrames(F, c)
		has := false
		for _, fr := range frs {
			has = has || t.below(fr, gs)
		}
		if !has {
			return false
		}
		for _, fr := range frs {
			if !t.fills(fr, fr.Fn.Blocks[0], nil, gs, d+1) {
				return false
			}
		}
		return true
	}
	for _, e := range t.paths(F, b, 0, penv{}, stop, func(from, to *ssa.BasicBlock, taken int) bool {
		if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] && t.says(F, ifi.Cond, taken == 0) == "yes" {
			return true
		}
		return to == head
	}) {
		if e.from != nil {
			if ifi, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If); ok && e.from.Succs[0] != e.from.Succs[1] && t.says(F, ifi.Cond, e.from.Succs[0] == e.to) == "yes" {
				continue
			}
		}
		return false
	}
	return true
}

func (t *tableRun) below(F *Frame, gs []growth) bool {
	for _, g := range gs {
		for x := g.F; x != nil; x = x.Up {
			if x == F {
				return true
			}
		}
	}
	return false
}

// filled: all rows are filled up. "" = yes, "?" = not decided.
func (t *tableRun) filled(rows []rowLoop) (why, pos string) {
	a := t.a
	pos = a.P.pos(t.c.F.Fn.Pos())
	gs := t.growths()
	if len(gs) == 0 {
		return "no step fills up the rows that have less cells than others", pos
	}
	for _, g := range gs {
		if g.bad != "" {
			return g.bad, a.P.ipos(g.in)
		}
	}
	// the loop over the rows
	found := false
	var at ssa.Instruction
	var atF *Frame
	for _, F := range t.frames {
		for _, l := range loopsOf(F.Fn) {
			ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			b, ok := ifi.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x := loopList(b)
			if x == nil || !isRows(x.Type()) {
				continue
			}
			has := false
			for _, g := range gs {
				has = has || g.F == F && l.body[g.in.Block()]
			}
			for blk := range l.body {
				for _, in := range blk.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						frs, _ := a.calleeFrames(F, c)
						for _, fr := range frs {
							has = has || t.below(fr, gs)
						}
					}
				}
			}
			if !has {
				continue
			}
			p := a.P.ipos(ifi)
			if w := t.fullLoop(F, l); w != "" {
				return "not all rows are filled up: " + w, p
			}
			for _, s := range l.head.Succs {
				if l.body[s] && !t.fills(F, s, l.head, gs, 0) {
					return "some rows that are too short are not filled up", p
				}
			}
			found, at, atF = true, ifi, F
		}
	}
	if !found {
		return "?", pos
	}
	// before the rows are written
	for _, r := range rows {
		if !isCells(r.list.V.Type()) {
			continue
		}
		F, in := r.F, ssa.Instruction(r.l.head.Instrs[len(r.l.head.Instrs)-1])
		for F != nil {
			G, x := atF, at
			for G != nil && G != F {
				x, G = G.Site, G.Up
			}
			if G == F {
				if x != in && !a.reachesAvoiding(F, x, in, nil) && a.reachesAvoiding(F, in, x, nil) {
					return "the rows are filled up after they were written", a.P.ipos(x)
				}
				// no way around it
				if x != in {
					avoid := map[ssa.Instruction]bool{x: true}
					if first := F.Fn.Blocks[0].Instrs[0]; first != x && a.reachesAvoiding(F, first, in, avoid) {
						for _, l := range loopsOf(F.Fn) {
							if l.body[x.Block()] {
								avoid[l.head.Instrs[len(l.head.Instrs)-1]] = true
							}
						}
						if a.reachesAvoiding(F, first, in, avoid) {
							return "there is a path on which the rows are not filled up", a.P.ipos(x)
						}
					}
				}
				break
			}
			if F.Site == nil {
				break
			}
			in, F = F.Site, F.Up
		}
	}
	return "", pos
}

// counted: the widths have an entry for every column ("" = yes or not decided).
func (t *tableRun) counted() (why, pos string, n int) {
	a := t.a
	for _, F := range t.frames {
		for _, b := range F.Fn.Blocks {
			for _, in := range b.Instrs {
				phi, isPhi := in.(*ssa.Phi)
				if isPhi && isInteger(phi.Type()) {
					if l := t.maxLoop(VC{F, phi}); l != nil {
						n++
						if w := t.fullLoop(F, l); w != "" {
							return "the number of columns is not counted over all rows: " + w, a.P.ipos(l.head.Instrs[len(l.head.Instrs)-1]), n
						}
					}
					continue
				}
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(c.Common()) != "builtin.append" || !isWidths(c.Type()) {
					continue
				}
				inner := innerLoop(F.Fn, b)
				if inner == nil {
					continue
				}
				ifi, ok := inner.head.Instrs[len(inner.head.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				bo, ok := ifi.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				list := loopList(bo)
				if list == nil || !isCells(list.Type()) {
					continue
				}
				n++
				p := a.P.ipos(ifi)
				if w := t.fullLoop(F, inner); w != "" {
					return "not all cells of a row are counted: " + w, p, n
				}
				// the test: index >= len(counts)
				good := map[ssa.Instruction]bool{}
				for x := range inner.body {
					k, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
					if !ok || !x.Dominates(b) || x == inner.head {
						continue
					}
					cb, ok := k.Cond.(*ssa.BinOp)
					if !ok {
						continue
					}
					l, r, op := cb.X, cb.Y, cb.Op
					if isLenCall(l) {
						l, r = r, l
						op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL}[op]
					}
					h, init, isC := counter(l)
					if !isC || h != inner.head || !isLenCall(r) || !isWidths(r.(*ssa.Call).Call.Args[0].Type()) {
						continue
					}
					if !x.Succs[0].Dominates(b) {
						op = negOp(op)
					}
					// the counter is one of: the index, the index + a constant
					if init == 0 && (op == token.GEQ || op == token.EQL) || init == 1 && op == token.GTR {
						good[k] = true
					} else {
						return "the number of columns can be smaller than the number of cells in a row", a.P.ipos(k), n
					}
				}
				if len(good) == 0 {
					continue
				}
				skip := func(l *loop, st func(in ssa.Instruction) bool) bool {
					for _, s := range l.head.Succs {
						if !l.body[s] {
							continue
						}
						if len(t.paths(F, s, 0, penv{}, st, func(from, to *ssa.BasicBlock, taken int) bool { return to == l.head || !l.body[to] })) > 0 {
							return true
						}
					}
					return false
				}
				if skip(inner, func(in ssa.Instruction) bool { return good[in] }) {
					return "some cells are not counted", p, n
				}
				for _, l := range loopsOf(F.Fn) {
					if l.head == inner.head || !l.body[inner.head] {
						continue
					}
					if w := t.fullLoop(F, l); w != "" {
						return "the number of columns is not counted over all rows: " + w, a.P.ipos(l.head.Instrs[len(l.head.Instrs)-1]), n
					}
					if skip(l, func(in ssa.Instruction) bool { return in.Block() == inner.head }) {
						return "the cells of some rows are not counted", p, n
					}
				}
			}
		}
	}
	return "", "", n
}

func (t *tableRun) rectangular(r *Result, key string) {
	a := t.a
	m := &rowMachine{t: t, bad: map[string]string{}, loops: map[string]rowLoop{}, ids: map[VC]int{}}
	t.c.run(m)
	pos := a.P.pos(t.c.F.Fn.Pos())
	bad := ""
	for w := range m.bad {
		bad = w
	}
	cells := false
	var rows []rowLoop
	for _, rl := range m.loops {
		rows = append(rows, rl)
		cells = cells || isCells(rl.list.V.Type())
		if w := orElse(t.fullLoop(rl.F, rl.l), t.wholeList(rl.list, 0)); w != "" && bad == "" {
			bad, pos = "a line is not written for all columns: "+w, a.P.ipos(rl.l.head.Instrs[len(rl.l.head.Instrs)-1])
		}
		fi := a.feasible(rl.F)
		for b := range rl.l.body {
			for _, s := range b.Succs {
				if b != rl.l.head && !rl.l.body[s] && !fi.dead[[2]int{b.Index, s.Index}] && bad == "" {
					bad, pos = "a line can end before its last column", a.P.ipos(b.Instrs[len(b.Instrs)-1])
				}
			}
		}
	}
	r.Check(bad == "", "written", key, pos, "%s", orElse(bad, fmt.Sprintf("%d loops write one cell for every column, with a \"|\" on both sides", len(rows))))
	if cells {
		why, p := t.filled(rows)
		r.Check(why == "" || why == "?", "filled", key+": rows", p, "%s", ifelse(why == "?", "not decided", orElse(why, "every row is filled up to the number of columns before it is written")))
	} else {
		r.OK("filled", key+": rows", pos, "the lines are written for the columns, not for the cells of a row")
	}
	why, p, n := t.counted()
	r.Check(why == "", "filled", key+": columns", orElse(p, pos), "%s", orElse(why, ifelse(n == 0, "not decided", "every cell of every row is counted")))
}
