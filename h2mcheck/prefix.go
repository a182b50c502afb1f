package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// C25: every line of a block quote has its prefix, every further line of a list item is indented.

func init() { register("C25", checkC25) }

// prefixMachine follows what is written line by line. Its states (before a "|"):
//
//	"0"  nothing but line breaks so far
//	"s"  in a line
//	"n"  directly after a line break
//	"x"  after a blank line without a prefix (quote)
//	"b"  a character was written that can be the line break
//	"e"  after a line break, and the line that follows is known to be empty
//	"z"  after a line break, and the text that is looped over has ended
//	"p…" in the prefix of a list item
//	"H"  handed over to something that is not looked into
//	"!"  a violation was reported
//	"-"  cannot happen
//
// After the "|" is the character that was tested, and whether it is the line break (T or F).
type prefixMachine struct {
	quote  bool
	ol     bool
	tok    string // what ends a line: "\n" or the marker of code blocks
	nl     rune
	bad    map[string]string
	unsure map[string]string
	shapes map[string]bool
	widths map[string]VC // what the indentation is computed from
	sites  map[string]bool
	busy   map[string]bool
	c      *rcase
}

func newPrefixMachine(c *rcase, quote, ol bool, nl rune) *prefixMachine {
	return &prefixMachine{quote: quote, ol: ol, tok: string(nl), nl: nl, c: c, bad: map[string]string{}, unsure: map[string]string{}, shapes: map[string]bool{}, widths: map[string]VC{}, sites: map[string]bool{}, busy: map[string]bool{}}
}

func (m *prefixMachine) Start() string {
	if m.nl == '\n' {
		return "0"
	}
	return "s"
}

func letterOf(q string) string {
	if i := strings.IndexByte(q, '|'); i >= 0 {
		return q[:i]
	}
	return q
}
func knownOf(q string) string {
	if i := strings.IndexByte(q, '|'); i >= 0 {
		return q[i:]
	}
	return ""
}

func (m *prefixMachine) report(what string, e *Emit, vc VC) string {
	pos := ""
	if in, ok := vc.V.(ssa.Instruction); ok {
		pos = e.A.P.ipos(in)
	}
	if pos == "" || pos == "-" {
		pos = e.A.P.pos(vc.F.Fn.Pos())
	}
	if m.bad[what] == "" {
		m.bad[what] = pos + " in " + fkey(vc.F.Fn)
	}
	return "!"
}

func done(q string) bool { return q == "!" || q == "H" || q == "-" }

func (m *prefixMachine) newline(l string) string {
	switch {
	case l == "0":
		return "0"
	case l == "s" || l[0] == 'p':
		return "n"
	case m.quote && m.nl == '\n':
		return "x"
	}
	return "n"
}

func (m *prefixMachine) Text(e *Emit, q, s string) string {
	l, k := letterOf(q), knownOf(q)
	for len(s) > 0 && !done(l) {
		if strings.HasPrefix(s, m.tok) {
			l = m.newline(l)
			s = s[len(m.tok):]
			continue
		}
		i := strings.Index(s, m.tok)
		if i < 0 {
			i = len(s)
		}
		seg := s[:i]
		s = s[i:]
		if m.nl != '\n' {
			if strings.Trim(seg, "\n") == "" {
				continue
			}
		}
		l = m.plain(e, l, seg)
	}
	return l + k
}

// plain: constant text within a line.
func (m *prefixMachine) plain(e *Emit, l, seg string) string {
	blank := strings.Trim(seg, " ") == ""
	switch {
	case l == "s":
		return "s"
	case l[0] == 'p':
		return l + seg
	case m.quote:
		if t := strings.TrimLeft(seg, " "); strings.HasPrefix(t, ">") && len(seg)-len(t) <= 3 {
			if l == "x" {
				m.bad["a line without a prefix is written in the quote (a blank line ends it)"] = e.A.P.pos(m.c.F.Fn.Pos())
				return "!"
			}
			return "s"
		}
		if blank {
			return l
		}
		m.bad[fmt.Sprintf("the line starts with %q and not with the prefix", seg)] = e.A.P.pos(m.c.F.Fn.Pos())
		return "!"
	case blank && l != "0":
		if len(seg) >= 2 && !m.ol {
			return "s"
		}
		if !m.ol {
			m.bad["a further line of an item is indented by too few spaces"] = e.A.P.pos(m.c.F.Fn.Pos())
		} else {
			m.bad["the indentation of a further line does not follow from the width of the number"] = e.A.P.pos(m.c.F.Fn.Pos())
		}
		return "!"
	case blank:
		return l
	case m.nl != '\n':
		m.bad[fmt.Sprintf("the line of code starts with %q and not with the indentation", seg)] = e.A.P.pos(m.c.F.Fn.Pos())
		return "!"
	}
	return "p" + seg
}

// content: some content is written that has no line break.
func (m *prefixMachine) content(e *Emit, l string, vc VC, char bool) string {
	if m.nl == '\n' && (l == "s" || l[0] == 'p') || m.nl != '\n' && l == "n" {
		m.sites[fmt.Sprintf("%p", vc.V)] = true
	}
	switch {
	case l == "s":
		return "s"
	case l[0] == 'p':
		m.shapes[l[1:]] = true
		return "s"
	case l == "e", l == "z" && char:
		return l
	}
	if m.quote {
		return m.report("content is written at the start of a line without the prefix of the quote", e, vc)
	}
	if l == "0" {
		return m.report("the content of an item is written without its marker", e, vc)
	}
	return m.report("a further line of an item is written without indentation", e, vc)
}

func (m *prefixMachine) Node(e *Emit, q string, k tkKind, vc VC) string {
	if done(q) {
		return q
	}
	if k == tkOpaque {
		return "H"
	}
	return m.report("the content is written as it is, its further lines have no prefix", e, VC{m.c.F, vc.V})
}

func (m *prefixMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	r := m.Composed(e, q, vc, v, EState{Q: q}, 0)
	sort.Strings(r)
	return r[0]
}

// charKey names a character of a text, so that a test of it is recognised.
func charKey(vc VC) string {
	v := vc.V
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || isStrBytes(c.Type()) {
			break
		}
		v = c.X
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return fmt.Sprintf("F%d:%s[%s]", vc.F.id, ia.X.Name(), ia.Index.Name())
		}
	case *ssa.Index:
		return fmt.Sprintf("F%d:%s[%s]", vc.F.id, x.X.Name(), x.Index.Name())
	case *ssa.Lookup:
		return fmt.Sprintf("F%d:%s[%s]", vc.F.id, x.X.Name(), x.Index.Name())
	}
	return fmt.Sprintf("F%d:%s", vc.F.id, v.Name())
}

// charText: the text that a character is taken from.
func charText(a *AI, vc VC) (VC, bool) {
	v := vc.V
	for {
		c, ok := v.(*ssa.Convert)
		if !ok || isStrBytes(c.Type()) {
			break
		}
		v = c.X
	}
	var t ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			t = ia.X
		}
	case *ssa.Index:
		t = x.X
	case *ssa.Lookup:
		t = x.X
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				t = rg.X
			}
		}
	case *ssa.Parameter, *ssa.Phi:
		if s := a.step(VC{vc.F, v}); len(s) == 1 {
			return charText(a, s[0])
		}
	}
	if t == nil || !isStrBytes(t.Type()) {
		return VC{}, false
	}
	return VC{vc.F, t}, true
}

func (m *prefixMachine) mayHaveTok(v AVal) bool {
	if v.Top {
		return true
	}
	return v.bytes().has(m.tok[0])
}

func (m *prefixMachine) Composed(e *Emit, q string, vc VC, v AVal, s EState, depth int) []string {
	if done(q) {
		return []string{q}
	}
	l, k := letterOf(q), knownOf(q)
	a := e.A
	one := func(l string) []string {
		if done(l) {
			return []string{l}
		}
		return []string{l + k}
	}
	if !isContentVal(v) {
		if _, isC := v.strConsts(); !v.Top && !isC && v.bytes().empty() {
			return one(l)
		}
		if !v.Top && !v.bytes().has(m.tok[0]) && v.bytes().minus(bsOf(" ")).empty() && l != "s" {
			// an indentation
			if m.quote {
				return one(l)
			}
			if l == "0" || l[0] == 'p' {
				return one(l)
			}
			return one(m.indent(e, vc))
		}
		switch {
		case l == "s":
			return one("s")
		case l[0] == 'p':
			return one(l + m.part(v))
		case m.quote:
			m.unsure["the start of a line is not known"] = a.P.pos(vc.F.Fn.Pos())
			return one("H")
		case m.nl != '\n':
			return one(m.content(e, l, vc, false))
		}
		return one("p" + m.part(v))
	}
	if !isStrBytes(vc.V.Type()) && isCharType(vc.V.Type()) {
		if !m.mayHaveTok(v) {
			return one(m.content(e, l, vc, true))
		}
		key := charKey(vc)
		if strings.HasPrefix(k, "|"+key+"=") {
			if strings.HasSuffix(k, "T") {
				return one(m.newline(l))
			}
			return one(m.content(e, l, vc, true))
		}
		if t, ok := charText(a, vc); ok {
			if m.isGuarded(e, t, s, depth) {
				return one(m.content(e, l, vc, true))
			}
		}
		l = m.content(e, l, vc, true)
		if l != "s" {
			return one(l)
		}
		return []string{"b|" + key}
	}
	if !m.mayHaveTok(v) || m.isSplit(a, vc) {
		return one(m.content(e, l, vc, false))
	}
	rec := func(x VC) []string { return e.value([]string{q}, x, s, false, depth+1) }
	if call, ok := vc.V.(*ssa.Call); ok {
		args := call.Call.Args
		name := calleeName(call.Common())
		switch name {
		case "bytes.ReplaceAll", "strings.ReplaceAll", "bytes.Replace", "strings.Replace":
			if len(args) == 4 && !negConst(args[3]) {
				return rec(VC{vc.F, args[0]}) // some occurrences can be left
			}
			pat, ok := a.Eval(VC{vc.F, args[1]}).strConsts()
			if !ok || len(pat) != 1 {
				break
			}
			p := pat[0]
			if p == m.tok {
				// every line break is followed by what replaces it
				if !m.endsInLine(e, VC{vc.F, args[2]}, s, depth) {
					return one("!")
				}
				return one(m.content(e, l, vc, false))
			}
			if strings.Contains(p, m.tok) {
				x := VC{vc.F, args[0]}
				sub := newPrefixMachine(m.c, m.quote, m.ol, m.nl)
				pe := letterOf(sub.Text(e, "s", p))
				if done(pe) || pe == "x" || !m.isGuarded(e, x, s, depth) {
					return rec(x) // it does not occur in a text with prefixes
				}
				for _, re := range newEmit(a, m, e.Root).value([]string{"s"}, VC{vc.F, args[2]}, EState{Q: "s"}, false, depth+1) {
					if re = letterOf(re); re != pe && re != "s" {
						return one(m.report("the prefix of a line is replaced", e, vc))
					}
				}
				return rec(x)
			}
			if m.mayHaveTok(a.Eval(VC{vc.F, args[2]})) && !m.endsInLine(e, VC{vc.F, args[2]}, s, depth) {
				return one("!")
			}
			return rec(VC{vc.F, args[0]})
		}
		if x, ok := m.through(a, vc.F, call, name); ok {
			return rec(x)
		}
	}
	if m.raw(a, vc, map[VC]bool{}) {
		if m.nl == '\n' {
			return one(m.report("content that can have several lines is written as it is, its further lines have no prefix", e, vc))
		}
		return one(m.report("the lines of a code block in the content have no prefix", e, vc))
	}
	m.unsure["a text that is written"] = a.P.pos(vc.V.Pos())
	return one("H")
}

func negConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() < 0
}

// prefixLike: the text can be the start of a line with its prefix.
func (m *prefixMachine) prefixLike(s string) bool {
	if m.quote {
		return strings.HasPrefix(strings.TrimLeft(s, " "), ">") || strings.Trim(s, " ") == ""
	}
	return !strings.HasPrefix(s, m.tok)
}

// isGuarded: every line of the text has its prefix already.
func (m *prefixMachine) isGuarded(e *Emit, vc VC, s EState, depth int) bool {
	if depth > 12 {
		return false
	}
	key := fmt.Sprintf("%d %p", vc.F.id, vc.V)
	if m.busy[key] {
		return false
	}
	m.busy[key] = true
	defer delete(m.busy, key)
	sub := newPrefixMachine(m.c, m.quote, m.ol, m.nl)
	sub.busy = m.busy
	ee := newEmit(e.A, sub, e.Root)
	ee.depth = e.depth + 1
	for _, start := range []string{"0", "s"} {
		sub.bad = map[string]string{}
		qs := ee.value([]string{start}, vc, EState{Q: start, Facts: s.Facts}, false, depth+1)
		ok := len(qs) > 0 && len(sub.bad) == 0
		for _, q := range qs {
			ok = ok && letterOf(q) == "s"
		}
		if ok {
			return true
		}
	}
	return false
}

// endsInLine: the text that replaces something within a line leaves one within a line.
func (m *prefixMachine) endsInLine(e *Emit, vc VC, s EState, depth int) bool {
	for _, q := range e.value([]string{"s"}, vc, s, false, depth+1) {
		switch l := letterOf(q); {
		case l == "s" || l == "H" || l[0] == 'p' && !m.quote && m.nl == '\n' && false:
		case l == "!":
			return false
		default:
			m.report("a line break is written without the prefix after it", e, vc)
			return false
		}
	}
	return true
}

func (m *prefixMachine) part(v AVal) string {
	if !v.Top && !v.bytes().empty() && v.bytes().minus(bsOf("-0123456789")).empty() {
		return "<number>"
	}
	return "<" + v.labelList() + v.bytes().String() + ">"
}

// isSplit: one of the lines of a text.
func (m *prefixMachine) isSplit(a *AI, vc VC) bool {
	c, ok := vc.V.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeName(c.Common()) {
	case "bytes.Split", "strings.Split", "bytes.FieldsFunc":
		if len(c.Call.Args) == 2 {
			if ss, ok := a.Eval(VC{vc.F, c.Call.Args[1]}).strConsts(); ok && len(ss) == 1 && ss[0] == m.tok {
				return true
			}
		}
	}
	return false
}

// through: the call gives its argument without parts of it, or changed within its lines.
func (m *prefixMachine) through(a *AI, F *Frame, call *ssa.Call, name string) (VC, bool) {
	args := call.Call.Args
	switch name {
	case "bytes.TrimSpace", "strings.TrimSpace", "bytes.Trim", "strings.Trim", "bytes.TrimRight", "strings.TrimRight", "bytes.TrimLeft", "strings.TrimLeft", "bytes.TrimPrefix", "strings.TrimPrefix", "bytes.TrimSuffix", "strings.TrimSuffix", "bytes.Clone", "strings.Clone", "bytes.TrimFunc", "strings.TrimFunc":
		return VC{F, args[0]}, true
	}
	if call.Call.IsInvoke() && call.Call.Method != nil && len(args) == 1 && isStrBytes(args[0].Type()) && isStrBytes(call.Type()) {
		switch call.Call.Method.Name() {
		case "UnEscapeContent", "EscapeContent":
			return VC{F, args[0]}, true
		}
	}
	return VC{}, false
}

// raw: the text is the rendered content as it is, apart from parts that are left out.
func (m *prefixMachine) raw(a *AI, vc VC, seen map[VC]bool) bool {
	if seen[vc] {
		return true
	}
	seen[vc] = true
	F := vc.F
	all := func(vs []VC) bool {
		for _, v := range vs {
			if !emptyLeaf(v.V) && !m.raw(a, v, seen) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch x := vc.V.(type) {
	case *ssa.Slice:
		return m.raw(a, VC{F, x.X}, seen)
	case *ssa.Call:
		name := calleeName(x.Common())
		switch name {
		case "(bytes.Buffer).Bytes", "(bytes.Buffer).String", "(strings.Builder).String", "(bytes.Buffer).Next":
			return a.Eval(vc).Labels["children"]
		}
		if y, ok := m.through(a, F, x, name); ok {
			return m.raw(a, y, seen)
		}
		switch name {
		case "bytes.Split", "strings.Split", "bytes.SplitN", "strings.SplitN", "bytes.SplitAfter", "strings.SplitAfter", "bytes.Fields", "strings.Fields":
			return m.raw(a, VC{F, x.Call.Args[0]}, seen)
		case "bytes.ReplaceAll", "strings.ReplaceAll", "bytes.Replace", "strings.Replace":
			return m.raw(a, VC{F, x.Call.Args[0]}, seen)
		case "builtin.append":
			return m.raw(a, VC{F, x.Call.Args[0]}, seen) && isStrBytes(x.Type())
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && isContainer(ia.X.Type()) {
			if els, _, ok := a.listElems(VC{F, ia.X}); ok {
				return all(els)
			}
			return false
		}
	}
	return all(a.step(vc))
}

// indent: the spaces at the start of a further line are as many as the prefix is wide.
func (m *prefixMachine) indent(e *Emit, vc VC) string {
	a := e.A
	vs := []VC{vc}
	for n := 0; n < 12; n++ {
		if u, cnt, _, ok := a.repeatOf(vs[0]); ok {
			if s, ok := a.Eval(u).strConsts(); ok && len(s) == 1 && strings.Trim(s[0], " ") == "" && s[0] != "" {
				switch m.count(a, cnt, 0) {
				case "ok":
					return "s"
				case "small":
					return m.report("a further line of an item is indented by fewer spaces than its marker is wide", e, vc)
				case "fixed":
					return m.report("the indentation of a further line does not follow from the width of the number", e, vc)
				}
			}
			break
		}
		vs = a.step(vs[0])
		if len(vs) != 1 {
			break
		}
	}
	m.unsure["how far a line is indented"] = a.P.pos(vc.V.Pos())
	return "H"
}

// count: the number of spaces.
func (m *prefixMachine) count(a *AI, vc VC, d int) string {
	if d > 14 {
		return "?"
	}
	if is, ok := a.Eval(vc).intConsts(); ok && len(is) == 1 {
		switch {
		case m.ol:
			return "fixed"
		case is[0] < 2:
			return "small"
		}
		return "ok"
	}
	switch x := vc.V.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if is, ok := a.Eval(VC{vc.F, p[1]}).intConsts(); ok && len(is) == 1 && is[0] >= 0 {
					return m.count(a, VC{vc.F, p[0]}, d+1)
				}
			}
		case token.SUB, token.QUO, token.SHR:
			if m.count(a, VC{vc.F, x.X}, d+1) == "ok" {
				return "small"
			}
		case token.MUL, token.SHL:
			return m.count(a, VC{vc.F, x.X}, d+1)
		}
		return "?"
	case *ssa.Call:
		n := calleeName(x.Common())
		switch n {
		case "builtin.max":
			for _, g := range x.Call.Args {
				if m.count(a, VC{vc.F, g}, d+1) == "ok" {
					return "ok"
				}
			}
			return "?"
		case "builtin.min":
			for _, g := range x.Call.Args {
				if m.count(a, VC{vc.F, g}, d+1) != "ok" {
					return "small"
				}
			}
			return "ok"
		case "builtin.len", "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
			g := VC{vc.F, x.Call.Args[0]}
			if v := a.Eval(g); isContentVal(v) {
				return "?"
			}
			m.widths[a.skey(g, 0)] = g
			return "ok"
		}
	}
	vs := a.step(vc)
	if len(vs) == 0 {
		return "?"
	}
	for _, v := range vs {
		if r := m.count(a, v, d+1); r != "ok" {
			return r
		}
	}
	return "ok"
}

func (m *prefixMachine) Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string {
	if done(q) {
		return q
	}
	l, k := letterOf(q), knownOf(q)
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	if b := condBlock(cond); b != nil && isLoopHeader(b) {
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && ifi.Cond == cond && strings.Contains(k, "=") {
			k = "" // another character
		}
	}
	if phi, ok := cond.(*ssa.Phi); ok {
		return m.flag(F, phi, l, k, taken)
	}
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, ok := p[1].(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int || !isCharType(p[0].Type()) {
				continue
			}
			n, _ := constant.Int64Val(c.Value)
			is := taken == (b.Op == token.EQL)
			key := charKey(VC{F, p[0]})
			if rune(n) == m.nl && (m.nl < utf8.RuneSelf || c.Type().Underlying().String() != "byte" && c.Type().Underlying().String() != "uint8") {
				if l == "b" && k == "|"+key {
					if is {
						return m.newline("s")
					}
					return "s"
				}
				if k == "" || strings.HasPrefix(k, "|"+key) {
					return l + "|" + key + "=" + ifelse(is, "T", "F")
				}
			} else if is {
				if l == "b" && k == "|"+key {
					return "s"
				}
				if k == "" || strings.HasPrefix(k, "|"+key) && !strings.HasSuffix(k, "T") {
					return l + "|" + key + "=F"
				}
			}
		}
	}
	if l == "n" && m.nl == '\n' {
		if !m.quote && emptyFact(e.A, F, cond, taken) {
			return "e" + k
		}
		if lastChar(cond, taken) {
			return "z" + k
		}
	}
	return l + k
}

// flag: a variable tells whether the last character was the line break.
func (m *prefixMachine) flag(F *Frame, phi *ssa.Phi, l, k string, taken bool) string {
	if !isLoopHeader(phi.Block()) {
		return l + k
	}
	init, have := false, false
	for i, ed := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) {
			c, ok := ed.(*ssa.Const)
			if !ok || c.Value == nil || have {
				return l + k
			}
			init, have = constant.BoolVal(c.Value), true
			continue
		}
		b, ok := ed.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return l + k
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return l + k
		}
		if n, _ := constant.Int64Val(c.Value); rune(n) != m.nl {
			return l + k
		}
		if l == "b" && k == "|"+charKey(VC{F, b.X}) {
			if taken {
				return m.newline("s")
			}
			return "s"
		}
	}
	if l == "0" && have && taken != init {
		return "-"
	}
	return l + k
}

// lastChar: the condition tells that there is no further character in the text.
func lastChar(cond ssa.Value, taken bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	lenOf := func(v ssa.Value, minus bool) bool {
		if s, ok := v.(*ssa.BinOp); ok && minus && s.Op == token.SUB && isIntConst(s.Y, 1) {
			v = s.X
		} else if minus {
			return false
		}
		c, ok := v.(*ssa.Call)
		return ok && calleeName(c.Common()) == "builtin.len" && isStrBytes(c.Call.Args[0].Type())
	}
	idx := func(v ssa.Value, plus bool) bool {
		if s, ok := v.(*ssa.BinOp); ok && s.Op == token.ADD && isIntConst(s.Y, 1) {
			_, isPhi := s.X.(*ssa.Phi)
			return isPhi
		}
		_, isPhi := v.(*ssa.Phi)
		return isPhi && !plus
	}
	if isLoopHeader(b.Block()) {
		if ifi, ok := b.Block().Instrs[len(b.Block().Instrs)-1].(*ssa.If); ok && ifi.Cond == cond {
			return false
		}
	}
	last := idx(b.X, false) && lenOf(b.Y, true) || idx(b.X, true) && lenOf(b.Y, false)
	if !last {
		return false
	}
	switch b.Op {
	case token.LSS, token.NEQ:
		return !taken
	case token.GEQ, token.EQL:
		return taken
	}
	return false
}

// shapeMachine writes down the form of a text.
type shapeMachine struct{ m *prefixMachine }

func (shapeMachine) Start() string                    { return "" }
func (shapeMachine) Text(e *Emit, q, s string) string { return q + s }
func (s shapeMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	return q + s.m.part(v)
}
func (shapeMachine) Node(e *Emit, q string, k tkKind, vc VC) string { return q + "<?>" }
func (shapeMachine) Branch(e *Emit, q string, F *Frame, c ssa.Value, t bool) string {
	return q
}

func checkC25(P *Prog, r *Result) {
	_, try := renderStatus(P)
	r.Rule("lines", "on every path every line of the content is written after the prefix of the quote, the marker of the item or its indentation", 3)
	r.Rule("code-lines", "the lines of a code block in the content get the prefix or the indentation as well", 3)
	r.Rule("width", "the indentation is computed from the width of the marker that is written", 2)
	r.Rule("aligned", "the markers of all items of a list have the same width", 1)
	writes := map[string]bool{}
	for _, name := range []string{"blockquote", "ul", "ol"} {
		for _, nl := range []rune{'\n', '\uf002'} {
			for _, c := range handlerCases(P, Scen{Name: name}) {
				m := newPrefixMachine(c, name == "blockquote", name == "ol", nl)
				wrote := false
				for _, x := range c.run(m) {
					if x.Ret != try && x.Q != m.Start() {
						wrote = true
					}
				}
				key := name + " by " + c.key
				if !wrote && len(m.bad) == 0 && !writes[key] {
					continue
				}
				writes[key] = true
				rule := ifelse(nl == '\n', "lines", "code-lines")
				pos := P.pos(c.F.Fn.Pos())
				r.Count("places where content is written", len(m.sites))
				if len(m.bad) > 0 {
					var bad []string
					for w, p := range m.bad {
						bad = append(bad, w+" at "+p)
					}
					sort.Strings(bad)
					r.Bad(rule, key, pos, "%s", strings.Join(first(bad, 3), "; "))
				} else if len(m.unsure) > 0 {
					var un []string
					for w, p := range m.unsure {
						un = append(un, w+" at "+p)
					}
					sort.Strings(un)
					r.OK(rule, key, pos, "not decided: %s", strings.Join(first(un, 3), "; "))
				} else {
					r.OK(rule, key, pos, "every line of the content follows on its prefix")
				}
				if nl != '\n' || name == "blockquote" {
					continue
				}
				c.widthOK(r, m, key, pos)
			}
		}
	}
	checkReturns(P, r)
}

func isDest(v AVal) bool {
	for l := range v.Labels {
		if strings.HasPrefix(l, "url:") {
			return true
		}
	}
	return false
}

// checkReturns: a carriage return ends a line as well, but nothing looks for it. So it may not be written.
func checkReturns(P *Prog, r *Result) {
	r.Rule("returns", "no renderer writes a carriage return of the document: it would end the line without a prefix on the next one", 8)
	cr := bsOf("\r")
	clean := bsAll().minus(cr)
	for _, name := range elements {
		data := clean
		if codeElements[name] {
			data = bsAll()
		}
		n := 0
		var bad []string
		for _, c := range withCore(P, Scen{Name: name, Extra: textHook(data, bsAll())}) {
			c.a.ChildBytes = &clean
			m := &pieceMachine{}
			c.run(m)
			for _, p := range m.got {
				if isDest(p.v) {
					continue // what a destination can contain is C19
				}
				if p.v.Labels["html"] || !(p.v.Labels["nodedata"] || p.v.Labels["children"] || hasAttr(p.v)) {
					continue
				}
				n++
				if p.v.bytes().has('\r') {
					pos := ""
					if p.vc.V != nil {
						pos = " at " + P.pos(p.vc.V.Pos())
					}
					bad = append(bad, c.key+" writes a carriage return of the document"+pos)
				}
			}
		}
		if n > 0 {
			r.Check(len(bad) == 0, "returns", name, "", "%s", orElse(strings.Join(first(uniq(bad), 3), "; "), fmt.Sprintf("%d written texts without carriage returns", n)))
		}
	}
}

// widthOK: what the indentation is computed from is what is written as the marker.
func (c *rcase) widthOK(r *Result, m *prefixMachine, key, pos string) {
	a := c.a
	have := map[string]bool{}
	num := false
	for s := range m.shapes {
		have[s] = true
		num = num || strings.Contains(s, "<number>")
	}
	var bad []string
	for _, g := range m.widths {
		e := newEmit(a, shapeMachine{m}, c.w)
		for _, s := range e.value([]string{""}, g, EState{}, false, 0) {
			if !have[s] {
				bad = append(bad, fmt.Sprintf("the indentation is as wide as %q", s))
			}
		}
	}
	sort.Strings(bad)
	var l []string
	for s := range have {
		l = append(l, fmt.Sprintf("%q", s))
	}
	sort.Strings(l)
	r.Check(len(bad) == 0, "width", key, pos, "%s", orElse(strings.Join(bad, "; ")+ifelse(len(bad) > 0, ", and the marker is "+strings.Join(l, " or "), ""), "the indentation is as wide as the marker"))
	if !num {
		return
	}
	// numbers are padded
	n, badp := 0, ""
	a.walkCalls(c.F, func(F *Frame, site ssa.CallInstruction) {
		call, ok := site.(*ssa.Call)
		if !ok || calleeName(call.Common()) != "fmt.Sprintf" && calleeName(call.Common()) != "fmt.Fprintf" {
			return
		}
		args := call.Call.Args
		if calleeName(call.Common()) == "fmt.Fprintf" {
			args = args[1:]
		}
		f, ok := a.fmtText(VC{F, args[0]}, 0)
		if !ok {
			return
		}
		n++
		m.limited(a, VC{F, args[0]}, map[VC]bool{}, &badp)
		if strings.Contains(f, "%d") && len(m.widths) > 0 && !m.perItem(a) {
			badp = a.P.ipos(call)
		}
	})
	if n == 0 {
		r.OK("aligned", key, pos, "not decided: how the numbers are formatted")
		return
	}
	r.Check(badp == "", "aligned", key, orElse(badp, pos), "%s", ifelse(badp == "", "numbers are padded to one width", "the numbers are not padded to the width of the last one, so the marker of a later item is wider than the indentation that is computed from another one"))
}

// limited: the number whose width is used is not the last one of the list.
func (m *prefixMachine) limited(a *AI, vc VC, seen map[VC]bool, bad *string) bool {
	if seen[vc] {
		return false
	}
	seen[vc] = true
	F := vc.F
	switch x := vc.V.(type) {
	case *ssa.BinOp:
		l := m.limited(a, VC{F, x.X}, seen, bad)
		r := m.limited(a, VC{F, x.Y}, seen, bad)
		if (l || r) && (x.Op == token.REM || x.Op == token.QUO || x.Op == token.AND || x.Op == token.SHR) {
			*bad = a.P.ipos(x)
		}
		return l || r
	case *ssa.Call:
		n := calleeName(x.Common())
		if n == "builtin.len" && isContainer(x.Call.Args[0].Type()) {
			return true
		}
		if frs, _ := a.calleeFrames(F, x); len(frs) == 0 {
			got := false
			for _, g := range x.Call.Args {
				got = m.limited(a, VC{F, g}, seen, bad) || got
			}
			if got && n == "builtin.min" {
				*bad = a.P.ipos(x)
			}
			return got
		}
	}
	got := false
	for _, s := range a.step(vc) {
		got = m.limited(a, s, seen, bad) || got
	}
	return got
}

// perItem: the indentation is computed for each item.
func (m *prefixMachine) perItem(a *AI) bool {
	for _, g := range m.widths {
		in, ok := g.V.(ssa.Instruction)
		if !ok {
			return false
		}
		inLoop := false
		for _, l := range loopsOf(in.Parent()) {
			inLoop = inLoop || l.body[in.Block()]
		}
		if !inLoop {
			return false
		}
	}
	return true
}
