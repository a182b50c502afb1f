package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A template is a regular language over characters and classes of values, written as a regular
// expression in which {K} and so on stand for a value of that class:
//
//	{K} rendered content of the element   {N} text collected from its nodes
//	{U} a resolved destination            {T} {A} {I} its title, alt text, class
//	{n} a number                          {W} white space      {+} the character before, repeated
//	{H} html                              {V} anything else
const tmplClasses = "SKNUTAInW+HVXYZ"

func classRune(c byte) rune { return 0xE000 + rune(c) }

type tmpl struct {
	src  string
	prog *syntax.Prog
}

func newTmpl(src string) *tmpl {
	var b strings.Builder
	for i := 0; i < len(src); i++ {
		if src[i] == '{' && i+2 < len(src) && src[i+2] == '}' && strings.IndexByte(tmplClasses, src[i+1]) >= 0 {
			b.WriteRune(classRune(src[i+1]))
			i += 2
			continue
		}
		b.WriteByte(src[i])
	}
	re, err := syntax.Parse(b.String(), syntax.Perl|syntax.DotNL)
	if err != nil {
		panic(err)
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(err)
	}
	return &tmpl{src, p}
}

func (t *tmpl) closure(pcs map[uint32]bool, pc uint32) {
	if pcs[pc] {
		return
	}
	pcs[pc] = true
	in := &t.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		t.closure(pcs, in.Out)
		t.closure(pcs, in.Arg)
	case syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
		t.closure(pcs, in.Out)
	}
}

func (t *tmpl) enc(pcs map[uint32]bool, hist string) string {
	if len(pcs) == 0 {
		return "!" + hist
	}
	var l []int
	for p := range pcs {
		switch t.prog.Inst[p].Op {
		case syntax.InstAlt, syntax.InstAltMatch, syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
			continue
		}
		l = append(l, int(p))
	}
	sort.Ints(l)
	var b []string
	for _, p := range l {
		b = append(b, strconv.Itoa(p))
	}
	return strings.Join(b, ",")
}
func (t *tmpl) dec(q string) []uint32 {
	var out []uint32
	for _, s := range strings.Split(q, ",") {
		n, err := strconv.Atoi(s)
		if err == nil {
			out = append(out, uint32(n))
		}
	}
	return out
}
func (t *tmpl) start() string {
	m := map[uint32]bool{}
	t.closure(m, uint32(t.prog.Start))
	return t.enc(m, "")
}
func (t *tmpl) step(q string, r rune) string {
	if strings.HasPrefix(q, "!") {
		return q
	}
	if strings.HasPrefix(q, "~") {
		if r == classRune('K') || r == classRune('N') {
			r = classRune('W')
		}
		q = t.step(q[1:], r)
		if strings.HasPrefix(q, "!") {
			return q
		}
		return "~" + q
	}
	m := map[uint32]bool{}
	for _, pc := range t.dec(q) {
		in := &t.prog.Inst[pc]
		ok := false
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			ok = in.MatchRune(r)
		case syntax.InstRuneAny:
			ok = true
		case syntax.InstRuneAnyNotNL:
			ok = r != '\n'
		}
		if ok {
			t.closure(m, in.Out)
		}
	}
	return t.enc(m, symName(r))
}
func (t *tmpl) match(q string) bool {
	if strings.HasPrefix(q, "!") {
		return false
	}
	for _, pc := range t.dec(strings.TrimPrefix(q, "~")) {
		if t.prog.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}

func symName(r rune) string {
	if r >= 0xE000 && r < 0xE100 {
		switch r - 0xE000 {
		case 'K':
			return "the rendered content"
		case 'N':
			return "text of the document"
		case 'U':
			return "a destination"
		case 'T':
			return "a title"
		case 'A':
			return "an alt text"
		case 'H':
			return "html"
		case 'n':
			return "a number"
		case 'W':
			return "white space"
		}
		return "some other text"
	}
	return strconv.QuoteRune(r)
}

// tmplMachine runs a template over the output of a renderer.
type tmplMachine struct {
	t     *tmpl
	class func(e *Emit, vc VC, v AVal) string // symbols of a value: class letters, or "" for the default
	space bool                                // content that was found to be empty once trimmed counts as white space
}

func (m *tmplMachine) Start() string { return m.t.start() }
func (m *tmplMachine) Text(e *Emit, q, s string) string {
	for _, r := range s {
		q = m.t.step(q, r)
	}
	return q
}
func (m *tmplMachine) syms(q, syms string) string {
	for i := 0; i < len(syms); i++ {
		q = m.t.step(q, classRune(syms[i]))
	}
	return q
}
func (m *tmplMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	if m.class != nil {
		if s := m.class(e, vc, v); s != "" {
			return m.syms(q, s)
		}
	}
	if v.Labels["repeat"] {
		b := v.bytes()
		for c := 0; c < 128; c++ {
			if b == bsOf(string(rune(c))) {
				return m.syms(m.t.step(q, rune(c)), "+")
			}
		}
	}
	return m.syms(q, defaultClass(v))
}

func defaultClass(v AVal) string {
	has := func(l string) bool { return v.Labels[l] }
	switch {
	case has("opaque"):
		return "V"
	case has("children"):
		return "K"
	case has("html"):
		return "H"
	case has("nodedata"):
		return "N"
	case has("attr:title"):
		return "T"
	case has("attr:alt"):
		return "A"
	case has("attr:class"):
		return "I"
	}
	url := false
	for l := range v.Labels {
		if strings.HasPrefix(l, "url:") {
			url = true
		} else if l != "repeat" {
			return "V"
		}
	}
	if url {
		return "U"
	}
	if len(v.Labels) == 0 {
		b := v.bytes()
		if !b.empty() && b.minus(wsBytes).empty() {
			return "W"
		}
		if !b.empty() && b.minus(bsOf("-0123456789")).empty() {
			return "n"
		}
	}
	return "V"
}

func (m *tmplMachine) Node(e *Emit, q string, k tkKind, vc VC) string {
	switch k {
	case tkChildren:
		return m.syms(q, "K")
	case tkHTML:
		return m.syms(q, "H")
	}
	return m.syms(q, "V")
}
func (m *tmplMachine) Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string {
	if m.space && !strings.HasPrefix(q, "~") && !strings.HasPrefix(q, "!") && e.A.trimmedEmpty(VC{F, cond}, taken) {
		return "~" + q
	}
	return q
}

// trimmedEmpty: the branch is taken if a trimmed text is empty.
func (a *AI) trimmedEmpty(vc VC, taken bool) bool {
	for {
		u, ok := vc.V.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		vc, taken = VC{vc.F, u.X}, !taken
	}
	b, ok := vc.V.(*ssa.BinOp)
	if !ok {
		if s := a.step(vc); len(s) == 1 {
			return a.trimmedEmpty(s[0], taken)
		}
		return false
	}
	trimmed := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
			v = c.Call.Args[0]
		}
		t := VC{vc.F, v}
		for n := 0; n < 8; n++ {
			if c, ok := t.V.(*ssa.Call); ok {
				name := calleeName(c.Common())
				if strings.Contains(name, ".Trim") && (strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.")) {
					return true
				}
			}
			s := a.step(t)
			if len(s) != 1 {
				return false
			}
			t = s[0]
		}
		return false
	}
	zero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && (c.Value == nil || c.Value.ExactString() == "0" || c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "")
	}
	if !trimmed(b.X) || !zero(b.Y) {
		return false
	}
	switch b.Op {
	case token.EQL, token.LEQ:
		return taken
	case token.NEQ, token.GTR:
		return !taken
	}
	return false
}

// partClass: a piece that was cut out of the content (at a place that is not known).
func partClass(e *Emit, vc VC, v AVal) string {
	if defaultClass(v) != "K" {
		return ""
	}
	switch x := vc.V.(type) {
	case *ssa.Slice:
		if x.Low != nil || x.High != nil {
			return "S"
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		for _, s := range []string{".Split", ".Fields", ".Cut"} {
			if strings.Contains(n, s) {
				return "S"
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && strings.Contains(calleeName(c.Common()), ".Cut") {
			return "S"
		}
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.IndexAddr); ok {
			return "S"
		}
	}
	return ""
}

// fits runs a template over all exits that can report success.
func (c *rcase) fits(t *tmpl, class func(e *Emit, vc VC, v AVal) string, succ string) (n int, bad []string) {
	m := &tmplMachine{t: t, class: class}
	seen := map[string]bool{}
	for _, x := range c.run(m) {
		if !successMay(x, succ) {
			continue
		}
		n++
		if m.t.match(x.Q) {
			continue
		}
		why := "the output ends too early"
		if strings.HasPrefix(x.Q, "!") {
			why = "unexpected " + x.Q[1:]
		}
		s := fmt.Sprintf("%s (returns at %s)", why, c.a.P.pos(x.Pos))
		if !seen[s] {
			seen[s] = true
			bad = append(bad, s)
		}
	}
	sort.Strings(bad)
	return
}
