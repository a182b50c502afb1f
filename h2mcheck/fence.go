package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C18: delimiters and fences ----

// step: the values that a value is just another name for (one level).
func (a *AI) step(vc VC) []VC {
	F := vc.F
	switch x := vc.V.(type) {
	case *ssa.Convert:
		return []VC{{F, x.X}}
	case *ssa.ChangeType:
		return []VC{{F, x.X}}
	case *ssa.MakeInterface:
		return []VC{{F, x.X}}
	case *ssa.ChangeInterface:
		return []VC{{F, x.X}}
	case *ssa.Phi:
		fi := a.feasible(F)
		var out []VC
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if !fi.dead[[2]int{p.Index, x.Block().Index}] {
				out = append(out, VC{F, e})
			}
		}
		return out
	case *ssa.Parameter:
		return a.paramArgs(F, x)
	case *ssa.FreeVar, *ssa.UnOp, *ssa.Field:
		if u, ok := x.(*ssa.UnOp); ok && u.Op != token.MUL {
			return nil
		}
		var out []VC
		for _, o := range a.values(vc) {
			if o.Path != "" || o.VC == vc {
				return nil
			}
			out = append(out, o.VC)
		}
		return out
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.stepCall(F, c, x.Index)
		}
	case *ssa.Call:
		return a.stepCall(F, x, 0)
	}
	return nil
}

func (a *AI) stepCall(F *Frame, c *ssa.Call, i int) []VC {
	if isLeafCall(calleeName(c.Common())) {
		return nil
	}
	frs, complete := a.calleeFrames(F, c)
	if !complete {
		return nil
	}
	var out []VC
	for _, fr := range frs {
		out = append(out, a.returns(fr, i)...)
	}
	return out
}

// skey: a key for a value that is equal for computations of the same thing.
func (a *AI) skey(vc VC, depth int) string {
	if c, ok := vc.V.(*ssa.Const); ok {
		return c.String()
	}
	if depth > 12 {
		return fmt.Sprintf("%p@%d", vc.V, vc.F.id)
	}
	if s := a.step(vc); len(s) == 1 {
		return a.skey(s[0], depth+1)
	}
	switch x := vc.V.(type) {
	case *ssa.Call:
		if frs, _ := a.calleeFrames(vc.F, x); len(frs) == 0 {
			if _, ok := x.Call.Value.(*ssa.Function); ok {
				k := calleeName(x.Common()) + "("
				for _, g := range x.Call.Args {
					k += a.skey(VC{vc.F, g}, depth+1) + ","
				}
				return k + ")"
			}
		}
	case *ssa.BinOp:
		return "(" + a.skey(VC{vc.F, x.X}, depth+1) + x.Op.String() + a.skey(VC{vc.F, x.Y}, depth+1) + ")"
	}
	k := fmt.Sprintf("%p", vc.V)
	// the same function with the same arguments gives the same values
	for F := vc.F; F != nil && F.Site != nil; F = F.Up {
		k += "["
		for _, g := range F.Site.Common().Args {
			k += a.skey(VC{F.Up, g}, depth+2) + ","
		}
		k += "]"
		break
	}
	return k
}

// A fenceRun collects the fences and the contents that a renderer of code writes.
type fenceRun struct {
	a       *AI
	letters map[string]string
	fences  map[string]VC
	content map[VC]bool
	infos   map[VC]AVal
	with    map[VC]bool // content that is written after a computed fence
}

// withMachine notes which content follows on a computed fence.
type withMachine struct {
	wroteMachine
	f *fenceRun
}

func (m withMachine) Text(e *Emit, q, s string) string               { return q }
func (m withMachine) Node(e *Emit, q string, k tkKind, vc VC) string { return q }
func (m withMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	if s := m.f.class(e, vc, v); s != "" {
		return "1"
	}
	if q == "1" && v.Labels["nodedata"] {
		m.f.with[vc] = true
	}
	return q
}

func singleChar(b bset) (byte, bool) {
	for c := 0; c < 128; c++ {
		if b == bsOf(string(rune(c))) {
			return byte(c), true
		}
	}
	return 0, false
}

func (f *fenceRun) class(e *Emit, vc VC, v AVal) string {
	if v.Labels["repeat"] {
		if c, ok := singleChar(v.bytes()); ok && c != ' ' && c != '\n' {
			k := f.a.skey(vc, 0)
			l, ok := f.letters[k]
			if !ok {
				l = []string{"X", "Y", "Z", "V"}[min(len(f.letters), 3)]
				f.letters[k] = l
				f.fences[k] = vc
			}
			return l
		}
	}
	if v.Labels["nodedata"] {
		f.content[vc] = true
	}
	if v.Labels["attr:class"] && !v.Labels["nodedata"] {
		f.infos[vc] = v
	}
	return ""
}

// countLeaves: the loop-carried numbers that a count is computed from, and the outermost calls through which
// they are computed.
func (a *AI) countLeaves(vc VC, leaves map[*ssa.Phi]bool, frames map[*Frame]bool, seen map[VC]bool) {
	if seen[vc] {
		return
	}
	seen[vc] = true
	frames[vc.F] = true
	switch x := vc.V.(type) {
	case *ssa.Phi:
		for _, p := range x.Block().Preds {
			if x.Block().Dominates(p) {
				leaves[x] = true
				return
			}
		}
	case *ssa.BinOp:
		a.countLeaves(VC{vc.F, x.X}, leaves, frames, seen)
		a.countLeaves(VC{vc.F, x.Y}, leaves, frames, seen)
		return
	case *ssa.Call:
		if n := calleeName(x.Common()); n == "builtin.max" || n == "builtin.min" {
			for _, g := range x.Call.Args {
				a.countLeaves(VC{vc.F, g}, leaves, frames, seen)
			}
			return
		}
	}
	for _, s := range a.step(vc) {
		a.countLeaves(s, leaves, frames, seen)
	}
}

// textFamily: all values that a text is computed from without losing a part of it (down: parts may be left out).
func (a *AI) textFamily(vc VC, char byte, trims bool, seen map[VC]bool) {
	if seen[vc] {
		return
	}
	seen[vc] = true
	F := vc.F
	switch x := vc.V.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			l, r := VC{F, x.X}, VC{F, x.Y}
			if a.harmless(r, char) {
				a.textFamily(l, char, trims, seen)
			} else if a.harmless(l, char) {
				a.textFamily(r, char, trims, seen)
			}
		}
		return
	case *ssa.Slice:
		if trims || x.Low == nil && x.High == nil {
			a.textFamily(VC{F, x.X}, char, trims, seen)
		}
		return
	case *ssa.Call:
		name := calleeName(x.Common())
		args := x.Call.Args
		switch name {
		case "bytes.ReplaceAll", "strings.ReplaceAll", "bytes.Replace", "strings.Replace":
			if a.harmless(VC{F, args[1]}, char) && a.harmless(VC{F, args[2]}, char) && a.nonEmpty(VC{F, args[2]}) {
				a.textFamily(VC{F, args[0]}, char, trims, seen)
			}
			return
		case "bytes.Join", "strings.Join":
			if !a.harmless(VC{F, args[1]}, char) || !a.nonEmpty(VC{F, args[1]}) {
				return
			}
			for _, o := range a.values(VC{F, args[0]}) {
				c, ok := o.V.(*ssa.Call)
				if ok && o.Path == "" && (calleeName(c.Common()) == "bytes.Split" || calleeName(c.Common()) == "strings.Split") && a.harmless(VC{o.F, c.Call.Args[1]}, char) {
					a.textFamily(VC{o.F, c.Call.Args[0]}, char, trims, seen)
				}
			}
			return
		case "bytes.Clone", "strings.Clone", "slices.Clone":
			a.textFamily(VC{F, args[0]}, char, trims, seen)
			return
		case "bytes.TrimSuffix", "strings.TrimSuffix", "bytes.TrimPrefix", "strings.TrimPrefix", "bytes.TrimSpace", "strings.TrimSpace", "bytes.Trim", "strings.Trim", "bytes.TrimRight", "strings.TrimRight", "bytes.TrimLeft", "strings.TrimLeft":
			if trims {
				a.textFamily(VC{F, args[0]}, char, trims, seen)
			}
			return
		case "builtin.append":
			if a.harmless(VC{F, args[1]}, char) {
				a.textFamily(VC{F, args[0]}, char, trims, seen)
			} else if a.harmless(VC{F, args[0]}, char) {
				a.textFamily(VC{F, args[1]}, char, trims, seen)
			}
			return
		}
	}
	for _, s := range a.step(vc) {
		a.textFamily(s, char, trims, seen)
	}
}

func (a *AI) harmless(vc VC, char byte) bool {
	v := a.Eval(vc)
	if v.Top {
		return false
	}
	return !v.bytes().has(char)
}
func (a *AI) nonEmpty(vc VC) bool {
	v := a.Eval(vc)
	return !v.Top && v.minLen() > 0
}

// unrecorded looks for a counter of runs that is reset (or lost) before its value was recorded.
func unrecorded(f *ssa.Function) (found bool, bad ssa.Instruction) {
	for _, l := range loopsOf(f) {
		for _, in := range l.head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			b, ok := phi.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			if f2, b2 := runCounter(f, l, phi); f2 {
				found = true
				if b2 != nil {
					bad = b2
				}
			}
		}
	}
	return
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
}

func runCounter(f *ssa.Function, l *loop, phi *ssa.Phi) (bool, ssa.Instruction) {
	fam := map[ssa.Value]bool{phi: true}
	for ch := true; ch; {
		ch = false
		instrs(f, func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok || fam[v] || !l.body[in.Block()] {
				return
			}
			switch x := v.(type) {
			case *ssa.BinOp:
				if x.Op == token.ADD && (fam[x.X] && isIntConst(x.Y, 1) || fam[x.Y] && isIntConst(x.X, 1)) {
					fam[v] = true
					ch = true
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if fam[e] {
						fam[v] = true
						ch = true
						return
					}
				}
			}
		})
	}
	inc, reset := false, false
	index := false
	for v := range fam {
		switch x := v.(type) {
		case *ssa.BinOp:
			inc = true
		case *ssa.Phi:
			for i, e := range x.Edges {
				if isIntConst(e, 0) && l.body[x.Block().Preds[i]] {
					reset = true
				}
				if !fam[e] && !isIntConst(e, 0) && !isIntConst(e, 1) {
					return false, nil
				}
			}
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Lookup:
				index = true
				_ = x
			}
		}
	}
	if !inc || !reset || index {
		return false, nil
	}
	// typestate: 1 = the current count was not recorded
	type st struct {
		b *ssa.BasicBlock
		d bool
	}
	seen := map[st]bool{}
	var bad ssa.Instruction
	var walk func(b *ssa.BasicBlock, d bool)
	walk = func(b *ssa.BasicBlock, d bool) {
		if seen[st{b, d}] {
			return
		}
		seen[st{b, d}] = true
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if fam[x] {
					d = true
				} else if cmpOp(x.Op) {
					_, cx := x.X.(*ssa.Const)
					_, cy := x.Y.(*ssa.Const)
					if fam[x.X] && !cy || fam[x.Y] && !cx {
						d = false
					}
				}
			case *ssa.Store:
				if fam[x.Val] {
					d = false
				}
			case *ssa.Call:
				for _, g := range x.Call.Args {
					if fam[g] {
						d = false
					}
				}
			case *ssa.Return:
				lost := d
				for _, r := range x.Results {
					if fam[r] {
						lost = false
					}
				}
				if lost {
					bad = x
				}
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		for si, s := range b.Succs {
			nd := d
			if ifi, ok := last.(*ssa.If); ok {
				if zeroBranch(fam, ifi.Cond, si == 0) {
					nd = false
				}
			}
			// reset on this edge?
			for _, in := range s.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !fam[p] {
					continue
				}
				for i, pr := range s.Preds {
					if pr == b && isIntConst(p.Edges[i], 0) {
						if nd && l.body[b] {
							bad = last
						}
						nd = false
					}
				}
			}
			walk(s, nd)
		}
	}
	walk(f.Blocks[0], false)
	return true, bad
}

func cmpOp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		return true
	}
	return false
}

// zeroBranch: on this way of the branch the counter is zero.
func zeroBranch(fam map[ssa.Value]bool, cond ssa.Value, taken bool) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, x, y := b.Op, b.X, b.Y
	if fam[y] {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !fam[x] {
		return false
	}
	switch {
	case op == token.EQL && isIntConst(y, 0), op == token.LEQ && isIntConst(y, 0), op == token.LSS && isIntConst(y, 1):
		return taken
	case op == token.NEQ && isIntConst(y, 0), op == token.GTR && isIntConst(y, 0), op == token.GEQ && isIntConst(y, 1):
		return !taken
	}
	return false
}

func init() {
	register("C18", func(P *Prog, r *Result) {
		_, try := renderStatus(P)
		r.Rule("paired", "whatever is written for the element opens and closes with the same delimiter, in turns, with something in between", 10)
		r.Rule("fenced", "the code is written between two times the same fence; a block with line breaks around it", 7)
		r.Rule("longer", "for every length of the longest run of fence characters, the computed fence is longer (and at least three for a block)", 3)
		r.Rule("measured", "the fence is computed from the text that is written, with the character of the fence", 3)
		r.Rule("runs", "no run of fence characters is forgotten when the runs are counted", 1)
		r.Rule("info", "the text after the opening fence contains neither a line break nor the fence character", 1)
		fields := map[string]string{}
		pairedT := func(d string) string {
			return `({K}|{N}|{W}|\s|` + d + `({K}|{N}|{W}| )+` + d + `)*`
		}
		emph := []construct{}
		for _, n := range []string{"strong b", "em i", "del s strike"} {
			for _, st := range []string{"__", "**"} {
				for _, em := range []string{"_", "*"} {
					d := st
					if strings.HasPrefix(n, "em") {
						d = em
					}
					cfg := "commonmark.WithStrongDelimiter=" + st + ",commonmark.WithEmDelimiter=" + em
					if strings.HasPrefix(n, "del") {
						d = "~~"
						if st != "__" || em != "_" {
							continue
						}
						cfg = "strikethrough.WithDelimiter=~~"
					}
					emph = append(emph, construct{names: n, cfg: cfg, tmpl: pairedT(strings.ReplaceAll(d, "*", `\*`))})
				}
			}
		}
		for _, k := range emph {
			cfg, err := cfgOf(P, fields, k.cfg)
			for _, n := range strings.Fields(k.names) {
				key := n + " with " + strings.ReplaceAll(k.cfg, "commonmark.", "")
				if err != nil {
					r.Bad("paired", key, "", "%v", err)
					continue
				}
				t := newTmpl(k.tmpl)
				for _, c := range handlerCases(P, Scen{Name: n, Cfg: cfg}) {
					nOK, bad := c.fits(t, nil, anySucc(try))
					if nOK == 0 {
						continue
					}
					r.Count("successful exits", nOK)
					pos := P.pos(c.F.Fn.Pos())
					if len(bad) > 3 {
						bad = bad[:3]
					}
					r.Check(len(bad) == 0, "paired", key+" by "+c.key, pos, "%s", orElse(strings.Join(bad, "; "), "opened and closed in turns"))
				}
			}
		}
		inner := "[^{X}{Y}{Z}`~]*"
		codeT := "(`+" + inner + "`+|{X}" + inner + "{X}|{Y}" + inner + "{Y}|{Z}" + inner + "{Z})?"
		preT := func(c string) string {
			t := `\n\n(`
			for i, f := range []string{c + "+", "{X}", "{Y}", "{Z}"} {
				if i > 0 {
					t += "|"
				}
				t += f + `({I}|{N})?\n.*\n` + f
			}
			return t + `)\n\n`
		}
		var codes []construct
		codes = append(codes, construct{names: "code var samp kbd tt", tmpl: codeT})
		codes = append(codes, construct{names: "pre", cfg: "commonmark.WithCodeBlockFence=```", tmpl: preT("`")})
		codes = append(codes, construct{names: "pre", cfg: "commonmark.WithCodeBlockFence=~~~", tmpl: preT("~")})
		runs := map[*ssa.Function]bool{}
		for _, k := range codes {
			cfg, err := cfgOf(P, fields, k.cfg)
			for _, n := range strings.Fields(k.names) {
				key := strings.TrimSpace(n + " " + strings.ReplaceAll(k.cfg, "commonmark.", ""))
				if err != nil {
					r.Bad("fenced", key, "", "%v", err)
					continue
				}
				t := newTmpl(k.tmpl)
				for _, c := range handlerCases(P, Scen{Name: n, Cfg: cfg}) {
					fr := &fenceRun{c.a, map[string]string{}, map[string]VC{}, map[VC]bool{}, map[VC]AVal{}, map[VC]bool{}}
					nOK, bad := c.fits(t, fr.class, anySucc(try))
					if nOK == 0 {
						continue
					}
					c.run(withMachine{f: fr})
					pos := P.pos(c.F.Fn.Pos())
					r.Count("successful exits", nOK)
					if len(bad) > 3 {
						bad = bad[:3]
					}
					r.Check(len(bad) == 0, "fenced", key, pos, "%s", orElse(strings.Join(bad, "; "), "between two times the same fence"))
					if len(fr.fences) == 0 {
						r.Check(n != "pre", "longer", key, pos, "no computed fence is written")
					}
					var ks []string
					for k := range fr.fences {
						ks = append(ks, k)
					}
					sort.Slice(ks, func(i, j int) bool { return fr.letters[ks[i]] < fr.letters[ks[j]] })
					for _, fk := range ks {
						decideFence(P, r, c, key, n == "pre", fr, fr.fences[fk], runs)
					}
					for vc, v := range fr.infos {
						b := v.bytes()
						p := ""
						if b.has('\n') {
							p = "a line break"
						} else if b.has('`') && strings.Contains(k.cfg, "`") {
							p = "the fence character"
						}
						r.Check(p == "", "info", key, P.pos(vc.V.Pos()), "%s", orElse(ifelse(p != "", "it can contain "+p, ""), "contains neither"))
					}
				}
			}
		}
		var fs []*ssa.Function
		for f := range runs {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fkey(fs[i]) < fkey(fs[j]) })
		n := 0
		for _, f := range fs {
			found, bad := unrecorded(f)
			if !found {
				continue
			}
			n++
			if bad != nil {
				r.Bad("runs", fkey(f), P.ipos(bad), "the number of characters in a run can be dropped here without being compared or kept")
			} else {
				r.OK("runs", fkey(f), P.pos(f.Pos()), "every run is kept or compared before the counter is reset")
			}
		}
		if n == 0 {
			r.OK("runs", "none", "", "no function counts runs with a counter that is reset: not decided")
		}
	})
}

// anySucc: the status of a handler that accepted is anything but the given one.
func anySucc(try string) string { return "!" + try }

func decideFence(P *Prog, r *Result, c *rcase, key string, block bool, fr *fenceRun, vc VC, runs map[*ssa.Function]bool) {
	a := c.a
	pos := P.pos(vc.V.Pos())
	unit, count, rn, ok := a.repeatOf(vc)
	if !ok {
		r.OK("longer", key, pos, "the fence is not a repeated character: not decided")
		return
	}
	leaves, frames := map[*ssa.Phi]bool{}, map[*Frame]bool{}
	a.countLeaves(count, leaves, frames, map[VC]bool{})
	for F := range frames {
		runs[F.Fn] = true
	}
	if len(leaves) == 0 {
		if is, ok := a.Eval(count).intConsts(); ok {
			r.Bad("longer", key, pos, "the length of the fence is always %v", is)
		} else {
			r.OK("longer", key, pos, "the length could not be followed to a counting loop: not decided")
		}
		return
	}
	// the lengths for every length of the longest run
	problem := ""
	decided := 0
	for _, k := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 1000, 100000} {
		s := *c.sc
		b := newAI(P)
		s.Extra = func(a *AI, o Org) (AVal, bool) {
			if phi, ok := o.V.(*ssa.Phi); ok && o.Path == "" && leaves[phi] {
				return intConst(k), true
			}
			return AVal{}, false
		}
		b.Hook = (&s).hook
		G := reframe(b, count.F)
		is, ok := b.Eval(VC{G, count.V}).intConsts()
		if !ok {
			continue
		}
		decided++
		for _, i := range is {
			if i <= k && problem == "" {
				problem = fmt.Sprintf("with a run of %d in the text the fence has only %d characters", k, i)
			}
			if block && i < 3 && problem == "" {
				problem = fmt.Sprintf("with a run of %d in the text the fence has %d characters, a block needs three", k, i)
			}
		}
	}
	if decided == 0 {
		r.OK("longer", key, pos, "the length could not be computed from the longest run: not decided")
	} else {
		r.Check(problem == "", "longer", key, pos, "%s", orElse(problem, fmt.Sprintf("longer than the longest run, for %d lengths", decided)))
	}
	// what is measured: the text arguments of the outermost calls on the way
	uv := a.Eval(unit)
	if rn {
		uv = runeText(uv)
	}
	char, okc := singleChar(uv.bytes())
	if !okc {
		r.OK("measured", key, pos, "the fence character is not known: not decided")
		return
	}
	measured := map[VC]bool{}
	nText, wrongChar := 0, ""
	for F := range frames {
		if F.Site == nil || F.Up == nil {
			continue
		}
		for _, g := range F.Site.Common().Args {
			g := VC{F.Up, g}
			if isStrBytes(g.V.Type()) {
				if v := a.Eval(g); len(v.Consts) > 0 && !v.Str {
					if ss, ok := v.strConsts(); ok && len(ss) == 1 && len(ss[0]) == 1 && ss[0][0] != char {
						wrongChar = ss[0]
					}
					continue
				}
				nText++
				a.textFamily(g, char, false, measured)
			} else if b, ok := g.V.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8) {
				if is, ok := a.Eval(g).intConsts(); ok {
					for _, i := range is {
						if i != int64(char) {
							wrongChar = string(rune(i))
						}
					}
				}
			}
		}
	}
	if nText == 0 {
		r.OK("measured", key, pos, "the runs are not counted in a function that is given the text: not decided")
		return
	}
	miss := ""
	for w := range fr.content {
		seen := map[VC]bool{}
		a.textFamily(w, char, true, seen)
		found := false
		for x := range seen {
			if measured[x] {
				if _, isConst := x.V.(*ssa.Const); !isConst {
					found = true
				}
			}
		}
		// a piece of what a function built whose result is measured
		for F := w.F; F != nil && F.Site != nil && !found; F = F.Up {
			if v, ok := F.Site.(ssa.Value); ok && measured[VC{F.Up, v}] {
				found = true
			}
		}
		// content that is only white space needs no fence of its own
		if !found && fr.needs(w, vc) {
			miss = strings.TrimSpace(P.pos(w.V.Pos()) + " in " + fkey(w.F.Fn))
		}
	}
	switch {
	case wrongChar != "":
		r.Bad("measured", key, pos, "the fence is made of %q, but runs of %q are counted", string(rune(char)), wrongChar)
	case miss != "":
		r.Bad("measured", key, pos, "the text that is written (%s) is not the text whose runs are counted", miss)
	default:
		r.OK("measured", key, pos, "the runs of %q in the text that is written", string(rune(char)))
	}
}

// needs: is the content written in the same run as the fence (not on a path of its own)?
func (f *fenceRun) needs(w, fence VC) bool { return f.with[w] }

// reframe finds the frame of another interpreter that corresponds to a frame.
func reframe(b *AI, F *Frame) *Frame {
	if F == nil {
		return nil
	}
	return b.frame(F.Fn, F.Site, reframe(b, F.Up), F.Clo, reframe(b, F.CloF))
}
