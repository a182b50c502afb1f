package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C10: only documented option values ----

// documented values of the text options (public API).
var documented = map[string][]string{
	"WithEmDelimiter":              {"_", "*"},
	"WithStrongDelimiter":          {"__", "**"},
	"WithBulletListMarker":         {"-", "+", "*"},
	"WithCodeBlockFence":           {"```", "~~~"},
	"WithHeadingStyle":             {"atx", "setext"},
	"WithLinkEmptyHrefBehavior":    {"render", "skip"},
	"WithLinkEmptyContentBehavior": {"render", "skip"},
	"WithSpanCellBehavior":         {"empty", "mirror"},
	"WithNewlineBehavior":          {"skip", "preserve"},
	"WithCellPaddingBehavior":      {"aligned", "minimal", "none"},
}

// a thematic break: three or more of one character with optional spaces
var hrOK = regexp.MustCompile("^[ \t]*((\\*[ \t]*){3,}|(_[ \t]*){3,}|(-[ \t]*){3,})$")
var hrGood = []string{"* * *", "---", "***", "___", "- - - -", "* * * * *"}
var hrBad = []string{"--", "*", "- -", "*-_", "**-", "---a", "a---", "abc", "===", "# # #", "---\n---", "\n---", "***\n", "<hr>", "- - x", "++ +", "-_-_-_", "....", "___ <b>"}

type textOption struct {
	pkg  string
	fn   *ssa.Function
	typ  types.Type // the plugin struct that the option changes
	errs bool       // the option itself returns an error
}

// textOptions: exported functions that take a text and return a function on a plugin's configuration.
func textOptions(P *Prog, pkg string) []textOption {
	var out []textOption
	for _, f := range P.Funcs {
		if fnPkgPath(f) != modPath+"/plugin/"+pkg || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		s := f.Signature
		if s.Params().Len() != 1 || s.Results().Len() != 1 {
			continue
		}
		b, ok := s.Params().At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			continue
		}
		g, ok := s.Results().At(0).Type().Underlying().(*types.Signature)
		if !ok || g.Params().Len() != 1 || !isPluginStruct(g.Params().At(0).Type()) {
			continue
		}
		o := textOption{pkg: pkg, fn: f, typ: g.Params().At(0).Type()}
		for i := 0; i < g.Results().Len(); i++ {
			if isErrType(g.Results().At(i).Type()) {
				o.errs = true
			}
		}
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn.Name() < out[j].fn.Name() })
	return out
}

// packageTexts: the text constants that occur in a package (a value that is accepted by comparing it with
// other texts is one of these).
func packageTexts(P *Prog, pkg string) []string {
	m := map[string]bool{}
	for f := range P.All {
		if fnPkgPath(f) != modPath+"/plugin/"+pkg {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					if s := constant.StringVal(c.Value); len(s) <= 24 {
						m[s] = true
					}
				}
			}
		})
	}
	for _, mem := range P.Pkg("plugin/" + pkg).Members {
		if c, ok := mem.(*ssa.NamedConst); ok && c.Value.Value.Kind() == constant.String {
			m[constant.StringVal(c.Value.Value)] = true
		}
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// undocumentedSamples: the texts of the package and variations of the documented values.
func undocumentedSamples(P *Prog, o textOption, doc []string) []string {
	m := map[string]bool{}
	for _, s := range packageTexts(P, o.pkg) {
		m[s] = true
	}
	for _, d := range doc {
		for _, v := range []string{d + d, " " + d, d + " ", d + "\n", strings.ToUpper(d), d + "x", "x" + d, d[:len(d)-1], d[1:], strings.Title(d), d + "\x00"} {
			m[v] = true
		}
	}
	for _, v := range []string{"undocumented", "<b>", "](x)", "\n\n", "#", "~", "`", "0", "default", "none", "==", "text with spaces"} {
		m[v] = true
	}
	for _, d := range doc {
		delete(m, d)
	}
	delete(m, "")
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// errOutcome: can the frame return no error, can it return an error?
func errOutcome(a *AI, F *Frame, idx int) (okMay, errMay bool) {
	for _, r := range a.returns(F, idx) {
		guarded := a.guardedReturns(F, idx, r.V)
		for _, o := range a.values(r) {
			if c, isC := o.V.(*ssa.Const); isC && o.Path == "" && c.IsNil() {
				if !guarded {
					okMay = true
				}
				continue
			}
			if o.Path == "" && a.P.errFlow().nonNil(o.V, 4) {
				errMay = true
				continue
			}
			if _, isA := o.V.(*ssa.Alloc); isA && o.Path == "" {
				errMay = true
				continue
			}
			if strings.HasPrefix(o.Path, "zero") {
				if !guarded {
					okMay = true
				}
				continue
			}
			errMay = true
			if !guarded {
				okMay = true
			}
		}
	}
	return
}

// A table loop is a loop over a list literal.
type tableLoop struct {
	F      *Frame
	idx    ssa.Value // the index within the loop
	cond   ssa.Value
	into   bool // value of the condition that enters the body
	arr    *ssa.Alloc
	n      int64
	header *ssa.BasicBlock
}

// tableLoops finds the loops over list literals in a frame and the functions it enters.
func tableLoops(a *AI, root *Frame) []tableLoop {
	var out []tableLoop
	a.eachFrame(root, func(F *Frame) {
		for _, b := range F.Fn.Blocks {
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, ok := ifi.Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS {
				continue
			}
			ln, ok := c.Y.(*ssa.Call)
			if !ok || calleeName(ln.Common()) != "builtin.len" {
				continue
			}
			// the index counts up from the start
			idx := c.X
			isIdx := false
			switch x := idx.(type) {
			case *ssa.BinOp:
				if phi, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD && phi.Block() == b && phiStart(phi, x, -1) {
					isIdx = true
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if y, ok := e.(*ssa.BinOp); ok && y.Op == token.ADD && y.X == ssa.Value(x) && phiStart(x, y, 0) {
						isIdx = x.Block() == b
					}
				}
			}
			if !isIdx {
				continue
			}
			os := a.values(VC{F, ln.Common().Args[0]})
			if len(os) != 1 || os[0].Path != "" {
				continue
			}
			sl, ok := os[0].V.(*ssa.Slice)
			if !ok || sl.Low != nil || sl.High != nil {
				continue
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || at.Len() > 32 {
				continue
			}
			out = append(out, tableLoop{F, idx, c, true, al, at.Len(), b})
		}
	})
	return out
}

func phiStart(phi *ssa.Phi, inc *ssa.BinOp, from int64) bool {
	k, ok := inc.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Int64() != 1 {
		return false
	}
	for _, e := range phi.Edges {
		if e == ssa.Value(inc) {
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != from {
			return false
		}
	}
	return true
}

// outOfFocus: the address is an element of a list literal that is not looked at.
func (a *AI) outOfFocus(addr ssa.Value) bool {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			if i, ok := a.Focus[x.X]; ok {
				if c, ok := x.Index.(*ssa.Const); ok && c.Int64() != i {
					return true
				}
			}
			addr = x.X
			continue
		}
		return false
	}
}

// rejectsByTable: some iteration of a loop over a list literal always ends the function with an error,
// and no iteration ends it without one.
func rejectsByTable(P *Prog, hook func(a *AI, o Org) (AVal, bool), mk func(a *AI) *Frame) bool {
	base := newAI(P)
	base.Hook = hook
	for li, l := range tableLoops(base, mk(base)) {
		ends := false
		okMay := false
		for i := int64(0); i < l.n; i++ {
			i := i
			l := l
			a := newAI(P)
			a.Focus = map[ssa.Value]int64{l.arr: i}
			a.Hook = func(a *AI, o Org) (AVal, bool) {
				if o.Path == "" && o.V == l.idx {
					return intConst(i), true
				}
				if o.Path == "" && o.V == l.cond {
					return boolConst(l.into), true
				}
				return hook(a, o)
			}
			F := mk(a)
			ok, _ := errOutcome(a, F, errIndex(F.Fn))
			okMay = okMay || ok
			ls := tableLoops(a, F)
			if li >= len(ls) {
				okMay = true
				break
			}
			lf := ls[li].F
			fi := a.feasible(lf)
			back := false
			for _, p := range l.header.Preds {
				if l.header.Dominates(p) && fi.live[p.Index] && !fi.dead[[2]int{p.Index, l.header.Index}] {
					back = true
				}
			}
			if !back {
				ends = true
			}
		}
		if ends && !okMay {
			return true
		}
	}
	return false
}

func init() {
	register("C10", func(P *Prog, r *Result) {
		r.Rule("rejects", "with an undocumented value for a text option, every way through the validation returns an error", 10)
		r.Rule("accepts", "with a documented value the validation can succeed", 10)
		r.Rule("stores", "the option stores exactly its value in the configuration", 7)
		r.Rule("kept", "the value of an option is not changed before it is validated", 7)
		for _, pkg := range []string{"commonmark", "table"} {
			opts := textOptions(P, pkg)
			for _, o := range opts {
				doc, known := documented[o.fn.Name()]
				isHR := o.fn.Name() == "WithHorizontalRule"
				bad := undocumentedSamples(P, o, doc)
				good := doc
				if isHR {
					known = true
					bad = nil
					for _, s := range append(append([]string{}, hrBad...), packageTexts(P, pkg)...) {
						if s != "" && !hrOK.MatchString(s) {
							bad = append(bad, s)
						}
					}
					good = hrGood
				}
				if !known {
					good = nil
					bad = []string{"undocumented", "<b>\n\n](x)"}
				}
				decideOption(P, r, o, good, bad, isHR)
			}
			r.Count("options", len(opts))
		}
	})
}

// optionFrames: the closures that an option function returns.
func optionFrames(a *AI, f *ssa.Function) []*Frame {
	var out []*Frame
	root := a.Root(f)
	for _, rv := range a.returns(root, 0) {
		for _, o := range a.values(rv) {
			switch v := o.V.(type) {
			case *ssa.MakeClosure:
				out = append(out, a.frame(v.Fn.(*ssa.Function), nil, nil, v, o.F))
			case *ssa.Function:
				out = append(out, a.frame(v, nil, nil, nil, nil))
			}
		}
	}
	return out
}

// eachFieldStore: the stores to fields of plugin structs in a frame and the functions it enters.
func eachFieldStore(a *AI, F *Frame, fn func(F *Frame, st *ssa.Store, field string)) {
	a.eachFrame(F, func(F *Frame) {
		eachFieldStoreIn(a, F, func(st *ssa.Store, field string) { fn(F, st, field) })
	})
}

func eachFieldStoreIn(a *AI, F *Frame, fn func(st *ssa.Store, field string)) {
	fi := a.feasible(F)
	for _, b := range F.Fn.Blocks {
		if !fi.live[b.Index] {
			continue
		}
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isPluginStruct(fa.X.Type()) {
				continue
			}
			fn(st, strings.TrimPrefix(fieldName(fa.X.Type(), fa.Field), "."))
		}
	}
}

func decideOption(P *Prog, r *Result, o textOption, good, bad []string, partial bool) {
	key := o.pkg + "." + o.fn.Name()
	pos := P.pos(o.fn.Pos())
	paramHook := func(v AVal) func(a *AI, og Org) (AVal, bool) {
		return func(a *AI, og Org) (AVal, bool) {
			if og.Path == "" && og.V == ssa.Value(o.fn.Params[0]) {
				return v, true
			}
			return AVal{}, false
		}
	}
	if o.errs {
		// the option validates the value itself
		run := func(s string) (okMay, errMay bool) {
			a := newAI(P)
			a.Hook = paramHook(strConst(s))
			frs := optionFrames(a, o.fn)
			if len(frs) == 0 {
				return true, false
			}
			for _, fr := range frs {
				x, y := errOutcome(a, fr, errIndex(fr.Fn))
				okMay, errMay = okMay || x, errMay || y
			}
			return
		}
		reportOption(P, r, key, pos, good, bad, partial, run, nil, nil)
		return
	}
	// which field does it set?
	a := newAI(P)
	a.Hook = paramHook(strConst("\x01the value\x01"))
	fields := map[string]bool{}
	exact := true
	for _, fr := range optionFrames(a, o.fn) {
		eachFieldStore(a, fr, func(F *Frame, st *ssa.Store, field string) {
			v := a.Eval(VC{F, st.Val})
			ss, ok := v.strConsts()
			if ok && len(ss) == 1 && ss[0] == "\x01the value\x01" {
				fields[field] = true
			} else {
				exact = false
			}
		})
	}
	r.Check(len(fields) == 1 && exact, "stores", key, pos, "the option stores its value in the fields %v", keysOf(fields))
	if len(fields) != 1 {
		return
	}
	field := keysOf(fields)[0]
	init := initOf(P, o.pkg)
	if init == nil {
		r.Bad("rejects", key, pos, "the Init method of the plugin was not found")
		return
	}
	// not changed on the way: no other store gives the field another value
	{
		changed := ""
		for _, probe := range []string{"\x01the value\x01"} {
			for _, f := range P.Funcs {
				if fnPkgPath(f) != modPath+"/plugin/"+o.pkg || f.Parent() != nil {
					continue
				}
				instrs(f, func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !isPluginStruct(fa.X.Type()) || strings.TrimPrefix(fieldName(fa.X.Type(), fa.Field), ".") != field {
						return
					}
					if al, ok := fa.X.(*ssa.Alloc); ok && zeroBefore(al, st) {
						// the initial value of a new configuration
						return
					}
					a := newAI(P)
					sc := &Scen{Cfg: map[string]AVal{field: strConst(probe)}}
					a.Hook = sc.hook
					F := a.Root(f)
					if !a.feasible(F).live[st.Block().Index] {
						return
					}
					v := a.Eval(VC{F, st.Val})
					if ss, ok := v.strConsts(); ok && len(ss) == 1 && ss[0] == probe {
						return
					}
					changed = P.pos(st.Pos())
				})
			}
		}
		r.Check(changed == "", "kept", key, pos, "the field %s gets another value although it is not empty %s", field, changed)
	}
	scenOf := func(s string) *Scen {
		sc := &Scen{Cfg: map[string]AVal{field: strConst(s)}}
		if partial {
			for opt, vs := range documented {
				if f := strings.TrimPrefix(opt, "With"); f != field {
					sc.Cfg[f] = strConst(vs[0])
				}
			}
			sc.Cfg["LinkStyle"] = strConst("inlined")
		}
		return sc
	}
	run := func(s string) (okMay, errMay bool) {
		a := newAI(P)
		a.Hook = scenOf(s).hook
		return errOutcome(a, a.Root(init), errIndex(init))
	}
	rescue := func(s string) bool {
		return rejectsByTable(P, scenOf(s).hook, func(a *AI) *Frame { return a.Root(init) })
	}
	// the value takes part in a decision that constant propagation does not see through
	open := func(s string) bool {
		a := newAI(P)
		a.Hook = scenOf(s).hook
		return openDecision(a, a.Root(init), field)
	}
	reportOption(P, r, key, pos, good, bad, partial, run, rescue, open)
}

// zeroBefore: the store fills in a new object right where it is created (a composite literal).
func zeroBefore(al *ssa.Alloc, st *ssa.Store) bool {
	if al.Block() != st.Block() {
		return false
	}
	on := false
	for _, in := range al.Block().Instrs {
		if in == ssa.Instruction(al) {
			on = true
			continue
		}
		if in == ssa.Instruction(st) {
			return on
		}
		if !on {
			continue
		}
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); !ok || fa.X != ssa.Value(al) {
				return false
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(al) {
						return false
					}
				}
				_ = v
			}
		}
	}
	return false
}

func errIndex(f *ssa.Function) int {
	for i := f.Signature.Results().Len() - 1; i >= 0; i-- {
		if isErrType(f.Signature.Results().At(i).Type()) {
			return i
		}
	}
	return 0
}

func initOf(P *Prog, pkg string) *ssa.Function {
	for _, f := range pluginInits(P) {
		if fnPkgPath(f) == modPath+"/plugin/"+pkg {
			return f
		}
	}
	return nil
}

func reportOption(P *Prog, r *Result, key, pos string, good, bad []string, partial bool, run func(s string) (bool, bool), rescue, open func(s string) bool) {
	var wrong []string
	undecided := 0
	for _, s := range bad {
		okMay, errMay := run(s)
		r.Count("undocumented values", 1)
		if !okMay {
			continue
		}
		if errMay && rescue != nil && len(wrong) == 0 && rescue(s) {
			// one entry of a table of rules rejects it
			continue
		}
		if partial && errMay && open != nil && open(s) {
			undecided++
			continue
		}
		wrong = append(wrong, fmt.Sprintf("%q", s))
	}
	r.Check(len(wrong) == 0, "rejects", key, pos, "undocumented values that may be accepted: %s", strings.Join(wrong, ", "))
	if partial {
		r.Note("%s: %d of %d undocumented values could not be decided by constant propagation (an error is possible)", key, undecided, len(bad))
	}
	wrong = nil
	for _, s := range good {
		okMay, _ := run(s)
		if !okMay {
			wrong = append(wrong, fmt.Sprintf("%q", s))
		}
	}
	if len(good) > 0 {
		r.Check(len(wrong) == 0, "accepts", key, pos, "documented values that are always rejected: %s", strings.Join(wrong, ", "))
	}
}

// openDecision: some branch depends on the field and both of its ways are possible.
func openDecision(a *AI, root *Frame, field string) bool {
	taint := map[VC]bool{}
	var work []VC
	add := func(vc VC) {
		if !taint[vc] {
			taint[vc] = true
			work = append(work, vc)
		}
	}
	var frames []*Frame
	a.eachFrame(root, func(F *Frame) {
		frames = append(frames, F)
		instrs(F.Fn, func(in ssa.Instruction) {
			if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL {
				if fa, ok := l.X.(*ssa.FieldAddr); ok && strings.TrimPrefix(fieldName(fa.X.Type(), fa.Field), ".") == field {
					add(VC{F, l})
				}
			}
		})
	})
	for len(work) > 0 {
		vc := work[0]
		work = work[1:]
		refs := vc.V.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			if in.Parent() != vc.F.Fn {
				continue
			}
			if site, ok := in.(ssa.CallInstruction); ok {
				frs, _ := a.calleeFrames(vc.F, site)
				for _, fr := range frs {
					for i, g := range site.Common().Args {
						if g == vc.V && i < len(fr.Fn.Params) {
							add(VC{fr, fr.Fn.Params[i]})
						}
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				add(VC{vc.F, v})
			}
		}
	}
	for _, F := range frames {
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if !fi.live[b.Index] || len(b.Instrs) == 0 {
				continue
			}
			if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && taint[VC{F, ifi.Cond}] {
				if !fi.dead[[2]int{b.Index, b.Succs[0].Index}] && !fi.dead[[2]int{b.Index, b.Succs[1].Index}] && a.unknowable(F, ifi.Cond) {
					return true
				}
			}
		}
	}
	return false
}

// unknowable: the condition rests on something other than known constants.
func (a *AI) unknowable(F *Frame, cond ssa.Value) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.unknowable(F, x.X)
		}
	case *ssa.BinOp:
		l, r := a.Eval(VC{F, x.X}), a.Eval(VC{F, x.Y})
		return l.Top || l.Str || r.Top || r.Str
	case *ssa.Call:
		frs, complete := a.calleeFrames(F, x)
		if len(frs) == 0 || !complete {
			return true
		}
		for _, fr := range frs {
			for _, r := range a.returns(fr, 0) {
				if _, ok := r.V.(*ssa.Const); !ok && r.V != ssa.Value(x) && a.unknowable(fr, r.V) {
					return true
				}
			}
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); !ok && a.unknowable(F, e) {
				return true
			}
		}
		return false
	}
	return true
}
