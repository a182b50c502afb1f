package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C34 ----

// exitsOf follows a frame until the process ends: the possible exit codes, "panic" or "return", and
// whether something was written to standard error before.
func exitsOf(a *AI, root *Frame) map[string]string {
	P := a.P
	out := map[string]string{}
	seq := &Seq{a: a}
	seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		switch x := in.(type) {
		case *ssa.Panic:
			if !isPanicWrapped(x) {
				out["panic"] = P.ipos(in)
			}
			return "", true
		case *ssa.Call:
			code, ok := directExit(P, x)
			if ok {
				v := a.Eval(VC{F, code})
				is, known := v.intConsts()
				if !known || len(is) == 0 {
					out["?"+q] = P.ipos(in)
				}
				for _, i := range is {
					out[fmt.Sprintf("%d%s", i, q)] = P.ipos(in)
				}
				return "", true
			}
			if w, _, isOut := outputCall(x); isOut && w != nil {
				if a.writerClass(VC{F, w}, 6)["stderr"] {
					return "+", false
				}
			}
		case *ssa.Return:
			if F == root {
				out["return"+q] = P.ipos(in)
			}
		}
		return q, false
	}
	seq.Run(root, "-")
	return out
}

func isPanicWrapped(p *ssa.Panic) bool { return false }

// directExit: os.Exit, or a variable that is set to it.
func directExit(P *Prog, c *ssa.Call) (ssa.Value, bool) {
	n := calleeName(&c.Call)
	if n == "os.Exit" || n == "syscall.Exit" {
		return c.Call.Args[0], true
	}
	if u, ok := c.Call.Value.(*ssa.UnOp); ok && u.Op == token.MUL && len(c.Call.Args) == 1 {
		if g, ok := u.X.(*ssa.Global); ok && isExitVar(P, g) {
			return c.Call.Args[0], true
		}
	}
	return nil, false
}

// helpCompare: a comparison with flag.ErrHelp.
func helpCompare(o Org) (neg, ok bool) {
	if o.Path != "" {
		return false, false
	}
	switch x := o.V.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if globalName(x.X) == "flag.ErrHelp" || globalName(x.Y) == "flag.ErrHelp" {
				return x.Op == token.NEQ, true
			}
		}
	case *ssa.Call:
		if calleeName(&x.Call) == "errors.Is" && len(x.Call.Args) == 2 && globalName(x.Call.Args[1]) == "flag.ErrHelp" {
			return false, true
		}
	}
	return false, false
}

func checkC34(P *Prog, r *Result) {
	r.Rule("failure", "after an error the process ends with a non-zero status", 2)
	r.Rule("success", "without an error the process ends with status 0", 1)
	r.Rule("reported", "before it ends with a non-zero status the error is written to standard error", 1)
	r.Rule("stdout", "when converting, only the markdown is written to standard output", 1)
	r.Rule("all-inputs", "every input is read, converted and written before the run succeeds", 1)
	r.Rule("streams", "nothing else writes to the standard streams of the process", 1)
	r.Rule("version", "the version flag prints to standard output and converts nothing", 1)
	fl := flagTable(P)
	ft := fieldsOf(fl)

	// error sources: the calls of functions of the tool that return an error, seen from the entry
	stop := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		if P.InCLI(f) && errResultOf(f) >= 0 && f.Synthetic == "" {
			stop[f] = true
		}
	}
	mk := func(hook func(a *AI, o Org) (AVal, bool)) (*AI, *Frame) {
		sc := &cliScen{ft: ft, extra: hook}
		a, root := newCLI(P, sc)
		if a != nil {
			a.Stop = stop
		}
		return a, root
	}
	errOf := func(o Org) (ssa.CallInstruction, bool) {
		if o.Path != "" || !isErrType(o.V.Type()) {
			return nil, false
		}
		site, ok := isErrSource(nil, o)
		if !ok || makesError(site) {
			return nil, false
		}
		for _, g := range P.Callees(site) {
			if stop[g] {
				return site, true
			}
		}
		return nil, false
	}
	a, root := mk(nil)
	if a == nil {
		r.Bad("failure", "main", "", "the main function of the tool was not found")
		return
	}
	var sources []ssa.CallInstruction
	seen := map[ssa.CallInstruction]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if errResult(site.Common()) < 0 || seen[site] {
			return
		}
		for _, g := range P.Callees(site) {
			if stop[g] {
				seen[site] = true
				sources = append(sources, site)
				return
			}
		}
	})
	scen := func(bad ssa.CallInstruction) map[string]string {
		a, root := mk(func(a *AI, o Org) (AVal, bool) {
			if neg, ok := helpCompare(o); ok {
				return boolConst(neg), true
			}
			if site, ok := errOf(o); ok {
				if site == bad {
					return strConst("error"), true
				}
				return nilVal(), true
			}
			// lists of warnings
			return AVal{}, false
		})
		return exitsOf(a, root)
	}
	for _, s := range sources {
		name := shortName(calleeName(s.Common()))
		ex := scen(s)
		good, rep := len(ex) > 0, true
		what := ""
		for k, pos := range ex {
			code := strings.TrimRight(k, "+-")
			if code == "panic" {
				continue
			}
			if code == "0" || code == "return" || code == "?" {
				// only if the call was reached
				good = false
				what = fmt.Sprintf("%s at %s", ifelse(code == "return", "the tool ends normally", "exit status "+code), pos)
			} else if strings.HasSuffix(k, "-") {
				rep = false
				what = "nothing is written to standard error before the exit at " + pos
			}
		}
		// the help text is only printed after the error was recognised: without it the call is not made
		if !reachedIn(mk, s, errOf) {
			// it is made while another error is handled
			for _, t := range sources {
				if t == s {
					continue
				}
				t := t
				a, root := mk(func(a *AI, o Org) (AVal, bool) {
					if neg, ok := helpCompare(o); ok {
						return boolConst(!neg), true
					}
					if site, ok := errOf(o); ok {
						if site == s || site == t {
							return strConst("error"), true
						}
						return nilVal(), true
					}
					return AVal{}, false
				})
				reached := false
				a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
					if site == s {
						reached = true
					}
				})
				if !reached {
					continue
				}
				ex := exitsOf(a, root)
				bad := ""
				for k, pos := range ex {
					code := strings.TrimRight(k, "+-")
					if code == "0" || code == "return" || code == "?" {
						bad = fmt.Sprintf("%s at %s", ifelse(code == "return", "the tool ends normally", "exit status "+code), pos)
					}
				}
				r.Check(bad == "" && len(ex) > 0, "failure", "error of "+name+" after an error of "+shortName(calleeName(t.Common())), P.ipos(s.(ssa.Instruction)), "exit paths %v %s", keysOfS(ex), bad)
			}
			continue
		}
		r.Check(good, "failure", "error of "+name, P.ipos(s.(ssa.Instruction)), "exit paths %v %s", keysOfS(ex), what)
		if good {
			r.Check(rep, "reported", "error of "+name, P.ipos(s.(ssa.Instruction)), "%s", orElse(what, "written to standard error, or a panic"))
		}
	}
	ex := scen(nil)
	good := len(ex) > 0
	for k := range ex {
		code := strings.TrimRight(k, "+-")
		if code != "0" && code != "return" {
			good = false
		}
	}
	r.Check(good, "success", "no error", P.pos(root.Fn.Pos()), "exit paths %v", keysOfS(ex))

	// what is written to standard output
	sc := &cliScen{ft: ft, flags: map[string]AVal{}}
	if f := ft["version"]; f != "" {
		sc.flags[f] = boolConst(false)
	}
	sc.extra = func(a *AI, o Org) (AVal, bool) {
		if neg, ok := helpCompare(o); ok {
			return boolConst(neg), true
		}
		return AVal{}, false
	}
	a2, root2 := newCLI(P, sc)
	done := map[string]bool{}
	nout := 0
	a2.walkCalls(root2, func(F *Frame, site ssa.CallInstruction) {
		w, data, ok := outputCall(site)
		if !ok {
			return
		}
		cls := map[string]bool{"stdout": true}
		if w != nil {
			cls = a2.writerClass(VC{F, w}, 6)
		}
		if !cls["stdout"] && !cls["unknown"] {
			return
		}
		key := "output in " + fkey(F.Fn)
		if cls["unknown"] && !cls["stdout"] {
			if done[key+"?"] {
				return
			}
			done[key+"?"] = true
			r.Bad("stdout", key, P.ipos(site.(ssa.Instruction)), "it is not known where this output goes")
			return
		}
		nout++
		good := true
		what := "the markdown"
		nres := 0
		for _, d := range flatten(data) {
			if _, isF := d.(*ssa.Const); isF && strings.Trim(constString(d), "\n%sv ") == "" {
				continue
			}
			for _, o := range a2.values(VC{F, d}) {
				if convResult(P, o) {
					nres++
					continue
				}
				if c, ok := o.V.(*ssa.Const); ok && (c.IsNil() || c.Value != nil && strings.Trim(constString(c), "\n%sv ") == "") {
					continue
				}
				good = false
				what = "something else than the markdown is written: " + descr(o)
			}
		}
		if nres == 0 && good {
			good, what = false, "something else than the markdown is written"
		}
		k := fmt.Sprint(key, good)
		if done[k] {
			return
		}
		done[k] = true
		r.Check(good, "stdout", key, P.ipos(site.(ssa.Instruction)), "%s", what)
	})
	// direct use of the standard streams
	for _, f := range P.Funcs {
		if !P.InCLI(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if site, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(site.Common())
				p, _ := splitName(n)
				if p == "log" || p == "log/slog" || strings.HasPrefix(n, "(log.") || strings.HasPrefix(n, "(*log.") {
					r.Bad("streams", shortName(n)+" in "+fkey(f), P.ipos(in), "a log is written")
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				switch shortGlobal(g) {
				case "os.Stdout", "os.Stderr", "os.Stdin":
					r.Check(fnPkgPath(f) != cmdPath, "streams", shortGlobal(g)+" in "+fkey(f), P.ipos(in), "the streams of the process are only used to start the tool")
				}
			}
		})
	}

	// every input is written
	checkAllInputs(P, r, ft)

	// version
	scv := &cliScen{ft: ft, flags: map[string]AVal{}}
	if f := ft["version"]; f != "" {
		scv.flags[f] = boolConst(true)
	}
	scv.extra = noErrors(P)
	av, rv := newCLI(P, scv)
	conv, wrote := "", 0
	av.walkCalls(rv, func(F *Frame, site ssa.CallInstruction) {
		if isConvCall(P, site) {
			conv = P.ipos(site.(ssa.Instruction))
		}
		if w, data, ok := outputCall(site); ok && w != nil && av.writerClass(VC{F, w}, 6)["stdout"] {
			_ = data
			wrote++
		}
	})
	r.Check(conv == "" && wrote > 0, "version", "version flag", conv, "%d writes to standard output, conversion: %s", wrote, orElse(conv, "none"))
}

func constString(v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return "?"
}

func keysOfS(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// reachedIn: is the call made when it is the only one that fails?
func reachedIn(mk func(hook func(a *AI, o Org) (AVal, bool)) (*AI, *Frame), s ssa.CallInstruction, errOf func(o Org) (ssa.CallInstruction, bool)) bool {
	a, root := mk(func(a *AI, o Org) (AVal, bool) {
		if neg, ok := helpCompare(o); ok {
			return boolConst(neg), true
		}
		if site, ok := errOf(o); ok {
			if site == s {
				return strConst("error"), true
			}
			return nilVal(), true
		}
		return AVal{}, false
	})
	found := false
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if site == s {
			found = true
		}
	})
	return found
}

// noErrors: calls that are not entered do not fail.
func noErrors(P *Prog) func(a *AI, o Org) (AVal, bool) {
	return func(a *AI, o Org) (AVal, bool) {
		if neg, ok := helpCompare(o); ok {
			return boolConst(neg), true
		}
		if o.Path != "" || !isErrType(o.V.Type()) {
			return AVal{}, false
		}
		site, ok := isErrSource(a, o)
		if !ok {
			return AVal{}, false
		}
		if makesError(site) {
			return strConst("error"), true
		}
		for _, g := range P.Callees(site) {
			if P.InCLI(g) {
				return AVal{}, false
			}
		}
		return nilVal(), true
	}
}

// checkAllInputs: in the loop over the inputs each round writes the result of a conversion.
func checkAllInputs(P *Prog, r *Result, ft map[string]string) {
	sc := &cliScen{ft: ft, flags: map[string]AVal{}}
	if f := ft["version"]; f != "" {
		sc.flags[f] = boolConst(false)
	}
	sc.extra = noErrors(P)
	a, root := newCLI(P, sc)
	if a == nil {
		return
	}
	// the loop: around the call that ends in a conversion
	type lp struct {
		F  *Frame
		l  *loop
		ia *ssa.IndexAddr
	}
	var loops []lp
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if !isConvCall(P, site) {
			return
		}
		G, in := F, site.(ssa.Instruction)
		for G != nil {
			if l := innerLoop(G.Fn, in.Block()); l != nil {
				// the access of the element
				for b := range l.body {
					for _, x := range b.Instrs {
						if ia, ok := x.(*ssa.IndexAddr); ok && innerLoop(G.Fn, ia.Block()) != nil && innerLoop(G.Fn, ia.Block()).head == l.head {
							if _, isP := ia.X.Type().Underlying().(*types.Slice); isP && !isStrBytes(ia.X.Type()) {
								for _, o := range loops {
									if o.ia == ia {
										return
									}
								}
								loops = append(loops, lp{G, l, ia})
							}
						}
					}
				}
				return
			}
			if G.Site == nil {
				return
			}
			in, G = G.Site, G.Up
		}
	})
	if len(loops) != 1 {
		r.Bad("all-inputs", "loop over the inputs", "", "found %d loops over the inputs", len(loops))
		return
	}
	L := loops[0]
	ok, why := a.fullIterErr(L.F, L.ia)
	if !ok {
		r.Bad("all-inputs", "loop over the inputs", P.ipos(L.ia), "%s", why)
		return
	}
	problem := ""
	ef := newErrFlow(P)
	seq := &Seq{a: a}
	seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		switch x := in.(type) {
		case *ssa.IndexAddr:
			if x == L.ia {
				if q == "N" {
					problem = "an input can be left out without an error"
				}
				return "N", true
			}
		case ssa.CallInstruction:
			if w, data, ok := outputCall(x); ok && w != nil {
				cls := a.writerClass(VC{F, w}, 6)
				if cls["stdout"] || cls["file"] {
					for _, d := range flatten(data) {
						for _, o := range a.values(VC{F, d}) {
							if convResult(P, o) {
								q = "W"
							}
						}
					}
					return q, true
				}
			}
			if n := calleeName(x.Common()); n == "os.WriteFile" {
				return "W", true
			}
		case *ssa.Return:
			if F == L.F && q == "N" {
				i := errResultOf(F.Fn)
				if i < 0 || !a.nonNilErr(ef, VC{F, resolveResult(x, i)}) {
					problem = "an input can be left out without an error, see " + P.ipos(in)
				}
			}
		}
		return q, false
	}
	seq.Run(L.F, "0")
	r.Check(problem == "", "all-inputs", "loop over the inputs", P.ipos(L.ia), "%s", orElse(problem, "each round writes the result of the conversion"))
}

// fullIterErr: like fullIteration, but the loop may be left by returning.
func (a *AI) fullIterErr(F *Frame, ia *ssa.IndexAddr) (bool, string) {
	ok, why, l := a.fullIteration(F, ia)
	if ok || l == nil || why != "the loop is left before the end" {
		return ok, why
	}
	// every early exit ends in a return of an error
	fi := a.feasible(F)
	ef := newErrFlow(a.P)
	for b := range l.body {
		if !fi.live[b.Index] || b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] || fi.dead[[2]int{b.Index, s.Index}] {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			good := true
			var walk func(x *ssa.BasicBlock)
			walk = func(x *ssa.BasicBlock) {
				if seen[x] || !fi.live[x.Index] {
					return
				}
				seen[x] = true
				if ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
					i := errResultOf(F.Fn)
					if i < 0 {
						good = false
						return
					}
					v := resolveResult(ret, i)
					if !a.nonNilErr(ef, VC{F, v}) && !knownNonNil(v, ret) {
						good = false
					}
				}
				for _, y := range x.Succs {
					if !fi.dead[[2]int{x.Index, y.Index}] {
						walk(y)
					}
				}
			}
			walk(s)
			if !good {
				return false, why
			}
		}
	}
	return true, ""
}

// ---- C35 ----

func checkC35(P *Prog, r *Result) {
	r.Rule("error-flow", "the error of every call that can fail reaches the result of the run (or a failing exit) on every path on which it is not nil", 12)
	r.Rule("close", "closing a file that was written is not deferred without looking at the error", 1)
	a, root := newCLI(P, nil)
	if a == nil {
		r.Bad("error-flow", "main", "", "the main function of the tool was not found")
		return
	}
	cls := map[ssa.CallInstruction]map[string]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		if w, _, ok := outputCall(site); ok && w != nil {
			if cls[site] == nil {
				cls[site] = map[string]bool{}
			}
			for k := range a.writerClass(VC{F, w}, 6) {
				cls[site][k] = true
			}
		}
	})
	ef := newErrFlow(P)
	neverFails := func(site ssa.CallInstruction) bool {
		n := calleeName(site.Common())
		switch osName(n) {
		case "os.Stat", "os.Lstat", "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
			return true
		}
		if w, _, ok := outputCall(site); ok && w != nil {
			c := cls[site]
			if len(c) > 0 && !c["stdout"] && !c["file"] && !c["unknown"] {
				return true
			}
			if len(c) == 0 {
				// by the type of the writer
				t := w.Type()
				if isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder") || isNamed(t, "hash", "Hash") {
					return true
				}
				if mi, ok := w.(*ssa.MakeInterface); ok && (isNamed(mi.X.Type(), "bytes", "Buffer") || isNamed(mi.X.Type(), "strings", "Builder")) {
					return true
				}
			}
		}
		return false
	}
	nw := 0
	for _, f := range P.Funcs {
		if !P.InCLI(f) || f.Synthetic != "" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			idx := errResult(site.Common())
			if idx < 0 || neverFails(site) {
				return
			}
			if makesError(site) {
				return
			}
			name := calleeName(site.Common())
			if name == "" {
				name = "a function value"
			}
			key := fkey(f) + " calls " + shortName(name)
			call, ok := in.(*ssa.Call)
			if !ok {
				if strings.HasSuffix(name, ".Close") && readOnlyFile(site) {
					return
				}
				if strings.HasSuffix(name, ".Close") {
					r.Bad("close", key, P.ipos(in), "the error of the deferred call is dropped")
					return
				}
				r.Bad("error-flow", key, P.ipos(in), "the error of the deferred call is dropped")
				return
			}
			if strings.HasSuffix(name, ".Close") && readOnlyFile(site) {
				return
			}
			if strings.HasSuffix(name, ".Close") {
				nw++
			}
			e := errValue(call, idx)
			if e == nil {
				if allReturned(call) {
					r.OK("error-flow", key, P.ipos(in), "returned as it is")
					return
				}
				r.Bad("error-flow", key, P.ipos(in), "the error is ignored")
				return
			}
			ps := ef.check(f, in, e, 4)
			for _, p := range ps {
				r.Bad("error-flow", key, p.pos, "%s (error of the call at %s)", p.what, P.ipos(in))
			}
			if len(ps) == 0 {
				r.OK("error-flow", key, P.ipos(in), "reaches an error result or a failing exit on every path")
			}
		})
	}
	r.OK("close", "functions of the tool", "", "no deferred close of written files (%d direct ones)", nw)
	if r.Rules["close"] != "" && nw == 0 {
		// a file that is written must be closed somewhere
		opened := false
		for _, f := range P.Funcs {
			if P.InCLI(f) {
				instrs(f, func(in ssa.Instruction) {
					if s, ok := in.(ssa.CallInstruction); ok && calleeName(s.Common()) == "os.OpenFile" {
						opened = true
					}
				})
			}
		}
		if opened {
			r.Bad("close", "written files", "", "a file that is opened for writing is never closed with a look at the error")
		}
	}
}

// allReturned: the results of the call are returned as a whole.
func allReturned(c *ssa.Call) bool {
	for _, ref := range *c.Referrers() {
		if _, ok := ref.(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// readOnlyFile: the closed file comes from os.Open.
func readOnlyFile(site ssa.CallInstruction) bool {
	c := site.Common()
	v := c.Value
	if !c.IsInvoke() {
		if len(c.Args) == 0 {
			return false
		}
		v = c.Args[0]
	}
	if ex, ok := v.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			return calleeName(&call.Call) == "os.Open"
		}
	}
	return false
}

// ---- C36 ----

type flagUse struct {
	flag string
	call string // option function that must be called with the setting
	arg  int
}

func checkC36(P *Prog, r *Result) {
	r.Rule("setting", "every documented flag is defined and has a setting of its own", 15)
	r.Rule("default", "the setting has its documented default", 12)
	r.Rule("value", "a flag with a text or a selector stores exactly what was given", 4)
	r.Rule("effect", "the setting reaches the option that the flag is documented for, before the conversion", 8)
	r.Rule("plugin", "the plugin is registered exactly if its flag is set", 2)
	r.Rule("dependency", "a table option without the table plugin is an error", 6)
	fl := flagTable(P)
	ft := fieldsOf(fl)
	docs := []struct{ name, def string }{
		{"version", "false"}, {"v", "false"}, {"input", ""}, {"output", ""}, {"output-overwrite", "false"}, {"domain", "\"\""},
		{"include-selector", ""}, {"exclude-selector", ""}, {"opt-strong-delimiter", "\"**\""}, {"plugin-strikethrough", "false"}, {"plugin-table", "false"},
		{"opt-table-skip-empty-rows", "false"}, {"opt-table-header-promotion", "false"}, {"opt-table-span-cell-behavior", "\"\""},
		{"opt-table-presentation-tables", "false"}, {"opt-table-newline-behavior", "\"\""}, {"opt-table-cell-padding-behavior", "\"\""},
	}
	byName := map[string]flagDef{}
	users := map[string][]string{}
	for _, d := range fl {
		byName[d.name] = d
		users[d.field] = append(users[d.field], d.name)
	}
	for _, doc := range docs {
		d, ok := byName[doc.name]
		if !ok {
			r.Bad("setting", "--"+doc.name, "", "the flag is not defined")
			continue
		}
		pos := P.ipos(d.site.(ssa.Instruction))
		shared := ""
		for _, u := range users[d.field] {
			if u != doc.name && !(u == "v" && doc.name == "version") && !(u == "version" && doc.name == "v") {
				shared = u
			}
		}
		switch {
		case d.field == "":
			r.Bad("setting", "--"+doc.name, pos, "the flag does not set anything")
		case shared != "":
			r.Bad("setting", "--"+doc.name, pos, "the flag sets the same setting %s as --%s", d.field, shared)
		default:
			r.OK("setting", "--"+doc.name, pos, "sets %s", d.field)
		}
		if doc.def != "" {
			want := boolConst(doc.def == "true")
			if strings.HasPrefix(doc.def, "\"") {
				want = strConst(strings.Trim(doc.def, "\""))
			}
			r.Check(d.clo != nil || eqV(d.def, want), "default", "--"+doc.name, pos, "default %v, documented %s", d.def, doc.def)
		}
	}
	// values of flags with a function
	for _, d := range fl {
		if d.clo == nil {
			continue
		}
		checkFlagValue(P, r, d)
	}

	// effects
	uses := []flagUse{
		{"domain", convPath + ".WithDomain", 0},
		{"opt-strong-delimiter", modPath + "/plugin/commonmark.WithStrongDelimiter", 0},
		{"opt-table-skip-empty-rows", modPath + "/plugin/table.WithSkipEmptyRows", 0},
		{"opt-table-header-promotion", modPath + "/plugin/table.WithHeaderPromotion", 0},
		{"opt-table-span-cell-behavior", modPath + "/plugin/table.WithSpanCellBehavior", 0},
		{"opt-table-presentation-tables", modPath + "/plugin/table.WithPresentationTables", 0},
		{"opt-table-newline-behavior", modPath + "/plugin/table.WithNewlineBehavior", 0},
		{"opt-table-cell-padding-behavior", modPath + "/plugin/table.WithCellPaddingBehavior", 0},
	}
	for _, u := range uses {
		sc := &cliScen{ft: ft, flags: map[string]AVal{}}
		if strings.HasPrefix(u.flag, "opt-table") {
			if f := ft["plugin-table"]; f != "" {
				sc.flags[f] = boolConst(true)
			}
		}
		// the option is given
		if f := ft[u.flag]; f != "" {
			if d := byName[u.flag]; d.method == "BoolVar" {
				sc.flags[f] = boolConst(true)
			} else {
				sc.flags[f] = AVal{Str: true, B: bsAll(), Min: 1}
			}
		}
		sc.extra = noErrors(P)
		if f := ft["version"]; f != "" {
			sc.flags[f] = boolConst(false)
		}
		a, root := newCLI(P, sc)
		if a == nil {
			return
		}
		problem := ""
		ncalls, nconv := 0, 0
		seq := &Seq{a: a}
		seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return q, true
			}
			n := calleeName(site.Common())
			if n == u.call {
				ncalls++
				good := false
				bad := ""
				for _, o := range a.values(VC{F, site.Common().Args[u.arg]}) {
					if o.Path != "" && strings.HasSuffix(cleanPath(o.Path), ft[u.flag]) && isCLIStruct(o.V.Type()) {
						good = true
					} else {
						bad = descr(o)
					}
				}
				if !good || bad != "" {
					problem = "the option does not get the setting " + ft[u.flag] + " (" + bad + ")"
				}
				if len(*site.Value().Referrers()) == 0 {
					problem = "the option is not used"
				}
				return "1", true
			}
			if isConvCall(P, site) {
				nconv++
				if q != "1" {
					problem = "the conversion runs without the option"
				}
				return "0", true
			}
			return q, false
		}
		seq.Run(root, "0")
		if ncalls == 0 {
			problem = "the option " + shortName(u.call) + " is never used"
		} else if nconv == 0 {
			problem = "no conversion was found"
		}
		r.Check(problem == "", "effect", "--"+u.flag, "", "%s", orElse(problem, "reaches "+shortName(u.call)))
	}
	// plugins
	for _, pl := range []struct{ flag, fn string }{{"plugin-strikethrough", modPath + "/plugin/strikethrough.NewStrikethroughPlugin"}, {"plugin-table", modPath + "/plugin/table.NewTablePlugin"}} {
		for _, on := range []bool{true, false} {
			sc := &cliScen{ft: ft, flags: map[string]AVal{}, extra: noErrors(P)}
			if f := ft[pl.flag]; f != "" {
				sc.flags[f] = boolConst(on)
			}
			if f := ft["version"]; f != "" {
				sc.flags[f] = boolConst(false)
			}
			a, root := newCLI(P, sc)
			problem := ""
			seq := &Seq{a: a}
			n := 0
			seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					return q, true
				}
				if calleeName(site.Common()) == pl.fn {
					if len(*site.Value().Referrers()) == 0 {
						problem = "the plugin is not used"
					}
					return "1", true
				}
				if isConvCall(P, site) {
					n++
					if (q == "1") != on {
						problem = ifelse(on, "the conversion runs without the plugin although its flag is set", "the plugin is used although its flag is not set")
					}
					return "0", true
				}
				return q, false
			}
			seq.Run(root, "0")
			if n == 0 {
				problem = "no conversion was found"
			}
			r.Check(problem == "", "plugin", fmt.Sprintf("--%s=%v", pl.flag, on), "", "%s", orElse(problem, "as the flag says"))
		}
	}
	// dependencies
	for _, doc := range docs {
		if !strings.HasPrefix(doc.name, "opt-table") {
			continue
		}
		sc := &cliScen{ft: ft, flags: map[string]AVal{}, extra: noErrors(P)}
		if f := ft["plugin-table"]; f != "" {
			sc.flags[f] = boolConst(false)
		}
		if f := ft["version"]; f != "" {
			sc.flags[f] = boolConst(false)
		}
		if f := ft[doc.name]; f != "" {
			if byName[doc.name].method == "BoolVar" {
				sc.flags[f] = boolConst(true)
			} else {
				sc.flags[f] = AVal{Str: true, B: bsAll(), Min: 1}
			}
		}
		a, root := newCLI(P, sc)
		conv := ""
		a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
			if isConvCall(P, site) {
				conv = P.ipos(site.(ssa.Instruction))
			}
		})
		if conv != "" {
			// a list of conditions: the loop that visits all of them finds one that holds
			if w, heads := a.witnesses(root); len(w) > 0 {
				sc2 := *sc
				a2, root2 := newCLI(P, &sc2)
				h := a2.Hook
				a2.Hook = func(a *AI, o Org) (AVal, bool) {
					if o.Path == "" && w[o.V] {
						return boolConst(true), true
					}
					return h(a, o)
				}
				conv = ""
				a2.walkCalls(root2, func(F *Frame, site ssa.CallInstruction) {
					if isConvCall(P, site) {
						conv = P.ipos(site.(ssa.Instruction))
					}
				})
				// the loops do end with that element
				a2.eachFrame(root2, func(F *Frame) {
					fi := a2.feasible(F)
					for _, l := range heads {
						if l.head.Parent() != F.Fn {
							continue
						}
						for _, b := range l.latches() {
							if fi.live[b.Index] && !fi.dead[[2]int{b.Index, l.head.Index}] {
								conv = P.ipos(l.head.Instrs[0])
							}
						}
					}
				})
			}
		}
		r.Check(conv == "", "dependency", "--"+doc.name, conv, "%s", ifelse(conv == "", "no conversion without the table plugin", "a conversion runs although the table plugin is not enabled"))
	}
}

// witnesses: the values read from the elements of a list, in a loop over the whole list, that are true for
// at least one element.
func (a *AI) witnesses(root *Frame) (out map[ssa.Value]bool, heads []*loop) {
	out = map[ssa.Value]bool{}
	a.eachFrame(root, func(F *Frame) {
		instrs(F.Fn, func(in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			l := innerLoop(F.Fn, ia.Block())
			if l == nil {
				return
			}
			if full, _ := a.fullIterErr(F, ia); !full {

				return
			}
			for b := range l.body {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					switch x := v.(type) {
					case *ssa.Field:
					case *ssa.UnOp:
						if x.Op != token.MUL {
							continue
						}
					default:
						continue
					}
					if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
						continue
					}
					os := a.values(VC{F, v})
					if len(os) < 2 {
						continue
					}
					for _, o := range os {
						if o.V == v {
							continue
						}
						if t, f := a.evOrgTop(o).mayBool(); t && !f {
							out[v] = true
							// there is at least one round
							if ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok && l.body[l.head.Succs[0]] {
								out[ifi.Cond] = true
								heads = append(heads, l)
							}
						}
					}
				}
			}
		})
	})
	return out, heads
}

func (a *AI) evOrgTop(o Org) AVal {
	if o.Path == "" {
		return a.Eval(o.VC)
	}
	if a.Hook != nil {
		if v, ok := a.Hook(a, o); ok {
			return v
		}
	}
	return topVal()
}

// checkFlagValue: the function of a flag stores what it was given (trimmed or parsed), or returns an error.
func checkFlagValue(P *Prog, r *Result, d flagDef) {
	a := newAI(P)
	a.Only = func(fn *ssa.Function) bool { return P.InCLI(fn) }
	a.Hook = noErrors(P)
	// recreate the context of the closure
	a.frames = map[string]*Frame{}
	f := d.clo.Fn.(*ssa.Function)
	CF := a.frame(f, nil, nil, d.clo, d.cloF)
	problem := ""
	n := 0
	param := ssa.Value(f.Params[0])
	fromParam := func(vc VC) bool { return false }
	fromParam = func(vc VC) bool {
		os := a.values(vc)
		if len(os) == 0 {
			return false
		}
		for _, o := range os {
			if o.V == param && o.Path == "" {
				continue
			}
			if c, ok := o.V.(*ssa.Call); ok && o.Path == "" {
				if calleeName(&c.Call) == "strings.TrimSpace" && fromParam(VC{o.F, c.Call.Args[0]}) {
					continue
				}
			}
			if ex, ok := o.V.(*ssa.Extract); ok && o.Path == "" && ex.Index == 0 {
				if c, ok := ex.Tuple.(*ssa.Call); ok {
					nm := calleeName(&c.Call)
					if strings.HasPrefix(nm, "github.com/andybalholm/cascadia.Parse") && fromParam(VC{o.F, c.Call.Args[0]}) {
						continue
					}
				}
			}
			return false
		}
		return true
	}
	st := map[ssa.Instruction]bool{}
	a.eachFrame(CF, func(G *Frame) {
		instrs(G.Fn, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			hit := false
			for _, ad := range a.addrs(VC{G, s.Addr}) {
				if cleanPath(ad.Path) == d.field {
					hit = true
				}
			}
			if !hit {
				return
			}
			n++
			st[in] = true
			_, isList := s.Val.Type().Underlying().(*types.Slice)
			if !isList && fromParam(VC{G, s.Val}) {
				return
			}
			// append(old, parsed...)
			if c, ok := s.Val.(*ssa.Call); ok && calleeName(&c.Call) == "builtin.append" {
				old := false
				for _, o := range a.values(VC{G, c.Call.Args[0]}) {
					if strings.HasSuffix(cleanPath(o.Path), d.field) {
						old = true
					}
				}
				if old && (fromParam(VC{G, c.Call.Args[1]}) || elemsFrom(a, VC{G, c.Call.Args[1]}, fromParam)) {
					return
				}
			}
			problem = "what is stored is not the value of the flag, see " + P.ipos(in)
		})
	})
	if n == 0 {
		problem = "the value of the flag is not stored"
	}
	// on every path without an error the value is stored
	ef := newErrFlow(P)
	seq := &Seq{a: a}
	seq.Step = func(F *Frame, in ssa.Instruction, q string) (string, bool) {
		if st[in] {
			return "1", true
		}
		if ret, ok := in.(*ssa.Return); ok && F == CF && q == "0" && len(ret.Results) == 1 {
			if !a.nonNilErr(ef, VC{F, resolveResult(ret, 0)}) && problem == "" {
				problem = "the value is accepted without being stored, see " + P.ipos(in)
			}
		}
		return q, false
	}
	seq.Run(CF, "0")
	r.Check(problem == "", "value", "--"+d.name, P.ipos(d.site.(ssa.Instruction)), "%s", orElse(problem, "the given value is stored"))
}

func elemsFrom(a *AI, vc VC, from func(VC) bool) bool {
	els := varargs(vc.V)
	if len(els) == 0 {
		return false
	}
	for _, e := range els {
		if !from(VC{vc.F, e}) {
			return false
		}
	}
	return true
}

// ---- C38 ----

func checkC38(P *Prog, r *Result) {
	r.Rule("own-name", "with more than one input a file is only written below the output directory, under the name of the input", 1)
	r.Rule("unique", "the names of the inputs are compared with all names before, and a name that is used twice is an error", 1)
	ft := fieldsOf(flagTable(P))
	sc := &cliScen{ft: ft}
	sc.extra = func(a *AI, o Org) (AVal, bool) {
		if neg, ok := helpCompare(o); ok {
			return boolConst(neg), true
		}
		if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && calleeName(&c.Call) == "builtin.len" && isInputList(c.Call.Args[0].Type()) {
			if boundsLoop(c) {
				return topVal(), true
			}
			return intConst(2), true
		}
		return noErrors(P)(a, o)
	}
	a, root := newCLI(P, sc)
	out := ft["output"]
	if a == nil || out == "" {
		r.Bad("own-name", "main", "", "the main function of the tool, or its output setting, was not found")
		return
	}
	pc := newPathCtx(P, a, out)
	a.NoErrRet = true
	a.walkCalls(root, func(*Frame, ssa.CallInstruction) {})
	fields := map[string]bool{}
	seen := map[string]bool{}
	a.walkCalls(root, func(F *Frame, site ssa.CallInstruction) {
		c := site.Common()
		if calleeName(c) != "os.OpenFile" {
			return
		}
		l, why := pc.location(VC{F, c.Args[0]}, 8)
		key := "os.OpenFile in " + fkey(F.Fn)
		if F.Up != nil {
			key += " called from " + fkey(F.Up.Fn)
		}
		names := pc.nameFields(VC{F, c.Args[0]}, 8)
		for f := range names {
			fields[f] = true
		}
		if seen[key+l] {
			return
		}
		seen[key+l] = true
		good := l == "below" && len(names) > 0
		r.Check(good, "own-name", key, P.ipos(site.(ssa.Instruction)), "%s %v %s", l, keysOf(names), ifelse(good, "", orElse(why, "the file is the same for every input")))
	})
	if os.Getenv("H2M_DEAD") != "" {
		dumpDead(P, a)
	}
	// the names
	for _, f := range keysOf(fields) {
		f := f
		a2, root2 := newCLI(P, sc)
		a2.Opaque = func(ad Addr, path string) bool { return strings.HasSuffix(path, f) && isCLIElem(ad.Root.V.Type()) }
		a2.walkCalls(root2, func(*Frame, ssa.CallInstruction) {})
		checkUnique(P, r, a2, f)
	}
}

// boundsLoop: the value is compared with a counter.
func boundsLoop(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok {
			o := b.X
			if o == v {
				o = b.Y
			}
			if _, isC := o.(*ssa.Const); !isC {
				return true
			}
		}
	}
	return false
}

// isCLIElem: a structure of the tool, or a list or pointer of them.
func isCLIElem(t types.Type) bool {
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		return isCLIStruct(t)
	}
}

func isInputList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	el := s.Elem()
	return isCLIStruct(el)
}

// nameFields: the fields that name the file inside of the output directory.
func (pc *pathCtx) nameFields(vc VC, depth int) map[string]bool {
	out := map[string]bool{}
	if depth <= 0 {
		return out
	}
	for _, o := range pc.a.values(vc) {
		if c, ok := o.V.(*ssa.Call); ok && o.Path == "" {
			switch calleeName(&c.Call) {
			case "path/filepath.Join", "path.Join":
				for _, el := range varargs(c.Call.Args[0]) {
					for _, x := range pc.a.values(VC{o.F, el}) {
						if f := lastField(x.Path); f != "" && f != pc.out && !strings.HasSuffix(pc.out, f) {
							out[f] = true
						}
					}
				}
				continue
			}
			for _, g := range c.Call.Args {
				for k := range pc.nameFields(VC{o.F, g}, depth-1) {
					out[k] = true
				}
			}
		}
	}
	return out
}

// checkUnique: every store of a final name to the field is followed by a check against the names before.
func checkUnique(P *Prog, r *Result, a *AI, f string) {
	stores := fieldStores(P, f)
	for _, st := range stores {
		fn := st.Parent()
		// the initial value of a new record is not the final name
		if fa := st.Addr.(*ssa.FieldAddr); fa != nil {
			if _, isNew := fa.X.(*ssa.Alloc); isNew {
				if c, ok := st.Val.(*ssa.Const); ok && isZeroConst(c) {
					continue
				}
			}
		}
		key := fkey(fn) + " stores " + f
		l := innerLoop(fn, st.Block())
		F := a.framesOf(fn)[0]
		if l == nil {
			// a helper that stores the name: look at its callers
			done := false
			for _, G := range a.framesOf(fn) {
				if G.Site != nil && innerLoop(G.Site.Parent(), G.Site.Block()) != nil {
					ok, why := uniqueIn(P, a, G.Up, innerLoop(G.Site.Parent(), G.Site.Block()), f, st.Val, G)
					r.Check(ok, "unique", key, P.ipos(st), "%s", orElse(why, "compared with all names before"))
					done = true
				}
			}
			if !done {
				r.Bad("unique", key, P.ipos(st), "the name is set outside of a loop over the inputs")
			}
			continue
		}
		ok, why := uniqueIn(P, a, F, l, f, st.Val, F)
		r.Check(ok, "unique", key, P.ipos(st), "%s", orElse(why, "compared with all names before"))
	}
	if len(stores) == 0 {
		r.Bad("unique", "stores to "+f, "", "the names of the files are never set")
	}
}

// uniqueIn: in the loop, every round looks the name up in a map, fails if it is there, and adds it.
func uniqueIn(P *Prog, a *AI, F *Frame, l *loop, f string, val ssa.Value, VF *Frame) (bool, string) {
	fn := F.Fn
	isName := func(G *Frame, v ssa.Value) bool {
		os := a.values(VC{G, v})
		if len(os) == 0 {
			return false
		}
		same := map[Org]bool{}
		for _, st := range fieldStores(P, f) {
			for _, G2 := range a.framesOf(st.Parent()) {
				for _, o := range a.values(VC{G2, st.Val}) {
					same[o] = true
				}
			}
		}
		for _, o := range os {
			if lastField(o.Path) == f && isCLIElem(o.V.Type()) {
				continue
			}
			if same[o] {
				continue
			}
			return false
		}
		return true
	}
	// candidates: map updates in the loop
	why := "the names are not recorded"
	for b := range l.body {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isName(F, mu.Key) {
				continue
			}
			mm, ok := mu.Map.(*ssa.MakeMap)
			if !ok {
				why = "the record of the names is not a map of this run"
				continue
			}
			if l.body[mm.Block()] {
				why = "the record of the names is started anew for every input"
				continue
			}
			if !a.onEveryRound(F, l, mu) {
				why = "the name of an input is not recorded on every path"
				continue
			}
			// lookup before, true branch fails
			good := false
			for b2 := range l.body {
				ifi, ok := b2.Instrs[len(b2.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				lk, present := mapPresence(ifi.Cond)
				if lk == nil || lk.X != mu.Map || !isName(F, lk.Index) {
					continue
				}
				if !instrBefore(lk, mu) {
					why = "the name is recorded before it is looked up"
					continue
				}
				taken := b2.Succs[0]
				if !present {
					taken = b2.Succs[1]
				}
				if !failsFrom(a, F, taken, fn) {
					why = "a name that is used twice is accepted"
					continue
				}
				if !a.onEveryRound(F, l, lk) {
					why = "the names are not compared on every path"
					continue
				}
				// the name does not change after the lookup
				late := false
				for _, st := range fieldStores(P, f) {
					if st.Parent() == fn && l.body[st.Block()] && !instrBefore(st, lk) && reachesInLoop(l, lk, st) {
						late = true
					}
				}
				if late {
					why = "the name is changed after it was compared"
					continue
				}
				if c, isC := mu.Value.(*ssa.Const); isC && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
					why = "the name is recorded as unused"
					continue
				}
				good = true
			}
			if good {
				return true, ""
			}
		}
	}
	return false, why
}

// reachesInLoop: within one round b can run after a.
func reachesInLoop(l *loop, a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrBefore(a, b)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == l.head || !l.body[s] || seen[s] {
				continue
			}
			seen[s] = true
			if s == b.Block() || walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a.Block())
}

// mapPresence: the condition tells whether a key is in a map (true: it is there).
func mapPresence(v ssa.Value) (*ssa.Lookup, bool) {
	switch x := v.(type) {
	case *ssa.Lookup:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return x, true
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return lk, true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			lk, p := mapPresence(x.X)
			return lk, !p
		}
	case *ssa.BinOp:
		// count > 0, pointer != nil
		lk, ok := x.X.(*ssa.Lookup)
		if !ok {
			if ex, isEx := x.X.(*ssa.Extract); isEx && ex.Index == 0 {
				lk, ok = ex.Tuple.(*ssa.Lookup)
			}
		}
		if ok {
			if c, isC := x.Y.(*ssa.Const); isC && (c.IsNil() || isZeroConst(c)) {
				switch x.Op {
				case token.GTR, token.NEQ:
					return lk, true
				case token.EQL, token.LEQ:
					return lk, false
				}
			}
		}
	}
	return nil, false
}

// failsFrom: every way from the block ends in the return of an error.
func failsFrom(a *AI, F *Frame, b *ssa.BasicBlock, fn *ssa.Function) bool {
	ef := newErrFlow(a.P)
	seen := map[*ssa.BasicBlock]bool{}
	good := true
	n := 0
	i := errResultOf(fn)
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] || !good {
			return
		}
		seen[x] = true
		n++
		if n > 8 {
			good = false
			return
		}
		switch t := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.Return:
			if i < 0 || !a.nonNilErr(ef, VC{F, resolveResult(t, i)}) {
				good = false
			}
			return
		case *ssa.Panic:
			return
		}
		for _, s := range x.Succs {
			walk(s)
		}
	}
	walk(b)
	return good
}
