package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect rules: what the library code may call and read (C04, C05).

// convFuncs: the functions with bodies that can run as part of the library (repository library
// packages, including package initialisation, and the third-party code that they reach).
func convFuncs(P *Prog) []*ssa.Function {
	var roots []*ssa.Function
	have := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if P.InLib(f) {
			roots = append(roots, f)
			have[f] = true
			out = append(out, f)
		}
	}
	for path, sp := range P.SPkgs {
		if !inModule(path) || strings.HasPrefix(path, modPath+"/cli") || strings.HasPrefix(path, modPath+"/internal/tester") {
			continue
		}
		if f := sp.Func("init"); f != nil && !have[f] {
			have[f] = true
			roots = append(roots, f)
			out = append(out, f)
		}
	}
	reach := P.Reach(roots, func(f *ssa.Function) bool { return have[f] || thirdParty(f) })
	for f := range reach {
		if !have[f] && thirdParty(f) && f.Blocks != nil {
			have[f] = true
			out = append(out, f)
		}
	}
	sortFuncs(out)
	return out
}

func sortFuncs(fs []*ssa.Function) {
	for i := 1; i < len(fs); i++ {
		for j := i; j > 0 && fkey(fs[j]) < fkey(fs[j-1]); j-- {
			fs[j], fs[j-1] = fs[j-1], fs[j]
		}
	}
}

// thirdParty: code of modules other than this one and the standard library.
func thirdParty(f *ssa.Function) bool {
	p := fnPkgPath(f)
	i := strings.IndexByte(p, '/')
	head := p
	if i >= 0 {
		head = p[:i]
	}
	return strings.Contains(head, ".") && !inModule(p)
}

// extRefs lists the references of an instruction to functions and variables of other packages.
func extRefs(in ssa.Instruction) []string {
	var out []string
	if c, ok := in.(ssa.CallInstruction); ok {
		if n := calleeName(c.Common()); n != "" {
			out = append(out, n)
		}
	}
	for _, op := range in.Operands(nil) {
		switch x := (*op).(type) {
		case *ssa.Function:
			out = append(out, fnName(x))
		case *ssa.Global:
			if x.Pkg != nil {
				out = append(out, x.Pkg.Pkg.Path()+"."+x.Name())
			}
		}
	}
	seen := map[string]bool{}
	var u []string
	for _, s := range out {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

// splitName splits "pkg/path.Func" and "(pkg/path.Type).Method".
func splitName(n string) (pkg, name string) {
	if strings.HasPrefix(n, "(") {
		n = n[1:]
		i := strings.Index(n, ")")
		if i < 0 {
			return "", n
		}
		t := n[:i]
		j := strings.LastIndex(t, ".")
		if j < 0 {
			return "", n
		}
		return t[:j], t[j+1:] + n[i+1:]
	}
	j := strings.LastIndex(n, ".")
	if j < 0 {
		return "", n
	}
	return n[:j], n[j+1:]
}

func pkgIs(p string, list ...string) bool {
	for _, l := range list {
		if p == l || strings.HasPrefix(p, l+"/") {
			return true
		}
	}
	return false
}

// nondetRef tells why a reference can make the result depend on something other than the input.
func nondetRef(n string) string {
	p, name := splitName(n)
	if strings.HasSuffix(name, ".init") || name == "init" {
		return ""
	}
	switch {
	case p == "time":
		switch name {
		case "Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "Sleep", "Local", "LoadLocation":
			return "time"
		}
		return ""
	case pkgIs(p, "math/rand", "crypto/rand", "hash/maphash"):
		return "random numbers"
	case p == "maphash":
		return "random numbers"
	case p == "os":
		return "environment"
	case pkgIs(p, "os", "syscall", "net") && p != "net/url" && p != "net/mail" && p != "net/textproto":
		return "environment"
	case p == "runtime":
		switch name {
		case "KeepAlive", "Error.Error", "Caller", "Callers", "FuncForPC", "CallersFrames":
			return ""
		}
		return "the run-time system"
	case p == "reflect":
		switch name {
		case "Value.Pointer", "Value.UnsafePointer", "Value.UnsafeAddr", "Value.MapKeys", "Value.MapRange", "Select":
			return "addresses or map order"
		}
	case p == "sync" && name == "Map.Range":
		return "the order of a map"
	case p == "sync" && name == "WaitGroup.Go":
		return "scheduling"
	}
	return ""
}

// outsideRef tells what a reference does to the outside world.
func outsideRef(n string) string {
	p, name := splitName(n)
	if name == "init" {
		return ""
	}
	switch {
	case p == "fmt":
		switch name {
		case "Print", "Printf", "Println":
			return "writes to standard output"
		case "Scan", "Scanf", "Scanln":
			return "reads standard input"
		}
		return ""
	case p == "builtin":
		if name == "print" || name == "println" {
			return "writes to standard error"
		}
		return ""
	case p == "os":
		switch name {
		case "ErrNotExist", "ErrExist", "ErrPermission", "ErrClosed", "ErrInvalid", "IsNotExist", "IsExist", "IsPermission", "PathSeparator":
			return ""
		}
		return "uses the operating system"
	case pkgIs(p, "os", "syscall", "plugin", "testing") || strings.HasPrefix(p, "golang.org/x/sys"):
		return "uses the operating system"
	case pkgIs(p, "net") && p != "net/url" && p != "net/mail" && p != "net/textproto":
		return "uses the network"
	case pkgIs(p, "log", "log/slog"):
		return "writes to a log"
	case p == "flag" || p == "expvar":
		return "uses process-wide state"
	case p == "io/ioutil":
		switch name {
		case "ReadAll", "NopCloser", "Discard":
			return ""
		}
		return "uses the file system"
	case p == "path/filepath":
		switch name {
		case "Glob", "Walk", "WalkDir", "Abs", "EvalSymlinks":
			return "uses the file system"
		}
	case p == "runtime":
		switch name {
		case "Goexit", "Breakpoint", "SetFinalizer", "AddCleanup", "GC", "GOMAXPROCS", "LockOSThread":
			return "controls the process"
		}
	case p == "runtime/debug" && strings.HasPrefix(name, "Set"), p == "runtime/debug" && name == "PrintStack":
		return "controls the process"
	}
	return ""
}

// failedAssert: the block runs only after a comma-ok type assertion has failed.
func failedAssert(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := ssa.Value(ifi.Cond), false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			neg = !neg
			cond = u.X
		}
		ex, ok := cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		if ta, ok := ex.Tuple.(*ssa.TypeAssert); !ok || !ta.CommaOk {
			continue
		}
		// the edge on which the assertion failed
		failed := p.Succs[1]
		if neg {
			failed = p.Succs[0]
		}
		if len(failed.Preds) == 1 && failed.Dominates(b) {
			return true
		}
	}
	return false
}

// constText: the constant strings that v can be (through parameters of helpers).
func constText(P *Prog, v ssa.Value, depth int) ([]string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
	case *ssa.MakeInterface:
		return constText(P, x.X, depth)
	case *ssa.ChangeType:
		return constText(P, x.X, depth)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return constText(P, x.X, depth) // the start of the text
		}
	case *ssa.Parameter:
		if depth <= 0 {
			return nil, false
		}
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		var out []string
		sites := P.Callers(x.Parent())
		if len(sites) == 0 {
			return nil, false
		}
		for _, s := range sites {
			if s.Common().IsInvoke() || idx >= len(s.Common().Args) {
				return nil, false
			}
			t, ok := constText(P, s.Common().Args[idx], depth-1)
			if !ok {
				return nil, false
			}
			out = append(out, t...)
		}
		return out, true
	}
	return nil, false
}

// firstVararg: the first element of the variadic argument of a print call.
func firstVararg(c *ssa.CallCommon, from int) ssa.Value {
	if len(c.Args) <= from {
		return nil
	}
	s, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if i, ok := ia.Index.(*ssa.Const); !ok || i.Int64() != 0 {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				return st.Val
			}
		}
	}
	return nil
}

// isWarning: printing one of the documented warnings after a failed type assertion.
func isWarning(P *Prog, in ssa.Instruction) bool {
	call, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	c := call.Common()
	var text ssa.Value
	switch calleeName(c) {
	case "fmt.Println", "fmt.Print":
		text = firstVararg(c, 0)
	case "fmt.Printf":
		text = c.Args[0]
	default:
		return false
	}
	if text == nil {
		return false
	}
	ss, ok := constText(P, text, 3)
	if !ok {
		return false
	}
	for _, s := range ss {
		if !strings.HasPrefix(s, "[warning]") {
			return false
		}
	}
	var guarded func(in ssa.Instruction, depth int) bool
	guarded = func(in ssa.Instruction, depth int) bool {
		if failedAssert(in.Block()) {
			return true
		}
		if depth == 0 {
			return false
		}
		sites := P.Callers(in.Parent())
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if !guarded(s, depth-1) {
				return false
			}
		}
		return true
	}
	return guarded(in, 3)
}

// ---- map iteration ----

// orderFree decides whether the body of an iteration over a map cannot let the order of the
// iteration show: it only fills other maps under the key of the iteration, sums up, leaves with a
// constant, or collects into a slice that is sorted before it is used.
func orderFree(rg *ssa.Range) (bool, string) {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true, "the iteration is not used"
	}
	f := rg.Parent()
	head := next.Block()
	body := loopBlocks(f, head)
	inBody := func(b *ssa.BasicBlock) bool { return body[b] }
	key := map[ssa.Value]bool{}
	for _, ref := range *next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			key[e] = true
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !key[x.Key] {
					return false, "a map entry under another key is written in the loop"
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && inBody(al.Block()) {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && inBody(al.Block()) {
						continue
					}
				}
				return false, "memory outside of the loop is written in the loop"
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false, "an effect in the loop"
			case *ssa.Call:
				n := calleeName(&x.Call)
				if n == "builtin.append" || n == "builtin.len" || n == "builtin.delete" || n == "builtin.min" || n == "builtin.max" {
					continue
				}
				if p, _ := splitName(n); pkgIs(p, "strings", "bytes", "unicode", "strconv") && !strings.HasPrefix(n, "(") {
					continue
				}
				return false, "the loop calls " + n
			case *ssa.Return:
				for _, v := range x.Results {
					if _, ok := v.(*ssa.Const); !ok {
						return false, "the loop is left with a value of one iteration"
					}
				}
			}
		}
	}
	// values that leave the loop
	for b := range body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			phi, isPhi := in.(*ssa.Phi)
			for _, ref := range *v.Referrers() {
				if ref.Block() == nil || inBody(ref.Block()) {
					continue
				}
				if !isPhi || b != head {
					if ex, ok := in.(*ssa.Extract); ok && ex.Index == 0 {
						continue
					}
					return false, "a value of one iteration is used after the loop"
				}
				if ok, why := commutative(phi, body); !ok {
					if sortedBefore(phi, body) {
						continue
					}
					return false, why
				}
			}
		}
	}
	return true, "the order of the iteration cannot show"
}

func loopBlocks(f *ssa.Function, head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s == head && head.Dominates(b) {
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[0]
					work = work[1:]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return body
}

// commutative: the value carried around the loop is a sum, a maximum, or set to a constant.
func commutative(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) (bool, string) {
	basic, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || basic.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false, "a value that is built up in the order of the iteration is used after the loop"
	}
	seen := map[ssa.Value]bool{}
	var okv func(v ssa.Value) bool
	okv = func(v ssa.Value) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			if !body[x.Block()] {
				return true
			}
			for _, e := range x.Edges {
				if !okv(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.OR, token.AND:
				return basic.Info()&types.IsInteger != 0 && (okv(x.X) || okv(x.Y))
			}
		case *ssa.Call:
			n := calleeName(&x.Call)
			return n == "builtin.max" || n == "builtin.min"
		}
		return false
	}
	for i, e := range phi.Edges {
		if body[phi.Block().Preds[i]] && !okv(e) {
			return false, "a value of the last iteration is used after the loop"
		}
	}
	return true, ""
}

// sortedBefore: the slice collected in the loop is sorted before anything else uses it.
func sortedBefore(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	var sortCall ssa.Instruction
	var outs []ssa.Instruction
	var grow func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	grow = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if ref.Block() == nil || body[ref.Block()] {
				continue
			}
			if c, ok := ref.(*ssa.Call); ok {
				n := calleeName(&c.Call)
				switch n {
				case "sort.Strings", "sort.Ints", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
					sortCall = ref
					continue
				}
			}
			switch w := ref.(type) {
			case *ssa.MakeInterface:
				grow(w)
				continue
			case *ssa.ChangeType:
				grow(w)
				continue
			}
			outs = append(outs, ref)
		}
	}
	grow(phi)
	if sortCall == nil {
		return false
	}
	for _, o := range outs {
		if !instrBefore(sortCall, o) {
			return false
		}
	}
	return true
}

// instrBefore: a is executed before b on every path to b.
func instrBefore(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// showsAddress: formatting a value of this type prints an address.
func showsAddress(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	ms := types.NewMethodSet(t)
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		if ms.Lookup(nil, m) != nil {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return showsAddress(u.Elem(), 1)
			}
		}
		return true
	case *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if showsAddress(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Slice:
		return showsAddress(u.Elem(), depth+1)
	case *types.Array:
		return showsAddress(u.Elem(), depth+1)
	case *types.Map:
		return showsAddress(u.Key(), depth+1) || showsAddress(u.Elem(), depth+1)
	}
	return false
}

var fmtPrinters = map[string]bool{"fmt.Sprint": true, "fmt.Sprintf": true, "fmt.Sprintln": true, "fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Append": true, "fmt.Appendf": true, "fmt.Appendln": true}

func varargTypes(c *ssa.CallCommon) []types.Type {
	var out []types.Type
	if len(c.Args) == 0 {
		return nil
	}
	s, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					if mi, ok := st.Val.(*ssa.MakeInterface); ok {
						out = append(out, mi.X.Type())
					}
				}
			}
		}
	}
	return out
}

func init() {
	register("C04", func(P *Prog, r *Result) {
		r.Rule("sources", "no function of the library (or of a third-party package it reaches) refers to time, random numbers, the environment, the run-time system, addresses or unordered iteration helpers", 100)
		r.Rule("concurrency", "no function of the library starts goroutines or selects between channels", 0)
		r.Rule("map-order", "the order of an iteration over a map cannot show", 0)
		r.Rule("addresses", "no address is turned into a number or a text", 0)
		fs := convFuncs(P)
		r.Count("functions", len(fs))
		for _, f := range fs {
			bad := false
			instrs(f, func(in ssa.Instruction) {
				for _, n := range extRefs(in) {
					if why := nondetRef(n); why != "" {
						if p, _ := splitName(n); p == fnPkgPath(f) {
							continue
						}
						bad = true
						r.Bad("sources", fkey(f)+" uses "+n, P.ipos(in), "the result can depend on %s", why)
					}
					if strings.HasPrefix(n, "maps.Keys") || strings.HasPrefix(n, "maps.Values") || n == "maps.All" {
						if c, ok := in.(*ssa.Call); ok && !iterSorted(c) {
							r.Bad("map-order", fkey(f)+" uses "+n, P.ipos(in), "the elements of a map are used in the order of an iteration")
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Go:
					r.Bad("concurrency", fkey(f)+" go", P.ipos(in), "a goroutine is started: the result can depend on scheduling")
				case *ssa.Select:
					if len(x.States) > 1 || !x.Blocking {
						r.Bad("concurrency", fkey(f)+" select", P.ipos(in), "select: the result can depend on scheduling")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						ok, why := orderFree(x)
						r.Check(ok, "map-order", fkey(f)+" range over "+x.X.Type().String(), P.ipos(in), "%s", why)
					}
				case *ssa.Convert:
					if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						if d, ok := x.Type().Underlying().(*types.Basic); ok && d.Kind() == types.Uintptr {
							r.Bad("addresses", fkey(f)+" uintptr", P.ipos(in), "an address is turned into a number")
						}
					}
				case *ssa.Call:
					if n := calleeName(&x.Call); fmtPrinters[n] && P.InLib(f) {
						for _, t := range varargTypes(&x.Call) {
							if showsAddress(t, 0) {
								r.Bad("addresses", fkey(f)+" "+n, P.ipos(in), "formatting a %s prints an address", t)
							}
						}
						for _, a := range x.Call.Args {
							if ss, ok := constText(P, a, 1); ok && len(ss) == 1 && strings.Contains(ss[0], "%p") {
								r.Bad("addresses", fkey(f)+" "+n, P.ipos(in), "%%p prints an address")
							}
						}
					}
				}
			})
			if !bad {
				r.OK("sources", fkey(f), P.pos(f.Pos()), "no source of non-determinism")
			}
		}
		r.Assume = append(r.Assume, "standard library functions other than the listed ones are deterministic")
	})
	register("C05", func(P *Prog, r *Result) {
		r.Rule("effects", "no function of the library (or of a third-party package it reaches) uses files, network, processes, environment, standard streams or logs; only a '[warning]' line may be printed, after a failed type assertion", 100)
		fs := convFuncs(P)
		r.Count("functions", len(fs))
		warn := 0
		for _, f := range fs {
			bad := false
			instrs(f, func(in ssa.Instruction) {
				for _, n := range extRefs(in) {
					why := outsideRef(n)
					if why == "" {
						continue
					}
					if isWarning(P, in) {
						warn++
						continue
					}
					bad = true
					r.Bad("effects", fkey(f)+" uses "+n, P.ipos(in), "%s", why)
				}
			})
			if !bad {
				r.OK("effects", fkey(f), P.pos(f.Pos()), "no effect outside")
			}
		}
		r.Count("warnings", warn)
		r.Note("%d print calls are warnings after a failed type assertion", warn)
		r.Assume = append(r.Assume, "standard library functions other than the listed ones have no effect on the outside world", "the reader and the context that the caller passes are arguments of the conversion")
	})
}

// iterSorted: the iterator of a map is only given to slices.Sorted*, or to a collector whose result is sorted first.
func iterSorted(c *ssa.Call) bool {
	for _, ref := range *c.Referrers() {
		d, ok := ref.(*ssa.Call)
		if !ok {
			return false
		}
		switch calleeName(&d.Call) {
		case "slices.Sorted", "slices.SortedFunc", "maps.Collect", "maps.Insert":
			continue
		case "slices.Collect":
			var first ssa.Instruction
			var rest []ssa.Instruction
			for _, r2 := range *d.Referrers() {
				if e, ok := r2.(*ssa.Call); ok {
					switch calleeName(&e.Call) {
					case "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc":
						first = e
						continue
					}
				}
				rest = append(rest, r2)
			}
			if first == nil && len(rest) > 0 {
				return false
			}
			for _, o := range rest {
				if !instrBefore(first, o) {
					return false
				}
			}
			continue
		}
		return false
	}
	return true
}

var _ = fmt.Sprint
