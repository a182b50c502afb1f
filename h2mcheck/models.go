package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// evalCall abstracts the result (component idx) of a call.
func (a *AI) evalCall(F *Frame, call *ssa.Call, idx int, vc VC) AVal {
	c := call.Common()
	name := calleeName(c)
	args := c.Args
	ev := func(i int) AVal {
		if i < len(args) {
			return a.ev(VC{F, args[i]})
		}
		return AVal{}
	}
	resT := vc.V.Type()
	if isLeafCall(name) {
		m := name[strings.LastIndex(name, ".")+1:]
		switch m {
		case "AssembleAbsoluteURL":
			l := "url:?"
			if s, ok := ev(1).strConsts(); ok && len(s) == 1 {
				l = "url:" + s[0]
			}
			v := strAny(l)
			if a.URLBytes != nil {
				v.B = *a.URLBytes
			}
			return v
		case "EscapeContent", "UnEscapeContent":
			v := ev(0)
			if v.bot() || a.EscapeOff {
				return v
			}
			b := v.bytes()
			b.add('\\')
			b = b.or(bsOf("\a\ufffd"))
			r := AVal{Str: true, B: b, Min: 0, Labels: v.Labels}
			if m == "UnEscapeContent" {
				return r.label("unescaped")
			}
			return r.label("escaped")
		}
		return leafOf(resT)
	}
	switch name {
	case "builtin.len":
		v := ev(0)
		if ss, ok := v.strConsts(); ok && isStrBytes(args[0].Type()) {
			r := AVal{}
			for _, s := range ss {
				r = joinV(r, intConst(int64(len(s))))
			}
			return r
		}
		return topVal()
	case "builtin.append":
		l, r := ev(0), ev(1)
		if isStrBytes(args[0].Type()) {
			return a.withStores(F, vc.V, concatV(l, r))
		}
		return joinV(l, r)
	case "unicode/utf8.AppendRune":
		r := ev(1)
		if r.bot() {
			return AVal{}
		}
		return concatV(ev(0), runeText(r))
	case "builtin.min", "builtin.max":
		if len(args) == 2 {
			l, ok1 := ev(0).intConsts()
			r, ok2 := ev(1).intConsts()
			if ev(0).bot() || ev(1).bot() {
				return AVal{}
			}
			if ok1 && ok2 {
				v := AVal{}
				for _, x := range l {
					for _, y := range r {
						if name == "builtin.min" {
							v = joinV(v, intConst(min(x, y)))
						} else {
							v = joinV(v, intConst(max(x, y)))
						}
					}
				}
				return v
			}
		}
		return topVal()
	case domPath + ".NodeName", domPath + ".GetAttributeOr", domPath + ".GetAttribute":
		if idx != 0 {
			return topVal()
		}
		if strings.HasSuffix(name, ".NodeName") {
			return AVal{Str: true, B: bsAll(), Labels: lset("nodename")}
		}
		l := "attr:?"
		if s, ok := ev(1).strConsts(); ok && len(s) == 1 {
			l = "attr:" + s[0]
		}
		v := strAny(l)
		if strings.HasSuffix(name, "Or") {
			v = joinV(v, ev(2))
		}
		return v
	}
	if v, ok := a.stdModel(F, call, name, idx, ev); ok {
		return v
	}
	frs, complete := a.calleeFrames(F, call)
	if len(frs) > 0 {
		var v AVal
		for _, fr := range frs {
			v = joinV(v, a.retVal(fr, idx))
		}
		if complete {
			return v
		}
		return joinV(v, leafOf(resT))
	}
	if x := a.recFrame(F, call); x != nil {
		return a.retVal(x, idx)
	}
	// unknown: keeps the labels of its arguments
	v := leafOf(resT)
	if isStrBytes(resT) || isContainer(resT) {
		for i := range args {
			if isStrBytes(args[i].Type()) || isContainer(args[i].Type()) {
				v = withLabels(v, ev(i).Labels)
			}
		}
	}
	return v
}

func isContainer(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isStrBytes(s.Elem()) || isContainer(s.Elem())
	}
	return false
}

// retVal evaluates what a frame returns, with what the branches above each return imply about it.
func (a *AI) retVal(fr *Frame, i int) AVal {
	var v AVal
	for _, r := range a.returnSites(fr, i) {
		v = joinV(v, a.refineAt(r.VC, r.blk, a.ev(r.VC)))
	}
	return v
}

// seqConsts resolves the elements of a slice literal in order.
func (a *AI) seqConsts(F *Frame, v ssa.Value) ([]AVal, bool) {
	var out []AVal
	n := 0
	for _, o := range a.values(VC{F, v}) {
		if cst, ok := o.V.(*ssa.Const); ok && cst.IsNil() {
			continue
		}
		sl, ok := o.V.(*ssa.Slice)
		if !ok || o.Path != "" {
			return nil, false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		n++
		if n > 1 {
			return nil, false
		}
		out = make([]AVal, at.Len())
		set := make([]bool, at.Len())
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			i := int(ic.Int64())
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					if set[i] {
						return nil, false
					}
					set[i] = true
					out[i] = a.ev(VC{o.F, st.Val})
				}
			}
		}
		for i := range set {
			if !set[i] {
				out[i] = zeroOf(at.Elem())
			}
		}
	}
	return out, true
}

// seqVals resolves the elements of a slice literal to their values.
func (a *AI) seqVals(F *Frame, v ssa.Value) ([]VC, bool) {
	var out []VC
	for _, o := range a.values(VC{F, v}) {
		if cst, ok := o.V.(*ssa.Const); ok && cst.IsNil() {
			continue
		}
		sl, ok := o.V.(*ssa.Slice)
		if !ok || o.Path != "" || out != nil {
			return nil, false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out = make([]VC, at.Len())
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out[ic.Int64()] = VC{o.F, st.Val}
				}
			}
		}
		for _, x := range out {
			if x.V == nil {
				return nil, false
			}
		}
	}
	return out, true
}

// replacerPairs resolves the arguments of strings.NewReplacer behind a receiver.
func (a *AI) replacerPairs(F *Frame, recv ssa.Value) ([]AVal, bool) {
	var out []AVal
	n := 0
	for _, o := range a.values(VC{F, recv}) {
		if call, ok := o.V.(*ssa.Call); ok && calleeName(call.Common()) == "strings.NewReplacer" {
			p, ok := a.seqConsts(o.F, call.Common().Args[0])
			if !ok || n > 0 {
				return nil, false
			}
			out = p
			n++
			continue
		}
		if strings.HasPrefix(o.Path, "zero") {
			continue // nil before the package is initialised
		}
		return nil, false
	}
	return out, n == 1
}

var wsBytes = bsOf(" \t\n\v\f\r\x85\xa0")

// escLabels notes that every occurrence of a character got a backslash in front ("esc:c").
// Escaping the backslashes afterwards undoes that.
func escLabels(ls map[string]bool, pairs [][2]string) map[string]bool {
	out := map[string]bool{}
	for l := range ls {
		out[l] = true
	}
	for _, p := range pairs {
		for l := range ls {
			switch {
			case strings.HasPrefix(l, "esc:"):
				// an escape is taken apart, or a character without an escape is added
				if strings.Contains(p[0], "\\") || !strConst(p[1]).escapes(l[4]) {
					delete(out, l)
				}
			case strings.HasPrefix(l, "has:"):
				if strings.Contains(p[0], l[4:]) && !strings.Contains(p[1], l[4:]) {
					delete(out, l)
				}
			}
		}
	}
	for _, p := range pairs {
		if len(p[0]) == 1 && p[1] == "\\"+p[0] {
			out["esc:"+p[0]] = true
		}
	}
	return out
}

// searchModel: searching for something that is known to be in the text, or known not to be.
func (a *AI) searchModel(name string, ev func(int) AVal) (AVal, bool) {
	var kind string
	switch name {
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		kind = "bool"
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny":
		kind = "index"
	case "strings.Count":
		kind = "count"
	default:
		return AVal{}, false
	}
	l, r := ev(0), ev(1)
	if l.bot() || r.bot() {
		return AVal{}, true
	}
	var pats []string
	if ss, ok := r.strConsts(); ok && len(ss) == 1 && !r.Str {
		pats = ss
		if strings.HasSuffix(name, "Any") {
			pats = strings.Split(ss[0], "")
		}
	} else if is, ok := r.intConsts(); ok && len(is) == 1 {
		pats = []string{string(rune(is[0]))}
		if strings.HasSuffix(name, "Byte") && is[0] < 256 {
			pats = []string{string([]byte{byte(is[0])})}
		}
	} else {
		return AVal{}, false
	}
	if ls, ok := l.strConsts(); ok && !l.Str && len(ls) <= 24 {
		var v AVal
		for _, s := range ls {
			best, last, n := -1, -1, 0
			for _, p := range pats {
				if i := strings.Index(s, p); i >= 0 && (best < 0 || i < best) {
					best = i
				}
				last = max(last, strings.LastIndex(s, p))
				n += strings.Count(s, p)
			}
			switch {
			case kind == "bool":
				v = joinV(v, boolConst(best >= 0))
			case kind == "count":
				v = joinV(v, intConst(int64(n)))
			case strings.Contains(name, "Last"):
				v = joinV(v, intConst(int64(last)))
			default:
				v = joinV(v, intConst(int64(best)))
			}
		}
		return v, true
	}
	b := l.bytes()
	none, some := true, false
	for _, p := range pats {
		if p != "" && bsOf(p).minus(b).empty() || p == "" && !strings.HasSuffix(name, "Any") {
			none = false
		}
		if l.contains(p) {
			some = true
		}
	}
	switch {
	case none && kind == "bool":
		return boolConst(false), true
	case none && kind == "count":
		return intConst(0), true
	case none:
		return intConst(-1), true
	case some && kind == "bool":
		return boolConst(true), true
	case some:
		// a position or a number, never one of "not found"
		v := AVal{Consts: map[string]constant.Value{}}
		for i := int64(0); i < 3; i++ {
			c := constant.MakeInt64(i + 1)
			if kind == "index" {
				c = constant.MakeInt64(i)
			}
			v.Consts[ckey(c)] = c
		}
		return v, true
	}
	return AVal{}, false
}

// stdModel abstracts functions of the standard library.
func (a *AI) stdModel(F *Frame, call *ssa.Call, name string, idx int, ev func(int) AVal) (AVal, bool) {
	args := call.Common().Args
	str := func(v AVal, min int, extra bset) AVal {
		if v.bot() {
			return v
		}
		return AVal{Str: true, B: v.bytes().or(extra), Min: min, Labels: v.Labels}
	}
	fold1 := func(v AVal, f func(string) string) (AVal, bool) {
		if ss, ok := v.strConsts(); ok {
			r := AVal{}
			for _, s := range ss {
				r = joinV(r, strConst(f(s)))
			}
			return withLabels(r, v.Labels), true
		}
		return AVal{}, false
	}
	both := AVal{Consts: map[string]constant.Value{"Bool:true": constant.MakeBool(true), "Bool:false": constant.MakeBool(false)}}
	pkgFn := name
	if strings.HasPrefix(name, "bytes.") {
		pkgFn = "strings." + name[len("bytes."):]
	}
	pred2 := func(f func(s, t string) bool) (AVal, bool) {
		l, r := ev(0), ev(1)
		ls, ok1 := l.strConsts()
		rs, ok2 := r.strConsts()
		if ok1 && ok2 {
			v := AVal{}
			for _, s := range ls {
				for _, t := range rs {
					v = joinV(v, boolConst(f(s, t)))
				}
			}
			return v, true
		}
		return both, true
	}
	if r, ok := a.searchModel(pkgFn, ev); ok {
		return r, true
	}
	switch pkgFn {
	case "strings.TrimSpace":
		v := ev(0)
		if r, ok := fold1(v, strings.TrimSpace); ok {
			return r, true
		}
		return str(v, 0, bset{}), true
	case "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.TrimFunc", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSuffix", "strings.TrimPrefix":
		v := ev(0)
		if len(args) == 2 && isStrBytes(args[1].Type()) {
			if cut, ok := ev(1).strConsts(); ok && len(cut) == 1 {
				if r, ok := fold1(v, func(s string) string {
					switch pkgFn {
					case "strings.Trim":
						return strings.Trim(s, cut[0])
					case "strings.TrimLeft":
						return strings.TrimLeft(s, cut[0])
					case "strings.TrimRight":
						return strings.TrimRight(s, cut[0])
					case "strings.TrimSuffix":
						return strings.TrimSuffix(s, cut[0])
					}
					return strings.TrimPrefix(s, cut[0])
				}); ok {
					return r, true
				}
			}
		}
		if pkgFn != "strings.Trim" && pkgFn != "strings.TrimLeft" && pkgFn != "strings.TrimRight" || !ev(1).bytes().and(bsOf("\\\"'")).empty() {
			v = v.dropMust(true)
		}
		return str(v, 0, bset{}), true
	case "strings.ToLower", "strings.ToUpper":
		v := ev(0)
		if r, ok := fold1(v, func(s string) string {
			if pkgFn == "strings.ToLower" {
				return strings.ToLower(s)
			}
			return strings.ToUpper(s)
		}); ok {
			return r, true
		}
		b := v.bytes()
		for i := 0; i < 26; i++ {
			b.add(byte('a' + i))
			b.add(byte('A' + i))
		}
		for i := 128; i < 256; i++ {
			b.add(byte(i))
		}
		return AVal{Str: true, B: b, Labels: v.Labels}, true
	case "strings.ReplaceAll", "strings.Replace":
		v, o, n := ev(0), ev(1), ev(2)
		if v.bot() || o.bot() || n.bot() {
			return AVal{}, true
		}
		all := pkgFn == "strings.ReplaceAll"
		if !all {
			if k, ok := ev(3).intConsts(); ok && len(k) == 1 && k[0] < 0 {
				all = true
			}
		}
		os, ok1 := o.strConsts()
		ns, ok2 := n.strConsts()
		if all && ok1 && ok2 && len(os) == 1 && len(ns) == 1 {
			if r, ok := fold1(v, func(s string) string { return strings.ReplaceAll(s, os[0], ns[0]) }); ok {
				return r, true
			}
		}
		b := v.bytes()
		min := 0
		if all && ok1 && len(os) == 1 && len(os[0]) == 1 {
			b = b.minus(bsOf(os[0]))
			if v.minLen() > 0 && n.minLen() > 0 {
				min = 1
			}
		}
		labels := v.Labels
		if all && ok1 && ok2 && len(os) == 1 && len(ns) == 1 {
			labels = escLabels(labels, [][2]string{{os[0], ns[0]}})
		} else {
			labels = v.dropMust(true).Labels
		}
		never := ok1 && len(os) > 0
		for _, s := range os {
			never = never && s != "" && !bsOf(s).minus(v.bytes()).empty()
		}
		if never {
			return v, true // what is searched for cannot occur
		}
		b = b.or(n.bytes())
		return withLabels(AVal{Str: true, B: b, Min: min, Labels: labels}, n.Labels), true
	case "(regexp.Regexp).MatchString", "(regexp.Regexp).Match":
		ss, ok := ev(1).strConsts()
		if !ok {
			return both, true
		}
		for _, o := range a.values(VC{F, args[0]}) {
			if strings.HasPrefix(o.Path, "zero") {
				continue
			}
			c, isC := o.V.(*ssa.Call)
			if !isC || o.Path != "" || calleeName(c.Common()) != "regexp.MustCompile" {
				return both, true
			}
			ps, isP := a.ev(VC{o.F, c.Common().Args[0]}).strConsts()
			if !isP || len(ps) != 1 {
				return both, true
			}
			re, err := regexp.Compile(ps[0])
			if err != nil {
				return both, true
			}
			v := AVal{}
			for _, s := range ss {
				v = joinV(v, boolConst(re.MatchString(s)))
			}
			return v, true
		}
		return both, true
	case "strings.Count":
		ls, ok1 := ev(0).strConsts()
		ss, ok2 := ev(1).strConsts()
		if ok1 && ok2 && len(ls)*len(ss) <= 32 {
			v := AVal{}
			for _, s := range ls {
				for _, t := range ss {
					v = joinV(v, intConst(int64(strings.Count(s, t))))
				}
			}
			return v, true
		}
		return topVal(), true
	case "(strings.Replacer).Replace":
		v := ev(1)
		pairs, ok := a.replacerPairs(F, args[0])
		if ok && !v.bot() {
			var flat []string
			for _, p := range pairs {
				if c, ok := p.strConsts(); ok && len(c) == 1 {
					flat = append(flat, c[0])
				}
			}
			if len(flat) == len(pairs) && len(flat)%2 == 0 {
				if r, ok := fold1(v, strings.NewReplacer(flat...).Replace); ok {
					return r, true
				}
			}
		}
		if !ok || v.bot() {
			return str(v, 0, bsAll()), true
		}
		b := v.bytes()
		for i := 0; i+1 < len(pairs); i += 2 {
			if s, ok := pairs[i].strConsts(); ok && len(s) == 1 && len(s[0]) == 1 {
				b = b.minus(bsOf(s[0]))
			}
		}
		for i := 0; i+1 < len(pairs); i += 2 {
			if s, ok := pairs[i].strConsts(); ok && len(s) == 1 && s[0] != "" && !bsOf(s[0]).minus(v.bytes()).empty() {
				continue // cannot occur
			}
			b = b.or(pairs[i+1].bytes())
		}
		var lit [][2]string
		for i := 0; i+1 < len(pairs); i += 2 {
			x, ok1 := pairs[i].strConsts()
			y, ok2 := pairs[i+1].strConsts()
			if ok1 && ok2 && len(x) == 1 && len(y) == 1 {
				lit = append(lit, [2]string{x[0], y[0]})
			}
		}
		if len(lit)*2 != len(pairs) {
			return AVal{Str: true, B: b, Labels: v.dropMust(true).Labels}, true
		}
		return AVal{Str: true, B: b, Labels: escLabels(v.Labels, lit)}, true
	case "strings.Repeat":
		v, n := ev(0), ev(1)
		if ns, ok := n.intConsts(); ok && len(ns) == 1 && ns[0] >= 0 && ns[0] < 64 {
			if r, ok := fold1(v, func(s string) string { return strings.Repeat(s, int(ns[0])) }); ok {
				return r, true
			}
		}
		r := str(v, 0, bset{})
		if !r.bot() {
			r = r.label("repeat")
		}
		return r, true
	case "strings.Join":
		return withLabels(str(ev(0), 0, ev(1).bytes()), nil), true
	case "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.SplitSeq":
		v := ev(0)
		b := v.bytes()
		if pkgFn == "strings.Split" || pkgFn == "strings.SplitSeq" {
			if s, ok := ev(1).strConsts(); ok && len(s) == 1 && len(s[0]) == 1 {
				b = b.minus(bsOf(s[0]))
			}
		}
		if v.bot() {
			return v, true
		}
		return AVal{Str: true, B: b, Labels: v.dropMust(true).Labels}, true
	case "strings.Fields":
		v := ev(0).dropMust(true)
		if v.bot() {
			return v, true
		}
		return AVal{Str: true, B: v.bytes().minus(bsOf(" \t\n\v\f\r")), Min: 1, Labels: v.Labels}, true
	case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
		if (pkgFn == "strings.Cut" && idx < 2) || (pkgFn != "strings.Cut" && idx == 0) {
			return str(ev(0).dropMust(true), 0, bset{}), true
		}
		return both, true
	case "strings.Map":
		v := ev(1)
		if v.bot() {
			return v, true
		}
		var kept bset
		if b, ok := a.mapBytes(F, args[0], v.bytes(), &kept); ok {
			r := AVal{Str: true, B: b, Labels: v.dropMust(true).Labels}
			for l := range v.Labels {
				if strings.HasPrefix(l, "has:") && kept.has(l[4]) {
					r = r.label(l)
				}
			}
			return r, true
		}
		return str(v.dropMust(true), 0, bsAll()), true
	case "strings.Clone":
		return ev(0), true
	case "strings.HasPrefix":
		return pred2(strings.HasPrefix)
	case "strings.HasSuffix":
		return pred2(strings.HasSuffix)
	case "strings.Contains":
		return pred2(strings.Contains)
	case "strings.Equal":
		return pred2(func(s, t string) bool { return s == t })
	case "strings.EqualFold":
		return pred2(strings.EqualFold)
	case "strings.ContainsRune", "strings.ContainsAny", "strings.ContainsFunc":
		return both, true
	case "strconv.Itoa", "strconv.FormatInt":
		if is, ok := ev(0).intConsts(); ok && len(is) == 1 && pkgFn == "strconv.Itoa" {
			return strConst(strconv.FormatInt(is[0], 10)), true
		}
		if pkgFn == "strconv.FormatInt" {
			if is, ok := ev(1).intConsts(); !ok || len(is) != 1 || is[0] != 10 {
				return AVal{Str: true, B: bsOf("-0123456789abcdefghijklmnopqrstuvwxyz"), Min: 1}, true
			}
		}
		return AVal{Str: true, B: bsOf("-0123456789"), Min: 1}, true
	case "strconv.Quote":
		return withLabels(AVal{Str: true, B: bsAll(), Min: 2}, ev(0).Labels), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if pkgFn == "fmt.Sprintf" {
			if vs, ok := a.seqConsts(F, args[1]); ok {
				if f, ok := ev(0).strConsts(); ok && len(f) == 1 {
					return sprintfVal(f[0], vs), true
				}
			}
			return withLabels(AVal{Str: true, B: bsAll(), Labels: ev(0).Labels}, ev(1).Labels), true
		}
		v := ev(0)
		return AVal{Str: true, B: v.bytes().or(bsOf(" \n-0123456789")), Labels: v.Labels}, true
	case "net/url.QueryEscape", "net/url.PathEscape":
		return AVal{Str: true, B: bsOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~%+$&:=@;,/?!*'()"), Labels: ev(0).Labels}, true
	case "(regexp.Regexp).ReplaceAll", "(regexp.Regexp).ReplaceAllString", "(regexp.Regexp).ReplaceAllLiteral", "(regexp.Regexp).ReplaceAllLiteralString":
		v, n := ev(1), ev(2)
		if v.bot() {
			return v, true
		}
		return AVal{Str: true, B: v.bytes().or(n.bytes()), Labels: v.Labels}, true
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		v := ev(0)
		if ss, ok := v.strConsts(); ok {
			r := AVal{}
			for _, s := range ss {
				ru, n := utf8.DecodeRuneInString(s)
				if idx == 0 {
					r = joinV(r, intConst(int64(ru)))
				} else {
					r = joinV(r, intConst(int64(n)))
				}
			}
			return r, true
		}
		if idx == 0 {
			return charOf(v), true
		}
		return topVal(), true
	case "slices.Clone", "strings.Runes", "slices.Collect", "slices.Values":
		return ev(0), true
	case "slices.Insert":
		return joinV(ev(0), ev(2)), true
	case "slices.Delete", "slices.DeleteFunc", "slices.Grow", "slices.Clip":
		return ev(0), true
	case "slices.Concat":
		return ev(0), true
	case "slices.Contains":
		l, r := ev(0), ev(1)
		ls, ok1 := l.strConsts()
		rs, ok2 := r.strConsts()
		if seq, ok := a.seqConsts(F, args[0]); ok && ok2 {
			ok1 = true
			ls = nil
			for _, s := range seq {
				c, ok := s.strConsts()
				if !ok || len(c) != 1 {
					ok1 = false
					break
				}
				ls = append(ls, c[0])
			}
			if ok1 {
				v := AVal{}
				for _, t := range rs {
					in := false
					for _, s := range ls {
						if s == t {
							in = true
						}
					}
					v = joinV(v, boolConst(in))
				}
				return v, true
			}
		}
		return both, true
	case "(strings.Buffer).Bytes", "(strings.Buffer).String", "(strings.Builder).String":
	}
	if name == "(bytes.Buffer).Bytes" || name == "(bytes.Buffer).String" || name == "(strings.Builder).String" {
		if v, ok := a.loopRepeat(VC{F, call.Value()}); ok {
			return v, true
		}
		v := a.bufferVal(F, args[0])
		return v, true
	}
	return AVal{}, false
}

func sprintfVal(f string, vs []AVal) AVal {
	r := strConst("")
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = concatV(r, strConst(f[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			r = concatV(r, strConst("%"))
		} else if n < len(vs) {
			v := vs[n]
			n++
			switch f[j] {
			case 's', 'v', 'c':
				if v.bot() {
					v = strAny()
				}
				if v.Top {
					v = withLabels(strAny(), v.Labels)
				}
				if is, ok := v.intConsts(); ok && f[j] == 'v' && len(is) == 1 {
					v = strConst(strconv.FormatInt(is[0], 10))
				}
				r = concatV(r, v)
			case 'd':
				r = concatV(r, AVal{Str: true, B: bsOf("-0123456789"), Min: 1})
			case 'x':
				r = concatV(r, withLabels(AVal{Str: true, B: bsOf("-0123456789abcdef"), Min: 0}, v.Labels))
			case 'X':
				r = concatV(r, withLabels(AVal{Str: true, B: bsOf("-0123456789ABCDEF"), Min: 0}, v.Labels))
			default:
				r = concatV(r, withLabels(strAny(), v.Labels))
			}
		} else {
			r = concatV(r, strAny())
		}
		i = j
	}
	return r
}

// bufferVal is the union of what is written to a local buffer.
func (a *AI) bufferVal(F *Frame, buf ssa.Value) AVal {
	var v AVal
	found := false
	for _, o := range a.values(VC{F, buf}) {
		if _, ok := o.V.(*ssa.Alloc); !ok || o.Path != "" {
			return strAny()
		}
		found = true
		a.eachUse(o.VC, func(u Use) {
			call, ok := u.In.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, t := range a.writeTokens(u.F, call, o.VC) {
				switch t.Kind {
				case tkWrite:
					v = joinV(v, a.asTextAt(t, call))
				case tkChildren:
					cv := strAny("children")
					if a.ChildBytes != nil {
						cv.B = *a.ChildBytes
					}
					v = joinV(v, cv)
				case tkHTML:
					v = joinV(v, strAny("html"))
				case tkOpaque:
					if a.recFrame(u.F, call) != nil {
						continue // the frame above stands for it
					}
					v = joinV(v, strAny("opaque"))
				}
			}
		})
	}
	if !found {
		return strAny()
	}
	if v.bot() {
		return strConst("")
	}
	r := joinV(v, strConst(""))
	// written parts can be concatenated
	return AVal{Str: true, B: r.bytes(), Labels: r.Labels}
}

func (t Tok) digits() AVal {
	if t.Hex {
		return AVal{Str: true, B: bsOf("-0123456789abcdefABCDEF"), Min: 0}
	}
	return AVal{Str: true, B: bsOf("-0123456789"), Min: 1}
}

// asTextAt is the text that a token writes at this call.
func (a *AI) asTextAt(t Tok, call ssa.CallInstruction) AVal {
	v := a.asText(t)
	if t.VC.V == nil || t.Num || t.VC.F.Fn != call.Parent() {
		return v
	}
	x := t.VC
	for {
		c, ok := x.V.(*ssa.Convert)
		if !ok || !isCharType(c.X.Type()) {
			break
		}
		x = VC{x.F, c.X}
	}
	if isCharType(x.V.Type()) && x != t.VC || t.Rune {
		return runeText(a.refineAt(x, call.Block(), a.ev(x)))
	}
	return a.refineAt(x, call.Block(), v)
}

// asText is the text that a token writes.
func (a *AI) asText(t Tok) AVal {
	if t.VC.V == nil {
		return strConst(t.Lit)
	}
	if t.Num {
		return t.digits()
	}
	v := a.ev(t.VC)
	if t.Rune {
		return runeText(v)
	}
	return v
}

func runeText(v AVal) AVal {
	if ss, ok := v.strConsts(); ok {
		r := AVal{}
		for _, s := range ss {
			r = joinV(r, strConst(s))
		}
		return withLabels(r, v.Labels)
	}
	if v.Top {
		return withLabels(strAny(), v.Labels)
	}
	return v
}

type tkKind int

const (
	tkWrite tkKind = iota
	tkChildren
	tkHTML
	tkOpaque
	tkInline // enters functions of the repository
	tkNone
)

type Tok struct {
	Num  bool // a number
	Hex  bool
	Kind tkKind
	VC   VC
	Rune bool
	In   ssa.CallInstruction
	F    *Frame
	Lit  string // literal text (from a format string), when VC is empty
}

// sameRoot: does v denote the writer root?
func (a *AI) isRootPtr(vc VC, root VC) bool {
	for _, o := range a.values(vc) {
		if o.VC == root && o.Path == "" {
			return true
		}
	}
	return false
}

func writerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		for i := 0; i < u.NumMethods(); i++ {
			if u.Method(i).Name() == "Write" {
				return true
			}
		}
		return u.NumMethods() == 0
	case *types.Pointer:
		return isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder")
	}
	return false
}

// writeTokens tells what a call writes to the writer root.
func (a *AI) writeTokens(F *Frame, call ssa.CallInstruction, root VC) []Tok {
	c := call.Common()
	name := calleeName(c)
	isW := func(v ssa.Value) bool { return writerLike(v.Type()) && a.isRootPtr(VC{F, v}, root) }
	tok := func(k tkKind, v ssa.Value, r bool) []Tok {
		return []Tok{{Kind: k, VC: VC{F, v}, Rune: r, In: call, F: F}}
	}
	if c.IsInvoke() {
		if isW(c.Value) {
			switch c.Method.Name() {
			case "Write", "WriteString":
				return tok(tkWrite, c.Args[0], false)
			case "WriteByte", "WriteRune":
				return tok(tkWrite, c.Args[0], true)
			}
			return tok(tkOpaque, c.Value, false)
		}
	} else if len(c.Args) > 0 && c.StaticCallee() != nil && c.StaticCallee().Signature.Recv() != nil && isW(c.Args[0]) {
		switch name {
		case "(bytes.Buffer).Write", "(bytes.Buffer).WriteString", "(strings.Builder).Write", "(strings.Builder).WriteString":
			return tok(tkWrite, c.Args[1], false)
		case "(bytes.Buffer).WriteByte", "(bytes.Buffer).WriteRune", "(strings.Builder).WriteByte", "(strings.Builder).WriteRune":
			return tok(tkWrite, c.Args[1], true)
		case "(bytes.Buffer).Bytes", "(bytes.Buffer).String", "(strings.Builder).String", "(bytes.Buffer).Len", "(strings.Builder).Len", "(bytes.Buffer).Grow", "(strings.Builder).Grow", "(bytes.Buffer).Cap", "(strings.Builder).Cap":
			return nil
		}
		if strings.HasPrefix(name, "(bytes.Buffer)") || strings.HasPrefix(name, "(strings.Builder)") {
			return tok(tkOpaque, c.Args[0], false)
		}
	}
	hasW := -1
	for i, arg := range c.Args {
		if isW(arg) {
			hasW = i
		}
	}
	if isLeafCall(name) && hasW >= 0 {
		m := name[strings.LastIndex(name, ".")+1:]
		if (m == "RenderChildNodes" || m == "RenderNodes") && len(c.Args) == 3 {
			t := tok(tkChildren, c.Args[2], false)
			return t
		}
		return tok(tkOpaque, c.Args[hasW], false)
	}
	if hasW >= 0 {
		switch name {
		case htmlPath + ".Render":
			return tok(tkHTML, c.Args[1], false)
		case "io.WriteString":
			return tok(tkWrite, c.Args[1], false)
		case "fmt.Fprintf":
			if hasW == 0 {
				if ts, ok := a.fmtToks(F, c.Args[1], c.Args[2], call); ok {
					return ts
				}
			}
			return tok(tkOpaque, c.Args[hasW], false)
		case "fmt.Fprint":
			if vs, ok := a.seqVals(F, c.Args[1]); ok && hasW == 0 {
				var ts []Tok
				for _, v := range vs {
					ts = append(ts, Tok{Kind: tkWrite, VC: v, In: call, F: F})
				}
				return ts
			}
			return tok(tkOpaque, c.Args[hasW], false)
		}
		frs, complete := a.calleeFrames(F, call)
		if len(frs) > 0 && complete {
			return []Tok{{Kind: tkInline, In: call, F: F}}
		}
		return tok(tkOpaque, c.Args[hasW], false)
	}
	// a closure that captured the writer
	if !c.IsInvoke() {
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
		if c.StaticCallee() == nil || c.StaticCallee().Parent() != nil {
			frs, _ := a.calleeFrames(F, call)
			for _, fr := range frs {
				if fr.Clo != nil {
					for _, b := range fr.Clo.Bindings {
						if a.bindsRoot(VC{fr.CloF, b}, root) {
							return []Tok{{Kind: tkInline, In: call, F: F}}
						}
					}
				}
			}
		}
	}
	return nil
}

// bindsRoot: the captured variable is the root, or a cell that holds it.
func (a *AI) bindsRoot(b VC, root VC) bool {
	if a.isRootPtr(b, root) {
		return true
	}
	if al, ok := b.V.(*ssa.Alloc); ok {
		if writerLike(al.Type().Underlying().(*types.Pointer).Elem()) {
			for _, st := range a.storesTo(b) {
				if a.isRootPtr(st.Val, root) {
					return true
				}
			}
		}
		// a closure stored in a cell (recursion)
		if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); ok {
			return false
		}
	}
	return false
}

// fmtText: the text of a format. Numbers in it (a computed width) are replaced by one digit.
func (a *AI) fmtText(vc VC, depth int) (string, bool) {
	v := a.ev(vc)
	if ss, ok := v.strConsts(); ok && len(ss) == 1 && len(v.Labels) == 0 {
		return ss[0], true
	}
	if v.Str && !v.bytes().empty() && v.bytes().minus(bsOf("0123456789-")).empty() {
		return "1", true
	}
	if depth > 8 {
		return "", false
	}
	switch x := vc.V.(type) {
	case *ssa.BinOp:
		l, ok1 := a.fmtText(VC{vc.F, x.X}, depth+1)
		r, ok2 := a.fmtText(VC{vc.F, x.Y}, depth+1)
		return l + r, ok1 && ok2
	case *ssa.Const:
		return "", false
	}
	os := a.values(vc)
	res, n := "", 0
	for _, o := range os {
		if o.Path != "" || o.VC == vc {
			return "", false
		}
		t, ok := a.fmtText(o.VC, depth+1)
		if !ok || n > 0 && t != res {
			return "", false
		}
		res = t
		n++
	}
	return res, n > 0
}

// fmtToks: what a call of the Printf family writes.
func (a *AI) fmtToks(F *Frame, format, args ssa.Value, call ssa.CallInstruction) ([]Tok, bool) {
	f, ok := a.fmtText(VC{F, format}, 0)
	if !ok {
		return nil, false
	}
	vs, ok := a.seqVals(F, args)
	if !ok {
		return nil, false
	}
	return fprintfToks(f, vs, call, F)
}

func fprintfToks(f string, vs []VC, call ssa.CallInstruction, F *Frame) ([]Tok, bool) {
	var out []Tok
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, Tok{Kind: tkWrite, Lit: lit, In: call, F: F})
			lit = ""
		}
	}
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		width := false
		for i < len(f) && f[i] == '0' {
			width = true
			i++
		}
		if i < len(f) && f[i] == '*' && n < len(vs) {
			width = true
			i++
			n++
		}
		for i < len(f) && strings.IndexByte("0123456789", f[i]) >= 0 {
			width = true
			i++
		}
		if i >= len(f) {
			return nil, false
		}
		switch f[i] {
		case '%':
			lit += "%"
		case 'x', 'X':
			if n >= len(vs) {
				return nil, false
			}
			flush()
			out = append(out, Tok{Kind: tkWrite, VC: vs[n], Num: true, Hex: true, In: call, F: F})
			n++
		case 's', 'v', 'd', 'c':
			if n >= len(vs) || width && f[i] != 'd' {
				return nil, false
			}
			flush()
			num := false
			if b, ok := unboxed(vs[n]).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && f[i] != 'c' {
				num = true
			} else if width {
				return nil, false
			}
			out = append(out, Tok{Kind: tkWrite, VC: vs[n], Rune: f[i] == 'c', Num: num, In: call, F: F})
			n++
		default:
			return nil, false
		}
	}
	flush()
	return out, n == len(vs)
}

func unboxed(vc VC) ssa.Value {
	if mi, ok := vc.V.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return vc.V
}
