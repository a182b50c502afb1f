package main

import (
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: no step before rendering touches the text inside of preformatted elements.

func init() { register("C30", checkC30) }

var preformatted = []string{"code", "pre"}

const removesText = "removes a text node"

// textSite: a place that changes the text of the document.
type textSite struct {
	in   ssa.Instruction
	what string
	node ssa.Value // the node that is changed, for stores
}

func isTagName(s string) bool {
	if s == "" || s == "br" {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9') {
			return false
		}
	}
	return true
}

// onlyOtherData: the value is the data of nodes, joined in any way.
func onlyData(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return isHTMLNode(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == ".Data"
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					n++
					if !onlyData(st.Val, d+1) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.BinOp:
		return x.Op == token.ADD && onlyData(x.X, d+1) && onlyData(x.Y, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) && !onlyData(e, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) == ""
	}
	return false
}

// textSites finds the places in a frame that change text.
func textSites(a *AI, F *Frame) []textSite { return textSitesIn(a, F, 0) }

func textSitesIn(a *AI, F *Frame, d int) []textSite {
	var out []textSite
	instrs(F.Fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || !isHTMLNode(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != ".Data" {
				return
			}
			if al, ok := fa.X.(*ssa.Alloc); ok {
				// a new node: text and line breaks count
				kind := int64(-1)
				for _, ref := range *al.Referrers() {
					if f2, ok := ref.(*ssa.FieldAddr); ok && fieldName(f2.X.Type(), f2.Field) == ".Type" {
						for _, st := range *f2.Referrers() {
							if s, ok := st.(*ssa.Store); ok {
								if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil {
									kind, _ = constant.Int64Val(c.Value)
								}
							}
						}
					}
				}
				c, isC := a.Eval(VC{F, x.Val}).strConsts()
				switch {
				case kind == 1:
					out = append(out, textSite{in, "adds text", nil})
				case kind == 3 && isC:
					for _, s := range c {
						if s == "br" {
							out = append(out, textSite{in, "adds a line break", nil})
						}
					}
				}
				return
			}
			if onlyData(x.Val, 0) {
				if c, ok := x.Val.(*ssa.Const); !ok || constant.StringVal(c.Value) != "" {
					return
				}
			}
			if s, ok := a.Eval(VC{F, x.Val}).strConsts(); ok && len(s) > 0 {
				tag := true
				for _, t := range s {
					if !isTagName(t) {
						tag = false
					}
				}
				if tag {
					return
				}
			}
			out = append(out, textSite{in, "changes the text of a node", fa.X})
		case ssa.CallInstruction:
			n := calleeName(x.Common())
			if d < 2 && x.Common().StaticCallee() == nil {
				if frs, complete := a.calleeFrames(F, x); !complete {
					known := map[*ssa.Function]bool{}
					for _, fr := range frs {
						known[fr.Fn] = true
					}
					for _, g := range a.P.Callees(x) {
						if known[g] || !a.inlined(g) || F.contains(g) > 0 {
							continue
						}
						a.eachFrame(a.Root(g), func(G *Frame) {
							for _, s := range textSitesIn(a, G, d+1) {
								if s.what == removesText {
									continue
								}
								out = append(out, textSite{in, s.what, nil})
							}
						})
					}
				}
			}
			var node ssa.Value
			switch n {
			case domPath + ".RemoveNode":
				node = x.Common().Args[0]
			case "(" + htmlPath + ".Node).RemoveChild":
				node = x.Common().Args[1]
			default:
				return
			}
			if joinedBefore(in, node) {
				return
			}
			out = append(out, textSite{in, removesText, nil})
		}
	})
	return out
}

// joinedBefore: the data of the node was added to the data of another node before.
func joinedBefore(in ssa.Instruction, node ssa.Value) bool {
	found := false
	instrs(in.Parent(), func(x ssa.Instruction) {
		st, ok := x.(*ssa.Store)
		if !ok || !instrBefore(st, in) {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !isHTMLNode(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != ".Data" || fa.X == node {
			return
		}
		var has func(v ssa.Value, d int) bool
		has = func(v ssa.Value, d int) bool {
			switch y := v.(type) {
			case *ssa.BinOp:
				return d < 5 && (has(y.X, d+1) || has(y.Y, d+1))
			case *ssa.UnOp:
				if f2, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
					return f2.X == node && fieldName(f2.X.Type(), f2.Field) == ".Data"
				}
			}
			return false
		}
		if has(st.Val, 0) {
			found = true
		}
	})
	return found
}

// liveSites: the instructions that can be reached from the frame in the current scenario.
func liveSites(a *AI, root *Frame) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	a.eachFrame(root, func(F *Frame) {
		fi := a.feasible(F)
		for _, b := range F.Fn.Blocks {
			if fi.live[b.Index] {
				for _, in := range b.Instrs {
					out[in] = true
				}
			}
		}
	})
	return out
}

// viaParent: the node is a parent (or a further ancestor) of another node.
func viaParent(o Org) bool {
	if strings.HasSuffix(cleanPath(o.Path), ".Parent") {
		return true
	}
	if o.Path != "" {
		return false
	}
	if u, ok := o.V.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return isHTMLNode(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == ".Parent"
		}
	}
	return false
}

func allOrgs(os []Org, f func(o Org) bool) bool {
	for _, o := range os {
		if c, ok := o.V.(*ssa.Const); ok && c.IsNil() {
			continue
		}
		if !f(o) {
			return false
		}
	}
	return len(os) > 0
}

// nameHook: the nodes that pick selects are elements with the name.
func nameHook(name string, pick func(a *AI, os []Org) bool, node func(o Org) bool) func(a *AI, o Org) (AVal, bool) {
	return func(a *AI, o Org) (AVal, bool) {
		if c, ok := o.V.(*ssa.Call); ok && o.Path == "" && calleeName(c.Common()) == domPath+".NodeName" {
			if pick(a, a.values(VC{o.F, c.Common().Args[0]})) {
				return strConst(name), true
			}
		}
		for _, f := range []string{".Data", ".Type"} {
			p := cleanPath(o.Path)
			if !strings.HasSuffix(p, f) {
				continue
			}
			q := o
			q.Path = strings.TrimSuffix(p, f)
			if pick(a, []Org{q}) {
				if f == ".Data" {
					return strConst(name), true
				}
				return intConst(3), true
			}
		}
		if node != nil && node(o) {
			return strAny("node"), true
		}
		return AVal{}, false
	}
}

// descends: calls and loads that go to the children of a node.
func descends(a *AI, F *Frame, in ssa.Instruction) (VC, bool) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isHTMLNode(fa.X.Type()) {
			switch fieldName(fa.X.Type(), fa.Field) {
			case ".FirstChild", ".LastChild":
				for _, ref := range *x.Referrers() {
					if b, ok := ref.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (isNilConst(b.X) || isNilConst(b.Y)) {
						continue
					}
					if _, ok := ref.(*ssa.DebugRef); ok {
						continue
					}
					return VC{F, fa.X}, true
				}
			}
		}
	case ssa.CallInstruction:
		n := calleeName(x.Common())
		if !strings.HasPrefix(n, domPath+".") && !strings.HasPrefix(n, "("+htmlPath+".Node)") {
			return VC{}, false
		}
		n = n[strings.LastIndexByte(n, '.')+1:]
		switch {
		case strings.HasSuffix(n, "ExcludingOwnChild"), strings.HasPrefix(n, "Name"), strings.HasPrefix(n, "NodeName"), strings.HasPrefix(n, "GetAttribute"), strings.HasPrefix(n, "HasClass"), strings.HasPrefix(n, "HasID"),
			strings.HasPrefix(n, "Remove"), strings.HasPrefix(n, "PrevSibling"), strings.HasPrefix(n, "NextSibling"), strings.HasPrefix(n, "AppendChild"), strings.HasPrefix(n, "InsertBefore"), strings.HasPrefix(n, "Collect"):
			return VC{}, false
		}
		if len(x.Common().Args) > 0 && isHTMLNode(x.Common().Args[0].Type()) {
			return VC{F, x.Common().Args[0]}, true
		}
	}
	return VC{}, false
}

// goesDeep: a library function that returns nodes of all levels.
func goesDeep(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := calleeName(c.Common())
	n = n[strings.LastIndexByte(n, '.')+1:]
	switch n {
	case "FirstChildNode", "FirstChildElement", "AllChildNodes", "AllChildElements", "GetNextNeighborNode", "GetNextNeighborElement":
		return false
	}
	return true
}

func checkC30(P *Prog, r *Result) {
	r.Rule("left-alone", "a step before rendering that changes, adds or removes text does not do so inside of preformatted elements", 3)
	r.Rule("step", "every step before rendering is looked at", 2)
	hs := handlersOf(P, "PreRenderer", func(a *AI) {})
	for _, h := range hs {
		a := h.a
		root := h.Fn
		a.setHook(nil)
		// the places
		sites := map[ssa.Instruction]textSite{}
		frs := 0
		a.eachFrame(root, func(F *Frame) {
			frs++
			for _, s := range textSites(a, F) {
				sites[s.in] = s
			}
		})
		doc := paramOf(root.Fn, isHTMLNode)
		if doc == nil {
			continue
		}
		isRoot := func(o Org) bool { return o.F == root && o.V == ssa.Value(doc) && o.Path == "" }
		// removals of elements only are not counted
		if len(sites) > 0 {
			a.setHook(func(a *AI, o Org) (AVal, bool) {
				if strings.HasSuffix(cleanPath(o.Path), ".Type") {
					return intConst(3), true
				}
				return AVal{}, false
			})
			elem := liveSites(a, root)
			a.setHook(nil)
			for in, s := range sites {
				if s.what == removesText && elem[in] {
					delete(sites, in)
				}
			}
		}
		r.OK("step", h.key(), P.ipos(h.Site), "%d functions, %d places that change text", frs, len(sites))
		if len(sites) == 0 {
			continue
		}
		why := map[ssa.Instruction]string{}
		for _, name := range preformatted {
			left := map[ssa.Instruction]bool{}
			for in := range sites {
				left[in] = true
			}
			// (A) not done for nodes below such an element: the parent, or something above the parent
			parent := func(o Org) bool { return viaParent(o) }
			above := func(a *AI, os []Org) bool {
				if !allOrgs(os, viaParent) {
					return false
				}
				for _, o := range os {
					if _, isPhi := o.V.(*ssa.Phi); isPhi || o.Path == "" || strings.HasSuffix(cleanPath(o.Path), ".Parent.Parent") {
						return true
					}
				}
				return false
			}
			a.setHook(nameHook(name, func(a *AI, os []Org) bool { return allOrgs(os, viaParent) }, parent))
			live := liveSites(a, root)
			higher := nameHook(name, above, parent)
			other := nameHook("div", func(a *AI, os []Org) bool { return allOrgs(os, viaParent) && !above(a, os) }, nil)
			a.setHook(func(a *AI, o Org) (AVal, bool) {
				if v, ok := higher(a, o); ok {
					return v, ok
				}
				return other(a, o)
			})
			for in := range liveSites(a, root) {
				live[in] = true
			}
			for in := range left {
				if !live[in] {
					delete(left, in)
				}
			}
			// (B) the walk does not go below such an element
			if len(left) > 0 {
				a.setHook(nil)
				for _, w := range findWalkers(a, root) {
					n := VC{w.F, w.p}
					var in []ssa.Instruction
					below := liveSites(a, w.F)
					for s := range left {
						if below[s] {
							in = append(in, s)
						}
					}
					if len(in) == 0 {
						continue
					}
					leaf := a.Leaf
					a.Leaf = &n
					a.setHook(nameHook(name, func(a *AI, os []Org) bool {
						return allOrgs(os, func(o Org) bool { return o.VC == n && o.Path == "" })
					}, nil))
					rec := false
					bad := map[ssa.Instruction]bool{}
					a.eachFrame(w.F, func(F *Frame) {
						fi := a.feasible(F)
						for _, b := range F.Fn.Blocks {
							if !fi.live[b.Index] {
								continue
							}
							for _, in := range b.Instrs {
								if c, ok := in.(ssa.CallInstruction); ok && a.enters(F, c, w.F.Fn) {
									rec = true
								}
								if s, ok := sites[in]; ok && s.node != nil {
									for _, o := range a.values(VC{F, s.node}) {
										p := cleanPath(o.Path)
										if strings.Contains(p, ".FirstChild") || strings.Contains(p, ".LastChild") {
											bad[in] = true
										}
									}
								}
							}
						}
					})
					a.Leaf = leaf
					a.setHook(nil)
					if rec {
						continue
					}
					for _, s := range in {
						if !bad[s] {
							delete(left, s)
						}
					}
				}
			}
			// (C) the loop over the nodes does not go below such an element
			if len(left) > 0 {
				a.setHook(nil)
				for _, F := range walkFrames(a, root, left) {
					below := liveSites(a, F)
					a.setHook(nameHook(name, func(a *AI, os []Org) bool {
						for _, o := range os {
							if !isRoot(o) {
								return true
							}
						}
						return false
					}, nil))
					goes := false
					a.eachFrame(F, func(G *Frame) {
						fi := a.feasible(G)
						for _, b := range G.Fn.Blocks {
							if !fi.live[b.Index] {
								continue
							}
							for _, in := range b.Instrs {
								if v, ok := descends(a, G, in); ok && (goesDeep(in) || !allOrgs(a.values(v), isRoot)) {
									goes = true
									r.Note("%s: goes on below at %s", name, P.ipos(in))
								}
							}
						}
					})
					a.setHook(nil)
					if goes {
						continue
					}
					for s := range left {
						if below[s] {
							delete(left, s)
						}
					}
				}
			}
			for in := range left {
				why[in] = orElse(why[in], name)
			}
		}
		var ins []ssa.Instruction
		for in := range sites {
			ins = append(ins, in)
		}
		sort.Slice(ins, func(i, j int) bool { return P.ipos(ins[i]) < P.ipos(ins[j]) })
		for _, in := range ins {
			s := sites[in]
			r.Check(why[in] == "", "left-alone", s.what+" in "+fkey(in.Parent()), P.ipos(in), "%s",
				orElse(map[bool]string{true: "the step " + s.what + " inside of " + why[in] + " elements too"}[why[in] != ""], "not inside of preformatted elements"))
		}
		r.Count("steps", 1)
		r.Count("places that change text", len(sites))
	}
}

// walkFrames: the frames on the way to the places, the innermost first.
func walkFrames(a *AI, root *Frame, sites map[ssa.Instruction]bool) []*Frame {
	var out []*Frame
	have := map[*Frame]bool{}
	a.eachFrame(root, func(F *Frame) {
		has := false
		instrs(F.Fn, func(in ssa.Instruction) {
			if sites[in] {
				has = true
			}
		})
		if !has {
			return
		}
		for x := F; x != nil; x = x.Up {
			if !have[x] {
				have[x] = true
				out = append(out, x)
			}
			if x == root {
				break
			}
		}
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].depth > out[j].depth })
	return out
}
