package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func debugCmd(P *Prog, cmd string, args []string) {
	switch cmd {
	case "ssa":
		for _, f := range P.Funcs {
			if strings.Contains(fkey(f), args[0]) {
				f.WriteTo(os.Stdout)
			}
		}
	case "trace":
		debugTrace(P, args[0])
	case "cfg":
		a := newAI(P)
		sc := &Scen{Cfg: map[string]AVal{args[0]: strConst(args[1])}}
		a.Hook = sc.hook
		init := initOf(P, "commonmark")
		fmt.Println(errOutcome(a, a.Root(init), 0))
		dumpDead(P, a)
	case "funcs":
		for _, f := range P.Funcs {
			fmt.Println(fkey(f), P.pos(f.Pos()))
		}
	case "callees":
		for f := range P.All {
			if strings.Contains(fkey(f), args[0]) {
				n := P.CG.Nodes[f]
				for _, e := range n.Out {
					fmt.Println(fkey(f), "->", fkey(e.Callee.Func))
				}
			}
		}
	case "eval":
		for _, f := range escapers(P, args[0]) {
			a := newAI(P)
			h := handlerCaseT{a, handlerReg{Fn: a.Root(f)}}
			a.Hook = modeHook(P, len(args) > 1 && args[1] == "off", nil)
			fmt.Println(h.result(bsOf("abcdefghijklmnopqrstuvwxyz "), "text"))
			p := textParam(f)
			a.setHook(modeHook(P, len(args) > 1 && args[1] == "off", func(a *AI, o Org) (AVal, bool) {
				if o.Path == "" && o.V == ssa.Value(p) {
					return strBytes(bsOf("abcdefghijklmnopqrstuvwxyz "), lset("text")), true
				}
				return AVal{}, false
			}))
			a.eachFrame(h.Fn, func(G *Frame) {
				fmt.Println("==", fkey(G.Fn))
				instrs(G.Fn, func(in ssa.Instruction) {
					if v, ok := in.(ssa.Value); ok {
						fmt.Println("  ", v.Name(), "=", v, "|", a.Eval(VC{G, v}))
						if u, ok := v.(*ssa.UnOp); ok && len(args) > 1 {
							for _, o := range a.values(VC{G, u}) {
								fmt.Println("        ", descr(o), o.Path, o.V)
							}
						}
					}
				})
			})
		}
	case "case":
		for _, c := range handlerCases(P, Scen{Name: args[0]}) {
			fmt.Println("==", c.key)
			for _, x := range c.run(sepMachine{}) {
				fmt.Println("exit", x.Q, x.Ret, P.pos(x.Pos))
			}
			for _, f := range c.a.frames {
				fi := c.a.feas[f]
				if fi == nil || len(fi.dead) == 0 {
					continue
				}
				var ks []string
				for k := range fi.dead {
					b := f.Fn.Blocks[k[0]]
					if fi.live[k[0]] {
						cnd := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond
						ks = append(ks, fmt.Sprintf("%d->%d %s (%s)", k[0], k[1], P.pos(cnd.Pos()), cnd))
					}
				}
				sort.Strings(ks)
				fmt.Println(" ", fkey(f.Fn), ks)
			}
		}
	}
}

// dumpDead prints the branches that an interpreter found infeasible (development aid).
func dumpDead(P *Prog, a *AI) {
	for _, f := range a.frames {
		fi := a.feas[f]
		if fi == nil || len(fi.dead) == 0 {
			continue
		}
		var ks []string
		for k := range fi.dead {
			b := f.Fn.Blocks[k[0]]
			if fi.live[k[0]] {
				if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					ks = append(ks, fmt.Sprintf("%d->%d %s (%s)", k[0], k[1], P.pos(ifi.Cond.Pos()), ifi.Cond))
				}
			}
		}
		sort.Strings(ks)
		fmt.Println(" ", fkey(f.Fn), ks)
	}
}

// traceMachine collects outputs (development aid).
type traceMachine struct{ m *tmplMachine }

func (traceMachine) Start() string { return "" }
func (t traceMachine) add(q, s string) string {
	if len(q) > 70 {
		return q
	}
	return q + s
}
func (t traceMachine) Text(e *Emit, q, s string) string {
	x := fmt.Sprintf("%q", s)
	return t.add(q, x[1:len(x)-1])
}
func (t traceMachine) Value(e *Emit, q string, vc VC, v AVal) string {
	s := "{" + defaultClass(v) + "}"
	if v.Labels["repeat"] {
		s = "{rep:" + v.bytes().String() + "}"
	}
	if s == "{V}" {
		s = "{V:" + vc.V.String() + " " + v.labelList() + "}"
	}
	return t.add(q, s)
}
func (t traceMachine) Node(e *Emit, q string, k tkKind, vc VC) string {
	return t.add(q, fmt.Sprintf("{node%d}", k))
}
func (traceMachine) Branch(e *Emit, q string, F *Frame, cond ssa.Value, taken bool) string { return q }

func debugTrace(P *Prog, name string) {
	for _, cfg := range []map[string]AVal{nil, {"HeadingStyle": strConst("setext")}} {
		for _, c := range handlerCases(P, Scen{Name: name, Cfg: cfg}) {
			fmt.Println("==", c.key)
			seen := map[string]bool{}
			for _, x := range c.run(traceMachine{}) {
				k := x.Ret + " " + x.Q
				if !seen[k] {
					seen[k] = true
					fmt.Println("   ", k)
				}
			}
		}
	}
}
