package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29: each element is rendered as its documented construct ----

// optionField: the configuration field that an exported option function sets.
func optionField(P *Prog, pkg, fn string) string {
	for _, f := range P.Funcs {
		if fnPkgPath(f) != modPath+"/plugin/"+pkg || f.Parent() != nil || f.Name() != fn || f.Signature.Recv() != nil {
			continue
		}
		a := newAI(P)
		m := map[string]bool{}
		for _, F := range optionFrames(a, f) {
			eachFieldStore(a, F, func(_ *Frame, _ *ssa.Store, field string) { m[field] = true })
		}
		var l []string
		for k := range m {
			l = append(l, k)
		}
		if len(l) == 1 {
			return l[0]
		}
		return ""
	}
	return ""
}

// constField: the field of the configuration whose type has a constant of this value.
func constField(P *Prog, pkg, val string) string {
	p := P.Pkg("plugin/" + pkg)
	if p == nil {
		return ""
	}
	var typ types.Type
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String && constant.StringVal(c.Val()) == val {
			if _, ok := c.Type().(*types.Named); ok {
				typ = c.Type()
			}
		}
	}
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && typ != nil {
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if types.Identical(st.Field(i).Type(), typ) {
						return st.Field(i).Name()
					}
				}
			}
		}
	}
	return ""
}

// cfgOf builds the configuration of a scenario from "option=value" settings.
func cfgOf(P *Prog, fields map[string]string, set string) (map[string]AVal, error) {
	cfg := map[string]AVal{}
	for _, kv := range strings.Split(set, ",") {
		if kv == "" {
			continue
		}
		o, v, _ := strings.Cut(kv, "=")
		if i := strings.Index(kv, ":"); i >= 0 {
			v = kv[i+1:] // the field whose type has this value
		}
		f, ok := fields[o]
		if !ok {
			pkg, fn, _ := strings.Cut(o, ".")
			if strings.HasPrefix(fn, ":") {
				f = constField(P, pkg, v)
			} else {
				f = optionField(P, pkg, fn)
			}
			fields[o] = f
		}
		if f == "" {
			return nil, fmt.Errorf("the field that %s sets was not found", o)
		}
		cfg[f] = strConst(v)
	}
	return cfg, nil
}

type construct struct {
	names string
	cfg   string
	tmpl  string
	some  string // some successful path matches this
	pass  bool   // handlers may decline the element
}

func constructs() []construct {
	var out []construct
	const cm = "commonmark."
	for i := 1; i <= 6; i++ {
		atx := fmt.Sprintf(`(\n\n#{%d} .*{K}.*\n\n)?`, i)
		some := fmt.Sprintf(`\n\n#{%d} .*{K}.*\n\n`, i)
		n := fmt.Sprintf("h%d", i)
		out = append(out, construct{names: n, cfg: cm + "WithHeadingStyle=atx", tmpl: atx, some: some})
		if i < 3 {
			u := "="
			if i == 2 {
				u = "-"
			}
			t := `\n\n.*\n` + u + `+{+}?\n\n`
			// a heading without any text can be left out
			out = append(out, construct{names: n, cfg: cm + "WithHeadingStyle=setext", tmpl: `(` + t + `)?`, some: t})
		} else {
			out = append(out, construct{names: n, cfg: cm + "WithHeadingStyle=setext", tmpl: atx, some: some})
		}
	}
	paired := func(d string) string {
		return `({S}|{W}|\s|` + d + `({K}|{S}|{N}|{W}| )+` + d + `)*`
	}
	with := func(d string) string { return `.*` + d + `.*({K}|{S}).*` + d + `.*` }
	for _, c := range [][2]string{{"**", `\*\*`}, {"__", `__`}} {
		em := "_"
		if c[0] == "__" {
			em = "*"
		}
		out = append(out, construct{names: "strong b", cfg: cm + "WithStrongDelimiter=" + c[0] + "," + cm + "WithEmDelimiter=" + em, tmpl: paired(c[1]), some: with(c[1])})
	}
	for _, c := range [][2]string{{"*", `\*`}, {"_", `_`}} {
		st := "**"
		if c[0] == "*" {
			st = "__"
		}
		out = append(out, construct{names: "em i", cfg: cm + "WithEmDelimiter=" + c[0] + "," + cm + "WithStrongDelimiter=" + st, tmpl: paired(c[1]), some: with(c[1])})
	}
	out = append(out,
		construct{names: "del s strike", cfg: "strikethrough.WithDelimiter=~~", tmpl: paired(`~~`), some: with(`~~`)},
		construct{names: "code var samp kbd tt", tmpl: "(`+{+}?.*`+{+}?)?", some: "`+{+}?.*{N}.*`+{+}?"},
		construct{names: "pre", cfg: cm + "WithCodeBlockFence=```", tmpl: "\\n\\n`+{+}?({I}|{N})?\\n.*\\n`+{+}?\\n\\n", some: "\\n\\n`+{+}?({I}|{N})?\\n.*{N}.*\\n`+{+}?\\n\\n"},
		construct{names: "pre", cfg: cm + "WithCodeBlockFence=~~~", tmpl: "\\n\\n~+{+}?({I}|{N})?\\n.*\\n~+{+}?\\n\\n", some: "\\n\\n~+{+}?({I}|{N})?\\n.*{N}.*\\n~+{+}?\\n\\n"},
		construct{names: "hr", cfg: cm + "WithHorizontalRule=* * *", tmpl: `\n\n\* \* \*\n\n`},
		construct{names: "hr", cfg: cm + "WithHorizontalRule=---", tmpl: `\n\n---\n\n`},
		construct{names: "br", tmpl: `(   *|\\)\n`},
		construct{names: "blockquote", tmpl: `(\n\n.*{K}.*\n\n)?`, some: `\n\n.*{K}.*\n\n`},
		construct{names: "ul", cfg: cm + "WithBulletListMarker=-", tmpl: `(\n\n(- .*)?\n\n)?`, some: `\n\n- .*\n\n`},
		construct{names: "ul", cfg: cm + "WithBulletListMarker=+", tmpl: `(\n\n(\+ .*)?\n\n)?`, some: `\n\n\+ .*\n\n`},
		construct{names: "ol", cfg: cm + "WithBulletListMarker=-", tmpl: `(\n\n({n}\. .*)?\n\n)?`, some: `\n\n{n}\. .*\n\n`},
		construct{names: "a", cfg: cm + "WithLinkEmptyHrefBehavior=render," + cm + "WithLinkEmptyContentBehavior=render,commonmark.:inlined", tmpl: `({K}|{W}|\s)*\[.*\]\({U}?( .*)?\)({K}|{W}|\s)*`, some: `.*\[.*{K}.*\]\({U}\).*`},
		construct{names: "a", cfg: cm + "WithLinkEmptyHrefBehavior=render," + cm + "WithLinkEmptyContentBehavior=render,commonmark.:inlined", tmpl: `.*`, some: `.*\[.*{K}.*\]\({U} .*{T}.*\).*`},
		construct{names: "img", tmpl: `!\[.*\]\({U}( .*)?\)`, some: `!\[.*{A}.*\]\({U}\)`, pass: true},
		construct{names: "img", tmpl: `!\[.*\]\({U}( .*)?\)`, some: `!\[.*{A}.*\]\({U} .*{T}.*\)`, pass: true},
		construct{names: "table", tmpl: `(\n\n(.*\|)?\n[-:|{+}]*\n.*\n\n)?`, some: `\n\n\|.*\|\n\|[-:|{+}]*-[-:|{+}]*\|\n\|.*\|\n.*\n\n`, pass: true},
	)
	return out
}

// elements for which there is no construct: their children are rendered as they are.
var plainElements = []string{"section", "div", "p", "span", "article", "u", "ins", "sub", "sup", "q", "small", "mark", "abbr", "font", "label", "button", "details", "summary", "figure", "figcaption", "dl", "dt", "dd", "nav", "header", "footer", "main", "aside", "center", "x-custom", "h", "h0", "h7", "hgroup", "address", "video", "svg"}

func init() {
	register("C29", func(P *Prog, r *Result) {
		succ, try := renderStatus(P)
		r.Rule("construct", "on every path on which a renderer accepts the element, what it wrote has the form of the documented construct", 38)
		r.Rule("written", "on some path the complete construct with its content is written", 34)
		r.Rule("accepted", "some render handler accepts the element on every path", 20)
		r.Rule("plain", "no render handler accepts an element for which no construct is documented", 20)
		fields := map[string]string{}
		for _, k := range constructs() {
			cfg, err := cfgOf(P, fields, k.cfg)
			for _, n := range strings.Fields(k.names) {
				key := n
				if k.cfg != "" {
					key += " with " + strings.ReplaceAll(k.cfg, "commonmark.", "")
				}
				if err != nil {
					r.Bad("construct", key, "", "%v", err)
					continue
				}
				full, some := newTmpl(k.tmpl), (*tmpl)(nil)
				if k.some != "" {
					some = newTmpl(k.some)
				}
				written, always := some == nil, false
				accepts := 0
				pos := ""
				for _, c := range handlerCases(P, Scen{Name: n, Cfg: cfg}) {
					m := &tmplMachine{t: full}
					if strings.Contains(k.tmpl, "{S}") {
						m.space, m.class = true, partClass
					}
					exits := c.run(m)
					nSucc, nDecl := 0, 0
					bad := map[string]bool{}
					for _, x := range exits {
						if x.Ret == try {
							nDecl++
							continue
						}
						nSucc++
						if !full.match(x.Q) {
							why := "the output ends too early"
							if strings.HasPrefix(x.Q, "!") {
								why = "unexpected " + x.Q[1:]
							}
							bad[fmt.Sprintf("%s (returns at %s)", why, P.pos(x.Pos))] = true
						}
					}
					if nSucc == 0 {
						continue
					}
					accepts++
					pos = P.pos(c.F.Fn.Pos())
					r.Count("successful exits", nSucc)
					if nDecl == 0 {
						always = true
					}
					if len(bad) == 0 {
						r.OK("construct", key+" by "+c.key, pos, "%d successful exits have the form %s", nSucc, k.tmpl)
					} else {
						var l []string
						for s := range bad {
							l = append(l, s)
						}
						sort.Strings(l)
						if len(l) > 3 {
							l = l[:3]
						}
						r.Bad("construct", key+" by "+c.key, pos, "the output does not have the form %s: %s", k.tmpl, strings.Join(l, "; "))
					}
					if some != nil {
						for _, x := range c.run(&tmplMachine{t: some, class: m.class}) {
							if x.Ret != try && some.match(x.Q) {
								written = true
							}
						}
					}
				}
				if some != nil {
					r.Check(written, "written", key, pos, "a path writes %s", k.some)
				}
				r.Check(accepts > 0 && (always || k.pass), "accepted", key, pos, "the element is accepted by %d handlers, by one of them on every path: %v", accepts, always)
			}
		}
		for _, n := range plainElements {
			bad := ""
			for _, c := range handlerCases(P, Scen{Name: n}) {
				for _, x := range c.run(wroteMachine{}) {
					if x.Ret == succ || x.Ret == "?" && x.Q == "1" {
						bad = fmt.Sprintf("the renderer of %s accepts the element (returns at %s)", c.key, P.pos(x.Pos))
					}
				}
			}
			if bad != "" {
				r.Bad("plain", n, "", "%s", bad)
			} else {
				r.OK("plain", n, "", "declined by all render handlers")
			}
		}
	})
}
