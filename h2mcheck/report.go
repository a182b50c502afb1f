package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is one decided instance of a rule.
type Obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

func (o Obligation) Key() string { return o.Rule + "|" + o.Construct }

type Result struct {
	Prop    string
	Obls    []Obligation
	Counts  map[string]int
	Notes   []string
	Rules   map[string]string // rule name -> statement
	Assume  []string
	min     map[string]int
	seenKey map[string]bool
}

func newResult(id string) *Result {
	return &Result{Prop: id, Counts: map[string]int{}, Rules: map[string]string{}, min: map[string]int{}, seenKey: map[string]bool{}}
}

// Rule declares a rule with its statement and the least number of instances it must find.
func (r *Result) Rule(name, statement string, min int) {
	r.Rules[name] = statement
	r.min[name] = min
}

func (r *Result) add(ok bool, rule, construct, pos, format string, a ...any) {
	r.Obls = append(r.Obls, Obligation{Rule: rule, Construct: construct, Pos: pos, OK: ok, Detail: fmt.Sprintf(format, a...)})
}
func (r *Result) OK(rule, construct, pos, format string, a ...any) {
	r.add(true, rule, construct, pos, format, a...)
}
func (r *Result) Bad(rule, construct, pos, format string, a ...any) {
	r.add(false, rule, construct, pos, format, a...)
}
func (r *Result) Check(ok bool, rule, construct, pos, format string, a ...any) {
	r.add(ok, rule, construct, pos, format, a...)
}
func (r *Result) Count(k string, n int) { r.Counts[k] += n }
func (r *Result) Note(format string, a ...any) {
	r.Notes = append(r.Notes, fmt.Sprintf(format, a...))
}

type known struct{ prop, key, desc string }

// knownFindings reads /verif/known_findings.txt: lines "known: property=<id> key=<rule|construct> -- text".
func knownFindings(dir string) []known {
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		head, desc, _ := strings.Cut(l, " -- ")
		var k known
		k.desc = desc
		head = strings.TrimSpace(head)
		if !strings.HasPrefix(head, "property=") {
			continue
		}
		rest := strings.TrimPrefix(head, "property=")
		id, key, ok := strings.Cut(rest, " key=")
		if !ok {
			continue
		}
		k.prop, k.key = strings.TrimSpace(id), strings.TrimSpace(key)
		out = append(out, k)
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("H2M_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// finish prints the verdict, writes evidence and returns the exit status.
func (r *Result) finish(P *Prog, start time.Time, level string, verbose bool) int {
	perRule := map[string]int{}
	okRule := map[string]int{}
	for _, o := range r.Obls {
		perRule[o.Rule]++
		if o.OK {
			okRule[o.Rule]++
		}
	}
	for rule, m := range r.min {
		if perRule[rule] < m {
			r.Bad("instances", rule, "", "rule %q matched %d constructs, at least %d are expected: its anchors were not found", rule, perRule[rule], m)
		}
	}
	sort.SliceStable(r.Obls, func(i, j int) bool {
		if r.Obls[i].Rule != r.Obls[j].Rule {
			return r.Obls[i].Rule < r.Obls[j].Rule
		}
		return r.Obls[i].Construct < r.Obls[j].Construct
	})
	kf := knownFindings(verifDir())
	var viol []Obligation
	knownHit := map[string]bool{}
	for _, o := range r.Obls {
		if o.OK {
			continue
		}
		hit := false
		for _, k := range kf {
			if k.prop == r.Prop && k.key == o.Key() {
				hit = true
				if !knownHit[k.key] {
					knownHit[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", r.Prop, k.desc, o.Key(), o.Pos)
				}
			}
		}
		if !hit {
			viol = append(viol, o)
		}
	}
	var rules []string
	for k := range perRule {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		fmt.Printf("rule %-28s %d/%d instances hold\n", k, okRule[k], perRule[k])
	}
	var ck []string
	for k := range r.Counts {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	for _, k := range ck {
		fmt.Printf("  %s: %d\n", k, r.Counts[k])
	}
	if verbose {
		for _, o := range r.Obls {
			s := "ok "
			if !o.OK {
				s = "BAD"
			}
			fmt.Printf("  %s %s %s %s: %s\n", s, o.Rule, o.Pos, o.Construct, o.Detail)
		}
		for _, n := range r.Notes {
			fmt.Println("  note:", n)
		}
	}
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	discharged := 0
	for _, o := range r.Obls {
		if o.OK {
			discharged++
		}
	}
	samples := []any{}
	perSample := map[string]int{}
	for _, o := range r.Obls {
		if perSample[o.Rule] < 6 || !o.OK {
			perSample[o.Rule]++
			samples = append(samples, o)
		}
	}
	ruleText := []string{}
	for _, k := range rules {
		if s := r.Rules[k]; s != "" {
			ruleText = append(ruleText, k+": "+s)
		}
	}
	cov := map[string]any{
		"explanation":         "Static analysis of the current source of " + repoDir() + ": obligations are generated from the type-checked program (go/ssa and a VTA call graph) and each is decided from the source without running it. Rules: " + strings.Join(ruleText, " || "),
		"obligations":         len(r.Obls),
		"discharged":          discharged,
		"instances_per_rule":  perRule,
		"counts":              r.Counts,
		"samples":             samples,
		"functions_in_repo":   len(P.Funcs),
		"packages_loaded":     len(P.Pkgs),
		"notes":               r.Notes,
		"known_findings_hit":  len(knownHit),
		"call_graph_nodes":    len(P.CG.Nodes),
		"deciding_rule_texts": r.Rules,
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": r.Prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(edir, r.Prop+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(edir, r.Prop+".violation.txt")
	if len(viol) > 0 {
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "property %s\nrule      %s\n          %s\nconstruct %s\nat        %s\nreason    %s\n\n", r.Prop, o.Rule, r.Rules[o.Rule], o.Construct, o.Pos, o.Detail)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for _, o := range viol {
			fmt.Printf("FINDING %s %s [%s] %s: %s\n", r.Prop, o.Pos, o.Rule, o.Construct, o.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
		return 1
	}
	os.Remove(rp)
	fmt.Printf("property %s holds on %d obligations (%.1fs)\n", r.Prop, len(r.Obls), time.Since(start).Seconds())
	return 0
}
