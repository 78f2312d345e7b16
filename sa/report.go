package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check is one run of the check of one property.
type Check struct {
	id      string
	p       *Program
	tier    string
	m       *Machine
	viols   map[string]*Viol
	order   []string
	obl     map[string]map[string]int // rule -> construct -> times met
	rules   map[string]string         // rule -> what it demands
	needs   []need
	fns     map[*ssa.Function]bool
	entries map[string]int
	outs    int
	steps   int
	calls   int
	coarse  int
	undec   []string
	samples []string
	known   map[string]string // "rule|construct" -> text
	hit     map[string]bool
	notes   []string
}

type Viol struct {
	rule, construct, pos, detail string
	path                         []string
	count                        int
}

type need struct {
	rule string
	n    int
}

func newCheck(id string, p *Program, tier string) *Check {
	return &Check{id: id, p: p, tier: tier, viols: map[string]*Viol{}, obl: map[string]map[string]int{}, rules: map[string]string{},
		fns: map[*ssa.Function]bool{}, entries: map[string]int{}, known: map[string]string{}, hit: map[string]bool{}}
}

// rule declares a rule and the least number of constructs it must be met at.
func (c *Check) rule(name string, min int, demand string) {
	c.rules[name] = demand
	c.needs = append(c.needs, need{name, min})
	if c.obl[name] == nil {
		c.obl[name] = map[string]int{}
	}
}

func (c *Check) muted() bool { return c.m != nil && c.m.quiet > 0 }

// ok records that a rule was met at a construct.
func (c *Check) ok(rule, construct string) {
	if c.muted() {
		return
	}
	c.count(rule, construct)
}

func (c *Check) count(rule, construct string) {
	if c.obl[rule] == nil {
		c.obl[rule] = map[string]int{}
	}
	c.obl[rule][construct]++
	if len(c.samples) < 12 && c.obl[rule][construct] == 1 {
		c.samples = append(c.samples, rule+": "+construct)
	}
}

// bad reports that a rule is broken at a construct.
func (c *Check) bad(st *State, rule, construct, pos, format string, a ...interface{}) {
	if c.muted() {
		return
	}
	c.count(rule, construct)
	k := rule + "|" + construct
	if v := c.viols[k]; v != nil {
		v.count++
		return
	}
	v := &Viol{rule: rule, construct: construct, pos: pos, detail: fmt.Sprintf(format, a...), count: 1}
	if st != nil {
		v.path = st.path()
	}
	c.viols[k] = v
	c.order = append(c.order, k)
}

// check records the outcome of one obligation.
func (c *Check) check(good bool, st *State, rule, construct, pos, format string, a ...interface{}) bool {
	if good {
		c.ok(rule, construct)
	} else {
		c.bad(st, rule, construct, pos, format, a...)
	}
	return good
}

func (c *Check) undecided(f string, a ...interface{}) {
	c.undec = append(c.undec, fmt.Sprintf(f, a...))
}

// fn finds an anchor; a missing one is an error of the analysis.
func (c *Check) fn(pkg, name string) *ssa.Function {
	path := modulePath
	if pkg != "" {
		path += "/" + pkg
	}
	f := c.p.lookup(path, name)
	if f == nil {
		c.undecided("anchor %s.%s not found", path, name)
	}
	return f
}

// run interprets an entry point from arbitrary arguments.
func (c *Check) run(f *ssa.Function, h *Hooks) []Outcome {
	return c.runFrom(f, h, nil, nil)
}

func (c *Check) runFrom(f *ssa.Function, h *Hooks, args []*Term, st *State) []Outcome {
	if f == nil {
		return nil
	}
	if h == nil {
		h = &Hooks{}
	}
	m := newMachine(c.p, h)
	if c.tier == "thorough" {
		m.softStates, m.maxStates = 24000, 80000
	}
	c.m = m
	if args == nil {
		args = m.Params(f)
	}
	if st == nil {
		st = c.p.entryState()
	}
	outs := m.exec(f, args, nil, st)
	c.m = nil
	for g := range m.funcs {
		c.fns[g] = true
	}
	c.entries[shortName(f.String())] += len(outs)
	c.outs += len(outs)
	c.steps += m.steps
	c.calls += m.calls
	c.coarse += m.coarse
	for _, u := range m.undecided {
		c.undecided("%s: %s", f.Name(), u)
	}
	if len(outs) == 0 {
		c.undecided("%s: no path reaches the end", f)
	}
	return outs
}

// ret is a way out of an entry point.
type ret struct {
	st  *State
	res []*Term
}

// split separates the returns with a nil error from those with an error.
func (c *Check) split(outs []Outcome) (good, fail []ret) {
	for _, o := range outs {
		if o.panics {
			continue
		}
		n := len(o.res)
		if n == 0 {
			good = append(good, ret{o.st, o.res})
			continue
		}
		e := tEq(o.res[n-1], tNil)
		if v, ok := o.st.decide(e); ok {
			if v {
				good = append(good, ret{o.st, o.res})
			} else {
				fail = append(fail, ret{o.st, o.res})
			}
			continue
		}
		t := o.st.clone()
		if t.learn(e, true) {
			good = append(good, ret{t, o.res})
		}
		if o.st.learn(e, false) {
			fail = append(fail, ret{o.st, o.res})
		}
	}
	return
}

// returns lists the ordinary ways out.
func (c *Check) returns(outs []Outcome) (l []ret) {
	for _, o := range outs {
		if !o.panics {
			l = append(l, ret{o.st, o.res})
		}
	}
	return
}

// ---- the end of a check

func (c *Check) finish(t0 time.Time, verif string) int {
	for _, n := range c.needs {
		if len(c.obl[n.rule]) < n.n {
			c.undecided("rule %q was met at %d constructs, fewer than the %d confirmed", n.rule, len(c.obl[n.rule]), n.n)
		}
	}
	seen := map[string]bool{}
	for _, u := range c.undec {
		if seen[u] {
			continue
		}
		seen[u] = true
		k := "undecided|" + u
		if c.viols[k] == nil {
			c.viols[k] = &Viol{rule: "undecided", construct: u, pos: "?", detail: "the analysis cannot decide this: " + u, count: 1}
			c.order = append(c.order, k)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	var bad []*Viol
	for _, k := range c.order {
		v := c.viols[k]
		if t, ok := c.known[k]; ok {
			if !c.hit[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, t)
			}
			c.hit[k] = true
			continue
		}
		bad = append(bad, v)
	}
	obl, inst := 0, 0
	perRule := map[string]interface{}{}
	var rules []string
	for r := range c.obl {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		n := 0
		for _, k := range c.obl[r] {
			n += k
		}
		obl += len(c.obl[r])
		inst += n
		perRule[r] = map[string]interface{}{"constructs": len(c.obl[r]), "instances_on_paths": n, "demand": c.rules[r]}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, shortName(f.String()))
	}
	sort.Strings(fns)
	discharged := obl
	for _, k := range c.order {
		v := c.viols[k]
		if v.rule != "undecided" {
			discharged--
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.id,
		"tier":     c.tier,
		"seed":     seed,
		"level":    "other",
		"wall_s":   time.Since(t0).Seconds(),
		"assumptions": []string{
			"the contracts of the standard library and of third-party packages in sa/models.go",
			"package variables that no function of the module changes keep their initial value",
		},
		"violations": len(bad),
		"coverage": map[string]interface{}{
			"explanation":        "abstract interpretation of the SSA form of /repo's current source: every path of the listed entry points, with all calls into the module inlined, all inputs symbolic and loops run to a fixpoint; each rule is an obligation at a construct (function, call site, store or return)",
			"rules":              perRule,
			"obligations":        obl,
			"discharged":         discharged,
			"instances_on_paths": inst,
			"entry_points":       c.entries,
			"functions":          fns,
			"functions_analysed": len(fns),
			"abstract_paths":     c.outs,
			"instructions":       c.steps,
			"calls":              c.calls,
			"coarse_joins":       c.coarse,
			"samples":            c.samples,
			"notes":              c.notes,
			"known_findings":     len(c.hit),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 1
	}
	fmt.Printf("%s: %d obligations (%d instances) in %d functions, %d paths, %.1fs\n", c.id, obl, inst, len(fns), c.outs, time.Since(t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].rule != "undecided" && bad[j].rule == "undecided" })
	for i, v := range bad {
		name := filepath.Join("evidence", fmt.Sprintf("%s.violation%d.txt", c.id, i+1))
		var t strings.Builder
		fmt.Fprintf(&t, "property:  %s\nrule:      %s (%s)\nconstruct: %s\nat:        %s\nwhat:      %s\n", c.id, v.rule, c.rules[v.rule], v.construct, v.pos, v.detail)
		if len(v.path) > 0 {
			fmt.Fprintf(&t, "path:\n")
			for _, l := range v.path {
				fmt.Fprintf(&t, "  %s\n", l)
			}
		}
		os.WriteFile(filepath.Join(verif, name), []byte(t.String()), 0644)
		fmt.Printf("  [%s] %s at %s: %s\n", v.rule, v.construct, v.pos, cut(v.detail, 300))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, filepath.Join(verif, name))
		if i >= 19 {
			fmt.Printf("  (and %d more)\n", len(bad)-i-1)
			break
		}
	}
	return 1
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// loadKnown reads the known findings of this property.
func (c *Check) loadKnown(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+c.id+" ") {
			continue
		}
		// finding: property=ID key=<rule|construct> :: text
		rest := strings.TrimPrefix(l, "finding: property="+c.id+" key=")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		c.known[rest[:i]] = rest[i+4:]
	}
}
