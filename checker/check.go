package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what is decided
	Min  int    // floor of obligations confirmed by hand
	Run  func(*Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx collects the obligations of one run.
type Ctx struct {
	P       *Prog
	C       *Check
	Tier    string
	obls    []obl
	viols   []viol
	fns     map[string]bool
	entries []string
	steps   int
	classes int
	seenV   map[string]bool
}

type obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
}

type viol struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	Message   string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

// Key identifies a violation for the known-findings file.
func (v viol) Key() string { return v.Rule + " @ " + v.Construct }

func (c *Ctx) ob(rule, construct string, ok bool, pos token.Pos, path []string, format string, a ...interface{}) bool {
	c.obls = append(c.obls, obl{rule, construct, ok})
	if !ok {
		v := viol{Rule: rule, Construct: construct, Where: posOf(c.P, pos), Message: fmt.Sprintf(format, a...), Path: path}
		if k := v.Key() + v.Message; !c.seenV[k] {
			c.seenV[k] = true
			c.viols = append(c.viols, v)
		}
	}
	return ok
}

// anchor failures end the check: nothing can be concluded.
type anchorLost struct{ msg string }

func (c *Ctx) lost(format string, a ...interface{}) { panic(anchorLost{fmt.Sprintf(format, a...)}) }

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.lost("anchor not found: %s of package %q", name, pkg)
	}
	return f
}

// impl finds the method of the only type of pkg that implements the interface.
func (c *Ctx) impl(pkg, iface, m string) *ssa.Function {
	f, err := c.P.ImplMethod(pkg, iface, m)
	if err != nil {
		c.lost("%v", err)
	}
	if f == nil || len(f.Blocks) == 0 {
		c.lost("no body of %s.%s.%s", pkg, iface, m)
	}
	return f
}

// run analyses f and returns its exit classes.
func (c *Ctx) run(f *ssa.Function, opaque ...*ssa.Function) []*Exit {
	e := c.P.NewEngine()
	op := map[*ssa.Function]bool{}
	for _, o := range opaque {
		op[o] = true
	}
	if len(op) > 0 {
		e.Opaque = func(g *ssa.Function) bool { return op[g] && g != f }
	}
	ex, err := e.Run(f, nil)
	c.account(e, f, ex)
	if err != nil {
		c.lost("%s: %v", shortFn(f.String()), err)
	}
	return ex
}

func (c *Ctx) account(e *Engine, f *ssa.Function, ex []*Exit) {
	c.entries = append(c.entries, shortFn(f.String()))
	c.steps += e.Steps
	c.classes += len(ex)
	for g := range e.Inlined {
		c.fns[shortFn(g.String())] = true
	}
}

// ---- reading exits ---------------------------------------------------------------

var textIdx map[string][]*Term
var textN int

func termsByText(s string) []*Term {
	if textIdx == nil {
		textIdx = map[string][]*Term{}
	}
	for ; textN < len(termList); textN++ {
		t := termList[textN]
		if isBoolT(t.Typ) || t.Op == "eq" || t.Op == "lt" || t.Op == "tlt" || t.Op == "empty" || t.Op == "has" {
			textIdx[t.String()] = append(textIdx[t.String()], t)
		}
	}
	return textIdx[s]
}

// holds reports whether a literal ("atom" or "!atom", canonical text) is known in the state.
func (s *State) holds(lit string) bool {
	want := 1
	if strings.HasPrefix(lit, "!") {
		lit, want = lit[1:], 0
	}
	if strings.HasPrefix(lit, "(nil == ") {
		for _, f := range s.facts {
			if f.A.String() == lit && f.V == (want == 1) {
				return true
			}
		}
	}
	for _, t := range termsByText(lit) {
		if s.decide(t) == want {
			return true
		}
	}
	return false
}

func (s *State) all(lits ...string) bool {
	for _, l := range lits {
		if !s.holds(l) {
			return false
		}
	}
	return true
}

func (s *State) any(lits ...string) bool {
	for _, l := range lits {
		if s.holds(l) {
			return true
		}
	}
	return false
}

// some finds a fact whose text (with "!" when false) matches.
func (s *State) some(re string) bool {
	r := rx(re)
	for _, f := range s.facts {
		if r.MatchString(f.String()) {
			return true
		}
	}
	return false
}

var rxs = map[string]*regexp.Regexp{}

func rx(s string) *regexp.Regexp {
	if r, ok := rxs[s]; ok {
		return r
	}
	r := regexp.MustCompile(s)
	rxs[s] = r
	return r
}

// splitNil makes the nil-ness of result i definite in every exit.
func splitNil(exits []*Exit, i int) (ok, bad []*Exit) {
	for _, x := range exits {
		if x.Panic || i >= len(x.Res) {
			continue
		}
		switch x.St.decideNil(x.Res[i]) {
		case 1:
			ok = append(ok, x)
		case 0:
			bad = append(bad, x)
		default:
			for _, v := range []bool{true, false} {
				n := *x
				n.St = x.St.clone()
				if !n.St.assume(nilAtom(x.Res[i]), v) {
					continue
				}
				if v {
					ok = append(ok, &n)
				} else {
					bad = append(bad, &n)
				}
			}
		}
	}
	return
}

// splitBoolRes makes boolean result i definite.
func splitBoolRes(exits []*Exit, i int) (t, f []*Exit) {
	for _, x := range exits {
		if x.Panic || i >= len(x.Res) {
			continue
		}
		e := &Engine{}
		ts, fs := e.split(x.St.clone(), x.Res[i])
		for _, s := range ts {
			n := *x
			n.St = s
			t = append(t, &n)
		}
		for _, s := range fs {
			n := *x
			n.St = s
			f = append(f, &n)
		}
	}
	return
}

func panics(exits []*Exit) (out []*Exit) {
	for _, x := range exits {
		if x.Panic {
			out = append(out, x)
		}
	}
	return
}

// path prints the decisions of an exit, for the report.
func (x *Exit) path() []string {
	var s []string
	for _, f := range x.St.facts {
		t := f.String()
		if len(t) > 300 {
			t = t[:300] + "…"
		}
		s = append(s, t)
	}
	return s
}

// root strips the wrapping of an error.
func errRoot(t *Term) *Term {
	for t.Op == "wrap" {
		t = t.Args[0]
	}
	return t
}

func (x *Exit) errText(i int) string { return errRoot(x.Res[i]).String() }

// events of an exit by kind and callee.
func evs(list []*Event, kind, symRe string) (out []*Event) {
	for _, e := range list {
		if e.Kind == kind && (symRe == "" || rx(symRe).MatchString(shortFn(e.Sym))) {
			out = append(out, e)
		}
	}
	return
}

// allEvents walks every event of an exit, inside loops, callbacks and goroutines too.
func allEvents(list []*Event, f func(*Event)) {
	seen := map[*LoopCtx]bool{}
	seenE := map[*Event]bool{}
	var walk func(l []*Event)
	walk = func(l []*Event) {
		for _, e := range l {
			if seenE[e] {
				continue
			}
			seenE[e] = true
			f(e)
			for _, x := range e.Sub {
				walk(x.St.events)
			}
			if e.Loop != nil && !seen[e.Loop] {
				seen[e.Loop] = true
				for _, it := range e.Loop.Iters {
					walk(it.Events)
				}
			}
		}
	}
	walk(list)
}

// ---- reporting ----------------------------------------------------------------------

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, key, text string }

// known-findings.txt: "finding: property=<id> key=<rule @ construct> :: <what fails>" and "fixed: ..." lines.
func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " key=", 2)
		if len(p) != 2 {
			continue
		}
		q := strings.SplitN(p[1], " :: ", 2)
		if len(q) == 2 {
			out = append(out, known{p[0], q[0], q[1]})
		}
	}
	return out
}

func runCheck(root string, ck *Check, tier string) int {
	t0 := time.Now()
	c := &Ctx{C: ck, Tier: tier, fns: map[string]bool{}, seenV: map[string]bool{}}
	p, err := loadOnce(root)
	if err != nil {
		c.P = &Prog{Fset: token.NewFileSet(), Root: root}
		c.ob("analysable", "program", false, token.NoPos, nil, "the tree cannot be analysed: %v", err)
	} else {
		c.P = p
		func() {
			defer func() {
				r := recover()
				switch x := r.(type) {
				case nil:
				case anchorLost:
					c.ob("decided", x.msg, false, token.NoPos, nil, "undecided: %s", x.msg)
				case undecided:
					c.ob("decided", x.msg, false, token.NoPos, nil, "undecided: %s", x.msg)
				default:
					if os.Getenv("CHECK_PANIC") != "" {
						panic(r)
					}
					c.ob("decided", "internal", false, token.NoPos, nil, "undecided: internal error: %v", r)
				}
			}()
			ck.Run(c)
		}()
		if len(c.viols) == 0 {
			c.ob("instances", "floor", len(c.obls) >= ck.Min, token.NoPos, nil, "only %d obligations were generated, %d were confirmed by hand: the rule matches too little", len(c.obls), ck.Min)
		}
	}
	// known findings
	ks := loadKnown()
	var bad []viol
	for _, v := range c.viols {
		hit := false
		for _, k := range ks {
			if k.prop == ck.ID && k.key == v.Key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.text)
				hit = true
				break
			}
		}
		if !hit {
			bad = append(bad, v)
		}
	}
	writeEvidence(c, tier, time.Since(t0).Seconds(), len(bad))
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d classes=%d functions=%d\n", ck.ID, len(c.obls), c.classes, len(c.fns))
		return 0
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	rp := filepath.Join(dir, ck.ID+".violations.json")
	b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.ID, "replay": "bash check.sh " + ck.ID, "violations": bad}, "", " ")
	os.WriteFile(rp, b, 0o644)
	for i, v := range bad {
		if i == 12 {
			fmt.Printf("... %d more in %s\n", len(bad)-i, rp)
			break
		}
		fmt.Printf("%s: rule %s: %s: %s\n", v.Where, v.Rule, v.Construct, v.Message)
		for _, f := range v.Path {
			fmt.Printf("      %s\n", f)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
	return 1
}

func writeEvidence(c *Ctx, tier string, wall float64, nv int) {
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	byRule := map[string]int{}
	okN := 0
	var cons []string
	seen := map[string]bool{}
	for _, o := range c.obls {
		byRule[o.Rule]++
		if o.OK {
			okN++
		}
		if k := o.Rule + " @ " + o.Construct; !seen[k] && len(cons) < 60 {
			seen[k] = true
			cons = append(cons, k)
		}
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": c.C.ID, "tier": tier, "seed": seed, "level": "other", "wall_s": wall, "violations": nv,
		"coverage": map[string]interface{}{
			"explanation":         "Static analysis of /repo's current source: the type-checked program in SSA form, path-sensitive provenance dataflow with the callees of the module inlined, loops summarised by fixpoint. Rule: " + c.C.Rule,
			"obligations":         len(c.obls),
			"discharged":          okN,
			"obligations_by_rule": byRule,
			"constructs":          cons,
			"entry_points":        c.entries,
			"functions_analysed":  fns,
			"exit_classes":        c.classes,
			"abstract_steps":      c.steps,
			"instance_floor":      c.C.Min,
		},
		"assumptions": []string{
			"go/packages, go/types and go/ssa represent the program correctly",
			"library calls behave as modelled in checker/models.go (documented behaviour of the standard library, pkg/errors, gache, errgroup)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.C.ID+".json"), append(b, '\n'), 0o644)
}

// loadOnce: the interned terms refer to the types of one program.
func loadOnce(root string) (*Prog, error) {
	if loaded[root] == nil {
		p, err := Load(root)
		if err != nil {
			return nil, err
		}
		loaded[root] = p
	}
	return loaded[root], nil
}

var loaded = map[string]*Prog{}
