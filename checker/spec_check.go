package main

import (
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Min: 60, Rule: "a permission check looks every role of the requester up under <domain>:role.<role> in the role policies in effect, reports the effect of the first assertion whose domain, action and resource match, goes on past an assertion only when one of the three does not match, and grants exactly the roles reported without an effect, after all were reported and none with one", Run: specC16})
	register(&Check{ID: "C26", Min: 25, Rule: "a permission check starts one goroutine per role; every path of each sends at most once into a channel with room for all and is counted as done exactly once; the channel is closed once, after all are done; the derived context is cancelled on return; cached values have the type they are asserted to have", Run: specC26})
	register(&Check{ID: "C17", Min: 60, Rule: "an assertion's patterns are the anchored translation of the lowercased action and of the lowercased resource behind the first colon, rune by rune: * any sequence, ? any character, regexp metacharacters escaped, all others themselves; an assertion is applied only when both match the whole lowercased action and resource of the request", Run: specC17})
	register(&Check{ID: "C19", Min: 25, Rule: "Update makes a new cache, fetches every domain into it, waits for all, and only when none failed puts it in effect by one atomic swap; the replaced cache is stopped and otherwise left alone; nothing else writes the role policies", Run: specC19})
}

// worker is a goroutine of a permission check which looks up one role.
type worker struct {
	role string
	ev   *Event
	it   *Iter
}

// spawns are the goroutines started: by a go statement, an errgroup's Go or a WaitGroup's Go (the last two count
// the goroutine and its end themselves).
func spawns(evl []*Event) (out []*Event) {
	for _, e := range evl {
		if e.Kind == "go" || e.Kind == "eggo" {
			out = append(out, e)
		}
	}
	return
}

func (c *Ctx) checkWorkers(ex []*Exit) (ws []worker, closer *Event) {
	for _, x := range ex {
		for _, g := range evOf(x, "") {
			_ = g
		}
		for _, g := range spawns(x.St.events) {
			closer = g
		}
	}
	seen := map[*Event]bool{}
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			if !iterHolds(it, "(it < len(p3))") {
				continue
			}
			for _, g := range spawns(it.Events) {
				if !seen[g] {
					seen[g] = true
					ws = append(ws, worker{"p3[it]", g, it})
				}
			}
		}
	}
	return
}

const getRole = `(github.com/kpango/gache.Gache).Get(*p0.rolePolicies, concat(p2, ":role.", p3[it]))`

// matchLits say that the assertion looked at matches the request.
var matchLits = []struct{ what, lit string }{
	{"domain", "eqfold(" + getRole + "#0[it].ResourceDomain, p2)"},
	{"action", "(*regexp.Regexp).MatchString(" + getRole + "#0[it].ActionRegexp, lower(p4))"},
	{"resource", "(*regexp.Regexp).MatchString(" + getRole + "#0[it].ResourceRegexp, lower(p5))"},
}

// patternUse: an assertion is applied only when its patterns match the whole lowercased action and resource of the
// request, and passed over only when one of its three conditions fails.
func (c *Ctx) patternUse() {
	f := c.impl("policy", "Daemon", "CheckPolicyRoles")
	ws, _ := c.checkWorkers(c.run(f))
	n := 0
	for _, w := range ws {
		for _, x := range w.ev.Sub {
			if x.Panic {
				continue
			}
			for _, e := range evs(x.St.events, "send", "") {
				applied := false
				if e.Args[1].Op == "agg" {
					for _, a := range e.Args[1].Args {
						applied = applied || a.String() == getRole+"#0[it].Effect"
					}
				}
				if !applied {
					continue
				}
				n++
				for _, m := range matchLits[1:] {
					c.ob("applied", m.what, x.St.holds(m.lit), x.Pos, x.path(), "an assertion is applied although its pattern may not match the whole %s of the request", m.what)
				}
			}
		}
		for _, l := range loopsOf(w.ev.Sub) {
			for _, it := range l.Iters {
				if !iterHolds(it, "(it < len("+getRole+"#0))") {
					continue
				}
				miss := false
				for _, m := range matchLits {
					miss = miss || iterDecided(it, m.lit) == 0
				}
				c.ob("passed-over", "CheckPolicyRoles", miss, it.Pos, factTexts(it.Facts), "an assertion whose patterns may match is passed over")
			}
		}
	}
	c.ob("used", "CheckPolicyRoles", n > 0, f.Pos(), nil, "no assertion is ever applied")
}

func specC16(c *Ctx) {
	name := "CheckPolicyRoles"
	f := c.impl("policy", "Daemon", "CheckPolicyRoles")
	ex := c.run(f)
	ws, _ := c.checkWorkers(ex)
	lst := getRole + "#0"
	match := matchLits
	roleF, effF := "", ""
	nMatch, nCtx := 0, 0
	seenL := map[*LoopCtx]bool{}
	for _, w := range ws {
		for _, x := range w.ev.Sub {
			if x.Panic {
				c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
				continue
			}
			st := x.St
			sends := evs(x.St.events, "send", "")
			if len(sends) == 0 {
				none := st.any("!"+getRole+"#1", "!(it < len("+lst+"))", "empty("+lst+")")
				c.ob("unreported", name, none, x.Pos, x.path(), "nothing is reported for a role although its assertions were not all looked at")
				continue
			}
			v := sends[0].Args[1]
			if !c.ob("reported-once", name, len(sends) == 1 && v.Op == "agg", x.Pos, x.path(), "%d reports for a role", len(sends)) {
				continue
			}
			var eff *Term
			s, _ := deref(v.Typ).Underlying().(*types.Struct)
			for i, a := range v.Args {
				switch {
				case a.String() == w.role:
					if s != nil {
						roleF = s.Field(i).Name()
					}
				case eff == nil:
					eff = a
					if s != nil {
						effF = s.Field(i).Name()
					}
				}
			}
			if !c.ob("reported-role", name, roleF != "" && eff != nil && len(v.Args) == 2, sends[0].Pos, nil, "the report %s is not about the role looked up", v) {
				continue
			}
			switch {
			case eff.String() == "(context.Context).Err(cctx(p1))" || eff.String() == "(context.Context).Err(p1)":
				nCtx++
				c.ob("interrupted", name, st.some(`^chosen\(\(context\.Context\)\.Done\((cctx\()?p1`) || st.some(`^!\(nil == \(context\.Context\)\.Err\((cctx\()?p1\)`), x.Pos, x.path(), "an interruption is reported without one")
			default:
				nMatch++
				c.ob("effect", name, eff.String() == lst+"[it].Effect", sends[0].Pos, nil, "the reported effect is %s, not the effect of the assertion looked at", eff)
				c.ob("found", name, st.holds(getRole+"#1"), x.Pos, x.path(), "an effect is reported for a role without assertions")
				for _, m := range match {
					c.ob("matched", m.what, st.holds(m.lit), x.Pos, x.path(), "an assertion is applied although its %s may not match", m.what)
				}
			}
		}
		for _, l := range loopsOf(w.ev.Sub) {
			if seenL[l] {
				continue
			}
			seenL[l] = true
			for _, it := range l.Iters {
				if !iterHolds(it, "(it < len("+lst+"))") {
					continue
				}
				miss := false
				for _, m := range match {
					miss = miss || iterDecided(it, m.lit) == 0
				}
				c.ob("first-match", name, miss, it.Pos, factTexts(it.Facts), "an assertion which may match is passed over")
			}
		}
	}
	if !c.ob("workers", name, len(ws) > 0 && nMatch > 0 && roleF != "" && effF != "" && roleF != effF, f.Pos(), nil, "no goroutine reports the effect of the matching assertion of a role") {
		return
	}
	// the roles are all looked at
	for _, x := range ex {
		for _, g := range spawns(x.St.events) {
			for _, y := range g.Sub {
				c.ob("every-role", name, y.St.any("!(it < len(p3))", "empty(p3)"), y.Pos, y.path(), "not every role is looked up")
			}
		}
	}
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			if !iterHolds(it, "(it < len(p3))") {
				continue
			}
			isWorker := false
			for _, w := range ws {
				isWorker = isWorker || w.it == it
			}
			if !isWorker && len(spawns(it.Events)) == 0 {
				// a goroutine's own loop over the assertions is not a loop over the roles
				if iterHolds(it, "(it < len("+lst+"))") {
					continue
				}
				c.ob("role-looked-up", name, false, it.Pos, factTexts(it.Facts), "a role is not looked up")
			}
		}
	}
	// verdict
	ok, bad := splitNil(ex, 1)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	isRecv := func(t *Term, fld string) bool {
		return t.Op == "sel" && t.Sym == fld && t.Args[0].Op == "recv"
	}
	nGrant := 0
	for _, x := range ok {
		nGrant++
		r := x.Res[0]
		c.ob("drained", name, x.St.some(`^!recvok\(`), x.Pos, x.path(), "access is granted before every role was reported")
		c.ob("granted-some", name, x.St.decide(mkOp("empty", "", types.Typ[types.Bool], r)) == 0 || r.Op == "list" && len(r.Args) > 0, x.Pos, x.path(), "access is granted although no role may allow it")
		parts := []*Term{r}
		if r.Op == "wide" {
			sl := r.Lp.Slots[r.Sym]
			parts = nil
			if sl != nil {
				parts = append(append(parts, sl.Inits...), sl.Contribs...)
			}
		}
		for _, p := range parts {
			for _, e := range listElems(p, r) {
				c.ob("granted-role", name, isRecv(e, roleF), x.Pos, nil, "%s is returned as an allowing role", e)
			}
		}
	}
	nDeny, nNone := 0, 0
	for _, x := range bad {
		c.ob("no-roles", name, x.Res[0] == tNil, x.Pos, x.path(), "roles are returned with an error")
		er := errRoot(x.Res[1])
		switch {
		case isRecv(er, effF):
			nDeny++
			c.ob("denied", name, x.St.decideNil(er) == 0, x.Pos, x.path(), "a nil effect denies access")
		case er.String() == "policy.ErrNoMatch":
			nNone++
			c.ob("no-match", name, x.St.some(`^!recvok\(`), x.Pos, x.path(), "no match is concluded before every role was reported")
			// nothing was collected: either nothing was received, or the collection is empty
			c.ob("no-match-empty", name, x.St.some(`^empty\(wide\(`) || !x.St.some(`^recvok\(`), x.Pos, x.path(), "access is refused although a role may allow it")
		default:
			c.ob("refusal", name, false, x.Pos, x.path(), "access is refused with %s", er)
		}
	}
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			rc := evs(it.Events, "recv", "")
			if len(rc) == 0 || !iterAny(it, `^recvok\(`) {
				continue
			}
			eff := ""
			for _, fc := range it.Facts {
				s := fc.String()
				if strings.HasPrefix(s, "(nil == recv(") && strings.HasSuffix(s, "."+effF+")") {
					eff = s
				}
			}
			c.ob("goes-on", name, eff != "", it.Pos, factTexts(it.Facts), "a report is taken without its effect being nil")
			add := 0
			for n, v := range it.Phis {
				if v != nil && (v.Op == "list" || strings.HasPrefix(v.Op, "append")) && isRecv(lastOf(v), roleF) && !strings.HasPrefix(n, "&") {
					add++
				}
			}
			c.ob("collected", name, add > 0, it.Pos, factTexts(it.Facts), "a role which allows access is not collected")
		}
	}
	c.ob("verdicts", name, nGrant > 0 && nDeny > 0 && nNone > 0, f.Pos(), nil, "grant, denial and no match do not all occur")
	// CheckPolicy
	g := c.impl("policy", "Daemon", "CheckPolicy")
	for _, x := range c.run(g, f) {
		if x.Panic {
			continue
		}
		c.ob("check-policy", "CheckPolicy", x.Res[0].String() == "(*policy.policyd).CheckPolicyRoles(p0, p1, p2, p3, p4, p5)#1", x.Pos, nil, "CheckPolicy returns %s", x.Res[0])
	}
}

// listElems are the elements a list term adds to an earlier value of slot w.
func listElems(t, w *Term) []*Term {
	switch {
	case t.Op == "list":
		return t.Args
	case t.Op == "append" && len(t.Args) >= 2:
		if t.Args[0].Op == "wide" && t.Args[0].Sym == w.Sym {
			return t.Args[1:]
		}
		return append(listElems(t.Args[0], w), t.Args[1:]...)
	case t.Op == "makeslice" || t == tNil || t.Op == "wide" && t.Sym == w.Sym:
		return nil
	}
	return []*Term{t}
}

func iterAny(it *Iter, re string) bool {
	for _, fc := range it.All {
		if rx(re).MatchString(fc.String()) {
			return true
		}
	}
	return false
}

func specC26(c *Ctx) {
	name := "CheckPolicyRoles"
	f := c.impl("policy", "Daemon", "CheckPolicyRoles")
	ex := c.run(f)
	ws, _ := c.checkWorkers(ex)
	c.ob("workers", name, len(ws) > 0, f.Pos(), nil, "no goroutine looks roles up")
	for _, w := range ws {
		n := 0
		for _, g := range spawns(w.it.Events) {
			c.ob("started-always", name, !strings.HasSuffix(g.Sym, ").TryGo"), g.Pos, nil, "the goroutine of a role is started only when there is room")
			n++
		}
		c.ob("one-per-role", name, n == 1, w.it.Pos, nil, "%d goroutines are started for a role", n)
		for _, x := range w.ev.Sub {
			c.ob("worker-returns", name, !x.Panic, x.Pos, x.path(), "a goroutine panics")
			sends, dones := 0, 0
			if w.ev.Kind == "eggo" {
				dones++ // when it returns
			}
			for i, e := range x.St.events {
				if e.Kind == "recv" {
					sel, _ := e.In.(*ssa.Select)
					c.ob("waits", name, sel != nil && !sel.Blocking, e.Pos, x.path(), "a goroutine waits for %s: the check may never end", e.Args[0])
				}
				if e.Kind == "call" && rx(`(sync\.WaitGroup\)\.Wait|sync\.(RW)?Mutex\)\.R?Lock|sync\.Cond\)\.Wait|^time\.Sleep)$`).MatchString(e.Sym) {
					c.ob("waits", name, false, e.Pos, x.path(), "a goroutine waits in %s", shortName(e.Sym))
				}
				if e.Kind == "send" {
					sends++
					c.ob("room", name, e.Args[0].Op == "makechan" && len(e.Args[0].Args) > 0 && e.Args[0].Args[0].String() == "len(p3)", e.Pos, nil, "the report goes to %s, which may be full: the goroutine would never end", e.Args[0])
					c.ob("report-then-done", name, dones == 0 || w.ev.Kind == "eggo" && dones == 1, e.Pos, nil, "a role is reported after it was counted as done: the channel may be closed")
				}
				if e.Kind == "call" && strings.HasSuffix(e.Sym, "sync.WaitGroup).Done") {
					dones++
				}
				if e.Kind == "call" && strings.HasSuffix(e.Sym, "sync.WaitGroup).Add") {
					dones--
				}
				_ = i
			}
			c.ob("sends", name, sends <= 1, x.Pos, x.path(), "a goroutine reports %d times into a channel with room for one report per role", sends)
			c.ob("done", name, dones == 1, x.Pos, x.path(), "a goroutine is counted as done %d times", dones)
			for _, l := range loopsOf([]*Exit{x}) {
				for _, it := range l.Iters {
					c.ob("loop-sends", name, len(evs(it.Events, "send", "")) == 0 && len(evs(it.Events, "call", `WaitGroup\)\.(Done|Add)$`)) == 0, it.Pos, nil, "a goroutine may report many times")
				}
			}
		}
	}
	nClose := 0
	for _, x := range ex {
		gos := spawns(x.St.events)
		cancel := 0
		for _, e := range x.St.events {
			if e.Kind == "call" && e.String() == "call dyn(cancelfn(p1))" || e.Res != nil && e.Kind == "call" && strings.HasPrefix(e.Res.String(), "dyn(cancelfn(p1)") {
				cancel++
			}
			if e.Kind == "close" {
				c.ob("closed-by-sender", name, false, e.Pos, nil, "the channel is closed by the receiver: a later report panics")
			}
		}
		uses := false
		for _, g := range ws {
			for _, y := range g.ev.Sub {
				uses = uses || y.St.some(`chosen\(\(context\.Context\)\.Done\(cctx\(p1\)`)
			}
		}
		c.ob("cancelled", name, !uses || cancel > 0, x.Pos, x.path(), "the derived context is not cancelled on return")
		for _, g := range gos {
			for _, y := range g.Sub {
				c.ob("closer-returns", name, !y.Panic, y.Pos, y.path(), "the goroutine panics")
				add, wait, cl, loop := -1, -1, -1, -1
				for i, e := range y.St.events {
					switch {
					case e.Kind == "call" && strings.HasSuffix(e.Sym, "sync.WaitGroup).Add"):
						add = i
						c.ob("counted", name, e.Args[1].String() == "len(p3)" && loop < 0, e.Pos, nil, "the goroutines are counted as %s", e.Args[1])
					case e.Kind == "call" && strings.HasSuffix(e.Sym, "sync.WaitGroup).Wait") || strings.HasSuffix(e.Sym, "errgroup.Group).Wait"):
						wait = i
						for _, w := range ws {
							c.ob("waited-group", name, w.ev.Kind != "eggo" || w.ev.Args[0] == e.Args[0], e.Pos, nil, "another group is waited for than the one the goroutines are started in")
						}
					case e.Kind == "loop":
						loop = i
					case e.Kind == "close":
						c.ob("closed-once", name, cl < 0 && wait >= 0 && wait > loop, e.Pos, y.path(), "the channel is closed before all goroutines are done, or twice")
						cl = i
						nClose++
					}
				}
				perLoop := false
				for _, w := range ws {
					perLoop = perLoop || w.ev.Kind == "eggo" || len(evs(w.it.Events, "call", `WaitGroup\)\.Add$`)) == 1
				}
				c.ob("counted", name, add >= 0 || perLoop, y.Pos, nil, "the goroutines are not counted")
				if add >= 0 {
					c.ob("counted-all", name, y.St.any("!(it < len(p3))", "empty(p3)"), y.Pos, y.path(), "goroutines are waited for which were not started")
				}
				for _, l := range topLoops([]*Exit{y}) {
					for _, it := range l.Iters {
						if !iterHolds(it, "(it < len(p3))") {
							continue
						}
						bal := -len(evs(it.Events, "call", `WaitGroup\)\.Done$`)) + len(evs(it.Events, "call", `WaitGroup\)\.Add$`))
						if add >= 0 {
							bal++
						}
						for _, w := range ws {
							if w.it == it && w.ev.Kind != "eggo" {
								bal--
							}
						}
						c.ob("waited-for", name, bal == 0, it.Pos, factTexts(it.Facts), "for a role %d goroutines more are waited for than are started: the check would never end, or too early", bal)
					}
				}
				c.ob("closed", name, cl >= 0, y.Pos, y.path(), "the channel is never closed: the check would never end")
			}
		}
		c.ob("started", name, len(gos) == 1, x.Pos, x.path(), "%d goroutines collect the reports", len(gos))
	}
	c.ob("closed", name, nClose > 0, f.Pos(), nil, "the channel is never closed")
	// the values of the role policies have the asserted type
	n := 0
	for _, g := range c.P.Funcs {
		if g.Pkg == nil || relPkg(g) != "policy" {
			continue
		}
		for _, s := range callSites(g) {
			if !strings.HasPrefix(s.name, "(github.com/kpango/gache.Gache).Set") || strings.HasSuffix(s.name, "Hook") {
				continue
			}
			n++
			t := storedType(s.in, 1)
			c.ob("value-type", shortFn(g.String()), strings.HasPrefix(t, "[]*") && strings.HasSuffix(t, "policy.Assertion") || t == "copied", s.in.Pos(), nil, "a value of type %s is cached: looking it up panics", t)
		}
	}
	c.ob("value-type", name, n > 0, f.Pos(), nil, "nothing is cached")
}

func specC17(c *Ctx) {
	c.patternUse()
	name := "NewAssertion"
	f := c.fn("policy", "NewAssertion")
	ex := c.run(f)
	ok, bad := splitNil(ex, 1)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	seenL := map[*LoopCtx]bool{}
	nWide := map[string]int{}
	for _, x := range ok {
		st := x.St
		c.ob("split", name, st.holds(`contains(p1, ":")`), x.Pos, x.path(), "a resource without a domain is accepted")
		a := x.Res[0]
		c.ob("domain", name, c.field(st, a, "ResourceDomain").String() == `before(p1, ":")`, x.Pos, nil, "the domain is %s", c.field(st, a, "ResourceDomain"))
		c.ob("action", name, c.field(st, a, "Action").String() == "p0", x.Pos, nil, "the action is %s", c.field(st, a, "Action"))
		c.ob("resource", name, c.field(st, a, "Resource").String() == `after(p1, ":")`, x.Pos, nil, "the resource is %s", c.field(st, a, "Resource"))
		for fld, src := range map[string]string{"ActionRegexp": "lower(p0)", "ResourceRegexp": `lower(after(p1, ":"))`} {
			r := c.field(st, a, fld)
			if !c.ob("pattern", fld, r.Op == "ext" && r.Args[0].Op == "call" && strings.HasPrefix(r.String(), "regexp.Compile(") && len(r.Args[0].Args) == 1, x.Pos, x.path(), "%s is %s", fld, r) {
				continue
			}
			pat := r.Args[0].Args[0]
			c.ob("pattern-string", fld, c.field(st, a, fld+"String").String() == "(*regexp.Regexp).String("+r.String()+")", x.Pos, nil, "the pattern is shown as %s", c.field(st, a, fld+"String"))
			c.ob("compiled", fld, st.assumedNil(extOf(r.Args[0], 1)), x.Pos, x.path(), "the pattern may not have compiled")
			ps := pieces(pat)
			if k, ok := pat.constStr(); ok && anchored(k, "", "") {
				c.ob("empty-pattern", fld, st.holds("empty("+src+")") || st.holds("empty("+strings.TrimSuffix(strings.TrimPrefix(src, "lower("), ")")+")"), x.Pos, x.path(), "a pattern which is not empty is translated to %s", pat)
				continue
			}
			wi := -1
			pre, post := "", ""
			for i, p := range ps {
				k, ok := p.constStr()
				switch {
				case ok && wi < 0:
					pre += k
				case ok:
					post += k
				case p.Op == "wide" && wi < 0:
					wi = i
				default:
					wi = len(ps)
				}
			}
			if !c.ob("anchored", fld, wi >= 0 && wi < len(ps) && (post == "$" || post == `\z`), x.Pos, nil, "the pattern is %s", pat) {
				continue
			}
			nWide[fld]++
			l := ps[wi].Lp
			c.ob("whole", fld, st.any("!mapnext("+src+")", "!(it < len(conv[runes]("+src+")))"), x.Pos, x.path(), "the pattern is not translated to its end")
			if seenL[l] {
				continue
			}
			seenL[l] = true
			for _, in := range l.Slots[ps[wi].Sym].Inits {
				k, ok := joined(in)
				c.ob("start", fld, ok && anchored(pre+k, post, post), x.Pos, nil, "the pattern starts with %q and %s", pre, in)
			}
			for _, it := range l.Iters {
				c.glob(it, fld, src, ps[wi].Sym)
			}
		}
	}
	c.ob("patterns", name, nWide["ActionRegexp"] > 0 && nWide["ResourceRegexp"] > 0, f.Pos(), nil, "the action or the resource is not translated")
	for _, x := range bad {
		st := x.St
		c.ob("failure", name, st.holds(`!contains(p1, ":")`) || st.some(`^!\(nil == regexp\.Compile\(.*\)#1\)$`), x.Pos, x.path(), "an assertion is refused without a cause")
	}
	c.ob("outcomes", name, len(ok) > 0 && len(bad) > 0, f.Pos(), nil, "assertions are always or never refused")
}

func extOf(call *Term, i int) *Term {
	for _, t := range termList {
		if t.Op == "ext" && len(t.Args) > 0 && t.Args[0] == call && t.Sym == strconv.Itoa(i) {
			return t
		}
	}
	return call
}

// pieces of a string: constants and opaque parts.
func pieces(t *Term) []*Term {
	var out []*Term
	switch {
	case t.Op == "concat":
		for _, a := range t.Args {
			out = append(out, pieces(a)...)
		}
		return out
	case t.Op == "join" && len(t.Args) == 2 && t.Args[1].String() == `""`:
		return pieces(t.Args[0])
	case t.Op == "append" || t.Op == "list":
		// the pieces of a list of strings, which is joined
		for i, a := range t.Args {
			if i == 0 && t.Op == "append" || a.Op != "wide" {
				out = append(out, pieces(a)...)
			} else {
				return []*Term{t}
			}
		}
		return out
	}
	return []*Term{t}
}

// joined is the constant text of the pieces of a string or a list of strings.
func joined(t *Term) (string, bool) {
	if t.Op == "nil" {
		return "", true
	}
	s := ""
	for _, p := range pieces(t) {
		k, ok := p.constStr()
		if !ok {
			return "", false
		}
		s += k
	}
	return s, true
}

// anchored: the constant text of an empty pattern starts and ends with an anchor.
func anchored(s, have, post string) bool {
	for _, a := range []string{"^", `\A`} {
		for _, z := range []string{"$", `\z`} {
			if have == "" && s == a+z || have != "" && s == a && z == post {
				return true
			}
		}
	}
	return false
}

const reMeta = `\.+*?()|[{^$`

// glob looks at the translation of one character.
func (c *Ctx) glob(it *Iter, fld, src, slot string) {
	runes := "conv[runes](" + src + ")"
	run := "rune(" + src + ")"
	switch {
	case iterHolds(it, "mapnext("+src+")"):
	case iterHolds(it, "(it < len("+runes+"))"):
		run = runes + "[it]"
	default:
		return
	}
	v := it.Phis[slot]
	if v == nil {
		c.ob("translated", fld, false, it.Pos, factTexts(it.Facts), "a character is dropped")
		return
	}
	is := map[rune]bool{}
	not := map[rune]bool{}
	for _, fc := range it.Facts {
		a := fc.A
		switch {
		case a.Op == "eq":
			for i := 0; i < 2; i++ {
				if k, o := a.Args[i], a.Args[1-i]; o.String() == run {
					if n, ok := k.constInt(); ok {
						if fc.V {
							is[rune(n)] = true
						} else {
							not[rune(n)] = true
						}
					}
				}
			}
		case a.Op == "contains" && len(a.Args) == 2 && a.Args[1].String() == "runestr("+run+")":
			if s, ok := a.Args[0].constStr(); ok {
				for _, r := range s {
					if fc.V {
						is[r] = true
					} else {
						not[r] = true
					}
				}
			}
		}
	}
	for r := range not {
		delete(is, r)
	}
	ps := pieces(v)
	var txt string
	raw := false
	for i, p := range ps {
		if i == 0 && p.Op == "wide" {
			continue
		}
		s, ok := p.constStr()
		if i == 0 && ok && it.First {
			s = strings.TrimPrefix(strings.TrimPrefix(s, "^"), `\A`)
		}
		switch {
		case ok:
			txt += s
		case p.String() == "runestr("+run+")":
			raw = true
			txt += "\x00"
		case p.String() == "regexp.QuoteMeta(runestr("+run+"))":
			raw = true
			txt += "\x01"
		default:
			txt += "\x02"
		}
	}
	_ = raw
	only := func(want ...rune) bool {
		if len(is) != len(want) {
			return false
		}
		for _, r := range want {
			if !is[r] {
				return false
			}
		}
		return true
	}
	none := func(set string) bool {
		for _, r := range set {
			if !not[r] && !(len(is) > 0 && !is[r]) {
				return false
			}
		}
		return true
	}
	switch txt {
	case ".*", ".*?":
		c.ob("star", fld, only('*'), it.Pos, factTexts(it.Facts), "a character other than * is translated to any sequence")
	case ".":
		c.ob("question", fld, only('?'), it.Pos, factTexts(it.Facts), "a character other than ? is translated to any character")
	case "\x00":
		c.ob("plain", fld, none(reMeta), it.Pos, factTexts(it.Facts), "a regexp metacharacter is not escaped, or * or ? is taken literally")
	case "\x01":
		c.ob("plain", fld, none("*?"), it.Pos, factTexts(it.Facts), "* or ? is taken literally")
	case "\\\x00":
		good := len(is) > 0 && none("*?")
		for r := range is {
			good = good && r < 0x80 && (unicode.IsPunct(r) || unicode.IsSymbol(r))
		}
		c.ob("escaped", fld, good, it.Pos, factTexts(it.Facts), "a character is escaped which then has another meaning, or * or ? is taken literally")
	default:
		c.ob("translated", fld, false, it.Pos, factTexts(it.Facts), "a character is translated to %s", v)
	}
}

// fetchSucceeds: the fetch of a domain succeeds only when its policy was put into the cache without a failure.
func (c *Ctx) fetchSucceeds() {
	name := "fetchAndCachePolicy"
	simp := c.fn("policy", "simplifyAndCachePolicy")
	ok, bad := splitNil(c.run(c.fn("policy", name), simp), 0)
	for _, x := range ok {
		call := evOf(x, `policy\.simplifyAndCachePolicy$`)
		c.ob("stored", name, len(call) == 1 && (x.St.assumedNil(call[0].Res) || errRoot(x.Res[0]) == call[0].Res), x.Pos, x.path(), "a domain counts as fetched although its policy may not have been stored")
	}
	c.ob("stored", name, len(ok) > 0 && len(bad) > 0, 0, nil, "the fetch of a domain always or never fails")
	// storing: success only when every worker, and the making of every assertion, succeeded, or nothing is stored of an expired policy
	ok, _ = splitNil(c.run(simp, c.fn("policy", "NewAssertion")), 0)
	for _, x := range ok {
		c.ob("stored-all", "simplifyAndCachePolicy", x.St.some(`^\(nil == \(\*golang\.org/x/sync/errgroup\.Group\)\.Wait\(`) || len(evs(x.St.events, "eggo", "")) == 0, x.Pos, x.path(), "the policy counts as stored although its assertions may not all have been collected")
	}
}

func specC19(c *Ctx) {
	c.fetchSucceeds()
	name := "policy Update"
	f := c.impl("policy", "Daemon", "Update")
	fc := c.fn("policy", "fetchAndCachePolicy")
	ex := c.run(f, fc)
	ok, bad := splitNil(ex, 0)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	wait := "(*golang.org/x/sync/errgroup.Group).Wait("
	isOld := func(t *Term) bool { return strings.HasPrefix(t.String(), "*p0.rolePolicies") }
	var news []*Term
	add := func(t *Term) {
		for _, n := range news {
			if n == t {
				return
			}
		}
		news = append(news, t)
	}
	nGo := 0
	for _, l := range topLoops(ex) {
		for _, it := range l.Iters {
			if !iterHolds(it, "mapnext(p0.fetchers)") {
				continue
			}
			gos := evs(it.Events, "eggo", "")
			if !c.ob("every-domain", name, len(gos) == 1, it.Pos, factTexts(it.Facts), "a domain is fetched %d times", len(gos)) {
				continue
			}
			for _, y := range gos[0].Sub {
				c.ob("no-panic", name, !y.Panic, y.Pos, y.path(), "a fetch panics")
				if y.Panic {
					continue
				}
				r := y.Res[0]
				er := errRoot(r)
				if er.Op == "call" && strings.HasSuffix(er.Sym, "policy.fetchAndCachePolicy") {
					nGo++
					add(er.Args[1])
					c.ob("fetch", name, er.Args[0].String() == "p1" && er.Args[2].String() == "p0.fetchers{mapkey(p0.fetchers)}", y.Pos, nil, "a domain is fetched as %s", r)
					continue
				}
				if fe := evOf(y, `policy\.fetchAndCachePolicy$`); len(fe) == 1 && r == tNil && y.St.assumedNil(fe[0].Res) {
					nGo++
					add(fe[0].Args[1])
					c.ob("fetch", name, fe[0].Args[0].String() == "p1" && fe[0].Args[2].String() == "p0.fetchers{mapkey(p0.fetchers)}", y.Pos, nil, "a domain is fetched as %s", fe[0])
					continue
				}
				c.ob("fetch", name, y.St.decideNil(r) == 0 || strings.HasPrefix(er.String(), "(context.Context).Err("), y.Pos, y.path(), "a domain is left out silently (%s)", r)
			}
		}
	}
	c.ob("fetches", name, nGo > 0 && len(news) == 1, f.Pos(), nil, "the domains are not all fetched into one new cache")
	if len(news) != 1 {
		return
	}
	c.ob("new", name, strings.HasPrefix(news[0].String(), "github.com/kpango/gache.New("), f.Pos(), nil, "the policies are fetched into %s", news[0])
	for i, x := range append(append([]*Exit(nil), ok...), bad...) {
		st := x.St
		good := i < len(ok)
		swap := -1
		for j, e := range st.events {
			switch {
			case (e.Kind == "atomicstore" || e.Kind == "store" || e.Kind == "atomiccas") && e.Args[0].String() == "&p0.rolePolicies":
				c.ob("swap", name, good && e.Kind == "atomicstore" && swap < 0, e.Pos, x.path(), "the role policies are replaced on a failure, twice or not atomically")
				swap = j
				c.ob("swapped-in", name, st.heap[e.Args[1]] == news[0], e.Pos, x.path(), "the cache put in effect is %s", e.Args[1])
			case e.Kind == "call" && strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).") && isOld(e.Args[0]) && !rx(`\.(Len|Get|ToRawMap|Foreach)$`).MatchString(e.Sym):
				c.ob("old-kept", name, good && strings.HasSuffix(e.Sym, ".Stop") && swap >= 0, e.Pos, x.path(), "the cache in effect is changed by %s", e)
			}
		}
		allEvents(st.events, func(e *Event) {
			if e.Kind == "call" && strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).") && rx(`\.(Clear|Delete|DeleteExpired|Stop|Set|SetWithExpire)$`).MatchString(e.Sym) && chainRoot(e.Args[0]) == news[0] {
				c.ob("new-kept", name, false, e.Pos, x.path(), "the new cache is changed by %s", e)
			}
		})
		if good {
			c.ob("swapped", name, swap >= 0, x.Pos, x.path(), "success without the new cache being put in effect")
			c.ob("all-fetched", name, st.any("!mapnext(p0.fetchers)", "empty(p0.fetchers)") && st.some(`^\(nil == `+rxq(wait)), x.Pos, x.path(), "success although not every domain was fetched")
			stopped := false
			for _, e := range st.events {
				stopped = stopped || e.Kind == "call" && strings.HasSuffix(e.Sym, "Gache).Stop") && isOld(e.Args[0])
			}
			c.ob("old-stopped", name, stopped, x.Pos, x.path(), "the replaced cache is not stopped: its expired hook goes on fetching")
			waited := false
			for j, e := range st.events {
				if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), wait) {
					waited = j < swap
				}
			}
			c.ob("waited", name, waited, x.Pos, x.path(), "the new cache is put in effect before every domain was fetched")
		} else {
			c.ob("failure", name, swap < 0, x.Pos, x.path(), "a failed update replaces the role policies")
			c.ob("failure-cause", name, strings.HasPrefix(x.errText(0), wait) || strings.HasPrefix(x.errText(0), "(context.Context).Err("), x.Pos, x.path(), "failure without a cause (%s)", x.errText(0))
		}
	}
	c.ob("outcomes", name, len(ok) > 0 && len(bad) > 0, f.Pos(), nil, "the update always or never fails")
	nw := c.fn("policy", "New")
	c.fieldWriters("writers", "policy", "policyd", "rolePolicies", map[string]bool{shortFn(f.String()): true, shortFn(nw.String()): true})
}
