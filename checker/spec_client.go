package main

import (
	"go/constant"
	"go/token"
	"math"
	"strings"
)

func init() {
	register(&Check{ID: "C31", Min: 150, Rule: "RoundTrip sends at least once and at most the configured number of times, again only after a temporary error within the time limit, with the growing wait in between, or after a retriable status; it returns the last attempt's own response and error; a response that is replaced is drained and closed, the one handed out is not", Run: specC31})
}

const rtCall = "(net/http.RoundTripper).RoundTrip"

// evalNum evaluates an arithmetic term with the given leaves.
func evalNum(t *Term, leaf map[string]float64) (float64, bool) {
	if v, ok := leaf[t.String()]; ok {
		return v, true
	}
	if k, ok := t.constInt(); ok {
		return float64(k), true
	}
	if t.Op == "const" {
		v, _ := constant.Float64Val(constant.ToFloat(t.Val))
		return v, t.Val.Kind() == constant.Float || t.Val.Kind() == constant.Int
	}
	switch t.Op {
	case "conv", "convnum":
		return evalNum(t.Args[0], leaf)
	}
	if strings.HasPrefix(t.String(), "convnum[") && len(t.Args) == 1 {
		return evalNum(t.Args[0], leaf)
	}
	if t.Op == "call" && t.Sym == "math.Pow" && len(t.Args) == 2 {
		a, ok1 := evalNum(t.Args[0], leaf)
		b, ok2 := evalNum(t.Args[1], leaf)
		return math.Pow(a, b), ok1 && ok2
	}
	if len(t.Args) == 0 {
		return 0, false
	}
	var xs []float64
	for _, a := range t.Args {
		x, ok := evalNum(a, leaf)
		if !ok {
			return 0, false
		}
		xs = append(xs, x)
	}
	op := t.Sym
	if t.Op != "bin" {
		op = t.Op
	}
	acc := xs[0]
	for _, x := range xs[1:] {
		switch op {
		case "+", "sum", "add":
			acc += x
		case "-", "sub":
			acc -= x
		case "*", "mul":
			acc *= x
		case "/", "quo":
			if x == 0 {
				return 0, false
			}
			acc /= x
		default:
			return 0, false
		}
	}
	if t.Op == "neg" {
		acc = -acc
	}
	return acc, true
}

// attempt describes the round trip of one iteration or exit.
type attempt struct {
	call   *Event
	n      int
	facts  []Fact
	events []*Event
	// every attempt that another follows drains and closes its own response
	selfClose bool
}

// more: 1 another attempt is within the configured number, 0 it is not.
func (a attempt) more() int {
	if dec(a.facts, nil, "(p0.maxRetryCount < 1)", "(p0.maxRetryCount < 2)") == 1 {
		return 0
	}
	return dec(a.facts, nil, "((it + 1) < p0.maxRetryCount)", "(it < (p0.maxRetryCount + -1))")
}

// callIn is the call of the function within the term.
func callIn(t *Term, sym string) *Term {
	if t.Op == "call" && t.Sym == sym {
		return t
	}
	for _, a := range t.Args {
		if c := callIn(a, sym); c != nil {
			return c
		}
	}
	return nil
}

// closesOwn: the own response is drained and closed.
func (a attempt) closesOwn() bool {
	r := a.res("0")
	if r == nil {
		return false
	}
	drained := false
	for _, e := range a.events {
		if e.Kind != "call" {
			continue
		}
		for _, x := range e.Args {
			if mentions(x, r) && strings.HasSuffix(x.String(), "#0.Body") {
				switch {
				case strings.HasSuffix(e.Sym, ").Close"):
					return drained
				case strings.HasSuffix(e.Sym, ".Copy"), strings.HasSuffix(e.Sym, ".ReadAll"):
					drained = true
				}
			}
		}
	}
	return false
}

func attemptOf(events []*Event, facts []Fact) attempt {
	a := attempt{facts: facts, events: events}
	for _, e := range events {
		if e.Kind == "call" && e.Sym == rtCall {
			a.call = e
			a.n++
		}
	}
	return a
}

// own: the decided value of a fact about this attempt's own result (the result's text is the same for other attempts).
func (a attempt) own(f func(t *Term) bool) int {
	v := -1
	for _, ft := range a.facts {
		if f(ft.A) {
			v = 0
			if ft.V {
				v = 1
			}
		}
	}
	return v
}

func (a attempt) res(i string) *Term { return extOf2(a.call.Res, i) }

func extOf2(call *Term, i string) *Term {
	for _, t := range termList {
		if t.Op == "ext" && t.Sym == i && t.Args[0] == call {
			return t
		}
	}
	return nil
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func (a attempt) errNil() int {
	e := a.res("1")
	return a.own(func(t *Term) bool { return e != nil && t == eqTerm(tNil, e) })
}

// temporary: 1 the attempt's error is known to be temporary, 0 known not to be.
func (a attempt) temporary() int {
	e := a.res("1")
	if e == nil {
		return -1
	}
	if a.own(func(t *Term) bool { return t.Op == "istype" && t.Args[0] == e }) == 0 {
		return 0
	}
	return a.own(func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Sym, ").Temporary") && len(t.Args) == 1 && mentions(t, e)
	})
}

var retriable = []string{"429", "500", "503", "504"}

// status: 1 the response is known to be retriable, 0 known not to be.
func (a attempt) status() int {
	r := a.res("0")
	if r == nil {
		return -1
	}
	v := a.own(func(t *Term) bool {
		return t.Op == "has" && t.Args[0].String() == "constset["+strings.Join(retriable, ",")+"]()" && mentions(t, r)
	})
	if v >= 0 {
		return v
	}
	no := 0
	for _, s := range retriable {
		switch a.own(func(t *Term) bool {
			if t.Op != "eq" || !mentions(t, r) {
				return false
			}
			x := t.String()
			return x == "("+r.String()+".StatusCode == "+s+")" || x == "("+s+" == "+r.String()+".StatusCode)"
		}) {
		case 1:
			return 1
		case 0:
			no++
		}
	}
	if no == len(retriable) {
		return 0
	}
	return -1
}

// inTime: whether waiting d is known to end before (1) or not before (0) the time limit.
func (a attempt) inTime(d string) int {
	end := "(time.Time).Add(now(), " + d + ")"
	lim := "(time.Time).Add(now(), p0.maxRetryTime)"
	left := "timesub(" + lim + ", now())"
	nano := func(s string) string { return "(time.Time).UnixNano(" + s + ")" }
	v := -1
	for _, ft := range a.facts {
		b := 0
		if ft.V {
			b = 1
		}
		// the nanoseconds of a sum are the sum of the nanoseconds
		s := strings.ReplaceAll(ft.A.String(), "sum("+nano("now()")+", p0.maxRetryTime)", nano(lim))
		s = strings.ReplaceAll(s, "sum("+nano("now()")+", "+d+")", nano(end))
		switch s {
		case "(" + nano(end) + " < " + nano(lim) + ")", "tlt(" + end + ", " + lim + ")", "(" + end + " before " + lim + ")", "(" + d + " < " + left + ")", "(" + end + " < " + lim + ")":
			v = b
		case "(" + nano(lim) + " < " + nano(end) + ")", "tlt(" + lim + ", " + end + ")", "(" + lim + " before " + end + ")", "(" + left + " < " + d + ")", "(" + lim + " < " + end + ")":
			v = 1 - b
		}
	}
	return v
}

// bodies: a response of an earlier attempt is drained and closed before the next attempt, and the own one is left open.
func (c *Ctx) bodies(a attempt, name string, first bool, p token.Pos, path []string, more bool) {
	ownOpen, drained, closed, sent := true, false, false, false
	for _, e := range a.events {
		if e == a.call {
			sent = true
		}
		if e.Kind != "call" {
			continue
		}
		for _, x := range e.Args {
			if !strings.HasPrefix(x.String(), rtCall+"(") || !strings.HasSuffix(x.String(), "#0.Body") {
				continue
			}
			if mentions(x, a.call.Res) {
				ownOpen = ownOpen && !strings.HasSuffix(e.Sym, ").Close") && !strings.HasPrefix(e.Sym, "io")
				continue
			}
			if !sent {
				if strings.HasSuffix(e.Sym, ").Close") {
					closed = true
				} else if strings.HasSuffix(e.Sym, ".Copy") || strings.HasSuffix(e.Sym, ".ReadAll") {
					drained = !closed
				}
			}
		}
	}
	none := false // there is no response to close
	for _, ft := range a.facts {
		t := ft.A
		if t.Op == "eq" && !mentions(t, a.call.Res) && strings.HasPrefix(t.String(), "(nil == "+rtCall+"(") {
			none = none || ft.V && strings.HasSuffix(t.String(), "#0)") || !ft.V && strings.HasSuffix(t.String(), "#1)")
		}
	}
	c.ob("open", name, ownOpen || more, p, path, "the response of the last attempt may be handed out drained or closed")
	if !first && !a.selfClose {
		c.ob("closed", name, none || closed && drained, p, path, "the response of an earlier attempt is not drained and closed before the next one")
	}
}

func specC31(c *Ctx) {
	f := c.fn("client", "(*ExponentialRoundTripper).RoundTrip")
	ex := c.run(f)
	name := "RoundTrip"
	wait := func(d *Term) bool {
		for _, n := range []float64{0, 1, 2, 7} {
			for _, k := range []float64{1e9, 0.25e9, 3e6} {
				v, ok := evalNum(d, map[string]float64{"it": n, "p0.backoffDtFactor": k})
				if !ok {
					return strings.Contains(d.String(), "it") && strings.Contains(d.String(), "p0.backoffDtFactor")
				}
				if math.Abs(v-(2*n+1)*k) > 1 {
					return false
				}
			}
		}
		return true
	}
	nIt := 0
	selfClose := true
	for _, l := range topLoops(ex) {
		for _, it := range l.Iters {
			if a := attemptOf(it.Events, it.Facts); a.n == 1 && a.errNil() != 0 && a.more() != 0 {
				selfClose = selfClose && a.more() == 1 && a.closesOwn()
			}
		}
	}
	for _, l := range topLoops(ex) {
		for _, it := range l.Iters {
			a := attemptOf(it.Events, append(append([]Fact(nil), it.Facts...), it.Prior...))
			if !c.ob("one-attempt", name, a.n == 1, it.Pos, factTexts(it.Facts), "a round of the loop sends the request %d times", a.n) {
				continue
			}
			nIt++
			a.selfClose = selfClose
			c.ob("request", name, a.call.Args[0].String() == "p0.transport" && a.call.Args[1].String() == "p1", it.Pos, nil, "the attempt sends %v", a.call.Args[1])
			var slept []*Term
			now := 0
			for _, e := range it.Events {
				if e.Kind == "call" && e.Sym == "time.Sleep" {
					slept = append(slept, e.Args[0])
				}
				if e.Kind == "recv" {
					for _, t := range []string{"time.NewTimer", "time.After"} {
						if w := callIn(e.Args[0], t); w != nil {
							slept = append(slept, w.Args[0])
						}
					}
				}
				if e.Kind == "now" {
					now++
				}
			}
			switch a.errNil() {
			case 0:
				c.ob("temporary", name, a.temporary() == 1, it.Pos, factTexts(it.Facts), "a request is sent again after an error which is not known to be temporary")
				if c.ob("wait", name, len(slept) == 1, it.Pos, factTexts(it.Facts), "%d waits before the next attempt", len(slept)) {
					c.ob("wait-time", name, wait(slept[0]), it.Pos, nil, "the wait before the next attempt is %s", slept[0])
					c.ob("time-limit", name, a.inTime(slept[0].String()) == 1, it.Pos, factTexts(it.Facts), "a retry may go past the time limit")
				}
				c.ob("limit-fixed", name, now <= 1, it.Pos, nil, "the time limit is taken anew for every attempt")
			case 1:
				c.ob("status", name, a.status() == 1, it.Pos, factTexts(it.Facts), "a request is sent again although its answer is not known to be retriable")
			default:
				c.ob("decided", name, false, it.Pos, factTexts(it.Facts), "the next attempt does not depend on the error of this one")
			}
			c.ob("bound", name, iterDecided(it, "(it == 0)") == 1 || iterDecided(it, "(it < p0.maxRetryCount)") == 1, it.Pos, factTexts(it.Facts), "an attempt beyond the configured number")
			step := false
			for _, v := range it.Phis {
				step = step || v != nil && v.String() == "(it + 1)"
			}
			c.ob("counted", name, step, it.Pos, nil, "the attempts are not counted")
			c.bodies(a, name, it.First, it.Pos, factTexts(it.Facts), attempt{facts: it.Facts}.more() == 1)
		}
	}
	c.ob("retries", name, nIt > 0, f.Pos(), nil, "nothing is ever retried")
	kinds := map[string]bool{}
	for _, x := range ex {
		c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics")
		if x.Panic {
			continue
		}
		a := attemptOf(x.St.events, x.St.facts)
		if a.n == 0 {
			// after the loop: the last attempt's own results, the attempts used up
			r0, r1 := x.Res[0], x.Res[1]
			same := r0.Op == "ext" && r1.Op == "ext" && r0.Args[0] == r1.Args[0] && r0.Args[0].Op == "call" && r0.Args[0].Sym == rtCall
			c.ob("last-result", name, same, x.Pos, x.path(), "after the last attempt %s and %s are returned", r0, r1)
			c.ob("used-up", name, x.St.any("!(it < p0.maxRetryCount)", "(p0.maxRetryCount < 1)"), x.Pos, x.path(), "the attempts end before the configured number")
			for _, e := range x.St.events {
				c.ob("open", name, !(e.Kind == "call" && strings.HasSuffix(e.Sym, ").Close")), x.Pos, x.path(), "the response handed out is closed")
			}
			kinds["end"] = true
			continue
		}
		if !c.ob("one-attempt", name, a.n == 1, x.Pos, x.path(), "a path sends the request %d times in one round", a.n) {
			continue
		}
		loops := 0
		for _, e := range x.St.events {
			if e.Kind == "loop" && !e.First {
				loops++
			}
		}
		a.selfClose = selfClose
		c.bodies(a, name, loops == 0, x.Pos, x.path(), false)
		if a.errNil() == 0 {
			kinds["error"] = true
			c.ob("own-error", name, x.Res[1] == a.res("1"), x.Pos, x.path(), "%s is returned instead of the attempt's error", x.Res[1])
			c.ob("own-error", name, x.Res[0] == tNil || x.Res[0] == a.res("0"), x.Pos, x.path(), "%s is returned with an error", x.Res[0])
			late := false
			for _, ft := range x.St.facts {
				s := ft.A.String()
				late = late || strings.Contains(s, "p0.maxRetryTime") && strings.Contains(s, "p0.backoffDtFactor") && a.inTime(waitText(s)) == 0
			}
			c.ob("gives-up", name, a.temporary() == 0 || late || a.more() == 0, x.Pos, x.path(), "an error is returned which could be retried")
		} else {
			kinds["ok"] = true
			c.ob("own-answer", name, x.Res[0] == a.res("0") && (x.Res[1] == tNil || x.Res[1] == a.res("1")), x.Pos, x.path(), "%s and %s are returned instead of the answer", x.Res[0], x.Res[1])
			c.ob("answer", name, a.errNil() == 1 && a.status() == 0 || a.more() == 0, x.Pos, x.path(), "an answer is returned which is to be retried")
		}
	}
	c.ob("kinds", name, len(kinds) >= 2 && kinds["error"] && kinds["ok"], f.Pos(), nil, "only these ends are there: %v", kinds)
	// construction
	n := c.fn("client", "NewExponentialRoundTripper")
	for _, x := range c.run(n) {
		if x.Panic || x.St.decideNil(x.Res[1]) != 1 {
			continue
		}
		for fl, w := range map[string]string{"transport": "p0", "maxRetryCount": "p2", "maxRetryTime": "p3"} {
			v := c.field(x.St, x.Res[0], fl).String()
			c.ob("made", fl, v == w, x.Pos, nil, "%s is %s", fl, v)
		}
		d := c.field(x.St, x.Res[0], "backoffDtFactor")
		good := true
		for _, k := range []float64{1, 2, 5} {
			v, ok := evalNum(d, map[string]float64{"p1": k})
			if !ok {
				good = strings.Contains(d.String(), "p1")
				break
			}
			good = good && math.Abs(v-1e9/(k*k)) < 1
		}
		c.ob("made", "backoffDtFactor", good, x.Pos, nil, "the wait factor is %s", d)
	}
}

// waitText is the wait compared with the time limit in a fact.
func waitText(s string) string {
	const p = "(time.Time).Add(now(), "
	for i := 0; i < len(s); i++ {
		if !strings.HasPrefix(s[i:], p) {
			continue
		}
		depth := 1
		j := i + len(p)
		for ; j < len(s) && depth > 0; j++ {
			if s[j] == '(' {
				depth++
			} else if s[j] == ')' {
				depth--
			}
		}
		if d := s[i+len(p) : j-1]; d != "p0.maxRetryTime" {
			return d
		}
	}
	if i := strings.Index(s, " < timesub("); i > 0 {
		return s[1:i]
	}
	return ""
}
