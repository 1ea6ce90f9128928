package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24", Min: 30, Rule: "Init updates exactly the enabled daemons, the policies only after the public keys and only when those did not fail, and reports the joined error; Start starts exactly the enabled daemons with the caller's context", Run: specC24})
	register(&Check{ID: "C25", Min: 300, Rule: "a daemon's loop updates once per tick of a ticker of its refresh period or per queued retry, reports every failure and queues a retry, waits its retry delay when a retry fails, reports nothing for a success, and ends exactly when its context does: ticker stopped, the context's error reported, its channels closed; the authorizer forwards every error of its daemons", Run: specC25})
}

var daemons = []struct{ pkg, fld, off string }{
	{"pubkey", "p0.pubkeyd", "p0.disablePubkeyd"},
	{"policy", "p0.policyd", "p0.disablePolicyd"},
	{"jwk", "p0.jwkd", "p0.disableJwkd"},
}

func specC24(c *Ctx) {
	name := "Init"
	f := c.fn("", "(*authority).Init")
	ex := c.run(f)
	wait := "(*golang.org/x/sync/errgroup.Group).Wait("
	upd := func(d string) string {
		for _, x := range daemons {
			if x.pkg == d {
				return "(" + d + ".Daemon).Update(" + x.fld + ", "
			}
		}
		return ""
	}
	calls := func(evl []*Event, pre string) (out []*Event) {
		for _, e := range evl {
			if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), pre) {
				out = append(out, e)
			}
		}
		return
	}
	nAll := 0
	for _, x := range ex {
		if x.Panic {
			c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
			continue
		}
		var gos []*Event
		waitAt := -1
		for i, e := range x.St.events {
			if e.Kind == "eggo" || e.Kind == "go" {
				gos = append(gos, e)
				c.ob("joined", name, e.Kind == "eggo" && waitAt < 0, e.Pos, x.path(), "an update is started which is not waited for")
			}
			if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), wait) {
				waitAt = i
			}
		}
		// what each combination of the started bodies does
		bodies := [][]*Exit{}
		for _, g := range gos {
			bodies = append(bodies, g.Sub)
		}
		bodies = append(bodies, []*Exit{{St: &State{facts: x.St.facts, fidx: x.St.fidx, events: x.St.events}, Res: x.Res}})
		r := x.Res[0]
		direct := false
		for _, d := range daemons {
			direct = direct || len(calls(x.St.events, upd(d.pkg))) > 0
		}
		if !direct {
			c.ob("result", name, strings.HasPrefix(errRoot(r).String(), wait) || r == tNil && x.St.some(`^\(nil == `+rxq(wait)), x.Pos, x.path(), "Init reports %s instead of what the updates gave", r)
		}
		for _, d := range daemons {
			// per daemon: off in x or in the body => never called; on => called in every body path that succeeds
			called := false
			for _, b := range bodies {
				ownsIt := false
				for _, y := range b {
					ownsIt = ownsIt || !y.Panic && len(calls(y.St.events, upd(d.pkg))) > 0
				}
				for _, y := range b {
					if y.Panic {
						c.ob("no-panic", name, false, y.Pos, y.path(), "an update panics")
						continue
					}
					us := calls(y.St.events, upd(d.pkg))
					off := x.St.holds(d.off) || y.St.holds(d.off)
					on := x.St.holds("!"+d.off) || y.St.holds("!"+d.off)
					for _, u := range us {
						called = true
						nAll++
						c.ob("enabled-only", d.pkg, on, u.Pos, y.path(), "the %s daemon is updated although it may be disabled", d.pkg)
						c.ob("context", d.pkg, u.Args[1].String() == "cctx(p1)" || u.Args[1].String() == "p1", u.Pos, nil, "the %s daemon is updated under %s", d.pkg, u.Args[1])
						// a failure is reported
						if len(y.Res) > 0 {
							e := errRoot(y.Res[0])
							c.ob("failure", d.pkg, e == u.Res || y.St.assumedNil(u.Res), y.Pos, y.path(), "a failed update of the %s daemon is not reported", d.pkg)
						}
					}
					c.ob("once", d.pkg, len(us) <= 1, y.Pos, y.path(), "the %s daemon is updated %d times", d.pkg, len(us))
					if ownsIt && len(us) == 0 && len(y.Res) > 0 && y.St.decideNil(y.Res[0]) != 0 {
						c.ob("enabled", d.pkg, off, y.Pos, y.path(), "success although the %s daemon was not updated", d.pkg)
					}
					if d.pkg == "policy" {
						for _, u := range us {
							pk := calls(y.St.events, upd("pubkey"))
							before := x.St.holds("p0.disablePubkeyd") || y.St.holds("p0.disablePubkeyd")
							for _, p := range pk {
								before = before || y.St.assumedNil(p.Res) && indexOf(y.St.events, p) < indexOf(y.St.events, u)
							}
							c.ob("keys-first", "policy", before, u.Pos, y.path(), "the policies are fetched before the public keys which verify them")
						}
					}
				}
			}
			if !called {
				c.ob("enabled", d.pkg, x.St.holds(d.off), x.Pos, x.path(), "the %s daemon is never updated", d.pkg)
			}
		}
	}
	c.ob("updates", name, nAll > 0, f.Pos(), nil, "no daemon is updated")
	// Start
	g := c.fn("", "(*authority).Start")
	for _, x := range c.run(g) {
		for _, d := range daemons {
			n := 0
			for _, e := range x.St.events {
				if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), "("+d.pkg+".Daemon).Start("+d.fld+", ") {
					n++
					c.ob("start-context", d.pkg, e.Args[1].String() == "p1", e.Pos, nil, "the %s daemon is started under %s", d.pkg, e.Args[1])
				}
			}
			switch {
			case x.St.holds(d.off):
				c.ob("start-enabled-only", d.pkg, n == 0, x.Pos, x.path(), "the disabled %s daemon is started", d.pkg)
			case x.St.holds("!" + d.off):
				c.ob("start-enabled", d.pkg, n == 1, x.Pos, x.path(), "the %s daemon is started %d times", d.pkg, n)
			default:
				c.ob("start-asked", d.pkg, false, x.Pos, x.path(), "whether the %s daemon is enabled is not looked at", d.pkg)
			}
		}
	}
}

func indexOf(l []*Event, e *Event) int {
	for i, x := range l {
		if x == e {
			return i
		}
	}
	return -1
}

func specC25(c *Ctx) {
	for _, d := range daemons {
		c.daemonLoop(d.pkg)
	}
	c.forwardLoop()
}

func (c *Ctx) daemonLoop(pkg string) {
	f := c.impl(pkg, "Daemon", "Start")
	u := c.impl(pkg, "Daemon", "Update")
	name := pkg + " Start"
	upd := shortFn(u.String()) + "(p0, p1)"
	// the model names a method by its receiver: (*policy.policyd).Update(p0, p1)
	done := "chosen((context.Context).Done(p1))"
	ex := c.run(f, u)
	nLoop := 0
	for _, x := range ex {
		c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics")
		if x.Panic {
			continue
		}
		ech := x.Res[0]
		gos := evs(x.St.events, "go", "")
		if !c.ob("started", name, len(gos) == 1 && ech.Op == "makechan", x.Pos, x.path(), "%d loops are started, the errors go to %s", len(gos), ech) {
			continue
		}
		c.ob("room", name, chanRoom(ech), x.Pos, nil, "the errors go to %s, which holds nothing: the loop does not end unless somebody waits for its last error", ech)
		for _, y := range gos[0].Sub {
			c.ob("no-panic", name, !y.Panic, y.Pos, y.path(), "the loop panics")
			if y.Panic {
				continue
			}
			c.ob("ends", name, y.St.holds(done), y.Pos, y.path(), "the loop ends although its context goes on")
			if pkg == "pubkey" {
				purge := 0
				for _, e := range append(evs(x.St.events, "call", `Gache\)\.StartExpired$`), evs(y.St.events, "call", `Gache\)\.StartExpired$`)...) {
					purge++
					c.ob("purged", name, e.Args[0].String() == "p0.eTagCache" && e.Args[1].String() == "p1" && e.Args[2].String() == "p0.eTagPurgePeriod", e.Pos, nil, "%s is started instead of the purge of the remembered ETags every purge period", e)
				}
				c.ob("purged", name, purge == 1, y.Pos, y.path(), "the purge of the remembered ETags is started %d times", purge)
			}
			reported, stopped, closed, tick := -1, false, -1, 0
			for i, e := range y.St.events {
				switch {
				case e.Kind == "send" && e.Args[0] == ech:
					reported = i
					c.ob("end-reported", name, errRoot(e.Args[1]).String() == "(context.Context).Err(p1)" && closed < 0, e.Pos, y.path(), "the end of the loop is reported as %s", e.Args[1])
				case e.Kind == "close" && e.Args[0] == ech:
					c.ob("closed-last", name, reported >= 0 && closed < 0, e.Pos, y.path(), "the channel is closed before the end is reported, or twice")
					closed = i
				case e.Kind == "call" && strings.HasSuffix(e.Sym, "time.Ticker).Stop"):
					stopped = true
				case e.Kind == "call" && strings.HasSuffix(e.Sym, "time.Ticker).Reset"):
					stopped = false
				case e.Kind == "call" && strings.HasSuffix(e.Sym, "time.NewTicker"):
					tick++
					c.ob("period", name, e.Args[0].String() == "p0.refreshPeriod", e.Pos, nil, "the ticker has the period %s", e.Args[0])
				case e.Kind == "call" && shortFn(e.Sym) == shortFn(u.String()):
					c.ob("end-update", name, !afterDone(y.St.events, i), e.Pos, y.path(), "an update is made after the end of the context")
				}
			}
			c.ob("end-reported", name, reported >= 0, y.Pos, y.path(), "the end of the loop is not reported")
			c.ob("closed", name, closed >= 0, y.Pos, y.path(), "the channel is not closed: the reader waits forever")
			c.ob("ticker", name, tick == 1 && stopped, y.Pos, y.path(), "%d tickers are made, stopped: %v", tick, stopped)
		}
		pending := false // failures are kept back while the channel is full
		for _, l := range topLoops(gos[0].Sub) {
			for _, it := range l.Iters {
				if iterDecided(it, "(nil == "+upd+")") != 0 {
					continue
				}
				sent, full := false, false
				for _, e := range evs(it.Events, "send", "") {
					sent = sent || e.Args[0] == ech
				}
				for _, fc := range it.Facts {
					full = full || !fc.V && fc.A.Op == "chosen" && fc.A.Args[0] == ech
				}
				if sent || !full {
					continue
				}
				pending = true
				kept := true
				for k, v := range it.Phis {
					kept = kept && (v == nil || strings.HasPrefix(k, "&") || !(v == tNil || v.Op == "newerr" && !strings.Contains(v.String(), upd)))
				}
				c.ob("kept-back", name, kept, it.Pos, factTexts(it.Facts), "a failed update which cannot be reported at once is forgotten")
			}
		}
		if pending {
			for _, y := range gos[0].Sub {
				if y.Panic {
					continue
				}
				for _, e := range y.St.events {
					if e.Kind != "send" || e.Args[0] != ech {
						continue
					}
					snd, _ := e.In.(*ssa.Send)
					more := snd != nil && moreThan(snd.X, map[ssa.Value]bool{})
					c.ob("kept-reported", name, more || y.St.some(`^!?empty\(`) || y.St.some(`^!?\((0 <|len\()`), e.Pos, y.path(), "failed updates which were kept back are not reported at the end")
				}
			}
		}
		nDue, nRetry := 0, 0
		retries := map[*Term]bool{}
		for _, l := range topLoops(gos[0].Sub) {
			for _, it := range l.Iters {
				for _, e := range evs(it.Events, "recv", "") {
					if e.Args[0].Op == "makechan" && e.Args[0] != ech {
						retries[e.Args[0]] = true
					}
				}
			}
		}
		for _, l := range topLoops(gos[0].Sub) {
			for _, it := range l.Iters {
				rc := evs(it.Events, "recv", "")
				ups := evs(it.Events, "call", `\)\.Update$`)
				if len(rc) == 0 && len(ups) == 0 {
					continue
				}
				nLoop++
				if !c.ob("one-update", name, len(ups) == 1 && ups[0].Res.String() == upd, it.Pos, factTexts(it.Facts), "%d updates are made for a tick", len(ups)) {
					continue
				}
				src := ""
				var rch *Term
				if len(rc) > 0 {
					rch = rc[0].Args[0]
					switch {
					case rch.String() == "time.NewTicker(p0.refreshPeriod).C":
						src = "tick"
						nDue++
					case rch.Op == "makechan" && rch != ech:
						src = "retry"
						nRetry++
					}
				}
				if !c.ob("cause", name, len(rc) == 1 && src != "", it.Pos, factTexts(it.Facts), "an update is made for %v", rc) {
					continue
				}
				sends, queued, sleeps := 0, 0, 0
				for _, e := range it.Events {
					switch {
					case e.Kind == "send" && e.Args[0] == ech:
						sends++
					case e.Kind == "send":
						queued++
						sel, _ := e.In.(*ssa.Select)
						c.ob("queue", name, retries[e.Args[0]], e.Pos, factTexts(it.Facts), "a retry is queued where the loop does not take it from")
						c.ob("queue-room", name, chanRoom(e.Args[0]), e.Pos, nil, "the retry queue %s holds nothing: nobody takes the retry while the loop queues it", e.Args[0])
						c.ob("queue-free", name, src == "retry" || sel != nil && !sel.Blocking, e.Pos, factTexts(it.Facts), "the loop waits for room in the queue which only itself makes")
					case e.Kind == "call" && strings.HasSuffix(e.Sym, "time.Ticker).Reset"):
						c.ob("period", name, e.Args[1].String() == "p0.refreshPeriod", e.Pos, nil, "the ticker gets the period %s", e.Args[1])
					case e.Kind == "call" && strings.HasSuffix(e.Sym, "time.Sleep"):
						sleeps++
						c.ob("delay", name, e.Args[0].String() == "p0.retryDelay", e.Pos, nil, "the delay is %s", e.Args[0])
					case e.Kind == "close" || e.Kind == "call" && strings.HasSuffix(e.Sym, "time.Ticker).Stop"):
						c.ob("goes-on", name, false, e.Pos, factTexts(it.Facts), "the loop goes on without %s", e)
					}
				}
				full := func(ours bool) bool {
					for _, fc := range it.Facts {
						if !fc.V && fc.A.Op == "chosen" && fc.A.Args[0].Op == "makechan" && (fc.A.Args[0] == ech) == ours {
							return true
						}
					}
					return false
				}
				switch {
				case iterDecided(it, "(nil == "+upd+")") == 0:
					c.ob("failure-reported", name, sends == 1 || full(true), it.Pos, factTexts(it.Facts), "a failed update is not reported")
					c.ob("retried", name, queued == 1 || full(false), it.Pos, factTexts(it.Facts), "a failed update is not retried")
					if src == "retry" {
						c.ob("delay", name, sleeps == 1 || iterHolds(it, "(p0.retryDelay < 1)"), it.Pos, factTexts(it.Facts), "a retry is repeated without the retry delay")
					}
					for _, e := range it.Events {
						if e.Kind == "send" && e.Args[0] == ech && pkg != "jwk" {
							c.ob("reported-error", name, errRoot(e.Args[1]).String() == upd, e.Pos, nil, "a failed update is reported as %s", e.Args[1])
						}
					}
				case iterDecided(it, "(nil == "+upd+")") == 1:
					c.ob("success-silent", name, sends == 0 && queued == 0, it.Pos, factTexts(it.Facts), "a successful update is reported or repeated")
				default:
					c.ob("looked-at", name, false, it.Pos, factTexts(it.Facts), "the result of an update is not looked at")
				}
			}
		}
		c.ob("causes", name, nDue > 0 && nRetry > 0, f.Pos(), nil, "ticks and retries do not both lead to updates")
	}
	c.ob("loops", name, nLoop > 0, f.Pos(), nil, "no update loop")
}

// chanRoom tells whether a channel made here can hold a value nobody takes yet.
func chanRoom(ch *Term) bool {
	return ch.Op == "makechan" && len(ch.Args) == 1 && ch.Args[0].isConst() && ch.Args[0].String() != "0" && !strings.HasPrefix(ch.Args[0].String(), "-")
}

// moreThan tells whether a value is made of more than the context's error and constants.
func moreThan(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return false
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Err" && strings.HasSuffix(x.Call.Value.Type().String(), "context.Context") {
			return false
		}
		if x.Call.IsInvoke() {
			return true
		}
		for _, a := range x.Call.Args {
			if moreThan(a, seen) {
				return true
			}
		}
		return false
	case *ssa.MakeInterface:
		return moreThan(x.X, seen)
	case *ssa.ChangeInterface:
		return moreThan(x.X, seen)
	case *ssa.Phi:
		for _, a := range x.Edges {
			if moreThan(a, seen) {
				return true
			}
		}
		return false
	case *ssa.Slice:
		return moreThan(x.X, seen)
	case *ssa.Alloc:
		if _, arr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); arr {
			for _, r := range *x.Referrers() {
				ia, _ := r.(*ssa.IndexAddr)
				if ia == nil {
					continue
				}
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && moreThan(st.Val, seen) {
						return true
					}
				}
			}
			return false
		}
	}
	return true
}

func afterDone(l []*Event, i int) bool {
	for _, e := range l[:i] {
		if e.Kind == "recv" && e.Args[0].String() == "(context.Context).Done(p1)" {
			return true
		}
	}
	return false
}

func (c *Ctx) forwardLoop() {
	f := c.fn("", "(*authority).Start")
	name := "Start"
	for _, x := range c.run(f) {
		c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics")
		if x.Panic {
			continue
		}
		ech := x.Res[0]
		var chans []*Term
		var cache *Term
		for _, e := range x.St.events {
			if e.Kind == "call" && strings.HasSuffix(e.Sym, ".Daemon).Start") {
				chans = append(chans, e.Res)
			}
			if e.Kind == "call" && strings.HasSuffix(e.Sym, "Gache).StartExpired") {
				cache = e.Res
				c.ob("purged", name, e.Args[0].String() == "p0.cache" && e.Args[1].String() == "p1", e.Pos, nil, "%s is started instead of the purge of the principal cache", e)
			}
		}
		c.ob("purged", name, cache != nil, x.Pos, x.path(), "expired principals are not purged")
		gos := evs(x.St.events, "go", "")
		if !c.ob("started", name, len(gos) == 1 && ech.Op == "makechan", x.Pos, x.path(), "%d loops forward errors to %s", len(gos), ech) {
			continue
		}
		c.ob("room", name, chanRoom(ech), x.Pos, nil, "the errors go to %s, which holds nothing: the loop does not end unless somebody waits for its last error", ech)
		for _, y := range gos[0].Sub {
			c.ob("no-panic", name, !y.Panic, y.Pos, y.path(), "the loop panics")
			if y.Panic {
				continue
			}
			c.ob("ends", name, y.St.holds("chosen((context.Context).Done(p1))"), y.Pos, y.path(), "the loop ends although its context goes on")
			rep, closed, stop, clr := -1, -1, false, false
			for i, e := range y.St.events {
				switch {
				case e.Kind == "send" && e.Args[0] == ech:
					rep = i
					c.ob("end-reported", name, errRoot(e.Args[1]).String() == "(context.Context).Err(p1)", e.Pos, y.path(), "the end is reported as %s", e.Args[1])
				case e.Kind == "close" && e.Args[0] == ech:
					c.ob("closed-last", name, rep >= 0 && closed < 0, e.Pos, y.path(), "the channel is closed before the end is reported, or twice")
					closed = i
				case e.Kind == "call" && strings.HasSuffix(e.Sym, "Gache).Stop") && (e.Args[0] == cache || e.Args[0].String() == "p0.cache"):
					stop = true
				case e.Kind == "call" && strings.HasSuffix(e.Sym, "Gache).Clear") && (e.Args[0] == cache || e.Args[0].String() == "p0.cache"):
					clr = true
				}
			}
			c.ob("end-reported", name, rep >= 0, y.Pos, y.path(), "the end is not reported")
			c.ob("closed", name, closed >= 0, y.Pos, y.path(), "the channel is not closed: the reader waits forever")
			c.ob("cache-dropped", name, stop && clr, y.Pos, y.path(), "cached principals outlive the authorizer")
		}
		got := map[*Term]bool{}
		for _, l := range topLoops(gos[0].Sub) {
			for _, it := range l.Iters {
				for _, e := range evs(it.Events, "recv", "") {
					got[e.Args[0]] = true
					r := e.Args[1]
					var snd []*Event
					for _, s := range evs(it.Events, "send", "") {
						if s.Args[0] == ech {
							snd = append(snd, s)
						}
					}
					if iterDecided(it, "(nil == "+r.String()+")") == 1 {
						c.ob("nothing", name, len(snd) == 0, it.Pos, factTexts(it.Facts), "an error is made up")
						continue
					}
					c.ob("forwarded", name, len(snd) == 1 && errRoot(snd[0].Args[1]) == r, it.Pos, factTexts(it.Facts), "an error of a daemon is not forwarded")
				}
			}
		}
		for _, ch := range chans {
			c.ob("drained", name, got[ch], x.Pos, x.path(), "the errors of %s are not read: the daemon stops once the channel is full", ch)
		}
	}
}
