package main

import (
	"strings"
)

func init() {
	register(&Check{ID: "C14", Min: 60, Rule: "a signed policy is verified only when its expiry exists and is in the future, the ZTS key it names verifies the marshalled signed data and the ZMS key it names the marshalled policy data; the fetcher returns and remembers only policies that its verifier accepted; that verifier is this verification with the daemon's own key provider; role policies are made only of what the fetcher returned", Run: specC14})
	register(&Check{ID: "C20", Min: 80, Rule: "Fetch: URL, client, context, ETag exactly while fresh, the answers; FetchWithRetry: 1 + attempts, delay, first success, fallback to the policy remembered after the last failure", Run: specC20})
	register(&Check{ID: "C15", Min: 40, Rule: "every assertion of every policy is collected under its role, action and resource, a deny replacing an allow and never the reverse; every collected assertion goes to its role's list, deny at the head, allow at the tail; an invalid one fails the build", Run: specC15})
	register(&Check{ID: "C18", Min: 15, Rule: "role policies are cached only with the time left until the policy's expiry, and not at all when it is past; the expired hook fetches the policies of the expired role's domain and replaces the entries of the cache in effect", Run: specC18})
}

const (
	spd    = "p0.DomainSignedPolicyData.SignedPolicyData"
	marsh  = "encoding/json.Marshal("
	decErr = "(*encoding/json.Decoder).Decode("
)

func specC14(c *Ctx) {
	c.wire("policy", "SignedPolicy", wirePolicy)
	c.verifyPolicy()
	c.fetchVerified()
	c.fetcherWiring()
	// role policies come only from the fetcher
	f := c.fn("policy", "fetchAndCachePolicy")
	simp := c.fn("policy", "simplifyAndCachePolicy")
	n := 0
	for _, x := range c.run(f, simp) {
		for _, e := range evOf(x, `policy\.simplifyAndCachePolicy$`) {
			n++
			ok := false
			for _, a := range e.Args {
				ok = ok || a.String() == "(policy.Fetcher).FetchWithRetry(p2, p0)#0"
			}
			c.ob("source", "fetchAndCachePolicy", ok, e.Pos, x.path(), "the role policies are not made of the fetched policy: %s", e)
		}
	}
	c.ob("source", "fetchAndCachePolicy", n > 0, f.Pos(), nil, "the fetched policy is not used")
	// census: who makes role policies
	for _, g := range c.P.Funcs {
		for _, s := range callSites(g) {
			if s.name == simp.String() {
				c.ob("builders", shortFn(g.String()), c.within(g, map[string]bool{shortFn(f.String()): true}), s.in.Pos(), nil, "%s makes role policies of a policy that may not have been verified", shortFn(g.String()))
			}
		}
	}
}

func (c *Ctx) verifyPolicy() {
	name := "SignedPolicy.Verify"
	f := c.fn("policy", "(*SignedPolicy).Verify")
	ex := c.run(f)
	ok, bad := splitNil(ex, 0)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	sigs := []struct{ what, key, text, sig string }{
		{"ZTS", `dyn(p1, "zts", p0.DomainSignedPolicyData.KeyId)`, marsh + spd + ")", "p0.DomainSignedPolicyData.Signature"},
		{"ZMS", `dyn(p1, "zms", ` + spd + ".ZmsKeyId)", marsh + spd + ".PolicyData)", spd + ".ZmsSignature"},
	}
	exp := spd + ".Expires"
	fresh := "(now() <t " + exp + ".Time)"
	for _, x := range ok {
		st := x.St
		c.ob("data", name, st.holds("!(nil == "+spd+")"), x.Pos, x.path(), "a policy without data is accepted")
		c.ob("expiry", name, st.holds("!(nil == "+exp+")"), x.Pos, x.path(), "a policy without an expiry is accepted")
		c.ob("not-expired", name, st.holds(fresh), x.Pos, x.path(), "a policy is accepted without its expiry being in the future")
		for _, s := range sigs {
			call := zmsVerify + s.key + ", conv[string](" + s.text + "#0), " + s.sig + ")"
			c.ob("key", s.what, st.holds("!(nil == "+s.key+")"), x.Pos, x.path(), "the %s key may be missing", s.what)
			c.ob("text", s.what, st.holds("(nil == "+s.text+"#1)"), x.Pos, x.path(), "the %s data may not have been encoded", s.what)
			c.ob("signature", s.what, st.holds("(nil == "+call+")"), x.Pos, x.path(), "a policy is accepted without a valid %s signature (expected a nil error of %s)", s.what, call)
		}
	}
	c.ob("accepts", name, len(ok) > 0, f.Pos(), nil, "no policy is accepted")
	for _, x := range bad {
		st := x.St
		cause := st.any("(nil == "+spd+")", "(nil == "+exp+")", "!"+fresh, "(nil == p1)")
		for _, s := range sigs {
			call := zmsVerify + s.key + ", conv[string](" + s.text + "#0), " + s.sig + ")"
			cause = cause || st.any("(nil == "+s.key+")", "!(nil == "+s.text+"#1)", "!(nil == "+call+")")
		}
		c.ob("failure", name, cause, x.Pos, x.path(), "a policy is refused without a cause")
	}
}

// fetchVerified: what Fetch and FetchWithRetry return and remember was verified.
func (c *Ctx) fetchVerified() {
	name := "Fetch"
	f := c.impl("policy", "Fetcher", "Fetch")
	ex := c.run(f)
	ok, bad := splitNil(ex, 1)
	nNew, nOld := 0, 0
	for _, x := range ok {
		sp := x.Res[0]
		if sp.String() == "p0.policyCache.sp" {
			nOld++
			c.ob("verified", "remembered", true, x.Pos, nil, "")
			continue
		}
		nNew++
		c.ob("verified", "fetched", sp.Op == "alloc" && verifiedBy(x, sp), x.Pos, x.path(), "the policy %s is returned without having been verified", sp)
	}
	for _, x := range bad {
		c.ob("no-policy", name, x.Res[0] == tNil, x.Pos, x.path(), "a policy is returned with an error")
	}
	nStore := 0
	for _, x := range ex {
		verAt := map[*Term]int{}
		for i, e := range x.St.events {
			if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), "dyn(p0.spVerifier, ") && x.St.holds("(nil == "+e.Res.String()+")") {
				verAt[e.Args[len(e.Args)-1]] = i + 1
			}
			if (e.Kind == "atomicstore" || e.Kind == "store" || e.Kind == "atomiccas") && e.Args[0].String() == "&p0.policyCache" {
				nStore++
				v := e.Args[len(e.Args)-1]
				sp := c.field(x.St, v, "sp")
				c.ob("remembered-verified", name, verAt[sp] > 0, e.Pos, x.path(), "the policy %s is remembered without having been verified", sp)
				c.ob("remembered-returned", name, sp == x.Res[0], e.Pos, x.path(), "the remembered policy %s is not the returned one", sp)
			}
		}
	}
	c.ob("cases", name, nNew > 0 && nOld > 0 && nStore > 0, f.Pos(), nil, "no policy is fetched, remembered or reused")
	// with retry
	g := c.impl("policy", "Fetcher", "FetchWithRetry")
	for _, x := range c.run(g, f) {
		if x.Panic {
			continue
		}
		s := x.Res[0].String()
		good := s == "nil" || s == "p0.policyCache.sp" || strings.HasPrefix(s, "(*policy.fetcher).Fetch(p0, ") && strings.HasSuffix(s, ")#0")
		c.ob("retry-verified", "FetchWithRetry", good, x.Pos, x.path(), "the policy %s is returned without having been verified", s)
	}
	// who writes the remembered policy
	c.fieldWriters("remembered-writers", "policy", "fetcher", "policyCache", map[string]bool{shortFn(f.String()): true})
}

func verifiedBy(x *Exit, sp *Term) bool {
	for _, e := range x.St.events {
		if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), "dyn(p0.spVerifier, ") && e.Args[len(e.Args)-1] == sp && x.St.assumedNil(e.Res) {
			return true
		}
	}
	return false
}

// assumedNil: this very value is known to be nil.
func (s *State) assumedNil(t *Term) bool { return s.decideNil(t) == 1 }

// fetcherWiring: the fetcher's verifier is SignedPolicy.Verify with the daemon's provider.
func (c *Ctx) fetcherWiring() {
	f := c.fn("policy", "New")
	n := 0
	ex := c.run(f)
	ver := c.fn("policy", "(*SignedPolicy).Verify")
	seen := map[*Term]bool{}
	for _, l := range loopsOf(ex) {
		for s, sl := range l.Slots {
			if !strings.HasSuffix(s, ".spVerifier") {
				continue
			}
			for i, v := range append(append([]*Term(nil), sl.Inits...), sl.Contribs...) {
				if v.Fn == nil || seen[v] {
					c.ob("verifier", "New", v.Fn != nil, f.Pos(), nil, "the policy verifier is %s", v)
					continue
				}
				seen[v] = true
				n++
				for _, x := range ex {
					if x.Panic || x.Res[1] != tNil {
						continue
					}
					en := c.P.NewEngine()
					en.Opaque = func(g *ssaFn) bool { return g == ver }
					sp := mk(Term{Op: "param", Sym: "sp", Typ: ver.Params[0].Type()})
					// the variables which the iteration that made it captured
					xs := x.St.clone()
					if j := i - len(sl.Inits); j >= 0 && j < len(sl.From) {
						for hk, hv := range sl.From[j].Heap {
							if _, ok := xs.heap[hk]; !ok {
								xs.heap[hk] = hv
							}
						}
					}
					for _, y := range c.callIn(en, v, []*Term{sp}, xs) {
						r := ""
						if !y.Panic {
							r = y.Res[0].String()
						}
						c.ob("verifier", "New", r == "(*policy.SignedPolicy).Verify(sp, "+c.field(x.St, x.Res[0], "pkp").String()+")", y.Pos, y.path(), "the policy verifier returns %s instead of the result of the verification with the daemon's key provider", r)
					}
				}
			}
		}
	}
	for _, x := range ex {
		for _, e := range x.St.events {
			if e.Kind == "store" && strings.HasSuffix(e.Args[0].String(), ".spVerifier") {
				c.ob("verifier", "New", false, e.Pos, nil, "the policy verifier is changed")
			}
		}
	}
	c.ob("verifier", "New", n > 0, f.Pos(), nil, "no fetcher is made with a policy verifier")
	c.fieldWriters("verifier-writers", "policy", "fetcher", "spVerifier", map[string]bool{shortFn(f.String()): true})
}

func specC20(c *Ctx) {
	c.lenient("policy")
	c.wire("policy", "SignedPolicy", wirePolicy)
	c.fetchPolicy()
	c.fetchRetry()
}

func (c *Ctx) fetchPolicy() {
	name := "Fetch"
	f := c.impl("policy", "Fetcher", "Fetch")
	ex := c.run(f)
	ok, bad := splitNil(ex, 1)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	const tp = "p0.policyCache"
	nSame, nNew := 0, 0
	for i, x := range append(append([]*Exit(nil), ok...), bad...) {
		st := x.St
		good := i < len(ok)
		reqs := evOf(x, `net/http\.NewRequest`)
		if !c.ob("request", name, len(reqs) == 1, x.Pos, x.path(), "not exactly one request is made") {
			continue
		}
		rq := reqs[0].Res.String()
		c.ob("url", name, strings.HasSuffix(rq, `("GET", concat("https://", p0.athenzURL, "/domain/", p0.domain, "/signed_policy_data"), nil)`), reqs[0].Pos, nil, "the request is %s", rq)
		do := "(*net/http.Client).Do(p0.client, " + rq + "#0)"
		dos := evOf(x, `net/http\.Client\)\.(Do|Get|Head|Post|PostForm)$`)
		c.ob("client", name, len(dos) == 0 && st.holds("!(nil == "+rq+"#1)") || len(dos) == 1 && dos[0].Res.String() == do, x.Pos, x.path(), "the request is not sent exactly once with the configured client")
		c.sentWith(x, name, reqs[0].Res, "p1")
		status := do + "#0.StatusCode"
		freshAll := st.all("!(nil == "+tp+")", "!empty("+tp+".eTag)", "(now() <t "+tp+".eTagExpiry)")
		stale := st.any("(nil == "+tp+")", "empty("+tp+".eTag)", "!(now() <t "+tp+".eTagExpiry)")
		sent := 0
		for _, e := range evOf(x, `\(net/http\.Header\)\.(Set|Add)$`) {
			if e.Args[0].String() == rq+"#0.Header" && e.Args[1].String() == `"If-None-Match"` {
				sent++
				c.ob("etag-sent", name, e.Args[2].String() == tp+".eTag" && freshAll, e.Pos, x.path(), "an ETag is sent which may be stale or of another policy")
			}
		}
		if len(dos) > 0 {
			c.ob("etag-used", name, sent == 1 || stale, x.Pos, x.path(), "the ETag of the remembered policy is not sent although it is fresh")
		}
		loads, stores := 0, 0
		for _, e := range x.St.events {
			switch {
			case e.Kind == "atomicload" && e.Args[0].String() == "&"+tp:
				loads++
			case (e.Kind == "atomicstore" || e.Kind == "store" || e.Kind == "atomiccas") && e.Args[0].String() == "&"+tp:
				stores++
				v := e.Args[len(e.Args)-1]
				hd := "(net/http.Header).Get(" + do + `#0.Header, "ETag")`
				c.ob("remember-etag", name, c.field(st, v, "eTag").String() == hd, e.Pos, x.path(), "the remembered ETag is %s", c.field(st, v, "eTag"))
				te := c.field(st, v, "eTagExpiry").String()
				c.ob("remember-expiry", name, strings.HasPrefix(te, "(time.Time).Add(") && strings.HasSuffix(te, ".SignedPolicyData.Expires.Time, neg(p0.expiryMargin))"), e.Pos, x.path(), "the ETag is used until %s", te)
				c.ob("remember-atomically", name, e.Kind == "atomicstore", e.Pos, nil, "the policy is not remembered atomically")
				c.ob("remember-ok", name, st.holds("("+status+" == 200)"), e.Pos, x.path(), "a policy is remembered although the answer was not OK")
			}
		}
		c.ob("one-snapshot", name, loads <= 1, x.Pos, x.path(), "the remembered policy is read %d times: ETag and policy may differ", loads)
		if !good {
			c.ob("kept", name, stores == 0, x.Pos, x.path(), "a failed fetch changes the remembered policy")
			cause := st.any("!(nil == "+rq+"#1)", "!(nil == "+do+"#1)") || st.holds("("+status+" == 304)") && st.holds("(nil == "+tp+")") ||
				st.holds("!("+status+" == 200)") && st.holds("!("+status+" == 304)") || st.holds("("+status+" == 200)") && (st.some(`^!\(nil == `+rxq(decErr)) || st.some(`^!\(nil == encoding/json\.Unmarshal\(io(/ioutil)?\.ReadAll\(`) || st.some(`^!\(nil == io(/ioutil)?\.ReadAll\(`+rxq(do+"#0.Body")) || st.some(`^!\(nil == dyn\(p0\.spVerifier, `))
			c.ob("failure", name, cause, x.Pos, x.path(), "the fetch fails without a cause")
			continue
		}
		if !c.ob("answered", name, st.all("(nil == "+rq+"#1)", "(nil == "+do+"#1)"), x.Pos, x.path(), "success although the request may have failed") {
			continue
		}
		if st.holds("(" + status + " == 304)") {
			nSame++
			c.ob("not-modified", name, x.Res[0].String() == tp+".sp" && st.holds("!(nil == "+tp+")") && stores == 0, x.Pos, x.path(), "a not-modified answer gives %s", x.Res[0])
			continue
		}
		nNew++
		c.ob("status", name, st.holds("("+status+" == 200)"), x.Pos, x.path(), "success with an unexpected status")
		dec := false
		for _, e := range evOf(x, `json\.Decoder\)\.Decode$`) {
			dec = dec || e.Args[1] == x.Res[0] && strings.Contains(e.Args[0].String(), do+"#0.Body") && st.assumedNil(e.Res)
		}
		for _, e := range evOf(x, `json\.Unmarshal$`) {
			dec = dec || e.Args[1] == x.Res[0] && rx(`^io(/ioutil)?\.ReadAll\(`+rxq(do+"#0.Body")+`\)#0$`).MatchString(e.Args[0].String()) && st.assumedNil(e.Res) && st.some(`^\(nil == io(/ioutil)?\.ReadAll\(`+rxq(do+"#0.Body")+`\)#1\)$`)
		}
		c.ob("decoded", name, dec, x.Pos, x.path(), "the returned policy is not the decoded answer")
		c.ob("remembered", name, stores == 1, x.Pos, x.path(), "a fetched policy is not remembered")
	}
	c.ob("answers", name, nSame > 0 && nNew > 0, f.Pos(), nil, "new and unmodified policies are not both handled")
}

func (c *Ctx) fetchRetry() {
	name := "FetchWithRetry"
	f := c.impl("policy", "Fetcher", "Fetch")
	g := c.impl("policy", "Fetcher", "FetchWithRetry")
	ex := c.run(g, f)
	call := "(*policy.fetcher).Fetch(p0, p1)"
	cond := ""
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			fs := evs(it.Events, "call", `policy\.fetcher\)\.Fetch$`)
			if len(fs) == 0 {
				continue
			}
			c.ob("attempt", name, len(fs) == 1 && fs[0].Res.String() == call, it.Pos, factTexts(it.Facts), "an attempt is %s", fs[0])
			c.ob("goes-on", name, iterDecided(it, "(nil == "+call+"#1)") == 0, it.Pos, factTexts(it.Facts), "an attempt which may have succeeded is repeated")
			sl := evs(it.Events, "call", `^time\.Sleep$`)
			c.ob("delay", name, len(sl) == 1 && sl[0].Args[0].String() == "p0.retryDelay", it.Pos, factTexts(it.Facts), "the configured delay is not waited after a failed attempt")
			for _, fc := range it.All {
				if s := fc.String(); strings.HasPrefix(s, "(it < ") {
					cond = s
				}
			}
		}
	}
	// first counter value -1 and limit retryAttempts, or an equivalent count
	c.ob("attempts", name, cond == "(it < (p0.retryAttempts + 1))", g.Pos(), nil, "the number of attempts is not the configured retries plus one (%s)", cond)
	nOK, nOld, nErr := 0, 0, 0
	for _, x := range ex {
		if x.Panic {
			c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
			continue
		}
		st := x.St
		if st.decideNil(x.Res[1]) == 1 {
			nOK++
			c.ob("success", name, x.Res[0].String() == call+"#0" && st.holds("(nil == "+call+"#1)"), x.Pos, x.path(), "success without a successful attempt")
			continue
		}
		c.ob("exhausted", name, st.holds("!"+cond), x.Pos, x.path(), "failure before every attempt was made")
		et := x.errText(1)
		c.ob("error", name, st.decideNil(x.Res[1]) == 0 && (et == call+"#1" || strings.HasPrefix(et, "newerr") && st.holds("(p0.retryAttempts < 0)")), x.Pos, x.path(), "the failure is reported as %s", et)
		// the fallback is read after the last attempt
		at, last := -1, -1
		for i, e := range st.events {
			if e.Kind == "atomicload" && e.Args[0].String() == "&p0.policyCache" {
				at = i
			}
			if e.Kind == "loop" || e.Kind == "call" && strings.HasSuffix(e.Sym, ".Fetch") {
				last = i
			}
		}
		if x.Res[0] == tNil {
			nErr++
			c.ob("no-fallback", name, st.holds("(nil == p0.policyCache)") && at > last, x.Pos, x.path(), "a remembered policy is not returned")
			continue
		}
		nOld++
		c.ob("fallback", name, x.Res[0].String() == "p0.policyCache.sp" && st.holds("!(nil == p0.policyCache)") && at > last, x.Pos, x.path(), "the fallback is %s, not the policy remembered after the last attempt", x.Res[0])
	}
	c.ob("outcomes", name, nOK > 0 && nOld > 0 && nErr > 0, g.Pos(), nil, "success, fallback and failure do not all occur")
}

func specC15(c *Ctx) {
	name := "simplifyAndCachePolicy"
	na := c.fn("policy", "NewAssertion")
	f := c.fn("policy", "simplifyAndCachePolicy")
	ex := c.run(f, na)
	ok, bad := splitNil(ex, 0)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	pols := "p2.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies"
	var coll *Term
	nDeny, nAllow := 0, 0
	// collect looks at what one iteration does with one assertion.
	collect := func(ass string, it *Iter) {
		var ws []*Event
		for _, e := range it.Events {
			if e.Kind == "call" && strings.HasPrefix(shortFn(e.Sym), "(*sync.Map).") && rx(syncWrite).MatchString(e.Sym) || e.Kind == "mapset" || e.Kind == "mapdel" {
				ws = append(ws, e)
			}
		}
		deny := iterDecided(it, `eqfold("deny", `+ass+`.Effect)`)
		known := func(want bool) (m *Term) {
			for _, fc := range it.Facts {
				if t := fc.A; fc.V == want && t.Op == "has" && len(t.Args) == 2 && isAssKey(t.Args[1], ass) {
					m = t.Args[0]
				}
			}
			return
		}
		if len(ws) == 0 && deny == 0 {
			// the same allow or deny assertion is there already
			if m := known(true); m != nil {
				nAllow++
				c.ob("collected", name, coll == nil || coll == m, it.Pos, factTexts(it.Facts), "an assertion is looked for in another collection")
				return
			}
		}
		if !c.ob("collected", name, len(ws) == 1 && ws[0].Kind != "mapdel", it.Pos, factTexts(it.Facts), "an assertion is collected %d times", len(ws)) {
			return
		}
		w := ws[0]
		c.ob("collected", name, coll == nil || coll == w.Args[0], it.Pos, factTexts(it.Facts), "assertions are collected in different places")
		coll = w.Args[0]
		c.ob("collected-key", name, isAssKey(w.Args[1], ass), w.Pos, nil, "assertions are merged by %s: different ones may be taken for the same", w.Args[1])
		c.ob("collected-value", name, w.Args[2].String() == ass, w.Pos, nil, "%s is collected instead of the assertion", w.Args[2])
		over := strings.HasSuffix(w.Sym, ".Store") || w.Kind == "mapset"
		absent := strings.HasSuffix(w.Sym, ".LoadOrStore") || w.Kind == "mapset" && known(false) == coll
		switch deny {
		case 1:
			nDeny++
			c.ob("deny-wins", name, over, w.Pos, nil, "a deny assertion is lost when an allow assertion was collected before it")
		case 0:
			nAllow++
			c.ob("deny-kept", name, absent, w.Pos, nil, "an allow assertion replaces a collected deny assertion")
		default:
			if (absent || it.First) && w.Kind == "mapset" {
				nAllow++ // the first one of its key, whatever its effect
				return
			}
			c.ob("effect-asked", name, false, it.Pos, factTexts(it.Facts), "an assertion is collected without looking at its effect")
		}
	}
	const asss = "p2.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies[it].Assertions"
	interrupted := func(st *State) bool {
		return st.some(`^chosen\(\(context\.Context\)\.Done\(p0`) || st.holds("!(nil == (context.Context).Err(p0))")
	}
	each := func(loops []*LoopCtx) {
		for _, il := range loops {
			for _, ii := range il.Iters {
				if iterDecided(ii, "(it < len("+asss+"))") == 1 {
					collect(asss+"[it]", ii)
				}
			}
		}
	}
	seenL := map[*LoopCtx]bool{}
	nGo := 0
	async := false
	for _, l := range topLoops(ex) {
		for _, it := range l.Iters {
			if iterDecided(it, "(it < len("+pols+"))") != 1 {
				continue
			}
			gos := append(evs(it.Events, "eggo", ""), evs(it.Events, "go", "")...)
			if len(gos) == 0 {
				// collected in the loop itself
				nGo++
				all := false
				for _, fc := range it.Facts {
					s := fc.String()
					all = all || s == "!(it < len("+asss+"))" || s == "empty("+asss+")"
				}
				c.ob("every-assertion", name, all, it.Pos, factTexts(it.Facts), "the assertions of a policy are not all collected")
				for _, e := range it.Events {
					if e.Loop != nil && !seenL[e.Loop] {
						seenL[e.Loop] = true
						each([]*LoopCtx{e.Loop})
					}
				}
				continue
			}
			async = true
			if !c.ob("every-policy", name, len(gos) == 1 && gos[0].Kind == "eggo", it.Pos, factTexts(it.Facts), "a policy is not collected") {
				continue
			}
			nGo++
			for _, x := range gos[0].Sub {
				if x.Panic {
					c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
					continue
				}
				if x.St.decideNil(x.Res[0]) == 1 {
					c.ob("every-assertion", name, x.St.any("!(it < len("+asss+"))", "empty("+asss+")"), x.Pos, x.path(), "the assertions of a policy are not all collected")
				} else {
					c.ob("interrupted", name, interrupted(x.St), x.Pos, x.path(), "collecting fails without a cause")
				}
			}
			for _, il := range loopsOf(gos[0].Sub) {
				if !seenL[il] {
					seenL[il] = true
					each([]*LoopCtx{il})
				}
			}
		}
	}
	c.ob("effects", name, nDeny > 0 && nAllow > 0 && nGo > 0, f.Pos(), nil, "allow and deny assertions are not both collected")
	wait := "(*golang.org/x/sync/errgroup.Group).Wait("
	for i, x := range append(append([]*Exit(nil), ok...), bad...) {
		st := x.St
		failed := st.some(`^!\(nil == ` + rxq(wait))
		done := st.some(`^\(nil == ` + rxq(wait))
		if !async {
			failed, done = interrupted(st), true
		}
		if i < len(ok) {
			c.ob("all-policies", name, st.any("!(it < len("+pols+"))", "empty("+pols+")"), x.Pos, x.path(), "success before every policy was collected")
			c.ob("waited", name, done, x.Pos, x.path(), "success although collecting may have failed")
		} else {
			c.ob("failure", name, failed || strings.HasPrefix(x.errText(0), "policy.NewAssertion("), x.Pos, x.path(), "failure without a cause (%s)", x.errText(0))
		}
		walked := false
		for _, w := range eachOf(x) {
			if w.over != coll {
				continue
			}
			walked = true
			waited := !async
			for _, e := range x.St.events[:w.pos] {
				waited = waited || e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), wait)
			}
			c.ob("waited-first", name, waited, x.Pos, nil, "the collected assertions are used before all of them were collected")
			c.assertionLists(w, name)
		}
		past := st.holds("!(now() <t p2.DomainSignedPolicyData.SignedPolicyData.Expires.Time)")
		none := coll != nil && st.any("!mapnext("+coll.String()+")", "empty("+coll.String()+")")
		c.ob("used", name, walked || failed || past || none, x.Pos, x.path(), "the collected assertions are not used")
	}
	// effect of an assertion
	nf := c.run(na)
	nok, nbad := splitNil(nf, 1)
	for _, x := range nok {
		eff := c.field(x.St, x.Res[0], "Effect")
		switch {
		case x.St.holds(`eqfold("deny", p2)`):
			c.ob("effect", "NewAssertion", errRoot(eff).String() == "policy.ErrDenyByPolicy", x.Pos, x.path(), "a deny assertion has the effect %s", eff)
		case x.St.holds(`!eqfold("deny", p2)`):
			c.ob("effect", "NewAssertion", eff == tNil, x.Pos, x.path(), "an allow assertion has the effect %s", eff)
		default:
			c.ob("effect", "NewAssertion", false, x.Pos, x.path(), "the effect of an assertion is not looked at")
		}
	}
	c.ob("effect", "NewAssertion", len(nok) >= 2 && len(nbad) > 0, na.Pos(), nil, "NewAssertion always or never fails")
}

// isAssKey: the role, action and resource of the assertion, each in full.
func isAssKey(key *Term, ass string) bool {
	have := map[string]bool{}
	for _, a := range key.Args {
		have[a.String()] = true
	}
	return (key.Op == "list" || key.Op == "agg") && have[ass+".Role"] && have[ass+".Action"] && have[ass+".Resource"]
}

// assertionLists: what happens to one collected assertion.
func (c *Ctx) assertionLists(w each, name string) {
	get := "(github.com/kpango/gache.Gache).Get(p1, "
	sets := 0
	for i, cs := range w.cases {
		facts := w.facts[i]
		ass := ""
		var mkA *Term
		for _, e := range cs {
			if e.Kind == "call" && strings.HasSuffix(e.Sym, "policy.NewAssertion") {
				mkA = e.Res
				ass = strings.TrimSuffix(e.Args[0].String(), ".Action")
				good := (strings.HasPrefix(ass, "mapval(") || strings.Contains(ass, "{mapkey(")) && e.Args[0].String() == ass+".Action" && e.Args[1].String() == ass+".Resource" && e.Args[2].String() == ass+".Effect"
				c.ob("assertion", name, good, e.Pos, nil, "the assertion is made of %s", e)
			}
		}
		if !c.ob("assertion", name, mkA != nil, 0, factTexts(facts), "a collected assertion is skipped") {
			continue
		}
		m := mkA.String()
		var writes []*Event
		for _, e := range cs {
			if e.Kind == "call" && strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).") && !strings.HasSuffix(e.Sym, ".Get") {
				writes = append(writes, e)
			}
		}
		if len(writes) == 0 {
			why := factIn(facts, "!(nil == "+m+"#1)")
			for _, fc := range facts {
				why = why || !fc.V && strings.HasPrefix(fc.A.String(), "(now() <t ") && strings.HasSuffix(fc.A.String(), ".Expires.Time)")
			}
			c.ob("listed", name, why, 0, factTexts(facts), "a collected assertion is left out")
			continue
		}
		sets++
		e := writes[0]
		if !c.ob("listed-once", name, len(writes) == 1 && strings.Contains(e.Sym, ".Set") && e.Args[0].String() == "p1" && e.Args[1].String() == ass+".Role", e.Pos, factTexts(facts), "the assertion is listed as %s", e) {
			continue
		}
		g := get + ass + ".Role)"
		v := e.Args[2]
		a := m + "#0"
		switch {
		case factIn(facts, "!"+g+"#1"):
			c.ob("list", "first", v.Op == "list" && len(v.Args) == 1 && v.Args[0].String() == a, e.Pos, nil, "the first assertion of a role gives the list %s", v)
		case factIn(facts, g+"#1") && factIn(facts, "(nil == "+a+".Effect)"):
			c.ob("list", "allow", strings.HasPrefix(v.Op, "append") && v.Args[0].String() == g+"#0" && lastOf(v).String() == a, e.Pos, nil, "an allow assertion gives the list %s", v)
		case factIn(facts, g+"#1") && factIn(facts, "!(nil == "+a+".Effect)"):
			c.ob("list", "deny", v.Op == "appendall" && v.Args[0].String() == "list("+a+")" && v.Args[1].String() == g+"#0", e.Pos, nil, "a deny assertion gives the list %s: it must stand before the allow assertions", v)
		default:
			c.ob("list", "undecided", false, e.Pos, factTexts(facts), "the list of a role is overwritten without looking at the effect or at the list in place")
		}
	}
	c.ob("lists", name, sets >= 3, 0, nil, "first, allow and deny assertions are not told apart")
}

func specC18(c *Ctx) {
	name := "simplifyAndCachePolicy"
	na := c.fn("policy", "NewAssertion")
	f := c.fn("policy", "simplifyAndCachePolicy")
	n := 0
	for _, x := range c.run(f, na) {
		for _, w := range eachOf(x) {
			for i, cs := range w.cases {
				for _, e := range cs {
					if e.Kind != "call" || !strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).Set") {
						continue
					}
					n++
					exp := "p2.DomainSignedPolicyData.SignedPolicyData.Expires.Time"
					c.ob("lifetime", name, strings.HasSuffix(e.Sym, ".SetWithExpire") && e.Args[3].String() == "timesub("+exp+", now())", e.Pos, nil, "role policies are cached for %s, expected the time until the policy expires", e.Args[len(e.Args)-1])
					c.ob("not-expired", name, factIn(w.facts[i], "(now() <t "+exp+")"), e.Pos, factTexts(w.facts[i]), "role policies of an expired policy may be cached, and without an end")
				}
			}
		}
	}
	c.ob("lifetime", name, n > 0, f.Pos(), nil, "no role policies are cached")
	// the expired hook
	up := c.impl("policy", "Daemon", "Update")
	fc := c.fn("policy", "fetchAndCachePolicy")
	nHook, nSet := 0, 0
	for _, x := range c.run(up, fc) {
		for _, e := range evOf(x, `Gache\)\.SetExpiredHook$`) {
			nHook++
			if !c.ob("hook", "expired hook", e.Args[1].Fn != nil, e.Pos, nil, "the hook is not a known function") {
				continue
			}
			en := c.P.NewEngine()
			en.Opaque = func(g *ssaFn) bool { return g == fc }
			hctx := mk(Term{Op: "param", Sym: "hctx", Typ: up.Params[1].Type()})
			for _, h := range c.callIn(en, e.Args[1], []*Term{hctx, mk(Term{Op: "param", Sym: "key", Typ: strT})}, x.St) {
				nSet += c.hookExit(h)
			}
		}
	}
	c.ob("hook", "expired hook", nHook > 0 && nSet > 0, up.Pos(), nil, "the expired policies are not replaced")
	// the cache put in effect looks for what expired, every purge period and until the context ends, and calls the hook
	for _, x := range c.run(up, fc) {
		if x.Panic || len(x.Res) != 1 || x.Res[0] != tNil && x.St.decideNil(x.Res[0]) != 1 {
			continue
		}
		for _, sw := range evs(x.St.events, "atomicstore", "") {
			in := x.St.heap[sw.Args[1]]
			started, enabled, hooked := 0, false, 0
			for _, e := range evOf(x, `gache\.Gache\)\.`) {
				if chainRoot(e.Args[0]) != in {
					continue
				}
				switch e.Sym[strings.LastIndex(e.Sym, ".")+1:] {
				case "StartExpired":
					started++
					c.ob("purge", "Update", e.Args[1].String() == "p1" && e.Args[2].String() == "p0.purgePeriod", e.Pos, nil, "the expired policies are looked for as %s", e)
				case "EnableExpiredHook":
					enabled = true
				case "DisableExpiredHook":
					enabled = false
				case "SetExpiredHook":
					hooked++
				}
			}
			c.ob("purge", "Update", started == 1 && enabled && hooked == 1, x.Pos, x.path(), "the expired policies are not purged and refreshed: purges started %d, hook enabled %v, hooks set %d", started, enabled, hooked)
		}
	}
	// nothing else sets role policies
	for _, g := range c.P.Funcs {
		if g.Pkg == nil || relPkg(g) != "policy" {
			continue
		}
		for _, s := range callSites(g) {
			if strings.HasPrefix(s.name, "(github.com/kpango/gache.Gache).Set") && !strings.HasSuffix(s.name, "Hook") {
				c.ob("setters", shortFn(g.String()), c.fns[shortFn(g.String())], s.in.Pos(), nil, "%s caches role policies", shortFn(g.String()))
			}
		}
	}
}

// chainRoot is the cache behind calls that return their receiver.
func chainRoot(t *Term) *Term {
	for t != nil && t.Op == "call" && rx(`gache\.Gache\)\.(StartExpired|EnableExpiredHook|DisableExpiredHook|SetExpiredHook|SetDefaultExpire)$`).MatchString(t.Sym) {
		t = t.Args[0]
	}
	return t
}

// hookExit looks at one path of the expired hook.
func (c *Ctx) hookExit(h *Exit) (sets int) {
	name := "expired hook"
	if !c.ob("hook-no-panic", name, !h.Panic, h.Pos, h.path(), "the hook panics") {
		return
	}
	st := h.St
	dom := ""
	for _, d := range []string{`split(key, ":role.")[0]`, `before(key, ":role.")`, `splitn(key, ":role.", 2)[0]`} {
		if st.any("has(p0.fetchers, "+d+")", "!has(p0.fetchers, "+d+")") {
			dom = d
		}
	}
	if !c.ob("hook-domain", name, dom != "", h.Pos, h.path(), "the hook does not look for the fetcher of the expired role's domain") {
		return
	}
	var writes []*Event
	allEvents(st.events, func(e *Event) {
		if e.Kind == "call" && strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).") && !rx(`\.(Get|Len|ToRawMap)$`).MatchString(e.Sym) {
			writes = append(writes, e)
		}
	})
	fet := evOf(h, `policy\.fetchAndCachePolicy$`)
	if st.any("!has(p0.fetchers, "+dom+")", "(nil == p0.fetchers{"+dom+"})") {
		c.ob("hook-unknown", name, len(fet) == 0 && len(writes) == 0, h.Pos, h.path(), "the role of an unknown domain is refreshed")
		return
	}
	if !c.ob("hook-fetch", name, len(fet) == 1 && fet[0].Args[2].String() == "p0.fetchers{"+dom+"}" && fet[0].Args[0].String() == "hctx", h.Pos, h.path(), "the policies of the expired role's domain are not fetched once") {
		return
	}
	tmp := fet[0].Args[1]
	if st.decideNil(fet[0].Res) != 1 {
		c.ob("hook-failed", name, st.decideNil(fet[0].Res) == 0 && len(writes) == 0, h.Pos, h.path(), "role policies change although the fetch may have failed")
		return
	}
	cur := currentCache(h)
	c.ob("hook-apart", name, tmp != cur && cur != nil, h.Pos, h.path(), "the fetched policies are merged into the ones in effect")
	for _, w := range eachOf(h) {
		if w.over != tmp {
			continue
		}
		c.ob("hook-whole", name, w.whole, h.Pos, nil, "not every fetched role is put in effect")
		for i, cs := range w.cases {
			n := 0
			for _, e := range cs {
				if e.Kind != "call" || !strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).") {
					continue
				}
				n++
				sets++
				left := "timesub(time.Unix(0, mapexp("
				good := strings.HasSuffix(e.Sym, ".SetWithExpire") && e.Args[0] == cur && ofMap(e.Args[1], "mapkey", tmp) && ofMap(e.Args[2], "mapval", tmp) && strings.HasPrefix(e.Args[3].String(), left)
				c.ob("hook-set", name, good, e.Pos, nil, "a fetched role is put in effect as %s", e)
				alive := false
				for _, fc := range w.facts[i] {
					alive = alive || fc.V && strings.HasPrefix(fc.A.String(), "(now() <t time.Unix(0, mapexp(")
				}
				c.ob("hook-alive", name, alive, e.Pos, factTexts(w.facts[i]), "expired policies may be put in effect, and without an end")
			}
			past := false
			for _, fc := range w.facts[i] {
				past = past || !fc.V && strings.HasPrefix(fc.A.String(), "(now() <t time.Unix(0, mapexp(")
			}
			c.ob("hook-each", name, n == 1 || past, h.Pos, factTexts(w.facts[i]), "a fetched role is left out")
		}
	}
	c.ob("hook-writes", name, len(writes) <= sets, h.Pos, h.path(), "role policies change in another way")
	return
}

// currentCache is the value read from the role policies in effect.
func currentCache(h *Exit) *Term {
	var cur *Term
	for _, e := range h.St.events {
		if e.Kind == "atomicload" && e.Args[0].String() == "&p0.rolePolicies" && len(e.Args) > 1 {
			cur = e.Args[1]
		}
	}
	if cur != nil {
		if v, ok := h.St.heap[cur]; ok {
			return v
		}
	}
	return cur
}

// topLoops are the loops of the function itself, without those of its goroutines and callbacks.
func topLoops(ex []*Exit) (out []*LoopCtx) {
	seen := map[*LoopCtx]bool{}
	var walk func([]*Event)
	walk = func(l []*Event) {
		for _, e := range l {
			if e.Loop == nil || seen[e.Loop] {
				continue
			}
			seen[e.Loop] = true
			out = append(out, e.Loop)
			for _, it := range e.Loop.Iters {
				walk(it.Events)
			}
		}
	}
	for _, x := range ex {
		walk(x.St.events)
	}
	return
}
