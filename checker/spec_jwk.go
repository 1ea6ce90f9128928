package main

import (
	"strings"
)

func init() {
	register(&Check{ID: "C11", Min: 10, Rule: "the JWK provider returns exactly the raw key of the given key id in the key set stored for the given URL (the Athenz URL when none is given), and nil when the id is empty, the set or the key is missing, or the key cannot be read", Run: specC11})
	register(&Check{ID: "C23", Min: 20, Rule: "the JWK update fetches the Athenz URL and every configured URL, stores exactly the successfully fetched sets under their own URL, never removes a stored set, goes on after a failure, and fails exactly when one fetch failed", Run: specC23})
}

const (
	syncLoad  = "(*sync.Map).Load("
	jwxLookup = "(github.com/lestrrat-go/jwx/jwk.Set).LookupKeyID("
	jwxRaw    = "(github.com/lestrrat-go/jwx/jwk.Key).Raw("
	jwxFetch  = "github.com/lestrrat-go/jwx/jwk.Fetch"
)

// provider runs the function a daemon's GetProvider returns.
func (c *Ctx) provider(pkg string, n int) ([]*Exit, *Term) {
	g := c.impl(pkg, "Daemon", "GetProvider")
	ex := c.run(g)
	if len(ex) != 1 || ex[0].Panic || len(ex[0].Res) != 1 || ex[0].Res[0].Fn == nil {
		c.lost("the provider of %s is not a known function", pkg)
	}
	args := []*Term{mk(Term{Op: "param", Sym: "a", Typ: strT}), mk(Term{Op: "param", Sym: "b", Typ: strT})}
	return c.callIn(c.P.NewEngine(), ex[0].Res[0], args[:n], ex[0].St), ex[0].Res[0]
}

func specC11(c *Ctx) {
	name := "jwk provider"
	ex, f := c.provider("jwk", 2)
	n := 0
	for _, x := range ex {
		st := x.St
		if x.Panic {
			c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
			continue
		}
		url := ""
		switch {
		case st.holds("empty(b)"):
			url = "p0.athenzJwksURL"
		case st.holds("!empty(b)"):
			url = "b"
		}
		load := syncLoad + "p0.keys, " + url + ")"
		look := jwxLookup + load + "#0, a)"
		raw := jwxRaw + look + "#0, "
		if x.Res[0] == tNil {
			cause := st.holds("empty(a)") || url != "" && (st.any("!"+load+"#1", "!"+look+"#1") || st.some("^!\\(nil == "+rxq(raw)))
			cause = cause || st.some(`^!istype\(`+rxq(load))
			c.ob("missing", name, cause, x.Pos, x.path(), "no key is returned without a cause")
			continue
		}
		n++
		c.ob("url", name, url != "", x.Pos, x.path(), "a key is returned without asking whether the token names a key set URL")
		c.ob("key-id", name, st.holds("!empty(a)"), x.Pos, x.path(), "a key is returned for an empty key id")
		c.ob("set-found", name, st.holds(load+"#1"), x.Pos, x.path(), "a key is returned although the set of %s may be missing", url)
		c.ob("key-found", name, st.holds(look+"#1"), x.Pos, x.path(), "a key is returned although the set may not have it")
		good := x.Res[0].Op == "out" && strings.HasPrefix(x.Res[0].String(), "out("+raw)
		c.ob("key", name, good, x.Pos, x.path(), "the returned key is %s, expected the raw key of %s", x.Res[0], look)
		c.ob("key-read", name, st.some("^\\(nil == "+rxq(raw)), x.Pos, x.path(), "a key which cannot be read is returned")
	}
	c.ob("keys", name, n >= 2, f.Fn.Pos(), nil, "keys of the Athenz URL and of other URLs are not both served")
}

func rxq(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func specC23(c *Ctx) {
	name := "jwk Update"
	f := c.impl("jwk", "Daemon", "Update")
	ex := c.run(f)
	ok, bad := splitNil(ex, 0)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	lists := map[string]bool{}
	fails := map[string]bool{} // slots that remember a failure
	nOK, nBad := 0, 0
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			fs := evs(it.Events, "call", "^"+rxq(jwxFetch)+"$")
			ss := evs(it.Events, "call", `^\(\*sync\.Map\)\.(Store|Delete|Swap|LoadAndDelete|CompareAndSwap|Range)$`)
			if len(fs) == 0 {
				c.ob("no-store", name, len(ss) == 0, it.Pos, factTexts(it.Facts), "the key sets change without a fetch")
				continue
			}
			if !c.ob("one-fetch", name, len(fs) == 1, it.Pos, factTexts(it.Facts), "an iteration fetches %d key sets", len(fs)) {
				continue
			}
			fe := fs[0].Res
			tgt := fe.Args[1].String()
			if !c.ob("target", name, strings.HasSuffix(tgt, "[it]"), it.Pos, factTexts(it.Facts), "the fetched URL %s is not one of the list", tgt) {
				continue
			}
			lists[strings.TrimSuffix(tgt, "[it]")] = true
			c.ob("context", name, fe.Args[0].String() == "p1", it.Pos, nil, "the fetch does not use the given context")
			c.ob("client", name, strings.Contains(fe.String(), "WithHTTPClient(p0.client)"), it.Pos, nil, "the fetch does not use the configured client")
			isNil := iterDecided(it, "(nil == "+fe.String()+"#1)")
			switch isNil {
			case 1:
				nOK++
				good := len(ss) == 1 && strings.HasSuffix(ss[0].Sym, ".Store") && ss[0].Args[0].String() == "p0.keys" && ss[0].Args[1].String() == tgt && ss[0].Args[2].String() == fe.String()+"#0"
				c.ob("stored", name, good, it.Pos, factTexts(it.Facts), "a fetched key set is not stored exactly once under its URL %s", tgt)
			case 0:
				nBad++
				c.ob("kept", name, len(ss) == 0, it.Pos, factTexts(it.Facts), "the stored key sets change although the fetch failed")
				rec := false
				for s, v := range it.Phis {
					if remembers(v, fe.String(), tgt) {
						rec = true
						fails[s] = true
					}
				}
				c.ob("remembered", name, rec, it.Pos, factTexts(it.Facts), "a failed fetch is forgotten")
			default:
				c.ob("decided", name, false, it.Pos, factTexts(it.Facts), "the result of a fetch is not looked at")
			}
		}
		for s, sl := range l.Slots {
			if !fails[s] || strings.HasPrefix(s, "&") {
				continue
			}
			for _, k := range sl.Contribs {
				good := false
				for t := range lists {
					good = good || remembers(k, "", t+"[it]")
				}
				c.ob("not-forgotten", name, good || strings.Contains(k.String(), jwxFetch) && strings.HasSuffix(k.String(), "#1"), f.Pos(), nil, "the record of failed fetches becomes %s", k)
			}
		}
	}
	c.ob("fetches", name, nOK > 0 && nBad > 0, f.Pos(), nil, "no key set is fetched")
	for t := range lists {
		good := t == "p0.urls" || strings.Contains(t, "p0.athenzJwksURL") && strings.Contains(t, "p0.urls") && strings.HasPrefix(t, "append")
		c.ob("urls", "list "+t, good, f.Pos(), nil, "the fetched URLs are %s", t)
	}
	complete := func(x *Exit) bool {
		for t := range lists {
			if !x.St.holds("!(it < len("+t+"))") && !x.St.holds("empty("+t+")") {
				continue
			}
			if t != "p0.urls" || x.St.some(`^\(p0\.athenzJwksURL == p0\.urls\[`) {
				return true
			}
		}
		return false
	}
	for _, x := range append(append([]*Exit(nil), ok...), bad...) {
		c.ob("complete", name, complete(x), x.Pos, x.path(), "the update ends before the Athenz URL and every other URL was fetched")
		for _, e := range evOf(x, `^\(\*sync\.Map\)\.(Delete|LoadAndDelete|Clear|Swap|Store)$`) {
			c.ob("no-removal", name, false, e.Pos, x.path(), "the stored key sets change outside of the fetches")
		}
	}
	known := func(x *Exit, neg string) bool {
		for s := range fails {
			w := "wide(" + s + ")"
			if neg == "" && x.St.any("empty("+w+")", "(nil == "+w+")", "!"+w) || neg == "!" && x.St.any("!empty("+w+")", "!(nil == "+w+")", w) {
				return true
			}
		}
		return false
	}
	failed := `^!\(nil == ` + rxq(jwxFetch) + `\(.*#1\)$`
	for _, x := range ok {
		c.ob("success", name, known(x, "") || !x.St.some(failed) && !known(x, "!"), x.Pos, x.path(), "success although a fetch may have failed")
	}
	for _, x := range bad {
		c.ob("failure", name, known(x, "!") || x.St.some(failed), x.Pos, x.path(), "failure although no fetch failed")
	}
	c.ob("outcomes", name, len(ok) > 0 && len(bad) > 0, f.Pos(), nil, "the update always or never fails")
	// nothing else changes the key sets
	c.onlyCaller("key-sets", "jwk", `^\(\*sync\.Map\)\.(Store|Delete|Swap|LoadAndDelete|LoadOrStore|Clear|CompareAndSwap|CompareAndDelete)$`)
}

// remembers: a value that shows that a fetch failed.
func remembers(v *Term, call, tgt string) bool {
	switch {
	case v.Op == "list" || strings.HasPrefix(v.Op, "append"):
		return lastOf(v).String() == tgt
	case v == kBool(true):
		return true
	case call != "" && errRoot(v).String() == call+"#1":
		return true
	}
	return false
}

// onlyCaller: calls of a library function happen only in functions already analysed.
func (c *Ctx) onlyCaller(rule, pkg, symRe string) {
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || relPkg(f) != pkg {
			continue
		}
		for _, s := range callSites(f) {
			if !rx(symRe).MatchString(s.name) {
				continue
			}
			n++
			c.ob(rule, shortFn(f.String()), c.fns[shortFn(f.String())], s.in.Pos(), nil, "%s is called outside of the analysed functions, in %s", s.name, shortFn(f.String()))
		}
	}
	c.ob(rule, "sites", n > 0, 0, nil, "no call of %s", symRe)
}
