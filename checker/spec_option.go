package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C27", Min: 150, Rule: "each option function, applied, changes exactly its own setting to the given value; New applies the defaults and then the given options in their order and stops at the first failure; the authorizer's New hands every setting to the option of that meaning of every enabled daemon and processor, and the daemons' providers to the processors; the default options are the documented ones", Run: specC27})
	register(&Check{ID: "C28", Min: 60, Rule: "an option stores a duration only when it parses and, for periods, only when it is positive, a URL only when its scheme is supported; it fails exactly for the others and then stores nothing; a failing option fails New", Run: specC28})
}

type optSpec struct {
	pkg, fn, field, kind string
}

var optTable = []optSpec{
	{"", "WithAthenzURL", "athenzURL", "url"},
	{"", "WithAthenzDomains", "athenzDomains", "always"},
	{"", "WithHTTPClient", "client", "client"},
	{"", "WithCacheExp", "cacheExp", "cacheexp"},
	{"", "WithEnablePubkeyd", "disablePubkeyd", "false"},
	{"", "WithDisablePubkeyd", "disablePubkeyd", "true"},
	{"", "WithPubkeyRefreshPeriod", "pubkeyRefreshPeriod", "always"},
	{"", "WithPubkeyRetryDelay", "pubkeyRetryDelay", "always"},
	{"", "WithPubkeySysAuthDomain", "pubkeySysAuthDomain", "always"},
	{"", "WithPubkeyETagExpiry", "pubkeyETagExpiry", "always"},
	{"", "WithPubkeyETagPurgePeriod", "pubkeyETagPurgePeriod", "always"},
	{"", "WithEnablePolicyd", "disablePolicyd", "false"},
	{"", "WithDisablePolicyd", "disablePolicyd", "true"},
	{"", "WithPolicyRefreshPeriod", "policyRefreshPeriod", "always"},
	{"", "WithPolicyExpiryMargin", "policyExpiryMargin", "always"},
	{"", "WithPolicyPurgePeriod", "policyPurgePeriod", "always"},
	{"", "WithPolicyRetryDelay", "policyRetryDelay", "always"},
	{"", "WithPolicyRetryAttempts", "policyRetryAttempts", "always"},
	{"", "WithEnableJwkd", "disableJwkd", "false"},
	{"", "WithDisableJwkd", "disableJwkd", "true"},
	{"", "WithJwkRefreshPeriod", "jwkRefreshPeriod", "always"},
	{"", "WithJwkRetryDelay", "jwkRetryDelay", "always"},
	{"", "WithJwkURLs", "jwkURLs", "always"},
	{"", "WithAccessTokenParam", "accessTokenParam", "always"},
	{"", "WithEnableRoleToken", "enableRoleToken", "true"},
	{"", "WithDisableRoleToken", "enableRoleToken", "false"},
	{"", "WithRoleAuthHeader", "roleAuthHeader", "always"},
	{"", "WithEnableRoleCert", "enableRoleCert", "true"},
	{"", "WithDisableRoleCert", "enableRoleCert", "false"},
	{"", "WithRoleCertURIPrefix", "roleCertURIPrefix", "always"},
	{"", "WithTranslator", "translator", "always"},
	{"", "WithResourcePrefix", "resourcePrefix", "always"},
	{"access", "WithJWKProvider", "jwkp", "always"},
	{"access", "WithEnableMTLSCertificateBoundAccessToken", "enableMTLSCertificateBoundAccessToken", "always"},
	{"access", "WithEnableVerifyClientID", "enableVerifyClientID", "always"},
	{"access", "WithAuthorizedClientIDs", "authorizedClientIDs", "always"},
	{"access", "WithClientCertificateGoBackSeconds", "clientCertificateGoBackSeconds", "secs"},
	{"access", "WithClientCertificateOffsetSeconds", "clientCertificateOffsetSeconds", "secs"},
	{"jwk", "WithAthenzJwksURL", "athenzJwksURL", "jwks"},
	{"jwk", "WithRefreshPeriod", "refreshPeriod", "period"},
	{"jwk", "WithRetryDelay", "retryDelay", "dur"},
	{"jwk", "WithURLs", "urls", "urls"},
	{"jwk", "WithHTTPClient", "client", "nonzero"},
	{"policy", "WithPubKeyProvider", "pkp", "nonzero"},
	{"policy", "WithAthenzURL", "athenzURL", "url"},
	{"policy", "WithAthenzDomains", "athenzDomains", "nonzero"},
	{"policy", "WithExpiryMargin", "expiryMargin", "dur"},
	{"policy", "WithRefreshPeriod", "refreshPeriod", "period"},
	{"policy", "WithPurgePeriod", "purgePeriod", "period"},
	{"policy", "WithRetryDelay", "retryDelay", "dur"},
	{"policy", "WithRetryAttempts", "retryAttempts", "nonzero"},
	{"policy", "WithHTTPClient", "client", "nonzero"},
	{"pubkey", "WithAthenzURL", "athenzURL", "url"},
	{"pubkey", "WithSysAuthDomain", "sysAuthDomain", "nonzero"},
	{"pubkey", "WithRefreshPeriod", "refreshPeriod", "period"},
	{"pubkey", "WithRetryDelay", "retryDelay", "dur"},
	{"pubkey", "WithETagExpiry", "eTagExpiry", "dur"},
	{"pubkey", "WithETagPurgePeriod", "eTagPurgePeriod", "period"},
	{"pubkey", "WithHTTPClient", "client", "nonzero"},
	{"role", "WithPubkeyProvider", "pkp", "always"},
}

// applied is one outcome of an option function applied to an object.
type applied struct {
	x      *Exit
	stores map[string]*Term // by field
	calls  []*Event
}

func (c *Ctx) applyOption(o optSpec) (out []applied) {
	f := c.fn(o.pkg, o.fn)
	for _, x := range c.run(f) {
		if x.Panic || len(x.Res) != 1 || x.Res[0].Fn == nil {
			c.lost("%s does not give an option", o.fn)
		}
		cl := x.Res[0]
		obj := mk(Term{Op: "param", Sym: "obj", Typ: cl.Fn.Params[0].Type()})
		en := c.P.NewEngine()
		for _, y := range c.callIn(en, cl, []*Term{obj}, x.St) {
			a := applied{x: y, stores: map[string]*Term{}}
			for _, e := range y.St.events {
				switch e.Kind {
				case "store", "mapset", "atomicstore", "atomiccas":
					if e.Fn != nil && e.Fn.Pkg != nil && relPkg(e.Fn) == "internal/url" {
						continue // the compiled patterns
					}
					t := strings.TrimPrefix(e.Args[0].String(), "&obj.")
					a.stores[t] = e.Args[len(e.Args)-1]
				case "call":
					a.calls = append(a.calls, e)
				}
			}
			out = append(out, a)
		}
	}
	return
}

func optName(o optSpec) string {
	if o.pkg == "" {
		return o.fn
	}
	return o.pkg + "." + o.fn
}

func specC27(c *Ctx) {
	c.elementsKept("default-kept", "defaultOptions")
	c.foreignState("dependencies", `^net|^os$|^io|^log|^runtime`, "")
	for _, o := range optTable {
		name := optName(o)
		n := 0
		for _, a := range c.applyOption(o) {
			x := a.x
			c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics")
			if x.Panic {
				continue
			}
			for t, v := range a.stores {
				if !c.ob("own-setting", name, t == o.field, x.Pos, nil, "the option changes %s", t) {
					continue
				}
				if x.St.decideNil(x.Res[0]) == 0 {
					continue // refused: see C28
				}
				n++
				want := "p0"
				s := v.String()
				good := false
				switch o.kind {
				case "true", "false":
					good, want = s == o.kind, o.kind
				case "always", "nonzero", "urls", "cacheexp":
					good = s == want
					if o.kind == "urls" && !good {
						// a copy
						good = x.St.holds("empty(p0)") && lenTerm(v) == kInt(0) || x.St.holds("!(it < len(p0))") && (elementsAre(v, "p0[it]") || elementsAre(v, "p0[0]"))
					}
				case "dur", "period":
					want = "time.ParseDuration(p0)#0"
					good = s == want
				case "secs":
					want = "(time.Duration).Seconds(time.ParseDuration(p0)#0)"
					good = s == "convnum[int64]("+want+")" || s == "(time.ParseDuration(p0)#0 / 1000000000)"
				case "url":
					want = trimmedURL
					good = sameURL(x.St, s) == want
				case "jwks":
					want = `concat("https://", ` + trimmedURL + `, "/oauth2/keys?rfc=true")`
					good = sameURL(x.St, s) == want
				case "client":
					good = s == want
					if x.St.holds("(nil == p0)") {
						good = v.Op == "alloc" && strings.HasSuffix(v.String(), "http.Client)")
						to := c.field(x.St, v, "Timeout")
						k, ok := to.constInt()
						c.ob("timeout", name, ok && k == 30e9, x.Pos, nil, "the default client has the timeout %s instead of the documented 30s", to)
					}
				}
				c.ob("value", name, good, x.Pos, x.path(), "%s is set to %s instead of %s", o.field, s, want)
			}
			ok := x.St.decideNil(x.Res[0]) == 1
			skip := o.kind == "nonzero" && zeroGiven(x.St) || (o.kind == "dur" || o.kind == "period" || o.kind == "secs") && x.St.holds("empty(p0)")
			if ok {
				c.ob("set", name, len(a.stores) == 1 || skip && len(a.stores) == 0, x.Pos, x.path(), "a given setting is not stored")
				c.ob("unset", name, !skip || len(a.stores) == 0, x.Pos, x.path(), "a setting which is not given replaces the default")
			}
			if o.kind == "cacheexp" && ok {
				d := 0
				for _, e := range a.calls {
					if strings.HasSuffix(e.Sym, "Gache).SetDefaultExpire") && e.Args[0].String() == "obj.cache" && e.Args[1].String() == "p0" {
						d++
					}
				}
				c.ob("cache-expiry", name, d == 1, x.Pos, x.path(), "the principal cache does not get the expiry")
			}
		}
		c.ob("sets", name, n > 0, 0, nil, "the option sets nothing")
	}
	// every option function is in the table
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "With") {
			continue
		}
		r := f.Signature.Results()
		if r.Len() != 1 || !strings.HasSuffix(typeStr(r.At(0).Type()), "Option") {
			continue
		}
		known := false
		for _, o := range optTable {
			known = known || o.pkg == relPkg(f) && o.fn == f.Name()
		}
		c.ob("options", relPkg(f)+"."+f.Name(), known, f.Pos(), nil, "an option without a rule")
	}
	c.tokenParam()
	for _, p := range []string{"", "access", "jwk", "policy", "pubkey", "role"} {
		c.applyAll(p)
		c.defaults(p)
	}
	c.wiring()
	c.fetchers()
}

func zeroGiven(st *State) bool {
	return st.any("(nil == p0)", "empty(p0)", "(p0 == 0)")
}

const trimmedURL = `(*regexp.Regexp).ReplaceAllString(regexp.Compile("^(http|https)://")#0, p0, "")`
const schemed = `(*regexp.Regexp).MatchString(regexp.Compile("^[a-zA-Z][a-zA-Z0-9+-.]*://")#0, ` + trimmedURL + `)`

// sameURL brings equivalent patterns to one spelling.
func sameURL(st *State, s string) string {
	const h, hs = `hasprefix(p0, "http://")`, `hasprefix(p0, "https://")`
	switch {
	case st.holds(h):
		s = strings.ReplaceAll(s, "slicefrom(p0, 7)", trimmedURL)
	case st.holds(hs):
		s = strings.ReplaceAll(s, "slicefrom(p0, 8)", trimmedURL)
	case st.holds("!"+h) && st.holds("!"+hs) && !strings.Contains(s, "hasprefix(") && !strings.Contains(s, "ReplaceAll"):
		s = rx(`\bp0\b`).ReplaceAllLiteralString(s, trimmedURL)
	}
	for _, p := range []string{`"^https?://"`, `"^(https|http)://"`, `"^(?:http|https)://"`, `"^http(s)?://"`} {
		s = strings.ReplaceAll(s, p, `"^(http|https)://"`)
	}
	return s
}

func urlFact(st *State, val bool) bool {
	for _, f := range st.facts {
		if f.V == val && sameURL(st, f.A.String()) == schemed {
			return true
		}
	}
	return false
}

// tokenParam: the parameters of the access token are not confused.
func (c *Ctx) tokenParam() {
	f := c.fn("", "NewAccessTokenParam")
	for _, x := range c.run(f) {
		for i, n := range []string{"enable", "verifyCertThumbprint", "certBackdateDur", "certOffsetDur", "verifyClientID", "authorizedClientIDs"} {
			v := c.field(x.St, x.Res[0], n).String()
			c.ob("token-param", n, v == "p"+string(rune('0'+i)), x.Pos, nil, "%s is %s", n, v)
		}
	}
}

// applyAll: New applies every option and stops at the first failure.
func (c *Ctx) applyAll(pkg string) {
	f := c.fn(pkg, "New")
	name := pkg + ".New"
	var inner []*ssa.Function
	if pkg == "" {
		for _, p := range []string{"access", "jwk", "policy", "pubkey", "role"} {
			inner = append(inner, c.fn(p, "New"))
		}
	}
	ex := c.run(f, inner...)
	gname := pkg
	if pkg == "" {
		gname = "authorizerd"
	}
	def := gname + ".defaultOptions"
	// one loop over both lists, or one over the defaults and then one over the given options
	applied := func(it *Iter, list string) bool {
		call := ""
		cnt := 0
		for _, e := range it.Events {
			if e.Kind == "call" && e.Res != nil && strings.HasPrefix(e.Res.String(), "dyn("+list+"[it], ") {
				call = e.Res.String()
				cnt++
			}
		}
		return cnt == 1 && iterDecided(it, "(nil == "+call+")") == 1
	}
	lists := []string{"appendall(" + def + ", p0)", "appendall(appendall(list(), " + def + "), p0)", "appendall(appendall(nil, " + def + "), p0)", def, "p0"}
	n := 0
	for _, l := range topLoops(ex) {
		for _, it := range l.Iters {
			for _, list := range lists {
				if iterDecided(it, "(it < len("+list+"))") != 1 {
					continue
				}
				n++
				c.ob("applied", name, applied(it, list), it.Pos, factTexts(it.Facts), "an option is left out, applied twice, or its failure is passed over")
			}
		}
	}
	c.ob("applied", name, n > 0, f.Pos(), nil, "the options are not applied in the order defaults, given ones")
	ok, bad := splitNil(ex, 1)
	for _, x := range ok {
		var done []string
		for _, ft := range x.St.facts {
			for _, list := range lists {
				s := ft.String()
				if (s == "!(it < len("+list+"))" || s == "empty("+list+")") && (len(done) == 0 || done[len(done)-1] != list) {
					done = append(done, list)
				}
			}
		}
		good := len(done) == 1 && strings.HasPrefix(done[0], "appendall(") || len(done) == 2 && done[0] == def && done[1] == "p0"
		c.ob("all-applied", name, good, x.Pos, x.path(), "not every option is applied, or not in the order defaults, given ones: %v", done)
	}
	for _, x := range bad {
		c.ob("no-result", name, x.Res[0] == tNil, x.Pos, x.path(), "an object is returned with an error")
	}
	c.ob("results", name, len(ok) > 0, f.Pos(), nil, "New never succeeds")
}

var defaultTable = map[string]string{
	"":       `WithAthenzURL("athenz.io/zts/v1") WithHTTPClient(nil) WithCacheExp(60000000000) WithEnablePubkeyd() WithEnablePolicyd() WithEnableJwkd() WithAccessTokenParam(NewAccessTokenParam(true,true,"1h","1h",false,nil)) WithEnableRoleToken() WithRoleAuthHeader("Athenz-Role-Auth") WithEnableRoleCert() WithRoleCertURIPrefix("athenz://role/")`,
	"access": ``,
	"jwk":    `WithRefreshPeriod("24h") WithRetryDelay("1m") WithHTTPClient(?)`,
	"policy": `WithExpiryMargin("3h") WithRefreshPeriod("30m") WithPurgePeriod("1h") WithRetryDelay("1m") WithRetryAttempts(2) WithHTTPClient(?)`,
	"pubkey": `WithSysAuthDomain("sys.auth") WithRefreshPeriod("24h") WithETagExpiry("168h") WithETagPurgePeriod("84h") WithRetryDelay("1m") WithHTTPClient(?)`,
	"role":   ``,
}

// defaults: the option calls of the package initialisation.
func (c *Ctx) defaults(pkg string) {
	f := c.fn(pkg, "init")
	var got []string
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			s := call.Call.StaticCallee()
			if s == nil || !strings.HasPrefix(s.Name(), "With") || s.Pkg != f.Pkg {
				continue
			}
			got = append(got, constCall(call))
		}
	}
	for _, w := range strings.Fields(defaultTable[pkg]) {
		found := false
		for _, g := range got {
			found = found || g == w
		}
		c.ob("default", pkg+" "+w, found, f.Pos(), nil, "the default option %s is missing: %s", w, strings.Join(got, " "))
	}
	for _, g := range got {
		c.ob("default", pkg+" "+g, strings.Contains(" "+defaultTable[pkg]+" ", " "+g+" "), f.Pos(), nil, "%s is a default", g)
	}
	c.ob("default-kept", pkg+".defaultOptions", !c.P.gset[gkey(f.Pkg, "defaultOptions")], f.Pos(), nil, "the default options are changed after initialisation")
}

func constCall(call *ssa.Call) string {
	var a []string
	for _, v := range call.Call.Args {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				a = append(a, "nil")
			} else {
				a = append(a, v.Value.ExactString())
			}
		case *ssa.Call:
			if v.Call.StaticCallee() != nil {
				a = append(a, constCall(v))
				continue
			}
			a = append(a, "?")
		default:
			a = append(a, "?")
		}
	}
	return call.Call.StaticCallee().Name() + "(" + strings.Join(a, ",") + ")"
}

// fetchers: the policy daemon makes one fetcher for every configured domain, with the daemon's own settings.
func (c *Ctx) fetchers() {
	f := c.fn("policy", "New")
	name := "policy fetchers"
	ex := c.run(f)
	n := 0
	for _, l := range topLoops(ex) {
		for _, it := range l.Iters {
			dom := ""
			for _, ft := range it.Facts {
				s := ft.A.String()
				if ft.V && strings.HasPrefix(s, "(it < len(") && strings.HasSuffix(s, ".athenzDomains))") {
					dom = strings.TrimSuffix(strings.TrimPrefix(s, "(it < len("), "))")
				}
			}
			if dom == "" {
				continue
			}
			n++
			obj := strings.TrimSuffix(dom, ".athenzDomains")
			set := 0
			for _, e := range it.Events {
				if e.Kind != "mapset" || len(e.Args) < 3 || e.Args[2].Op != "alloc" {
					continue
				}
				set++
				c.ob("fetcher-key", name, e.Args[1].String() == dom+"[it]", it.Pos, factTexts(it.Facts), "the fetcher is kept under %s", e.Args[1])
				for _, fl := range []string{"domain", "expiryMargin", "retryDelay", "retryAttempts", "athenzURL", "client"} {
					want := obj + "." + fl
					if fl == "domain" {
						want = dom + "[it]"
					}
					v := it.Phis["&"+e.Args[2].String()+"."+fl]
					c.ob("fetcher", name+" "+fl, v != nil && v.String() == want, it.Pos, nil, "the fetcher's %s is %v instead of %s", fl, v, want)
				}
				m := e.Args[0]
				kept := false
				for _, x := range ex {
					kept = kept || len(x.Res) == 2 && x.Res[1] == tNil && x.Res[0] != tNil && c.field(x.St, x.Res[0], "fetchers") == m
				}
				c.ob("fetcher-kept", name, kept, it.Pos, nil, "the fetchers are not kept in the daemon")
			}
			c.ob("fetcher-made", name, set == 1, it.Pos, factTexts(it.Facts), "a configured domain gets %d fetchers", set)
		}
	}
	c.ob("fetcher-made", name, n > 0, f.Pos(), nil, "no fetcher is made for the configured domains")
	ok, _ := splitNil(ex, 1)
	for _, x := range ok {
		all := false
		for _, ft := range x.St.facts {
			s := ft.A.String()
			all = all || !ft.V && strings.HasPrefix(s, "(it < len(") && strings.HasSuffix(s, ".athenzDomains))") || ft.V && strings.HasPrefix(s, "empty(") && strings.HasSuffix(s, ".athenzDomains)")
		}
		c.ob("fetcher-all", name, all || x.St.holds("empty(appendall(policy.defaultOptions, p0))"), x.Pos, x.path(), "not every configured domain gets a fetcher")
	}
}

// wiring: which setting the authorizer's New hands to which option.
var wires = map[string]map[string]string{
	"pubkey": {"WithAthenzURL": "athenzURL", "WithSysAuthDomain": "pubkeySysAuthDomain", "WithETagExpiry": "pubkeyETagExpiry", "WithETagPurgePeriod": "pubkeyETagPurgePeriod", "WithRefreshPeriod": "pubkeyRefreshPeriod", "WithRetryDelay": "pubkeyRetryDelay", "WithHTTPClient": "client"},
	"policy": {"WithAthenzURL": "athenzURL", "WithAthenzDomains": "athenzDomains", "WithExpiryMargin": "policyExpiryMargin", "WithRefreshPeriod": "policyRefreshPeriod", "WithPurgePeriod": "policyPurgePeriod", "WithRetryDelay": "policyRetryDelay", "WithRetryAttempts": "policyRetryAttempts", "WithHTTPClient": "client", "WithPubKeyProvider": "@pubkey"},
	"jwk":    {"WithAthenzJwksURL": "athenzURL", "WithRefreshPeriod": "jwkRefreshPeriod", "WithRetryDelay": "jwkRetryDelay", "WithURLs": "jwkURLs", "WithHTTPClient": "client"},
	"role":   {"WithPubkeyProvider": "@pubkey"},
	"access": {"WithJWKProvider": "@jwk", "WithEnableMTLSCertificateBoundAccessToken": "accessTokenParam.verifyCertThumbprint", "WithEnableVerifyClientID": "accessTokenParam.verifyClientID", "WithAuthorizedClientIDs": "accessTokenParam.authorizedClientIDs", "WithClientCertificateGoBackSeconds": "accessTokenParam.certBackdateDur", "WithClientCertificateOffsetSeconds": "accessTokenParam.certOffsetDur"},
}

func (c *Ctx) wiring() {
	f := c.fn("", "New")
	inner := []*ssa.Function{}
	for p, w := range wires {
		inner = append(inner, c.fn(p, "New"))
		for o := range w {
			inner = append(inner, c.fn(p, o))
		}
	}
	ok, _ := splitNil(c.run(f, inner...), 1)
	parts := []struct{ pkg, fld, flag string }{
		{"pubkey", "pubkeyd", "!disablePubkeyd"}, {"policy", "policyd", "!disablePolicyd"}, {"jwk", "jwkd", "!disableJwkd"},
		{"role", "roleProcessor", "enableRoleToken"}, {"access", "accessProcessor", "accessTokenParam.enable"},
	}
	for _, x := range ok {
		prov := x.Res[0]
		provider := map[string]string{}
		for _, d := range []string{"pubkey", "jwk"} {
			provider[d] = "nil"
			for _, e := range evOf(x, `^\(`+d+`\.Daemon\)\.GetProvider$`) {
				provider[d] = e.Res.String()
			}
			for _, e := range evOf(x, `^`+d+`\.New$`) {
				if g := "(" + d + ".Daemon).GetProvider(" + e.Res.String() + "#0)"; provider[d] == "nil" {
					provider[d] = g
				}
			}
		}
		for _, p := range parts {
			news := evOf(x, `^`+p.pkg+`\.New$`)
			flag := c.field(x.St, prov, strings.TrimPrefix(p.flag, "!"))
			on := boolOf(x.St, flag)
			if strings.HasPrefix(p.flag, "!") && on >= 0 {
				on = 1 - on
			}
			switch on {
			case 1:
				if !c.ob("made", p.pkg, len(news) == 1, x.Pos, x.path(), "the enabled %s part is made %d times", p.pkg, len(news)) {
					continue
				}
			case 0:
				c.ob("made", p.pkg, len(news) == 0, x.Pos, x.path(), "the disabled %s part is made", p.pkg)
				continue
			default:
				c.ob("made", p.pkg, false, x.Pos, x.path(), "whether the %s part is enabled is not looked at", p.pkg)
				continue
			}
			e := news[0]
			c.ob("kept", p.pkg, c.field(x.St, prov, p.fld).String() == e.Res.String()+"#0" && x.St.holds("(nil == "+e.Res.String()+"#1)"), e.Pos, x.path(), "%s is %s", p.fld, c.field(x.St, prov, p.fld))
			got := map[string]int{}
			for _, a := range e.Args[0].Args {
				o := shortName(shortFn(a.Sym))
				got[o]++
				if !c.ob("wire-known", p.pkg, a.Op == "call" && wires[p.pkg][o] != "", e.Pos, nil, "%s is made with %s", p.pkg, a) {
					continue
				}
				w := wires[p.pkg][o]
				var want string
				if strings.HasPrefix(w, "@") {
					want = provider[w[1:]]
				} else {
					want = c.field(x.St, prov, w).String()
				}
				c.ob("wire", p.pkg+"."+o, len(a.Args) == 1 && a.Args[0].String() == want, e.Pos, nil, "%s.%s gets %s", p.pkg, o, a.Args[0])
			}
			for o := range wires[p.pkg] {
				c.ob("wired", p.pkg+"."+o, got[o] == 1, e.Pos, nil, "%s.%s is given %d times", p.pkg, o, got[o])
			}
		}
	}
	c.ob("wiring", "New", len(ok) > 0, f.Pos(), nil, "New never succeeds")
}

func boolOf(st *State, t *Term) int {
	if b, ok := t.constBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	return st.decide(t)
}

func gkey(p *ssa.Package, n string) string { return p.Pkg.Path() + "." + n }

func specC28(c *Ctx) {
	for _, o := range optTable {
		name := optName(o)
		nOK, nBad := 0, 0
		for _, a := range c.applyOption(o) {
			x := a.x
			if x.Panic {
				c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
				continue
			}
			st := x.St
			ok := st.decideNil(x.Res[0]) == 1
			c.ob("decided", name, ok || st.decideNil(x.Res[0]) == 0, x.Pos, x.path(), "the option may fail with %s", x.Res[0])
			if !ok {
				nBad++
				kept := false
				for _, v := range a.stores {
					kept = kept || !v.isConst() && v != tNil // not the value but zero
				}
				c.ob("nothing-stored", name, !kept, x.Pos, x.path(), "a refused value is stored")
			} else {
				nOK++
			}
			parsed := "(nil == time.ParseDuration(p0)#1)"
			pos := "(0 < time.ParseDuration(p0)#0)"
			switch o.kind {
			case "dur", "secs", "period":
				if ok {
					c.ob("parsed", name, st.holds("empty(p0)") || st.holds(parsed), x.Pos, x.path(), "a duration is accepted which may not parse")
					if o.kind == "period" {
						c.ob("positive", name, st.holds("empty(p0)") || positive(st, "time.ParseDuration(p0)#0"), x.Pos, x.path(), "a period is accepted which may not be positive: the ticker panics or entries never expire")
					}
				} else {
					c.ob("refusal", name, st.holds("!"+parsed) || o.kind == "period" && st.any("!"+pos, "(time.ParseDuration(p0)#0 < 1)"), x.Pos, x.path(), "a valid duration is refused")
				}
			case "url", "jwks":
				if ok {
					c.ob("scheme", name, urlFact(st, false), x.Pos, x.path(), "a URL is accepted whose scheme is not supported")
					if o.kind == "jwks" {
						c.ob("empty-url", name, st.holds("!empty(p0)"), x.Pos, x.path(), "an empty URL is accepted")
					}
				} else {
					er := x.errText(0)
					c.ob("refusal", name, urlFact(st, true) && strings.HasSuffix(er, "ErrUnsupportedScheme") || o.kind == "jwks" && st.holds("empty(p0)") && strings.HasSuffix(er, "ErrEmptyAthenzJwksURL"), x.Pos, x.path(), "a supported URL is refused (%s)", er)
				}
			case "cacheexp":
				half := "(0 < (p0 / 2))"
				if ok {
					c.ob("positive", name, st.any(half, "(1 < p0)") || positive(st, "(p0 / 2)"), x.Pos, x.path(), "a cache expiry is accepted whose half, the purge period, may not be positive")
				} else {
					c.ob("refusal", name, st.any("!"+half, "((p0 / 2) < 1)", "!(1 < p0)", "(p0 < 2)"), x.Pos, x.path(), "a valid expiry is refused")
				}
			case "urls":
				c.urlsOption(a, ok, name)
			default:
				c.ob("never-fails", name, ok, x.Pos, x.path(), "the option fails")
			}
		}
		switch o.kind {
		case "dur", "secs", "period", "url", "jwks", "cacheexp", "urls":
			c.ob("both", name, nOK > 0 && nBad > 0, 0, nil, "the option accepts everything or nothing")
		}
	}
}

func positive(st *State, t string) bool {
	return st.any("(0 < "+t+")", "!("+t+" < 1)")
}

func (c *Ctx) urlsOption(a applied, ok bool, name string) {
	x := a.x
	u := "net/url.ParseRequestURI(p0[it])"
	if ok {
		c.ob("each-url", name, x.St.any("!(it < len(p0))", "empty(p0)"), x.Pos, x.path(), "not every URL is looked at")
	} else {
		c.ob("refusal", name, x.St.holds("!(nil == "+u+"#1)") || x.St.all(`!(`+u+`#0.Scheme == "http")`, `!(`+u+`#0.Scheme == "https")`), x.Pos, x.path(), "a valid URL is refused")
	}
	for _, l := range topLoops([]*Exit{x}) {
		for _, it := range l.Iters {
			good := iterDecided(it, "(nil == "+u+"#1)") == 1 && (iterDecided(it, `("http" == `+u+`#0.Scheme)`) == 1 || iterDecided(it, `("https" == `+u+`#0.Scheme)`) == 1 || iterDecided(it, `(`+u+`#0.Scheme == "http")`) == 1 || iterDecided(it, `(`+u+`#0.Scheme == "https")`) == 1)
			c.ob("url-checked", name, good, it.Pos, factTexts(it.Facts), "a URL is accepted which does not parse or whose scheme is not supported")
		}
	}
}
