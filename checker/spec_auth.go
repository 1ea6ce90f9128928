package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callIn analyses a call of a function value from a given state.
func (c *Ctx) callIn(e *Engine, f *Term, args []*Term, st *State) []*Exit {
	if f.Op != "closure" && f.Op != "fn" {
		c.lost("not a known function: %s", f)
	}
	var ex []*Exit
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					c.lost("%s: %s", shortFn(f.Fn.String()), u.msg)
				}
				panic(r)
			}
		}()
		ex = e.fix(func() []*Exit {
			s := st.clone()
			s.events = nil
			return e.Call(f.Fn, args, f.Args, s, "r")
		})
	}()
	c.account(e, f.Fn, ex)
	return ex
}

// callMethod runs a method on a value of an exit and returns its only result.
func (c *Ctx) callMethod(st *State, v *Term, name string) (string, bool) {
	var dt types.Type
	if v.Op == "alloc" {
		dt = types.NewPointer(v.Typ)
	} else if d := dynTypes[v]; d != nil {
		dt = d
	}
	if dt == nil {
		return "", false
	}
	var pkg *types.Package
	if n, ok := deref(dt).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	sel := c.P.SSA.MethodSets.MethodSet(dt).Lookup(pkg, name)
	if sel == nil {
		return "", false
	}
	f := c.P.SSA.MethodValue(sel)
	if f == nil || len(f.Blocks) == 0 {
		return "", false
	}
	e := c.P.NewEngine()
	ex := c.callIn(e, mk(Term{Op: "fn", Sym: f.String(), Fn: f}), []*Term{v}, st)
	if len(ex) != 1 || ex[0].Panic || len(ex[0].Res) != 1 {
		return "", false
	}
	return ex[0].Res[0].String(), true
}

// authRun is the analysis of one way to authorize a token.
type authRun struct {
	name  string
	fn    *ssa.Function
	exits []*Exit
	tok   string // the text of the token
	act   string
	res   string
	query string
	cert  string // "" when this way has no certificate
	role  bool   // role token, else access token
	parse string // call that verifies the token, a prefix of its text
}

const (
	parseRole = "(role.Processor).ParseAndValidateRoleToken("
	parseAcc  = "(access.Processor).ParseAndValidateOAuth2AccessToken("
)

func (c *Ctx) verifiers() (exits []*Exit) {
	return c.run(c.fn("", "(*authority).initAuthorizers"))
}

// authorizersOf is the list of verifiers an exit of initAuthorizers leaves.
func authorizersOf(x *Exit) ([]*Term, bool) {
	for k, v := range x.St.heap {
		if k.Op == "addr" && k.Sym == "authorizers" && k.Args[0].Op == "param" {
			if v.Op == "list" {
				return v.Args, true
			}
		}
	}
	return nil, false
}

var httpArgs = []*Term{
	mk(Term{Op: "param", Sym: "req"}), mk(Term{Op: "param", Sym: "act", Typ: strT}), mk(Term{Op: "param", Sym: "res", Typ: strT}),
}

func (c *Ctx) authRuns() []authRun {
	var out []authRun
	api := func(name string, role bool) {
		f := c.fn("", "(*authority)."+name)
		r := authRun{name: name, fn: f, tok: "p2", act: "p3", res: "p4", query: `""`, role: role}
		if !role {
			r.cert = "p5"
		}
		r.exits = c.run(f)
		out = append(out, r)
	}
	api("AuthorizeRoleToken", true)
	api("AuthorizeAccessToken", false)
	// the verifiers of the HTTP requests
	seen := map[string]bool{}
	for _, x := range c.verifiers() {
		if x.Panic || x.St.decideNil(x.Res[0]) != 1 {
			continue
		}
		as, ok := authorizersOf(x)
		if !ok {
			c.lost("the list of authorizers is not known after initAuthorizers")
		}
		for _, a := range as {
			if a.Fn == nil || seen[a.Fn.String()] {
				continue
			}
			seen[a.Fn.String()] = true
			e := c.P.NewEngine()
			ex := c.callIn(e, a, httpArgs, x.St)
			isRole, isAcc := false, false
			for _, y := range ex {
				for _, ev := range y.St.events {
					switch shortFn(ev.Sym) + "(" {
					case parseRole:
						isRole = true
					case parseAcc:
						isAcc = true
					}
				}
			}
			if isRole == isAcc {
				continue // role certificates
			}
			r := authRun{name: "http:" + a.Fn.Name(), fn: a.Fn, exits: ex, act: "act", res: "res", query: "req.URL.RawQuery", role: isRole}
			if isRole {
				r.name = "HTTP role token verifier"
				r.tok = "(net/http.Header).Get(req.Header, p0.roleAuthHeader)"
			} else {
				r.name = "HTTP access token verifier"
				r.tok = extractTok + "#0"
				r.cert = "req.TLS.PeerCertificates[0]"
			}
			out = append(out, r)
		}
	}
	n := 0
	for _, r := range out {
		if strings.HasPrefix(r.name, "HTTP") {
			n++
		}
	}
	if n != 2 {
		c.lost("expected one HTTP verifier for role tokens and one for access tokens, found %d", n)
	}
	for i := range out {
		r := &out[i]
		if r.role {
			r.parse = parseRole + "p0.roleProcessor, " + r.tok + ")"
		} else {
			r.parse = parseAcc + "p0.accessProcessor, " + r.tok + ", " // + cert
		}
	}
	return out
}

const extractTok = "(*github.com/golang-jwt/jwt/v4/request.PostExtractionFilter).ExtractToken(github.com/golang-jwt/jwt/v4/request.AuthorizationHeaderExtractor, req)"

// certOf is the certificate text this exit works with: "nil" when there is none.
func (r *authRun) certOf(st *State) string {
	if r.cert == "" {
		return "nil"
	}
	if r.cert != "p5" {
		if st.any("(nil == req.TLS)", "empty(req.TLS.PeerCertificates)") {
			return "nil"
		}
	}
	return r.cert
}

// parsed is the text of the verification call of this exit.
func (r *authRun) parsed(st *State) []string {
	if r.role {
		return []string{r.parse}
	}
	ct := r.certOf(st)
	out := []string{r.parse + ct + ")"}
	if ct != "nil" && st.holds("(nil == "+ct+")") {
		out = append(out, r.parse+"nil)")
	}
	return out
}

func evOf(x *Exit, re string) []*Event { return evs(x.St.events, "call", re) }

const (
	cacheGet = `^\(github\.com/kpango/gache\.Gache\)\.Get$`
	cacheSet = `^\(github\.com/kpango/gache\.Gache\)\.(SetWithExpire|Set)$`
)

// cachedHit reports whether the exit returns a value of the verification cache.
func cachedHit(x *Exit) bool {
	t := x.Res[0]
	for t.Op == "ext" && t.Sym == "0" {
		t = t.Args[0]
	}
	return t.Op == "call" && rx(cacheGet).MatchString(shortFn(t.Sym)) && t.Args[0].String() == "p0.cache"
}

func hitCall(x *Exit) *Term {
	t := x.Res[0]
	for t.Op == "ext" {
		t = t.Args[0]
	}
	return t
}

// domain and roles of the verified token
func (r *authRun) claims(parse string) (dom, roles string) {
	if r.role {
		return parse + "#0.Domain", parse + "#0.Roles"
	}
	return parse + "#0.BaseClaim.StandardClaims.Audience", parse + "#0.Scope"
}

func init() {
	register(&Check{ID: "C01", Min: 60, Rule: "every path of the token APIs and of the HTTP verifiers that returns a nil error passes the token processor (nil error) and, unless policies are disabled, the policy check (nil error) with the token's own domain and roles and with the translated and prefixed action and resource, or returns what the verification cache gave for the request's key; every path that returns an error has one of the documented causes", Run: specC01})
	register(&Check{ID: "C02", Min: 60, Rule: "cache keys: every read and write of the verification cache uses one key per path, made of the escaped token, certificate identity, action, resource and query, which different requests cannot share; a cached value is returned only for the same kind of token", Run: specC02})
	register(&Check{ID: "C03", Min: 30, Rule: "the verification cache is written only on the paths that return a nil error after verification, with the returned principal, under the key that was looked up, for the configured lifetime; no other function writes it", Run: specC03})
	register(&Check{ID: "C04", Min: 30, Rule: "on every granting path the accessors of the returned principal, evaluated on the object the path builds, give the fields of the verified token and the roles the policy check returned", Run: specC04})
	register(&Check{ID: "C05", Min: 30, Rule: "with policies enabled, the token paths return ErrInvalidParameters exactly when action or resource is empty, before the cache or a processor is consulted", Run: specC05})
	register(&Check{ID: "C06", Min: 20, Rule: "Verify and Authorize try every configured authorizer in turn, succeed exactly when one of them succeeds, and otherwise return ErrInvalidCredentials; the authorizers are exactly those of the enabled credential types and take their credential from the documented place", Run: specC06})
}

func specC01(c *Ctx) {
	for _, r := range c.authRuns() {
		ok, bad := splitNil(r.exits, 1)
		for _, x := range panics(r.exits) {
			c.ob("no-panic", r.name, false, x.Pos, x.path(), "a path panics")
		}
		grants := 0
		for _, x := range ok {
			if cachedHit(x) {
				h := hitCall(x).String()
				c.ob("cached-hit", r.name, x.St.holds(h+"#1"), x.Pos, x.path(), "a cached value is returned without a cache hit")
				c.ob("cached-hit-policy", r.name, true, x.Pos, nil, "")
				continue
			}
			grants++
			var parse string
			for _, p := range r.parsed(x.St) {
				if x.St.holds("(nil == " + p + "#1)") {
					parse = p
				}
			}
			if !c.ob("token-verified", r.name, parse != "", x.Pos, x.path(), "access is granted on a path where the token was not successfully verified (expected a nil error of %s)", r.parsed(x.St)[0]) {
				continue
			}
			if x.St.holds("p0.disablePolicyd") {
				c.ob("policy-disabled", r.name, len(evOf(x, `CheckPolicy`)) == 0, x.Pos, x.path(), "policies are checked although they are disabled")
				continue
			}
			if !c.ob("policy-decided", r.name, x.St.holds("!p0.disablePolicyd"), x.Pos, x.path(), "access is granted without asking whether policies are enabled") {
				continue
			}
			dom, roles := r.claims(parse)
			act, res := r.act, r.res
			if x.St.holds("!(nil == p0.translator)") {
				tr := fmt.Sprintf("(authorizerd.Translator).Translate(p0.translator, %s, %s, %s, %s)", dom, r.act, r.res, r.query)
				if !c.ob("translated", r.name, x.St.holds("(nil == "+tr+"#2)"), x.Pos, x.path(), "access is granted without a successful translation %s", tr) {
					continue
				}
				act, res = tr+"#0", tr+"#1"
			} else {
				c.ob("translator-decided", r.name, x.St.holds("(nil == p0.translator)"), x.Pos, x.path(), "the translator is not consulted")
			}
			found := false
			for _, ctx := range []string{"p1", "(*net/http.Request).Context(req)"} {
				pc := fmt.Sprintf("(policy.Daemon).CheckPolicyRoles(p0.policyd, %s, %s, %s, %s, concat(p0.resourcePrefix, %s))", ctx, dom, roles, act, res)
				if x.St.holds("(nil == " + pc + "#1)") {
					found = true
				}
			}
			c.ob("policy-allowed", r.name, found, x.Pos, x.path(), "access is granted on a path where the policy check of domain %s, roles %s, action %s, resource prefix+%s did not succeed", dom, roles, act, res)
		}
		c.ob("grants", r.name, grants >= 2, r.fn.Pos(), nil, "no path grants access after verification")
		// denials have a cause
		for _, x := range bad {
			cause := ""
			st := x.St
			for _, p := range r.parsed(st) {
				if st.holds("!(nil == " + p + "#1)") {
					cause = "token"
				}
			}
			switch {
			case cause != "":
			case st.holds("!p0.disablePolicyd") && st.any("empty("+r.act+")", "empty("+r.res+")"):
				cause = "parameters"
			case r.role && st.holds("(nil == p0.roleProcessor)"), !r.role && st.holds("(nil == p0.accessProcessor)"):
				cause = "disabled"
			case st.some(`^!\(nil == \(authorizerd\.Translator\)\.Translate\(.*\)#2\)$`):
				cause = "translator"
			case st.some(`^!\(nil == \(policy\.Daemon\)\.CheckPolicyRoles\(.*\)#1\)$`):
				cause = "policy"
			case st.holds("!(nil == " + extractTok + "#1)"):
				cause = "no credential"
			}
			c.ob("denial-cause", r.name, cause != "", x.Pos, x.path(), "a request is denied without a cause (error %s)", x.errText(1))
		}
	}
	// the Verify* twins follow the Authorize* ones
	for _, p := range [][2]string{{"VerifyRoleToken", "AuthorizeRoleToken"}, {"VerifyAccessToken", "AuthorizeAccessToken"}} {
		v, a := c.run(c.fn("", "(*authority)."+p[0])), c.run(c.fn("", "(*authority)."+p[1]))
		vs, as := outcomes(v, 0), outcomes(a, 1)
		c.ob("twin", p[0], strings.Join(vs, "\n") == strings.Join(as, "\n"), v[0].Pos, diff(vs, as), "%s and %s do not agree", p[0], p[1])
	}
}

// outcomes lists the exits as "facts => error" texts.
func outcomes(ex []*Exit, i int) []string {
	var out []string
	for _, x := range ex {
		if x.Panic {
			out = append(out, "panic")
			continue
		}
		var fs []string
		for _, f := range x.St.facts {
			fs = append(fs, f.String())
		}
		sort.Strings(fs)
		e := x.errText(i)
		for _, ev := range x.St.events {
			if ev.Kind == "call" {
				e += " " + shortFn(ev.Sym)
			}
		}
		out = append(out, strings.Join(fs, " & ")+" => "+e)
	}
	sort.Strings(out)
	return out
}

func diff(a, b []string) []string {
	in := map[string]bool{}
	for _, x := range b {
		in[x] = true
	}
	var out []string
	for _, x := range a {
		if !in[x] {
			out = append(out, x)
		}
	}
	return out
}

// ---- cache keys ------------------------------------------------------------------------

// keyParts flattens a key; ok is false when its parts cannot be told apart.
func keyParts(k *Term) (parts []string, shape string, err string) {
	list := []*Term{k}
	if k.Op == "concat" {
		list = k.Args
	}
	var sh []string
	prevVar := false
	for _, t := range list {
		if s, ok := t.constStr(); ok {
			if !regexp.MustCompile(`^[:#\\]*$`).MatchString(s) || strings.Trim(s, ":") != "" && strings.Trim(s, ":") != `\#` {
				return nil, "", fmt.Sprintf("constant %q in the key", s)
			}
			sh = append(sh, s)
			prevVar = false
			continue
		}
		if prevVar {
			return nil, "", "two components without a delimiter"
		}
		prevVar = true
		switch {
		case t.Op == "call" && t.Sym == "strings.Replacer":
			if !escapes(t.Args[1:]) {
				return nil, "", "the component " + t.Args[0].String() + " does not have the delimiter escaped"
			}
			parts = append(parts, t.Args[0].String())
			sh = append(sh, "V")
		case t.Op == "call" && (t.Sym == "encoding/hex.EncodeToString" || t.Sym == "itoa" || t.Sym == "strconv.Itoa"):
			parts = append(parts, t.String())
			sh = append(sh, "H")
		default:
			return nil, "", "the component " + t.String() + " is not escaped"
		}
	}
	return parts, strings.Join(sh, ""), ""
}

// escapes: the replacement pairs make ":" unambiguous, \ -> \\ and : -> \:
func escapes(ps []*Term) bool {
	m := map[string]string{}
	for i := 0; i+1 < len(ps); i += 2 {
		a, ok := ps[i].constStr()
		b, ok2 := ps[i+1].constStr()
		if !ok || !ok2 {
			return false
		}
		if _, dup := m[a]; dup {
			return false
		}
		m[a] = b
	}
	return len(m) == 2 && m[":"] == `\:` && m[`\`] == `\\`
}

func specC02(c *Ctx) {
	type shapeUse struct{ parts, cfg string }
	shapes := map[string]map[string]string{} // config -> shape -> component names
	for _, r := range c.authRuns() {
		for _, x := range r.exits {
			if x.Panic {
				continue
			}
			gets := evOf(x, cacheGet)
			sets := evOf(x, cacheSet)
			var keys []*Term
			for _, g := range append(append([]*Event(nil), gets...), sets...) {
				if g.Args[0].String() == "p0.cache" {
					keys = append(keys, g.Args[1])
				}
			}
			for i := 1; i < len(keys); i++ {
				c.ob("one-key", r.name, keys[i] == keys[0], x.Pos, x.path(), "a path uses two different cache keys: %s and %s", keys[0], keys[i])
			}
			if len(keys) == 0 {
				continue
			}
			k := keys[0]
			parts, shape, msg := keyParts(k)
			if !c.ob("key-form", r.name, msg == "", x.Pos, x.path(), "cache key %s: %s", k, msg) {
				continue
			}
			need := func(p, why string) {
				for _, q := range parts {
					if q == p {
						c.ob("key-covers", r.name, true, x.Pos, nil, "")
						return
					}
				}
				c.ob("key-covers", r.name, false, x.Pos, x.path(), "the cache key %s does not contain %s (%s)", k, p, why)
			}
			need(r.tok, "the token")
			ct := r.certOf(x.St)
			hasCert := ct != "nil" && !x.St.holds("(nil == "+ct+")")
			if hasCert {
				raw := ct + ".Raw"
				if x.St.holds("empty(" + raw + ")") {
					need(ct+".Subject.CommonName", "the certificate is checked against the token")
					need(ct+".Issuer.CommonName", "the certificate is checked against the token")
				} else {
					found := false
					for _, q := range parts {
						if strings.Contains(q, "crypto/sha256.Sum256("+raw+")") || q == raw {
							found = true
						}
					}
					c.ob("key-covers", r.name, found, x.Pos, x.path(), "the cache key %s does not contain the certificate", k)
				}
			}
			if !x.St.holds("p0.disablePolicyd") {
				need(r.act, "the policy decision depends on the action")
				need(r.res, "the policy decision depends on the resource")
				if r.query != `""` && !x.St.holds("empty("+r.query+")") && !x.St.holds("(nil == p0.translator)") {
					need(r.query, "the translation depends on the query")
				}
			}
			// the same shape must mean the same components
			cfg := "policy"
			if x.St.holds("p0.disablePolicyd") {
				cfg = "nopolicy"
			}
			if shapes[cfg] == nil {
				shapes[cfg] = map[string]string{}
			}
			var names []string
			for _, p := range parts {
				n := p
				switch p {
				case r.tok:
					n = "TOKEN"
				case r.act:
					n = "ACTION"
				case r.res:
					n = "RESOURCE"
				case r.query:
					n = "QUERY"
				default:
					if hasCert && strings.Contains(p, ct) {
						n = strings.ReplaceAll(p, ct, "CERT")
					}
				}
				names = append(names, n)
			}
			nm := strings.Join(names, ",")
			if old, ok := shapes[cfg][shape]; ok {
				c.ob("key-shape", r.name, old == nm, x.Pos, x.path(), "keys of the same shape %s mean different things: (%s) and (%s)", shape, old, nm)
			} else {
				shapes[cfg][shape] = nm
			}
		}
		ok, _ := splitNil(r.exits, 1)
		hits := 0
		for _, x := range ok {
			if !cachedHit(x) {
				continue
			}
			hits++
			h := hitCall(x).String() + "#0"
			lit := "istype(" + h + ", authorizerd.OAuthAccessToken)"
			if r.role {
				lit = "!" + lit
			}
			c.ob("hit-type", r.name, x.St.holds(lit), x.Pos, x.path(), "a cached result is returned without checking that it belongs to the same kind of token (%s)", lit)
		}
		c.ob("hits", r.name, hits > 0, r.fn.Pos(), nil, "no path uses the verification cache")
	}
}

func specC03(c *Ctx) {
	for _, r := range c.authRuns() {
		ok, bad := splitNil(r.exits, 1)
		for _, x := range bad {
			n := 0
			allEvents(x.St.events, func(e *Event) {
				if e.Kind == "call" && rx(cacheSet).MatchString(shortFn(e.Sym)) {
					n++
				}
			})
			c.ob("denied-not-cached", r.name, n == 0, x.Pos, x.path(), "a denied request writes the verification cache")
		}
		wrote := 0
		for _, x := range ok {
			sets := evOf(x, cacheSet)
			if cachedHit(x) {
				c.ob("hit-not-renewed", r.name, len(sets) == 0, x.Pos, x.path(), "a cache hit writes the cache again: its lifetime would never end")
				continue
			}
			for _, s := range sets {
				wrote++
				c.ob("cached-value", r.name, s.Args[2] == x.Res[0], x.Pos, x.path(), "the cached value %s is not the returned principal %s", s.Args[2], x.Res[0])
				c.ob("cached-lifetime", r.name, strings.HasSuffix(s.Sym, "SetWithExpire") && s.Args[len(s.Args)-1].String() == "p0.cacheExp", x.Pos, x.path(), "the cached lifetime is not the configured one")
				ks := evOf(x, cacheGet)
				c.ob("cached-key", r.name, len(ks) > 0 && ks[0].Args[1] == s.Args[1], x.Pos, x.path(), "the result is cached under another key than the one looked up")
				// nothing is verified after the write
				after := false
				for _, e := range x.St.events {
					if e == s {
						after = true
					} else if after && e.Kind == "call" && rx(`Processor\)\.|CheckPolicy|Translate`).MatchString(e.Sym) {
						c.ob("cached-last", r.name, false, x.Pos, x.path(), "the result is cached before %s", shortFn(e.Sym))
					}
					if after && e.Kind == "store" && addrBase(e.Args[0]) == x.Res[0] {
						c.ob("cached-last", r.name, false, x.Pos, x.path(), "the principal changes after it is cached")
					}
				}
				c.ob("cached-last", r.name, true, x.Pos, nil, "")
			}
			c.ob("cached-once", r.name, len(sets) == 1, x.Pos, x.path(), "a granting path writes the cache %d times", len(sets))
		}
		c.ob("writes", r.name, wrote > 0, r.fn.Pos(), nil, "no result is cached")
	}
	// who else writes the verification cache
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || relPkg(f) != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() {
					continue
				}
				m := ci.Common().Method.Name()
				if !strings.HasPrefix(ifaceName(ci.Common()), "(github.com/kpango/gache.Gache)") || m != "Set" && m != "SetWithExpire" && m != "Read" {
					continue
				}
				c.ob("writer", shortFn(f.String()), c.reachedByTokens(f), in.Pos(), nil, "%s writes the verification cache outside of token verification", shortFn(f.String()))
			}
		}
	}
}

// reachedByTokens: the function was inlined in the analysis of the token paths.
func (c *Ctx) reachedByTokens(f *ssa.Function) bool { return c.fns[shortFn(f.String())] }

func specC04(c *Ctx) {
	c.wire("access", "OAuth2AccessTokenClaim", wireClaims)
	for _, r := range c.authRuns() {
		ok, _ := splitNil(r.exits, 1)
		n := 0
		for _, x := range ok {
			if cachedHit(x) {
				continue
			}
			n++
			var parse string
			for _, p := range r.parsed(x.St) {
				if x.St.holds("(nil == " + p + "#1)") {
					parse = p
				}
			}
			v := x.Res[0]
			want := map[string]string{}
			if r.role {
				want["Name"] = parse + "#0.Principal"
				want["Roles"] = parse + "#0.Roles"
				want["Domain"] = parse + "#0.Domain"
				want["IssueTime"] = "(time.Time).Unix(" + parse + "#0.TimeStamp)"
				want["ExpiryTime"] = "(time.Time).Unix(" + parse + "#0.ExpiryTime)"
			} else {
				sc := parse + "#0.BaseClaim.StandardClaims."
				want["Name"] = sc + "Subject"
				want["Roles"] = parse + "#0.Scope"
				want["Domain"] = sc + "Audience"
				want["IssueTime"] = sc + "IssuedAt"
				want["ExpiryTime"] = sc + "ExpiresAt"
				want["ClientID"] = parse + "#0.ClientID"
			}
			if x.St.holds("p0.disablePolicyd") {
				want["AuthorizedRoles"] = "nil"
			} else {
				want["AuthorizedRoles"] = "?"
				for _, e := range evOf(x, `^\(policy\.Daemon\)\.CheckPolicyRoles$`) {
					want["AuthorizedRoles"] = e.Res.String() + "#0"
				}
			}
			var ms []string
			for m := range want {
				ms = append(ms, m)
			}
			sort.Strings(ms)
			for _, m := range ms {
				got, ok := c.callMethod(x.St, v, m)
				if !ok && v.Op == "nil" {
					got = "nil principal"
				}
				c.ob("accessor-"+m, r.name, ok && got == want[m], x.Pos, x.path(), "%s() of the returned principal is %q, expected %q", m, got, want[m])
			}
			isAcc := false
			if v.Op == "alloc" {
				isAcc = c.P.SSA.MethodSets.MethodSet(types.NewPointer(v.Typ)).Lookup(nil, "ClientID") != nil || c.hasMethod(types.NewPointer(v.Typ), "ClientID")
			}
			c.ob("kind", r.name, isAcc != r.role, x.Pos, x.path(), "the kind of principal does not match the kind of token")
		}
		c.ob("grants", r.name, n >= 2, r.fn.Pos(), nil, "no granting path")
	}
}

func (c *Ctx) hasMethod(t types.Type, m string) bool {
	ms := c.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			return true
		}
	}
	return false
}

func specC05(c *Ctx) {
	for _, r := range c.authRuns() {
		nErr := 0
		ok, bad := splitNil(r.exits, 1)
		for _, x := range append(append([]*Exit(nil), ok...), bad...) {
			st := x.St
			if st.holds("p0.disablePolicyd") {
				c.ob("disabled", r.name, x.errText(1) != "authorizerd.ErrInvalidParameters", x.Pos, x.path(), "action and resource are validated although policies are disabled")
				continue
			}
			if !r.role && st.holds("!(nil == "+extractTok+"#1)") {
				continue // no credential
			}
			empty := st.any("empty("+r.act+")", "empty("+r.res+")")
			isErr := x.errText(1) == "authorizerd.ErrInvalidParameters"
			if empty {
				nErr++
				c.ob("empty-rejected", r.name, isErr, x.Pos, x.path(), "an empty action or resource does not give ErrInvalidParameters")
				c.ob("empty-before-use", r.name, len(evs(st.events, "call", `gache|Processor|Daemon|Translator`)) == 0, x.Pos, x.path(), "the cache or a processor is used before action and resource are validated")
			} else {
				c.ob("nonempty", r.name, !isErr, x.Pos, x.path(), "ErrInvalidParameters for a non-empty action and resource")
				c.ob("both-checked", r.name, st.all("!empty("+r.act+")", "!empty("+r.res+")"), x.Pos, x.path(), "a path goes on without knowing that action and resource are not empty")
			}
		}
		c.ob("rejects", r.name, nErr > 0, r.fn.Pos(), nil, "no path rejects an empty action or resource")
	}
}

func specC06(c *Ctx) {
	// the loop over the authorizers
	for _, name := range []string{"Verify", "Authorize"} {
		f := c.fn("", "(*authority)."+name)
		ex := c.run(f)
		ei := 0
		if name == "Authorize" {
			ei = 1
		}
		for _, x := range panics(ex) {
			c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
		}
		ok, bad := splitNil(ex, ei)
		call := "dyn(p0.authorizers[it], p1, p2, p3)"
		for _, x := range ok {
			c.ob("success", name, x.St.holds("(nil == "+call+"#1)") && x.St.holds("(it < len(p0.authorizers))"), x.Pos, x.path(), "success without a successful authorizer (expected a nil error of %s)", call)
			if name == "Authorize" {
				c.ob("principal", name, x.Res[0].String() == call+"#0", x.Pos, x.path(), "the principal %s is not the one of the successful authorizer", x.Res[0])
			}
		}
		for _, x := range bad {
			c.ob("failure", name, x.errText(ei) == "authorizerd.ErrInvalidCredentials", x.Pos, x.path(), "failure with %s instead of ErrInvalidCredentials", x.errText(ei))
			c.ob("no-success", name, !x.St.holds("(nil == "+call+"#1)"), x.Pos, x.path(), "failure although an authorizer succeeded")
			c.ob("exhausted", name, x.St.holds("!(it < len(p0.authorizers))") || x.St.holds("empty(p0.authorizers)"), x.Pos, x.path(), "failure before every authorizer was tried")
			if name == "Authorize" {
				c.ob("no-principal", name, x.Res[0] == tNil, x.Pos, x.path(), "a principal is returned with an error")
			}
		}
		iters := 0
		for _, x := range ex {
			for _, e := range evs(x.St.events, "loop", "") {
				for _, it := range e.Loop.Iters {
					iters++
					okIt := false
					for _, f := range it.Facts {
						okIt = okIt || f.String() == "!(nil == "+call+"#1)"
						// a success noted in a variable, after which no iteration starts
						if f.String() == "(nil == "+call+"#1)" {
							for n, v := range it.Phis {
								okIt = okIt || (v.isConst() || v == tNil) && e.Loop.noStart(n, v)
							}
						}
					}
					c.ob("iteration", name, okIt, it.Pos, factTexts(it.Facts), "an authorizer is skipped without having failed")
				}
			}
		}
		c.ob("loops", name, len(ok) > 0 && len(bad) > 0 && iters > 0, f.Pos(), nil, "the authorizers are not tried one after the other")
	}
	// which authorizers there are
	for _, x := range c.verifiers() {
		st := x.St
		flags := []string{"p0.enableRoleCert", "p0.accessTokenParam.enable", "p0.enableRoleToken"}
		var want []string
		dec := true
		for i, f := range flags {
			switch {
			case st.holds(f):
				want = append(want, []string{"role certificate", "access token", "role token"}[i])
			case st.holds("!" + f):
			default:
				dec = false
			}
		}
		construct := "enabled: " + strings.Join(want, ", ")
		if !c.ob("flags", "initAuthorizers", dec && !x.Panic, x.Pos, x.path(), "the authorizers do not depend on every credential type being enabled") {
			continue
		}
		isNil := st.decideNil(x.Res[0])
		if len(want) == 0 {
			c.ob("none-enabled", "initAuthorizers", isNil == 0, x.Pos, x.path(), "no error although no credential type is enabled")
			continue
		}
		if !c.ob("some-enabled", construct, isNil == 1, x.Pos, x.path(), "error although a credential type is enabled") {
			continue
		}
		as, ok := authorizersOf(x)
		if !ok {
			c.lost("the list of authorizers is not known after initAuthorizers")
		}
		var got []string
		for _, a := range as {
			e := c.P.NewEngine()
			ex := c.callIn(e, a, httpArgs, st)
			got = append(got, c.classify(a, ex))
		}
		sort.Strings(want)
		sort.Strings(got)
		c.ob("authorizers", construct, strings.Join(got, ",") == strings.Join(want, ","), x.Pos, x.path(), "the authorizers are [%s]", strings.Join(got, ", "))
	}
	// credentials of the requests
	for _, r := range c.authRuns() {
		if !strings.HasPrefix(r.name, "HTTP") {
			continue
		}
		n := 0
		for _, x := range r.exits {
			for _, e := range evOf(x, `ParseAndValidate`) {
				n++
				ok := false
				for _, p := range r.parsed(x.St) {
					if e.Res.String() == p {
						ok = true
					}
				}
				c.ob("credential", r.name, ok, x.Pos, x.path(), "the credential is %s, expected %s", e.Res, r.parsed(x.St)[0])
				if r.cert != "" {
					c.ob("tls-decided", r.name, x.St.any("(nil == req.TLS)", "empty(req.TLS.PeerCertificates)", "!empty(req.TLS.PeerCertificates)"), x.Pos, x.path(), "the peer certificates are not consulted")
				}
			}
		}
		c.ob("credentials", r.name, n > 0, r.fn.Pos(), nil, "no credential is verified")
	}
}

func factTexts(fs []Fact) []string {
	var s []string
	for _, f := range fs {
		s = append(s, f.String())
	}
	return s
}

// classify says which credential an authorizer verifies.
func (c *Ctx) classify(a *Term, ex []*Exit) string {
	kinds := map[string]bool{}
	for _, x := range ex {
		for _, ev := range x.St.events {
			switch shortFn(ev.Sym) + "(" {
			case parseRole:
				kinds["role token"] = true
			case parseAcc:
				kinds["access token"] = true
			}
		}
	}
	if len(kinds) == 0 {
		return "role certificate"
	}
	var s []string
	for k := range kinds {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}
