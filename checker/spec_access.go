package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C10", Min: 150, Rule: "every path of ParseAndValidateOAuth2AccessToken that returns claims passes the JWT parser (nil error, valid token) with the processor's own key function and no parser options; the key function returns only a non-nil key found for the token's string kid and jku; the claims are valid only when expiry (required), issue time and not-before hold", Run: specC10})
	register(&Check{ID: "C12", Min: 150, Rule: "with certificate bound tokens enabled, claims are returned exactly when a client certificate is present and its thumbprint equals the bound one, or the thumbprint is bound and the refreshed-certificate rule holds (offset set, equal non-empty names, issue time within the two bounds), or one of its URIs is a listed proxy principal", Run: specC12})
	register(&Check{ID: "C13", Min: 150, Rule: "with client id verification enabled, claims are returned exactly when a client certificate is present and the token's client id is listed for its common name; with it disabled the client id is never a cause of rejection", Run: specC13})
}

const (
	accessFn = "ParseAndValidateOAuth2AccessToken"
	jwtParse = "github.com/golang-jwt/jwt/v4.ParseWithClaims"
)

type accRun struct {
	ex    []*Exit
	call  map[*Exit]*Term  // the parser call of each exit
	claim map[*Exit]string // text of the parsed claims
	kf    *Term
}

func (c *Ctx) accessRun() *accRun {
	f := c.impl("access", "Processor", accessFn)
	r := &accRun{ex: c.run(f), call: map[*Exit]*Term{}, claim: map[*Exit]string{}}
	for _, x := range r.ex {
		if x.Panic {
			continue
		}
		for _, e := range evOf(x, `^`+strings.ReplaceAll(jwtParse, ".", `\.`)+`$`) {
			r.call[x] = e.Res
			r.kf = e.Res.Args[2]
		}
		if t := r.call[x]; t != nil {
			r.claim[x] = t.String() + "#0.Claims"
		}
	}
	return r
}

// keyFunction runs the key function given to the parser.
func (c *Ctx) keyFunction(r *accRun) []*Exit {
	e := c.P.NewEngine()
	tok := mk(Term{Op: "param", Sym: "token"})
	return c.callIn(e, r.kf, []*Term{tok}, &State{heap: map[*Term]*Term{}, fidx: map[*Term]bool{}})
}

// split makes the nil-ness of the error definite; the call of an exit is kept for its halves.
func (r *accRun) split() (ok, bad []*Exit) {
	for _, x := range r.ex {
		o, b := splitNil([]*Exit{x}, 1)
		for _, y := range append(append([]*Exit(nil), o...), b...) {
			r.call[y], r.claim[y] = r.call[x], r.claim[x]
		}
		ok, bad = append(ok, o...), append(bad, b...)
	}
	return
}

func specC10(c *Ctx) {
	c.wire("access", "OAuth2AccessTokenClaim", wireClaims)
	c.foreignState("dependencies", tokenLibs, tokenCalls)
	r := c.accessRun()
	name := accessFn
	for _, x := range panics(r.ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	ok, bad := r.split()
	for _, x := range ok {
		st, p := x.St, r.call[x]
		if !c.ob("parsed", name, p != nil, x.Pos, x.path(), "claims are returned without the token being parsed by %s", jwtParse) {
			continue
		}
		ps := p.String()
		c.ob("credential", name, p.Args[0].String() == "p1", x.Pos, x.path(), "the parsed credential is %s", p.Args[0])
		c.ob("no-error", name, st.holds("(nil == "+ps+"#1)"), x.Pos, x.path(), "claims are returned although the parser may have failed")
		c.ob("valid", name, st.holds(ps+"#0.Valid"), x.Pos, x.path(), "claims are returned although the token may be invalid")
		c.ob("claims", name, x.Res[0].String() == r.claim[x] || x.Res[0] == p.Args[1], x.Pos, x.path(), "the returned claims %s are not those of the parsed token", x.Res[0])
		c.ob("options", name, len(p.Args) == 4 && (p.Args[3] == tNil || p.Args[3].Op == "list" && len(p.Args[3].Args) == 0), x.Pos, x.path(), "the parser is given options (%s)", p)
		good := p.Args[1].Op == "alloc" && strings.HasSuffix(typeStr(p.Args[1].Typ), "access.OAuth2AccessTokenClaim")
		c.ob("claim-type", name, good, x.Pos, x.path(), "the claims are parsed into %s", p.Args[1])
	}
	c.ob("accepts", name, len(ok) > 0, r.ex[0].Pos, nil, "no token is accepted")
	for _, x := range bad {
		c.ob("no-claims", name, x.Res[0] == tNil, x.Pos, x.path(), "claims are returned together with an error")
		if p := r.call[x]; p != nil && x.St.holds("!(nil == "+p.String()+"#1)") {
			c.ob("error-kept", name, x.errText(1) == p.String()+"#1", x.Pos, x.path(), "the parser's error is replaced by %s", x.errText(1))
		}
	}
	// the key function
	if !c.ob("key-function", "key function", r.kf != nil && r.kf.Fn != nil, r.ex[0].Pos, nil, "the key function is not known") {
		return
	}
	ex := c.keyFunction(r)
	kok, kbad := splitNil(ex, 1)
	n := map[string]int{}
	for _, x := range panics(ex) {
		c.ob("no-panic", "key function", false, x.Pos, x.path(), "the key function panics")
	}
	for _, x := range kok {
		st := x.St
		jku := `token.Header{"jku"}`
		if st.holds(`!has(token.Header, "jku")`) {
			jku = `""`
		}
		key := `dyn(p0.jwkp, token.Header{"kid"}, ` + jku + `)`
		n[jku]++
		c.ob("key", "key function", x.Res[0].String() == key, x.Pos, x.path(), "the key is %s, expected %s", x.Res[0], key)
		c.ob("key-exists", "key function", st.holds("!(nil == "+key+")"), x.Pos, x.path(), "a missing key may be returned without an error")
		c.ob("kid", "key function", st.holds(`istype(token.Header{"kid"}, string)`), x.Pos, x.path(), "the kid is not required to be a string")
		if jku != `""` {
			c.ob("jku", "key function", st.holds(`istype(token.Header{"jku"}, string)`), x.Pos, x.path(), "the jku is not required to be a string")
		}
	}
	c.ob("jku-cases", "key function", len(n) == 2, r.ex[0].Pos, nil, "tokens with and without a key set URL are not both served")
	for _, x := range kbad {
		st := x.St
		cause := st.any(`!has(token.Header, "kid")`, `!istype(token.Header{"kid"}, string)`, "(nil == p0.jwkp)") || st.all(`has(token.Header, "jku")`, `!istype(token.Header{"jku"}, string)`) ||
			st.some(`^\(nil == dyn\(p0\.jwkp, token\.Header\{"kid"\}, .*\)\)$`) || st.some(`^\(access\.err\w+ == access\.err\w+\)$`)
		c.ob("key-denied", "key function", cause, x.Pos, x.path(), "a key is refused without a cause")
	}
	// the claims
	pkg := c.P.Mod["access"]
	if pkg == nil || pkg.Type("OAuth2AccessTokenClaim") == nil {
		c.lost("access.OAuth2AccessTokenClaim")
	}
	o := pkg.Type("OAuth2AccessTokenClaim")
	sel := c.P.SSA.MethodSets.MethodSet(types.NewPointer(o.Type())).Lookup(nil, "Valid")
	if sel == nil {
		c.lost("no Valid method of the access token claims")
	}
	vf := c.P.SSA.FuncValue(sel.Obj().(*types.Func))
	if vf == nil || len(vf.Blocks) == 0 {
		c.lost("the Valid method of the access token claims is not one of this module")
	}
	vex := c.run(vf)
	now := `(\(time\.Time\)\.Unix\((now\(\)|dyn\(github\.com/golang-jwt/jwt/v4\.TimeFunc\))\))`
	sc := `^(!?)\(\*github\.com/golang-jwt/jwt/v4\.StandardClaims\)\.`
	want := map[string]string{
		"expiry": sc + `VerifyExpiresAt\(&p0(\.BaseClaim)?\.StandardClaims, ` + now + `, true\)$`,
		"issued": sc + `VerifyIssuedAt\(&p0(\.BaseClaim)?\.StandardClaims, ` + now + `, (true|false)\)$`,
		"nbf":    sc + `VerifyNotBefore\(&p0(\.BaseClaim)?\.StandardClaims, ` + now + `, (true|false)\)$`,
	}
	vok, vbad := splitNil(vex, 0)
	for _, x := range vok {
		for k, re := range want {
			hit := false
			for _, t := range x.path() {
				if m := rx(re).FindStringSubmatch(t); m != nil && m[1] == "" {
					hit = true
				}
			}
			c.ob("claims-"+k, "claims", hit, x.Pos, x.path(), "claims are valid although the %s may not be", k)
		}
	}
	for _, x := range vbad {
		hit := false
		for _, re := range want {
			for _, t := range x.path() {
				if m := rx(re).FindStringSubmatch(t); m != nil && m[1] == "!" {
					hit = true
				}
			}
		}
		c.ob("claims-rejected", "claims", hit, x.Pos, x.path(), "claims are rejected without a cause")
	}
	c.ob("claims-cases", "claims", len(vok) > 0 && len(vbad) > 0, vf.Pos(), nil, "claims are always or never valid")
}

// idListed: the literal that the client id is one of the listed ones.
func idListed(cl string) (eq, inLoop, empty string) {
	ids := "p0.authorizedClientIDs{p2.Subject.CommonName}"
	return "(" + cl + ".ClientID == " + ids + "[it])", "(it < len(" + ids + "))", "empty(" + ids + ")"
}

func specC13(c *Ctx) {
	c.wire("access", "OAuth2AccessTokenClaim", wireClaims)
	r := c.accessRun()
	name := accessFn
	ok, bad := r.split()
	nOn, nOff := 0, 0
	for _, x := range ok {
		st, cl := x.St, r.claim[x]
		eq, in, _ := idListed(cl)
		if st.holds("!p0.enableVerifyClientID") {
			nOff++
			c.ob("off", name, true, x.Pos, nil, "")
			continue
		}
		nOn++
		c.ob("flag", name, st.holds("p0.enableVerifyClientID"), x.Pos, x.path(), "claims are returned without asking whether client ids are verified")
		c.ob("certificate", name, st.holds("!(nil == p2)"), x.Pos, x.path(), "claims are returned without a client certificate")
		c.ob("listed", name, st.holds(eq) && st.holds(in), x.Pos, x.path(), "claims are returned although the client id may not be listed for the common name (expected %s)", eq)
	}
	c.ob("cases", name, nOn > 0 && nOff > 0, r.ex[0].Pos, nil, "the flag has no effect")
	n := 0
	for _, x := range bad {
		st, cl := x.St, r.claim[x]
		if cl == "" || otherCause(r, x) {
			continue
		}
		_, in, emp := idListed(cl)
		none := "!has(p0.authorizedClientIDs, p2.Subject.CommonName)"
		// not rejected by the certificate binding: then by the client id
		refused := st.holds("p0.enableVerifyClientID") && st.any("(nil == p2)", "!"+in, emp, none)
		if refused {
			n++
		}
		if st.holds("p0.enableMTLSCertificateBoundAccessToken") {
			continue
		}
		c.ob("rejected", name, refused, x.Pos, x.path(), "a client is rejected without a cause")
	}
	c.ob("rejects", name, n > 0, r.ex[0].Pos, nil, "no client id is rejected")
	for _, l := range loopsOf(r.ex) {
		for _, it := range l.Iters {
			for _, cl := range uniq(r.claim) {
				eq, in, _ := idListed(cl)
				if iterDecided(it, in) == 1 {
					c.ob("iteration", name, iterDecided(it, eq) == 0, it.Pos, factTexts(it.Facts), "a listed client id is passed over")
				}
			}
		}
	}
}

func uniq(m map[*Exit]string) []string {
	seen := map[string]bool{}
	var out []string
	for _, v := range m {
		if v != "" && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// otherCause: the token itself was refused.
func otherCause(r *accRun, x *Exit) bool {
	p := r.call[x].String()
	return x.St.any("!(nil == "+p+"#1)", "!"+p+"#0.Valid") || x.St.some(`^!istype\(.*#0\.Claims, \*access\.OAuth2AccessTokenClaim\)$`)
}

func specC12(c *Ctx) {
	c.wire("access", "OAuth2AccessTokenClaim", wireClaims)
	r := c.accessRun()
	name := accessFn
	ok, bad := r.split()
	type lits struct{ has, eq, off, cn, id, same, lo, hi, lo2, hi2, list, in, uri string }
	mkLits := func(cl string) lits {
		x5 := cl + `.Confirm{"x5t#S256"}`
		px := cl + `.Confirm{"proxy-principals#spiffe"}`
		act := "sum((time.Time).Unix(p2.NotBefore), p0.clientCertificateGoBackSeconds)"
		iat := cl + ".BaseClaim.StandardClaims.IssuedAt"
		return lits{
			has:  "istype(" + x5 + ", string)",
			eq:   "((*encoding/base64.Encoding).EncodeToString(encoding/base64.RawURLEncoding, crypto/sha256.Sum256(p2.Raw)) == " + x5 + ")",
			off:  "(p0.clientCertificateOffsetSeconds == 0)",
			cn:   "empty(p2.Subject.CommonName)",
			id:   "empty(" + cl + ".ClientID)",
			same: "(" + cl + ".ClientID == p2.Subject.CommonName)",
			lo:   "(" + iat + " < (" + act + " + 1))",
			hi:   "(" + act + " < (sum(" + iat + ", p0.clientCertificateOffsetSeconds) + 1))",
			// the same, by the difference
			lo2:  "!(diff(" + act + ", " + iat + ") < 0)",
			hi2:  "(diff(" + act + ", " + iat + ") < (p0.clientCertificateOffsetSeconds + 1))",
			list: "istype(" + px + ", []interface{})",
			in:   "(it < len(p2.URIs))",
			uri:  px,
		}
	}
	const uriS = "(*net/url.URL).String(p2.URIs[it])"
	listed := func(st *State, l lits) bool {
		if st.any("has(makemap(), "+uriS+")", "makemap(){"+uriS+"}") && st.holds(l.in) {
			return true
		}
		return st.holds("("+uriS+" == "+l.uri+"[it])") || st.holds("("+l.uri+"[it] == "+uriS+")")
	}
	kinds := map[string]int{}
	for _, x := range ok {
		st := x.St
		if st.holds("!p0.enableMTLSCertificateBoundAccessToken") {
			kinds["off"]++
			c.ob("off", name, true, x.Pos, nil, "")
			continue
		}
		c.ob("flag", name, st.holds("p0.enableMTLSCertificateBoundAccessToken"), x.Pos, x.path(), "claims are returned without asking whether tokens are certificate bound")
		c.ob("certificate", name, st.holds("!(nil == p2)"), x.Pos, x.path(), "a certificate bound token is accepted without a client certificate")
		l := mkLits(r.claim[x])
		switch {
		case st.all(l.has, l.eq):
			kinds["thumbprint"]++
			c.ob("bound", "thumbprint", true, x.Pos, nil, "")
		case st.all(l.has, "!"+l.off, l.same) && st.any(l.lo, l.lo2) && st.any(l.hi, l.hi2) && st.any("!"+l.cn, "!"+l.id):
			kinds["refreshed"]++
			c.ob("bound", "refreshed certificate", true, x.Pos, nil, "")
		case st.holds(l.list) && listed(st, l):
			kinds["proxy"]++
			c.ob("bound", "proxy principal", true, x.Pos, nil, "")
		default:
			c.ob("bound", name, false, x.Pos, x.path(), "a token is accepted which is bound to the certificate neither by its thumbprint, nor by the refreshed-certificate rule, nor by a proxy principal")
		}
	}
	for _, k := range []string{"off", "thumbprint", "refreshed", "proxy"} {
		c.ob("kinds", k, kinds[k] > 0, r.ex[0].Pos, nil, "no token is accepted this way: %s", k)
	}
	n := 0
	for _, x := range bad {
		st, cl := x.St, r.claim[x]
		if cl == "" || otherCause(r, x) {
			continue
		}
		if st.holds("!p0.enableMTLSCertificateBoundAccessToken") {
			c.ob("off-rejects", name, st.holds("p0.enableVerifyClientID"), x.Pos, x.path(), "a token is rejected although it need not be certificate bound")
			continue
		}
		if _, in, emp := idListed(cl); st.holds("p0.enableVerifyClientID") && st.any("!"+in, emp, "!has(p0.authorizedClientIDs, p2.Subject.CommonName)") {
			continue // the client id
		}
		n++
		l := mkLits(cl)
		if st.holds("(nil == p2)") {
			c.ob("no-certificate", name, true, x.Pos, nil, "")
			continue
		}
		thumb := st.holds("!"+l.has) || st.holds("!"+l.eq) && st.any(l.off, l.cn, l.id, "!"+l.same, "!"+l.lo, "!"+l.hi, l.lo2[1:], "!"+l.hi2)
		c.ob("thumbprint-refuted", name, thumb, x.Pos, x.path(), "a token is rejected although its thumbprint may be bound to the certificate")
		proxy := st.any("!"+l.list, "empty("+l.uri+")", "!"+l.in, "empty(p2.URIs)", "!(it < len("+l.uri+"))")
		c.ob("proxy-refuted", name, proxy, x.Pos, x.path(), "a token is rejected although the certificate may be of a listed proxy")
	}
	c.ob("rejects", name, n > 0, r.ex[0].Pos, nil, "no token is rejected")
	// the listed proxies, and the URIs compared with them
	sets, uris := 0, 0
	for _, l := range loopsOf(r.ex) {
		for _, it := range l.Iters {
			for _, cl := range uniq(r.claim) {
				px := mkLits(cl).uri
				own := evs(it.Events, "mapset", "")
				if iterDecided(it, "(it < len("+px+"))") == 1 {
					str := iterDecided(it, "istype("+px+"[it], string)")
					switch {
					case str == 1 && len(own) > 0:
						sets++
						c.ob("listed", "proxy principals", own[0].Args[1].String() == px+"[it]" && own[0].Args[2] != tFalse, it.Pos, factTexts(it.Facts), "%s is taken as a proxy principal", own[0].Args[1])
					case str == 1:
						eq := iterDecided(it, "("+uriS+" == "+px+"[it])")
						through := iterDecided(it, "(it < len(p2.URIs))") == 0 || iterHolds(it, "empty(p2.URIs)")
						c.ob("listed", "proxy principals", eq == 0 || through, it.Pos, factTexts(it.Facts), "a listed proxy principal is ignored")
						sets++
					default:
						c.ob("not-listed", "proxy principals", len(own) == 0, it.Pos, factTexts(it.Facts), "something else than a string is taken as a proxy principal")
					}
				} else if len(own) > 0 {
					c.ob("not-listed", "proxy principals", false, it.Pos, factTexts(it.Facts), "%s is taken as a proxy principal", own[0].Args[1])
				}
				if iterDecided(it, "(it < len(p2.URIs))") == 1 {
					uris++
					nested := len(evs(it.Events, "loop", "")) > 0
					missing := iterDecided(it, "has(makemap(), "+uriS+")") == 0 || iterDecided(it, "makemap(){"+uriS+"}") == 0 || iterDecided(it, "("+uriS+" == "+px+"[it])") == 0
					for _, ev := range evs(it.Events, "mapmiss", "") {
						missing = missing || ev.Args[1].String() == uriS
					}
					c.ob("uri", "proxy principals", nested || missing || iterHolds(it, "empty("+px+")"), it.Pos, factTexts(it.All), "a URI of the certificate is passed over")
				}
			}
		}
	}
	c.ob("proxies", name, sets > 0 && uris > 0, r.ex[0].Pos, nil, "the proxy principals are not compared with the URIs of the certificate")
}
