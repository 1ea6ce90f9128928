package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C35", Min: 900, Rule: "every dereference, call of an interface or function value, index, slice bound, type assertion and map write reached from a request, a token, a certificate, a refresh or the building of mapping rules is guarded on its path: the value comes from what the constructor always sets, from a successful library call, or the path's facts exclude nil and out of range; no path reaches an explicit panic", Run: specC35})
}

// guardedBy: fields of the authority which are set unless a part is disabled.
var guardedBy = map[string]string{"p0.policyd": "!p0.disablePolicyd", "p0.pubkeyd": "!p0.disablePubkeyd", "p0.jwkd": "!p0.disableJwkd"}

// optional: fields which may be left nil by the constructors.
var optionalField = map[string]bool{"pkp": true, "jwkp": true, "roleProcessor": true, "accessProcessor": true, "translator": true, "policyCache": true}

const signedData = ".DomainSignedPolicyData.SignedPolicyData"

func (c *Ctx) riskOK(e *Engine, r *Risk) bool {
	s := r.T.String()
	switch r.Kind {
	case "assert":
		return fromCache(r.T)
	case "nil":
	default:
		return false
	}
	t := r.T
	if lit, ok := guardedBy[s]; ok {
		return litIn(r.Facts, lit)
	}
	switch t.Op {
	case "param":
		return t.Sym == "p0" || t.Sym == "req" || t.Typ != nil && (typeStr(t.Typ) == "context.Context" || typeStr(t.Typ) == "*net/http.Request" || typeStr(t.Typ) == "*github.com/golang-jwt/jwt/v4.Token")
	case "cctx", "cancelfn", "mapval":
		return true
	case "call":
		return t.Sym != "dyn" && !strings.Contains(t.Sym, modPath)
	case "sel":
		if optionalField[t.Sym] {
			return false
		}
		if t.Args[0].Op == "param" && t.Args[0].Sym == "req" {
			return t.Sym == "URL"
		}
		if t.Sym == "Body" && t.Args[0].Op == "ext" {
			return true
		}
	case "lookup":
		// an entry of a walk over an own map
		if t.Args[0].Op == "makemap" && t.Args[1].Op == "mapkey" && t.Args[1].Args[0] == t.Args[0] {
			return true
		}
	case "elem":
		b := t.Args[0]
		if b.Op == "param" && b.Typ != nil && typeStr(b.Typ) == "[]*crypto/x509.Certificate" {
			return true
		}
		if fromCache(b) {
			return true
		}
	}
	// what the library's own, checked policy data holds is signed
	if i := strings.Index(s, signedData); i >= 0 {
		root := s[:i]
		return strings.HasPrefix(root, "(policy.Fetcher).Fetch") || strings.HasPrefix(root, "out[1](dyn(p0.spVerifier") && litIn(r.Facts, "(nil == "+strings.TrimPrefix(root, "out[1]("))
	}
	return rooted(t, r.Facts)
}

// rooted: a part of the receiver, which its constructor fills.
func rooted(t *Term, fs []Fact) bool {
	for {
		switch t.Op {
		case "sel", "deref", "elem", "lookup":
			if t.Op == "sel" && optionalField[t.Sym] {
				return false
			}
			if t.Op == "lookup" && !(t.Args[1].Op == "mapkey" && t.Args[1].Args[0] == t.Args[0]) && !litIn(fs, "has("+t.Args[0].String()+", "+t.Args[1].String()+")") {
				return false
			}
			t = t.Args[0]
		case "param":
			return t.Sym == "p0"
		default:
			return false
		}
	}
}

// fromCache: a value of one of the library's own caches, whose types are checked at the stores.
func fromCache(t *Term) bool {
	if t.Op == "mapval" || t.Op == "mapkey" && strings.HasPrefix(t.Args[0].String(), "p0.") {
		return true
	}
	if t.Op == "ext" && t.Sym == "0" {
		s := t.Args[0].Sym
		return strings.HasPrefix(s, "(github.com/kpango/gache.Gache).Get") || strings.HasPrefix(s, "(*sync.Map).Load")
	}
	return false
}

func litIn(fs []Fact, lit string) bool {
	neg := strings.HasPrefix(lit, "!")
	for _, f := range fs {
		if f.A.String() == strings.TrimPrefix(lit, "!") && f.V != neg {
			return true
		}
	}
	return false
}

func specC35(c *Ctx) {
	report := func(name string, e *Engine, ex []*Exit, pos token.Pos) {
		for _, x := range ex {
			c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics")
		}
		for range e.Checked {
			c.obls = append(c.obls, obl{"guarded", name, true})
		}
		for _, r := range e.Risks {
			if !c.riskOK(e, r) {
				c.ob("guarded", shortFn(r.Fn.String()), false, r.Pos, factTexts(r.Facts), "%s may panic: %s", map[string]string{"nil": "a nil value", "index": "an index", "slice": "a slice bound", "assert": "a type assertion", "nilmap": "a write to a nil map"}[r.Kind], riskText(r))
			}
		}
	}
	newE := func() *Engine {
		e := c.P.NewEngine()
		e.Risks, e.Checked = map[string]*Risk{}, map[ssa.Instruction]bool{}
		return e
	}
	// functions handed to the libraries, which call them later
	handed := map[string]bool{}
	later := func(ex []*Exit) {
		for _, x := range ex {
			allEvents(x.St.events, func(ev *Event) {
				if ev.Kind != "call" || len(ev.Sub) > 0 {
					return
				}
				for _, a := range ev.Args {
					if a.Op != "closure" || !c.P.inModule(a.Fn) || a.Fn.Signature.Recv() != nil || handed[a.Fn.String()] {
						continue
					}
					handed[a.Fn.String()] = true
					e := newE()
					var args []*Term
					for i, p := range a.Fn.Params {
						args = append(args, mk(Term{Op: "param", Sym: fmt.Sprintf("h%d", i), Typ: p.Type()}))
					}
					report(shortFn(a.Fn.String()), e, c.callIn(e, a, args, x.St), a.Fn.Pos())
				}
			})
		}
	}
	run := func(f *ssa.Function, opaque ...*ssa.Function) []*Exit {
		e := newE()
		e.Opaque = func(g *ssa.Function) bool {
			for _, o := range opaque {
				if g == o {
					return true
				}
			}
			return false
		}
		ex, err := e.Run(f, nil)
		c.account(e, f, ex)
		if err != nil {
			c.lost("%s: %v", shortFn(f.String()), err)
		}
		report(shortFn(f.String()), e, ex, f.Pos())
		later(ex)
		return ex
	}
	for _, m := range []string{"VerifyRoleToken", "AuthorizeRoleToken", "VerifyAccessToken", "AuthorizeAccessToken", "VerifyRoleCert", "AuthorizeRoleCert", "Verify", "Authorize", "Init"} {
		run(c.fn("", "(*authority)."+m))
	}
	run(c.impl("", "Translator", "Translate"))
	isp := c.fn("", "(*Rule).isPlaceholder")
	run(c.fn("", "NewMappingRules"), isp)
	run(isp)
	run(c.impl("role", "Processor", "ParseAndValidateRoleToken"))
	run(c.impl("access", "Processor", "ParseAndValidateOAuth2AccessToken"))
	run(c.impl("policy", "Fetcher", "Fetch"))
	run(c.impl("policy", "Fetcher", "FetchWithRetry"))
	for _, m := range []string{"Update", "CheckPolicy", "CheckPolicyRoles", "GetPolicyCache"} {
		run(c.impl("policy", "Daemon", m))
	}
	run(c.fn("policy", "NewAssertion"))
	run(c.impl("pubkey", "Daemon", "Update"))
	run(c.impl("jwk", "Daemon", "Update"))
	for _, pkg := range []string{"pubkey", "jwk"} {
		g := c.run(c.impl(pkg, "Daemon", "GetProvider"))
		if len(g) != 1 || g[0].Panic || g[0].Res[0].Fn == nil {
			c.lost("the provider of %s is not a known function", pkg)
		}
		e := newE()
		ex := c.callIn(e, g[0].Res[0], []*Term{mk(Term{Op: "param", Sym: "a", Typ: strT}), mk(Term{Op: "param", Sym: "b", Typ: strT})}, g[0].St)
		report(pkg+" provider", e, ex, g[0].Res[0].Fn.Pos())
	}
	run(c.fn("client", "(*ExponentialRoundTripper).RoundTrip"))
	ok, _ := splitNil(run(c.fn("policy", "(*SignedPolicy).Verify")), 0)
	for _, x := range ok {
		for _, f := range []string{"", ".Expires"} {
			c.ob("signed-data", "(*SignedPolicy).Verify", x.St.holds("!(nil == p0"+signedData+f+")"), x.Pos, x.path(), "policy data without content or expiry is accepted, its expiry is used unchecked")
		}
	}
	// the verifiers of the HTTP requests
	n := 0
	seen := map[string]bool{}
	for _, x := range c.verifiers() {
		if x.Panic || x.St.decideNil(x.Res[0]) != 1 {
			continue
		}
		as, ok := authorizersOf(x)
		if !ok {
			c.lost("the list of authorizers is not known after initAuthorizers")
		}
		for _, a := range as {
			if a.Fn == nil || seen[a.Fn.String()] {
				continue
			}
			seen[a.Fn.String()] = true
			n++
			e := newE()
			ex := c.callIn(e, a, httpArgs, x.St)
			report(shortFn(a.Fn.String()), e, ex, a.Fn.Pos())
		}
	}
	c.ob("verifiers", "initAuthorizers", n >= 3, token.NoPos, nil, "only %d HTTP verifiers were found", n)
	c.storedTypes()
}

// storedTypes: what is stored in the caches of a package has a type that is asserted when it is read.
func (c *Ctx) storedTypes() {
	for rel, pk := range c.P.Mod {
		var want []types.Type
		var sets []site
		var fns []*ssa.Function
		for _, g := range c.P.Funcs {
			if g.Pkg != pk {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && types.IsInterface(ta.X.Type()) && ta.X.Type().Underlying().(*types.Interface).NumMethods() == 0 && !ta.CommaOk {
						want = append(want, ta.AssertedType)
					}
				}
			}
			for _, s := range callSites(g) {
				set := strings.HasPrefix(s.name, "(github.com/kpango/gache.Gache).Set") && !strings.HasSuffix(s.name, "Hook")
				if set || s.name == "(*sync.Map).Store" || s.name == "(*sync.Map).LoadOrStore" || s.name == "(*sync.Map).Swap" {
					sets = append(sets, s)
					fns = append(fns, g)
				}
			}
		}
		if len(want) == 0 {
			continue
		}
		for i, s := range sets {
			a := s.in.Common().Args
			k := 1
			if !s.in.Common().IsInvoke() {
				k++
			}
			if k >= len(a) {
				continue
			}
			var t types.Type
			switch v := a[k].(type) {
			case *ssa.MakeInterface:
				t = v.X.Type()
			case *ssa.ChangeInterface:
				t = v.X.Type()
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Extract, *ssa.UnOp, *ssa.Phi:
				continue // copied from one cache to another
			default:
				t = v.Type()
			}
			good := false
			for _, w := range want {
				good = good || types.AssignableTo(t, w)
			}
			c.ob("stored-type", rel+" "+shortFn(fns[i].String()), good, s.in.Pos(), nil, "a value of type %s is stored, which no reader expects", typeStr(t))
		}
	}
}
