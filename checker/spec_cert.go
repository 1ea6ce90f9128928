package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C07", Min: 30, Rule: "VerifyRoleCert collects exactly the domain and role of every certificate name holding the role delimiter and of every URI with the configured prefix, drops only exact duplicates, asks the policies for each domain with the roles collected for it, and succeeds exactly when one of them allows", Run: specC07})
}

// isRolesMap: the collection domain -> roles.
func isRolesMap(t *Term) bool {
	m, ok := t.Typ.(*types.Map)
	if !ok && t.Typ != nil {
		m, ok = t.Typ.Underlying().(*types.Map)
	}
	if !ok {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isStringT(b.Elem()) && isStringT(m.Key())
}

// lastOf is the last element of a list or append.
func lastOf(t *Term) *Term {
	switch t.Op {
	case "list":
		if len(t.Args) > 0 {
			return t.Args[len(t.Args)-1]
		}
	}
	if strings.HasPrefix(t.Op, "append") && len(t.Args) == 2 {
		return t.Args[1]
	}
	return t
}

func iterHolds(it *Iter, lit string) bool {
	for _, f := range it.All {
		if f.String() == lit {
			return true
		}
	}
	return false
}

func iterDecided(it *Iter, lit string) int {
	for _, f := range it.Facts {
		switch f.String() {
		case lit:
			return 1
		case "!" + lit:
			return 0
		}
	}
	return -1
}

// loopsOf lists the loops of an exit, nested ones too, each once.
func loopsOf(exits []*Exit) (out []*LoopCtx) {
	seen := map[*LoopCtx]bool{}
	for _, x := range exits {
		allEvents(x.St.events, func(e *Event) {
			if e.Loop != nil && !seen[e.Loop] {
				seen[e.Loop] = true
				out = append(out, e.Loop)
			}
		})
	}
	return
}

func specC07(c *Ctx) {
	f := c.fn("", "(*authority).VerifyRoleCert")
	name := "VerifyRoleCert"
	ex := c.run(f)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	const (
		cn  = "p2[it].Subject.CommonName"
		uri = "(*net/url.URL).String(p2[it].URIs[it])"
	)
	rest := "skip(" + uri + ", p0.roleCertURIPrefix)"
	type src struct{ what, dom, role, has, pre string }
	srcs := []src{
		{"common name", `before(` + cn + `, ":role.")`, `after(` + cn + `, ":role.")`, `contains(` + cn + `, ":role.")`, ""},
		{"URI", `before(` + rest + `, "/")`, `after(` + rest + `, "/")`, `contains(` + rest + `, "/")`, "hasprefix(" + uri + ", p0.roleCertURIPrefix)"},
	}
	adds := map[string]int{}
	nCheck := 0
	var collected *Term
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			// what the iteration itself adds (loops inside of it are their own iterations)
			var sets []*Event
			certIter, uriIter := false, false
			for _, e := range it.Events {
				if e.Kind == "mapset" && isRolesMap(e.Args[0]) {
					sets = append(sets, e)
				}
			}
			for _, fa := range it.Facts {
				switch fa.String() {
				case "(it < len(p2))":
					certIter = true
				case "(it < len(p2[it].URIs))":
					uriIter = true
				}
			}
			if certIter && !uriIter {
				all := false
				for _, fa := range it.All {
					t := fa.String()
					all = all || t == "!(it < len(p2[it].URIs))" || t == "empty(p2[it].URIs)"
				}
				c.ob("every-uri", name, all, it.Pos, factTexts(it.Facts), "the URIs of a certificate are not all looked at")
			}
			used := map[*Event]bool{}
			for i, s := range srcs {
				if i == 0 && (!certIter || uriIter) || i == 1 && !uriIter {
					continue
				}
				pre := 1
				if s.pre != "" {
					pre = iterDecided(it, s.pre)
				}
				has := iterDecided(it, s.has)
				dup := false
				for _, fa := range it.Facts {
					t := fa.String()
					if fa.V && (strings.HasPrefix(t, "has(") || fa.A.Op == "lookup") && strings.Contains(t, s.dom) && strings.Contains(t, s.role) {
						dup = true
					}
					// found in the list of the domain
					if fa.V && fa.A.Op == "eq" && len(fa.A.Args) == 2 {
						for k := range fa.A.Args {
							dup = dup || fa.A.Args[k].String() == s.role && strings.HasPrefix(fa.A.Args[1-k].String(), "makemap(){"+s.dom+"}[")
						}
					}
				}
				n := 0
				for _, e := range sets {
					if e.Args[1].String() == s.dom && lastOf(e.Args[2]).String() == s.role {
						if e.Args[2].Op == "append" && e.Args[2].Args[0].String() != "makemap(){"+s.dom+"}" {
							continue
						}
						n++
						used[e] = true
						collected = e.Args[0]
					}
				}
				switch {
				case pre == 0 || pre == 1 && has == 0:
					c.ob("not-a-role", s.what, n == 0, it.Pos, factTexts(it.Facts), "a %s which is not a role adds a role", s.what)
				case pre == 1 && has == 1 && dup:
					c.ob("duplicate", s.what, n == 0, it.Pos, factTexts(it.Facts), "a duplicate role is added")
				case pre == 1 && has == 1:
					adds[s.what]++
					c.ob("role-added", s.what, n == 1, it.Pos, factTexts(it.Facts), "the role of a %s is not added exactly as domain %s and role %s", s.what, s.dom, s.role)
				default:
					c.ob("source-read", s.what, false, it.Pos, factTexts(it.Facts), "a certificate's %s is skipped without looking for a role in it", s.what)
				}
			}
			for _, e := range sets {
				c.ob("only-roles", name, used[e], e.Pos, factTexts(it.Facts), "the role %s of domain %s is not named by the certificate", e.Args[2], e.Args[1])
			}
		}
	}
	c.ob("sources", "common name", adds["common name"] > 0, f.Pos(), nil, "no role is taken from the common names")
	c.ob("sources", "URI", adds["URI"] > 0, f.Pos(), nil, "no role is taken from the URIs")
	for _, x := range ex {
		for _, e := range x.St.events {
			if e.Kind == "mapset" && isRolesMap(e.Args[0]) {
				c.ob("only-roles", name, false, e.Pos, x.path(), "a role is added outside of the loops over the certificates")
			}
			if e.Kind == "mapdel" {
				c.ob("only-roles", name, false, e.Pos, x.path(), "collected roles are dropped")
			}
		}
	}
	if collected == nil {
		return
	}
	call := "(policy.Daemon).CheckPolicy(p0.policyd, p1, mapkey(makemap()), makemap(){mapkey(makemap())}, p3, p4)"
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			in := false
			for _, fa := range it.Facts {
				if fa.String() == "mapnext(makemap())" {
					in = true
				}
			}
			if in {
				nCheck++
				c.ob("domain-denied", name, iterHolds(it, "!(nil == "+call+")"), it.Pos, factTexts(it.Facts), "a domain is passed over without its policies having denied the request")
			}
		}
	}
	c.ob("domains", name, nCheck > 0, f.Pos(), nil, "the policies of the domains are not asked")
	ok, bad := splitNil(ex, 0)
	grant, deny := 0, 0
	for _, x := range ok {
		st := x.St
		if st.holds("p0.disablePolicyd") {
			continue
		}
		if st.all("!mapnext(makemap())", "!empty(makemap())") && errRoot(x.Res[0]).Op == "wide" {
			continue // the error of the last domain, never nil: every iteration has one (domain-denied)
		}
		grant++
		c.ob("allowed", name, st.holds("!p0.disablePolicyd") && st.holds("(nil == "+call+")"), x.Pos, x.path(), "a role certificate is accepted although no policy allowed it (expected a nil error of %s)", call)
	}
	for _, x := range bad {
		st := x.St
		c.ob("disabled", name, st.holds("!p0.disablePolicyd"), x.Pos, x.path(), "a role certificate is denied although policies are disabled")
		switch {
		case st.any("empty(makemap())", "empty(p2)"):
			deny++
			c.ob("no-roles", name, true, x.Pos, nil, "")
		case st.holds("!mapnext(makemap())"):
			deny++
			c.ob("exhausted", name, true, x.Pos, nil, "")
		default:
			c.ob("exhausted", name, false, x.Pos, x.path(), "denied before the policies of every domain were asked")
		}
	}
	c.ob("grants", name, grant > 0 && deny > 1, f.Pos(), nil, "no path accepts, or none denies")
	// the request verifier
	n := 0
	for _, x := range c.verifiers() {
		if x.Panic || x.St.decideNil(x.Res[0]) != 1 {
			continue
		}
		as, _ := authorizersOf(x)
		for _, a := range as {
			e := c.P.NewEngine()
			ex := c.callIn(e, a, httpArgs, x.St)
			if c.classify(a, ex) != "role certificate" {
				continue
			}
			ok, _ := splitNil(ex, 1)
			n++
			c.ob("http-never-grants", "HTTP role certificate verifier", len(ok) == 0, a.Fn.Pos(), nil, "the role certificate verifier of requests grants access: no principal can be made of a role certificate")
			c.ob("http-no-panic", "HTTP role certificate verifier", len(panics(ex)) == 0, a.Fn.Pos(), nil, "the role certificate verifier panics")
		}
	}
	c.ob("http-verifier", "HTTP role certificate verifier", n > 0, f.Pos(), nil, "no verifier")
	ok, _ = splitNil(c.run(c.fn("", "(*authority).AuthorizeRoleCert")), 1)
	c.ob("authorize-never-grants", "AuthorizeRoleCert", len(ok) == 0, f.Pos(), nil, "AuthorizeRoleCert grants access")
}
