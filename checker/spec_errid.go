package main

import (
	"go/token"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C36", Min: 150, Rule: "the exported errors of the library are those of the packages which return them; every error that a token request, a policy check, a fetch or a refresh returns has as its root the error of the step that failed on that path, or one of the exported errors, and never a new error made where a step failed", Run: specC36})
}

func specC36(c *Ctx) {
	c.errorAliases()
	for _, m := range []string{"AuthorizeRoleToken", "VerifyRoleToken", "AuthorizeAccessToken", "VerifyAccessToken", "VerifyRoleCert"} {
		f := c.fn("", "(*authority)."+m)
		c.causes(m, c.run(f))
	}
	f := c.fn("", "(*authority).Init")
	c.causes("Init", c.run(f))
	for _, m := range [][3]string{{"role", "Processor", "ParseAndValidateRoleToken"}, {"access", "Processor", "ParseAndValidateOAuth2AccessToken"}, {"policy", "Fetcher", "Fetch"}, {"policy", "Fetcher", "FetchWithRetry"}, {"policy", "Daemon", "Update"}, {"policy", "Daemon", "CheckPolicyRoles"}, {"pubkey", "Daemon", "Update"}} {
		ex := c.run(c.impl(m[0], m[1], m[2]))
		c.causes(m[0]+"."+m[2], ex)
		if m[2] == "Fetch" {
			for _, x := range ex {
				if x.Panic {
					continue
				}
				i := len(x.Res) - 1
				is := x.errText(i) == "policy.ErrFetchPolicy"
				st := evalStatus(x)
				c.ob("status", "policy.Fetch", !is || st != 1, x.Pos, x.path(), "ErrFetchPolicy for an answer with status 200")
				if st == 0 && x.St.decideNil(x.Res[i]) == 0 {
					c.ob("status", "policy.Fetch", is, x.Pos, x.path(), "an answer with another status than 200 does not give ErrFetchPolicy but %s", x.errText(i))
				}
			}
		}
	}
}

// evalStatus: whether the answer of the request has status 200 on this path.
func evalStatus(x *Exit) int {
	for _, f := range x.St.facts {
		s := f.A.String()
		if f.A.Op == "eq" && strings.Contains(s, ".StatusCode") && strings.Contains(s, " 200") || f.A.Op == "eq" && strings.Contains(s, "(200 == ") {
			if f.V {
				return 1
			}
			return 0
		}
	}
	for _, f := range x.St.facts {
		if s := f.A.String(); f.A.Op == "eq" && strings.Contains(s, ".StatusCode") && strings.Contains(s, "304") && f.V {
			return 0
		}
	}
	return -1
}

// causes: the root of every returned error is what failed on the path.
func (c *Ctx) causes(name string, ex []*Exit) {
	n := 0
	for _, x := range ex {
		if x.Panic || len(x.Res) == 0 {
			continue
		}
		r := x.Res[len(x.Res)-1]
		if x.St.decideNil(r) == 1 {
			continue
		}
		n++
		why := c.cause(x.St, errRoot(r), map[*LoopCtx]bool{})
		c.ob("cause", name, why == "", x.Pos, x.path(), "%s", why)
	}
	c.ob("fails", name, n > 0, token.NoPos, nil, "it never fails")
	// the functions run in an error group
	for _, x := range ex {
		allEvents(x.St.events, func(e *Event) {
			if e.Kind != "eggo" {
				return
			}
			for _, y := range e.Sub {
				if y.Panic || len(y.Res) != 1 || y.St.decideNil(y.Res[0]) == 1 {
					continue
				}
				why := c.cause(y.St, errRoot(y.Res[0]), map[*LoopCtx]bool{})
				c.ob("cause", name+" (concurrent part)", why == "", y.Pos, y.path(), "%s", why)
			}
		})
	}
}

func (c *Ctx) cause(st *State, r *Term, busy map[*LoopCtx]bool) string {
	switch r.Op {
	case "gval":
		if i := strings.LastIndex(r.Sym, "."); i >= 0 && strings.HasPrefix(strings.ToLower(r.Sym[i+1:]), "err") {
			return hidden(st, r)
		}
	case "wide":
		if r.Lp == nil || busy[r.Lp] {
			return ""
		}
		busy[r.Lp] = true
		for _, it := range r.Lp.Iters {
			v := it.Phis[r.Sym]
			if v == nil || v == r {
				continue
			}
			if v = errRoot(v); v != tNil && v.Op != "wide" && v.Op != "gval" && v.Op != "ext" && v.Op != "call" {
				return "the error " + v.String() + " does not tell what failed"
			}
		}
		return ""
	case "newerr":
		for _, a := range r.Args {
			if strings.Contains(a.String(), "(error).Error(") {
				return "the error " + r.String() + " has the text of an error and not its identity"
			}
		}
		return hidden(st, r)
	case "ext", "call", "sel", "recv", "param", "asyncval":
		return ""
	}
	return "the error " + r.String() + " does not tell what failed"
}

// hidden: a step failed on the path and its error is not the one that is returned.
func hidden(st *State, r *Term) string {
	for _, f := range st.facts {
		if f.A.Op == "eq" && f.A.Args[0] == tNil && !f.V && isErr(f.A.Args[1]) && !ignoredErr(f.A.Args[1]) {
			if e := f.A.Args[1]; e.Op == "ext" && e.Sym == "1" && st.decideNil(extOf(e.Args[0], 0)) == 0 {
				continue // there was a result all the same
			}
			return "the error " + r.String() + " hides the error " + f.A.Args[1].String()
		}
	}
	return ""
}

// ignoredErr: errors of cleaning up behind the result.
func ignoredErr(t *Term) bool {
	s := t.String()
	return strings.HasPrefix(s, "io.Copy(") || strings.Contains(s, ").Close(")
}

// errorAliases: an exported error of the root package which a part of the library has too is the same error.
func (c *Ctx) errorAliases() {
	e := c.P.NewEngine()
	own := map[string]string{} // name -> the package that makes it
	var names []string
	root := map[string]*Term{}
	for k, v := range e.init {
		if k.Op != "glob" {
			continue
		}
		i := strings.LastIndex(k.Sym, ".")
		n := k.Sym[i+1:]
		if !strings.HasPrefix(n, "Err") {
			continue
		}
		if k.Sym[:i] == modPath {
			root[n] = v
			names = append(names, n)
		} else if !strings.Contains(k.Sym, "/internal/") && strings.HasPrefix(k.Sym, modPath+"/") {
			c.ob("own", shortFn(k.Sym), v.Op == "newerr" && c.P.stores(k.Sym) == 1, token.NoPos, nil, "%s is not an error of its own: %s", shortFn(k.Sym), v)
			if v.Op == "newerr" {
				own[n] = shortFn(k.Sym)
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		want := own[n]
		if want == "" {
			c.ob("alias", n, root[n].Op == "newerr", token.NoPos, nil, "%s is %s", n, root[n])
			continue
		}
		c.ob("alias", n, root[n].Op == "gval" && root[n].String() == want, token.NoPos, nil, "%s is %s and not the %s that the library returns", n, root[n], want)
		c.ob("alias", n, c.P.immutableGlobal(modPath+"."+n), token.NoPos, nil, "%s is changed at run time", n)
	}
	for _, n := range []string{"ErrRoleTokenInvalid", "ErrRoleTokenExpired", "ErrNoMatch", "ErrDenyByPolicy", "ErrFetchPolicy", "ErrInvalidParameters", "ErrInvalidCredentials"} {
		c.ob("exported", n, root[n] != nil, token.NoPos, nil, "%s is not exported", n)
	}
}
