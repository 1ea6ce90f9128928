package main

import (
	"strings"
)

func init() {
	register(&Check{ID: "C29", Min: 150, Rule: "no log line and no error text made on a path of a token request, of request verification or of a token processor holds the presented token, its signature, the authorization header or the cache key, except cut before the signature", Run: specC29})
}

// leaks finds the part of a value which gives a token's signature away when the value is printed ("" when there is none).
func leaks(t *Term, secret map[string]string, seen map[*Term]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	s := t.String()
	if _, ok := secret[s]; ok {
		return s
	}
	switch t.Op {
	case "const", "nil", "len", "eq", "contains", "hasprefix", "hassuffix", "index", "lastindex", "closure", "fn", "bin", "not", "empty", "eqfold", "glob", "gval":
		return ""
	case "before", "beforelast":
		sep, _ := t.Args[1].constStr()
		if k, ok := secret[t.Args[0].String()]; ok {
			switch {
			case k == "role" && sep == ";s=" && t.Op == "before", k == "access" && sep == ".":
				return ""
			}
			return s
		}
	case "skip", "trimprefix":
		// everything behind the token's own part of the key
		a, b := t.Args[0], t.Args[1]
		if a == b {
			return ""
		}
		if a.Op == "concat" && len(a.Args) > 1 && a.Args[0] == b {
			for _, x := range a.Args[1:] {
				if l := leaks(x, secret, seen); l != "" {
					return l
				}
			}
			return ""
		}
	case "ext":
		if t.Sym == "0" && strings.HasPrefix(t.Args[0].Sym, "(") && strings.HasSuffix(t.Args[0].Sym, "ParseAndValidateRoleToken") {
			return s // the whole token, printed with its signature
		}
		if isErr(t) && t.Args[0].Op == "call" {
			return "" // the text of an error is judged where it is made
		}
		if t.Args[0].Op == "call" {
			return "" // what the processor, translator or policies gave
		}
	case "sel":
		if t.Sym == "Signature" {
			return s
		}
		if b := t.Args[0]; b.Op == "param" || b.Op == "sel" || b.Op == "ext" {
			return ""
		}
	case "alloc":
		if strings.HasSuffix(s, "role.Token)") {
			return s
		}
	case "wide":
		if strings.HasSuffix(t.Sym, ".Signature") || strings.HasSuffix(s, ".Signature)") {
			return s
		}
	case "call":
		if isErr(t) || strings.HasPrefix(t.Sym, "crypto/") {
			return ""
		}
	case "wrap", "wrapw", "newerr":
		return ""
	}
	for _, x := range t.Args {
		if l := leaks(x, secret, seen); l != "" {
			return l
		}
	}
	return ""
}

func specC29(c *Ctx) {
	nl, ne := 0, 0
	look := func(name string, ex []*Exit, secret map[string]string) {
		for _, x := range ex {
			allEvents(x.St.events, func(e *Event) {
				if e.Kind != "log" && e.Kind != "errtext" {
					return
				}
				rule := "log"
				if e.Kind == "errtext" {
					rule = "error-text"
				}
				vals := append([]*Term{}, e.Args...)
				if e.Kind == "errtext" && len(vals) > 0 && (strings.Contains(e.Sym, "Wrap") || strings.Contains(e.Sym, "With")) {
					vals = vals[1:]
				}
				for _, y := range e.Sub {
					vals = append(vals, y.Res...)
				}
				for _, v := range vals {
					if v == nil || v.Op == "closure" && len(e.Sub) > 0 {
						continue
					}
					if e.Kind == "log" {
						nl++
					} else {
						ne++
					}
					l := leaks(v, secret, map[*Term]bool{})
					c.ob(rule, name+" "+shortFn(e.Fn.String()), l == "", e.Pos, x.path(), "%s gets %s: the token's signature is not cut off", shortFn(e.Sym), l)
				}
			})
		}
	}
	for _, r := range c.authRuns() {
		kind := "access"
		if r.role {
			kind = "role"
		}
		secret := map[string]string{r.tok: kind}
		if strings.HasPrefix(r.name, "HTTP") {
			secret["req"], secret["req.Header"] = "request", "request"
		}
		look(r.name, r.exits, secret)
	}
	for _, n := range []string{"VerifyRoleToken", "VerifyAccessToken"} {
		kind := "access"
		if n == "VerifyRoleToken" {
			kind = "role"
		}
		look(n, c.run(c.fn("", "(*authority)."+n)), map[string]string{"p2": kind})
	}
	for _, n := range []string{"Verify", "Authorize"} {
		look(n, c.run(c.fn("", "(*authority)."+n)), map[string]string{"p1": "request", "p1.Header": "request"})
	}
	look("role processor", c.run(c.impl("role", "Processor", "ParseAndValidateRoleToken")), map[string]string{"p1": "role"})
	r := c.accessRun()
	look("access processor", r.ex, map[string]string{"p1": "access"})
	if c.ob("key-function", "key function", r.kf != nil && r.kf.Fn != nil, 0, nil, "the key function is not known") {
		look("key function", c.keyFunction(r), map[string]string{"token": "access", "token.Raw": "access"})
	}
	c.ob("seen", "log lines", nl > 40, 0, nil, "only %d log lines were met", nl)
	c.ob("seen", "error texts", ne > 40, 0, nil, "only %d error texts were met", ne)
}
