package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C08", Min: 30, Rule: "every path of ParseAndValidateRoleToken which returns a token passes: the signature delimiter is found, the expiry time is not past, the ZTS key of the token's key id exists and verifies the whole text before the delimiter against the signature; every failure has its cause", Run: specC08})
	register(&Check{ID: "C09", Min: 20, Rule: "every key=value pair before the signature sets exactly the token field of its key, to the whole value; unknown keys set nothing; a pair without '=' or with a malformed time is an error", Run: specC09})
}

// field reads a field of an object in a state ("A.B" for nested ones).
func (c *Ctx) field(st *State, obj *Term, name string) *Term {
	for _, n := range strings.Split(name, ".") {
		t := obj.Typ
		if d := dynTypes[obj]; t == nil && d != nil {
			t = d
		}
		if t == nil {
			return mk(Term{Op: "unknown", Sym: "field " + n + " of " + obj.String()})
		}
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return mk(Term{Op: "unknown", Sym: "field " + n + " of " + obj.String()})
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			c.lost("no field %s in %s", n, deref(t))
		}
		if obj.Op == "alloc" || obj.Op == "addr" || isPtr(t) {
			e := c.P.NewEngine()
			obj = e.load(st, addrField(obj, n, ft), ft)
		} else {
			obj = selTerm(obj, n, ft)
		}
	}
	return obj
}

// slotOf finds the summary of a loop-carried location by the text of its widened value.
func slotOf(x *Exit, t *Term) (*LoopCtx, string) {
	s := t.String()
	var rl *LoopCtx
	var rn string
	for _, l := range loopsOf([]*Exit{x}) {
		for n := range l.Slots {
			if "wide("+n+")" == s {
				rl, rn = l, n
			}
		}
	}
	return rl, rn
}

const zmsVerify = "(github.com/AthenZ/athenz/libs/go/zmssvctoken.Verifier).Verify("

func specC08(c *Ctx) {
	name := "ParseAndValidateRoleToken"
	f := c.impl("role", "Processor", name)
	ex := c.run(f)
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	ok, bad := splitNil(ex, 1)
	has := `contains(p1, ";s=")`
	unsigned, sig := `before(p1, ";s=")`, `after(p1, ";s=")`
	pair := "split(" + unsigned + `, ";")[it]`
	for _, x := range ok {
		st, t := x.St, x.Res[0]
		if !c.ob("token", name, t.Op == "alloc", x.Pos, x.path(), "no fresh token is returned with a nil error: %s", t) {
			continue
		}
		c.ob("signature-found", name, st.holds(has), x.Pos, x.path(), "a token without a signature is accepted")
		exp := c.field(st, t, "ExpiryTime").String()
		c.ob("not-expired", name, st.holds("!("+exp+" <t now())"), x.Pos, x.path(), "a token is accepted without its expiry time %s being compared with the current time", exp)
		key := c.field(st, t, "KeyID").String()
		var call *Term
		for _, e := range st.events {
			if e.Kind == "call" && strings.HasPrefix(e.Res.String(), zmsVerify) && st.holds("(nil == "+e.Res.String()+")") {
				call = e.Res
			}
		}
		if !c.ob("verified", name, call != nil && len(call.Args) == 3, x.Pos, x.path(), "a token is accepted without a successful signature verification") {
			continue
		}
		want := `dyn(p0.pkp, "zts", ` + key + `)`
		c.ob("verifier", name, call.Args[0].String() == want, x.Pos, x.path(), "the token is verified by %s, expected %s", call.Args[0], want)
		c.ob("verifier-exists", name, st.holds("!(nil == "+want+")"), x.Pos, x.path(), "the key of the token may be missing")
		c.ob("signed-text", name, call.Args[1].String() == unsigned, x.Pos, x.path(), "the verified text is %s, not the token up to its signature", call.Args[1])
		sv := call.Args[2]
		if sv.String() == sig {
			c.ob("signature", name, true, x.Pos, nil, "")
		} else {
			// kept in the token, where an "s" key may overwrite it
			l, n := slotOf(x, sv)
			good := l != nil
			if l != nil {
				for _, i := range l.Slots[n].Inits {
					good = good && i.String() == sig
				}
				for _, k := range l.Slots[n].Contribs {
					good = good && (k.String() == `after(`+pair+`, "=")` || k.String() == sig || strings.HasPrefix(k.String(), "wide("))
				}
			}
			c.ob("signature", name, good, x.Pos, x.path(), "the signature is %s, not the text after the delimiter", sv)
		}
		if tv := c.field(st, t, "UnsignedToken"); tv.String() != unsigned {
			c.ob("token-text", name, false, x.Pos, x.path(), "the unsigned text of the token is %s", tv)
		}
	}
	c.ob("accepts", name, len(ok) > 0, f.Pos(), nil, "no token is accepted")
	for _, x := range bad {
		st := x.St
		c.ob("no-token", name, x.Res[0] == tNil, x.Pos, x.path(), "a token is returned together with an error")
		et := x.errText(1)
		switch {
		case st.holds("!" + has), st.some(`^!contains\(split\(.*, "="\)$`):
			c.ob("failure", "malformed", et == "role.ErrRoleTokenInvalid", x.Pos, x.path(), "a malformed token gives %s", et)
		case st.some(`^!\(nil == strconv\.\w+\(.*\)#1\)$`):
			c.ob("failure", "number", true, x.Pos, nil, "")
		case st.some(`^\(.* <t now\(\)\)$`):
			c.ob("failure", "expired", et == "role.ErrRoleTokenExpired", x.Pos, x.path(), "an expired token gives %s", et)
		case st.some(`^\(nil == dyn\(p0\.pkp, "zts", .*\)\)$`), st.holds("(nil == p0.pkp)"):
			c.ob("failure", "key", et == "role.ErrRoleTokenInvalid", x.Pos, x.path(), "an unknown key gives %s", et)
		case st.some(`^!\(nil == \(github.com/AthenZ/athenz/libs/go/zmssvctoken\.Verifier\)\.Verify\(.*\)\)$`):
			c.ob("failure", "signature", strings.HasPrefix(et, zmsVerify), x.Pos, x.path(), "a wrong signature gives %s", et)
		default:
			c.ob("failure", "other", false, x.Pos, x.path(), "a token is rejected without a cause (%s)", et)
		}
	}
}

func specC09(c *Ctx) {
	name := "ParseAndValidateRoleToken"
	f := c.impl("role", "Processor", name)
	ex := c.run(f)
	_, bad := splitNil(ex, 1)
	ok, _ := splitNil(ex, 1)
	pair := `split(before(p1, ";s="), ";")[it]`
	key, val := "before("+pair+`, "=")`, "after("+pair+`, "=")`
	num := "strconv.ParseInt(" + val + ", 10, 64)"
	when := "time.Unix(" + num + "#0, 0)"
	want := map[string][2]string{ // key -> field, value
		"d": {"Domain", val}, "p": {"Principal", val}, "k": {"KeyID", val}, "r": {"Roles", "split(" + val + `, ",")`},
		"e": {"ExpiryTime", when}, "t": {"TimeStamp", when},
	}
	seen := map[string]int{}
	n := 0
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			if iterDecided(it, "(it < len(split(before(p1, \";s=\"), \";\")))") != 1 {
				continue
			}
			n++
			c.ob("pair", "pair", iterDecided(it, "contains("+pair+`, "=")`) == 1, it.Pos, factTexts(it.Facts), "a pair without '=' is accepted")
			letter := ""
			for k := range want {
				if iterDecided(it, "("+key+` == "`+k+`")`) == 1 {
					letter = k
				}
			}
			other := false
			for _, fa := range it.Facts {
				if t := fa.String(); fa.V && strings.HasPrefix(t, "("+key+` == "`) {
					other = true
				}
			}
			if letter == "" && !other {
				for k := range want {
					c.ob("other-key", k, iterDecided(it, "("+key+` == "`+k+`")`) == 0, it.Pos, factTexts(it.Facts), "the key %q may be ignored", k)
				}
			}
			seen[letter]++
			hit := false
			for s, v := range it.Phis {
				i := strings.LastIndex(s, ".")
				if !strings.HasPrefix(s, "&new(role.Token)") || i < 0 {
					continue
				}
				fld := s[i+1:]
				if fld == "Signature" {
					continue
				}
				if v.String() == "wide("+s+")" {
					continue
				}
				good := letter != "" && want[letter][0] == fld && want[letter][1] == v.String()
				hit = hit || good
				c.ob("field", "key "+letter, good, it.Pos, factTexts(it.Facts), "the key %q sets %s to %s", letter, fld, v)
			}
			if letter != "" {
				c.ob("field-set", "key "+letter, hit, it.Pos, factTexts(it.Facts), "the key %q does not set %s to %s", letter, want[letter][0], want[letter][1])
				if letter == "e" || letter == "t" {
					c.ob("number", "key "+letter, iterDecided(it, "(nil == "+num+"#1)") == 1, it.Pos, factTexts(it.Facts), "a malformed time is accepted")
				}
			}
		}
	}
	for k := range want {
		c.ob("keys", k, seen[k] > 0, f.Pos(), nil, "the key %q is not read", k)
	}
	c.ob("keys", "unknown", seen[""] > 0, f.Pos(), nil, "unknown keys are not skipped")
	// fields hold what the pairs set, or nothing
	for _, x := range ok {
		if x.Res[0].Op != "alloc" {
			continue
		}
		for k, w := range want {
			v := c.field(x.St, x.Res[0], w[0])
			good := strings.HasPrefix(v.String(), "wide(") && strings.HasSuffix(v.String(), "."+w[0]+")") || v.Typ != nil && v == zeroOf(v.Typ) || v.Op == "zero" || v.String() == `""` || v == tNil
			if l, n := slotOf(x, v); l != nil {
				for _, i := range l.Slots[n].Inits {
					good = good && (i.Op == "zero" || i.String() == `""` || i == tNil || strings.HasPrefix(i.String(), "zero("))
				}
			}
			c.ob("final", "key "+k, good, x.Pos, x.path(), "the field %s ends as %s", w[0], v)
		}
		c.ob("whole", name, x.St.any(`!(it < len(split(before(p1, ";s="), ";")))`), x.Pos, x.path(), "a token is accepted before every pair was read")
	}
	for _, x := range bad {
		if x.St.some(`^!\(nil == strconv`) {
			c.ob("bad-number", "time", x.St.any("("+key+` == "e")`, "("+key+` == "t")`, strings.ReplaceAll("("+key+` == "e")`, "[it]", "[0]"), strings.ReplaceAll("("+key+` == "t")`, "[it]", "[0]")), x.Pos, x.path(), "a number is required of another key")
		}
	}
	c.ob("pairs", name, n > 0, f.Pos(), nil, "no pair is read")
}
