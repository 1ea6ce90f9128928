package main

import (
	"go/token"
	"strings"
)

func init() {
	register(&Check{ID: "C32", Min: 600, Rule: "Translate passes over a rule of the domain only when its method, number of path segments, a literal segment, the set of query names or a literal query value does not match, and returns the action of the first rule that matches in all of them and its resource with all placeholders of that match replaced in one pass; without rules or a match it returns method and path; it fails only for a query that does not parse", Run: specC32})
	register(&Check{ID: "C33", Min: 600, Rule: "NewMappingRules accepts exactly rules with a domain, rules, method, action, resource, an absolute path, single query values and unique non-empty placeholders, and keeps every segment and query value of each rule with whether it is a placeholder", Run: specC33})
}

// dec: the decided value of a fact with one of the texts, about the given term when it is not nil.
func dec(fs []Fact, about *Term, texts ...string) int {
	v := -1
	for _, f := range fs {
		s := qnorm(f.A.String())
		for _, t := range texts {
			neg := strings.HasPrefix(t, "!")
			if s == strings.TrimPrefix(t, "!") && (about == nil || mentions(f.A, about)) {
				v = 0
				if f.V != neg {
					v = 1
				}
			}
		}
	}
	return v
}

func eqBoth(a, b string) []string {
	return []string{"(" + a + " == " + b + ")", "(" + b + " == " + a + ")"}
}

const (
	trRules = "p0.Rules{p1}"
	trRule  = trRules + "[it]"
	trSegs  = `split(p3, "/")`
	trSeg   = trSegs + "[it]"
	trPar   = trRule + ".splitPaths[it]"
	trQ     = "net/url.ParseQuery(p4)#0"
	trQKey  = "mapkey(" + trQ + ")"
	trQMap  = trRule + ".queryValueMap"
	trQPar  = trQMap + "{" + trQKey + "}"
)

// values of the query parameter under test
var trQVals = []string{trQ + "{" + trQKey + "}", "mapval(" + trQ + ")"}

// qnorm spells a walk over the rule's query parameters like one over the query's.
func qnorm(s string) string {
	if strings.Contains(s, "queryValueMap)") {
		s = strings.ReplaceAll(s, "mapkey("+trQMap+")", trQKey)
		s = strings.ReplaceAll(s, "mapval("+trQMap+")", trQPar)
	}
	return s
}

func ruleMatches(fs []Fact, about *Term) map[string]int {
	m := map[string]int{
		"method":   dec(fs, about, "eqfold("+trRule+".Method, p2)", "eqfold(p2, "+trRule+".Method)"),
		"segments": dec(fs, about, eqBoth("len("+trRule+".splitPaths)", "len("+trSegs+")")...),
		"names":    dec(fs, about, eqBoth("len("+trQ+")", "len("+trQMap+")")...),
	}
	return m
}

// oneElement: whether the facts say that the list has exactly one element.
func oneElement(fs []Fact, v string, norm func(string) string) int {
	some, few, n := -1, -1, "len("+v+")"
	for _, f := range fs {
		s := qnorm(f.A.String())
		if norm != nil {
			s = norm(s)
		}
		b := 0
		if f.V {
			b = 1
		}
		switch s {
		case "(" + n + " == 1)", "(1 == " + n + ")":
			return b
		case "empty(" + v + ")", "(" + n + " < 1)":
			some = 1 - b
		case "(0 < " + n + ")", "(1 <= " + n + ")":
			some = b
		case "(1 < " + n + ")", "(2 <= " + n + ")":
			few = 1 - b
		case "(" + n + " < 2)", "(" + n + " <= 1)":
			few = b
		}
	}
	switch {
	case some == 0 || few == 0:
		return 0
	case some == 1 && few == 1:
		return 1
	}
	return -1
}

func segState(fs []Fact) (ph, eq int) {
	return dec(fs, nil, trPar+".isPlaceholder"), dec(fs, nil, eqBoth(trPar+".name", trSeg)...)
}

func queryState(fs []Fact) (single, has, ph, eq int) {
	single, eq = -1, -1
	for _, v := range trQVals {
		if d := oneElement(fs, v, nil); d >= 0 {
			single = d
		}
		if d := dec(fs, nil, eqBoth(v+"[0]", trQPar+".name")...); d >= 0 {
			eq = d
		}
	}
	has = dec(fs, nil, "has("+trQMap+", "+trQKey+")")
	if dec(fs, nil, "mapnext("+trQMap+")") == 1 {
		// a parameter of the rule: then the query has to have it
		if has = dec(fs, nil, "has("+trQ+", "+trQKey+")"); single == 1 {
			has = 1
		}
	}
	return single, has, dec(fs, nil, trQPar+".isPlaceholder"), eq
}

func mapsets(events []*Event) (out []*Event) {
	for _, e := range events {
		if e.Kind == "mapset" {
			out = append(out, e)
		}
	}
	return
}

func specC32(c *Ctx) {
	f := c.impl("", "Translator", "Translate")
	ex := c.run(f)
	name := "Translate"
	var fills []*Term // the placeholder maps
	nSeg, nQ, nRule := 0, 0, 0
	fill := func(e *Event, key, val string, pos token.Pos, fs []Fact, what string) {
		c.ob("placeholder", name+" "+what, qnorm(e.Args[1].String()) == key && (e.Args[2].String() == val), pos, factTexts(fs), "the placeholder %s gets %s", e.Args[1], e.Args[2])
		c.ob("fresh", name+" "+what, e.Args[0].tags, pos, nil, "the placeholders of another rule may be used: the map is not made for each rule")
		fills = append(fills, e.Args[0])
	}
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			switch {
			case iterDecided(it, "(it < len("+trRules+"))") == 1:
				nRule++
				m := ruleMatches(it.Facts, nil)
				ph, eq := segState(it.Facts)
				single, has, qph, qeq := queryState(it.Facts)
				why := m["method"] == 0 || m["segments"] == 0 || m["names"] == 0 || ph == 0 && eq == 0 || single == 0 || has == 0 || qph == 0 && qeq == 0
				c.ob("passed-over", name, why, it.Pos, factTexts(it.Facts), "a rule is passed over which may match")
			case iterDecided(it, "(it < len("+trSegs+"))") == 1 || iterDecided(it, "(it < len("+trRule+".splitPaths))") == 1:
				nSeg++
				ph, eq := segState(it.Facts)
				ms := mapsets(it.Events)
				c.ob("segment", name, ph == 1 || ph == 0 && eq == 1, it.Pos, factTexts(it.Facts), "a path segment is passed which is neither a placeholder nor equal to the rule's")
				if ph == 1 {
					if c.ob("placeholder", name+" path", len(ms) == 1, it.Pos, factTexts(it.Facts), "the value of a path placeholder is set %d times", len(ms)) {
						fill(ms[0], trPar+".name", trSeg, it.Pos, it.Facts, "path")
					}
				} else {
					c.ob("placeholder", name+" path", len(ms) == 0, it.Pos, factTexts(it.Facts), "a literal path segment sets a placeholder")
				}
			case iterDecided(it, "mapnext("+trQ+")") == 1 || iterDecided(it, "mapnext("+trQMap+")") == 1:
				nQ++
				single, has, ph, eq := queryState(it.Facts)
				ms := mapsets(it.Events)
				c.ob("query", name, single == 1 && has == 1 && (ph == 1 || ph == 0 && eq == 1), it.Pos, factTexts(it.Facts), "a query parameter is passed which the rule does not have, which has several values or another value")
				if ph == 1 {
					if c.ob("placeholder", name+" query", len(ms) == 1, it.Pos, factTexts(it.Facts), "the value of a query placeholder is set %d times", len(ms)) {
						v := qnorm(ms[0].Args[2].String())
						for _, w := range trQVals {
							if v == w+"[0]" {
								v = ""
							}
						}
						c.ob("placeholder", name+" query", v == "", it.Pos, nil, "the placeholder gets %s", v)
						fill(ms[0], trQPar+".name", ms[0].Args[2].String(), it.Pos, it.Facts, "query")
					}
				} else {
					c.ob("placeholder", name+" query", len(ms) == 0, it.Pos, factTexts(it.Facts), "a literal query value sets a placeholder")
				}
			}
		}
	}
	c.ob("loops", name, nSeg > 0 && nQ > 0 && nRule > 0, f.Pos(), nil, "path segments, query parameters or rules are not looked at (%d, %d, %d)", nSeg, nQ, nRule)
	nOK, nNone := 0, 0
	for _, x := range ex {
		if !c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics") {
			continue
		}
		switch x.St.decideNil(x.Res[2]) {
		case 0:
			c.ob("error", name, x.errText(2) == "net/url.ParseQuery(p4)#1", x.Pos, x.path(), "the translation fails with %s", x.errText(2))
			m := ruleMatches(x.St.facts, nil)
			c.ob("error", name, m["method"] == 1 && m["segments"] == 1, x.Pos, x.path(), "the translation fails although no rule matches method and path length")
			continue
		case -1:
			c.ob("error", name, false, x.Pos, x.path(), "the translation may fail with %s", x.Res[2])
			continue
		}
		a, r := x.Res[0], x.Res[1]
		if a.String() == "p2" {
			nNone++
			c.ob("unchanged", name, r.String() == "p3", x.Pos, x.path(), "without a match the resource is %s", r)
			c.ob("unchanged", name, x.St.any("(nil == p0.Rules)", "empty("+trRules+")", "!(it < len("+trRules+"))", "empty(p0.Rules)", "!has(p0.Rules, p1)"), x.Pos, x.path(), "the request is left untranslated before all rules were tried")
			continue
		}
		nOK++
		if !c.ob("action", name, a.String() == trRule+".Action" && a.Op == "sel", x.Pos, x.path(), "the action is %s", a) {
			continue
		}
		about := a.Args[0]
		m := ruleMatches(x.St.facts, about)
		c.ob("matched", name, m["method"] == 1 && m["segments"] == 1 && m["names"] == 1, x.Pos, x.path(), "a rule is used whose method, number of segments or number of query parameters may not match")
		c.ob("all-segments", name, x.St.any("!(it < len("+trSegs+"))", "!(it < len("+trRule+".splitPaths))"), x.Pos, x.path(), "a rule is used before all path segments were looked at")
		c.ob("all-queries", name, x.St.any("!mapnext("+trQ+")", "empty("+trQ+")", "!mapnext("+trQMap+")", "empty("+trQMap+")"), x.Pos, x.path(), "a rule is used before all query parameters were looked at")
		c.ob("query-parsed", name, x.St.holds("(nil == net/url.ParseQuery(p4)#1)"), x.Pos, x.path(), "a rule is used although the query does not parse")
		c.replaced(x, name, r, about, fills)
	}
	c.ob("results", name, nOK > 0 && nNone > 0, f.Pos(), nil, "rules are never, or always, applied")
}

// replaced: the resource is the rule's with every placeholder of the map replaced in one pass, in a fixed order.
func (c *Ctx) replaced(x *Exit, name string, r, about *Term, fills []*Term) {
	isRes := func(t *Term) bool { return t.String() == trRule+".Resource" && t.Op == "sel" && t.Args[0] == about }
	if isRes(r) {
		// no placeholder was set
		none := false
		for _, m := range fills {
			none = none || dec(x.St.facts, m, "empty("+m.String()+")", "!mapnext("+m.String()+")") == 1
		}
		c.ob("replaced", name, none, x.Pos, x.path(), "the placeholders are not replaced")
		return
	}
	if !c.ob("replaced", name, r.Op == "call" && r.Sym == "strings.Replacer" && len(r.Args) == 2 && isRes(r.Args[0]), x.Pos, x.path(), "the resource is %s and not the rule's with its placeholders replaced in one pass", r) {
		return
	}
	p := r.Args[1]
	isMap := func(s string) bool {
		for _, m := range fills {
			if m.String() == s {
				return true
			}
		}
		return false
	}
	if p.Op != "wide" || p.Lp == nil {
		none := false
		for _, m := range fills {
			s := m.String()
			none = none || dec(x.St.facts, nil, "empty("+s+")") == 1 || x.St.holds("!mapnext("+s+")")
		}
		c.ob("replaced", name, none, x.Pos, x.path(), "not all placeholders are replaced: %s", p)
		return
	}
	for _, it := range p.Lp.Iters {
		v := it.Phis[p.Sym]
		good := false
		if v != nil && len(v.Args) >= 2 {
			k, val := v.Args[len(v.Args)-2], v.Args[len(v.Args)-1]
			ks, vs := k.String(), val.String()
			i := strings.LastIndex(vs, "{"+ks+"}")
			switch {
			case strings.HasPrefix(ks, "mapkey(") && isMap(ks[7:len(ks)-1]):
				c.ob("order", name, false, it.Pos, nil, "the placeholders are replaced in the order of a map")
				good = true
			case i > 0 && isMap(vs[:i]) && k.Op != "const":
				good = c.sortedKeys(x, name, k, vs[:i])
			}
		}
		c.ob("replaced", name, good, it.Pos, factTexts(it.Facts), "a round of the replacement adds %v", v)
	}
}

// sortedKeys: k is an element of the sorted list of all keys of the map.
func (c *Ctx) sortedKeys(x *Exit, name string, k *Term, m string) bool {
	if len(k.Args) == 0 {
		return false
	}
	l := k.Args[0]
	sorted := l.Op == "list" && len(l.Args) == 1
	for _, e := range x.St.events {
		if e.Kind == "call" && (strings.HasPrefix(e.Sym, "sort.") || strings.HasPrefix(e.Sym, "slices.Sort")) && len(e.Args) > 0 && e.Args[0].String() == l.String() {
			sorted = true
		}
		if e.Kind == "callback" && strings.HasPrefix(e.Sym, "sort.Slice") && e.Args[0].String() == l.String() {
			// by the strings themselves
			ls := l.String()
			byText := len(e.Sub) > 0
			for _, s := range e.Sub {
				byText = byText && len(s.Res) == 1 && s.Res[0].Op == "lt" && strings.HasPrefix(s.Res[0].String(), "("+ls+"[") && strings.Contains(s.Res[0].String(), " < "+ls+"[") && s.Res[0].Args[0] != s.Res[0].Args[1]
			}
			sorted = sorted || byText
		}
	}
	c.ob("order", name, sorted, x.Pos, x.path(), "the placeholders %s are replaced in no fixed order", l)
	return elementsAre(l, "mapkey("+m+")")
}

// elementsAre: every element of the list has the text.
func elementsAre(l *Term, text string) bool {
	switch {
	case l.Op == "list" && len(l.Args) > 0:
		for _, a := range l.Args {
			if a.String() != text {
				return false
			}
		}
		return true
	case l.Op == "append" && len(l.Args) > 1:
		for _, a := range l.Args[1:] {
			if a.String() != text {
				return false
			}
		}
		return l.Args[0].Op == "wide" || elementsAre(l.Args[0], text)
	case l.Op == "wide" && l.Lp != nil:
		for _, it := range l.Lp.Iters {
			if v := it.Phis[l.Sym]; v == nil || len(v.Args) == 0 || v.Args[len(v.Args)-1].String() != text {
				return false
			}
		}
		return len(l.Lp.Iters) > 0
	}
	return false
}

const (
	vRule = "RULES[it]"
	vSegs = `split(before(` + vRule + `.Path, "?"), "/")`
	vSeg  = vSegs + "[it]"
	vQ    = `net/url.ParseQuery(after(` + vRule + `.Path, "?"))`
	vQV   = "QVAL[0]"
	vIsP  = "(*authorizerd.Rule).isPlaceholder(&" + vRule + ", "
)

// vnorm gives the two spellings of a value of a map range one name.
func vnorm(s string) string {
	s = strings.ReplaceAll(s, "mapval(p0)", "RULES")
	s = strings.ReplaceAll(s, "p0{mapkey(p0)}", "RULES")
	s = strings.ReplaceAll(s, vQ+"#0{mapkey("+vQ+"#0)}", "QVAL")
	s = strings.ReplaceAll(s, "mapval("+vQ+"#0)", "QVAL")
	return s
}

func ndec(fs []Fact, texts ...string) int {
	v := -1
	for _, f := range fs {
		s := vnorm(f.A.String())
		for _, t := range texts {
			neg := strings.HasPrefix(t, "!")
			if s == strings.TrimPrefix(t, "!") {
				v = 0
				if f.V != neg {
					v = 1
				}
			}
		}
	}
	return v
}

func specC33(c *Ctx) {
	f := c.fn("", "NewMappingRules")
	isp := c.fn("", "(*Rule).isPlaceholder")
	ex := c.run(f, isp)
	name := "NewMappingRules"
	segP, qP := vIsP+vSeg+")", vIsP+vQV+")"
	complete := func(fs []Fact) (string, bool) {
		switch {
		case ndec(fs, "empty("+vRule+".Method)") != 0:
			return "method", false
		case ndec(fs, "empty("+vRule+".Action)") != 0:
			return "action", false
		case ndec(fs, "empty("+vRule+".Resource)") != 0:
			return "resource", false
		case ndec(fs, "empty("+vRule+".Path)") != 1 && ndec(fs, "hasprefix("+vRule+`.Path, "/")`) != 1:
			return "path", false
		}
		return "", true
	}
	kept := func(v *Term, src, flag string) bool {
		return vnorm(v.String()) == "authorizerd.param{"+src+", "+flag+"}"
	}
	n := map[string]int{}
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			fs := it.Facts
			switch {
			case ndec(fs, "(it < len("+vSegs+"))") == 1:
				n["seg"]++
				c.paramKept(it, name+" path", segP, func(flag string) (bool, int) {
					stores := 0
					good := true
					for _, e := range it.Events {
						if e.Kind == "store" && strings.HasSuffix(e.Args[0].String(), "[it]") {
							stores++
							good = good && kept(e.Args[1], vSeg, flag)
						}
					}
					if stores == 0 {
						// appended to the list which the rule holds while it is asked
						for sym, v := range it.Phis {
							if !oneMore(v) || !kept(v.Args[len(v.Args)-1], vSeg, flag) {
								continue
							}
							held := false
							for _, e := range it.Events {
								if e.Kind == "store" && strings.HasSuffix(vnorm(e.Args[0].String()), vRule+".splitPaths") {
									h := e.Args[1]
									held = h == v.Args[0] || h.Op == "wide" && h.Sym == sym || v.Op == "list" && lenTerm(h) == kInt(0)
								} else if e.Kind == "call" && e.Res != nil && vnorm(e.Res.String()) == segP {
									good = good && held
									stores++
								}
							}
						}
					}
					return good, stores
				})
			case ndec(fs, "mapnext("+vQ+"#0)") == 1:
				n["query"]++
				c.ob("single", name, oneElement(fs, "QVAL", vnorm) == 1, it.Pos, factTexts(fs), "a query parameter with several values is accepted")
				c.paramKept(it, name+" query", qP, func(flag string) (bool, int) {
					good := true
					ms := mapsets(it.Events)
					for _, e := range ms {
						good = good && kept(e.Args[2], vQV, flag) && vnorm(e.Args[1].String()) == "mapkey("+vQ+"#0)"
					}
					return good, len(ms)
				})
			case ndec(fs, "(it < len(RULES))") == 1:
				n["rule"]++
				what, ok := complete(fs)
				c.ob("rule", name+" "+what, ok, it.Pos, factTexts(fs), "a rule without a valid %s is accepted", what)
				c.ob("all-segments", name, ndec(fs, "!(it < len("+vSegs+"))") == 1, it.Pos, factTexts(fs), "a rule is accepted before all segments of its path were looked at")
				q := ndec(fs, "contains("+vRule+`.Path, "?")`) == 0 || ndec(fs, "(nil == "+vQ+"#1)") == 1 && ndec(fs, "!mapnext("+vQ+"#0)", "empty("+vQ+"#0)") == 1
				c.ob("all-queries", name, q, it.Pos, factTexts(fs), "a rule is accepted before its whole query was looked at")
				segs, qs := 0, 0
				for _, e := range it.Events {
					if e.Kind != "store" {
						continue
					}
					switch t := vnorm(e.Args[0].String()); {
					case strings.HasSuffix(t, vRule+".splitPaths"):
						segs = 1
						v := e.Args[1]
						list := v.Op == "wide" && v.Lp != nil && len(v.Lp.Iters) > 0
						if list {
							for _, in := range v.Lp.Iters {
								a := in.Phis[v.Sym]
								list = list && a != nil && (oneMore(a) || a.Op == "list") && ndec(in.Facts, "(it < len("+vSegs+"))") == 1
							}
						}
						c.ob("stored", name, list || vnorm(v.String()) == "makeslice(len("+vSegs+"))", it.Pos, nil, "the segments are kept in %s", e.Args[1])
					case strings.HasSuffix(t, vRule+".queryValueMap"):
						qs++
						c.ob("stored", name, e.Args[1].Op == "makemap" && e.Args[1].tags, it.Pos, nil, "the query values are kept in %s", e.Args[1])
					default:
						c.ob("stored", name, false, it.Pos, nil, "%s is changed", t)
					}
				}
				c.ob("stored", name, segs == 1 && qs == 1, it.Pos, factTexts(fs), "the segments or query values of a rule are not kept")
			case ndec(fs, "mapnext(p0)") == 1:
				n["domain"]++
				c.ob("domain", name, ndec(fs, "empty(mapkey(p0))") == 0, it.Pos, factTexts(fs), "an empty domain is accepted")
				c.ob("domain", name, ndec(fs, "(nil == RULES)") == 0, it.Pos, factTexts(fs), "a domain without rules is accepted")
				c.ob("all-rules", name, ndec(it.All, "!(it < len(RULES))", "empty(RULES)") == 1, it.Pos, factTexts(fs), "a domain is accepted before all its rules were looked at")
			}
		}
	}
	c.ob("loops", name, n["seg"] > 0 && n["query"] > 0 && n["rule"] > 0 && n["domain"] > 0, f.Pos(), nil, "segments, query values, rules or domains are not looked at: %v", n)
	nOK := 0
	causes := map[string]bool{}
	for _, x := range ex {
		if !c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics") {
			continue
		}
		fs := x.St.facts
		switch x.St.decideNil(x.Res[1]) {
		case 1:
			nOK++
			c.ob("accepted", name, ndec(fs, "(nil == p0)") == 0, x.Pos, x.path(), "nil rules are accepted")
			c.ob("accepted", name, ndec(fs, "!mapnext(p0)", "empty(p0)") == 1, x.Pos, x.path(), "rules are accepted before all domains were looked at")
			c.ob("rules", name, c.field(x.St, x.Res[0], "Rules").String() == "p0", x.Pos, x.path(), "the result does not hold the rules")
		case 0:
			c.ob("no-result", name, x.Res[0] == tNil, x.Pos, x.path(), "rules are returned with an error")
			why := ""
			switch {
			case ndec(fs, "(nil == p0)") == 1:
				why = "nil"
			case ndec(fs, "empty(mapkey(p0))") == 1:
				why = "domain"
			case ndec(fs, "(nil == RULES)") == 1:
				why = "no rules"
			case ndec(fs, "empty("+vRule+".Method)") == 1, ndec(fs, "empty("+vRule+".Action)") == 1, ndec(fs, "empty("+vRule+".Resource)") == 1:
				why = "incomplete"
			case ndec(fs, "empty("+vRule+".Path)") == 0 && ndec(fs, "hasprefix("+vRule+`.Path, "/")`) == 0:
				why = "path"
			case ndec(fs, "(nil == "+vQ+"#1)") == 0:
				why = "query"
			case oneElement(fs, "QVAL", vnorm) == 0:
				why = "values"
			case ndec(fs, "(nil == "+segP+"#1)") == 0:
				why = "path placeholder"
			case ndec(fs, "(nil == "+qP+"#1)") == 0:
				why = "query placeholder"
			}
			causes[why] = true
			c.ob("refused", name, why != "", x.Pos, x.path(), "valid rules are refused with %s", x.errText(1))
		default:
			c.ob("decided", name, false, x.Pos, x.path(), "it is not decided whether %s is an error", x.Res[1])
		}
	}
	c.ob("results", name, nOK > 0, f.Pos(), nil, "no rules are ever accepted")
	for _, w := range []string{"nil", "domain", "no rules", "incomplete", "path", "query", "values", "path placeholder", "query placeholder"} {
		c.ob("refused", name+" "+w, causes[w], f.Pos(), nil, "nothing is ever refused for this")
	}
	c.placeholders(isp)
}

// paramKept: one segment or query value: asked once, kept as what the answer says, refused with its error.
func (c *Ctx) paramKept(it *Iter, name, call string, stored func(string) (bool, int)) {
	fs := it.Facts
	asked := 0
	for _, e := range it.Events {
		if e.Kind == "call" && e.Res != nil && vnorm(e.Res.String()) == call {
			asked++
		}
	}
	c.ob("asked", name, asked == 1, it.Pos, factTexts(fs), "whether the text is a placeholder is asked %d times", asked)
	flag := ""
	switch ndec(fs, call+"#0") {
	case 1:
		flag = "true"
	case 0:
		flag = "false"
	default:
		flag = call + "#0"
	}
	if flag != "true" {
		c.ob("refuses", name, ndec(fs, "(nil == "+call+"#1)") == 1, it.Pos, factTexts(fs), "an invalid placeholder is accepted")
	}
	good, k := stored(flag)
	c.ob("kept", name, flag != "" && good && k == 1, it.Pos, factTexts(fs), "the text is not kept as the placeholder or literal that it is")
}

// oneMore: a list and one more element.
func oneMore(v *Term) bool {
	return v.Op == "append" && len(v.Args) == 2 || v.Op == "list" && len(v.Args) == 1
}

func (c *Ctx) placeholders(isp *ssaFn) {
	name := "isPlaceholder"
	ex := c.run(isp)
	nT, nD := 0, 0
	for _, x := range ex {
		if !c.ob("no-panic", name, !x.Panic, x.Pos, x.path(), "a path panics") {
			continue
		}
		st := x.St
		braces := st.holds(`hasprefix(p1, "{")`) && st.holds(`hassuffix(p1, "}")`)
		noBraces := st.any(`!hasprefix(p1, "{")`, `!hassuffix(p1, "}")`)
		v, okv := boolConst(x.Res[0])
		bad := st.decideNil(x.Res[1]) == 0
		switch {
		case !okv:
			c.ob("decided", name, false, x.Pos, x.path(), "the answer is %s", x.Res[0])
		case v:
			nT++
			c.ob("placeholder", name, braces && !bad, x.Pos, x.path(), "a text without braces is a placeholder")
			c.ob("non-empty", name, st.holds(`!(p1 == "{}")`) || st.holds(`!("{}" == p1)`), x.Pos, x.path(), "the empty placeholder is accepted")
			c.ob("unique", name+" path", st.any("(nil == p0.splitPaths)", "empty(p0.splitPaths)", "!(it < len(p0.splitPaths))"), x.Pos, x.path(), "a placeholder is accepted before it was compared with those of the path")
			c.ob("unique", name+" query", st.any("(nil == p0.queryValueMap)", "empty(p0.queryValueMap)", "!mapnext(p0.queryValueMap)"), x.Pos, x.path(), "a placeholder is accepted before it was compared with those of the query")
		case bad:
			dup := false
			for _, p := range []string{"p0.splitPaths[it]", "p0.queryValueMap{mapkey(p0.queryValueMap)}", "mapval(p0.queryValueMap)"} {
				dup = dup || dec(st.facts, nil, p+".isPlaceholder") == 1 && dec(st.facts, nil, eqBoth(p+".name", "p1")...) == 1
			}
			if dup {
				nD++
			}
			c.ob("refused", name, dup || st.any(`(p1 == "{}")`, `("{}" == p1)`), x.Pos, x.path(), "a valid placeholder is refused")
		default:
			c.ob("literal", name, noBraces, x.Pos, x.path(), "a placeholder is taken literally")
		}
	}
	for _, l := range loopsOf(ex) {
		for _, it := range l.Iters {
			for _, p := range []string{"p0.splitPaths[it]", "p0.queryValueMap{mapkey(p0.queryValueMap)}", "mapval(p0.queryValueMap)"} {
				ph := dec(it.Facts, nil, p+".isPlaceholder")
				if ph < 0 && dec(it.Facts, nil, eqBoth(p+".name", "p1")...) < 0 {
					continue
				}
				c.ob("unique", name, ph == 0 || dec(it.Facts, nil, eqBoth(p+".name", "p1")...) == 0, it.Pos, factTexts(it.Facts), "a placeholder of the same name is passed over")
			}
		}
	}
	c.ob("results", name, nT > 0 && nD > 0, isp.Pos(), nil, "nothing is ever a placeholder, or a duplicate")
}

func boolConst(t *Term) (bool, bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	return false, false
}
