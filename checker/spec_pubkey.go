package main

import (
	"strings"
)

func init() {
	register(&Check{ID: "C21", Min: 8, Rule: "the public key provider returns exactly the verifier stored under the given key id in the key map of the given service (ZTS, otherwise ZMS), and nil only when it is not stored", Run: specC21})
	register(&Check{ID: "C22", Min: 100, Rule: "per service: the keys are fetched from the service's own document, ETag and not-modified handling; a received document is decoded completely into a staging map before the live map changes; then every key is published under its id with its own verifier and the keys that are not listed are removed; a failure changes nothing but forgets the ETag; the update fails exactly when one service failed", Run: specC22})
}

const (
	ztsMap = "p0.confCache.ZTSPubKeys"
	zmsMap = "p0.confCache.ZMSPubKeys"
	gGet   = "(github.com/kpango/gache.Gache).Get("
)

func specC21(c *Ctx) {
	c.wire("pubkey", "SysAuthConfig", wireKeys)
	name := "public key provider"
	ex, f := c.provider("pubkey", 2)
	n := map[string]int{}
	for _, x := range ex {
		if x.Panic {
			c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
			continue
		}
		m := ""
		switch {
		case x.St.holds(`(a == "zts")`):
			m = ztsMap
		case x.St.holds(`!(a == "zts")`) || x.St.holds(`(a == "zms")`):
			m = zmsMap
		}
		if !c.ob("service", name, m != "", x.Pos, x.path(), "a key is looked up without asking for which service") {
			continue
		}
		load := syncLoad + m + ", b)"
		if x.Res[0] == tNil {
			other := syncLoad + ztsMap
			if m == ztsMap {
				other = syncLoad + zmsMap
			}
			c.ob("missing", m, x.St.holds("!"+load+"#1") || x.St.some(`^!istype\(`+rxq(load)) || x.St.some(`^\(nil == `+rxq(load)), x.Pos, x.path(), "no key is returned although it may be stored (%s)", other)
			continue
		}
		n[m]++
		c.ob("key", m, x.Res[0].String() == load+"#0" && x.St.holds(load+"#1"), x.Pos, x.path(), "the key is %s, expected %s found", x.Res[0], load)
	}
	c.ob("services", "ZTS", n[ztsMap] > 0, f.Fn.Pos(), nil, "no ZTS key is served")
	c.ob("services", "ZMS", n[zmsMap] > 0, f.Fn.Pos(), nil, "no ZMS key is served")
}

var syncWrite = `^\(\*sync\.Map\)\.(Store|Delete|Swap|LoadOrStore|LoadAndDelete|CompareAndSwap|CompareAndDelete|Clear)$`

// liveWrites are the changes of map m on a path.
func liveWrites(x *Exit, m string) (out []*Event) {
	allEvents(x.St.events, func(e *Event) {
		if e.Kind == "call" && rx(syncWrite).MatchString(e.Sym) && e.Args[0].String() == m {
			out = append(out, e)
		}
	})
	return
}

// each is one walk over all entries of a map: the cases of one entry.
type each struct {
	over  *Term
	pos   int // index of its event
	cases [][]*Event
	facts [][]Fact
	whole bool // never stops early
}

func eachOf(x *Exit) (out []each) {
	for i, e := range x.St.events {
		switch {
		case e.Kind == "callback" && (strings.HasSuffix(e.Sym, "sync.Map).Range") || strings.HasSuffix(e.Sym, "Gache).Foreach")):
			w := each{over: e.Args[0], pos: i, whole: true}
			for _, s := range e.Sub {
				w.cases = append(w.cases, s.St.events)
				w.facts = append(w.facts, s.St.facts)
				w.whole = w.whole && !s.Panic && len(s.Res) == 1 && s.Res[0] == kBool(true)
			}
			out = append(out, w)
		case e.Kind == "loop" && e.Loop != nil:
			w := each{pos: i}
			for _, it := range e.Loop.Iters {
				w.cases = append(w.cases, it.Events)
				w.facts = append(w.facts, it.All)
				for _, f := range it.All {
					if f.V && f.A.Op == "mapnext" && len(f.A.Args) > 0 {
						w.over = f.A.Args[0]
					}
				}
			}
			for _, f := range x.St.facts {
				if !f.V && f.A.Op == "mapnext" && len(f.A.Args) > 0 && f.A.Args[0] == w.over {
					w.whole = true
				}
			}
			if w.over != nil {
				out = append(out, w)
			}
		}
	}
	return
}

func factIn(fs []Fact, lit string) bool {
	for _, f := range fs {
		if f.String() == lit {
			return true
		}
	}
	return false
}

func specC22(c *Ctx) {
	c.lenient("pubkey")
	c.wire("pubkey", "SysAuthConfig", wireKeys)
	name := "pubkey Update"
	f := c.impl("pubkey", "Daemon", "Update")
	ex := c.run(f)
	envs := map[string]string{"zts": ztsMap, "zms": zmsMap}
	ok, bad := splitNil(ex, 0)
	wait := "(*golang.org/x/sync/errgroup.Group).Wait("
	for _, x := range panics(ex) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	for _, x := range ok {
		c.ob("success", name, x.St.some(`^\(nil == `+rxq(wait)), x.Pos, x.path(), "success although an update may have failed")
	}
	for _, x := range bad {
		c.ob("failure", name, x.St.some(`^!\(nil == `+rxq(wait)) && strings.HasPrefix(x.errText(0), wait), x.Pos, x.path(), "failure although no update failed")
	}
	c.ob("outcomes", name, len(ok) > 0 && len(bad) > 0, f.Pos(), nil, "the update always or never fails")
	for _, x := range ex {
		var gos []*Event
		w := -1
		for i, e := range x.St.events {
			if e.Kind == "eggo" {
				gos = append(gos, e)
				c.ob("awaited", name, w < 0, e.Pos, x.path(), "a key map is updated after the update was waited for")
			}
			if e.Kind == "call" && strings.HasPrefix(e.Res.String(), wait) {
				w = i
			}
		}
		got := map[string]int{}
		for _, g := range gos {
			for env, m := range envs {
				for _, s := range g.Sub {
					if evOf(s, "net/http.NewRequest") != nil && strings.Contains(evOf(s, "net/http.NewRequest")[0].String(), `/service/`+env) || len(liveWrites(s, m)) > 0 {
						got[env]++
						c.pubkeyEnv(g, env, m)
						break
					}
				}
			}
		}
		c.ob("services", name, got["zts"] == 1 && got["zms"] == 1 && len(gos) == 2, x.Pos, x.path(), "ZTS and ZMS keys are not each updated once (%v)", got)
	}
	c.onlyCaller("key-maps", "pubkey", `^\(\*sync\.Map\)\.(Store|Delete|Swap|LoadAndDelete|LoadOrStore|Clear|CompareAndSwap|CompareAndDelete)$`)
}

func (c *Ctx) pubkeyEnv(g *Event, env, m string) {
	name := env + " keys"
	ok, bad := splitNil(g.Sub, 0)
	for _, x := range panics(g.Sub) {
		c.ob("no-panic", name, false, x.Pos, x.path(), "a path panics")
	}
	key := `"` + env + `"`
	etg := gGet + "p0.eTagCache, " + key + ")"
	other := ztsMap
	if m == ztsMap {
		other = zmsMap
	}
	nNew, nSame := 0, 0
	for i, x := range append(append([]*Exit(nil), ok...), bad...) {
		st := x.St
		good := i < len(ok)
		reqs := evOf(x, `net/http\.NewRequest`)
		if !c.ob("request", name, len(reqs) == 1, x.Pos, x.path(), "not exactly one request is made") {
			continue
		}
		rq := reqs[0].Res.String()
		want := `"GET", concat("https://", p0.athenzURL, "/domain/", p0.sysAuthDomain, "/service/` + env + `"), nil)`
		c.ob("url", name, strings.HasSuffix(rq, want), reqs[0].Pos, nil, "the request is %s", rq)
		do := "(*net/http.Client).Do(p0.client, " + rq + "#0)"
		status := do + "#0.StatusCode"
		c.sentWith(x, name, reqs[0].Res, "p1")
		sent := false
		for _, e := range evOf(x, `\(net/http\.Header\)\.(Set|Add)$`) {
			if e.Args[0].String() == rq+"#0.Header" && e.Args[1].String() == `"If-None-Match"` {
				sent = true
				c.ob("etag-sent", name, e.Args[2].String() == etg+"#0.eTag" && st.holds(etg+"#1"), e.Pos, x.path(), "the ETag sent is %s, not the one remembered for this service", e.Args[2])
			}
		}
		none := st.any("!"+etg+"#1", "(nil == "+etg+"#0)") // entries are never nil: etag-kept
		if st.holds(etg+"#1") && !none {
			c.ob("etag-used", name, sent || !st.some(`^!?\(nil == `+rxq(do)+`#1\)$`), x.Pos, x.path(), "the remembered ETag is not sent")
		}
		// changes
		for _, e := range liveWrites(x, other) {
			c.ob("own-keys", name, false, e.Pos, x.path(), "the %s update changes the keys of the other service", env)
		}
		lw := liveWrites(x, m)
		set, del := -1, -1
		for j, e := range st.events {
			if e.Kind != "call" || !strings.HasPrefix(e.Sym, "(github.com/kpango/gache.Gache).") || len(e.Args) < 2 {
				continue
			}
			switch shortName(e.Sym) {
			case "Set", "SetWithExpire":
				set = j
				v := e.Args[2]
				c.ob("etag-kept", name, v.Op == "alloc", e.Pos, x.path(), "%s is remembered", v)
				c.ob("etag-time", name, strings.HasSuffix(e.Sym, ".SetWithExpire") && e.Args[3].String() == "p0.eTagExpiry", e.Pos, nil, "the ETag is remembered for %s, not for the configured time", e.Args[len(e.Args)-1])
				tag := c.field(st, v, "eTag").String()
				hd := "(net/http.Header).Get(" + do + `#0.Header, "ETag")`
				c.ob("etag-kept", name, e.Args[1].String() == key && tag == hd && st.holds("("+status+" == 200)"), e.Pos, x.path(), "the ETag %s is remembered for %s, expected that of the answer for %s", tag, e.Args[1], key)
			case "Delete":
				del = j
				c.ob("etag-own", name, e.Args[1].String() == key, e.Pos, x.path(), "the ETag of %s is forgotten", e.Args[1])
			case "Get":
			default:
				c.ob("etag-own", name, false, e.Pos, x.path(), "%s of the ETag cache", shortName(e.Sym))
			}
		}
		if !good {
			c.ob("unchanged", name, len(lw) == 0, x.Pos, x.path(), "a failed update changes the keys in use")
			c.ob("etag-forgotten", name, set < 0 || del > set, x.Pos, x.path(), "a failed update remembers the ETag of keys which are not in use")
			same := st.holds("(" + status + " == 304)")
			okSt := st.holds("(" + status + " == 200)")
			cause := st.holds("!(nil == "+rq+"#1)") || st.holds("!(nil == "+do+"#1)") || same && none || st.holds("!("+status+" == 200)") && !same ||
				okSt && (st.some(`^!\(nil == .*Decode\(`) || st.some(`^!\(nil == .*DecodeString\(.*#1\)$`) || st.some(`^!\(nil == .*NewVerifier\(.*#1\)$`) || st.some(`^\(nil == .*PublicKeys\[.*\]\)$`))
			c.ob("failure-cause", name, cause, x.Pos, x.path(), "the update fails without a cause")
			continue
		}
		if !c.ob("answered", name, st.all("(nil == "+rq+"#1)", "(nil == "+do+"#1)"), x.Pos, x.path(), "success although the request may have failed") {
			continue
		}
		if st.holds("(" + status + " == 304)") {
			nSame++
			c.ob("not-modified", name, st.holds(etg+"#1") && sent, x.Pos, x.path(), "a not-modified answer is taken although no ETag was sent")
			c.ob("not-modified-unchanged", name, len(lw) == 0, x.Pos, x.path(), "a not-modified answer changes the keys")
			continue
		}
		if !c.ob("status", name, st.holds("("+status+" == 200)"), x.Pos, x.path(), "success with an unexpected status") {
			continue
		}
		nNew++
		c.ob("kept-etag", name, del < set || set < 0, x.Pos, x.path(), "the ETag is forgotten after a success")
		hdr := "(net/http.Header).Get(" + do + `#0.Header, "ETag")`
		c.ob("etag-of-keys", name, set > del || del >= 0 && st.holds("empty("+hdr+")"), x.Pos, x.path(), "after a success the remembered ETag is not the one of the keys in use")
		sac := ""
		for _, fc := range st.facts {
			if s := fc.A.String(); fc.V && strings.HasPrefix(s, "(nil == (*encoding/json.Decoder).Decode(") && strings.Contains(s, do+"#0.Body") {
				sac = "out(" + strings.TrimSuffix(strings.TrimPrefix(s, "(nil == "), ")") + ")"
			}
		}
		if !c.ob("decoded", name, sac != "", x.Pos, x.path(), "success although the document may not have been read") {
			continue
		}
		c.pubkeySwap(x, name, m, sac+".PublicKeys", lw)
	}
	c.ob("answers", name, nNew > 0 && nSame > 0, g.Pos, nil, "new and unmodified documents are not both handled")
}

// pubkeySwap: staging, publication, removal.
func (c *Ctx) pubkeySwap(x *Exit, name, m, list string, lw []*Event) {
	st := x.St
	c.ob("all-keys", name, st.any("!(it < len("+list+"))", "empty("+list+")"), x.Pos, x.path(), "success before every key was read")
	var staging *Term
	nStage := 0
	first := len(st.events)
	for i, e := range st.events {
		if e.Kind != "loop" || e.Loop == nil {
			continue
		}
		for _, it := range e.Loop.Iters {
			if iterDecided(it, "(it < len("+list+"))") != 1 {
				continue
			}
			nStage++
			n := 0
			k := list + "[it].ID"
			v := ""
			for _, fc := range it.All {
				if s := fc.A.String(); fc.V && strings.HasPrefix(s, "(nil == ") && strings.HasSuffix(s, list+"[it].Key)#0)#1)") && strings.Contains(s, "NewVerifier(") {
					v = strings.TrimSuffix(strings.TrimPrefix(s, "(nil == "), "#1)") + "#0"
				}
			}
			dec := list + "[it].Key)#0)#0"
			for _, w := range it.Events {
				stores := w.Kind == "call" && strings.HasSuffix(w.Sym, "(*sync.Map).Store") || w.Kind == "mapset"
				if !stores {
					continue
				}
				n++
				staging = w.Args[0]
				first = i
				good := w.Args[1].String() == k && w.Args[2].String() == v && strings.HasSuffix(v, dec) && strings.Contains(v, "DecodeString(") && w.Args[0].String() != m
				c.ob("staged", name, good, w.Pos, factTexts(it.Facts), "the key %s is stored as %s under %s", k, w.Args[2], w.Args[1])
				c.ob("key-decoded", name, factIn(it.All, "(nil == "+strings.TrimSuffix(innerArg(v), "#0")+"#1)"), w.Pos, factTexts(it.Facts), "the key may not have been decoded")
			}
			c.ob("staged-each", name, n == 1, it.Pos, factTexts(it.Facts), "a received key is stored %d times", n)
		}
	}
	if st.holds("empty("+list+")") && nStage == 0 {
		staging = nil // nothing to stage: any walk over a fresh map
	}
	pub, rem := -1, -1
	accounted := 0
	for _, w := range eachOf(x) {
		if w.over.String() == m {
			rem = w.pos
			c.ob("removal-whole", name, w.whole, x.Pos, x.path(), "not every key in use is looked at")
			for j, cs := range w.cases {
				n := 0
				has, miss := false, false
				for _, fc := range w.facts[j] {
					if looksUp(fc.A, staging, m) {
						has = has || fc.V
						miss = miss || !fc.V
					}
				}
				miss = miss || !has && st.holds("empty("+list+")") // nothing was received
				miss = miss || !has && staging != nil && st.holds("empty("+staging.String()+")")
				for _, e := range cs {
					if e.Kind == "call" && rx(syncWrite).MatchString(e.Sym) && e.Args[0].String() == m {
						accounted++
						n++
						good := strings.HasSuffix(e.Sym, "Delete") && strings.HasPrefix(e.Args[1].String(), "mapkey("+m) && miss
						c.ob("removed", name, good, e.Pos, factTexts(w.facts[j]), "%s although the new document may hold it", e)
					}
				}
				c.ob("removed-each", name, n == 1 || has, x.Pos, factTexts(w.facts[j]), "a key which the new document does not hold stays in use")
			}
			continue
		}
		touches := false
		for _, cs := range w.cases {
			for _, e := range cs {
				touches = touches || e.Kind == "call" && rx(syncWrite).MatchString(e.Sym) && e.Args[0].String() == m
			}
		}
		if !touches {
			continue
		}
		pub = w.pos
		c.ob("published-from", name, staging == nil || w.over == staging, x.Pos, x.path(), "the keys in use are taken from %s", w.over)
		c.ob("published-whole", name, w.whole, x.Pos, x.path(), "not every received key is put in use")
		for _, cs := range w.cases {
			n := 0
			for _, e := range cs {
				if e.Kind == "call" && rx(syncWrite).MatchString(e.Sym) && e.Args[0].String() == m {
					accounted++
					n++
					good := strings.HasSuffix(e.Sym, ".Store") && ofMap(e.Args[1], "mapkey", w.over) && (ofMap(e.Args[2], "mapval", w.over) || e.Args[2].Op == "lookup" && e.Args[2].Args[0] == w.over)
					c.ob("published", name, good, e.Pos, nil, "a received key is put in use as %s", e)
				}
			}
			c.ob("published-each", name, n == 1, x.Pos, nil, "a received key is not put in use")
		}
	}
	c.ob("publication", name, pub >= 0 && (staging == nil || pub > first), x.Pos, x.path(), "the received keys are not put in use after all of them were decoded")
	c.ob("removal", name, rem > pub, x.Pos, x.path(), "the keys which are not in the new document are not removed after the new ones are in place")
	c.ob("only-changes", name, accounted == len(lw), x.Pos, x.path(), "the keys in use change in another way (%d of %d changes are known)", accounted, len(lw))
}

// innerArg is the text of the argument of a call term f(arg)#0.
func innerArg(s string) string {
	i := strings.Index(s, "NewVerifier(")
	if i < 0 || !strings.HasSuffix(s, ")#0") {
		return "?"
	}
	return s[i+len("NewVerifier(") : len(s)-3]
}

func ofMap(t *Term, op string, m *Term) bool {
	return t.Op == op && len(t.Args) > 0 && t.Args[0] == m
}

// looksUp: the literal says whether the staging map holds the key of the walk over m.
func looksUp(t, staging *Term, m string) bool {
	if t.Op == "proj" || strings.HasPrefix(t.Op, "ext") {
		t = t.Args[0]
	}
	if len(t.Args) < 2 || staging != nil && t.Args[0] != staging {
		return false
	}
	return strings.HasPrefix(t.Args[1].String(), "mapkey("+m) && t.Args[0].String() != m
}

// sentWith: the request is sent with the given context.
func (c *Ctx) sentWith(x *Exit, name string, req *Term, ctx string) {
	with := false
	for _, e := range x.St.events {
		if e.Kind == "withctx" && e.Args[0].Op == "ext" && e.Args[0].Args[0] == req {
			with = e.Args[1].String() == ctx
		}
		if e.Kind == "call" && strings.HasSuffix(e.Sym, "net/http.Client).Do") {
			c.ob("context", name, with, e.Pos, nil, "the request is not sent with the caller's context")
		}
	}
}
