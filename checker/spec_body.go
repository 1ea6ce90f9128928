package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C34", Min: 20, Rule: "on every path of a function that makes an HTTP request, the body of a received response is read to its end and then closed once, nothing reads it afterwards, and no body is touched when the request failed", Run: specC34})
}

// requesters are the functions which make HTTP requests and do not hand the response to their callers.
func (c *Ctx) requesters() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		f = rootFn(f)
		if seen[f] {
			return
		}
		seen[f] = true
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if typeStr(rs.At(i).Type()) == "*net/http.Response" {
				for u := range c.P.usersOf(f) {
					add(u)
				}
				return
			}
		}
		out = append(out, f)
	}
	for _, f := range c.P.Funcs {
		for _, s := range callSites(f) {
			if isRequest(s.name) && !isRoundTrip(rootFn(f)) {
				add(f)
			}
		}
	}
	return out
}

func isRequest(name string) bool {
	switch name {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head", "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "(net/http.RoundTripper).RoundTrip":
		return true
	}
	return false
}

// isRoundTrip: a transport hands its response out, C31 is about it.
func isRoundTrip(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if m := ms.At(i).Obj(); m.Name() == "RoundTrip" {
			return true
		}
	}
	return false
}

func specC34(c *Ctx) {
	n := 0
	for _, f := range c.requesters() {
		name := shortFn(f.String())
		for _, x := range c.run(f) {
			var reqs []*Event
			allEvents(x.St.events, func(e *Event) {
				if e.Kind == "call" && isRequest(e.Sym) && e.Res != nil {
					reqs = append(reqs, e)
				}
			})
			for _, r := range reqs {
				n++
				d := r.Res.String()
				body := d + "#0.Body"
				drained, closed, late := 0, 0, ""
				order := true
				allEvents(x.St.events, func(e *Event) {
					if e.Kind != "call" {
						return
					}
					m := false
					for _, a := range e.Args {
						m = m || strings.Contains(a.String(), body)
					}
					if !m {
						return
					}
					switch {
					case strings.HasSuffix(e.Sym, ".Close") && len(e.Args) == 1 && e.Args[0].String() == body:
						closed++
						order = order && drained > 0
					case (e.Sym == "io.Copy" || e.Sym == "io.ReadAll" || e.Sym == "io/ioutil.ReadAll") && e.Args[len(e.Args)-1].String() == body:
						drained++
						if closed > 0 {
							late = e.Sym
						}
					case closed > 0:
						late = e.Sym
					}
				})
				switch x.St.decideNil(ext(r.Res, 1, nil)) {
				case 1:
					if x.St.holds("(nil == " + body + ")") {
						continue // never the case with net/http
					}
					if !c.ob("closed", name, closed > 0, x.Pos, x.path(), "the body of the response is not closed: its connection is leaked") {
						continue
					}
					c.ob("closed", name, closed == 1, x.Pos, x.path(), "the body of the response is closed %d times", closed)
					c.ob("drained", name, drained > 0 && order, x.Pos, x.path(), "the body of the response is closed before it was read to its end: its connection is not used again")
					c.ob("read", name, late == "", x.Pos, x.path(), "the body of the response is read by %s after it was closed", late)
				case 0:
					c.ob("failed", name, closed == 0 && drained == 0, x.Pos, x.path(), "the response of a failed request is used")
				default:
					c.ob("decided", name, x.Panic || closed == 0 && drained == 0, x.Pos, x.path(), "a response is used before its error was looked at")
					c.ob("closed", name, false, x.Pos, x.path(), "the outcome of the request is not looked at")
				}
			}
		}
	}
	c.ob("requests", "requests", n > 0, 0, nil, "no function makes requests")
}
