package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var boolT = types.Typ[types.Bool]
var strT = types.Typ[types.String]
var intT = types.Typ[types.Int]

// resolve finds the function a call runs, when it is known.
func (e *Engine) resolve(fr *frame, st *State, c *ssa.CallCommon, fnT **Term) (*ssa.Function, []*Term) {
	if c.IsInvoke() {
		recv := e.val(fr, st, c.Value)
		*fnT = recv
		var dt types.Type
		switch recv.Op {
		case "alloc":
			dt = types.NewPointer(recv.Typ)
		default:
			if d := dynTypes[recv]; d != nil && !types.IsInterface(d) {
				dt = d
			}
		}
		if dt != nil {
			if f := e.P.SSA.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); f != nil {
				return f, nil
			}
		}
		return nil, nil
	}
	if f := c.StaticCallee(); f != nil && !isClosureVal(c.Value) {
		return f, nil
	}
	v := e.val(fr, st, c.Value)
	*fnT = v
	switch v.Op {
	case "closure":
		return v.Fn, v.Args
	case "fn":
		return v.Fn, nil
	}
	return nil, nil
}

func (e *Engine) call(fr *frame, st *State, c *ssa.CallCommon, in ssa.Instruction, k func(*State, *Term)) bool {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.callWith(fr, st, c, in, nil, args, k)
}

// callWith runs a call and continues with k on every outcome; false: nothing to continue (handled in place).
func (e *Engine) callWith(fr *frame, st *State, c *ssa.CallCommon, in ssa.Instruction, fnv *Term, args []*Term, k func(*State, *Term)) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, e.builtin(fr, st, b.Name(), args, in, c))
		return true
	}
	var fnT *Term
	var fn *ssa.Function
	var free []*Term
	if fnv != nil && !c.IsInvoke() {
		fnT = fnv
		switch fnv.Op {
		case "closure":
			fn, free = fnv.Fn, fnv.Args
		case "fn":
			fn = fnv.Fn
		}
	} else {
		fn, free = e.resolve(fr, st, c, &fnT)
	}
	var rt types.Type = c.Signature().Results()
	if c.Signature().Results().Len() == 1 {
		rt = c.Signature().Results().At(0).Type()
	}
	if c.IsInvoke() {
		name := ifaceName(c)
		if fn != nil && e.canInline(fn) {
			return e.inline(fr, st, fn, append([]*Term{fnT}, args...), nil, in, k)
		}
		e.applyCall(fr, st, name, append([]*Term{fnT}, args...), rt, in, c, k)
		return true
	}
	if fn == nil {
		e.applyCall(fr, st, "dyn", append([]*Term{fnT}, args...), rt, in, c, k)
		return true
	}
	if e.canInline(fn) {
		return e.inline(fr, st, fn, args, free, in, k)
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	e.applyCall(fr, st, name, args, rt, in, c, k)
	return true
}

func (e *Engine) canInline(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if e.Opaque != nil && e.Opaque(fn) {
		return false
	}
	return e.P.inModule(fn)
}

func ifaceName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return "(" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + c.Method.Name()
	}
	return "(" + t.String() + ")." + c.Method.Name()
}

func (e *Engine) inline(fr *frame, st *State, fn *ssa.Function, args, free []*Term, in ssa.Instruction, k func(*State, *Term)) bool {
	path := e.pathTo(fr, st, in)
	env, defers := st.env, st.defers
	exits := e.Call(fn, args, free, st, path)
	for i, x := range exits {
		if x.Panic {
			for len(x.St.loops) > 0 && x.St.loops[len(x.St.loops)-1].depth == e.depth {
				e.leaveLoop(x.St)
			}
			*fr.out = append(*fr.out, x)
			continue
		}
		s := x.St
		s.env = env
		if i < len(exits)-1 {
			s.env = make(map[ssa.Value]*Term, len(env)+4)
			for a, b := range env {
				s.env[a] = b
			}
		}
		s.defers = append([]*deferred(nil), defers...)
		var r *Term
		switch len(x.Res) {
		case 0:
		case 1:
			r = x.Res[0]
		default:
			r = mkOp("tuple", "", nil, x.Res...)
		}
		k(s, r)
	}
	return true
}

func (e *Engine) builtin(fr *frame, st *State, name string, args []*Term, in ssa.Instruction, c *ssa.CallCommon) *Term {
	switch name {
	case "len":
		if args[0].Op == "makemap" {
			if _, ok := st.heap[mkOp("addr", "$set", nil, args[0])]; !ok {
				return kInt(0)
			}
		}
		return lenTerm(args[0])
	case "cap":
		return mkOp("cap", "", intT, args[0])
	case "append":
		return appendTerm(args[0], args[1], c.Args[0].Type())
	case "copy":
		if lenTerm(args[0]) == lenTerm(args[1]) && args[0] != args[1] && args[0].Op == "makeslice" {
			d, s := args[0], args[1]
			f := func(t *Term) *Term {
				if t == d {
					return s
				}
				return t
			}
			memo := map[*Term]*Term{}
			for k, v := range st.heap {
				st.heap[k] = rebuild(v, f, memo)
			}
			for k, v := range st.env {
				st.env[k] = rebuild(v, f, memo)
			}
		} else {
			st.emit(&Event{Kind: "call", Sym: "copy", Args: args, Pos: in.Pos(), Fn: fr.fn, In: in})
		}
		return lenTerm(args[1])
	case "close":
		st.emit(&Event{Kind: "close", Args: args, Pos: in.Pos(), Fn: fr.fn, In: in})
		return nil
	case "delete":
		st.emit(&Event{Kind: "mapdel", Args: args, Pos: in.Pos(), Fn: fr.fn, In: in})
		for a := range st.heap {
			if a.Op == "addrelem" && a.Sym == "map" && a.Args[0] == args[0] && (a.Args[1] == args[1] || !a.Args[1].isConst() || !args[1].isConst()) {
				delete(st.heap, a)
			}
		}
		if set := mkOp("addr", "$set", nil, args[0]); st.heap[set] != nil {
			st.heap[set] = tTrue
		}
		return nil
	case "recover", "print", "println", "clear":
		return tNil
	case "min", "max":
		return mkOp(name, "", intT, args...)
	case "ssa:wrapnilchk":
		return args[0]
	}
	e.fail("builtin %s", name)
	return nil
}

func appendTerm(l, more *Term, typ types.Type) *Term {
	if emptyAtom(more) == tTrue {
		return l
	}
	if emptyAtom(l) == tTrue && more.Op == "list" {
		return mkOp("list", "", typ, more.Args...)
	}
	if more.Op == "list" {
		if l.Op == "list" {
			return mkOp("list", "", typ, append(append([]*Term(nil), l.Args...), more.Args...)...)
		}
		return mkOp("append", "", typ, append([]*Term{l}, more.Args...)...)
	}
	if isStringT(more.Typ) {
		more = mkOp("conv", "bytes", typ, more)
	}
	if emptyAtom(l) == tTrue {
		return more
	}
	return mkOp("appendall", "", typ, l, more)
}

func nowT() *Term { return mk(Term{Op: "now"}) }

var pureCalls = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`
		net/url.ParseQuery net/url.Parse net/url.ParseRequestURI (*net/url.URL).String
		encoding/hex.EncodeToString encoding/base64.EncodeToString (*encoding/base64.Encoding).EncodeToString
		crypto/sha256.Sum256 strconv.ParseInt strconv.Atoi strconv.Itoa strconv.FormatInt strconv.ParseBool strconv.Quote
		time.ParseDuration (time.Duration).Seconds (time.Duration).String (time.Time).String (time.Time).UTC (time.Time).Unix (time.Time).UnixNano time.Unix
		(time.Time).IsZero (time.Time).Add (time.Time).Equal (time.Duration).Nanoseconds (time.Duration).Milliseconds
		(net/http.Header).Get regexp.Compile regexp.MustCompile (*regexp.Regexp).String (*regexp.Regexp).MatchString (*regexp.Regexp).ReplaceAllString
		(context.Context).Done (context.Context).Err (context.Context).Value (context.Context).Deadline
		(error).Error encoding/json.Marshal math.Pow errors.Is github.com/pkg/errors.Is errors.Unwrap github.com/pkg/errors.Cause github.com/pkg/errors.Unwrap
		strings.Count strings.Fields strings.TrimSpace strings.Trim strings.TrimLeft strings.TrimRight strings.Repeat strings.Title strings.Map strings.SplitAfter strings.IndexAny strings.IndexFunc strings.ContainsAny strings.ContainsFunc
		unicode/utf8.RuneLen unicode/utf8.RuneCountInString unicode.ToLower unicode.ToUpper unicode.IsUpper bytes.Equal
		(*github.com/golang-jwt/jwt/v4.StandardClaims).VerifyExpiresAt (*github.com/golang-jwt/jwt/v4.StandardClaims).VerifyIssuedAt (*github.com/golang-jwt/jwt/v4.StandardClaims).VerifyNotBefore
		(github.com/lestrrat-go/jwx/jwk.Set).LookupKeyID github.com/lestrrat-go/jwx/jwk.WithHTTPClient
		(*net/http.Request).Context reflect.DeepEqual regexp.QuoteMeta (*net/http.Request).WithContext path.Join sort.SearchStrings
		crypto/subtle.ConstantTimeCompare
	`) {
		pureCalls[s] = true
	}
}

// calls that never write through their arguments
func noWrite(name string) bool {
	for _, p := range []string{"github.com/kpango/gache", "github.com/kpango/glg", "(github.com/kpango/gache", "(*github.com/kpango/glg", "(*sync.Map)", "sync/atomic", "fmt.", "errors.", "github.com/pkg/errors", "(context.", "context.", "(*sync.WaitGroup)", "(*sync.Mutex)", "(*sync.RWMutex)", "(*golang.org/x/sync/errgroup.Group)", "golang.org/x/sync/errgroup", "time.", "(*net/http.Client)", "net/http.NewRequest", "(net/http.Header)", "io.", "io/ioutil.", "encoding/json.NewDecoder", "encoding/json.Marshal", "(github.com/AthenZ", "github.com/AthenZ", "github.com/lestrrat-go/jwx/jwk.Fetch", "github.com/golang-jwt/jwt/v4.ParseWithClaims", "github.com/golang-jwt/jwt/v4.Parse", "(*github.com/golang-jwt", "(io."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "("+modPath)
}

func isLogCall(name string) bool {
	return strings.HasPrefix(name, "github.com/kpango/glg.") || strings.HasPrefix(name, "(*github.com/kpango/glg.Glg)") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger)") || strings.HasPrefix(name, "(*os.File).Write") || name == "builtin.print" || name == "builtin.println" || name == "fmt.Println" || name == "fmt.Printf" || name == "fmt.Print" || name == "fmt.Fprintf" || name == "fmt.Fprintln" || name == "fmt.Fprint" || strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "(*log/slog.Logger)")
}

// applyCall models a call outside of the analysed code.
func (e *Engine) applyCall(fr *frame, st *State, name string, args []*Term, rt types.Type, in ssa.Instruction, c *ssa.CallCommon, k func(*State, *Term)) {
	if strings.HasPrefix(name, "fmt.Fprint") && len(args) > 0 && addrBase(args[0]).Op == "alloc" {
		t := args[0].Typ
		if t != nil && (typeStr(t) == "strings.Builder" || typeStr(t) == "bytes.Buffer") {
			var s *Term
			if name == "fmt.Fprintf" {
				s = e.sprintf(args[1], args[2])
			} else {
				s = sprint(args[1], name == "fmt.Fprintln")
			}
			buf := addrField(args[0], "$buf", strT)
			st.heap[buf] = concat(e.bufVal(st, args[0]), s)
			k(st, mkOp("tuple", "", nil, lenTerm(s), tNil))
			return
		}
	}
	if isLogCall(name) {
		ev := &Event{Kind: "log", Sym: name, Args: args, Pos: in.Pos(), Fn: fr.fn, In: in}
		for _, a := range args {
			if a.Op == "closure" && e.canInline(a.Fn) {
				ev.Sub = append(ev.Sub, e.async(a.Fn, nil, a.Args, st, fr.path+">log"+instrID(in))...)
			}
		}
		st.emit(ev)
		if rt == nil {
			k(st, nil)
			return
		}
		if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
			k(st, nil)
			return
		}
		k(st, mk(Term{Op: "call", Sym: name, Site: e.site(fr, st, in), Tag: st.tag(), Typ: rt}))
		return
	}
	if res, ok := e.model(fr, st, name, args, rt, in, c); ok {
		k(st, res)
		return
	}
	switch name {
	case "(*sync.Map).Range", "(github.com/kpango/gache.Gache).Foreach", "(*sync.Once).Do", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.IndexFunc", "slices.ContainsFunc":
		e.callback(fr, st, name, args, rt, in, k)
		return
	case "(*golang.org/x/sync/errgroup.Group).Go", "(*golang.org/x/sync/errgroup.Group).TryGo", "(*sync.WaitGroup).Go":
		ev := &Event{Kind: "eggo", Sym: name, Args: args, Pos: in.Pos(), Fn: fr.fn, In: in}
		f := args[1]
		if (f.Op == "closure" || f.Op == "fn") && e.canInline(f.Fn) {
			ev.Sub = e.async(f.Fn, nil, f.Args, st, e.pathTo(fr, st, in))
			for _, x := range ev.Sub {
				for hk, v := range x.St.heap {
					if st.heap[hk] != v && addrKnown(st, hk) {
						st.heap[hk] = mk(Term{Op: "asyncval", Args: []*Term{hk}, Tag: st.tag(), Typ: v.Typ})
					}
				}
			}
		}
		st.emit(ev)
		k(st, nil)
		return
	}
	if name == "os.Exit" || name == "log.Fatal" || name == "runtime.Goexit" {
		*fr.out = append(*fr.out, &Exit{St: st, Panic: true, Pos: in.Pos(), Fn: fr.fn})
		return
	}
	// impure call: a fresh value per occurrence
	t := mk(Term{Op: "call", Sym: name, Args: args, Site: e.site(fr, st, in), Tag: st.tag(), Typ: rt})
	st.emit(&Event{Kind: "call", Sym: name, Args: args, Res: t, Pos: in.Pos(), Fn: fr.fn, In: in})
	if !noWrite(name) {
		for i, a := range args {
			b := addrBase(a)
			if (a.Op == "alloc" || (a.Op == "addr" && b.Op == "alloc")) || a.Op == "free" {
				e.store(st, a, mk(Term{Op: "out", Sym: strconv.Itoa(i), Args: []*Term{t}, Typ: a.Typ}))
			} else if b.Op != "alloc" && (a.Op == "addr") {
				for h := range st.heap {
					if addrUnder(h, a) {
						delete(st.heap, h)
					}
				}
			}
		}
	}
	if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
		k(st, nil)
		return
	}
	k(st, t)
}

// callback runs fn for elements it does not know.
func (e *Engine) callback(fr *frame, st *State, name string, args []*Term, rt types.Type, in ssa.Instruction, k func(*State, *Term)) {
	ev := &Event{Kind: "callback", Sym: name, Args: args, Pos: in.Pos(), Fn: fr.fn, In: in}
	f := args[len(args)-1]
	site := e.site(fr, st, in)
	tag := st.tag()
	var res *Term
	if rt != nil {
		if tp, ok := rt.(*types.Tuple); !ok || tp.Len() > 0 {
			res = mk(Term{Op: "call", Sym: name, Args: args, Site: site, Tag: tag, Typ: rt})
		}
	}
	none := strings.Contains(name, "ort.S") && (args[0].Op == "typednil" || args[0] == tNil)
	if (f.Op != "closure" && f.Op != "fn") || !e.canInline(f.Fn) || none {
		st.emit(ev)
		k(st, res)
		return
	}
	var cargs []*Term
	n := len(f.Fn.Params)
	off := 0
	switch name {
	case "(*sync.Map).Range":
		cargs = []*Term{mk(Term{Op: "mapkey", Args: args[:1], Site: site, Tag: tag}), mk(Term{Op: "mapval", Args: args[:1], Site: site, Tag: tag})}
	case "(github.com/kpango/gache.Gache).Foreach":
		cargs = []*Term{mk(Term{Op: "mapkey", Args: args[:1], Site: site, Tag: tag, Typ: strT}), mk(Term{Op: "mapval", Args: args[:1], Site: site, Tag: tag}), mk(Term{Op: "mapexp", Args: args[:1], Site: site, Tag: tag, Typ: types.Typ[types.Int64]})}
	case "(*sync.Once).Do":
		// the effects are in place afterwards
		ex := e.Call(f.Fn, nil, f.Args, st, e.pathTo(fr, st, in))
		env, defers := st.env, st.defers
		for _, x := range ex {
			s := x.St
			s.env = cloneEnv(env)
			s.defers = defers
			k(s, nil)
		}
		return
	default:
		for i := 0; i < n; i++ {
			cargs = append(cargs, mk(Term{Op: "cbarg", Sym: strconv.Itoa(i), Args: args[:len(args)-1], Site: site, Tag: tag, Typ: f.Fn.Params[i].Type()}))
		}
	}
	_ = off
	// bound-method closures take the same arguments
	ev.Sub = e.async(f.Fn, cargs, f.Args, st, e.pathTo(fr, st, in))
	// no invocation, or some invocation was the last to write
	variants := []*State{st}
	seen := map[string]bool{}
	for _, x := range ev.Sub {
		ch := map[*Term]*Term{}
		key := ""
		for h, v := range x.St.heap {
			if st.heap[h] != v && addrKnown(st, h) {
				ch[h] = v
			}
		}
		if len(ch) == 0 {
			continue
		}
		s := st.clone()
		for h, v := range ch {
			s.heap[h] = v
		}
		ok := true
		for _, fc := range x.St.facts[min(x.base, len(x.St.facts)):] {
			if !s.assume(fc.A, fc.V) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		key = s.memKey()
		if seen[key] {
			continue
		}
		seen[key] = true
		variants = append(variants, s)
	}
	for _, s := range variants {
		s.emit(ev)
	}
	for i := len(variants) - 1; i >= 0; i-- {
		k(variants[i], res)
	}
}

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *Engine) bufVal(st *State, obj *Term) *Term {
	if v, ok := st.heap[addrField(obj, "$buf", strT)]; ok {
		return v
	}
	if obj.Op == "alloc" {
		return kStr("")
	}
	return mkOp("bufinit", "", strT, obj)
}

func pure(name string, rt types.Type, args ...*Term) *Term {
	return mk(Term{Op: "call", Sym: name, Args: args, Typ: rt})
}

func newErr(kind string, args ...*Term) *Term {
	return mk(Term{Op: "newerr", Sym: kind, Args: args})
}

func tuple(ts ...*Term) *Term { return mkOp("tuple", "", nil, ts...) }

// replacerPairs of a strings.Replacer value.
func (e *Engine) replacerPairs(t *Term) ([]*Term, bool) {
	if t.Op == "gval" {
		if v, ok := e.init[mk(Term{Op: "glob", Sym: t.Sym})]; ok {
			t = v
		}
	}
	if t.Op == "call" && t.Sym == "strings.NewReplacer" {
		return t.Args, true
	}
	return nil, false
}

// model interprets the library functions whose meaning matters.
func (e *Engine) model(fr *frame, st *State, name string, a []*Term, rt types.Type, in ssa.Instruction, c *ssa.CallCommon) (*Term, bool) {
	evt := func(kind string) {
		st.emit(&Event{Kind: kind, Sym: name, Args: a, Pos: in.Pos(), Fn: fr.fn, In: in})
	}
	switch name {
	// time
	case "github.com/kpango/fastime.Now", "time.Now":
		evt("now")
		return nowT(), true
	case "(time.Time).After":
		return tltTerm(a[1], a[0]), true
	case "(time.Time).Before":
		return tltTerm(a[0], a[1]), true
	case "(time.Time).Compare":
		return mkOp("timesub", "", intT, a[0], a[1]), true
	case "(time.Time).Sub":
		return mkOp("timesub", "", types.Typ[types.Int64], a[0], a[1]), true
	case "time.Until":
		evt("now")
		return mkOp("timesub", "", types.Typ[types.Int64], a[0], nowT()), true
	case "time.Since":
		evt("now")
		return mkOp("timesub", "", types.Typ[types.Int64], nowT(), a[0]), true
	case "(time.Time).In", "(time.Time).Local", "(time.Time).UTC":
		return a[0], true
	case "github.com/kpango/fastime.UnixNow":
		evt("now")
		return pure("(time.Time).Unix", rt, nowT()), true
	case "github.com/kpango/fastime.UnixNanoNow":
		evt("now")
		return pure("(time.Time).UnixNano", rt, nowT()), true
	// errors
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		if st.decideNil(a[0]) == 1 {
			return tNil, true
		}
		evt("errtext")
		if a[0].Op == "wrap" {
			return a[0], true
		}
		return mkOp("wrap", "", rt, a[0]), true
	case "errors.New", "github.com/pkg/errors.New":
		evt("errtext")
		return newErr("new", a...), true
	case "fmt.Errorf", "github.com/pkg/errors.Errorf":
		evt("errtext")
		// %w keeps the cause
		if f, ok := a[0].constStr(); ok && strings.Contains(f, "%w") && a[1].Op == "list" && name == "fmt.Errorf" {
			for _, x := range a[1].Args {
				if st.decideNil(x) == 0 && isErr(x) {
					return mkOp("wrapw", "", rt, x), true
				}
			}
		}
		return newErr("fmt", a...), true
	// strings
	case "strings.ToLower":
		if s, ok := a[0].constStr(); ok {
			return kStr(strings.ToLower(s)), true
		}
		if a[0].Op == "lower" {
			return a[0], true
		}
		return mkOp("lower", "", strT, a[0]), true
	case "strings.ToUpper":
		return mkOp("upper", "", strT, a[0]), true
	case "strings.EqualFold":
		return eqfoldTerm(a[0], a[1]), true
	case "strings.Contains":
		return containsTerm(a[0], a[1]), true
	case "strings.ContainsRune":
		if k, ok := a[1].constInt(); ok {
			return containsTerm(a[0], kStr(string(rune(k)))), true
		}
		return containsTerm(a[0], mkOp("runestr", "", strT, a[1])), true
	case "strings.IndexByte", "strings.IndexRune":
		if k, ok := a[1].constInt(); ok && (k < 128 || name == "strings.IndexRune") {
			return mkOp("index", "", intT, a[0], kStr(string(rune(k)))), true
		}
		if name == "strings.IndexRune" {
			return mkOp("index", "", intT, a[0], runeStr(a[1])), true
		}
	case "strings.Index":
		return mkOp("index", "", intT, a[0], a[1]), true
	case "strings.LastIndexByte":
		if k, ok := a[1].constInt(); ok && k < 128 {
			return mkOp("lastindex", "", intT, a[0], kStr(string(rune(k)))), true
		}
	case "strings.LastIndex":
		return mkOp("lastindex", "", intT, a[0], a[1]), true
	case "strings.Compare":
		return mkOp("strcmp", "", intT, a[0], a[1]), true
	case "strings.HasPrefix":
		return hasPrefix(a[0], a[1]), true
	case "strings.HasSuffix":
		return mkOp("hassuffix", "", boolT, a[0], a[1]), true
	case "strings.TrimPrefix":
		if st.decide(hasPrefix(a[0], a[1])) == 0 {
			return a[0], true
		}
		if st.decide(hasPrefix(a[0], a[1])) == 1 {
			return mkOp("skip", "", strT, a[0], a[1]), true
		}
		return mkOp("trimprefix", "", strT, a[0], a[1]), true
	case "strings.TrimSuffix":
		return mkOp("trimsuffix", "", strT, a[0], a[1]), true
	case "strings.CutPrefix":
		return tuple(mkOp("skip", "", strT, a[0], a[1]), hasPrefix(a[0], a[1])), true
	case "strings.Cut":
		return tuple(mkOp("before", "", strT, a[0], a[1]), mkOp("after", "", strT, a[0], a[1]), containsTerm(a[0], a[1])), true
	case "strings.SplitN":
		return mkOp("splitn", "", rt, a[0], a[1], a[2]), true
	case "strings.Split":
		return mkOp("split", "", rt, a[0], a[1]), true
	case "strings.Join":
		if a[0].Op == "list" {
			var ps []*Term
			for i, x := range a[0].Args {
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, x)
			}
			return concat(ps...), true
		}
		return mkOp("join", "", strT, a[0], a[1]), true
	case "strings.ReplaceAll":
		return pure("strings.Replacer", strT, a[0], a[1], a[2]), true
	case "strings.Replace":
		if k, ok := a[3].constInt(); ok && k < 0 {
			return pure("strings.Replacer", strT, a[0], a[1], a[2]), true
		}
		return pure(name, rt, a...), true
	case "strings.NewReplacer":
		if a[0].Op == "list" {
			return pure(name, rt, a[0].Args...), true
		}
		return pure(name, rt, a...), true
	case "(*strings.Replacer).Replace":
		if ps, ok := e.replacerPairs(a[0]); ok {
			return pure("strings.Replacer", strT, append([]*Term{a[1]}, ps...)...), true
		}
		return pure(name, rt, a...), true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		x := a[1]
		if x.Op == "conv" {
			x = x.Args[0]
		}
		st.heap[addrField(a[0], "$buf", strT)] = concat(e.bufVal(st, a[0]), x)
		return tuple(lenTerm(x), tNil), true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		st.heap[addrField(a[0], "$buf", strT)] = concat(e.bufVal(st, a[0]), runeStr(a[1]))
		return tuple(kInt(1), tNil), true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		st.heap[addrField(a[0], "$buf", strT)] = concat(e.bufVal(st, a[0]), runeStr(a[1]))
		return tNil, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return e.bufVal(st, a[0]), true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return lenTerm(e.bufVal(st, a[0])), true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.heap[addrField(a[0], "$buf", strT)] = kStr("")
		return nil, true
	case "fmt.Sprintf":
		return e.sprintf(a[0], a[1]), true
	case "fmt.Sprint":
		return sprint(a[0], false), true
	case "strconv.Itoa":
		return pure("itoa", strT, a...), true
	case "slices.Contains":
		return mkOp("slicecontains", "", boolT, a[0], a[1]), true
	case "slices.Reverse", "sort.Strings", "slices.Sort":
		evt("call")
		return nil, true
	case "regexp.MustCompile":
		return ext(pure("regexp.Compile", nil, a...), 0, rt), true
	// atomics are plain loads and stores of shared memory
	case "sync/atomic.LoadPointer":
		v := e.load(st, a[0], rt)
		st.emit(&Event{Kind: "atomicload", Args: []*Term{a[0], v}, Pos: in.Pos(), Fn: fr.fn, In: in})
		return v, true
	case "sync/atomic.StorePointer":
		st.emit(&Event{Kind: "atomicstore", Args: a, Pos: in.Pos(), Fn: fr.fn, In: in})
		e.store(st, a[0], a[1])
		return nil, true
	case "sync/atomic.SwapPointer":
		old := e.load(st, a[0], rt)
		st.emit(&Event{Kind: "atomicstore", Args: a, Pos: in.Pos(), Fn: fr.fn, In: in})
		e.store(st, a[0], a[1])
		return old, true
	case "sync/atomic.CompareAndSwapPointer":
		st.emit(&Event{Kind: "atomiccas", Args: a, Pos: in.Pos(), Fn: fr.fn, In: in})
		return mk(Term{Op: "call", Sym: name, Args: a, Site: e.site(fr, st, in), Tag: st.tag(), Typ: rt}), true
	case "(*net/http.Request).WithContext":
		st.emit(&Event{Kind: "withctx", Args: a, Pos: in.Pos(), Fn: fr.fn, In: in})
		return a[0], true // the same request for our purposes
	case "net/http.NewRequestWithContext":
		n := "net/http.NewRequest"
		t := mk(Term{Op: "call", Sym: n, Args: a[1:], Site: e.site(fr, st, in), Tag: st.tag(), Typ: rt})
		st.emit(&Event{Kind: "call", Sym: n, Args: a[1:], Res: t, Pos: in.Pos(), Fn: fr.fn, In: in})
		st.emit(&Event{Kind: "withctx", Args: []*Term{ext(t, 0, rt.(*types.Tuple).At(0).Type()), a[0]}, Pos: in.Pos(), Fn: fr.fn, In: in})
		return t, true
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
		evt("call")
		return nil, true
	case "context.WithCancel":
		return tuple(mk(Term{Op: "cctx", Args: a[:1], Typ: a[0].Typ, Site: e.site(fr, st, in), Tag: st.tag()}), mk(Term{Op: "cancelfn", Site: e.site(fr, st, in), Tag: st.tag(), Args: a[:1]})), true
	case "golang.org/x/sync/errgroup.WithContext":
		g := mk(Term{Op: "alloc", Sym: "golang.org/x/sync/errgroup.Group", Site: e.site(fr, st, in), Tag: st.tag(), Typ: deref(rt.(*types.Tuple).At(0).Type())})
		return tuple(g, mk(Term{Op: "cctx", Args: a[:1], Typ: a[0].Typ, Site: e.site(fr, st, in), Tag: st.tag()})), true
	case "encoding/json.Unmarshal":
		t := mk(Term{Op: "call", Sym: name, Args: a, Site: e.site(fr, st, in), Tag: st.tag(), Typ: rt})
		st.emit(&Event{Kind: "call", Sym: name, Args: a, Res: t, Pos: in.Pos(), Fn: fr.fn, In: in})
		e.outParam(st, a[1], t)
		return t, true
	case "(*encoding/json.Decoder).Decode", "(github.com/lestrrat-go/jwx/jwk.Key).Raw":
		t := mk(Term{Op: "call", Sym: name, Args: a, Site: e.site(fr, st, in), Tag: st.tag(), Typ: rt})
		st.emit(&Event{Kind: "call", Sym: name, Args: a, Res: t, Pos: in.Pos(), Fn: fr.fn, In: in})
		e.outParam(st, a[1], t)
		return t, true
	case "encoding/json.NewDecoder":
		return pure(name, rt, a...), true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		evt("call")
		return nil, true
	}
	if pureCalls[name] {
		return pure(name, rt, a...), true
	}
	return nil, false
}

func (e *Engine) outParam(st *State, p, call *Term) {
	if addrBase(p).Op == "alloc" {
		e.store(st, p, mk(Term{Op: "out", Args: []*Term{call}, Typ: p.Typ}))
	}
}

func isErr(t *Term) bool {
	if t.Op == "newerr" || t.Op == "wrap" || t.Op == "wrapw" {
		return true
	}
	if t.Typ == nil {
		return false
	}
	return types.Implements(t.Typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

func hasPrefix(s, p *Term) *Term {
	if x, ok := s.constStr(); ok {
		if y, ok := p.constStr(); ok {
			return kBool(strings.HasPrefix(x, y))
		}
	}
	if y, ok := p.constStr(); ok && y == "" {
		return tTrue
	}
	return mkOp("hasprefix", "", boolT, s, p)
}

func runeStr(t *Term) *Term {
	if k, ok := t.constInt(); ok {
		return kStr(string(rune(k)))
	}
	return mkOp("runestr", "", strT, t)
}

func sprint(l *Term, nl bool) *Term {
	if l.Op == "list" {
		ok := true
		for _, x := range l.Args {
			if !isStringT(x.Typ) {
				ok = false
			}
		}
		if ok && !nl {
			return concat(l.Args...)
		}
	}
	return mkOp("sprint", "", strT, l)
}

// sprintf normalises %s and %v of strings into a concatenation.
func (e *Engine) sprintf(f, l *Term) *Term {
	fs, ok := f.constStr()
	if !ok {
		return mkOp("sprintf", "", strT, f, l)
	}
	var vs []*Term
	switch {
	case l.Op == "list":
		vs = l.Args
	case l == tNil:
	default:
		return mkOp("sprintf", "", strT, f, l)
	}
	var out []*Term
	i := 0
	for len(fs) > 0 {
		p := strings.IndexByte(fs, '%')
		if p < 0 || p == len(fs)-1 {
			out = append(out, kStr(fs))
			break
		}
		out = append(out, kStr(fs[:p]))
		v := fs[p+1]
		fs = fs[p+2:]
		switch {
		case v == '%':
			out = append(out, kStr("%"))
		case (v == 's' || v == 'v') && i < len(vs):
			x := vs[i]
			if isStringT(x.Typ) || x.Op == "concat" || x.Op == "lower" {
				out = append(out, x)
			} else {
				out = append(out, mkOp("fmtval", string(v), strT, x))
			}
			i++
		case i < len(vs):
			// flags, width: take the verb as a whole
			q := string(v)
			for strings.ContainsAny(q[len(q)-1:], "+-# 0123456789.") && len(fs) > 0 {
				q += fs[:1]
				fs = fs[1:]
			}
			if q == "d" && isIntT(vs[i].Typ) {
				out = append(out, pure("itoa", strT, vs[i]))
			} else if q == "c" {
				out = append(out, runeStr(vs[i]))
			} else {
				out = append(out, mkOp("fmtval", q, strT, vs[i]))
			}
			i++
		}
	}
	return concat(out...)
}

var _ = token.NoPos
