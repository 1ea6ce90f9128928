package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C30", Min: 60, Rule: "memory that requests and refreshes share is written only while it is set up, or is accessed only atomically or under one lock; no variable is shared unsynchronised with a goroutine; nothing is written after it was published", Run: specC30})
}

// origin says where the memory that a value points to comes from.
type origin struct {
	kind    string // fresh, shared, setup
	what    string
	v       ssa.Value // the allocation, when fresh
	crossed []*spawn  // it was allocated outside the goroutine that uses it
}

// spawn is a place where a function is started concurrently.
type spawn struct {
	at    ssa.Instruction // in the frame that made the function
	fn    *ssa.Function
	fns   map[*ssa.Function]bool // the function, what it encloses and the closures it calls
	multi bool                   // it can be started again
}

type raceAn struct {
	c        *Ctx
	p        *Prog
	callers  map[*ssa.Function][]ssa.CallInstruction
	onceBusy map[*ssa.Function]bool
	busy     map[ssa.Value]bool // parameters and calls whose origins are being looked for
	value    map[*ssa.Function]bool // used as a value
	made     map[*ssa.Function][]*ssa.MakeClosure
	spawns   []*spawn
	service  map[*types.Named]bool
	locks    map[*ssa.Function]map[ssa.Instruction]map[string]bool
	entry    map[*ssa.Function]map[string]bool
	reach    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func specC30(c *Ctx) {
	r := &raceAn{c: c, p: c.P, busy: map[ssa.Value]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, value: map[*ssa.Function]bool{}, made: map[*ssa.Function][]*ssa.MakeClosure{}, service: map[*types.Named]bool{}, locks: map[*ssa.Function]map[ssa.Instruction]map[string]bool{}, entry: map[*ssa.Function]map[string]bool{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	r.index()
	r.writes()
	r.locations()
	r.captured()
	r.published()
	r.onces()
	r.funcs(func(f *ssa.Function) { c.fns[shortFn(f.String())] = true })
}

func (r *raceAn) funcs(f func(*ssa.Function)) {
	for _, fn := range r.p.Funcs {
		if fn.Synthetic == "" || fn.Name() == "init" {
			f(fn)
		}
	}
}

func instrs(f *ssa.Function, g func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			g(in)
		}
	}
}

func (r *raceAn) index() {
	// services: what the interfaces of the library are implemented by
	var ifs []*types.Interface
	for _, q := range r.p.Mod {
		for _, m := range q.Members {
			if t, ok := m.(*ssa.Type); ok && m.Object().Exported() {
				if it, ok := t.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
					ifs = append(ifs, it)
				}
			}
		}
	}
	for _, q := range r.p.Mod {
		for _, m := range q.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			ms := r.p.SSA.MethodSets.MethodSet(types.NewPointer(n))
			if ms.Lookup(nil, "RoundTrip") != nil {
				r.service[n] = true
			}
			for _, it := range ifs {
				if types.Implements(types.NewPointer(n), it) {
					r.service[n] = true
				}
			}
		}
	}
	r.funcs(func(f *ssa.Function) {
		instrs(f, func(in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				fn := mc.Fn.(*ssa.Function)
				r.made[fn] = append(r.made[fn], mc)
			}
			var callee ssa.Value
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				callee = cc.Value
				if cc.IsInvoke() {
					for _, m := range r.targets(cc) {
						r.callers[m] = append(r.callers[m], ci)
					}
				} else if s := cc.StaticCallee(); s != nil {
					r.callers[s] = append(r.callers[s], ci)
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil || *op == callee {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					if _, mc := in.(*ssa.MakeClosure); !mc {
						r.value[g] = true
					}
				}
			}
		})
	})
	r.funcs(func(f *ssa.Function) {
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			if _, ok := in.(*ssa.Go); ok {
				if cc.IsInvoke() {
					return
				}
				r.spawn(cc.Value, in, 0)
				return
			}
			s := cc.StaticCallee()
			if s == nil {
				return
			}
			switch n := s.String(); {
			case strings.HasSuffix(n, "errgroup.Group).Go"), strings.HasSuffix(n, "errgroup.Group).TryGo"), n == "(*sync.WaitGroup).Go", n == "time.AfterFunc":
				r.spawn(cc.Args[len(cc.Args)-1], in, 0)
			}
		})
	})
	for _, s := range r.spawns {
		s.fns = map[*ssa.Function]bool{}
		r.within(s, s.fn)
		s.multi = r.reaches(s.at, s.at, nil)
	}
}

// targets of an interface call in the module.
func (r *raceAn) targets(cc *ssa.CallCommon) (out []*ssa.Function) {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for n := range r.service {
		if types.Implements(types.NewPointer(n), it) {
			if m := r.p.SSA.LookupMethod(types.NewPointer(n), cc.Method.Pkg(), cc.Method.Name()); m != nil {
				out = append(out, m)
			}
		}
	}
	return
}

// spawn resolves the function that is started.
func (r *raceAn) spawn(v ssa.Value, at ssa.Instruction, depth int) {
	if depth > 4 {
		return
	}
	for _, w := range r.closures(v, map[ssa.Value]bool{}) {
		switch x := w.(type) {
		case *ssa.MakeClosure:
			r.spawns = append(r.spawns, &spawn{at: at, fn: x.Fn.(*ssa.Function)})
		case *ssa.Function:
			r.spawns = append(r.spawns, &spawn{at: at, fn: x})
		case *ssa.Parameter:
			i := paramIndex(x)
			for _, ci := range r.callers[x.Parent()] {
				if !ci.Common().IsInvoke() && i < len(ci.Common().Args) {
					r.spawn(ci.Common().Args[i], ci, depth+1)
				}
			}
		}
	}
}

func paramIndex(x *ssa.Parameter) int {
	for i, q := range x.Parent().Params {
		if q == x {
			return i
		}
	}
	return -1
}

// closures a function value may be.
func (r *raceAn) closures(v ssa.Value, seen map[ssa.Value]bool) (out []ssa.Value) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeClosure, *ssa.Function, *ssa.Parameter:
		return []ssa.Value{x}
	case *ssa.ChangeType:
		return r.closures(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, r.closures(e, seen)...)
		}
	case *ssa.FreeVar:
		for _, b := range r.bindings(x) {
			out = append(out, r.closures(b, seen)...)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, a := range r.cells(x.X, map[ssa.Value]bool{}) {
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == a {
						out = append(out, r.closures(s.Val, seen)...)
					}
				}
			}
		}
	}
	return
}

func (r *raceAn) bindings(x *ssa.FreeVar) (out []ssa.Value) {
	f := x.Parent()
	for i, fv := range f.FreeVars {
		if fv != x {
			continue
		}
		for _, mc := range r.made[f] {
			if i < len(mc.Bindings) {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return
}

// cells: the local variables an address is of.
func (r *raceAn) cells(v ssa.Value, seen map[ssa.Value]bool) (out []*ssa.Alloc) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return []*ssa.Alloc{x}
	case *ssa.FreeVar:
		for _, b := range r.bindings(x) {
			out = append(out, r.cells(b, seen)...)
		}
	}
	return
}

// within collects the functions that run in a goroutine.
func (r *raceAn) within(s *spawn, f *ssa.Function) {
	if s.fns[f] || f.Blocks == nil {
		return
	}
	s.fns[f] = true
	instrs(f, func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok {
			r.within(s, mc.Fn.(*ssa.Function))
		}
		if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
			for _, w := range r.closures(ci.Common().Value, map[ssa.Value]bool{}) {
				if mc, ok := w.(*ssa.MakeClosure); ok {
					r.within(s, mc.Fn.(*ssa.Function))
				}
			}
		}
	})
}

// option: the function configures an object under construction.
func option(f *ssa.Function) bool {
	for g := f.Parent(); g != nil; g = g.Parent() {
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if n, ok := g.Signature.Results().At(i).Type().(*types.Named); ok && n.Obj().Name() == "Option" {
				return true
			}
		}
	}
	return false
}

// origins of the memory behind an address, map or slice.
func (r *raceAn) origins(v ssa.Value, depth int, seen map[ssa.Value]bool, from *ssa.Function) (out []origin) {
	if seen[v] {
		return
	}
	seen[v] = true
	if depth > 12 {
		return []origin{{kind: "shared", what: "unknown memory"}}
	}
	next := func(w ssa.Value) []origin { return r.origins(w, depth, seen, from) }
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return []origin{{kind: "fresh", v: v, crossed: r.crossing(from, v.(ssa.Instruction).Parent())}}
	case *ssa.Const, *ssa.MakeClosure, *ssa.Function, *ssa.BinOp, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return []origin{{kind: "shared", what: "the package variable " + shortFn(x.String())}}
	case *ssa.FieldAddr:
		return next(x.X)
	case *ssa.Field:
		return next(x.X)
	case *ssa.IndexAddr:
		return next(x.X)
	case *ssa.Index:
		return next(x.X)
	case *ssa.Slice:
		return next(x.X)
	case *ssa.Lookup:
		return next(x.X)
	case *ssa.Convert:
		return next(x.X)
	case *ssa.ChangeType:
		return next(x.X)
	case *ssa.ChangeInterface:
		return next(x.X)
	case *ssa.MakeInterface:
		return next(x.X)
	case *ssa.TypeAssert:
		return next(x.X)
	case *ssa.SliceToArrayPointer:
		return next(x.X)
	case *ssa.Range:
		return next(x.X)
	case *ssa.Next:
		return next(x.Iter)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return r.result(call, x.Index, depth, seen, from)
		}
		return next(x.Tuple)
	case *ssa.Select:
		return []origin{{kind: "fresh"}}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, next(e)...)
		}
	case *ssa.FreeVar:
		for _, b := range r.bindings(x) {
			out = append(out, next(b)...)
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return []origin{{kind: "fresh"}} // handed over
		}
		if x.Op != token.MUL {
			return nil
		}
		return r.loaded(x, depth, seen, from)
	case *ssa.Parameter:
		return r.param(x, depth, from)
	case *ssa.Call:
		return r.result(x, -1, depth, seen, from)
	default:
		return []origin{{kind: "fresh"}}
	}
	return
}

// loaded: the origins of what a load gives.
func (r *raceAn) loaded(x *ssa.UnOp, depth int, seen map[ssa.Value]bool, from *ssa.Function) (out []origin) {
	if cs := r.cells(x.X, map[ssa.Value]bool{}); len(cs) > 0 {
		for _, a := range cs {
			for _, s := range r.stores(a, nil) {
				out = append(out, r.origins(s, depth+1, seen, from)...)
			}
		}
		return
	}
	base := r.origins(x.X, depth+1, map[ssa.Value]bool{}, from)
	fa, _ := x.X.(*ssa.FieldAddr)
	for _, o := range base {
		if o.kind != "fresh" || o.v == nil || fa == nil {
			if o.kind == "fresh" {
				o.v = nil
			}
			out = append(out, o)
			continue
		}
		// what was stored in that field of the new object
		if a, ok := o.v.(*ssa.Alloc); ok {
			n := 0
			for _, u := range *a.Referrers() {
				g, ok := u.(*ssa.FieldAddr)
				if !ok || g.Field != fa.Field {
					continue
				}
				for _, s := range r.stores(g, nil) {
					n++
					out = append(out, r.origins(s, depth+1, seen, from)...)
				}
			}
			if n == 0 {
				out = append(out, origin{kind: "fresh"})
			}
			continue
		}
		out = append(out, origin{kind: "fresh"})
	}
	return
}

// stores: the values stored at an address, through closures too.
func (r *raceAn) stores(a ssa.Value, seen map[ssa.Value]bool) (out []ssa.Value) {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[a] {
		return
	}
	seen[a] = true
	for _, u := range *a.Referrers() {
		switch s := u.(type) {
		case *ssa.Store:
			if s.Addr == a {
				out = append(out, s.Val)
			}
		case *ssa.MakeClosure:
			for i, b := range s.Bindings {
				if b == a {
					out = append(out, r.stores(s.Fn.(*ssa.Function).FreeVars[i], seen)...)
				}
			}
		}
	}
	return
}

// crossing: the goroutines that from runs in and in which f does not.
func (r *raceAn) crossing(from, f *ssa.Function) (out []*spawn) {
	for _, s := range r.spawns {
		if s.fns[from] && !s.fns[f] {
			out = append(out, s)
		}
	}
	return
}

func (r *raceAn) isService(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && r.service[n]
}

func (r *raceAn) param(x *ssa.Parameter, depth int, from *ssa.Function) (out []origin) {
	f := x.Parent()
	if option(f) {
		return []origin{{kind: "setup"}}
	}
	i := paramIndex(x)
	cs := r.callers[f]
	if f.Signature.Recv() != nil && i == 0 {
		exposed := f.Object() != nil && f.Object().Exported()
		if r.isService(x.Type()) && (exposed || len(cs) == 0 || r.value[f]) {
			return []origin{{kind: "shared", what: "the " + typeStr(deref(x.Type())) + " that all requests and refreshes use"}}
		}
	}
	if f.Object() == nil && f.Parent() != nil {
		// a closure that something else calls: it is given what it is called with
		for _, mc := range r.made[f] {
			for _, u := range *mc.Referrers() {
				if ci, ok := u.(ssa.CallInstruction); ok && ci.Common().Value != mc {
					if s := ci.Common().StaticCallee(); s != nil && s.String() == "(*sync.Map).Range" {
						return r.origins(ci.Common().Args[0], depth+1, map[ssa.Value]bool{}, from)
					}
				}
			}
		}
	}
	if r.busy[x] {
		return // what goes round comes from elsewhere
	}
	r.busy[x] = true
	defer delete(r.busy, x)
	for _, ci := range cs {
		cc := ci.Common()
		j := i
		if cc.IsInvoke() {
			if i == 0 {
				out = append(out, r.origins(cc.Value, depth+1, map[ssa.Value]bool{}, ci.Parent())...)
				continue
			}
			j--
		}
		if j < len(cc.Args) {
			out = append(out, r.origins(cc.Args[j], depth+1, map[ssa.Value]bool{}, ci.Parent())...)
		}
	}
	if len(cs) == 0 {
		out = append(out, origin{kind: "setup"}) // the caller's own
	}
	return
}

// result: the origins of result idx of a call, of all of them if idx < 0.
func (r *raceAn) result(x *ssa.Call, idx, depth int, seen map[ssa.Value]bool, from *ssa.Function) (out []origin) {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return r.origins(cc.Args[0], depth, seen, from)
		}
		return nil
	}
	if cc.IsInvoke() {
		if len(r.targets(cc)) > 0 {
			return []origin{{kind: "shared", what: "what " + cc.Method.Name() + " gives"}}
		}
		switch cc.Method.Name() {
		case "Get", "GetWithIgnoredExpire", "ToRawMap":
			return unvalued(r.origins(cc.Value, depth+1, seen, from))
		}
		return []origin{{kind: "fresh"}}
	}
	s := cc.StaticCallee()
	if s == nil {
		return []origin{{kind: "fresh"}}
	}
	n := s.String()
	switch {
	case strings.HasPrefix(n, "sync/atomic.Load"), strings.HasPrefix(n, "sync/atomic.Swap"), strings.HasPrefix(n, "(*sync/atomic."), strings.HasPrefix(n, "(*sync.Map).Load"):
		return unvalued(r.origins(cc.Args[0], depth+1, seen, from))
	}
	if s.Blocks != nil && r.p.inModule(s) {
		if r.busy[x] {
			return // what goes round comes from elsewhere
		}
		r.busy[x] = true
		defer delete(r.busy, x)
		for _, b := range s.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for i, v := range ret.Results {
					if idx < 0 || i == idx {
						out = append(out, r.origins(v, depth+1, map[ssa.Value]bool{}, from)...)
					}
				}
			}
		}
		return
	}
	return []origin{{kind: "fresh"}}
}

func unvalued(os []origin) []origin {
	for i := range os {
		os[i].v, os[i].crossed = nil, nil
	}
	return os
}

// --- writes to shared memory

type memWrite struct {
	in   ssa.Instruction
	base ssa.Value
	how  string
	loc  string // the field or variable behind the base
}

func (r *raceAn) memWrites(f *ssa.Function) (out []memWrite) {
	instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if len(r.cells(x.Addr, map[ssa.Value]bool{})) > 0 {
				return // variables are judged apart
			}
			out = append(out, memWrite{in, x.Addr, "a store", locOf(x.Addr)})
		case *ssa.MapUpdate:
			out = append(out, memWrite{in, x.Map, "a map store", locOf(x.Map)})
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "copy", "clear":
					out = append(out, memWrite{in, cc.Args[0], b.Name(), locOf(cc.Args[0])})
				case "append":
					if !clipped(cc.Args[0]) && !r.literal(cc.Args[0]) {
						out = append(out, memWrite{in, cc.Args[0], "append (it writes behind the slice's end)", locOf(cc.Args[0])})
					}
				}
				return
			}
			s := cc.StaticCallee()
			if s == nil {
				return
			}
			switch n := s.String(); {
			case strings.HasPrefix(n, "sort.") && len(cc.Args) > 0 && !strings.Contains(n, "Search") && !strings.Contains(n, "AreSorted"), strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse":
				out = append(out, memWrite{in, cc.Args[0], n, locOf(cc.Args[0])})
			case unsafeObject(n) && len(cc.Args) > 0:
				out = append(out, memWrite{in, cc.Args[0], n, locOf(cc.Args[0])})
			}
		}
	})
	return
}

// clipped: s[:n:m], whose append copies.
func clipped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil
}

// literal: a package variable that never holds another slice than the full literal it was made with, whose append copies.
func (r *raceAn) literal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || !r.p.immutableGlobal(g.String()) || g.Pkg == nil {
		return false
	}
	full := false
	instrs(g.Pkg.Func("init"), func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && s.Addr == g {
			sl, ok := s.Val.(*ssa.Slice)
			full = ok && sl.Low == nil && sl.High == nil
		}
	})
	return full
}

// unsafeObject: methods that change an object which is not for concurrent use.
func unsafeObject(n string) bool {
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*strings.Reader).", "(*bytes.Reader).", "(*bufio.", "(*math/rand.Rand).", "(*container/", "(*encoding/json.Decoder).", "(*encoding/json.Encoder)."} {
		if strings.HasPrefix(n, p) {
			return !strings.HasSuffix(n, ").String") && !strings.HasSuffix(n, ").Len")
		}
	}
	for _, p := range []string{"(net/http.Header).", "(net/url.Values)."} {
		if strings.HasPrefix(n, p) {
			m := n[len(p):]
			return m == "Set" || m == "Add" || m == "Del"
		}
	}
	return false
}

// locOf names the field or package variable a value hangs from.
func locOf(v ssa.Value) string {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return typeStr(deref(x.X.Type())) + "." + fieldName(deref(x.X.Type()), x.Field)
		case *ssa.Global:
			return shortFn(x.String())
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.TypeAssert:
			v = x.X
		default:
			return ""
		}
	}
	return ""
}

func (r *raceAn) writes() {
	r.funcs(func(f *ssa.Function) {
		if isInit(f) {
			return
		}
		for _, w := range r.memWrites(f) {
			bad := ""
			for _, o := range r.origins(w.base, 0, map[ssa.Value]bool{}, f) {
				if o.kind == "shared" {
					bad = o.what
				}
			}
			if bad != "" && len(r.held(w.in)) > 0 {
				bad = "" // whether all accesses hold the lock is decided per location
			}
			if bad != "" && r.onceBody(f) {
				bad = ""
			}
			r.c.ob("write", shortFn(f.String()), bad == "", w.in.Pos(), []string{w.loc}, "%s changes %s, which others may be using", w.how, bad)
		}
	})
}

// onces: a sync.Once runs one function, the others would never run.
func (r *raceAn) onces() {
	does := map[string]map[*ssa.Function]bool{}
	at := map[string]token.Pos{}
	r.funcs(func(f *ssa.Function) {
		for _, s := range callSites(f) {
			if s.name != "(*sync.Once).Do" {
				continue
			}
			cc := s.in.Common()
			l := locOf(cc.Args[0])
			for _, v := range r.closures(cc.Args[1], map[ssa.Value]bool{}) {
				g, _ := v.(*ssa.Function)
				if mc, ok := v.(*ssa.MakeClosure); ok {
					g = mc.Fn.(*ssa.Function)
				}
				if does[l] == nil {
					does[l] = map[*ssa.Function]bool{}
				}
				does[l][g] = true
				at[l] = s.in.Pos()
			}
		}
	})
	for l, m := range does {
		r.c.ob("once", l, l == "" || len(m) == 1, at[l], nil, "%s runs one of %d functions, the others never", l, len(m))
	}
}

func isInit(f *ssa.Function) bool {
	g := rootFn(f)
	return g.Name() == "init" || strings.HasPrefix(g.Name(), "init#")
}

// onceBody: the function is only run by a sync.Once.
func (r *raceAn) onceBody(f *ssa.Function) bool { return r.onceOf(f) != "" }

func (r *raceAn) onceOf(f *ssa.Function) string {
	check := func(v ssa.Value) string {
		out := ""
		for _, u := range *v.Referrers() {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			ci, ok := u.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() == nil || ci.Common().StaticCallee().String() != "(*sync.Once).Do" {
				return ""
			}
			out = locOf(ci.Common().Args[0])
		}
		return out
	}
	if len(r.callers[f]) > 0 {
		// called in place, within what runs once
		if r.onceBusy[f] || f.Object() != nil && f.Object().Exported() {
			return ""
		}
		if r.onceBusy == nil {
			r.onceBusy = map[*ssa.Function]bool{}
		}
		r.onceBusy[f] = true
		defer delete(r.onceBusy, f)
		out := ""
		for _, ci := range r.callers[f] {
			o := ""
			if _, isCall := ci.(*ssa.Call); isCall && ci.Common().StaticCallee() == f {
				o = r.onceOf(ci.Parent())
			}
			if o == "" || out != "" && o != out {
				return ""
			}
			out = o
		}
		for _, mc := range r.made[f] {
			for _, u := range *mc.Referrers() {
				if ci, ok := u.(*ssa.Call); !ok || ci.Call.Value != mc {
					if _, dbg := u.(*ssa.DebugRef); !dbg {
						return ""
					}
				}
			}
		}
		return out
	}
	out := ""
	for _, mc := range r.made[f] {
		if out = check(mc); out == "" {
			return ""
		}
	}
	if len(r.made[f]) > 0 {
		return out
	}
	n := 0
	r.funcs(func(g *ssa.Function) {
		instrs(g, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if op != nil && *op == ssa.Value(f) {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().String() == "(*sync.Once).Do" {
						n++
						if l := locOf(ci.Common().Args[0]); out == "" || out == l {
							out = l
						} else {
							n += 1000
						}
					} else {
						n += 1000
					}
				}
			}
		})
	})
	if n == 0 || n >= 1000 {
		return ""
	}
	return out
}

// --- shared fields and package variables: all plain, all atomic, or all under a lock

type access struct {
	in     ssa.Instruction
	fn     *ssa.Function
	write  bool
	atomic bool
}

func (r *raceAn) locations() {
	locs := map[string][]access{}
	add := func(l string, as []access) {
		if l != "" {
			locs[l] = append(locs[l], as...)
		}
	}
	r.funcs(func(f *ssa.Function) {
		if isInit(f) || option(f) {
			return
		}
		instrs(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if nm, ok := deref(fa.X.Type()).(*types.Named); !ok || nm.Obj().Pkg() == nil || !strings.HasPrefix(nm.Obj().Pkg().Path(), modPath) {
					return
				}
				if r.isShared(fa.X, f) {
					add(locOf(fa), r.uses(fa, map[ssa.Value]bool{}, 0))
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
					add(shortFn(g.String()), r.useIn(g, in, map[ssa.Value]bool{}, 0))
				}
			}
		})
		for _, w := range r.memWrites(f) {
			if _, ok := w.in.(*ssa.Store); !ok && w.loc != "" && r.isShared(w.base, f) {
				add(w.loc, []access{{in: w.in, fn: f, write: true}})
			}
		}
	})
	var names []string
	for n := range locs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		as := locs[n]
		wr, at := false, false
		for _, a := range as {
			wr = wr || a.write
			at = at || a.atomic
		}
		if !wr && !at {
			r.c.ob("constant", n, true, as0(as), nil, "")
			continue
		}
		if r.onceGuarded(as) {
			r.c.ob("once", n, true, as0(as), nil, "")
			continue
		}
		// all atomic, or one lock
		var common map[string]bool
		for _, a := range as {
			h := r.held(a.in)
			m := map[string]bool{}
			for k := range h {
				if a.write && strings.HasPrefix(k, "R:") {
					continue
				}
				m[k[2:]] = true
			}
			if common == nil {
				common = m
			} else {
				for k := range common {
					if !m[k] {
						delete(common, k)
					}
				}
			}
		}
		for _, a := range as {
			how := "read"
			if a.write {
				how = "written"
			}
			r.c.ob("synchronised", n, a.atomic || len(common) > 0, a.in.Pos(), nil, "%s is %s in %s without the synchronisation that its other accesses need", n, how, shortFn(a.fn.String()))
		}
	}
}

func (r *raceAn) isShared(v ssa.Value, f *ssa.Function) bool {
	for _, o := range r.origins(v, 0, map[ssa.Value]bool{}, f) {
		if o.kind == "shared" {
			return true
		}
	}
	return false
}

func as0(as []access) token.Pos {
	if len(as) == 0 {
		return token.NoPos
	}
	return as[0].in.Pos()
}

// onceGuarded: written only in the function of one sync.Once, read only behind its Do.
func (r *raceAn) onceGuarded(as []access) bool {
	once := ""
	for _, a := range as {
		if !a.write {
			continue
		}
		o := r.onceOf(a.fn)
		if o == "" || once != "" && once != o {
			return false
		}
		once = o
	}
	if once == "" {
		return false
	}
	for _, a := range as {
		if a.write || r.onceOf(a.fn) == once {
			continue
		}
		if !r.afterOnce(a.in, once, 0) {
			return false
		}
	}
	return true
}

// afterOnce: what the once guards was run before in is reached.
func (r *raceAn) afterOnce(in ssa.Instruction, once string, depth int) bool {
	f := in.Parent()
	ok := false
	instrs(f, func(i ssa.Instruction) {
		ok = ok || i != in && r.runsOnce(i, once, 0) && dominates(i, in)
	})
	if ok {
		return true
	}
	cs := r.callers[f]
	if depth > 4 || len(cs) == 0 || f.Object() != nil && (f.Object().Exported() || f.Signature.Recv() != nil) {
		return false
	}
	for _, ci := range cs {
		if _, is := ci.(*ssa.Call); !is || ci.Common().StaticCallee() != f || !r.afterOnce(ci, once, depth+1) {
			return false
		}
	}
	for _, mc := range r.made[f] {
		for _, u := range *mc.Referrers() {
			if ci, ok := u.(*ssa.Call); !ok || ci.Call.Value != mc {
				if _, dbg := u.(*ssa.DebugRef); !dbg {
					return false
				}
			}
		}
	}
	return true
}

// runsOnce: the instruction calls the once's Do, or a function which does so on all its ways.
func (r *raceAn) runsOnce(in ssa.Instruction, once string, depth int) bool {
	ci, is := in.(*ssa.Call)
	if !is || ci.Common().StaticCallee() == nil || depth > 3 {
		return false
	}
	g := ci.Common().StaticCallee()
	if g.String() == "(*sync.Once).Do" {
		return locOf(ci.Common().Args[0]) == once
	}
	if g.Blocks == nil {
		return false
	}
	var does []ssa.Instruction
	instrs(g, func(i ssa.Instruction) {
		if r.runsOnce(i, once, depth+1) {
			does = append(does, i)
		}
	})
	if len(does) == 0 {
		return false
	}
	all := true
	instrs(g, func(i ssa.Instruction) {
		if _, ret := i.(*ssa.Return); ret {
			d := false
			for _, x := range does {
				d = d || dominates(x, i)
			}
			all = all && d
		}
	})
	return all
}

func dominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// uses of the memory at an address.
func (r *raceAn) uses(v ssa.Value, seen map[ssa.Value]bool, depth int) (out []access) {
	if seen[v] || depth > 5 {
		return
	}
	seen[v] = true
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		out = append(out, r.useIn(v, u, seen, depth)...)
	}
	return
}

func (r *raceAn) useIn(v ssa.Value, u ssa.Instruction, seen map[ssa.Value]bool, depth int) (out []access) {
	f := u.Parent()
	switch x := u.(type) {
	case *ssa.UnOp:
		return []access{{in: x, fn: f}}
	case *ssa.Store:
		if x.Addr == v {
			return []access{{in: x, fn: f, write: true}}
		}
		if a, ok := x.Addr.(*ssa.Alloc); ok {
			for _, l := range *a.Referrers() {
				if ld, ok := l.(*ssa.UnOp); ok {
					out = append(out, r.uses(ld, seen, depth)...)
				}
			}
		}
	case *ssa.Convert:
		return r.uses(x, seen, depth)
	case *ssa.ChangeType:
		return r.uses(x, seen, depth)
	case *ssa.Phi:
		return r.uses(x, seen, depth)
	case *ssa.FieldAddr:
		return r.uses(x, seen, depth)
	case *ssa.IndexAddr:
		return r.uses(x, seen, depth)
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if b == v {
				out = append(out, r.uses(x.Fn.(*ssa.Function).FreeVars[i], seen, depth)...)
			}
		}
	case *ssa.Return:
		for _, ci := range r.callers[f] {
			if w := ci.Value(); w != nil {
				if n := f.Signature.Results().Len(); n == 1 {
					out = append(out, r.uses(w, seen, depth+1)...)
				} else {
					for _, e := range *w.Referrers() {
						if ex, ok := e.(*ssa.Extract); ok && x.Results[ex.Index] == v {
							out = append(out, r.uses(ex, seen, depth+1)...)
						}
					}
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		s := cc.StaticCallee()
		if s == nil {
			return nil
		}
		n := s.String()
		if strings.HasPrefix(n, "sync/atomic.") && len(cc.Args) > 0 && cc.Args[0] == v {
			return []access{{in: u, fn: f, write: !strings.HasPrefix(n, "sync/atomic.Load"), atomic: true}}
		}
		if s.Blocks != nil && r.p.inModule(s) {
			for i, a := range cc.Args {
				if a == v && i < len(s.Params) {
					out = append(out, r.uses(s.Params[i], seen, depth+1)...)
				}
			}
		}
	}
	return
}

// --- locks

// held: the locks held at an instruction.
func (r *raceAn) held(in ssa.Instruction) map[string]bool {
	f := in.Parent()
	m, ok := r.locks[f]
	if !ok {
		m = map[ssa.Instruction]map[string]bool{}
		r.locks[f] = m
		r.lockFlow(f, m)
	}
	return m[in]
}

func (r *raceAn) lockFlow(f *ssa.Function, m map[ssa.Instruction]map[string]bool) {
	any := false
	instrs(f, func(in ssa.Instruction) {
		if k, _ := lockOp(in); k != "" {
			any = true
		}
	})
	start := map[string]bool{}
	if f.Parent() == nil && (f.Object() == nil || !f.Object().Exported()) && !r.value[f] {
		for i, ci := range r.callers[f] {
			h := r.held(ci)
			if i == 0 {
				for k := range h {
					start[k] = true
				}
				continue
			}
			for k := range start {
				if !h[k] {
					delete(start, k)
				}
			}
		}
	}
	if !any && len(start) == 0 {
		return
	}
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: start}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			s, ok := in[b]
			if !ok {
				continue
			}
			cur := map[string]bool{}
			for k := range s {
				cur[k] = true
			}
			for _, i := range b.Instrs {
				h := map[string]bool{}
				for k := range cur {
					h[k] = true
				}
				m[i] = h
				if k, on := lockOp(i); k != "" {
					if on {
						cur[k] = true
					} else {
						delete(cur, k)
					}
				}
			}
			for _, t := range b.Succs {
				old, ok := in[t]
				if !ok {
					n := map[string]bool{}
					for k := range cur {
						n[k] = true
					}
					in[t] = n
					changed = true
					continue
				}
				for k := range old {
					if !cur[k] {
						delete(old, k)
						changed = true
					}
				}
			}
		}
	}
}

func lockOp(in ssa.Instruction) (string, bool) {
	ci, ok := in.(*ssa.Call)
	if !ok || ci.Common().StaticCallee() == nil || len(ci.Common().Args) == 0 {
		return "", false
	}
	l := locOf(ci.Common().Args[0])
	if l == "" {
		l = ci.Common().Args[0].Name()
	}
	switch ci.Common().StaticCallee().String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W:" + l, true
	case "(*sync.RWMutex).RLock":
		return "R:" + l, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "W:" + l, false
	case "(*sync.RWMutex).RUnlock":
		return "R:" + l, false
	}
	return "", false
}

// --- variables shared with goroutines

// reaches: b can be executed after a without passing stop.
func (r *raceAn) reaches(a, b ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock, i int) bool
	walk = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			in := blk.Instrs[i]
			if in == b {
				return true
			}
			if stop != nil && stop(in) {
				return false
			}
		}
		for _, t := range blk.Succs {
			if !seen[t] {
				seen[t] = true
				if walk(t, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return walk(a.Block(), i+1)
		}
	}
	return false
}

// waits: the goroutines started before are over, or have handed over.
func waits(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Call:
		if s := x.Common().StaticCallee(); s != nil {
			return strings.HasSuffix(s.String(), "errgroup.Group).Wait") || s.String() == "(*sync.WaitGroup).Wait"
		}
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Next:
		return false
	}
	return false
}

type cellUse struct {
	in    ssa.Instruction // where it happens, in the variable's own function
	real  ssa.Instruction
	write bool
	sp    *spawn // nil: in the function's own flow
}

func (r *raceAn) captured() {
	r.funcs(func(f *ssa.Function) {
		instrs(f, func(in ssa.Instruction) {
			a, ok := in.(*ssa.Alloc)
			if !ok || !a.Heap {
				return
			}
			us := r.cellUses(a, f)
			conc := false
			for _, u := range us {
				if u.sp != nil {
					conc = true
				}
			}
			if !conc {
				return
			}
			bad := r.conflict(a, us)
			r.c.ob("captured", shortFn(f.String())+": "+a.Comment, bad == nil, racePos(bad, a), nil, "the variable %s is used by a goroutine while others can write it", a.Comment)
		})
		// the goroutine writes into what its parent made
		for _, w := range r.memWrites(f) {
			for _, o := range r.origins(w.base, 0, map[ssa.Value]bool{}, f) {
				if o.kind != "fresh" || o.crossed == nil || o.v == nil {
					continue
				}
				ok := len(r.held(w.in)) > 0 || r.ownElement(w.in) || r.joined(o)
				r.c.ob("captured", shortFn(f.String()), ok, w.in.Pos(), nil, "%s in a goroutine changes memory that its parent made", w.how)
			}
		}
	})
	for _, s := range r.spawns {
		r.c.ob("spawn", shortFn(s.fn.String()), true, s.at.Pos(), nil, "")
	}
}

func racePos(in ssa.Instruction, a *ssa.Alloc) token.Pos {
	if in != nil && in.Pos().IsValid() {
		return in.Pos()
	}
	return a.Pos()
}

// ownElement: each goroutine writes the element of its own index.
func (r *raceAn) ownElement(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, c := ia.Index.(*ssa.Const)
	return !c
}

// joined: one goroutine, for which its parent waits.
func (r *raceAn) joined(o origin) bool {
	for _, s := range o.crossed {
		if s.multi && !r.reallocated(s, o.v) {
			return false
		}
		for _, b := range s.at.Parent().Blocks {
			last := b.Instrs[len(b.Instrs)-1]
			if _, ok := last.(*ssa.Return); ok && r.reaches(s.at, last, waits) {
				return false
			}
		}
	}
	return true
}

func (r *raceAn) reallocated(s *spawn, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Parent() == s.at.Parent() && !r.reaches(s.at, s.at, func(i ssa.Instruction) bool { return i == in })
}

func (r *raceAn) cellUses(a *ssa.Alloc, f *ssa.Function) (out []cellUse) {
	var walk func(v ssa.Value, at []ssa.Instruction)
	walk = func(v ssa.Value, at []ssa.Instruction) {
		for _, u := range *v.Referrers() {
			write, use := false, false
			switch x := u.(type) {
			case *ssa.UnOp:
				use = true
			case *ssa.Store:
				if x.Addr == v {
					write, use = true, true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				walk(x.(ssa.Value), at)
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				pos := at
				if pos == nil {
					pos = runsAt(x)
				}
				for i, b := range x.Bindings {
					if b == v {
						walk(fn.FreeVars[i], pos)
					}
				}
			}
			if !use {
				continue
			}
			var sp []*spawn
			for _, s := range r.spawns {
				if s.fns[u.Parent()] && !s.fns[f] {
					sp = append(sp, s)
				}
			}
			if len(sp) == 0 {
				if u.Parent() == f {
					out = append(out, cellUse{u, u, write, nil})
				}
				for _, p := range at {
					out = append(out, cellUse{p, u, write, nil})
				}
				continue
			}
			for _, s := range sp {
				out = append(out, cellUse{s.at, u, write, s})
			}
		}
	}
	walk(a, nil)
	return
}

// runsAt: where a closure is called.
func runsAt(mc *ssa.MakeClosure) (out []ssa.Instruction) {
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Defer:
				instrs(x.Parent(), func(in ssa.Instruction) {
					if _, ok := in.(*ssa.RunDefers); ok {
						out = append(out, in)
					}
				})
			case *ssa.Go:
			case ssa.CallInstruction:
				out = append(out, u)
			case *ssa.ChangeType:
				visit(x)
			case *ssa.Store:
				if c, ok := x.Addr.(*ssa.Alloc); ok {
					for _, l := range *c.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok {
							visit(ld)
						}
					}
				}
			}
		}
	}
	visit(mc)
	return
}

func (r *raceAn) conflict(a *ssa.Alloc, us []cellUse) ssa.Instruction {
	again := func(in ssa.Instruction) bool { return in == ssa.Instruction(a) || waits(in) }
	for _, g := range us {
		if g.sp == nil {
			continue
		}
		for _, u := range us {
			if !g.write && !u.write {
				continue
			}
			if common(r.held(g.real), r.held(u.real), g.write, u.write) {
				continue
			}
			if u.sp == nil {
				if u.in.Parent() == g.sp.at.Parent() && r.reaches(g.sp.at, u.in, again) {
					return u.real
				}
				continue
			}
			if u.sp == g.sp {
				if g.write && r.reaches(g.sp.at, g.sp.at, again) {
					return g.real
				}
				continue
			}
			if r.reaches(g.sp.at, u.sp.at, again) {
				return g.real
			}
		}
	}
	return nil
}

func common(a, b map[string]bool, aw, bw bool) bool {
	for k := range a {
		if aw && k[0] == 'R' {
			continue
		}
		for l := range b {
			if bw && l[0] == 'R' {
				continue
			}
			if k[2:] == l[2:] {
				return true
			}
		}
	}
	return false
}

// --- published objects

// publications of an object: the values it is handed to others as.
func (r *raceAn) published() {
	r.funcs(func(f *ssa.Function) {
		ws := r.memWrites(f)
		n := 0
		instrs(f, func(in ssa.Instruction) {
			for _, v := range r.publishes(in) {
				n++
				var bad ssa.Instruction
				for _, o := range r.origins(v, 0, map[ssa.Value]bool{}, f) {
					if o.kind != "fresh" || o.v == nil || o.v.(ssa.Instruction).Parent() != f {
						continue
					}
					made := o.v.(ssa.Instruction)
					stop := func(i ssa.Instruction) bool { return i == made }
					for _, w := range ws {
						for _, q := range r.origins(w.base, 0, map[ssa.Value]bool{}, f) {
							if q.v == o.v && r.reaches(in, w.in, stop) {
								bad = w.in
							}
						}
					}
					if a, ok := o.v.(*ssa.Alloc); ok && atomicPub(in) {
						for _, u := range *a.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == a && r.reaches(in, s, stop) {
								bad = s
							}
						}
					}
				}
				p := in.Pos()
				if bad != nil {
					p = bad.Pos()
				}
				r.c.ob("published", shortFn(f.String()), bad == nil, p, nil, "an object is changed after it was published")
			}
		})
	})
}

func atomicPub(in ssa.Instruction) bool {
	ci, ok := in.(*ssa.Call)
	return ok && ci.Common().StaticCallee() != nil && strings.HasPrefix(ci.Common().StaticCallee().String(), "sync/atomic.")
}

func (r *raceAn) publishes(in ssa.Instruction) (out []ssa.Value) {
	switch x := in.(type) {
	case *ssa.Send:
		return []ssa.Value{x.X}
	case *ssa.Call:
		cc := x.Common()
		if cc.IsInvoke() {
			if strings.HasPrefix(cc.Method.Name(), "Set") && strings.Contains(cc.Value.Type().String(), "gache.") && len(cc.Args) > 1 {
				return []ssa.Value{cc.Args[1]}
			}
			return nil
		}
		s := cc.StaticCallee()
		if s == nil {
			return nil
		}
		switch n := s.String(); {
		case strings.HasPrefix(n, "sync/atomic.Store"), strings.HasPrefix(n, "sync/atomic.Swap"):
			return []ssa.Value{cc.Args[1]}
		case strings.HasPrefix(n, "sync/atomic.CompareAndSwap"):
			return []ssa.Value{cc.Args[2]}
		case n == "(*sync.Map).Store", n == "(*sync.Map).LoadOrStore", n == "(*sync.Map).Swap":
			return []ssa.Value{cc.Args[2]}
		case strings.HasPrefix(n, "(*sync/atomic.") && (strings.HasSuffix(n, ").Store") || strings.HasSuffix(n, ").Swap")):
			return []ssa.Value{cc.Args[len(cc.Args)-1]}
		}
	}
	return
}
