package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// site is one call of the program.
type site struct {
	in   ssa.CallInstruction
	name string // static callee, interface method or "" for a function value
}

func callSites(f *ssa.Function) (out []site) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			n := ""
			if cc.IsInvoke() {
				n = ifaceName(cc)
			} else if s := cc.StaticCallee(); s != nil {
				n = s.String()
			} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
				n = "builtin." + bi.Name()
			}
			out = append(out, site{ci, n})
		}
	}
	return
}

// shortName is the last part of a function's name.
func shortName(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

type ssaFn = ssa.Function

// fieldWriters: only the given functions (and their closures) store to, or take the address of, a field.
func (c *Ctx) fieldWriters(rule, pkg, typ, field string, may map[string]bool) {
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(deref(fa.X.Type()), fa.Field) != field || !strings.HasSuffix(typeStr(deref(fa.X.Type())), pkg+"."+typ) {
					continue
				}
				for _, r := range *fa.Referrers() {
					writes := true
					switch u := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
						writes = false
					case *ssa.Store:
						writes = u.Addr == fa || u.Val == fa
						if a, ok := u.Addr.(*ssa.Alloc); ok && u.Val == fa {
							writes = !c.cellOnlyLoads(a, map[ssa.Value]bool{})
						}
					case *ssa.Call:
						if s := u.Call.StaticCallee(); s != nil && strings.HasPrefix(s.String(), "sync/atomic.Load") {
							writes = false
						}
					case *ssa.Convert, *ssa.ChangeType:
						writes = !c.onlyLoads(u.(ssa.Value), map[ssa.Value]bool{})
					}
					if !writes {
						continue
					}
					n++
					root := rootFn(f)
					c.ob(rule, shortFn(root.String()), c.within(root, may), in.Pos(), nil, "%s of %s.%s is written in %s", field, pkg, typ, shortFn(f.String()))
				}
			}
		}
	}
	c.ob(rule, "sites", n > 0, 0, nil, "%s of %s.%s is never written", field, pkg, typ)
}

// onlyLoads: an address is used only to load what is there, also through variables, helpers and closures.
func (c *Ctx) onlyLoads(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		ok := false
		switch u := r.(type) {
		case *ssa.DebugRef:
			ok = true
		case *ssa.Convert:
			ok = c.onlyLoads(u, seen)
		case *ssa.ChangeType:
			ok = c.onlyLoads(u, seen)
		case *ssa.Phi:
			ok = c.onlyLoads(u, seen)
		case *ssa.UnOp:
			ok = u.Op == token.MUL
		case *ssa.Store:
			if a, isA := u.Addr.(*ssa.Alloc); isA && u.Val == v {
				ok = c.cellOnlyLoads(a, seen)
			} else if fv, isFV := u.Addr.(*ssa.FreeVar); isFV && u.Val == v {
				if a := cellOf(fv); a != nil {
					ok = c.cellOnlyLoads(a, seen)
				}
			}
		case *ssa.Call:
			s := u.Call.StaticCallee()
			if s == nil {
				break
			}
			if strings.HasPrefix(s.String(), "sync/atomic.Load") {
				ok = true
			} else if s.Blocks != nil {
				ok = true
				for i, a := range u.Call.Args {
					if a == v {
						ok = ok && i < len(s.Params) && c.onlyLoads(s.Params[i], seen)
					}
				}
			}
		case *ssa.Return:
			ok = len(u.Results) == 1
			n := 0
			for g, called := range c.P.usersOf(u.Parent()) {
				ok = ok && called
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, isC := in.(*ssa.Call); isC && ci.Call.StaticCallee() == u.Parent() {
							n++
							ok = ok && c.onlyLoads(ci, seen)
						}
					}
				}
			}
			ok = ok && n > 0
		}
		if !ok {
			return false
		}
	}
	return true
}

// cellOnlyLoads: the address kept in a local variable is only loaded through.
func (c *Ctx) cellOnlyLoads(cell ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[cell] {
		return true
	}
	seen[cell] = true
	for _, r := range *cell.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != cell {
				return false
			}
		case *ssa.UnOp:
			if !c.onlyLoads(u, seen) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == cell && !c.cellOnlyLoads(u.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// cellOf is the variable a captured variable stands for.
func cellOf(fv *ssa.FreeVar) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		f := fv.Parent()
		k := -1
		for j, v := range f.FreeVars {
			if v == fv {
				k = j
			}
		}
		var bound ssa.Value
		if f.Parent() == nil || k < 0 {
			return nil
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					bound = mc.Bindings[k]
				}
			}
		}
		switch x := bound.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			fv = x
		default:
			return nil
		}
	}
	return nil
}

func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// within: the function is one of those named, or a helper called by nobody but such functions.
func (c *Ctx) within(f *ssa.Function, may map[string]bool) bool {
	return c.withinRec(rootFn(f), may, map[*ssa.Function]bool{})
}

func (c *Ctx) withinRec(f *ssa.Function, may map[string]bool, busy map[*ssa.Function]bool) bool {
	if may[shortFn(f.String())] {
		return true
	}
	if busy[f] {
		return true
	}
	busy[f] = true
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	us := c.P.usersOf(f)
	if len(us) == 0 {
		return false
	}
	for u, called := range us {
		if !called || !c.withinRec(rootFn(u), may, busy) {
			return false
		}
	}
	return true
}

// usersOf: the functions which mention f, and whether each only calls it.
func (p *Prog) usersOf(f *ssa.Function) map[*ssa.Function]bool {
	if p.users == nil {
		p.users = map[*ssa.Function]map[*ssa.Function]bool{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var callee *ssa.Function
					if ci, ok := in.(ssa.CallInstruction); ok {
						callee = ci.Common().StaticCallee()
					}
					seen := false
					for _, op := range in.Operands(nil) {
						h, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if p.users[h] == nil {
							p.users[h] = map[*ssa.Function]bool{}
						}
						only := h == callee && !seen
						if h == callee {
							seen = true
						}
						if old, ok := p.users[h][g]; ok {
							only = only && old
						}
						p.users[h][g] = only
					}
				}
			}
		}
	}
	return p.users[f]
}

// storedType is the type of the value which a call stores in a cache (i-th argument behind the receiver).
func storedType(in ssa.CallInstruction, i int) string {
	a := in.Common().Args
	if !in.Common().IsInvoke() {
		i++
	}
	if i >= len(a) {
		return "unknown"
	}
	return valueType(a[i], 0)
}

// valueType is the type of a value that is kept as an interface; what was looked up or handed over is "copied".
func valueType(w ssa.Value, depth int) string {
	switch v := w.(type) {
	case *ssa.MakeInterface:
		return typeStr(v.X.Type())
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Extract:
		if types.IsInterface(v.Type()) {
			return "copied"
		}
	case *ssa.UnOp:
		// a variable captured by a closure
		var cell *ssa.Alloc
		switch x := v.X.(type) {
		case *ssa.Alloc:
			cell = x
		case *ssa.FreeVar:
			cell = cellOf(x)
		}
		if cell == nil || v.Op != token.MUL || depth > 4 {
			break
		}
		t := ""
		for _, r := range *cell.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == cell {
				u := valueType(st.Val, depth+1)
				if t != "" && t != u {
					return typeStr(w.Type())
				}
				t = u
			}
		}
		if t != "" {
			return t
		}
	}
	return typeStr(w.Type())
}
