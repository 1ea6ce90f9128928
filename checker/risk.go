package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Risk is an operation which panics for some values, reached on a path whose facts do not exclude them.
type Risk struct {
	Kind  string // nil, index, slice, assert, nilmap
	T, I  *Term
	Pos   token.Pos
	Fn    *ssa.Function
	Facts []Fact
}

func (e *Engine) risk(fr *frame, st *State, kind string, t, i *Term, pos token.Pos) {
	if e.Risks == nil {
		return
	}
	k := kind + " " + t.String() + "@" + fr.fn.String()
	if i != nil {
		k += " " + i.String()
	}
	if _, ok := e.Risks[k]; !ok {
		e.Risks[k] = &Risk{kind, t, i, pos, fr.fn, append([]Fact(nil), st.facts...)}
	}
}

// checkRisks looks at one instruction before it is executed.
func (e *Engine) checkRisks(fr *frame, st *State, in ssa.Instruction) {
	if e.Risks == nil {
		return
	}
	switch x := in.(type) {
	case *ssa.FieldAddr, *ssa.UnOp, *ssa.Store, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.MapUpdate, *ssa.TypeAssert, *ssa.Slice, ssa.CallInstruction:
		e.Checked[x] = true
	}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		e.needNonNil(fr, st, e.val(fr, st, x.X), x.Pos())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			e.needNonNil(fr, st, e.val(fr, st, x.X), x.Pos())
		}
	case *ssa.Store:
		e.needNonNil(fr, st, e.val(fr, st, x.Addr), x.Pos())
	case *ssa.IndexAddr:
		b := e.val(fr, st, x.X)
		if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && isPtr(x.X.Type()) {
			if _, isc := x.Index.(*ssa.Const); isc {
				e.needNonNil(fr, st, b, x.Pos())
				return
			}
			return
		}
		e.needIndex(fr, st, b, e.val(fr, st, x.Index), x.Pos())
	case *ssa.Index:
		e.needIndex(fr, st, e.val(fr, st, x.X), e.val(fr, st, x.Index), x.Pos())
	case *ssa.Lookup:
		if isStringT(x.X.Type()) {
			e.needIndex(fr, st, e.val(fr, st, x.X), e.val(fr, st, x.Index), x.Pos())
		}
	case *ssa.MapUpdate:
		if m := e.val(fr, st, x.Map); m.Op != "makemap" && st.decideNil(m) != 0 {
			e.risk(fr, st, "nilmap", m, nil, x.Pos())
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			v := e.val(fr, st, x.X)
			if is := e.isType(st, v, x.AssertedType); e.decide(st, is) != 1 {
				e.risk(fr, st, "assert", v, mkOp("type", typeStr(x.AssertedType), nil), x.Pos())
			}
		}
	case *ssa.Slice:
		e.needBounds(fr, st, x)
	case ssa.CallInstruction:
		c := x.Common()
		if c.IsInvoke() || c.StaticCallee() == nil {
			if _, ok := c.Value.(*ssa.Builtin); !ok {
				e.needNonNil(fr, st, e.val(fr, st, c.Value), x.Pos())
			}
		}
	}
}

func (e *Engine) needNonNil(fr *frame, st *State, t *Term, pos token.Pos) {
	if e.nonNil(st, t) {
		return
	}
	e.risk(fr, st, "nil", t, nil, pos)
}

// nonNil: the value is known not to be nil, or the error beside it is known to be.
func (e *Engine) nonNil(st *State, t *Term) bool {
	if st.decideNil(t) == 0 {
		return true
	}
	switch t.Op {
	case "ext":
		c := t.Args[0]
		if c.Op == "call" {
			if tp, ok := c.Typ.(*types.Tuple); ok && tp.Len() > 1 {
				if n := tp.Len() - 1; isBoolT(tp.At(n).Type()) {
					return st.decide(ext(c, n, tp.At(n).Type())) == 1
				} else if types.IsInterface(tp.At(n).Type()) && tp.At(n).Type().String() == "error" {
					return st.decideNil(ext(c, n, tp.At(n).Type())) == 1
				}
			}
		}
	case "wide":
		if t.Lp != nil {
			return false
		}
	}
	return false
}

func (e *Engine) needIndex(fr *frame, st *State, b, i *Term, pos token.Pos) {
	if k, ok := i.constInt(); ok && k == 0 {
		if e.decide(st, emptyAtom(b)) == 0 {
			return
		}
	}
	if i.Op == "cbarg" && len(i.Args) == 1 && i.Args[0] == b && isIntT(i.Typ) {
		return // of a sort of the list
	}
	if i.Op == "ctr" || i.isConst() || i.Op == "add" || i.Op == "sum" {
		if e.decide(st, ltTerm(i, lenTerm(b))) == 1 {
			return
		}
		// the lengths of both lists are known to be the same
		for _, f := range st.facts {
			if f.V && f.A.Op == "eq" {
				for k := 0; k < 2; k++ {
					if f.A.Args[k] == lenTerm(b) && e.decide(st, ltTerm(i, f.A.Args[1-k])) == 1 {
						return
					}
				}
			}
		}
	}
	e.risk(fr, st, "index", b, i, pos)
}

func (e *Engine) needBounds(fr *frame, st *State, x *ssa.Slice) {
	b := e.val(fr, st, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, st, x.High)
	}
	zero := func(t *Term) bool {
		if t == nil {
			return true
		}
		k, ok := t.constInt()
		return ok && k == 0
	}
	if (lo == nil || zero(lo)) && (hi == nil || zero(hi)) {
		return
	}
	if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && isPtr(x.X.Type()) {
		return // checked by the compiler or made for variadic arguments
	}
	r := sliceTerm(b, lo, hi, x.Type())
	switch r.Op {
	case "const":
		return
	case "before", "after", "beforelast":
		if e.decide(st, containsTerm(r.Args[0], r.Args[1])) == 1 {
			return
		}
		op := "index"
		if r.Op == "beforelast" {
			op = "lastindex"
		}
		for _, f := range st.facts {
			if f.A.Op == "lt" && !f.V && f.A.Args[0].Op == op && f.A.Args[0].Args[0] == r.Args[0] && f.A.Args[0].Args[1] == r.Args[1] {
				if k, ok := f.A.Args[1].constInt(); ok && k >= 0 {
					return
				}
			}
		}
	case "skip":
		if r.Args[0].Op == "concat" && r.Args[0].Args[0] == r.Args[1] || r.Args[0] == r.Args[1] {
			return
		}
		if e.decide(st, hasPrefix(r.Args[0], r.Args[1])) == 1 {
			return
		}
	}
	if hi == nil && lo != nil {
		if e.decide(st, ltTerm(lenTerm(b), lo)) == 0 {
			return
		}
	}
	if hi != nil && (lo == nil || zero(lo)) {
		if e.decide(st, ltTerm(lenTerm(b), hi)) == 0 {
			return
		}
	}
	e.risk(fr, st, "slice", r, nil, x.Pos())
}

// riskText is a risk without the places it was found at.
func riskText(r *Risk) string {
	s := r.Kind + " " + r.T.String()
	if r.I != nil {
		s += " [" + r.I.String() + "]"
	}
	return strings.ReplaceAll(s, modPath, "")
}
