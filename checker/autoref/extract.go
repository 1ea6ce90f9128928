package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// lvar is a local variable of the current function.
func lvar(o types.Object) *types.Var {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() == nil || v.Parent() == v.Pkg().Scope() || v.Name() == "_" {
		return nil
	}
	return v
}

type flow struct {
	uses, sets, decl map[*types.Var]bool
	captured         map[*types.Var]bool // mentioned in a function literal
	addr             map[*types.Var]bool
}

func flows(ns ...ast.Node) *flow {
	f := &flow{map[*types.Var]bool{}, map[*types.Var]bool{}, map[*types.Var]bool{}, map[*types.Var]bool{}, map[*types.Var]bool{}}
	lit := 0
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				lit++
				walk(x.Type)
				walk(x.Body)
				lit--
				return false
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						if v := lvar(info.Uses[id]); v != nil {
							f.sets[v] = true
						}
					}
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if id, ok := l.(*ast.Ident); ok {
						if v := lvar(info.Uses[id]); v != nil {
							f.sets[v] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := x.X.(*ast.Ident); ok {
					if v := lvar(info.Uses[id]); v != nil {
						f.sets[v] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					e := x.X
					for {
						if s, ok := e.(*ast.SelectorExpr); ok {
							e = s.X
							continue
						}
						break
					}
					if id, ok := e.(*ast.Ident); ok {
						if v := lvar(info.Uses[id]); v != nil {
							f.addr[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				// a field set in, or a pointer method called on, a variable
				if id, ok := x.X.(*ast.Ident); ok {
					if v := lvar(info.Uses[id]); v != nil {
						if _, isS := v.Type().Underlying().(*types.Struct); isS {
							f.addr[v] = true
						}
					}
				}
			case *ast.Ident:
				if v := lvar(info.Uses[x]); v != nil {
					f.uses[v] = true
					if lit > 0 {
						f.captured[v] = true
					}
				}
				if v := lvar(info.Defs[x]); v != nil {
					f.decl[v] = true
				}
			}
			return true
		})
	}
	for _, n := range ns {
		walk(n)
	}
	return f
}

func sorted(m map[*types.Var]bool) (out []*types.Var) {
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return
}

// params of a helper for the code with flow f; "" when there is none.
func params(f *flow) (decl, args string, ok bool) {
	var ds, as []string
	names := map[string]bool{}
	for _, v := range sorted(f.uses) {
		if f.decl[v] {
			continue
		}
		t := typ(v.Type())
		if strings.Contains(t, "??") || names[v.Name()] || f.addr[v] {
			return "", "", false
		}
		names[v.Name()] = true
		ds = append(ds, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	return strings.Join(ds, ", "), strings.Join(as, ", "), true
}

// exprFunc makes an expression the result of a helper.
func exprFunc(kind string, e ast.Expr) {
	if has(e, func(m ast.Node) bool { _, l := m.(*ast.FuncLit); return l }) {
		return
	}
	f := flows(e)
	d, a, ok := params(f)
	t := info.TypeOf(e)
	if b, isB := t.(*types.Basic); isB && b.Info()&types.IsUntyped != 0 {
		t = types.Default(t)
	}
	if _, tup := t.(*types.Tuple); tup || !ok || strings.Contains(typ(t), "??") || t == types.Typ[types.UntypedNil] {
		return
	}
	h := fresh("part")
	emit(kind, e, rep(e, h+"("+a+")"), ins(cur.End(), "\n\nfunc "+h+"("+d+") "+typ(t)+" {\nreturn "+text(e)+"\n}\n"))
}

// tailFunc makes the rest of a function body a helper.
func tailFunc(ft *ast.FuncType, b *ast.BlockStmt, i int) {
	var before, rest []ast.Node
	for j, s := range b.List {
		if j < i {
			before = append(before, s)
		} else {
			rest = append(rest, s)
		}
	}
	f, g := flows(rest...), flows(before...)
	for v := range f.uses {
		if g.captured[v] && (f.sets[v] || g.sets[v]) || g.addr[v] || g.captured[v] {
			return
		}
	}
	d, a, ok := params(f)
	if !ok {
		return
	}
	h := fresh("rest")
	call := h + "(" + a + ")"
	r := ""
	if ft.Results != nil {
		call = "return " + call
		r = results(ft)
	}
	emit("tail-func", b.List[i], span(b.List[i].Pos(), b.Rbrace, call+"\n"), ins(cur.End(), "\n\nfunc "+h+"("+d+") "+r+" {\n"+between(b.List[i].Pos(), b.Rbrace)+"\n}\n"))
}

// stmtsFunc makes statements l[i:j] a helper, which returns what it sets.
func stmtsFunc(l []ast.Stmt, i, j int, end token.Pos) {
	var in, after, all []ast.Node
	for k, s := range l {
		if k >= i && k < j {
			if jumps(s) {
				return
			}
			in = append(in, s)
		}
	}
	all = append(all, cur.Body)
	f, g := flows(in...), flows(all...)
	d, a, ok := params(f)
	if !ok {
		return
	}
	_ = after
	// what is set or declared in there and used elsewhere
	outside := map[*types.Var]bool{}
	ast.Inspect(cur.Body, func(m ast.Node) bool {
		if m != nil && m.Pos() >= l[i].Pos() && m.End() <= l[j-1].End() {
			return false
		}
		if id, ok := m.(*ast.Ident); ok {
			if v := lvar(info.Uses[id]); v != nil {
				outside[v] = true
			}
		}
		return true
	})
	var rs, ts []string
	fresh1, old := false, false
	var decls []string
	for _, v := range sorted(outside) {
		if !f.decl[v] && !f.sets[v] {
			continue
		}
		if g.captured[v] || g.addr[v] {
			return
		}
		t := typ(v.Type())
		if strings.Contains(t, "??") {
			return
		}
		rs = append(rs, v.Name())
		ts = append(ts, t)
		if f.decl[v] {
			fresh1 = true
			decls = append(decls, "var "+v.Name()+" "+t+"\n")
		} else {
			old = true
		}
	}
	for v := range f.sets {
		if g.captured[v] || f.captured[v] {
			return
		}
	}
	h := fresh("step")
	call, ret, rt := h+"("+a+")", "", ""
	if len(rs) > 0 {
		op := " = "
		if fresh1 && !old {
			op, decls = " := ", nil
		}
		call = strings.Join(decls, "") + strings.Join(rs, ", ") + op + call
		ret = "\nreturn " + strings.Join(rs, ", ")
		rt = "(" + strings.Join(ts, ", ") + ")"
	}
	emit("stmts-func", l[i], span(l[i].Pos(), l[j-1].End(), call), ins(cur.End(), "\n\nfunc "+h+"("+d+") "+rt+" {\n"+between(l[i].Pos(), l[j-1].End())+ret+"\n}\n"))
}
