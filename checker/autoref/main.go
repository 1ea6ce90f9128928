// autoref lists behaviour-preserving rewrites of the code in a directory: one JSON object per line, with the edits
// that make it. The checks have to stay quiet on every one of them (tools/autoref.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	Start, End int
	Text       string
}

type site struct {
	Kind, File, Func string
	Line             int
	Edits            []edit
}

var (
	fset *token.FileSet
	src  []byte
	base int
	info *types.Info
	pkg  *types.Package
	out  = json.NewEncoder(os.Stdout)
	file string
	cur  *ast.FuncDecl
	imps map[string]string
	nm   int
)

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}
func between(a, b token.Pos) string { return string(src[off(a):off(b)]) }

func emit(kind string, at ast.Node, es ...edit) {
	out.Encode(site{kind, file, cur.Name.Name, fset.Position(at.Pos()).Line, es})
}
func rep(n ast.Node, s string) edit      { return edit{off(n.Pos()), off(n.End()), s} }
func ins(p token.Pos, s string) edit     { return edit{off(p), off(p), s} }
func span(a, b token.Pos, s string) edit { return edit{off(a), off(b), s} }
func fresh(s string) string              { nm++; return fmt.Sprintf("%sX%d", s, nm) }
func has(n ast.Node, f func(ast.Node) bool) (r bool) {
	ast.Inspect(n, func(m ast.Node) bool {
		if m != nil && f(m) {
			r = true
		}
		return !r
	})
	return
}

// jumps says whether control may leave n by a return, break, continue or goto, or whether n defers.
func jumps(n ast.Node) bool {
	r := false
	var walk func(n ast.Node, inLoop bool)
	walk = func(n ast.Node, inLoop bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				r = true
			case *ast.BranchStmt:
				r = r || !inLoop || x.Label != nil
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				if m != n && !inLoop {
					walk(m, true)
					return false
				}
			}
			return true
		})
	}
	walk(n, false)
	return r
}

func hasCall(n ast.Node) bool {
	return has(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "string" || id.Name == "cap") {
				return false
			}
			return true
		case *ast.UnaryExpr:
			return x.Op == token.ARROW
		}
		return false
	})
}

func qual(p *types.Package) string {
	if p == pkg {
		return ""
	}
	if n, ok := imps[p.Path()]; ok {
		return n
	}
	return "??"
}

func typ(t types.Type) string { return types.TypeString(t, qual) }

func hasBlank(fl *ast.FieldList) bool {
	if fl == nil {
		return false
	}
	for _, f := range fl.List {
		if len(f.Names) == 0 {
			return true
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return true
			}
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			return true
		}
	}
	return false
}

func named(ft *ast.FuncType) bool {
	return ft.Results != nil && len(ft.Results.List) > 0 && len(ft.Results.List[0].Names) > 0
}

func results(ft *ast.FuncType) string {
	if ft.Results == nil {
		return ""
	}
	var ts []string
	for _, f := range ft.Results.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			ts = append(ts, text(f.Type))
		}
	}
	return "(" + strings.Join(ts, ", ") + ")"
}

func main() {
	dir := os.Args[1]
	ps, err := packages.Load(&packages.Config{Dir: dir, Fset: token.NewFileSet(), Mode: packages.LoadAllSyntax}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		fset = p.Fset
		info = p.TypesInfo
		pkg = p.Types
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, _ = os.ReadFile(name)
			file = strings.TrimPrefix(strings.TrimPrefix(name, dir), "/")
			imps = map[string]string{}
			for _, im := range f.Imports {
				o := info.Implicits[im]
				if im.Name != nil {
					o = info.Defs[im.Name]
				}
				if pn, ok := o.(*types.PkgName); ok {
					imps[pn.Imported().Path()] = pn.Name()
				}
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					cur = fd
					fn(fd)
				}
			}
		}
	}
}

func fn(fd *ast.FuncDecl) {
	// the body in a helper of its own
	if !hasBlank(fd.Type.Params) && fd.Name.Name != "init" && len(fd.Body.List) > 1 {
		var as []string
		for _, f := range fd.Type.Params.List {
			for _, n := range f.Names {
				as = append(as, n.Name)
			}
		}
		h := fresh(strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:])
		call := h + "(" + strings.Join(as, ", ") + ")"
		recv := ""
		ok := true
		if fd.Recv != nil {
			if len(fd.Recv.List[0].Names) == 1 {
				recv = text(fd.Recv) + " "
				call = fd.Recv.List[0].Names[0].Name + "." + call
			} else {
				ok = false
			}
		}
		if fd.Type.Results != nil {
			call = "return " + call
		}
		if ok {
			sig := between(fd.Type.Params.Pos(), fd.Body.Pos())
			emit("body-helper", fd, ins(fd.End(), "\n\nfunc "+recv+h+sig+text(fd.Body)), edit{off(fd.Body.Pos()), off(fd.Body.End()), "{\n" + call + "\n}"})
		}
	}
	funcBody(fd.Type, fd.Body)
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		node(n)
		if fl, ok := n.(*ast.FuncLit); ok {
			funcBody(fl.Type, fl.Body)
		}
		return true
	})
}

func funcBody(ft *ast.FuncType, b *ast.BlockStmt) {
	// the tail in a closure
	if named(ft) {
		return
	}
	for i := 1; i+1 < len(b.List); i++ {
		tail := ast.BlockStmt{Lbrace: b.List[i].Pos(), List: b.List[i:], Rbrace: b.Rbrace}
		if has(&tail, func(m ast.Node) bool { _, d := m.(*ast.DeferStmt); _, l := m.(*ast.LabeledStmt); return d || l }) {
			continue
		}
		if ft.Results == nil {
			emit("tail-closure", b.List[i], ins(b.List[i].Pos(), "func() {\n"), ins(b.Rbrace, "\n}()\n"))
		} else {
			emit("tail-closure", b.List[i], ins(b.List[i].Pos(), "return func() "+results(ft)+" {\n"), ins(b.Rbrace, "\n}()\n"))
		}
	}
	for i := 1; i+1 < len(b.List); i++ {
		tail := ast.BlockStmt{Lbrace: b.List[i].Pos(), List: b.List[i:], Rbrace: b.Rbrace}
		if !has(&tail, func(m ast.Node) bool { _, l := m.(*ast.LabeledStmt); return l }) && !defers(b.List[i:]) {
			tailFunc(ft, b, i)
		}
	}
	// named results
	if ft.Results != nil && len(b.List) > 1 {
		var rs []string
		for i, f := range ft.Results.List {
			rs = append(rs, fmt.Sprintf("res%d %s", i, text(f.Type)))
		}
		emit("named-results", b, edit{off(ft.Results.Pos()), off(ft.Results.End()), "(" + strings.Join(rs, ", ") + ")"}, ins(b.Lbrace+1, "\ndefer func() { _ = res0 }()\n"))
	}
}

// defers says whether a statement of the function itself defers.
func defers(l []ast.Stmt) (r bool) {
	for _, s := range l {
		ast.Inspect(s, func(m ast.Node) bool {
			switch m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.DeferStmt:
				r = true
			}
			return true
		})
	}
	return
}

func isStr(e ast.Expr) bool {
	t := info.TypeOf(e)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func node(n ast.Node) {
	switch x := n.(type) {
	case *ast.IfStmt:
		pos := x.If
		elseIf := strings.HasSuffix(strings.TrimSpace(string(src[:off(pos)])), "else")
		exprFunc("cond-func", x.Cond)
		// condition in a closure
		emit("cond-closure", x, rep(x.Cond, "func() bool { return "+text(x.Cond)+" }()"))
		// negated
		if x.Else != nil {
			if eb, ok := x.Else.(*ast.BlockStmt); ok {
				emit("negate", x, rep(x.Cond, "!("+text(x.Cond)+")"), rep(x.Body, text(eb)), rep(eb, text(x.Body)))
			}
		} else {
			emit("negate", x, rep(x.Cond, "!("+text(x.Cond)+")"), ins(x.Body.Pos(), "{\n} else "))
		}
		// condition in a variable
		if x.Init == nil && !elseIf {
			v := fresh("cond")
			emit("cond-var", x, ins(x.Pos(), v+" := "+text(x.Cond)+"\n"), rep(x.Cond, v))
		}
		// switch
		if !elseIf && !has(x, func(m ast.Node) bool { b, ok := m.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
			var sb strings.Builder
			sb.WriteString("switch ")
			ok := true
			if x.Init != nil {
				sb.WriteString(text(x.Init) + "; ")
			}
			sb.WriteString("{\n")
			for y := x; y != nil; {
				if y != x && y.Init != nil {
					ok = false
				}
				sb.WriteString("case " + text(y.Cond) + ":\n" + between(y.Body.Lbrace+1, y.Body.Rbrace) + "\n")
				switch e := y.Else.(type) {
				case *ast.IfStmt:
					y = e
				case *ast.BlockStmt:
					sb.WriteString("default:\n" + between(e.Lbrace+1, e.Rbrace) + "\n")
					y = nil
				default:
					y = nil
				}
			}
			sb.WriteString("}")
			if ok {
				emit("switch", x, rep(x, sb.String()))
			}
		}
		// a || b {A} as two statements
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && x.Else == nil && !elseIf && b.Op == token.LOR && len(x.Body.List) > 0 {
			switch x.Body.List[len(x.Body.List)-1].(type) {
			case *ast.ReturnStmt:
				if x.Init == nil {
					emit("or-split", x, rep(x, "if "+text(b.X)+" "+text(x.Body)+"\nif "+text(b.Y)+" "+text(x.Body)))
				}
			}
		}
		if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
			emit("de-morgan", x, rep(x.Cond, "!(!("+text(b.X)+") || !("+text(b.Y)+"))"))
			if x.Else == nil {
				emit("and-nest", x, rep(x.Cond, text(b.X)), rep(x.Body, "{\nif "+text(b.Y)+" "+text(x.Body)+"\n}"))
			}
		}
	case *ast.RangeStmt:
		t := info.TypeOf(x.X)
		if _, ok := t.Underlying().(*types.Slice); ok && x.Tok != token.ASSIGN {
			i, s := fresh("i"), fresh("s")
			if k, ok := x.Key.(*ast.Ident); ok && k.Name != "_" {
				i = k.Name
			}
			body := between(x.Body.Lbrace+1, x.Body.Rbrace)
			val := ""
			if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
				val = v.Name + " := " + s + "[" + i + "]\n"
			}
			emit("range-index", x, rep(x, s+" := "+text(x.X)+"\nfor "+i+" := 0; "+i+" < len("+s+"); "+i+"++ {\n"+val+body+"\n}"))
			emit("range-index-eager", x, rep(x, "for "+i+", "+s+" := 0, "+text(x.X)+"; "+i+" < len("+s+"); "+i+"++ {\n"+val+body+"\n}"))
		}
		bodyClosure(x.Body)
	case *ast.ForStmt:
		if x.Cond != nil && x.Post == nil && x.Init == nil {
			emit("for-break", x, rep(x.Cond, ""), ins(x.Body.Lbrace+1, "\nif !("+text(x.Cond)+") {\nbreak\n}\n"))
		}
		bodyClosure(x.Body)
	case *ast.BlockStmt:
		stmts(x.List)
	case *ast.CaseClause:
		stmts(x.Body)
	case *ast.CommClause:
		stmts(x.Body)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.EQL, token.NEQ:
			if !(hasCall(x.X) && hasCall(x.Y)) {
				emit("swap-eq", x, rep(x, text(x.Y)+" "+x.Op.String()+" "+text(x.X)))
			}
			if l, ok := x.Y.(*ast.BasicLit); ok && l.Value == `""` {
				op := "=="
				if x.Op == token.NEQ {
					op = ">"
				}
				emit("empty-len", x, rep(x, "len("+text(x.X)+") "+op+" 0"))
			}
			if l, ok := x.Y.(*ast.BasicLit); ok && l.Value == `0` && strings.HasPrefix(text(x.X), "len(") {
				op := "< 1"
				if x.Op == token.NEQ {
					op = ">= 1"
				}
				emit("len-one", x, rep(x, text(x.X)+" "+op))
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			op := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[x.Op]
			ne := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}[x.Op]
			if !(hasCall(x.X) && hasCall(x.Y)) {
				emit("swap-cmp", x, rep(x, text(x.Y)+" "+op+" "+text(x.X)))
			}
			emit("neg-cmp", x, rep(x, "!("+text(x.X)+" "+ne+" "+text(x.Y)+")"))
		case token.ADD:
			if isStr(x) {
				emit("concat-join", x, rep(x, "func(a, b string) string { return a + b }("+text(x.X)+", "+text(x.Y)+")"))
			}
		}
	case *ast.CallExpr:
		for _, a := range x.Args {
			switch a.(type) {
			case *ast.Ident, *ast.BasicLit, *ast.FuncLit:
			default:
				if tv := info.Types[a]; !tv.IsType() && !x.Ellipsis.IsValid() {
					exprFunc("arg-func", a)
				}
			}
		}
		// method value
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
			if s := info.Selections[sel]; s != nil && s.Kind() == types.MethodVal && !x.Ellipsis.IsValid() && !hasCall(sel.X) {
				_ = s
				emit("through-func", x, rep(x, closureCall(x)))
			}
		}
	case *ast.CompositeLit:
		composite(x)
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			if _, id := r.(*ast.Ident); !id {
				exprFunc("return-func", r)
			}
		}
		if len(x.Results) > 0 {
			var vs, es []string
			ok := true
			for _, r := range x.Results {
				v := fresh("r")
				t := info.TypeOf(r)
				if t == types.Typ[types.UntypedNil] {
					ok = false
				}
				vs = append(vs, v)
				es = append(es, text(r))
			}
			if ok {
				emit("return-var", x, rep(x, strings.Join(vs, ", ")+" := "+strings.Join(es, ", ")+"\nreturn "+strings.Join(vs, ", ")))
			}
		}
	}
}

func extractable(l []ast.Stmt) bool {
	for _, s := range l {
		switch s.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.CaseClause, *ast.CommClause:
			return false
		}
	}
	if len(l) == 1 {
		switch l[0].(type) {
		case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.AssignStmt:
			return true
		}
		return false
	}
	return true
}

// closureCall is the call x made in a function literal.
func closureCall(x *ast.CallExpr) string {
	t := info.TypeOf(x)
	r := ""
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() > 0 {
			var ts []string
			for i := 0; i < tp.Len(); i++ {
				ts = append(ts, typ(tp.At(i).Type()))
			}
			r = "(" + strings.Join(ts, ", ") + ")"
		}
	} else if t != nil {
		r = typ(t)
	}
	ret := "return "
	if r == "" || r == "()" {
		ret, r = "", ""
	}
	return "func() " + r + " { " + ret + text(x) + " }()"
}

func composite(x *ast.CompositeLit) {
	t := info.TypeOf(x)
	st, ok := t.Underlying().(*types.Struct)
	if !ok || len(x.Elts) == 0 {
		return
	}
	var sb strings.Builder
	ts := typ(t)
	if strings.Contains(ts, "??") {
		return
	}
	v := fresh("v")
	sb.WriteString("func() " + ts + " {\nvar " + v + " " + ts + "\n")
	for i, e := range x.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			sb.WriteString(v + "." + text(kv.Key) + " = " + text(kv.Value) + "\n")
		} else {
			sb.WriteString(v + "." + st.Field(i).Name() + " = " + text(e) + "\n")
		}
	}
	sb.WriteString("return " + v + "\n}()")
	// of &T{…} a pointer
	if i := off(x.Pos()); src[i-1] == '&' {
		s := strings.Replace(sb.String(), "func() "+ts, "func() *"+ts, 1)
		s = strings.Replace(s, "var "+v+" "+ts+"\n", v+" := new("+ts+")\n", 1)
		emit("new-fields", x, edit{i - 1, off(x.End()), s})
		return
	}
	emit("set-fields", x, rep(x, sb.String()))
}

// bodyClosure makes the body of a loop a closure.
func bodyClosure(b *ast.BlockStmt) {
	if has(b, func(m ast.Node) bool {
		switch y := m.(type) {
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
			return true
		case *ast.BranchStmt:
			return y.Tok != token.CONTINUE || y.Label != nil
		}
		return false
	}) {
		return
	}
	es := []edit{ins(b.Lbrace+1, "\nfunc() {\n"), ins(b.Rbrace, "\n}()\n")}
	ast.Inspect(b, func(m ast.Node) bool {
		if y, ok := m.(*ast.BranchStmt); ok {
			es = append(es, rep(y, "return"))
		}
		return true
	})
	emit("loop-body-closure", b, es...)
}

func stmts(l []ast.Stmt) {
	for i := range l {
		for j := i + 1; j <= len(l) && j <= i+4; j++ {
			if !(i == 0 && j == len(l) && false) && extractable(l[i:j]) {
				stmtsFunc(l, i, j, l[j-1].End())
			}
		}
	}
	for i, s := range l {
		switch x := s.(type) {
		case *ast.DeclStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.ReturnStmt, *ast.BranchStmt, *ast.GoStmt:
			continue
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				// declared first, set later
				var ds []string
				ok := true
				for _, lh := range x.Lhs {
					id, isID := lh.(*ast.Ident)
					if !isID {
						ok = false
						continue
					}
					if o := info.Defs[id]; o != nil && id.Name != "_" {
						ts := typ(o.Type())
						if strings.Contains(ts, "??") {
							ok = false
						}
						ds = append(ds, "var "+id.Name+" "+ts+"\n")
					}
				}
				if ok && !has(x.Rhs[0], func(m ast.Node) bool { id, ok := m.(*ast.Ident); return ok && lhsHas(x, id.Name) }) {
					emit("stmt-closure", x, ins(x.Pos(), strings.Join(ds, "")+"func() {\n"), edit{off(x.TokPos), off(x.TokPos) + 2, "="}, ins(x.End(), "\n}()"))
				}
				continue
			}
		}
		if !jumps(s) {
			emit("stmt-closure", s, ins(s.Pos(), "func() {\n"), ins(s.End(), "\n}()"))
		}
		_ = i
	}
}

func lhsHas(x *ast.AssignStmt, n string) bool {
	for _, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == n {
			return true
		}
	}
	return false
}
