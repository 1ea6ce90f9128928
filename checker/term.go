package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed provenance term: where a value comes from, built from
// parameters, constants, field reads and call results. Two equal pointers mean
// "the same value" inside one abstract state.
type Term struct {
	Op   string
	Sym  string
	Args []*Term
	Tag  string // loop tag of a leaf: "id:c;" current iteration, "id:o;" an earlier one, "id:w;" the witness one
	Site string // static occurrence of an impure leaf
	Typ  types.Type
	Val  constant.Value
	Fn   *ssa.Function
	Lp   *LoopCtx
	id   int
	tags bool // some leaf carries a loop tag
	str  string
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Sym)
	b.WriteByte('|')
	b.WriteString(t.Tag)
	b.WriteByte('|')
	b.WriteString(t.Site)
	if t.Val != nil {
		b.WriteByte('|')
		b.WriteString(t.Val.Kind().String() + t.Val.ExactString())
	}
	if t.Lp != nil {
		b.WriteString("|L" + t.Lp.id)
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.Fn != nil {
		b.WriteString(fmt.Sprintf("|%p", t.Fn))
	}
	if t.Op == "param" && t.Typ != nil {
		b.WriteString("|" + t.Typ.String())
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	n := t
	n.id = len(termList) + 1
	n.tags = n.Tag != ""
	for _, a := range n.Args {
		if a.tags {
			n.tags = true
		}
	}
	termTab[k] = &n
	termList = append(termList, &n)
	return &n
}

func mkOp(op, sym string, typ types.Type, args ...*Term) *Term {
	return mk(Term{Op: op, Sym: sym, Typ: typ, Args: args})
}

var (
	tNil   = mk(Term{Op: "nil"})
	tTrue  = mk(Term{Op: "const", Val: constant.MakeBool(true), Typ: types.Typ[types.Bool]})
	tFalse = mk(Term{Op: "const", Val: constant.MakeBool(false), Typ: types.Typ[types.Bool]})
)

func kBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func kInt(i int64) *Term {
	return mk(Term{Op: "const", Val: constant.MakeInt64(i), Typ: types.Typ[types.Int]})
}
func kStr(s string) *Term {
	return mk(Term{Op: "const", Val: constant.MakeString(s), Typ: types.Typ[types.String]})
}
func kConst(v constant.Value, t types.Type) *Term {
	if v == nil {
		return tNil
	}
	return mk(Term{Op: "const", Val: v, Typ: t})
}

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) constInt() (int64, bool) {
	if t.Op == "const" && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}
func (t *Term) constStr() (string, bool) {
	if t.Op == "const" && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}
func (t *Term) constBool() (bool, bool) {
	if t.Op == "const" && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return kStr("")
		case u.Info()&types.IsInteger != 0:
			return kInt(0)
		case u.Info()&types.IsNumeric != 0:
			return mk(Term{Op: "const", Val: constant.MakeFloat64(0), Typ: t})
		case u.Kind() == types.UnsafePointer:
			return tNil
		}
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mkOp("agg", typeStr(t), t, args...)
	case *types.Tuple:
	}
	return mkOp("zero", typeStr(t), t)
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- arithmetic -----------------------------------------------------------

// splitAdd returns x, k for x+k; for a constant it returns nil, k.
func splitAdd(t *Term) (*Term, int64) {
	if k, ok := t.constInt(); ok {
		return nil, k
	}
	if t.Op == "bin" && t.Sym == "+" {
		if k, ok := t.Args[1].constInt(); ok {
			return t.Args[0], k
		}
	}
	return t, 0
}

func addK(x *Term, k int64, typ types.Type) *Term {
	b, c := splitAdd(x)
	k += c
	if b == nil {
		return kInt(k)
	}
	if k == 0 {
		return b
	}
	return mkOp("bin", "+", typ, b, kInt(k))
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func not(t *Term) *Term {
	if b, ok := t.constBool(); ok {
		return kBool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mkOp("not", "", types.Typ[types.Bool], t)
}

func binop(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return eqTerm(x, y)
	case token.NEQ:
		return not(eqTerm(x, y))
	case token.LSS:
		return ltTerm(x, y)
	case token.GTR:
		return ltTerm(y, x)
	case token.LEQ:
		return not(ltTerm(y, x))
	case token.GEQ:
		return not(ltTerm(x, y))
	}
	if x.isConst() && y.isConst() && x.Val.Kind() != constant.Bool {
		if x.Val.Kind() == constant.String && op == token.ADD {
			return kStr(constant.StringVal(x.Val) + constant.StringVal(y.Val))
		}
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return kConst(constant.BinaryOp(x.Val, op, y.Val), typ)
		case token.QUO, token.REM:
			if constant.Sign(y.Val) != 0 {
				o := op
				if op == token.QUO && isIntT(typ) {
					o = token.QUO_ASSIGN
				}
				return kConst(constant.BinaryOp(x.Val, o, y.Val), typ)
			}
		}
	}
	if op == token.ADD && isStringT(typ) {
		return concat(x, y)
	}
	if isIntT(typ) {
		switch op {
		case token.ADD:
			if k, ok := y.constInt(); ok {
				return addK(x, k, typ)
			}
			if k, ok := x.constInt(); ok {
				return addK(y, k, typ)
			}
			bx, kx := splitAdd(x)
			by, ky := splitAdd(y)
			if less(by, bx) {
				bx, by = by, bx
			}
			return addK(mkOp("sum", "", typ, bx, by), kx+ky, typ)
		case token.SUB:
			if k, ok := y.constInt(); ok {
				return addK(x, -k, typ)
			}
			if k, ok := x.constInt(); ok && k == 0 {
				return mkOp("neg", "", typ, y)
			}
			bx, kx := splitAdd(x)
			by, ky := splitAdd(y)
			if bx == by {
				return kInt(kx - ky)
			}
			if bx != nil && by != nil {
				return addK(mkOp("diff", "", typ, bx, by), kx-ky, typ)
			}
		case token.MUL:
			if less(y, x) {
				x, y = y, x
			}
			for i := 0; i < 2; i++ {
				if k, ok := x.constInt(); ok && k == -1 {
					return mkOp("neg", "", typ, y)
				} else if ok && k == 1 {
					return y
				}
				x, y = y, x
			}
		}
	}
	return mkOp("bin", op.String(), typ, x, y)
}

// emptiness of a string, slice or map is one atom however it is written
func emptyAtom(x *Term) *Term {
	if s, ok := x.constStr(); ok {
		return kBool(s == "")
	}
	switch x.Op {
	case "nil":
		return tTrue
	case "list":
		return kBool(len(x.Args) == 0)
	case "append":
		return tFalse
	case "appendall":
		for _, a := range x.Args {
			if e := emptyAtom(a); e == tFalse {
				return tFalse
			}
		}
	case "concat":
		for _, a := range x.Args {
			if s, ok := a.constStr(); ok && s != "" {
				return tFalse
			}
		}
	case "makeslice":
		if k, ok := x.Args[0].constInt(); ok {
			return kBool(k == 0)
		}
		return eqTerm(x.Args[0], kInt(0))
	case "splitn", "split":
		return tFalse
	case "conv":
		return emptyAtom(x.Args[0])
	case "trimseg":
	}
	return mkOp("empty", "", types.Typ[types.Bool], x)
}

func lenTerm(x *Term) *Term {
	if s, ok := x.constStr(); ok {
		return kInt(int64(len(s)))
	}
	switch x.Op {
	case "nil":
		return kInt(0)
	case "list":
		return kInt(int64(len(x.Args)))
	case "makeslice":
		return x.Args[0]
	case "conv":
		if x.Sym == "bytes" || x.Sym == "string" {
			return lenTerm(x.Args[0])
		}
	case "append":
		l := lenTerm(x.Args[0])
		if k, ok := l.constInt(); ok {
			return kInt(k + int64(len(x.Args)-1))
		}
		return addK(l, int64(len(x.Args)-1), types.Typ[types.Int])
	}
	return mkOp("len", "", types.Typ[types.Int], x)
}

// ltTerm is a canonical x<y.
func ltTerm(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		if x.Val.Kind() == constant.String {
			return kBool(constant.StringVal(x.Val) < constant.StringVal(y.Val))
		}
		return kBool(constant.Compare(x.Val, token.LSS, y.Val))
	}
	if x == y {
		return tFalse
	}
	if f := floatish(x) || floatish(y); f || isStringT(x.Typ) || isStringT(y.Typ) {
		return mkOp("lt", "", types.Typ[types.Bool], x, y)
	}
	// durations: t1.Sub(t2) < 0
	bx, kx := splitAdd(x)
	by, ky := splitAdd(y)
	k := ky - kx // bx < by + k
	if bx == by {
		return kBool(0 < k)
	}
	if bx == nil { // 0 < by + k  <=> !(by < 1-k)
		return not(ltConst(by, 1-k))
	}
	if by == nil {
		return ltConst(bx, k)
	}
	if less(bx, by) {
		return mkOp("lt", "", types.Typ[types.Bool], bx, addK(by, k, types.Typ[types.Int]))
	}
	return not(mkOp("lt", "", types.Typ[types.Bool], by, addK(bx, 1-k, types.Typ[types.Int])))
}

func floatish(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// ltConst is x < k for integer x.
func ltConst(x *Term, k int64) *Term {
	if x.Op == "len" || x.Op == "ctr" {
		if k <= 0 {
			return tFalse
		}
		if k == 1 && x.Op == "ctr" {
			return eqTerm(x, kInt(0))
		}
	}
	if x.Op == "len" {
		l := x.Args[0]
		if k == 1 {
			return emptyAtom(l)
		}
		if l.Op == "splitn" && len(l.Args) == 3 {
			if n, ok := l.Args[2].constInt(); ok && n == 2 {
				if k == 2 {
					return not(containsTerm(l.Args[0], l.Args[1]))
				}
				if k > 2 {
					return tTrue
				}
			}
		}
	}
	if x.Op == "diff" && (x.Args[0].Op == "ctr" || x.Args[1].Op == "ctr") { // a-b < k
		return ltTerm(x.Args[0], addK(x.Args[1], k, x.Args[1].Typ))
	}
	if x.Op == "timesub" {
		a, b := x.Args[0], x.Args[1] // a-b < k
		if k == 0 {
			return tltTerm(a, b)
		}
		if k == 1 {
			return not(tltTerm(b, a))
		}
	}
	if x.Op == "strcmp" {
		if k == 0 {
			return ltTerm(x.Args[0], x.Args[1])
		}
	}
	if x.Op == "index" { // strings.Index(s, sep) < 0
		if k == 0 {
			return not(containsTerm(x.Args[0], x.Args[1]))
		}
		if k < 0 {
			return tFalse
		}
	}
	return mkOp("lt", "", types.Typ[types.Bool], x, kInt(k))
}

func tltTerm(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	return mkOp("tlt", "", types.Typ[types.Bool], a, b)
}

func containsTerm(s, sep *Term) *Term {
	if a, ok := s.constStr(); ok {
		if b, ok := sep.constStr(); ok {
			return kBool(strings.Contains(a, b))
		}
	}
	return mkOp("contains", "", types.Typ[types.Bool], s, sep)
}

func eqfoldTerm(a, b *Term) *Term {
	a, b = unfold(a), unfold(b)
	if a == b {
		return tTrue
	}
	if x, ok := a.constStr(); ok {
		if y, ok := b.constStr(); ok {
			return kBool(strings.EqualFold(x, y))
		}
	}
	if less(b, a) {
		a, b = b, a
	}
	return mkOp("eqfold", "", types.Typ[types.Bool], a, b)
}

func unfold(a *Term) *Term {
	for a.Op == "lower" || a.Op == "upper" {
		a = a.Args[0]
	}
	if s, ok := a.constStr(); ok {
		return kStr(strings.ToLower(s))
	}
	return a
}

func isLowerConst(t *Term) bool {
	s, ok := t.constStr()
	return ok && strings.ToLower(s) == s
}

func eqTerm(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.isConst() && y.isConst() {
		if x.Val.Kind() == y.Val.Kind() || (x.Val.Kind() != constant.String && x.Val.Kind() != constant.Bool && y.Val.Kind() != constant.String && y.Val.Kind() != constant.Bool) {
			return kBool(constant.Compare(x.Val, token.EQL, y.Val))
		}
		return tFalse
	}
	if y == tNil {
		x, y = y, x
	}
	if x == tNil {
		return nilAtom(y)
	}
	if x.Op == "gval" && y.Op == "gval" && globalOwn[x.Sym] && globalOwn[y.Sym] {
		return kBool(x.Sym == y.Sym)
	}
	if x.Op == "gval" && globalOwn[x.Sym] && y.Op == "newerr" || y.Op == "gval" && globalOwn[y.Sym] && x.Op == "newerr" {
		return tFalse
	}
	if x.isConst() {
		x, y = y, x
	}
	if b, ok := y.constBool(); ok {
		if b {
			return x
		}
		return not(x)
	}
	if s, ok := y.constStr(); ok && s == "" {
		return emptyAtom(x)
	}
	if (x.Op == "lower" && y.Op == "lower") || (x.Op == "upper" && y.Op == "upper") {
		return eqfoldTerm(x.Args[0], y.Args[0])
	}
	if x.Op == "lower" && isLowerConst(y) {
		return eqfoldTerm(x.Args[0], y)
	}
	if y.Op == "lower" && isLowerConst(x) {
		return eqfoldTerm(y.Args[0], x)
	}
	if x.Op == "elem" && isStringT(x.Args[0].Typ) { // s[0] == 'c', where it is evaluated
		i, ok := x.Args[1].constInt()
		if k, isK := y.constInt(); ok && isK && i == 0 && k >= 0 && k < 128 {
			return hasPrefix(x.Args[0], kStr(string(rune(k))))
		}
	}
	if isIntT(x.Typ) && isIntT(y.Typ) || x.Op == "len" || y.Op == "len" {
		bx, kx := splitAdd(x)
		by, ky := splitAdd(y)
		if bx == by {
			return kBool(kx == ky)
		}
		if by == nil {
			k := ky - kx
			if bx.Op == "len" {
				if k == 0 {
					return emptyAtom(bx.Args[0])
				}
				if k < 0 {
					return tFalse
				}
				l := bx.Args[0]
				if l.Op == "splitn" && len(l.Args) == 3 {
					if n, ok := l.Args[2].constInt(); ok && n == 2 {
						switch k {
						case 1:
							return not(containsTerm(l.Args[0], l.Args[1]))
						case 2:
							return containsTerm(l.Args[0], l.Args[1])
						default:
							return tFalse
						}
					}
				}
			}
			if bx.Op == "index" {
				if k == -1 {
					return not(containsTerm(bx.Args[0], bx.Args[1]))
				}
				if k < -1 {
					return tFalse
				}
			}
			if bx.Op == "strcmp" && k == 0 {
				return eqTerm(bx.Args[0], bx.Args[1])
			}
			return mkOp("eq", "", types.Typ[types.Bool], bx, kInt(k))
		}
		if bx != nil {
			if less(by, bx) {
				bx, by, kx, ky = by, bx, ky, kx
			}
			return mkOp("eq", "", types.Typ[types.Bool], bx, addK(by, ky-kx, types.Typ[types.Int]))
		}
	}
	if !y.isConst() && less(y, x) {
		x, y = y, x
	}
	return mkOp("eq", "", types.Typ[types.Bool], x, y)
}

func nilAtom(x *Term) *Term {
	switch x.Op {
	case "nil":
		return tTrue
	case "const", "alloc", "addr", "newerr", "closure", "fn", "glob", "makeslice", "makemap", "makechan", "agg", "list", "append", "typednil", "concat", "addrelem":
		return tFalse
	case "wrap":
		return nilAtom(x.Args[0])
	case "gval":
		if globalNonNil[x.Sym] {
			return tFalse
		}
	}
	return mkOp("eq", "", types.Typ[types.Bool], tNil, x)
}

var globalNonNil = map[string]bool{}

// globalOwn are the error variables with an error value of their own.
var globalOwn = map[string]bool{}

// concat is a normalised string concatenation.
func concat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == "concat" {
			for _, a := range p.Args {
				add(a)
			}
			return
		}
		if s, ok := p.constStr(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if q, ok := out[n-1].constStr(); ok {
					out[n-1] = kStr(q + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return kStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkOp("concat", "", types.Typ[types.String], out...)
}

func ext(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	return mkOp("ext", strconv.Itoa(i), typ, t)
}

func selTerm(x *Term, f string, typ types.Type) *Term {
	if x.Op == "agg" {
		if st, ok := x.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					return x.Args[i]
				}
			}
		}
	}
	if x.Op == "deref" {
		x = x.Args[0]
	}
	return mkOp("sel", f, typ, x)
}

func elemTerm(l, i *Term, typ types.Type) *Term {
	if k, ok := i.constInt(); ok {
		switch l.Op {
		case "list":
			if k >= 0 && int(k) < len(l.Args) {
				return l.Args[k]
			}
		case "splitn":
			n, ok := l.Args[2].constInt()
			if ok && n == 2 {
				if k == 0 {
					return mkOp("before", "", types.Typ[types.String], l.Args[0], l.Args[1])
				}
				if k == 1 {
					return mkOp("after", "", types.Typ[types.String], l.Args[0], l.Args[1])
				}
			}
		}
	}
	return mkOp("elem", "", typ, l, i)
}

// ---- substitution ----------------------------------------------------------

// rebuild maps the leaves of t.
func rebuild(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if m, ok := memo[t]; ok {
		return m
	}
	r := f(t)
	if r == t && len(t.Args) > 0 {
		changed := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rebuild(a, f, memo)
			if args[i] != a {
				changed = true
			}
		}
		if changed {
			n := *t
			n.Args = args
			n.str = ""
			r = reMk(n)
		}
	}
	memo[t] = r
	return r
}

// reMk re-normalises the interpreted operators.
func reMk(n Term) *Term {
	switch n.Op {
	case "lt":
		return ltTerm(n.Args[0], n.Args[1])
	case "eq":
		return eqTerm(n.Args[0], n.Args[1])
	case "not":
		return not(n.Args[0])
	case "empty":
		return emptyAtom(n.Args[0])
	case "len":
		return lenTerm(n.Args[0])
	case "tlt":
		return tltTerm(n.Args[0], n.Args[1])
	case "eqfold":
		return eqfoldTerm(n.Args[0], n.Args[1])
	case "concat":
		return concat(n.Args...)
	case "elem":
		return elemTerm(n.Args[0], n.Args[1], n.Typ)
	case "bin":
		if n.Sym == "+" && isIntT(n.Typ) {
			return binop(token.ADD, n.Args[0], n.Args[1], n.Typ)
		}
	case "contains":
		return containsTerm(n.Args[0], n.Args[1])
	}
	return mk(n)
}

func setTag(tag, id, v string) string {
	i := strings.Index(tag, id+":")
	if i < 0 {
		return tag
	}
	j := i + len(id) + 1
	return tag[:j] + v + tag[j+1:]
}

func getTag(tag, id string) string {
	i := strings.Index(tag, id+":")
	if i < 0 {
		return ""
	}
	return tag[i+len(id)+1 : i+len(id)+2]
}

// hasTag reports whether some leaf of t carries loop id with value v ("" any).
func hasTag(t *Term, id, v string) bool {
	if !t.tags {
		return false
	}
	if t.Tag != "" {
		g := getTag(t.Tag, id)
		if g != "" && (v == "" || g == v) {
			return true
		}
	}
	for _, a := range t.Args {
		if hasTag(a, id, v) {
			return true
		}
	}
	return false
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

// walk visits every subterm.
func walk(t *Term, f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		walk(a, f)
	}
}

// ---- printing ----------------------------------------------------------------

func shortFn(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "authorizerd.")
	return s
}

// String prints a term without sites and loop tags: specifications compare these texts.
func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	a := func(i int) string { return t.Args[i].String() }
	all := func(from int) string {
		var s []string
		for i := from; i < len(t.Args); i++ {
			s = append(s, a(i))
		}
		return strings.Join(s, ", ")
	}
	var s string
	switch t.Op {
	case "nil":
		s = "nil"
	case "const":
		if x, ok := t.constStr(); ok {
			s = strconv.Quote(x)
		} else {
			s = t.Val.ExactString()
		}
	case "param":
		s = t.Sym
	case "sel":
		s = a(0) + "." + t.Sym
	case "deref":
		s = "*" + a(0)
	case "addr":
		s = "&" + a(0) + "." + t.Sym
	case "addrelem":
		s = "&" + a(0) + "[" + a(1) + "]"
	case "elem":
		s = a(0) + "[" + a(1) + "]"
	case "lookup":
		s = a(0) + "{" + a(1) + "}"
	case "has":
		s = "has(" + all(0) + ")"
	case "call":
		s = shortFn(t.Sym) + "(" + all(0) + ")"
	case "ext":
		s = a(0) + "#" + t.Sym
	case "ctr":
		s = "it"
	case "eq":
		s = "(" + a(0) + " == " + a(1) + ")"
	case "lt":
		s = "(" + a(0) + " < " + a(1) + ")"
	case "tlt":
		s = "(" + a(0) + " <t " + a(1) + ")"
	case "not":
		s = "!" + a(0)
	case "bin":
		s = "(" + a(0) + " " + t.Sym + " " + a(1) + ")"
	case "alloc":
		s = "new(" + shortFn(typeStr(t.Typ)) + ")"
	case "closure":
		s = "func:" + shortFn(t.Fn.String()) + "{" + all(0) + "}"
	case "fn":
		s = "func:" + shortFn(t.Sym)
	case "gval":
		s = shortFn(t.Sym)
	case "glob":
		s = "&" + shortFn(t.Sym)
	case "agg":
		s = shortFn(t.Sym) + "{" + all(0) + "}"
	case "istype":
		s = "istype(" + a(0) + ", " + shortFn(t.Sym) + ")"
	case "wide":
		s = "wide(" + t.Sym + ")"
	default:
		s = t.Op
		if t.Sym != "" {
			s += "[" + shortFn(t.Sym) + "]"
		}
		s += "(" + all(0) + ")"
	}
	t.str = s
	return s
}

// less orders terms by text, so that the canonical forms do not depend on the exploration order
func less(a, b *Term) bool {
	x, y := a.String(), b.String()
	if x != y {
		return x < y
	}
	return a.id < b.id
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
