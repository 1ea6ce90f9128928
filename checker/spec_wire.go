package main

import (
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wireField is where a named member of a JSON document has to be decoded to.
type wireField struct {
	field string
	typ   string // of a leaf
	sub   map[string]wireField
}

var wireClaims = map[string]wireField{
	"client_id": {field: "ClientID", typ: "string"},
	"scp":       {field: "Scope", typ: "[]string"},
	"cnf":       {field: "Confirm", typ: "map[string]any"},
	"aud":       {field: "Audience", typ: "string"},
	"sub":       {field: "Subject", typ: "string"},
	"iat":       {field: "IssuedAt", typ: "int64"},
	"exp":       {field: "ExpiresAt", typ: "int64"},
	"nbf":       {field: "NotBefore", typ: "int64"},
}

var wireKeys = map[string]wireField{
	"publicKeys": {field: "PublicKeys", sub: map[string]wireField{
		"id":  {field: "ID", typ: "string"},
		"key": {field: "Key", typ: "string"},
	}},
}

var wirePolicy = map[string]wireField{
	"keyId":     {field: "KeyId", typ: "string"},
	"signature": {field: "Signature", typ: "string"},
	"signedPolicyData": {field: "SignedPolicyData", sub: map[string]wireField{
		"expires":      {field: "Expires", typ: "*github.com/ardielle/ardielle-go/rdl.Timestamp"},
		"modified":     {field: "Modified", typ: "*github.com/ardielle/ardielle-go/rdl.Timestamp"},
		"zmsKeyId":     {field: "ZmsKeyId", typ: "string"},
		"zmsSignature": {field: "ZmsSignature", typ: "string"},
		"policyData": {field: "PolicyData", sub: map[string]wireField{
			"domain": {field: "Domain", typ: "string"},
			"policies": {field: "Policies", sub: map[string]wireField{
				"assertions": {field: "Assertions", sub: map[string]wireField{
					"action":   {field: "Action", typ: "string"},
					"effect":   {field: "Effect", typ: "string"},
					"resource": {field: "Resource", typ: "string"},
					"role":     {field: "Role", typ: "string"},
				}},
			}},
		}},
	}},
}

// wire: a type is decoded from the documented members, by the rules of encoding/json alone.
func (c *Ctx) wire(pkg, name string, want map[string]wireField) {
	var t types.Type
	if p := c.P.Mod[pkg]; p != nil {
		if o, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			t = o.Type()
		}
	}
	if t == nil {
		c.lost("anchor not found: type %s of package %q", name, pkg)
	}
	c.wireType(name, t, want, nil)
}

type jsonField struct {
	path   string
	typ    types.Type
	depth  int
	tagged bool
	quoted bool
	pos    token.Pos
}

func (c *Ctx) wireType(what string, t types.Type, want map[string]wireField, busy []types.Type) {
	for i := 0; i < 8; i++ {
		c.ownCoding(what, t)
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	st, ok := t.Underlying().(*types.Struct)
	if !c.ob("wire-type", what, ok, 0, nil, "%s is not decoded into a structure but into %s", what, t) {
		return
	}
	fields := map[string][]jsonField{}
	c.jsonFields(what, st, "", 0, fields, map[types.Type]bool{})
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w := want[n]
		f, ok := dominant(fields[n])
		if !c.ob("wire-name", what+"."+n, ok && !f.quoted, f.pos, nil, "the member %q of %s is not decoded", n, what) {
			continue
		}
		last := f.path[strings.LastIndex(f.path, ".")+1:]
		c.ob("wire-field", what+"."+n, last == w.field, f.pos, nil, "the member %q of %s is decoded into %s", n, what, f.path)
		// names are compared without regard to case: another member must not be taken for this one
		for m := range fields {
			c.ob("wire-alias", what+"."+n, m == n || !strings.EqualFold(m, n), f.pos, nil, "the members %q and %q of %s are mixed up", n, m, what)
		}
		if w.sub != nil {
			c.wireType(what+"."+n, f.typ, w.sub, busy)
			continue
		}
		got := strings.ReplaceAll(types.TypeString(f.typ, nil), "interface{}", "any")
		c.ob("wire-leaf", what+"."+n, got == w.typ, f.pos, nil, "the member %q of %s is decoded as %s", n, what, got)
	}
}

// ownCoding: no type of the library decodes or encodes itself.
func (c *Ctx) ownCoding(what string, t types.Type) {
	n, ok := t.(*types.Named)
	if !ok {
		return
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for _, m := range []string{"UnmarshalJSON", "MarshalJSON", "UnmarshalText", "MarshalText"} {
		sel := ms.Lookup(n.Obj().Pkg(), m)
		if sel == nil {
			c.ob("wire-own", what, true, 0, nil, "")
			continue
		}
		c.ob("wire-own", what, false, sel.Obj().Pos(), nil, "%s has an own %s", n.Obj().Name(), m)
	}
}

func (c *Ctx) jsonFields(what string, st *types.Struct, path string, depth int, out map[string][]jsonField, busy map[types.Type]bool) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		t := f.Type()
		if f.Anonymous() && name == "" {
			u := t
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem()
			}
			if s, ok := u.Underlying().(*types.Struct); ok {
				c.ownCoding(what, u)
				if !busy[u] {
					busy[u] = true
					c.jsonFields(what, s, path+"."+f.Name(), depth+1, out, busy)
					busy[u] = false
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		j := jsonField{path: path + "." + f.Name(), typ: t, depth: depth, tagged: name != "", pos: f.Pos()}
		for _, o := range parts[1:] {
			j.quoted = j.quoted || o == "string"
		}
		if name == "" {
			name = f.Name()
		}
		out[name] = append(out[name], j)
	}
}

// dominant is the field which encoding/json uses for a name.
func dominant(l []jsonField) (jsonField, bool) {
	if len(l) == 0 {
		return jsonField{}, false
	}
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].depth != l[j].depth {
			return l[i].depth < l[j].depth
		}
		return l[i].tagged && !l[j].tagged
	})
	if len(l) > 1 && l[0].depth == l[1].depth && l[0].tagged == l[1].tagged {
		return l[0], false
	}
	return l[0], true
}

// foreignState: the package variables and registries of the given dependencies are left as they are.
func (c *Ctx) foreignState(rule, pkgRe, callRe string) {
	re := regexp.MustCompile(pkgRe)
	n := 0
	foreign := func(v ssa.Value) *ssa.Global {
		g := rootGlobal(v)
		if g == nil || g.Pkg == nil {
			return nil
		}
		p := g.Pkg.Pkg.Path()
		if p == modPath || strings.HasPrefix(p, modPath+"/") || !re.MatchString(p) {
			return nil
		}
		return g
	}
	c.P.allBodies(func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var at ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					at = x.Addr
				case *ssa.MapUpdate:
					at = x.Map
				case ssa.CallInstruction:
					if s := x.Common().StaticCallee(); s != nil && callRe != "" && rx(callRe).MatchString(s.String()) {
						c.ob(rule, shortFn(f.String()), false, in.Pos(), nil, "%s changes what the library takes for granted", s.String())
					}
					continue
				default:
					continue
				}
				n++
				g := foreign(at)
				if g != nil {
					c.ob(rule, shortFn(f.String()), false, in.Pos(), nil, "%s is changed", g.String())
				}
			}
		}
	})
	c.ob(rule, "stores", n > 0, 0, nil, "no stores found")
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 32; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

const (
	tokenLibs  = `golang-jwt/|lestrrat-go/|^crypto(/|$)|^math/big|^encoding/|kpango/|AthenZ/|^time$|^sync|^errors$|pkg/errors`
	tokenCalls = `golang-jwt/jwt/v4\.(Register|.*SetDefault)|^github\.com/lestrrat-go/.*\.(Register\w*|Unregister\w*|Settings|Configure\w*|DecoderSettings|AddHeader\w*)$`
)

// stores counts the assignments to a package variable, its initialisation included.
func (p *Prog) stores(sym string) int {
	n := 0
	p.allBodies(func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.String() == sym {
						n++
					}
				}
			}
		}
	})
	return n
}

// allBodies visits every function of the module and the initialisers of its packages.
func (p *Prog) allBodies(do func(*ssa.Function)) {
	for _, f := range p.Funcs {
		do(f)
	}
	for _, m := range p.Mod {
		if m == nil {
			continue
		}
		if f := m.Func("init"); f != nil {
			do(f)
			for _, a := range f.AnonFuncs {
				seen := false
				for _, g := range p.Funcs {
					seen = seen || g == a
				}
				if !seen {
					do(a)
				}
			}
		}
	}
}

// elementsKept: the elements of a package's list are only set by its initialisation.
func (c *Ctx) elementsKept(rule, name string) {
	for path, m := range c.P.Mod {
		g, _ := m.Members[name].(*ssa.Global)
		if g == nil {
			continue
		}
		c.P.allBodies(func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr != ssa.Value(g) && rootGlobal(s.Addr) == g {
						c.ob(rule, path+"."+name, false, in.Pos(), nil, "an element of %s is replaced", name)
					}
				}
			}
		})
		c.ob(rule, path+"."+name, true, g.Pos(), nil, "")
	}
}

// lenient: answers with members that are not known are decoded.
func (c *Ctx) lenient(pkg string) {
	n := 0
	for _, f := range c.P.Funcs {
		if relPkg(f) != pkg {
			continue
		}
		for _, s := range callSites(f) {
			n++
			c.ob("decode-lenient", shortFn(f.String()), !strings.HasSuffix(s.name, "encoding/json.Decoder).DisallowUnknownFields"), s.in.Pos(), nil, "answers with members that are not known are refused")
		}
	}
	c.ob("decode-lenient", pkg, n > 0, 0, nil, "no calls found")
}

func init() {
	register(&Check{ID: "C39", Min: 60, Rule: "the members of claim sets, key lists and signed policies that the library uses are decoded by encoding/json's rules from their documented names into the fields of those names and types, no type decodes or encodes itself, no other field takes their place, and unknown members are ignored", Run: specC39})
}

func specC39(c *Ctx) {
	c.wire("access", "OAuth2AccessTokenClaim", wireClaims)
	c.wire("pubkey", "SysAuthConfig", wireKeys)
	c.wire("policy", "SignedPolicy", wirePolicy)
	c.lenient("pubkey")
	c.lenient("policy")
	tables := map[string]map[string]wireField{"access": wireClaims, "pubkey": wireKeys, "policy": wirePolicy}
	n := 0
	for _, f := range c.P.Funcs {
		t := tables[relPkg(f)]
		if t == nil {
			continue
		}
		for _, s := range callSites(f) {
			i := -1
			switch {
			case s.name == "(*encoding/json.Decoder).Decode", s.name == "encoding/json.Unmarshal", strings.HasSuffix(s.name, "jwt/v4.ParseWithClaims"), strings.HasSuffix(s.name, "jwt/v4.Parser).ParseWithClaims"), strings.HasSuffix(s.name, "jwt/v4.Parser).ParseUnverified"):
				i = 1
				if strings.Contains(s.name, "jwt/v4.Parser)") {
					i = 2
				}
			default:
				continue
			}
			c.fns[shortFn(f.String())] = true
			v := s.in.Common().Args[i]
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			if types.IsInterface(v.Type()) {
				continue // a helper, its callers give the type
			}
			n++
			c.wireType("decoded in "+shortFn(f.String()), v.Type(), t, nil)
		}
	}
	c.ob("decoded", "calls", n >= 1, 0, nil, "nothing is decoded")
	// the answers are decoded as JSON and not by another decoder
	for _, f := range c.P.Funcs {
		if tables[relPkg(f)] == nil {
			continue
		}
		for _, s := range callSites(f) {
			c.ob("json", shortFn(f.String()), !rx(`^\(?\*?encoding/(gob|xml|asn1)\.|json\.Decoder\)\.UseNumber`).MatchString(s.name), s.in.Pos(), nil, "%s decodes another format", s.name)
		}
	}
}
