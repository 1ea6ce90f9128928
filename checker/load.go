package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/yahoojapan/athenz-authorizer/v5"

// Prog is the type-checked program of /repo's working tree and its SSA form.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Mod   map[string]*ssa.Package // by path relative to the module, "" is the root
	Funcs []*ssa.Function         // every function of the module with a body
	gset  map[string]bool         // globals written outside of init
	users map[*ssa.Function]map[*ssa.Function]bool
	maps  map[string]*Term
	mapsD map[string]bool
	initE *Engine
}

func Load(root string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", root)
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{Root: root, Fset: prog.Fset, Pkgs: ps, SSA: prog, Mod: map[string]*ssa.Package{}, gset: map[string]bool{}, maps: map[string]*Term{}, mapsD: map[string]bool{}}
	for _, q := range prog.AllPackages() {
		if q.Pkg.Path() == modPath || strings.HasPrefix(q.Pkg.Path(), modPath+"/") {
			q.Build()
			p.Mod[strings.TrimPrefix(strings.TrimPrefix(q.Pkg.Path(), modPath), "/")] = q
		}
	}
	for _, q := range p.Mod {
		if q == nil {
			continue
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && p.Mod[relPkg(fn)] == fn.Pkg && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// methods and anonymous functions not reached by AllFunctions
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		if !seen[f] && f.Synthetic == "" {
			seen[f] = true
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, q := range p.Mod {
		for _, m := range q.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	for _, f := range p.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						switch y := a.(type) {
						case *ssa.FieldAddr:
							a = y.X
							continue
						case *ssa.IndexAddr:
							a = y.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok {
						p.gset[g.String()] = true
					}
				}
			}
		}
	}
	return p, nil
}

func relPkg(fn *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath), "/")
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		q := f.Pkg.Pkg.Path()
		return q == modPath || strings.HasPrefix(q, modPath+"/")
	}
	// wrappers and bound methods
	if o := f.Object(); o != nil && o.Pkg() != nil {
		q := o.Pkg().Path()
		return q == modPath || strings.HasPrefix(q, modPath+"/")
	}
	return false
}

func (p *Prog) immutableGlobal(name string) bool { return !p.gset[name] }

// NewEngine returns an engine whose memory holds the initial package variables.
func (p *Prog) NewEngine() *Engine {
	e := &Engine{P: p, MaxSteps: 3000000, Inlined: map[*ssa.Function]bool{}, init: map[*Term]*Term{}, loops: map[string]*LoopCtx{}, coarse: map[string]bool{}}
	if p.initE == nil {
		p.initE = e
		var names []string
		for n := range p.Mod {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f := p.Mod[n].Func("init")
			e.Opaque = func(g *ssa.Function) bool {
				return g.Name() == "init" && g != f || !strings.HasPrefix(g.Name(), "init") && len(g.Params) > 3
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(undecided); ok {
							fmt.Fprintln(os.Stderr, "init of", n, u.msg)
							return
						}
						panic(r)
					}
				}()
				st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, fidx: map[*Term]bool{}}
				st.assume(mkOp("gval", p.Mod[n].Pkg.Path()+".init$guard", boolT), false)
				for _, x := range e.Call(f, nil, nil, st, "init:"+n) {
					for k, v := range x.St.heap {
						e.init[mk(Term{Op: k.Op, Sym: k.Sym, Site: k.Site, Tag: k.Tag, Args: k.Args})] = v
						e.init[k] = v
						if k.Op == "glob" && v.Op == "newerr" && p.immutableGlobal(k.Sym) {
							globalNonNil[k.Sym] = true
							globalOwn[k.Sym] = true
						}
					}
				}
			}()
		}
		// aliases of error variables
		for k, v := range e.init {
			if k.Op == "glob" && v.Op == "gval" && globalNonNil[v.Sym] && p.immutableGlobal(k.Sym) {
				globalNonNil[k.Sym] = true
			}
		}
		e.Opaque = nil
		return p.NewEngine()
	}
	for k, v := range p.initE.init {
		e.init[k] = v
	}
	return e
}

// constMap is the value of an immutable package-level map with constant keys.
func (p *Prog) constMap(e *Engine, sym string) *Term {
	if p.mapsD[sym] {
		return p.maps[sym]
	}
	p.mapsD[sym] = true
	if !p.immutableGlobal(sym) {
		return nil
	}
	m := p.initE.init[mk(Term{Op: "glob", Sym: sym})]
	if m == nil || m.Op != "makemap" {
		return nil
	}
	var keys []string
	for k := range p.initE.init {
		if k.Op == "addrelem" && k.Sym == "map" && k.Args[0] == m && k.Args[1].isConst() {
			keys = append(keys, k.Args[1].String())
		}
	}
	sort.Strings(keys)
	uniq := keys[:0]
	for i, k := range keys {
		if i == 0 || k != keys[i-1] {
			uniq = append(uniq, k)
		}
	}
	// any other writer of the map in the module?
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok {
					if l, ok := u.Map.(*ssa.UnOp); ok {
						if g, ok := l.X.(*ssa.Global); ok && g.String() == sym {
							return nil
						}
					}
				}
			}
		}
	}
	t := mk(Term{Op: "constset", Sym: strings.Join(uniq, ",")})
	p.maps[sym] = t
	return t
}

// Func finds "pkg.Name" or "pkg.(*T).M".
func (p *Prog) Func(pkg, name string) *ssa.Function {
	q := p.Mod[pkg]
	if q == nil {
		return nil
	}
	if strings.HasPrefix(name, "(*") {
		i := strings.Index(name, ").")
		return p.Method(pkg, name[2:i], name[i+2:], true)
	}
	if i := strings.Index(name, "."); i > 0 {
		return p.Method(pkg, name[:i], name[i+1:], false)
	}
	return q.Func(name)
}

func (p *Prog) Method(pkg, typ, m string, ptr bool) *ssa.Function {
	q := p.Mod[pkg]
	if q == nil {
		return nil
	}
	t := q.Type(typ)
	if t == nil {
		return nil
	}
	var T types.Type = t.Type()
	if ptr {
		T = types.NewPointer(T)
	}
	if p.SSA.MethodSets.MethodSet(T).Lookup(q.Pkg, m) == nil {
		return nil
	}
	return p.SSA.LookupMethod(T, q.Pkg, m)
}

// Implementers of an interface of the module, by concrete type.
func (p *Prog) Implementers(pkg, iface string) []types.Type {
	q := p.Mod[pkg]
	if q == nil || q.Type(iface) == nil {
		return nil
	}
	it := q.Type(iface).Type().Underlying().(*types.Interface)
	var out []types.Type
	var names []string
	for n := range p.Mod {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var ms []string
		for m := range p.Mod[n].Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if t, ok := p.Mod[n].Members[m].(*ssa.Type); ok && !types.IsInterface(t.Type()) {
				if types.Implements(types.NewPointer(t.Type()), it) {
					out = append(out, types.NewPointer(t.Type()))
				}
			}
		}
	}
	return out
}

// ImplMethod is the method of the only implementer of an interface.
func (p *Prog) ImplMethod(pkg, iface, m string) (*ssa.Function, error) {
	ts := p.Implementers(pkg, iface)
	if len(ts) != 1 {
		return nil, fmt.Errorf("expected one implementation of %s.%s, found %d", pkg, iface, len(ts))
	}
	f := p.SSA.LookupMethod(ts[0], p.Mod[pkg].Pkg, m)
	if f == nil {
		return nil, fmt.Errorf("no method %s.%s.%s", pkg, iface, m)
	}
	return f, nil
}

func relFile(root, f string) string {
	r, err := filepath.Rel(root, f)
	if err != nil {
		return f
	}
	return r
}
