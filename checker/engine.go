package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is a path-sensitive forward dataflow analysis: sets of abstract
// states (provenance of values, branch facts, effects) are propagated through
// the control-flow graph to a fixpoint, module-internal callees inlined.
type Engine struct {
	P        *Prog
	Opaque   func(*ssa.Function) bool // module functions kept opaque
	Steps    int
	MaxSteps int
	Failed   string // the analysis gave up: undecided
	Inlined  map[*ssa.Function]bool
	depth    int
	init     map[*Term]*Term
	loops    map[string]*LoopCtx
	coarse   map[string]bool
	// statistics
	Paths int
	// operations which may panic, when they are looked for
	Risks   map[string]*Risk
	Checked map[ssa.Instruction]bool
}

const maxDepth = 24

type undecided struct{ msg string }

// restart begins the analysis again with one more loop summarised coarsely.
type restart struct{}

func (e *Engine) fail(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

type frame struct {
	fn   *ssa.Function
	path string // call path, makes sites unique
	free map[*ssa.FreeVar]*Term
	info *fnInfo
	out  *[]*Exit
}

// fnInfo is the loop structure of a function.
type fnInfo struct {
	hdr  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	ctrs map[*ssa.Phi]ctrInfo
	// variables in memory (captured by closures) which a loop counts up or down
	cells map[*ssa.BasicBlock][]ctrCell
}

type ctrCell struct {
	cell *ssa.Alloc
	step int64
}

// ctrCells finds the variables which closures read and the loops count.
func (inf *fnInfo) ctrCells(fn *ssa.Function) {
	inf.cells = map[*ssa.BasicBlock][]ctrCell{}
	var onlyRead func(f *ssa.Function, fv ssa.Value) bool
	onlyRead = func(f *ssa.Function, fv ssa.Value) bool {
		for _, r := range *fv.Referrers() {
			switch u := r.(type) {
			case *ssa.DebugRef, *ssa.UnOp:
			case *ssa.MakeClosure:
				g := u.Fn.(*ssa.Function)
				for i, b := range u.Bindings {
					if b == fv && !onlyRead(g, g.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || !a.Heap || !isIntT(deref(a.Type())) {
				continue
			}
			var stores []*ssa.Store
			for _, r := range *a.Referrers() {
				switch u := r.(type) {
				case *ssa.Store:
					ok = ok && u.Addr == a
					stores = append(stores, u)
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.MakeClosure:
					g := u.Fn.(*ssa.Function)
					for i, b := range u.Bindings {
						ok = ok && (b != a || onlyRead(g, g.FreeVars[i]))
					}
				default:
					ok = false
				}
			}
			if !ok {
				continue
			}
			for h, body := range inf.hdr {
				if body[a.Block()] {
					continue
				}
				var st *ssa.Store
				n := 0
				for _, s := range stores {
					if body[s.Block()] {
						st = s
						n++
					}
				}
				if n != 1 {
					continue
				}
				bo, ok := st.Val.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.Block() != st.Block() {
					continue
				}
				ld, ok := bo.X.(*ssa.UnOp)
				k, ok2 := bo.Y.(*ssa.Const)
				if !ok || !ok2 || ld.X != a || ld.Block() != st.Block() || k.Value == nil || k.Value.String() != "1" {
					continue
				}
				for _, p := range h.Preds {
					ok = ok && (!body[p] || st.Block().Dominates(p))
				}
				for h2, body2 := range inf.hdr {
					ok = ok && (h2 == h || !body[h2] || !body2[st.Block()])
				}
				if ok {
					step := int64(1)
					if bo.Op == token.SUB {
						step = -1
					}
					inf.cells[h] = append(inf.cells[h], ctrCell{a, step})
				}
			}
		}
	}
}

type ctrInfo struct {
	step int64
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	inf := &fnInfo{hdr: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ctrs: map[*ssa.Phi]ctrInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := inf.hdr[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					inf.hdr[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for h, body := range inf.hdr {
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isIntT(phi.Type()) {
				continue
			}
			step := int64(0)
			good := true
			for i, p := range h.Preds {
				if !body[p] {
					continue
				}
				b, ok := phi.Edges[i].(*ssa.BinOp)
				if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != phi {
					good = false
					break
				}
				c, ok := b.Y.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					good = false
					break
				}
				k, _ := constant.Int64Val(c.Value)
				if b.Op == token.SUB {
					k = -k
				}
				if step != 0 && step != k {
					good = false
					break
				}
				step = k
			}
			// the increment must dominate every back edge
			if good && (step == 1 || step == -1) {
				inf.ctrs[phi] = ctrInfo{step}
			}
		}
	}
	inf.ctrCells(fn)
	fnInfos[fn] = inf
	return inf
}

// Call analyses fn on args from state st and returns every exit class.
func (e *Engine) Call(fn *ssa.Function, args []*Term, free []*Term, st *State, path string) []*Exit {
	if e.depth > maxDepth {
		e.fail("call depth exceeded at %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	e.Inlined[fn] = true
	fr := &frame{fn: fn, path: path, free: map[*ssa.FreeVar]*Term{}, info: infoOf(fn)}
	for i, fv := range fn.FreeVars {
		fr.free[fv] = free[i]
	}
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	s.defers = nil
	nl := len(s.loops)
	nr := len(s.rounds)
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		} else {
			s.env[p] = mkOp("zero", typeStr(p.Type()), p.Type())
		}
	}
	var out []*Exit
	fr.out = &out
	if len(fn.Blocks) == 0 {
		e.fail("no body: %s", fn)
	}
	e.block(fr, s, fn.Blocks[0], nil)
	// merge equal exits
	seen := map[string]bool{}
	var res []*Exit
	for _, x := range out {
		x.St.env = nil
		x.St.defers = nil
		if len(x.St.loops) > nl {
			x.St.loops = x.St.loops[:nl]
		}
		if len(x.St.rounds) > nr {
			x.St.rounds = x.St.rounds[:nr]
		}
		k := x.St.memKey()
		for _, r := range x.Res {
			k += "#" + strconv.Itoa(r.id)
		}
		if x.Panic {
			k += "!"
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		res = append(res, x)
	}
	return res
}

func (e *Engine) site(fr *frame, st *State, in ssa.Instruction) string {
	return fr.path + "/" + instrID(in) + e.roundTag(st)
}

var instrIDs = map[ssa.Instruction]string{}

func instrID(in ssa.Instruction) string {
	if s, ok := instrIDs[in]; ok {
		return s
	}
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			instrIDs[i] = fn.Name() + "." + strconv.Itoa(n)
			n++
		}
	}
	return instrIDs[in]
}

// block enters blk from pred.
func (e *Engine) block(fr *frame, st *State, blk, pred *ssa.BasicBlock) {
	e.Steps++
	if e.Steps > e.MaxSteps {
		e.fail("state budget exceeded in %s", fr.fn)
	}
	// leave the loops that do not contain blk
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.depth != e.depth || fr.info.hdr[l.hdr][blk] {
			break
		}
		e.leaveLoop(st)
	}
	for len(st.rounds) > 0 {
		l := st.rounds[len(st.rounds)-1]
		if l.depth != e.depth || fr.info.hdr[l.hdr][blk] {
			break
		}
		st.rounds = st.rounds[:len(st.rounds)-1]
	}
	if body, ok := fr.info.hdr[blk]; ok {
		if pred != nil && body[pred] && len(st.loops) > 0 && st.loops[len(st.loops)-1].hdr == blk {
			for _, s := range e.splitFlags(fr, st, blk, pred) {
				e.backEdge(fr, s, blk, pred)
			}
			return
		}
		e.enterLoop(fr, st, blk, pred)
		return
	}
	// ordinary phis
	var vals []*Term
	n := 0
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, p := range blk.Preds {
			if p == pred {
				vals = append(vals, e.val(fr, st, phi.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		st.env[blk.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	e.step(fr, st, blk, n)
}

func (e *Engine) leaveLoop(st *State) {
	l := st.loops[len(st.loops)-1]
	st.loops = st.loops[:len(st.loops)-1]
	// events of the current partial iteration stay; mark the loop before them
	ev := &Event{Kind: "loop", First: l.first, Loop: l.ctx, Pos: l.hdr.Instrs[0].Pos(), Fn: l.ctx.fn}
	// keep [..evN) events, loop marker, then the rest
	rest := append([]*Event(nil), st.events[l.evN:]...)
	pre := st.events[:l.evN:l.evN]
	st.events = append(append(append([]*Event(nil), pre...), ev), rest...)
}

// unroll follows a loop whose counter and bound are known round by round.
func (e *Engine) unroll(fr *frame, st *State, blk, pred *ssa.BasicBlock) bool {
	br, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var keys []*Term
	if len(blk.Instrs) > 0 {
		for _, in := range blk.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				keys = e.knownKeys(st, e.val(fr, st, nx.Iter).Args[0])
			}
		}
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if len(keys) > 0 {
		return e.nextRound(fr, st, blk, pred, nil, keys)
	}
	if !ok || c.Block() != blk || c.Op != token.LSS && c.Op != token.LEQ {
		return false
	}
	var ctr *ssa.Phi
	switch x := c.X.(type) {
	case *ssa.Phi:
		ctr = x
	case *ssa.BinOp:
		ctr, _ = x.X.(*ssa.Phi)
	}
	if ctr == nil || ctr.Block() != blk {
		return false
	}
	if in, ok := fr.info.ctrs[ctr]; !ok || in.step != 1 {
		return false
	}
	if in, ok := c.Y.(ssa.Instruction); ok && fr.info.hdr[blk][in.Block()] {
		return false
	}
	if _, ok := e.val(fr, st, c.Y).intVal(maxRounds); !ok {
		return false
	}
	return e.nextRound(fr, st, blk, pred, ctr, nil)
}

// knownKeys are the keys of a map of which every entry is known.
func (e *Engine) knownKeys(st *State, m *Term) (keys []*Term) {
	if m.Op != "makemap" || st.heap[mkOp("addr", "$set", nil, m)] != kStr("whole") {
		return nil
	}
	for a := range st.heap {
		if a.Op == "addrelem" && a.Sym == "map" && a.Args[0] == m {
			keys = append(keys, a.Args[1])
		}
	}
	sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	if len(keys) > maxRounds {
		return nil
	}
	return
}

func (e *Engine) nextRound(fr *frame, st *State, blk, pred *ssa.BasicBlock, ctr *ssa.Phi, keys []*Term) bool {
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range blk.Preds {
			if p == pred {
				phis = append(phis, phi)
				vals = append(vals, e.val(fr, st, phi.Edges[i]))
				break
			}
		}
		if phi == ctr {
			if _, ok := vals[len(vals)-1].intVal(maxRounds); !ok {
				return false
			}
		}
	}
	if n := len(st.rounds); n > 0 && st.rounds[n-1].hdr == blk && st.rounds[n-1].depth == e.depth {
		st.rounds[n-1].n++
	} else {
		st.rounds = append(st.rounds, round{hdr: blk, depth: e.depth, keys: keys})
	}
	for i, phi := range phis {
		st.env[phi] = vals[i]
	}
	e.step(fr, st, blk, len(phis))
	return true
}

const maxRounds = 8

// intVal: a constant between -1 and max.
func (t *Term) intVal(max int64) (int64, bool) {
	if t == nil || t.Op != "const" || t.Val == nil || t.Val.Kind() != constant.Int {
		return 0, false
	}
	v, ok := constant.Int64Val(t.Val)
	return v, ok && v >= -1 && v <= max
}

func (e *Engine) enterLoop(fr *frame, st *State, blk, pred *ssa.BasicBlock) {
	if e.unroll(fr, st, blk, pred) {
		return
	}
	loopSerial++
	id := "h" + shortID(fr.path+e.roundTag(st)) + "." + fr.fn.Name() + strconv.Itoa(blk.Index)
	ctx := e.loops[id]
	if ctx == nil {
		ctx = &LoopCtx{serial: loopSerial, id: id, fn: fr.fn, hdr: blk, iterKey: map[string]bool{}, Slots: map[string]*slot{}, visited: map[string]bool{}, changed: map[string]bool{}, joined: map[string]*joinState{}}
		e.loops[id] = ctx
	}
	phis := map[*ssa.Phi]*Term{}
	st.loops = append(st.loops, activeLoop{id: id, ctx: ctx, entry: strconv.Itoa(loopSerial) + ":", first: true, hdr: blk, depth: e.depth})
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range blk.Preds {
			if p == pred {
				phis[phi] = e.val(fr, st, phi.Edges[i])
			}
		}
		if ctx.Slots[phi.Name()] == nil {
			ctx.Slots[phi.Name()] = &slot{}
		}
		st.loops[len(st.loops)-1].inits = append(st.loops[len(st.loops)-1].inits, phis[phi])
		ctx.Slots[phi.Name()].Inits = append(ctx.Slots[phi.Name()].Inits, phis[phi])
		if c, ok := fr.info.ctrs[phi]; ok {
			it := mk(Term{Op: "ctr", Sym: id + "/" + "it", Tag: st.tag(), Typ: phi.Type()})
			v := phis[phi]
			if c.step == 1 {
				v = binop(token.ADD, v, it, phi.Type())
			} else {
				v = binop(token.SUB, v, it, phi.Type())
			}
			phis[phi] = v
		}
	}
	for _, cc := range fr.info.cells[blk] {
		addr := st.env[cc.cell]
		if addr == nil || st.heap[addr] == nil {
			continue
		}
		l := &st.loops[len(st.loops)-1]
		m := map[*Term]*Term{}
		for k, v := range l.cells {
			m[k] = v
		}
		op := token.ADD
		if cc.step < 0 {
			op = token.SUB
		}
		it := mk(Term{Op: "ctr", Sym: id + "/" + "it", Tag: st.tag(), Typ: deref(cc.cell.Type())})
		m[addr] = binop(op, st.heap[addr], it, it.Typ)
		l.cells = m
		st.heap[addr] = m[addr]
	}
	e.header(fr, st, blk, phis)
}

var shortIDs = map[string]string{}

func shortID(p string) string {
	if s, ok := shortIDs[p]; ok {
		return s
	}
	s := strconv.Itoa(len(shortIDs))
	shortIDs[p] = s
	return s
}

// header continues into a loop header with the given loop-carried values.
func (e *Engine) header(fr *frame, st *State, blk *ssa.BasicBlock, phis map[*ssa.Phi]*Term) {
	l := &st.loops[len(st.loops)-1]
	l.phi0 = phis
	l.facts0 = make(map[*Term]bool, len(st.fidx))
	for k := range st.fidx {
		l.facts0[k] = true
	}
	l.evN = len(st.events)
	l.heap0 = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		l.heap0[k] = v
	}
	n := 0
	key := l.entry
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		st.env[phi] = phis[phi]
		key += strconv.Itoa(phis[phi].id) + ","
	}
	key += st.memKey()
	if l.first {
		key += "first"
	}
	if l.ctx.visited[key] {
		return
	}
	l.ctx.visited[key] = true
	l.ctx.nstates++
	if l.ctx.nstates > 60 && !e.coarse[l.id] {
		e.coarse[l.id] = true
		panic(restart{})
	}
	if l.ctx.nstates > 40000 {
		e.fail("loop does not converge in %s", fr.fn)
	}
	e.step(fr, st, blk, n)
}

// splitFlags decides the flags which an iteration computes, as if they were assigned in a branch.
func (e *Engine) splitFlags(fr *frame, st *State, blk, pred *ssa.BasicBlock) []*State {
	out := []*State{st}
	id := st.loops[len(st.loops)-1].id
	if e.coarse[id] {
		return out
	}
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isBoolT(phi.Type()) {
			continue
		}
		for i, p := range blk.Preds {
			if p != pred {
				continue
			}
			v := phi.Edges[i]
			if _, ok := st.env[v]; !ok {
				continue
			}
			var next []*State
			for _, s := range out {
				t := e.val(fr, s, v)
				if t.isConst() || t.Op == "wide" || !hasTag(t, id, "c") {
					next = append(next, s)
					continue
				}
				ts, fs := e.split(s, t)
				for _, x := range ts {
					x.env[v] = tTrue
				}
				for _, x := range fs {
					x.env[v] = tFalse
				}
				next = append(append(next, ts...), fs...)
			}
			out = next
		}
	}
	return out
}

// slotName names a place in memory which a loop changes: variables of one type are told apart.
func slotName(k *Term) string {
	if k.Op != "alloc" || k.Site == "" {
		return k.String()
	}
	h := fnv.New32a()
	h.Write([]byte(k.Site))
	return k.String() + "~" + strconv.FormatUint(uint64(h.Sum32()&0xffff), 16)
}

func (e *Engine) backEdge(fr *frame, st *State, blk, pred *ssa.BasicBlock) {
	l := st.loops[len(st.loops)-1]
	id := l.id
	ctx := l.ctx
	// record the iteration class
	it := &Iter{First: l.first, Phis: map[string]*Term{}, Start: map[string]*Term{}}
	for _, f := range st.facts {
		if l.facts0[f.A] {
			it.All = append(it.All, f)
		}
	}
	it.Base = len(it.All)
	for _, f := range st.facts {
		if !l.facts0[f.A] {
			it.All = append(it.All, f)
		}
	}
	it.Facts = it.All[it.Base:]
	it.Events = append(it.Events, st.events[l.evN:]...)
	newPhi := map[*ssa.Phi]*Term{}
	constChanged := false
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range blk.Preds {
			if p == pred {
				newPhi[phi] = e.val(fr, st, phi.Edges[i])
			}
		}
		it.Phis[phi.Name()] = newPhi[phi]
		it.Start[phi.Name()] = l.phi0[phi]
	}
	heapNew := map[*Term]*Term{}
	for k, v := range st.heap {
		if l.heap0[k] != v {
			heapNew[k] = v
			it.Phis[slotName(k)] = v
		}
	}
	it.Heap = heapNew
	key := ""
	for _, f := range it.All {
		x := f.A.id * 2
		if f.V {
			x++
		}
		key += strconv.Itoa(x) + ";"
	}
	key += strconv.Itoa(it.Base) + "|"
	for _, ev := range it.Events {
		key += ev.key() + ";"
	}
	for _, in := range blk.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			key += strconv.Itoa(newPhi[phi].id) + ","
			if v := l.phi0[phi]; v != nil && (v.isConst() || v == tNil) {
				key += "=" + strconv.Itoa(v.id) + ","
			}
		}
	}
	if !ctx.iterKey[key] {
		ctx.iterKey[key] = true
		// facts about the values of earlier iterations read alike but are of other values
		var cur []Fact
		base := 0
		for i, f := range it.All {
			earlier := false
			for _, al := range st.loops {
				earlier = earlier || hasTag(f.A, al.id, "o") || hasTag(f.A, al.id, "w")
			}
			if earlier {
				it.Prior = append(it.Prior, f)
				continue
			}
			if i < it.Base {
				base++
			}
			cur = append(cur, f)
		}
		it.All, it.Base, it.Facts = cur, base, cur[base:]
		ctx.Iters = append(ctx.Iters, it)
	}
	// ageing
	hasOld := func(t *Term) bool { return hasTag(t, id, "o") }
	toOld := map[*Term]*Term{}
	toWit := map[*Term]*Term{}
	age := func(t *Term, v string) *Term {
		memo := toOld
		if v == "w" {
			memo = toWit
		}
		if !t.tags {
			return t
		}
		return rebuild(t, func(x *Term) *Term {
			if x.Tag != "" && getTag(x.Tag, id) == "c" {
				n := *x
				n.Tag = setTag(x.Tag, id, v)
				n.str = ""
				if len(n.Args) > 0 {
					n.Args = make([]*Term, len(x.Args))
					for i, a := range x.Args {
						n.Args[i] = ageIn(a, id, v, memo)
					}
				}
				return mk(n)
			}
			return x
		}, memo)
	}
	coarse := e.coarse[id]
	outer := ""
	for _, ol := range st.loops[:len(st.loops)-1] {
		outer += ol.id + ":c;"
	}
	wideT := func(name string, typ types.Type) *Term {
		return mk(Term{Op: "wide", Sym: name, Lp: ctx, Typ: typ, Tag: outer})
	}
	contrib := func(sl *slot, v *Term) {
		for _, c := range sl.Contribs {
			if c == v {
				return
			}
		}
		if sl.nonEmpty && v.Op != "append" {
			e.fail("list of a loop in %s is not only appended to", fr.fn)
		}
		sl.Contribs = append(sl.Contribs, v)
		sl.From = append(sl.From, it)
	}
	widen := func(name string, v *Term, typ types.Type) *Term {
		sl := ctx.Slots[name]
		if sl == nil {
			sl = &slot{}
			ctx.Slots[name] = sl
		}
		w := wideT(name, typ)
		if v == w {
			return w
		}
		if coarse {
			sl.nonEmpty = false
			sl.mixed = true
		}
		if coarse || hasOld(v) || contains(v, w) {
			contrib(sl, v)
			return w
		}
		contrib(sl, v)
		o := age(v, "o")
		if v.Op == "list" && len(v.Args) > 1 {
			return w // the elements of different rounds
		}
		return o
	}
	phis := map[*ssa.Phi]*Term{}
	for phi, v := range newPhi {
		if c, ok := fr.info.ctrs[phi]; ok {
			itc := mk(Term{Op: "ctr", Sym: id + "/" + "it", Tag: st.tag(), Typ: phi.Type()})
			init := l.inits[phiIndex(phi)]
			if c.step == 1 {
				phis[phi] = binop(token.ADD, init, itc, phi.Type())
			} else {
				phis[phi] = binop(token.SUB, init, itc, phi.Type())
			}
			continue
		}
		if coarse {
			if v != l.phi0[phi] || ctx.changed[phi.Name()] {
				ctx.changed[phi.Name()] = true
				phis[phi] = widen(phi.Name(), v, phi.Type())
			} else {
				phis[phi] = v
			}
			continue
		}
		if v.isConst() || v == tNil {
			if v != l.phi0[phi] {
				constChanged = true
				if isIntT(phi.Type()) {
					w := wideT(phi.Name(), phi.Type())
					contrib(ctx.Slots[phi.Name()], v)
					phis[phi] = w
					continue
				}
			}
			phis[phi] = v
			continue
		}
		phis[phi] = widen(phi.Name(), v, phi.Type())
	}
	for k, v := range heapNew {
		if v.isConst() {
			constChanged = true
		}
		_ = k
	}
	n := st.clone()
	n.heap = map[*Term]*Term{}
	for k, v := range st.heap {
		if hasTag(k, id, "o") {
			continue
		}
		if cv, ok := l.cells[k]; ok {
			n.heap[k] = cv
			continue
		}
		v0, was := l.heap0[k]
		if was && v0 == v {
			if !hasTag(k, id, "c") && !hasTag(v, id, "c") {
				if (v.Op == "list" || v.Op == "append") && hasOld(v) && !hasTag(k, id, "") {
					n.heap[k] = widen(slotName(k), v, v.Typ)
					continue
				}
				n.heap[k] = v
				continue
			}
			n.heap[age(k, "o")] = age(v, "o")
			continue
		}
		nk := age(k, "o")
		if coarse {
			if nk != k { // an object of this iteration
				n.heap[nk] = age(v, "o")
				continue
			}
			ctx.changed[slotName(k)] = true
			n.heap[nk] = widen(slotName(k), v, v.Typ)
			continue
		}
		if v.isConst() || v == tNil {
			if was && isIntT(v.Typ) {
				n.heap[nk] = wideT(slotName(k), v.Typ)
				continue
			}
			n.heap[nk] = v
			continue
		}
		n.heap[nk] = widen(slotName(k), v, v.Typ)
	}
	if coarse {
		for k, v := range n.heap {
			if nm := slotName(k); ctx.changed[nm] && v.Op != "wide" && !hasTag(k, id, "") {
				n.heap[k] = wideT(nm, v.Typ)
			}
		}
	}
	// facts
	n.facts = nil
	n.fidx = map[*Term]bool{}
	addFact := func(a *Term, v bool) {
		if a.Op == "not" {
			a, v = a.Args[0], !v
		}
		if a.isConst() {
			return
		}
		if _, ok := n.fidx[a]; ok {
			return
		}
		n.fidx[a] = v
		n.facts = append(n.facts, Fact{a, v})
	}
	for i, f := range st.facts {
		switch {
		case hasTag(f.A, id, "o"):
		case hasTag(f.A, id, "w"):
			if !constChanged {
				addFact(f.A, f.V)
			}
		case hasTag(f.A, id, "c"):
			if coarse {
				continue
			}
			if constChanged {
				addFact(age(f.A, "w"), f.V)
				if mentionsAny(f.A, newPhi) {
					addFact(age(f.A, "o"), f.V)
				}
			}
			addFact(age(f.A, "o"), f.V)
		default:
			_ = i
			addFact(f.A, f.V)
		}
	}
	// events: the iteration is summarised by the loop; keep what was before it
	n.events = append([]*Event(nil), st.events[:l.evN]...)
	nl := &n.loops[len(n.loops)-1]
	nl.first = false
	n.env = map[ssa.Value]*Term{}
	for k, v := range st.env {
		n.env[k] = v
	}
	if coarse {
		// one joined state per entry of the loop
		if j := ctx.joined[nl.entry]; j == nil {
			ctx.joined[nl.entry] = &joinState{heap: n.heap, facts: n.facts, phis: phis}
		} else {
			ch := false
			var fs []Fact
			for _, f := range j.facts {
				if v, ok := n.fidx[f.A]; ok && v == f.V {
					fs = append(fs, f)
				} else {
					ch = true
				}
			}
			h := map[*Term]*Term{}
			for k, v := range j.heap {
				if w, ok := n.heap[k]; ok && w == v {
					h[k] = v
				} else if v.Op == "wide" && v.Lp == ctx {
					h[k] = v
				} else {
					h[k] = wideT(slotName(k), v.Typ)
					ctx.changed[slotName(k)] = true
					ch = true
				}
			}
			for k, v := range n.heap {
				if _, ok := j.heap[k]; !ok {
					h[k] = wideT(slotName(k), v.Typ)
					ctx.changed[slotName(k)] = true
					ch = true
				}
			}
			ps := map[*ssa.Phi]*Term{}
			for k, v := range j.phis {
				if phis[k] == v || v.Op == "wide" && v.Lp == ctx {
					ps[k] = v
				} else {
					ps[k] = wideT(k.Name(), k.Type())
					ctx.changed[k.Name()] = true
					ch = true
				}
			}
			if !ch {
				return
			}
			ctx.joined[nl.entry] = &joinState{heap: h, facts: fs, phis: ps}
			n.heap = make(map[*Term]*Term, len(h))
			for k, v := range h {
				n.heap[k] = v
			}
			n.facts = append([]Fact(nil), fs...)
			n.fidx = map[*Term]bool{}
			for _, f := range fs {
				n.fidx[f.A] = f.V
			}
			phis = ps
		}
	}
	e.header(fr, n, blk, phis)
}

// joinState is what a coarse loop knows at its header after the first iteration.
type joinState struct {
	heap  map[*Term]*Term
	facts []Fact
	phis  map[*ssa.Phi]*Term
}

func phiIndex(phi *ssa.Phi) int {
	for i, in := range phi.Block().Instrs {
		if in == phi {
			return i
		}
	}
	return -1
}

func ageIn(a *Term, id, v string, memo map[*Term]*Term) *Term {
	if !a.tags {
		return a
	}
	if m, ok := memo[a]; ok {
		return m
	}
	n := *a
	n.str = ""
	ch := false
	if a.Tag != "" && getTag(a.Tag, id) == "c" {
		n.Tag = setTag(a.Tag, id, v)
		ch = true
	}
	if len(a.Args) > 0 {
		n.Args = make([]*Term, len(a.Args))
		for i, x := range a.Args {
			n.Args[i] = ageIn(x, id, v, memo)
			if n.Args[i] != x {
				ch = true
			}
		}
	}
	r := a
	if ch {
		r = reMk(n)
	}
	memo[a] = r
	return r
}

func mentionsAny(t *Term, m map[*ssa.Phi]*Term) bool {
	for _, v := range m {
		if v.tags && contains(t, v) {
			return true
		}
	}
	return false
}

// val is the abstract value of an SSA operand.
func (e *Engine) val(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		if isBoolT(x.Type()) {
			return kBool(constant.BoolVal(x.Value))
		}
		if isIntT(x.Type()) {
			if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return kInt(i)
			}
		}
		return kConst(x.Value, x.Type())
	case *ssa.Global:
		return mk(Term{Op: "glob", Sym: x.String(), Typ: x.Type()})
	case *ssa.Function:
		return mk(Term{Op: "fn", Sym: x.String(), Fn: x, Typ: x.Type()})
	case *ssa.FreeVar:
		if t := fr.free[x]; t != nil {
			return t
		}
		return mkOp("free", x.Name(), x.Type())
	case *ssa.Builtin:
		return mkOp("builtin", x.Name(), x.Type())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	e.fail("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

// split forks st on the truth of cond.
func (e *Engine) split(st *State, cond *Term) (t, f []*State) {
	switch e.decide(st, cond) {
	case 1:
		return []*State{st}, nil
	case 0:
		return nil, []*State{st}
	}
	if cond.Op == "not" {
		f, t = e.split(st, cond.Args[0])
		return t, f
	}
	if cond.Op == "eq" && isBoolT(cond.Args[0].Typ) && isBoolT(cond.Args[1].Typ) {
		at, af := e.split(st, cond.Args[0])
		for _, s := range at {
			bt, bf := e.split(s, cond.Args[1])
			t = append(t, bt...)
			f = append(f, bf...)
		}
		for _, s := range af {
			bt, bf := e.split(s, cond.Args[1])
			t = append(t, bf...)
			f = append(f, bt...)
		}
		return t, f
	}
	if cond.Op == "and" || cond.Op == "or" {
		return e.splitBool(st, cond)
	}
	a, b := st.clone(), st
	if a.assume(cond, true) {
		t = append(t, a)
	}
	if b.assume(cond, false) {
		f = append(f, b)
	}
	return t, f
}

func (e *Engine) splitBool(st *State, cond *Term) (t, f []*State) {
	xs, ys := cond.Args[0], cond.Args[1]
	at, af := e.split(st, xs)
	if cond.Op == "and" {
		f = append(f, af...)
		for _, s := range at {
			bt, bf := e.split(s, ys)
			t = append(t, bt...)
			f = append(f, bf...)
		}
		return
	}
	t = append(t, at...)
	for _, s := range af {
		bt, bf := e.split(s, ys)
		t = append(t, bt...)
		f = append(f, bf...)
	}
	return
}

func (e *Engine) decide(st *State, a *Term) int {
	if a.Op == "and" || a.Op == "or" {
		x, y := e.decide(st, a.Args[0]), e.decide(st, a.Args[1])
		if a.Op == "and" {
			if x == 0 || y == 0 {
				return 0
			}
			if x == 1 && y == 1 {
				return 1
			}
			return -1
		}
		if x == 1 || y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
		return -1
	}
	return st.decide(a)
}

// step executes blk from instruction idx.
func (e *Engine) step(fr *frame, st *State, blk *ssa.BasicBlock, idx int) {
	for ; idx < len(blk.Instrs); idx++ {
		in := blk.Instrs[idx]
		e.checkRisks(fr, st, in)
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := e.val(fr, st, x.Cond)
			ts, fs := e.split(st, c)
			for _, s := range ts {
				e.block(fr, s, blk.Succs[0], blk)
			}
			for i, s := range fs {
				if i == len(fs)-1 {
					e.block(fr, s, blk.Succs[1], blk)
				} else {
					e.block(fr, s, blk.Succs[1], blk)
				}
			}
			return
		case *ssa.Jump:
			e.block(fr, st, blk.Succs[0], blk)
			return
		case *ssa.Return:
			ex := &Exit{St: st, Pos: x.Pos(), Fn: fr.fn}
			for _, r := range x.Results {
				ex.Res = append(ex.Res, e.val(fr, st, r))
			}
			for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == e.depth {
				e.leaveLoop(st)
			}
			*fr.out = append(*fr.out, ex)
			e.Paths++
			return
		case *ssa.Panic:
			ex := &Exit{St: st, Panic: true, Pos: x.Pos(), Fn: fr.fn, Res: []*Term{e.val(fr, st, x.X)}}
			for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == e.depth {
				e.leaveLoop(st)
			}
			*fr.out = append(*fr.out, ex)
			return
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			e.runDefers(fr, st, ds, func(s *State) { e.step(fr, s, blk, idx+1) })
			return
		case *ssa.Defer:
			d := &deferred{in: x}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(fr, st, a))
			}
			if x.Call.StaticCallee() == nil || isClosureVal(x.Call.Value) {
				d.fn = e.val(fr, st, x.Call.Value)
			}
			st.defers = append(st.defers, d)
		case *ssa.Go:
			e.spawn(fr, st, "go", &x.Call, x)
		case *ssa.Call:
			done := e.call(fr, st, &x.Call, x, func(s *State, res *Term) {
				if res != nil {
					s.env[x] = res
				}
				e.step(fr, s, blk, idx+1)
			})
			if done {
				return
			}
		case *ssa.Select:
			e.selectI(fr, st, x, func(s *State) { e.step(fr, s, blk, idx+1) })
			return
		default:
			e.simple(fr, st, in)
		}
	}
}

func isClosureVal(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

func (e *Engine) runDefers(fr *frame, st *State, ds []*deferred, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	done := e.callWith(fr, st, &d.in.Call, d.in, d.fn, d.args, func(s *State, _ *Term) { e.runDefers(fr, s, rest, k) })
	if !done {
		e.runDefers(fr, st, rest, k)
	}
}

func (e *Engine) simple(fr *frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { st.env[v] = t }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := mk(Term{Op: "alloc", Sym: typeStr(deref(x.Type())), Site: e.site(fr, st, in), Tag: st.tag(), Typ: deref(x.Type())})
		// a fresh object: forget what the previous execution of this instruction left
		for k := range st.heap {
			if addrBase(k) == t {
				delete(st.heap, k)
			}
		}
		set(x, t)
	case *ssa.BinOp:
		set(x, binop(x.Op, e.val(fr, st, x.X), e.val(fr, st, x.Y), x.Type()))
	case *ssa.UnOp:
		v := e.val(fr, st, x.X)
		switch x.Op {
		case token.NOT:
			set(x, not(v))
		case token.MUL:
			set(x, e.load(st, v, x.Type()))
		case token.ARROW:
			r := mk(Term{Op: "recv", Args: []*Term{v}, Site: e.site(fr, st, in), Tag: st.tag(), Typ: chanElem(x.X.Type())})
			st.emit(&Event{Kind: "recv", Args: []*Term{v, r}, Pos: x.Pos(), Fn: fr.fn, In: in})
			if x.CommaOk {
				ok := mk(Term{Op: "recvok", Args: []*Term{v}, Site: e.site(fr, st, in), Tag: st.tag(), Typ: types.Typ[types.Bool]})
				set(x, mkOp("tuple", "", x.Type(), r, ok))
			} else {
				set(x, r)
			}
		case token.SUB:
			if k, ok := v.constInt(); ok {
				set(x, kInt(-k))
			} else {
				set(x, mkOp("neg", "", x.Type(), v))
			}
		default:
			set(x, mkOp("un", x.Op.String(), x.Type(), v))
		}
	case *ssa.ChangeType:
		set(x, e.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		set(x, e.val(fr, st, x.X))
	case *ssa.SliceToArrayPointer:
		set(x, e.val(fr, st, x.X))
	case *ssa.MultiConvert:
		set(x, e.convert(e.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := e.val(fr, st, x.X)
		if v == tNil {
			v = mkOp("typednil", typeStr(x.X.Type()), x.X.Type())
		} else if v.Typ == nil || types.IsInterface(v.Typ) && !types.IsInterface(x.X.Type()) {
			if v.Typ == nil {
				n := *v
				_ = n
			}
		}
		dynTypes[v] = x.X.Type()
		set(x, v)
	case *ssa.Convert:
		set(x, e.convert(e.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		t := e.val(fr, st, x.Tuple)
		set(x, ext(t, x.Index, x.Type()))
	case *ssa.Field:
		set(x, selTerm(e.val(fr, st, x.X), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.FieldAddr:
		base := e.val(fr, st, x.X)
		set(x, addrField(base, fieldName(deref(x.X.Type()), x.Field), deref(x.Type())))
	case *ssa.Index:
		set(x, e.index(st, e.val(fr, st, x.X), e.val(fr, st, x.Index), x.Type()))
	case *ssa.IndexAddr:
		base, i := e.val(fr, st, x.X), e.val(fr, st, x.Index)
		set(x, mkOp("addrelem", "", deref(x.Type()), base, i))
	case *ssa.Lookup:
		m, k := e.val(fr, st, x.X), e.val(fr, st, x.Index)
		if isStringT(x.X.Type()) {
			set(x, elemTerm(m, k, x.Type()))
			return
		}
		v, has := e.mapGet(st, m, k, x)
		if has == tFalse {
			st.emit(&Event{Kind: "mapmiss", Args: []*Term{m, k}, Pos: x.Pos(), Fn: fr.fn, In: in})
		}
		if x.CommaOk {
			set(x, mkOp("tuple", "", x.Type(), v, has))
		} else {
			set(x, v)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, st, x.Map), e.val(fr, st, x.Key), e.val(fr, st, x.Value)
		e.mapSet(st, m, k, v)
		st.emit(&Event{Kind: "mapset", Args: []*Term{m, k, v}, Pos: x.Pos(), Fn: fr.fn, In: in})
	case *ssa.MakeMap:
		set(x, mk(Term{Op: "makemap", Site: e.site(fr, st, in), Tag: st.tag(), Typ: x.Type()}))
	case *ssa.MakeChan:
		set(x, mk(Term{Op: "makechan", Args: []*Term{e.val(fr, st, x.Size)}, Site: e.site(fr, st, in), Tag: st.tag(), Typ: x.Type()}))
	case *ssa.MakeSlice:
		l := e.val(fr, st, x.Len)
		set(x, mk(Term{Op: "makeslice", Args: []*Term{l}, Typ: x.Type(), Site: sliceSite(l, e, fr, in, st), Tag: sliceTag(l, st)}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, st, b))
		}
		set(x, mk(Term{Op: "closure", Fn: x.Fn.(*ssa.Function), Args: bs, Typ: x.Type()}))
	case *ssa.Slice:
		set(x, e.slice(fr, st, x))
	case *ssa.Store:
		a, v := e.val(fr, st, x.Addr), e.val(fr, st, x.Val)
		e.store(st, a, v)
		if b := addrBase(a); b.Op != "alloc" || addrEscaped(a) {
			st.emit(&Event{Kind: "store", Args: []*Term{a, v}, Pos: x.Pos(), Fn: fr.fn, In: in})
		}
	case *ssa.Send:
		c, v := e.val(fr, st, x.Chan), e.val(fr, st, x.X)
		st.emit(&Event{Kind: "send", Args: []*Term{c, v}, Pos: x.Pos(), Fn: fr.fn, In: in})
	case *ssa.Range:
		set(x, mk(Term{Op: "range", Args: []*Term{e.val(fr, st, x.X)}, Typ: x.X.Type()}))
	case *ssa.Next:
		r := e.val(fr, st, x.Iter)
		m := r.Args[0]
		tag := st.tag()
		site := e.site(fr, st, in)
		tup := x.Type().(*types.Tuple)
		if n := len(st.rounds); n > 0 && st.rounds[n-1].hdr == x.Block() && len(st.rounds[n-1].keys) > 0 {
			if r := st.rounds[n-1]; r.n < len(r.keys) {
				v, _ := e.mapGet(st, m, r.keys[r.n], nil)
				set(x, mkOp("tuple", "", nil, tTrue, r.keys[r.n], v))
			} else {
				set(x, mkOp("tuple", "", nil, tFalse, tNil, tNil))
			}
			return
		}
		if x.IsString {
			ok := mk(Term{Op: "mapnext", Args: []*Term{m}, Site: site, Tag: tag, Typ: types.Typ[types.Bool]})
			set(x, mkOp("tuple", "", nil, ok, mk(Term{Op: "runeidx", Args: []*Term{m}, Site: site, Tag: tag, Typ: types.Typ[types.Int]}), mk(Term{Op: "rune", Args: []*Term{m}, Site: site, Tag: tag, Typ: types.Typ[types.Rune]})))
			return
		}
		ok := mk(Term{Op: "mapnext", Args: []*Term{m}, Site: site, Tag: tag, Typ: types.Typ[types.Bool]})
		k := mk(Term{Op: "mapkey", Args: []*Term{m}, Site: site, Tag: tag, Typ: tup.At(1).Type()})
		v, _ := e.mapGet(st, m, k, nil)
		if v.Typ == nil {
			v = mkOp("lookup", "", tup.At(2).Type(), m, k)
		}
		set(x, mkOp("tuple", "", nil, ok, k, v))
	case *ssa.TypeAssert:
		v := e.val(fr, st, x.X)
		is := e.isType(st, v, x.AssertedType)
		if x.CommaOk {
			var val *Term = v
			set(x, mkOp("tuple", "", nil, e.asserted(st, v, is, x.AssertedType), is))
			_ = val
		} else {
			st.emit(&Event{Kind: "assert", Sym: typeStr(x.AssertedType), Args: []*Term{v}, Pos: x.Pos(), Fn: fr.fn, In: in})
			set(x, typed(v, x.AssertedType))
		}
	default:
		e.fail("unsupported instruction %T in %s", in, fr.fn)
	}
}

var dynTypes = map[*Term]types.Type{}

// typed is v seen as t: the same value.
func typed(v *Term, t types.Type) *Term { return v }

// asserted is the value of v.(t): zero when the assertion fails.
func (e *Engine) asserted(st *State, v, is *Term, t types.Type) *Term {
	if st.decide(is) == 0 {
		return zeroOf(t)
	}
	return v
}

func sliceSite(l *Term, e *Engine, fr *frame, in ssa.Instruction, st *State) string {
	if k, ok := l.constInt(); ok && k == 0 {
		return ""
	}
	return e.site(fr, st, in)
}
func sliceTag(l *Term, st *State) string {
	if k, ok := l.constInt(); ok && k == 0 {
		return ""
	}
	return st.tag()
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func fieldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Engine) isType(st *State, v *Term, t types.Type) *Term {
	dt := dynTypes[v]
	if dt == nil && v.Typ != nil && !types.IsInterface(v.Typ) && v.Op != "alloc" {
		dt = v.Typ
	}
	if v.Op == "alloc" {
		dt = types.NewPointer(v.Typ)
	}
	if v == tNil {
		return tFalse
	}
	if dt != nil && !types.IsInterface(dt) && (v.Op == "alloc" || v.Op == "const" || v.Op == "agg") {
		if types.IsInterface(t) {
			return kBool(types.Implements(dt, t.Underlying().(*types.Interface)))
		}
		return kBool(types.Identical(dt, t))
	}
	return mkOp("istype", typeStr(t), types.Typ[types.Bool], v)
}

func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if isIntT(from) && isIntT(to) {
		if k, ok := v.constInt(); ok {
			return kInt(k)
		}
		return v
	}
	if isStringT(from) && isStringT(to) {
		return v
	}
	if isIntT(from) && isStringT(to) {
		if k, ok := v.constInt(); ok {
			return kStr(string(rune(k)))
		}
		return mkOp("runestr", "", to, v)
	}
	_, fs := fu.(*types.Slice)
	_, ts := tu.(*types.Slice)
	if isStringT(from) && ts || fs && isStringT(to) {
		there, back := "bytes", "string"
		if sl, ok := fu.(*types.Slice); ok && isRuneT(sl.Elem()) {
			there, back = "runes", "runestring"
		} else if sl, ok := tu.(*types.Slice); ok && isRuneT(sl.Elem()) {
			there, back = "runes", "runestring"
		}
		if !ts {
			there, back = back, there
		}
		if v.Op == "conv" && v.Sym == back {
			return v.Args[0]
		}
		return mkOp("conv", there, to, v)
	}
	isF := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	}
	if isF(from) != isF(to) {
		if v.isConst() {
			if isF(to) {
				return kConst(constant.ToFloat(v.Val), to)
			}
		}
		return mkOp("convnum", typeStr(to), to, v)
	}
	return v // pointers, unsafe.Pointer, named types
}

// ---- memory ------------------------------------------------------------------

func addrField(base *Term, f string, typ types.Type) *Term {
	return mkOp("addr", f, typ, base)
}

func addrBase(a *Term) *Term {
	for a.Op == "addr" || a.Op == "addrelem" {
		a = a.Args[0]
	}
	return a
}

// addrEscaped: a write through an element of something that is not the array itself.
func addrEscaped(a *Term) bool { return false }

func addrUnder(a, base *Term) bool {
	for {
		if a == base {
			return true
		}
		if a.Op != "addr" && a.Op != "addrelem" {
			return false
		}
		a = a.Args[0]
	}
}

func (e *Engine) store(st *State, a, v *Term) {
	for k := range st.heap {
		if k != a && addrUnder(k, a) {
			delete(st.heap, k)
		}
	}
	st.heap[a] = v
}

func (e *Engine) load(st *State, a *Term, typ types.Type) *Term {
	if stt, ok := typ.Underlying().(*types.Struct); ok {
		// a whole struct: snapshot when parts are known
		part := false
		for k := range st.heap {
			if k != a && addrUnder(k, a) {
				part = true
				break
			}
		}
		if part || addrBase(a).Op == "alloc" {
			if v, ok := st.heap[a]; ok && !part {
				return v
			}
			args := make([]*Term, stt.NumFields())
			for i := range args {
				args[i] = e.load(st, addrField(a, stt.Field(i).Name(), stt.Field(i).Type()), stt.Field(i).Type())
			}
			return mkOp("agg", typeStr(typ), typ, args...)
		}
	}
	if arr, ok := typ.Underlying().(*types.Array); ok && arr.Len() <= 8 && a.Op == "alloc" {
		if v, ok := st.heap[a]; ok {
			part := false
			for k := range st.heap {
				if k != a && addrUnder(k, a) {
					part = true
				}
			}
			if !part {
				return v
			}
		}
		return e.arraySnap(st, a)
	}
	if v, ok := st.heap[a]; ok {
		return v
	}
	switch a.Op {
	case "addr":
		base := a.Args[0]
		// the enclosing struct as a value
		if v, ok := e.loadKnown(st, base); ok {
			return selTerm(v, a.Sym, typ)
		}
		if addrBase(a).Op == "alloc" && !e.havoced(st, a) {
			return zeroOf(typ)
		}
		return selTerm(e.ptrVal(st, base), a.Sym, typ)
	case "addrelem":
		base := a.Args[0]
		if base.Op == "alloc" || base.Op == "addr" {
			// array
			if v, ok := e.loadKnown(st, base); ok {
				return elemTerm(v, a.Args[1], typ)
			}
			if _, isc := a.Args[1].constInt(); isc && addrBase(base).Op == "alloc" {
				return zeroOf(typ)
			}
			if addrBase(base).Op == "alloc" {
				// unknown index of a local array: its snapshot
				return elemTerm(e.arraySnap(st, base), a.Args[1], typ)
			}
			return elemTerm(e.load(st, base, base.Typ), a.Args[1], typ)
		}
		return elemTerm(base, a.Args[1], typ)
	case "alloc":
		return zeroOf(typ)
	case "glob":
		if v, ok := e.init[a]; ok && e.P.immutableGlobal(a.Sym) {
			if v.isConst() || v.Op == "ext" && v.Args[0].Op == "call" && v.Args[0].Sym == "regexp.Compile" && len(v.Args[0].Args) == 1 && v.Args[0].Args[0].isConst() {
				return v
			}
		}
		return mkOp("gval", a.Sym, typ)
	}
	return mkOp("deref", "", typ, a)
}

func (e *Engine) arraySnap(st *State, base *Term) *Term {
	arr, ok := base.Typ.Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return mkOp("arr", "", base.Typ, base)
	}
	args := make([]*Term, arr.Len())
	for i := range args {
		args[i] = e.load(st, mkOp("addrelem", "", arr.Elem(), base, kInt(int64(i))), arr.Elem())
	}
	return mkOp("list", "", base.Typ, args...)
}

// ptrVal turns an address into the pointer value whose fields are read.
func (e *Engine) ptrVal(st *State, a *Term) *Term {
	switch a.Op {
	case "addr":
		return selTerm(e.ptrVal(st, a.Args[0]), a.Sym, a.Typ)
	case "addrelem":
		return elemTerm(e.ptrVal(st, a.Args[0]), a.Args[1], a.Typ)
	case "glob":
		return mkOp("gval", a.Sym, a.Typ)
	}
	return a
}

// loadKnown finds a stored value at a or at an enclosing address.
func (e *Engine) loadKnown(st *State, a *Term) (*Term, bool) {
	if v, ok := st.heap[a]; ok {
		return v, true
	}
	switch a.Op {
	case "addr":
		if v, ok := e.loadKnown(st, a.Args[0]); ok {
			return selTerm(v, a.Sym, a.Typ), true
		}
	case "addrelem":
		if v, ok := e.loadKnown(st, a.Args[0]); ok {
			return elemTerm(v, a.Args[1], a.Typ), true
		}
	}
	return nil, false
}

func (e *Engine) havoced(st *State, a *Term) bool {
	_, ok := e.loadKnown(st, a)
	return ok
}

func (e *Engine) index(st *State, b, i *Term, typ types.Type) *Term { return elemTerm(b, i, typ) }

func (e *Engine) slice(fr *frame, st *State, x *ssa.Slice) *Term {
	base := e.val(fr, st, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, st, x.High)
	}
	if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && isPtr(x.X.Type()) {
		if _, isAlloc := x.X.(*ssa.Alloc); isAlloc || base.Op == "alloc" {
			full := lo == nil || lo == kInt(0)
			if full && hi == nil {
				return e.arrayValue(st, base)
			}
			if full && hi != nil { // make with constant capacity
				if k, ok := hi.constInt(); ok && k == 0 {
					return mk(Term{Op: "makeslice", Args: []*Term{kInt(0)}, Typ: x.Type()})
				}
				arr := deref(x.X.Type()).Underlying().(*types.Array)
				if k, ok := hi.constInt(); ok && k == arr.Len() {
					return e.arrayValue(st, base)
				}
			}
		}
		if b := addrBase(base); b != base || base.Op != "alloc" {
			if lo == nil && hi == nil {
				return e.load(st, base, deref(x.X.Type()))
			}
		}
	}
	return sliceTerm(base, lo, hi, x.Type())
}

// arrayValue is the slice over a local array: a list of its elements.
func (e *Engine) arrayValue(st *State, base *Term) *Term {
	if v, ok := st.heap[base]; ok {
		return v
	}
	return e.arraySnap(st, base)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func sliceTerm(base, lo, hi *Term, typ types.Type) *Term {
	if lo != nil {
		if k, ok := lo.constInt(); ok && k == 0 {
			lo = nil
		}
	}
	if lo == nil && hi == nil {
		return base
	}
	if hi != nil && hi.Op == "len" && hi.Args[0] == base {
		hi = nil
		if lo == nil {
			return base
		}
	}
	if base.Op == "makeslice" && lo == nil {
		if k, ok := hi.constInt(); ok && k == 0 {
			return mk(Term{Op: "makeslice", Args: []*Term{kInt(0)}, Typ: typ})
		}
	}
	if s, ok := base.constStr(); ok {
		l, h := int64(0), int64(len(s))
		okc := true
		if lo != nil {
			l, okc = lo.constInt()
		}
		if okc && hi != nil {
			h, okc = hi.constInt()
		}
		if okc && l >= 0 && h <= int64(len(s)) && l <= h {
			return kStr(s[l:h])
		}
	}
	// s[:Index(s,sep)] and s[Index(s,sep)+len(sep):]
	if lo == nil && hi.Op == "index" && hi.Args[0] == base {
		return mkOp("before", "", typ, base, hi.Args[1])
	}
	if lo == nil && hi.Op == "lastindex" && hi.Args[0] == base {
		return mkOp("beforelast", "", typ, base, hi.Args[1])
	}
	if hi == nil {
		b, k := splitAdd(lo)
		if b != nil && b.Op == "index" && b.Args[0] == base {
			if s, ok := b.Args[1].constStr(); ok && int64(len(s)) == k {
				return mkOp("after", "", typ, base, b.Args[1])
			}
		}
		if b != nil && b.Op == "sum" && k == 0 {
			for i := 0; i < 2; i++ {
				p, q := b.Args[i], b.Args[1-i]
				if p.Op == "index" && p.Args[0] == base && q.Op == "len" && q.Args[0] == p.Args[1] {
					return mkOp("after", "", typ, base, p.Args[1])
				}
			}
		}
		if lo.Op == "len" { // s[len(prefix):]
			return mkOp("skip", "", typ, base, lo.Args[0])
		}
		if kc, ok := lo.constInt(); ok {
			return mkOp("slicefrom", "", typ, base, kInt(kc))
		}
	}
	l, h := lo, hi
	if l == nil {
		l = kInt(0)
	}
	if h == nil {
		h = lenTerm(base)
	}
	return mkOp("slice", "", typ, base, l, h)
}

// local maps: only keys set on this path are known
func (e *Engine) mapGet(st *State, m, k *Term, in ssa.Instruction) (*Term, *Term) {
	var mt *types.Map
	if m.Typ != nil {
		mt, _ = m.Typ.Underlying().(*types.Map)
	}
	var vt types.Type
	if mt != nil {
		vt = mt.Elem()
	}
	if m.Op == "gval" {
		if im := e.P.constMap(e, m.Sym); im != nil {
			if !k.isConst() {
				// membership in a constant set
				return mkOp("lookup", "", vt, im, k), mkOp("has", "", types.Typ[types.Bool], im, k)
			}
		}
	}
	if m.Op == "makemap" {
		if v, ok := st.heap[mkOp("addrelem", "map", nil, m, k)]; ok {
			return v, tTrue
		}
		if _, ok := st.heap[mkOp("addr", "$set", nil, m)]; !ok && vt != nil {
			return zeroOf(vt), tFalse
		}
	}
	if m == tNil && vt != nil {
		return zeroOf(vt), tFalse
	}
	return mkOp("lookup", "", vt, m, k), mkOp("has", "", types.Typ[types.Bool], m, k)
}

func (e *Engine) mapSet(st *State, m, k, v *Term) {
	if m.Op != "makemap" {
		return
	}
	whole := k.isConst()
	for a := range st.heap {
		if a.Op == "addrelem" && a.Sym == "map" && a.Args[0] == m && !(a.Args[1].isConst() && k.isConst()) {
			delete(st.heap, a)
			whole = false
		}
	}
	was, had := st.heap[mkOp("addr", "$set", nil, m)]
	st.heap[mkOp("addrelem", "map", nil, m, k)] = v
	st.heap[mkOp("addr", "$set", nil, m)] = tTrue
	if whole && (!had || was == kStr("whole")) {
		st.heap[mkOp("addr", "$set", nil, m)] = kStr("whole")
	}
}

func (e *Engine) selectI(fr *frame, st *State, x *ssa.Select, k func(*State)) {
	n := len(x.States)
	idxs := make([]int, 0, n+1)
	for i := 0; i < n; i++ {
		idxs = append(idxs, i)
	}
	if !x.Blocking {
		idxs = append(idxs, -1)
	}
	site := e.site(fr, st, x)
	for _, i := range idxs {
		if i >= 0 && e.val(fr, st, x.States[i].Chan) == tNil {
			continue // a nil channel is never ready
		}
		s := st.clone()
		args := []*Term{kInt(int64(i))}
		ok := mk(Term{Op: "recvok", Site: site, Tag: s.tag(), Typ: types.Typ[types.Bool]})
		args = append(args, ok)
		for j, c := range x.States {
			if c.Dir == types.RecvOnly {
				ch := e.val(fr, s, c.Chan)
				if j == i {
					r := mk(Term{Op: "recv", Args: []*Term{ch}, Site: site, Tag: s.tag(), Typ: chanElem(c.Chan.Type())})
					args = append(args, r)
					s.emit(&Event{Kind: "recv", Sym: "select", Args: []*Term{ch, r}, Pos: c.Pos, Fn: fr.fn, In: x})
				} else {
					args = append(args, zeroOf(chanElem(c.Chan.Type())))
				}
			} else if j == i {
				s.emit(&Event{Kind: "send", Sym: "select", Args: []*Term{e.val(fr, s, c.Chan), e.val(fr, s, c.Send)}, Pos: c.Pos, Fn: fr.fn, In: x})
			}
		}
		if i >= 0 {
			ch := e.val(fr, s, x.States[i].Chan)
			s.assume(mk(Term{Op: "chosen", Args: []*Term{ch}, Site: site, Tag: s.tag(), Typ: types.Typ[types.Bool]}), true)
		} else {
			for _, c := range x.States {
				ch := e.val(fr, s, c.Chan)
				s.assume(mk(Term{Op: "chosen", Args: []*Term{ch}, Site: site, Tag: s.tag(), Typ: types.Typ[types.Bool]}), false)
			}
		}
		s.env[x] = mkOp("tuple", "", nil, args...)
		k(s)
	}
}

// spawn analyses an asynchronous body apart: its exits are summarised in an event.
func (e *Engine) spawn(fr *frame, st *State, kind string, c *ssa.CallCommon, in ssa.Instruction) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	var fnT *Term
	fn, free := e.resolve(fr, st, c, &fnT)
	ev := &Event{Kind: kind, Args: args, Pos: in.Pos(), Fn: fr.fn, In: in}
	if fnT != nil {
		ev.Args = append([]*Term{fnT}, ev.Args...)
	}
	if fn != nil && e.P.inModule(fn) && !(e.Opaque != nil && e.Opaque(fn)) {
		ev.Sym = fn.String()
		ev.Sub = e.async(fn, args, free, st, e.pathTo(fr, st, in))
		// what the body writes is unknown from now on
		for _, x := range ev.Sub {
			for k, v := range x.St.heap {
				if st.heap[k] != v && addrKnown(st, k) {
					st.heap[k] = mk(Term{Op: "asyncval", Args: []*Term{k}, Tag: st.tag(), Typ: v.Typ})
				}
			}
		}
	} else if fn != nil {
		ev.Sym = fn.String()
	}
	st.emit(ev)
}

// addrKnown reports whether the parent can name the object of k.
func addrKnown(st *State, k *Term) bool {
	b := addrBase(k)
	if b.Op != "alloc" && b.Op != "makemap" {
		return true
	}
	for _, v := range st.env {
		if contains(v, b) {
			return true
		}
	}
	for h := range st.heap {
		if addrBase(h) == b {
			return true
		}
	}
	return false
}

// async runs a body from a copy of st and returns its exits, with only its own events.
func (e *Engine) async(fn *ssa.Function, args, free []*Term, st *State, path string) []*Exit {
	s := st.clone()
	s.events = nil
	ld := len(s.loops)
	ex := e.Call(fn, args, free, s, path)
	for _, x := range ex {
		x.base = len(st.facts)
	}
	_ = ld
	return ex
}

func (e *Engine) pathTo(fr *frame, st *State, in ssa.Instruction) string {
	return fr.path + ">" + instrID(in) + e.roundTag(st)
}

// roundTag tells the rounds of the loops of this function which are run round by round.
func (e *Engine) roundTag(st *State) string {
	s := ""
	for _, r := range st.rounds {
		if r.depth == e.depth {
			s += "#" + strconv.Itoa(r.n)
		}
	}
	return s
}

func posOf(p *Prog, pos token.Pos) string {
	q := p.Fset.Position(pos)
	f := q.Filename
	if strings.HasPrefix(f, p.Root+"/") {
		f = f[len(p.Root)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func isRuneT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}
