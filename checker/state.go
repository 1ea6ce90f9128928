package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is a branch decision: an atom and its truth value.
type Fact struct {
	A *Term
	V bool
}

func (f Fact) String() string {
	if f.V {
		return f.A.String()
	}
	return "!" + f.A.String()
}

// Event is an observable effect on a path: opaque calls, stores to shared
// memory, channel operations, goroutines, loops.
type Event struct {
	Kind  string // call, store, mapset, mapdel, send, recv, close, go, eggo, callback, loop, log, select
	Sym   string
	Args  []*Term
	Res   *Term
	Sub   []*Exit
	Loop  *LoopCtx
	Last  []*Event
	First bool // a loop left in its first round
	Pos   token.Pos
	Fn    *ssa.Function
	In    ssa.Instruction
}

func (e *Event) key() string {
	var b strings.Builder
	b.WriteString(e.Kind)
	b.WriteByte('/')
	b.WriteString(e.Sym)
	for _, a := range e.Args {
		b.WriteByte(',')
		if a != nil {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	if e.Res != nil {
		b.WriteString("=" + strconv.Itoa(e.Res.id))
	}
	b.WriteString("@" + strconv.Itoa(int(e.Pos)))
	if e.First {
		b.WriteString("!")
	}
	if e.Loop != nil {
		b.WriteString("L" + e.Loop.id)
	}
	for _, l := range e.Last {
		b.WriteString("(" + l.key() + ")")
	}
	return b.String()
}

func (e *Event) String() string {
	var s []string
	for _, a := range e.Args {
		if a == nil {
			s = append(s, "_")
		} else {
			s = append(s, a.String())
		}
	}
	r := e.Kind + " " + shortFn(e.Sym) + "(" + strings.Join(s, ", ") + ")"
	if e.Loop != nil {
		r += fmt.Sprintf(" loop#%d last=%v", e.Loop.serial, e.Last)
	}
	return r
}

// State is one abstract state of a path class.
type State struct {
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	facts  []Fact
	fidx   map[*Term]bool
	events []*Event
	loops  []activeLoop
	defers []*deferred // of the current frame
	rounds []round     // loops with a small known number of rounds are followed round by round
}

type round struct {
	hdr   *ssa.BasicBlock
	depth int
	n     int
	keys  []*Term // of a walk over a map
}

type activeLoop struct {
	id     string
	ctx    *LoopCtx
	entry  string // distinguishes the entry states
	first  bool   // the first iteration
	facts0 map[*Term]bool
	evN    int
	heap0  map[*Term]*Term
	phi0   map[*ssa.Phi]*Term
	hdr    *ssa.BasicBlock
	depth  int // call depth
	inits  []*Term
	cells  map[*Term]*Term // variables in memory which count the iterations, at the start of one
}

type deferred struct {
	in   *ssa.Defer
	args []*Term
	fn   *Term
}

func (s *State) clone() *State {
	n := &State{
		env: make(map[ssa.Value]*Term, len(s.env)+4), heap: make(map[*Term]*Term, len(s.heap)+2),
		fidx: make(map[*Term]bool, len(s.fidx)+2),
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.fidx {
		n.fidx[k] = v
	}
	n.facts = append([]Fact(nil), s.facts...)
	n.events = append([]*Event(nil), s.events...)
	n.loops = append([]activeLoop(nil), s.loops...)
	n.defers = append([]*deferred(nil), s.defers...)
	n.rounds = append([]round(nil), s.rounds...)
	return n
}

func (s *State) tag() string {
	var b strings.Builder
	for _, l := range s.loops {
		b.WriteString(l.id)
		b.WriteString(":c;")
	}
	for _, r := range s.rounds {
		b.WriteString("r" + r.hdr.Parent().Name() + strconv.Itoa(r.hdr.Index) + "." + strconv.Itoa(r.n) + ";")
	}
	return b.String()
}

func (s *State) emit(e *Event) { s.events = append(s.events, e) }

// memKey identifies the state without the environment.
func (s *State) memKey() string {
	var b strings.Builder
	fs := make([]int, 0, len(s.facts))
	for _, f := range s.facts {
		x := f.A.id * 2
		if f.V {
			x++
		}
		fs = append(fs, x)
	}
	sort.Ints(fs)
	for _, x := range fs {
		b.WriteString(strconv.Itoa(x))
		b.WriteByte(',')
	}
	b.WriteByte('|')
	hs := make([][2]int, 0, len(s.heap))
	for k, v := range s.heap {
		hs = append(hs, [2]int{k.id, v.id})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i][0] < hs[j][0] })
	for _, h := range hs {
		b.WriteString(strconv.Itoa(h[0]))
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(h[1]))
		b.WriteByte(',')
	}
	b.WriteByte('|')
	for _, e := range s.events {
		b.WriteString(e.key())
		b.WriteByte(';')
	}
	return b.String()
}

// decide evaluates an atom under the facts: 1 true, 0 false, -1 unknown.
func (s *State) decide(a *Term) int {
	if b, ok := a.constBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	if a.Op == "not" {
		d := s.decide(a.Args[0])
		if d < 0 {
			return d
		}
		return 1 - d
	}
	if v, ok := s.fidx[a]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch a.Op {
	case "eq":
		x, y := a.Args[0], a.Args[1]
		if isBoolT(x.Typ) && isBoolT(y.Typ) {
			dx, dy := s.decide(x), s.decide(y)
			if dx >= 0 && dy >= 0 {
				if dx == dy {
					return 1
				}
				return 0
			}
		}
		if x == tNil {
			return s.decideNil(y)
		}
		// x == k1 known, asked x == k2
		for _, f := range s.facts {
			if f.V && f.A.Op == "eq" {
				p, q := f.A.Args[0], f.A.Args[1]
				var other *Term
				if p == x {
					other = q
				} else if q == x {
					other = p
				}
				if other != nil && other.isConst() && y.isConst() && other != y {
					return 0
				}
			}
			if y.isConst() && f.V && f.A.Op == "empty" && f.A.Args[0] == x {
				if c, ok := y.constStr(); ok && c != "" {
					return 0
				}
			}
		}
	case "empty":
		x := a.Args[0]
		for _, f := range s.facts {
			if f.V && f.A.Op == "eq" {
				p, q := f.A.Args[0], f.A.Args[1]
				if p == x && q.isConst() || q == x && p.isConst() {
					return 0
				}
			}
			// a string with a non-empty part is not empty
			if f.V && (f.A.Op == "contains" || f.A.Op == "hasprefix" || f.A.Op == "hassuffix") && f.A.Args[0] == x {
				if c, ok := f.A.Args[1].constStr(); ok && c != "" {
					return 0
				}
			}
			if f.V && f.A.Op == "eq" && f.A.Args[0] == tNil && f.A.Args[1] == x {
				return 1
			}
			// len(x) == n, n unknown: nothing
		}
		if x.Op == "wide" && x.Lp.slotNonEmpty(x.Sym) {
			return 0
		}
	case "tlt":
		if s.decideKnown(mkOp("tlt", "", types.Typ[types.Bool], a.Args[1], a.Args[0])) == 1 {
			return 0
		}
	case "lt":
		if k, ok := a.Args[1].constInt(); ok {
			x := a.Args[0]
			for _, f := range s.facts {
				if f.A.Op == "lt" && f.A.Args[0] == x {
					if k2, ok := f.A.Args[1].constInt(); ok {
						if f.V && k2 <= k {
							return 1
						}
						if !f.V && k2 >= k {
							return 0
						}
					}
				}
				if f.V && f.A.Op == "eq" && f.A.Args[0] == x {
					if k2, ok := f.A.Args[1].constInt(); ok {
						if k2 < k {
							return 1
						}
						return 0
					}
				}
			}
		}
	case "has":
		if s.decideKnown(emptyAtom(a.Args[0])) == 1 {
			return 0
		}
	case "hasprefix":
		if s.decideKnown(emptyAtom(a.Args[0])) == 1 {
			if c, ok := a.Args[1].constStr(); ok && c != "" {
				return 0
			}
		}
	case "istype":
		if s.decideNil(a.Args[0]) == 1 {
			return 0
		}
	}
	return -1
}

func (s *State) decideKnown(a *Term) int {
	if b, ok := a.constBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	if v, ok := s.fidx[a]; ok {
		if v {
			return 1
		}
		return 0
	}
	return -1
}

// decideNil: 1 nil, 0 non-nil, -1 unknown.
func (s *State) decideNil(x *Term) int {
	n := nilAtom(x)
	if b, ok := n.constBool(); ok {
		if b {
			return 1
		}
		return 0
	}
	if n.Op == "eq" {
		x = n.Args[1]
	}
	if v, ok := s.fidx[n]; ok {
		if v {
			return 1
		}
		return 0
	}
	for _, f := range s.facts {
		if f.V && f.A.Op == "eq" {
			p, q := f.A.Args[0], f.A.Args[1]
			var o *Term
			if p == x {
				o = q
			} else if q == x {
				o = p
			}
			if o != nil && o != tNil {
				if b, ok := nilAtom(o).constBool(); ok {
					if b {
						return 1
					}
					return 0
				}
			}
		}
		if f.V && f.A.Op == "istype" && f.A.Args[0] == x {
			return 0
		}
		// the error of a context is not nil once its Done channel is closed
		if f.V && f.A.Op == "chosen" && x.Op == "call" && x.Sym == "(context.Context).Err" && f.A.Args[0].Sym == "(context.Context).Done" && f.A.Args[0].Args[0] == x.Args[0] {
			return 0
		}
		if !f.V && f.A.Op == "empty" && f.A.Args[0] == x {
			return 0
		}
	}
	return -1
}

// assume adds a literal; false means the state became infeasible.
func (s *State) assume(a *Term, v bool) bool {
	if a.Op == "not" {
		return s.assume(a.Args[0], !v)
	}
	switch d := s.decide(a); {
	case d == 1:
		return v
	case d == 0:
		return !v
	}
	s.facts = append(s.facts, Fact{a, v})
	s.fidx[a] = v
	// consequences
	switch a.Op {
	case "eq":
		if a.Args[0] == tNil && v {
			// nothing else is non-nil of it
		}
		if v && a.Args[0].Op == "len" {
			if k, ok := a.Args[1].constInt(); ok && k > 0 {
				if !s.assume(emptyAtom(a.Args[0].Args[0]), false) {
					return false
				}
			}
		}
		if isBoolT(a.Args[0].Typ) && isBoolT(a.Args[1].Typ) {
			if d := s.decide(a.Args[0]); d >= 0 {
				return s.assume(a.Args[1], (d == 1) == v)
			}
			if d := s.decide(a.Args[1]); d >= 0 {
				return s.assume(a.Args[0], (d == 1) == v)
			}
		}
	case "lt":
		if v {
			// it < len(L): L is not empty
			if y, k := splitAdd(a.Args[1]); y != nil && y.Op == "len" && k <= 0 && nonNeg(a.Args[0]) {
				if !s.assume(emptyAtom(y.Args[0]), false) {
					return false
				}
			}
		} else {
			// !(len(L) < it+1) is it < len(L)
			if x := a.Args[0]; x.Op == "len" {
				if y, k := splitAdd(a.Args[1]); y != nil && nonNeg(y) && k >= 1 {
					if !s.assume(emptyAtom(x.Args[0]), false) {
						return false
					}
				}
			}
		}
	case "has", "mapnext":
		if v {
			if !s.assume(emptyAtom(a.Args[0]), false) {
				return false
			}
		}
	}
	// on the first iteration the counters of a loop are 0
	if a.tags {
		for _, l := range s.loops {
			if !l.first || !hasTag(a, l.id, "c") {
				continue
			}
			id := l.id
			d := rebuild(a, func(t *Term) *Term {
				if t.Op == "ctr" && getTag(t.Tag, id) == "c" && strings.HasPrefix(t.Sym, id+"/") {
					return kInt(0)
				}
				return t
			}, map[*Term]*Term{})
			if d != a {
				if a.Op == "mapnext" {
					continue
				}
				if !s.assume(d, v) {
					return false
				}
			}
		}
		if a.Op == "mapnext" && !v {
			for _, l := range s.loops {
				if l.first && getTag(a.Tag, l.id) == "c" {
					if !s.assume(emptyAtom(a.Args[0]), true) {
						return false
					}
				}
			}
		}
	}
	return true
}

func nonNeg(t *Term) bool { return t.Op == "ctr" || t.Op == "len" }

// ---- loops -----------------------------------------------------------------

// LoopCtx is one loop entered from one abstract state, with every iteration
// class found by the fixpoint.
type LoopCtx struct {
	serial  int
	id      string
	fn      *ssa.Function
	hdr     *ssa.BasicBlock
	Iters   []*Iter
	iterKey map[string]bool
	Slots   map[string]*slot
	visited map[string]bool
	nstates int
	changed map[string]bool
	joined  map[string]*joinState
}

type slot struct {
	Inits    []*Term
	Contribs []*Term
	From     []*Iter
	mixed    bool // may also be what it was before the loop
	nonEmpty bool // taken for granted by a decision
}

// Iter is one class of iterations that reach the back edge.
type Iter struct {
	All    []Fact // every fact at the back edge, without
	Prior  []Fact // those about values of earlier iterations
	Base   int    // All[Base:] were decided in this iteration
	Facts  []Fact // = All[Base:]
	Events []*Event
	First  bool
	Phis   map[string]*Term // new value of the loop-carried slots
	Heap   map[*Term]*Term  // memory changed in the iteration
	Start  map[string]*Term // value of the loop-carried variables at the start of the iteration
	Pos    token.Pos
}

var loopSerial int

// noStart says that no iteration starts with the constant v in variable n
func (l *LoopCtx) noStart(n string, v *Term) bool {
	for _, it := range l.Iters {
		if s := it.Start[n]; s == nil || s == v || !s.isConst() && s != tNil && s.Op != "gval" {
			return false
		}
	}
	return true
}

func (l *LoopCtx) slotNonEmpty(name string) bool {
	sl := l.Slots[name]
	if sl == nil {
		return false
	}
	// only non-empty contributions ever flow into it
	for _, c := range sl.Contribs {
		if c.Op != "append" && !(c.Op == "appendall" && emptyAtom(c) == tFalse) {
			if c.Op == "wide" && c.Sym == name {
				continue
			}
			return false
		}
	}
	if len(sl.Contribs) == 0 || sl.mixed {
		return false
	}
	sl.nonEmpty = true
	return true
}

// Exit is one way out of a function.
type Exit struct {
	St    *State
	Res   []*Term
	Panic bool
	Pos   token.Pos
	Fn    *ssa.Function
	base  int // facts before the call
	ev0   int
}
