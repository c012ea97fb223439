package flow

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

type loopSnap struct {
	vals map[string]*Term // slot values when the iteration started
	gen  map[string]bool  // slots already generalised
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	blk    *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	ctx    int
	call   ssa.CallInstruction // call site in the parent frame
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopSnap
	// how the frame's result is used
	discard  bool // deferred call: result unused
	deferRun bool // running a deferred call
	void     bool // the caller's result was bound when the call was entered
	unwind   bool // this frame's defers are running because of a panic
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopSnap, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

// Trace is the path that led to a state.
type Trace struct {
	Prev *Trace
	Pos  string
	Msg  string
	N    int
}

// State is an abstract program state.
type State struct {
	in     *Interp
	frames []*Frame
	mem    map[*Term]*Term
	facts  *Facts
	// memory whose initial content is no longer known
	dirtyFld  map[types.Object]bool
	dirtyBase map[*Term]bool
	dirtyAll  bool
	escaped   map[*Term]bool // allocs other code may reach

	R map[string]*Term  // rule registers (renamed by loop widening)
	D map[string]string // rule automaton states

	panicking bool
	panicVal  *Term
	trace     *Trace
	dead      bool
	steps     int
	pos       []int  // order in the work list
	loc       string // set on joined states: their place
}

func (s *State) Clone() *State {
	n := &State{
		in:        s.in,
		frames:    make([]*Frame, len(s.frames)),
		mem:       make(map[*Term]*Term, len(s.mem)),
		facts:     s.facts.clone(),
		dirtyFld:  make(map[types.Object]bool, len(s.dirtyFld)),
		dirtyBase: make(map[*Term]bool, len(s.dirtyBase)),
		dirtyAll:  s.dirtyAll,
		escaped:   make(map[*Term]bool, len(s.escaped)),
		R:         make(map[string]*Term, len(s.R)),
		D:         make(map[string]string, len(s.D)),
		panicking: s.panicking,
		panicVal:  s.panicVal,
		trace:     s.trace,
	}
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.dirtyFld {
		n.dirtyFld[k] = true
	}
	for k := range s.dirtyBase {
		n.dirtyBase[k] = true
	}
	for k := range s.escaped {
		n.escaped[k] = true
	}
	for k, v := range s.R {
		n.R[k] = v
	}
	for k, v := range s.D {
		n.D[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// Decide evaluates a boolean term on this path.
func (s *State) Decide(c *Term) (val, known bool) { return s.in.TS.decide(s.facts, c) }

// Must reports whether the boolean term is certainly true.
func (s *State) Must(c *Term) bool {
	v, k := s.Decide(c)
	return k && v
}

// Assume adds a fact to the path, returning false if it is infeasible.
func (s *State) Assume(c *Term, val bool) bool {
	if !s.in.TS.assume(s.facts, c, val) {
		s.dead = true
		return false
	}
	return true
}

// Le reports whether a <= b on this path.
func (s *State) Le(a, b *Term) bool { return s.Must(s.in.TS.le0(s.in.TS.Sub(a, b))) }

// Lt reports whether a < b on this path.
func (s *State) Lt(a, b *Term) bool {
	return s.Must(s.in.TS.le0(s.in.TS.AddI(s.in.TS.Sub(a, b), 1)))
}

// EqInt reports whether the integers are equal on this path.
func (s *State) EqInt(a, b *Term) bool { return s.Must(s.in.TS.eq0(s.in.TS.Sub(a, b))) }

// Bounds returns the interval of an integer term.
func (s *State) Bounds(a *Term) Ival { return s.in.TS.ival(s.facts, a, 3) }

// IsNil evaluates x == nil.
func (s *State) IsNil(x *Term) (val, known bool) { return s.Decide(s.in.TS.IsNil(x)) }

// FactString renders the facts for a report.
func (s *State) FactString() string { return s.facts.String() }

// Same reports whether two terms must be equal.
func (s *State) Same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if v, k := s.Decide(s.in.TS.Eq(a, b, nil)); k && v {
		return true
	}
	if d, ok := s.in.TS.ConstDiff(a, b); ok {
		return d == 0
	}
	if isIntTerm(a) && isIntTerm(b) {
		return s.EqInt(a, b)
	}
	return false
}

func isIntTerm(a *Term) bool {
	if a.Op == "lin" || a.Op == "len" || a.Op == "cap" {
		return true
	}
	if _, ok := a.IntVal(); ok {
		return true
	}
	return a.T != nil && isInteger(a.T)
}

// --- memory ---

// root strips field and element selections off an address.
func root(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" || a.Op == "melem" || a.Op == "mhas" {
		a = a.Args[0]
		for a.Op == "slice" {
			a = a.Args[0]
		}
	}
	return a
}

func isLocal(a *Term) bool { r := root(a); return r.Op == "alloc" || r.Op == "make" }

// mayAlias reports whether two distinct addresses can denote the same cell.
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if (a.Op == "melem" || a.Op == "mhas") != (b.Op == "melem" || b.Op == "mhas") {
		return false
	}
	if a.Op == "melem" || a.Op == "mhas" {
		if a.Op != b.Op {
			return false
		}
		if !s.mayBeSame(a.Args[0], b.Args[0]) {
			return false
		}
		if a.Args[0] == b.Args[0] {
			if v, k := s.Decide(s.in.TS.Eq(a.Args[1], b.Args[1], a.Args[1].T)); k && !v {
				return false
			}
		}
		return true
	}
	ra, rb := root(a), root(b)
	if (ra.Op == "alloc" || ra.Op == "make") && (rb.Op == "alloc" || rb.Op == "make") && ra != rb {
		return false
	}
	if ra.Op == "alloc" && !s.escaped[ra] && ra != rb || rb.Op == "alloc" && !s.escaped[rb] && ra != rb {
		return false
	}
	if ra.Op == "global" && rb.Op == "global" && ra != rb {
		return false
	}
	switch {
	case a.Op == "faddr" && b.Op == "faddr":
		return a.Obj == b.Obj && s.mayAlias(a.Args[0], b.Args[0]) || a.Obj == b.Obj && ra != rb
	case a.Op == "iaddr" && b.Op == "iaddr":
		if a.Args[0] == b.Args[0] {
			d, ok := s.in.TS.ConstDiff(a.Args[1], b.Args[1])
			if ok && d != 0 {
				return false
			}
			if v, k := s.Decide(s.in.TS.eq0(s.in.TS.Sub(a.Args[1], b.Args[1]))); k && !v {
				return false
			}
		}
		return true
	case a.Op == "faddr" && b.Op == "iaddr", a.Op == "iaddr" && b.Op == "faddr":
		if ra == rb {
			return false
		}
		return sameType(a.T, b.T)
	}
	return sameType(a.T, b.T)
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return true
	}
	return types.Identical(a, b)
}

func (s *State) mayBeSame(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == "make" && b.Op == "make" {
		return false
	}
	if (a.Op == "make" || a.Op == "alloc") && !s.escaped[a] || (b.Op == "make" || b.Op == "alloc") && !s.escaped[b] {
		return false
	}
	return true
}

func (s *State) isDirty(addr *Term) bool {
	if isLocal(addr) {
		r := root(addr)
		return s.dirtyBase[r]
	}
	if s.dirtyAll {
		return true
	}
	d := false
	addr.Walk(func(t *Term) bool {
		if s.dirtyBase[t] || t.Obj != nil && s.dirtyFld[t.Obj] && t == addr {
			d = true
		}
		return !d
	})
	return d
}

// Load reads memory.
func (s *State) Load(addr *Term, typ types.Type, site string) *Term {
	ts := s.in.TS
	if st, ok := typ.Underlying().(*types.Struct); ok {
		if v, ok := s.mem[addr]; ok {
			return v
		}
		if st.NumFields() == 0 {
			return ts.Zero(typ)
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.Load(ts.FieldAddr(addr, st.Field(i)), st.Field(i).Type(), site+"."+st.Field(i).Name())
		}
		return ts.Struct(typ, fs)
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	// the struct may be stored as one value
	if addr.Op == "faddr" {
		if v, ok := s.mem[addr.Args[0]]; ok {
			if st, ok := v.structType(); ok {
				for i := 0; i < st.NumFields(); i++ {
					if types.Object(st.Field(i)) == addr.Obj {
						return ts.Field(v, i, st)
					}
				}
			}
		}
	}
	// an element may have been stored under another index
	if inElem(addr) {
		var other bool
		for a, v := range s.mem {
			if !inElem(a) || root(a) != root(addr) || !s.mayAlias(a, addr) {
				continue
			}
			if s.sameAddr(a, addr) {
				return v
			}
			other = true
		}
		if other {
			v := s.in.fresh(s, "ld:"+site, typ)
			s.mem[addr] = v
			return v
		}
	}
	if !s.isDirty(addr) {
		r := root(addr)
		if r.Op == "alloc" && r.Name != "" && !strings.HasPrefix(r.Name, "old:") && !s.in.lateAlloc[r] {
			return ts.Zero(typ)
		}
		v := ts.intern(&Term{Op: "load", T: typ, Args: []*Term{addr}})
		return v
	}
	v := s.in.fresh(s, "ld:"+site, typ)
	s.mem[addr] = v
	return v
}

// inElem reports an address within an element of a list.
func inElem(a *Term) bool {
	for a.Op == "faddr" {
		a = a.Args[0]
	}
	return a.Op == "iaddr"
}

// sameAddr reports addresses that differ at most in how an index is written.
func (s *State) sameAddr(a, b *Term) bool {
	for {
		switch {
		case a == b:
			return true
		case a.Op == "faddr" && b.Op == "faddr" && a.Obj == b.Obj:
			a, b = a.Args[0], b.Args[0]
		case a.Op == "iaddr" && b.Op == "iaddr" && s.EqInt(a.Args[1], b.Args[1]):
			a, b = a.Args[0], b.Args[0]
		default:
			return false
		}
	}
}

func (t *Term) structType() (*types.Struct, bool) {
	if t.T == nil {
		return nil, false
	}
	st, ok := t.T.Underlying().(*types.Struct)
	return st, ok
}

// Store writes memory.
func (s *State) Store(addr, val *Term, typ types.Type) {
	ts := s.in.TS
	if st, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			s.Store(ts.FieldAddr(addr, st.Field(i)), ts.Field(val, i, st), st.Field(i).Type())
		}
		return
	}
	for a := range s.mem {
		if a != addr && s.mayAlias(a, addr) {
			s.forget(a)
		}
	}
	// storing through an unknown pointer may change other initial cells
	if addr.Op == "faddr" && !isLocal(addr) && !s.in.uniqueBase(addr) {
		s.dirtyFld[addr.Obj] = true
	}
	s.mem[addr] = val
	if !isLocal(addr) || s.escaped[root(addr)] {
		s.escape(val)
	}
}

// forget drops what is known about a cell.
func (s *State) forget(a *Term) {
	delete(s.mem, a)
	if r := root(a); r.Op == "alloc" || r.Op == "make" {
		s.mem[a] = s.in.freshAt(s, fmt.Sprintf("fg:%d", a.ID), a.T)
		if a.T == nil {
			delete(s.mem, a)
			s.dirtyBase[r] = true
		}
		return
	}
	if a.Obj != nil {
		s.dirtyFld[a.Obj] = true
		return
	}
	s.dirtyBase[root(a)] = true
}

// escape marks every alloc reachable from v as reachable by other code.
func (s *State) escape(v *Term) {
	if v == nil {
		return
	}
	var todo []*Term
	v.Walk(func(t *Term) bool {
		if (t.Op == "alloc" || t.Op == "make") && !s.escaped[t] {
			s.escaped[t] = true
			todo = append(todo, t)
		}
		return true
	})
	for _, r := range todo {
		for a, val := range s.mem {
			if root(a) == r {
				s.escape(val)
			}
		}
	}
}

// reach collects the allocs reachable from the given values through memory.
// What a closure only reads through a captured variable is not included.
func (s *State) reach(vs ...*Term) map[*Term]bool {
	out := map[*Term]bool{}
	ro := map[*Term]bool{} // visited without being writable
	var visit func(v *Term)
	content := func(t *Term) {
		for a, val := range s.mem {
			if root(a) == t {
				visit(val)
			}
		}
	}
	visit = func(v *Term) {
		if v == nil {
			return
		}
		v.Walk(func(t *Term) bool {
			if t.Op == "closure" {
				for i, b := range t.Args {
					if b.Op == "alloc" && i < len(t.Fn.FreeVars) && s.in.Prog.readOnlyFree(t.Fn.FreeVars[i]) {
						if !out[b] && !ro[b] {
							ro[b] = true
							content(b)
						}
						continue
					}
					visit(b)
				}
				return false
			}
			if (t.Op == "alloc" || t.Op == "make") && !out[t] {
				out[t] = true
				content(t)
			}
			return true
		})
	}
	for _, v := range vs {
		visit(v)
	}
	return out
}

// Refers reports that x occurs in v or in memory v leads to.
func (s *State) Refers(v, x *Term) bool {
	has := func(v *Term) (found bool) {
		v.Walk(func(t *Term) bool {
			found = found || t == x
			return !found
		})
		return
	}
	if has(v) {
		return true
	}
	seen := map[*Term]bool{}
	var visit func(v *Term) bool
	visit = func(v *Term) (found bool) {
		v.Walk(func(t *Term) bool {
			if (t.Op == "alloc" || t.Op == "make") && !seen[t] {
				seen[t] = true
				for a, val := range s.mem {
					if root(a) == t && (has(val) || visit(val)) {
						found = true
					}
				}
			}
			return !found
		})
		return
	}
	return visit(v)
}

// readOnlyFree reports whether the captured variable is only read.
func (p *Program) readOnlyFree(v *ssa.FreeVar) bool {
	if r, ok := p.roFree[v]; ok {
		return r
	}
	if p.roFree == nil {
		p.roFree = map[*ssa.FreeVar]bool{}
	}
	p.roFree[v] = false // recursion
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !ok(r) {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v && !p.readOnlyFree(r.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	p.roFree[v] = ok(v)
	return p.roFree[v]
}

// HavocBase forgets all memory whose address mentions base.
func (s *State) HavocBase(base *Term) {
	s.dirtyBase[base] = true
	for a := range s.mem {
		hit := false
		a.Walk(func(t *Term) bool {
			if t == base {
				hit = true
			}
			return !hit
		})
		if hit {
			delete(s.mem, a)
		}
	}
}

// HavocFields forgets cells of the given fields.
func (s *State) HavocFields(flds map[types.Object]bool) {
	for a := range s.mem {
		if a.Obj != nil && flds[a.Obj] && (!isLocal(a) || s.escaped[root(a)]) && !s.in.shielded(a) {
			s.forgetShared(a)
		}
	}
	for o := range flds {
		s.dirtyFld[o] = true
	}
}

func (s *State) forgetShared(a *Term) {
	delete(s.mem, a)
	if isLocal(a) {
		s.dirtyBase[root(a)] = true
	}
}

// HavocShared forgets all memory other code can reach.
func (s *State) HavocShared() {
	for a := range s.mem {
		if s.in.owned[root(a)] {
			continue
		}
		if !isLocal(a) || s.escaped[root(a)] {
			if s.in.shielded(a) {
				continue
			}
			s.forgetShared(a)
		}
	}
	for e := range s.escaped {
		s.dirtyBase[e] = true
	}
	s.dirtyAll = true
}

// HavocReach forgets the allocs reachable from values.
func (s *State) HavocReach(vs ...*Term) {
	rs := s.reach(vs...)
	for a := range s.mem {
		if rs[root(a)] && !s.in.shielded(a) {
			delete(s.mem, a)
		}
	}
	for r := range rs {
		s.dirtyBase[r] = true
	}
}

// --- whole-state renaming ---

// rename rewrites every term of the state. sub returns nil for a lost term.
func (s *State) rename(sub func(*Term) *Term) {
	lost := func(t *Term, slot string) *Term {
		if t == nil {
			return nil
		}
		r := sub(t)
		if r == nil {
			r = s.in.TS.Sym("lost:"+slot, t.T)
		}
		return r
	}
	for i, f := range s.frames {
		for v, t := range f.env {
			f.env[v] = lost(t, fmt.Sprintf("%d.%s.%s", i, f.fn.Name(), v.Name()))
		}
		for j := range f.defers {
			d := &f.defers[j]
			d.fn = lost(d.fn, fmt.Sprintf("%d.defer%d", i, j))
			args := make([]*Term, len(d.args))
			for k, a := range d.args {
				args[k] = lost(a, fmt.Sprintf("%d.defer%d.%d", i, j, k))
			}
			d.args = args
		}
		for h, sn := range f.loops {
			n := &loopSnap{vals: make(map[string]*Term, len(sn.vals)), gen: sn.gen}
			changed := false
			for k, v := range sn.vals {
				r := sub(v)
				if r != v {
					changed = true
				}
				if r != nil {
					n.vals[k] = r
				}
			}
			if changed {
				f.loops[h] = n
			}
		}
	}
	mem := make(map[*Term]*Term, len(s.mem))
	for _, a := range sortedTerms(s.mem) {
		na := sub(a)
		if na == nil {
			if r := root(a); r.Op == "alloc" && sub(r) != nil {
				s.dirtyBase[sub(r)] = true
			}
			continue
		}
		mem[na] = lost(s.mem[a], fmt.Sprintf("mem:%d", na.ID))
	}
	s.mem = mem
	db := make(map[*Term]bool, len(s.dirtyBase))
	for b := range s.dirtyBase {
		if n := sub(b); n != nil {
			db[n] = true
		}
	}
	s.dirtyBase = db
	es := make(map[*Term]bool, len(s.escaped))
	for b := range s.escaped {
		if n := sub(b); n != nil {
			es[n] = true
		}
	}
	s.escaped = es
	for k, v := range s.R {
		s.R[k] = lost(v, "R:"+k)
	}
	if s.panicVal != nil {
		s.panicVal = lost(s.panicVal, "panic")
	}
	f, ok := s.in.TS.substFacts(s.facts, sub)
	s.facts = f
	if !ok {
		s.dead = true
	}
}

func sortedTerms(m map[*Term]*Term) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

// substSyms renames symbols (or whole terms) by map; a nil image means lost.
func (s *State) substSyms(m map[*Term]*Term) {
	ts := s.in.TS
	memo := map[*Term]*Term{}
	s.rename(func(t *Term) *Term {
		if t == nil {
			return nil
		}
		hit := false
		for k := range m {
			if k == t || t.syms[k] || !k.isSymbol() {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		return ts.subst(t, m, memo)
	})
}

func (t *Term) isSymbol() bool { return t.Op == "sym" || t.Op == "call" || t.Op == "alloc" }

// mentions reports whether any part of the state mentions the symbol.
func (s *State) mentions(x *Term) bool {
	for _, f := range s.frames {
		for _, t := range f.env {
			if t.Mentions(x) {
				return true
			}
		}
		for _, d := range f.defers {
			if d.fn.Mentions(x) {
				return true
			}
			for _, a := range d.args {
				if a.Mentions(x) {
					return true
				}
			}
		}
	}
	for a, v := range s.mem {
		if a.Mentions(x) || v.Mentions(x) {
			return true
		}
	}
	for _, v := range s.R {
		if v.Mentions(x) {
			return true
		}
	}
	for k := range s.facts.ints {
		if k.Mentions(x) {
			return true
		}
	}
	for k := range s.facts.bools {
		if k.Mentions(x) {
			return true
		}
	}
	return s.panicVal.Mentions(x)
}

// gc drops values, cells and facts that can no longer matter.
func (s *State) gc() {
	live := map[*Term]bool{}
	var queue []*Term
	mark := func(t *Term) {
		if t == nil || live[t] {
			return
		}
		queue = append(queue, t)
	}
	drain := func() {
		for len(queue) > 0 {
			t := queue[len(queue)-1]
			queue = queue[:len(queue)-1]
			if live[t] {
				continue
			}
			live[t] = true
			for _, a := range t.Args {
				if !live[a] {
					queue = append(queue, a)
				}
			}
		}
	}
	for _, f := range s.frames {
		lv := s.in.liveAt(f.blk, f.idx)
		for v, t := range f.env {
			if !lv[v] {
				if _, isAlloc := v.(*ssa.Alloc); isAlloc && s.in.keepAlloc(f.fn, v) {
					mark(t)
					continue
				}
				delete(f.env, v)
				continue
			}
			mark(t)
		}
		for _, d := range f.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, t := range s.R {
		mark(t)
	}
	mark(s.panicVal)
	for _, t := range s.in.keepTerms {
		mark(t)
	}
	drain()
	// cells: of live allocs, or of addresses that can be formed again
	kept := map[*Term]bool{}
	for again := true; again; {
		again = false
		for a, v := range s.mem {
			if kept[a] {
				continue
			}
			ok := true
			r := root(a)
			if r.Op == "alloc" || r.Op == "make" {
				ok = live[r]
			}
			if ok {
				for sy := range a.syms {
					if !live[sy] && !s.in.rootSyms[sy] {
						ok = false
						break
					}
				}
			}
			if ok {
				kept[a] = true
				again = true
				mark(a)
				mark(v)
				drain()
			}
		}
	}
	for a := range s.mem {
		if !kept[a] {
			delete(s.mem, a)
		}
	}
	for e := range s.escaped {
		if !live[e] {
			delete(s.escaped, e)
		}
	}
	for e := range s.dirtyBase {
		if !live[e] {
			ok := e.Op != "alloc" && e.Op != "make"
			for sy := range e.syms {
				if !live[sy] && !s.in.rootSyms[sy] {
					ok = false
				}
			}
			if !ok {
				delete(s.dirtyBase, e)
			}
		}
	}
	// facts whose atoms can still be seen
	canSee := func(t *Term) bool {
		if live[t] {
			return true
		}
		switch t.Op {
		case "sym", "call", "alloc", "make":
			return s.in.rootSyms[t]
		}
		ok := true
		for sy := range t.syms {
			if !live[sy] && !s.in.rootSyms[sy] {
				ok = false
			}
		}
		return ok
	}
	s.project(canSee)
	s.keepHeld(canSee)
	for p := range s.facts.ints {
		m, _ := s.in.TS.toLin(p)
		for a := range m {
			if !canSee(a) {
				delete(s.facts.ints, p)
				break
			}
		}
	}
	for c := range s.facts.bools {
		for _, a := range c.Args {
			if !canSee(a) {
				delete(s.facts.bools, c)
				break
			}
		}
		if len(c.Args) == 0 && !canSee(c) {
			delete(s.facts.bools, c)
		}
	}
}

// keepHeld states how the values that remain relate to the values a rule holds
// fixed, where that follows only through an atom about to be forgotten.
func (s *State) keepHeld(canSee func(*Term) bool) {
	ts := s.in.TS
	var held []*Term
	for _, k := range s.held() {
		held = append(held, s.R[k])
	}
	if s.in.KeepOrder {
		// every number related to one about to be forgotten
		seen := map[*Term]bool{}
		for _, q := range sortedFactInts(s.facts.ints) {
			m, _ := ts.toLin(q)
			if len(m) != 2 {
				continue
			}
			var v *Term
			n := 0
			for a := range m {
				if canSee(a) {
					v = a
					n++
				}
			}
			if n == 1 && !seen[v] {
				seen[v] = true
				held = append(held, v)
			}
		}
	}
	if len(held) == 0 {
		return
	}
	for _, q := range sortedFactInts(s.facts.ints) {
		m, _ := ts.toLin(q)
		var v *Term
		lost := false
		for a := range m {
			if canSee(a) {
				v = a
			} else {
				lost = true
			}
		}
		if !lost || v == nil || len(m) != 2 {
			continue
		}
		for _, k := range held {
			if k == v {
				continue
			}
			iv := ts.ival(s.facts, ts.Sub(v, k), 2)
			p, sg, k0 := ts.poly(ts.Sub(v, k))
			if p == nil || iv.isTop() {
				continue
			}
			s.facts.ints[p] = iv.scale(sg).plus(Ival{Lo: -sg * k0, Hi: -sg * k0})
		}
	}
}

// project rewrites facts about an atom that is about to be forgotten in terms
// of one that is known to differ from it by a constant.
func (s *State) project(canSee func(*Term) bool) {
	ts := s.in.TS
	for round := 0; round < 4; round++ {
		var p, dead, repl *Term
		for _, q := range sortedFactInts(s.facts.ints) {
			iv := s.facts.ints[q]
			if iv.Lo != iv.Hi {
				continue
			}
			m, _ := ts.toLin(q)
			if len(m) > 3 {
				continue
			}
			var d *Term
			n := 0
			for a, k := range m {
				if !canSee(a) && (k == 1 || k == -1) {
					n++
					d = a
				}
			}
			if n != 1 {
				continue
			}
			// k*d + rest = value
			k := m[d]
			rest := ts.AddK(q, -k, d)
			p, dead = q, d
			repl = ts.Scale(k, ts.AddI(ts.Scale(-1, rest), iv.Lo))
			break
		}
		if p == nil {
			return
		}
		delete(s.facts.ints, p)
		for _, q := range sortedFactInts(s.facts.ints) {
			m, _ := ts.toLin(q)
			k, has := m[dead]
			if !has {
				continue
			}
			iv := s.facts.ints[q]
			delete(s.facts.ints, q)
			np := ts.Add(ts.AddK(q, -k, dead), ts.Scale(k, repl))
			if _, isK := np.IntVal(); isK {
				continue
			}
			if iv.Lo != math.MinInt64 {
				ts.assume(s.facts, ts.le0(ts.Sub(ts.Int(iv.Lo), np)), true)
			}
			if iv.Hi != math.MaxInt64 {
				ts.assume(s.facts, ts.le0(ts.AddI(np, -iv.Hi)), true)
			}
			_ = ts
		}
	}
}

// ctlKey identifies the control location, including the rule automaton.
func (s *State) ctlKey(b *strings.Builder) {
	for _, f := range s.frames {
		fmt.Fprintf(b, "%d:%s:%d.%d,%d", f.ctx, f.fn.Name(), f.blk.Index, f.idx, len(f.defers))
		if f.unwind {
			b.WriteByte('u')
		}
		if f.deferRun {
			b.WriteByte('d')
		}
		b.WriteByte('/')
	}
	if s.panicking {
		b.WriteString("PANIC")
	}
	// the rounds of a short loop are followed one by one
	for _, f := range s.frames {
		for _, ph := range s.in.shortPhis(f.fn) {
			if t := f.env[ph]; t != nil {
				if k, ok := t.IntVal(); ok {
					fmt.Fprintf(b, "%s=%d,", ph.Name(), k)
				}
			}
		}
	}
	if s.in.ErrKeys {
		for _, f := range s.frames {
			var es []string
			for v, t := range f.env {
				if types.Identical(v.Type(), errorType) {
					es = append(es, v.Name()+"="+ErrTag(t))
				}
			}
			sort.Strings(es)
			b.WriteString(strings.Join(es, ","))
			b.WriteByte('/')
		}
	}
	ks := make([]string, 0, len(s.D))
	for k := range s.D {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(b, "%s=%s,", k, s.D[k])
	}
	ks = ks[:0]
	for k, v := range s.R {
		if v != nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		if strings.HasPrefix(k, "!") {
			fmt.Fprintf(b, "=%d", s.R[k].ID)
		}
		b.WriteByte(',')
	}
}

// dataKey identifies everything but the facts.
func (s *State) dataKey(b *strings.Builder) {
	for _, f := range s.frames {
		ks := make([]ssa.Value, 0, len(f.env))
		for v := range f.env {
			ks = append(ks, v)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
		for _, v := range ks {
			fmt.Fprintf(b, "%s=%d,", v.Name(), f.env[v].ID)
		}
		for _, d := range f.defers {
			fmt.Fprintf(b, "D%d(", d.fn.ID)
			for _, a := range d.args {
				fmt.Fprintf(b, "%d,", a.ID)
			}
			b.WriteByte(')')
		}
		b.WriteByte('/')
	}
	for _, a := range sortedTerms(s.mem) {
		fmt.Fprintf(b, "%d:%d,", a.ID, s.mem[a].ID)
	}
	b.WriteByte('|')
	var ids []int
	for t := range s.dirtyBase {
		ids = append(ids, t.ID)
	}
	sort.Ints(ids)
	fmt.Fprint(b, ids, s.dirtyAll)
	ids = ids[:0]
	for t := range s.escaped {
		ids = append(ids, t.ID)
	}
	sort.Ints(ids)
	fmt.Fprint(b, ids)
	var ns []string
	for o := range s.dirtyFld {
		ns = append(ns, fmt.Sprintf("%p", o))
	}
	sort.Strings(ns)
	fmt.Fprint(b, ns)
	ks := make([]string, 0, len(s.R))
	for k := range s.R {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if s.R[k] != nil {
			fmt.Fprintf(b, "%s=%d,", k, s.R[k].ID)
		}
	}
}

var errorType = types.Universe.Lookup("error").Type()

// ErrTag summarises what is known about an error value.
func ErrTag(t *Term) string {
	switch {
	case t == nil:
		return "?"
	case t.Op == "nil":
		return "nil"
	case t.Op == "wrap":
		return t.Name + "(" + ErrTag(t.Args[0]) + ")"
	case t.Op == "newerr" && len(t.Args) > 0:
		return "new " + t.Args[0].Name
	}
	return t.Op
}

// EachTrue visits the conditions known to hold.
func (s *State) EachTrue(f func(*Term)) {
	for q, v := range s.facts.bools {
		if v {
			f(q)
		}
	}
}

// DropFacts forgets the facts that are not to be kept; knowing less only ever
// adds behaviours.
func (s *State) DropFacts(keep func(*Term) bool) {
	for q := range s.facts.ints {
		if !keep(q) {
			delete(s.facts.ints, q)
		}
	}
	for q := range s.facts.bools {
		if !keep(q) {
			delete(s.facts.bools, q)
		}
	}
}

// EachInt enumerates the known bounds of linear terms.
func (s *State) EachInt(f func(*Term, Ival)) {
	for _, q := range sortedFactInts(s.facts.ints) {
		f(q, s.facts.ints[q])
	}
}

// closureWrites says what other code can change of a variable whose address
// is only ever captured by closures.
type closureWrites struct {
	only bool // the address goes nowhere but into closures
	all  bool // the closures may write all of it
	flds map[types.Object]bool
}

// shielded reports a cell that other code cannot write: a field of a variable
// that is only captured by closures, none of which stores to the field.
func (in *Interp) shielded(a *Term) bool {
	if a.Op != "faddr" || a.Args[0].Op != "alloc" {
		return false
	}
	al := in.allocOf[a.Args[0]]
	if al == nil {
		return false
	}
	cw := in.cwrites[a.Args[0]]
	if cw == nil {
		cw = &closureWrites{only: true, flds: map[types.Object]bool{}}
		cw.scan(al, false, map[ssa.Value]bool{})
		in.cwrites[a.Args[0]] = cw
	}
	return cw.only && !cw.all && !cw.flds[a.Obj]
}

func (cw *closureWrites) scan(v ssa.Value, inside bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == v {
				cw.only = false
			} else if inside {
				cw.all = true
			}
		case *ssa.FieldAddr:
			st, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok {
				cw.only = false
				return
			}
			for _, rr := range *r.Referrers() {
				switch rr := rr.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if rr.Val == ssa.Value(r) {
						cw.only = false
					} else if inside {
						cw.flds[st.Field(r.Field)] = true
					}
				default:
					cw.flds[st.Field(r.Field)] = true
				}
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					cw.scan(r.Fn.(*ssa.Function).FreeVars[i], true, seen)
				}
			}
		default:
			cw.only = false
		}
	}
}

// Interp is the interpreter the state belongs to.
func (s *State) Interp() *Interp { return s.in }

// Slice is the term x[lo:hi].
func (in *Interp) Slice(s *State, xt, rt types.Type, x, lo, hi *Term) *Term {
	if lo == nil {
		lo = in.TS.Int(0)
	}
	return in.slice(s, xt, rt, x, lo, hi)
}

// Dead reports a state that was given up.
func (s *State) Dead() bool { return s.dead }

// maxRounds is the number of rounds up to which a counted loop is short.
const maxRounds = 8

// shortPhis are the counters of the loops of fn that end after a few rounds.
func (in *Interp) shortPhis(fn *ssa.Function) []*ssa.Phi {
	if r, ok := in.short[fn]; ok {
		return r
	}
	if in.short == nil {
		in.short = map[*ssa.Function][]*ssa.Phi{}
	}
	var out []*ssa.Phi
	few := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && isInteger(x.Type()) && x.Int64() >= 0 && x.Int64() <= maxRounds
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			sl, ok := x.Call.Args[0].(*ssa.Slice)
			if !ok || sl.Low != nil || sl.High != nil {
				return false
			}
			pt, ok := sl.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return false
			}
			at, ok := pt.Elem().Underlying().(*types.Array)
			return ok && at.Len() <= maxRounds
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInteger(ph.Type()) || len(ph.Edges) != 2 {
				continue
			}
			start, step := false, ssa.Value(nil)
			for _, e := range ph.Edges {
				switch x := e.(type) {
				case *ssa.Const:
					start = x.Value != nil && x.Int64() >= -1 && x.Int64() <= maxRounds
				case *ssa.BinOp:
					if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && x.X == ssa.Value(ph) && k.Int64() == 1 {
						step = x
					}
				}
			}
			if !start || step == nil {
				continue
			}
			bounded := false
			for _, v := range []ssa.Value{ph, step} {
				for _, u := range *v.Referrers() {
					if c, ok := u.(*ssa.BinOp); ok && c.Block() == b && c.X == v && (c.Op == token.LSS || c.Op == token.LEQ) && few(c.Y) {
						bounded = true
					}
				}
			}
			if bounded {
				out = append(out, ph)
			}
		}
	}
	in.short[fn] = out
	return out
}
