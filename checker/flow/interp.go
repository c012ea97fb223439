package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something a rule may want to observe.
type Event struct {
	Kind   string // call, ret, store, load, mapset, mapdel, send, recv, close, go, panic, exit, quo, rem, make, slice, index, defer
	Instr  ssa.Instruction
	Fn     *ssa.Function // enclosing function
	Callee *ssa.Function // resolved callee, if any
	Method *types.Func   // callee object, if it has one
	FnVal  *Term         // callee value of a dynamic call
	Name   string        // printable callee name
	Args   []*Term
	Addr   *Term
	Val    *Term
	Typ    types.Type
	Defer  bool // runs as a deferred call
	Block  bool // send/recv that blocks
	Closed bool // recv from a closed and empty channel
	Opaque bool // set when the call will not be inlined

	Result  *Term // set by the hook to override a call's result
	Handled bool  // the hook gave the call its effect; do not inline or havoc
	alts    []Alt
}

// Hook observes events.
type Hook func(in *Interp, s *State, e *Event)

// Report is a rule violation.
type Report struct {
	Key   string
	Msg   string
	Pos   string
	Trace []string
	Facts string
}

// Interp explores the abstract paths of one root function.
type Interp struct {
	short  map[*ssa.Function][]*ssa.Phi
	Prog   *Program
	TS     *Terms
	Hook   Hook
	Inline func(fn *ssa.Function) bool
	// InlineCall overrides Inline with a decision that sees the arguments.
	InlineCall func(s *State, fn *ssa.Function, args []*Term) bool
	// PureFn marks opaque callees whose result depends on the arguments only.
	KeepLens  bool // carry the bounds of slices' lengths around loops
	KeepOrder bool // carry the order of numbers around loops, not only their distances
	MaxStates int
	MaxDepth  int
	Debug     bool
	// PanicPaths explores the unwinding of sends on closed channels
	SendPanics func(s *State, ch *Term) bool
	// GoInline follows a started goroutine as a path of its own (D["go"] set).
	GoInline func(s *State, e *Event) bool
	// CallbackPanics makes every unknown callback fork a panicking path.
	CallbackPanics bool

	// ErrKeys keeps states with errors of different classes apart.
	ErrKeys bool

	Reports map[string]*Report
	States  int
	Paths   int
	Events  map[string]int
	Unknown []string // analysis limits that were hit

	work   worklist
	places map[string]*place
	seq    int
	// JoinLimit is the number of abstract states kept apart per location.
	JoinLimit int
	loops     map[string]*loopAcc
	ctxIDs    map[string]int
	created   map[*Term]bool
	owned     map[*Term]bool
	lateAlloc map[*Term]bool
	allocOf   map[*Term]*ssa.Alloc
	cwrites   map[*Term]*closureWrites
	// Finite are values a rule introduced of which there are few: a loop may
	// keep them apart.
	Finite    map[*Term]bool
	rootSyms  map[*Term]bool
	keepTerms []*Term
	Seen      map[*ssa.Function]bool
	hot       map[string][][]string
}

type loopAcc struct {
	facts *Facts
	n     int
}

// NewInterp prepares an exploration.
func NewInterp(p *Program, hook Hook) *Interp {
	return &Interp{
		Prog: p, TS: p.TS, Hook: hook,
		MaxStates: 60000, MaxDepth: 24,
		Reports: map[string]*Report{},
		Events:  map[string]int{},
		places:  map[string]*place{}, JoinLimit: 24, loops: map[string]*loopAcc{},
		ctxIDs: map[string]int{}, created: map[*Term]bool{},
		owned: map[*Term]bool{}, lateAlloc: map[*Term]bool{}, allocOf: map[*Term]*ssa.Alloc{}, cwrites: map[*Term]*closureWrites{}, rootSyms: map[*Term]bool{},
		Seen: map[*ssa.Function]bool{},
	}
}

// Own declares memory rooted at the term as not shared with other code.
func (in *Interp) Own(t *Term) { in.owned[t] = true }

// Keep declares a symbol that stays meaningful on the whole path.
func (in *Interp) Keep(t *Term) {
	in.keepTerms = append(in.keepTerms, t)
	in.rootSyms[t] = true
}

func (in *Interp) uniqueBase(addr *Term) bool { return in.owned[root(addr)] }

// Run explores root with the given arguments and initial register setup.
func (in *Interp) Run(fn *ssa.Function, args []*Term, setup func(*State)) {
	s := &State{
		in: in, mem: map[*Term]*Term{}, facts: newFacts(),
		dirtyFld: map[types.Object]bool{}, dirtyBase: map[*Term]bool{},
		escaped: map[*Term]bool{}, R: map[string]*Term{}, D: map[string]string{},
	}
	if DebugRoot != "" && DebugRoot != fn.Name() {
		return
	}
	if DebugMax > 0 {
		in.MaxStates = DebugMax
		defer func() {
			if in.Debug || in.States > in.MaxStates {
				in.reportHot()
			}
		}()
	}
	if len(fn.Blocks) == 0 {
		in.Unknown = append(in.Unknown, "no body: "+fn.String())
		return
	}
	f := in.newFrame(fn, 0, nil)
	for i, p := range fn.Params {
		var t *Term
		if i < len(args) && args[i] != nil {
			t = args[i]
		} else {
			t = in.TS.Sym("arg:"+p.Name()+":"+fn.Name(), p.Type())
		}
		f.env[p] = t
		for sy := range t.syms {
			in.rootSyms[sy] = true
		}
	}
	for _, fv := range fn.FreeVars {
		t := in.TS.Sym("free:"+fv.Name()+":"+fn.Name(), fv.Type())
		f.env[fv] = t
		in.rootSyms[t] = true
	}
	s.frames = []*Frame{f}
	if setup != nil {
		setup(s)
	}
	in.enqueue(s)
	in.loop()
}

func (in *Interp) newFrame(fn *ssa.Function, ctx int, call ssa.CallInstruction) *Frame {
	in.Seen[fn] = true
	return &Frame{
		fn: fn, blk: fn.Blocks[0], ctx: ctx, call: call,
		env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopSnap{},
	}
}

func (in *Interp) loop() {
	for len(in.work) > 0 {
		in.run(in.take())
		if in.States > in.MaxStates {
			in.Unknown = append(in.Unknown, "state budget exceeded")
			in.work = nil
			return
		}
	}
}

func (in *Interp) push(s *State) {
	if !s.dead {
		in.enqueue(s)
	}
}

// ReportAt records a violation.
func (in *Interp) ReportAt(s *State, key string, instr ssa.Instruction, format string, a ...interface{}) {
	if _, ok := in.Reports[key]; ok {
		return
	}
	r := &Report{Key: key, Msg: fmt.Sprintf(format, a...), Pos: in.Prog.PosOf(instr), Facts: s.FactString()}
	for t := s.trace; t != nil; t = t.Prev {
		r.Trace = append(r.Trace, t.Pos+": "+t.Msg)
	}
	for i, j := 0, len(r.Trace)-1; i < j; i, j = i+1, j-1 {
		r.Trace[i], r.Trace[j] = r.Trace[j], r.Trace[i]
	}
	in.Reports[key] = r
	if os.Getenv("FLOW_DUMP") == key {
		fmt.Println(strings.Join(s.dumpKey(), "\n"))
	}
}

func (s *State) note(instr ssa.Instruction, msg string) {
	n := 1
	if s.trace != nil {
		n = s.trace.N + 1
	}
	s.trace = &Trace{Prev: s.trace, Pos: s.in.Prog.PosOf(instr), Msg: msg, N: n}
}

// Note adds a line to the path trace.
func (s *State) Note(instr ssa.Instruction, msg string) { s.note(instr, msg) }

// Kill ends the path.
func (s *State) Kill() { s.dead = true }

// site names the instruction in its calling context.
func (in *Interp) site(s *State, v ssa.Value) string {
	f := s.top()
	return fmt.Sprintf("c%d.%s.%s", f.ctx, f.fn.Name(), v.Name())
}

// fresh makes the symbol of a definition site, renaming older mentions.
func (in *Interp) fresh(s *State, name string, t types.Type) *Term {
	f := s.top()
	return in.define(s, in.TS.Sym(fmt.Sprintf("c%d.%s.%s", f.ctx, f.fn.Name(), name), t))
}

func (in *Interp) freshAt(s *State, name string, t types.Type) *Term {
	return in.define(s, in.TS.Sym(name, t))
}

// define gives the symbol a new meaning: whatever the state still knows
// about its previous meaning moves to a stale name.
func (in *Interp) define(s *State, t *Term) *Term {
	if in.created[t] && s.mentions(t) {
		m := map[*Term]*Term{}
		var old *Term
		if t.Op == "alloc" {
			old = in.TS.intern(&Term{Op: "alloc", Name: "old:" + t.Name, T: t.T})
			in.lateAlloc[old] = true
		} else {
			old = in.TS.Sym(fmt.Sprintf("stale:%d", t.ID), t.T)
		}
		if s.mentions(old) {
			m[old] = nil
		}
		m[t] = old
		if t.Op == "alloc" {
			s.escaped[old] = s.escaped[t] || s.escaped[old]
		}
		s.substSyms(m)
	}
	in.created[t] = true
	return t
}

// Fresh makes a symbol for use by a hook at the current call.
func (in *Interp) Fresh(s *State, e *Event, name string, t types.Type) *Term {
	n := "ev"
	if v, ok := e.Instr.(ssa.Value); ok {
		n = v.Name()
	} else if e.Instr != nil {
		n = fmt.Sprintf("b%d.%d", e.Instr.Block().Index, indexOf(e.Instr))
	}
	return in.fresh(s, n+":"+name, t)
}

func indexOf(i ssa.Instruction) int {
	for n, x := range i.Block().Instrs {
		if x == i {
			return n
		}
	}
	return -1
}

func (in *Interp) subCtx(parent int, instr ssa.Instruction, fn *ssa.Function, extra string) int {
	k := fmt.Sprintf("%d/%p/%p/%s", parent, instr, fn, extra)
	if id, ok := in.ctxIDs[k]; ok {
		return id
	}
	id := len(in.ctxIDs) + 1
	in.ctxIDs[k] = id
	return id
}

// eval returns the term of an SSA operand.
func (in *Interp) eval(s *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return in.TS.Const(v)
	case *ssa.Function:
		return in.TS.Func(v)
	case *ssa.Global:
		return in.TS.Global(v)
	case *ssa.Builtin:
		return in.TS.Mk("builtin", v.Name(), nil)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	t := in.TS.Sym(fmt.Sprintf("undef:c%d.%s.%s", f.ctx, f.fn.Name(), v.Name()), v.Type())
	return t
}

// enter moves the top frame into block b coming from prev.
func (in *Interp) enter(s *State, b *ssa.BasicBlock) bool {
	f := s.top()
	prev := f.blk
	var idx int
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	type pv struct {
		phi *ssa.Phi
		t   *Term
	}
	var pvs []pv
	n := 0
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{phi, in.eval(s, f, phi.Edges[idx])})
		n++
	}
	for _, p := range pvs {
		f.env[p.phi] = p.t
	}
	f.blk, f.idx = b, n
	s.gc()

	if in.isHeader(b) {
		if b.Dominates(prev) {
			in.backEdge(s, b)
			return false
		}
		f.loops[b] = &loopSnap{vals: in.slots(s, b), gen: map[string]bool{}}
	}
	// leaving loops: drop their snapshots
	for h := range f.loops {
		if h != b && !in.inLoop(h, b) {
			delete(f.loops, h)
		}
	}
	if len(b.Preds) > 1 {
		in.admit(s)
		return false
	}
	return true
}

// slots lists what a loop iteration may change.
func (in *Interp) slots(s *State, h *ssa.BasicBlock) map[string]*Term {
	out := map[string]*Term{}
	f := s.top()
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := f.env[phi]; ok {
			out["phi:"+phi.Name()] = t
		}
	}
	for a, v := range s.mem {
		out[fmt.Sprintf("mem:%d", a.ID)] = v
	}
	for k, v := range s.R {
		if v != nil {
			out["R:"+k] = v
		}
	}
	return out
}

func (in *Interp) setSlot(s *State, h *ssa.BasicBlock, slot string, t *Term) {
	switch {
	case strings.HasPrefix(slot, "phi:"):
		for _, ins := range h.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok && phi.Name() == slot[4:] {
				s.top().env[phi] = t
			}
		}
	case strings.HasPrefix(slot, "mem:"):
		for a := range s.mem {
			if fmt.Sprintf("mem:%d", a.ID) == slot {
				s.mem[a] = t
			}
		}
	case strings.HasPrefix(slot, "R:"):
		s.R[slot[2:]] = t
	}
}

func (in *Interp) getSlot(s *State, h *ssa.BasicBlock, slot string) *Term {
	return in.slots(s, h)[slot]
}

// backEdge generalises what changed in the iteration.
func (in *Interp) backEdge(s *State, h *ssa.BasicBlock) {
	f := s.top()
	for _, ph := range in.shortPhis(f.fn) {
		if ph.Block() != h || f.env[ph] == nil {
			continue
		}
		if k, ok := f.env[ph].IntVal(); ok && k <= maxRounds {
			// each round of a short loop is followed by itself
			s.gc()
			in.admit(s)
			return
		}
	}
	snap := f.loops[h]
	if snap == nil {
		snap = &loopSnap{vals: map[string]*Term{}, gen: map[string]bool{}}
	}
	cur := in.slots(s, h)
	gen := map[string]bool{}
	for k := range snap.gen {
		gen[k] = true
	}
	for k, v := range cur {
		if strings.HasPrefix(k, "R:!") { // registers that are never generalised
			continue
		}
		if old, ok := snap.vals[k]; !ok || old != v {
			if !ok && strings.HasPrefix(k, "mem:") && v.Op != "lin" && len(v.syms) == 0 {
				continue // a cell newly known to hold a constant
			}
			if !ok && strings.HasPrefix(k, "R:") {
				continue // set for the first time: it may stay
			}
			gen[k] = true
		}
	}
	var names []string
	for k := range gen {
		if _, ok := cur[k]; ok && !strings.HasPrefix(k, "R:!") {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	in.generalise(s, h, names)
	if s.dead {
		return
	}
	in.dropIteration(s, h, snap)
	s.gc()
	f = s.top()
	f.loops[h] = &loopSnap{vals: in.slots(s, h), gen: gen}
	for x := range f.loops {
		if x != h && !in.inLoop(x, h) {
			delete(f.loops, x)
		}
	}
	// widen the facts
	var b strings.Builder
	s.ctlKey(&b)
	b.WriteByte('#')
	s.dataKey(&b)
	k := b.String()
	acc := in.loops[k]
	if acc == nil {
		acc = &loopAcc{facts: s.facts.clone(), n: 1}
		in.loops[k] = acc
		in.admit(s)
		return
	}
	if in.TS.impliesFacts(s.facts, acc.facts) {
		return
	}
	acc.n++
	if acc.n <= 4 {
		in.admit(s)
		return
	}
	w := in.widen(acc.facts, s.facts, acc.n)
	acc.facts = w.clone()
	s.facts = w
	in.admit(s)
}

// dropIteration forgets cells and facts that name a particular iteration:
// their addresses or atoms are built from the loop's changing values.
func (in *Interp) dropIteration(s *State, h *ssa.BasicBlock, snap *loopSnap) {
	f := s.top()
	pre := fmt.Sprintf("slot:c%d.%s.%d.", f.ctx, f.fn.Name(), h.Index)
	varies := func(t *Term) bool {
		for sy := range t.syms {
			if strings.HasPrefix(sy.Name, pre) || strings.HasPrefix(sy.Name, "stale:") || strings.HasPrefix(sy.Name, "lost:") {
				return true
			}
		}
		return false
	}
	for _, a := range sortedTerms(s.mem) {
		if !varies(a) {
			continue
		}
		delete(s.mem, a)
		if r := root(a); r.Op == "alloc" || r.Op == "make" {
			s.dirtyBase[r] = true
		} else if a.Obj != nil {
			s.dirtyFld[a.Obj] = true
		} else {
			s.dirtyBase[r] = true
		}
	}
	for b := range s.dirtyBase {
		if b.Op != "alloc" && b.Op != "make" && varies(b) {
			delete(s.dirtyBase, b)
			s.dirtyBase[root(b)] = true
		}
	}
	live := s.liveTerms()
	old := func(t *Term) bool {
		if in.KeepLens && t.Op == "len" && t.Args[0].Op == "sym" {
			return false
		}
		return !live[t] && t.Op != "sym" && len(t.Args) > 0 && varies(t)
	}
	for p := range s.facts.ints {
		m, _ := in.TS.toLin(p)
		for a := range m {
			if old(a) {
				delete(s.facts.ints, p)
				break
			}
		}
	}
	for c := range s.facts.bools {
		for _, a := range c.Args {
			if old(a) {
				delete(s.facts.bools, c)
				break
			}
		}
	}
}

// liveTerms are the terms held in variables, cells and registers, with parts.
func (s *State) liveTerms() map[*Term]bool {
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, d := range f.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range s.mem {
		mark(v)
	}
	for _, v := range s.R {
		mark(v)
	}
	return live
}

// impliesFacts reports whether a implies everything in b.
func (ts *Terms) impliesFacts(a, b *Facts) bool {
	for p, iv := range b.ints {
		x := ts.ival(a, p, 2)
		if !x.implies(iv) {
			return false
		}
	}
	for c, v := range b.bools {
		if av, k := ts.decide(a, c); !k || av != v {
			return false
		}
	}
	return true
}

func (in *Interp) widen(old, cur *Facts, round int) *Facts {
	ts := in.TS
	hard := round > 7
	n := newFacts()
	for p, iv := range old.ints {
		x := ts.ival(cur, p, 2)
		r := Ival{Lo: iv.Lo, Hi: iv.Hi}
		// no loop moves a value the function was given
		of := p
		for of.Op == "field" {
			of = of.Args[0]
		}
		fixed := round <= 60 && in.rootSyms[of] && strings.HasPrefix(of.Name, "arg:")
		if !fixed && round <= 60 && len(p.syms) > 1 {
			fixed = true
			for sy := range p.syms {
				if !in.rootSyms[sy] || strings.HasPrefix(sy.Name, "slot:") || strings.HasPrefix(sy.Name, "stale:") {
					fixed = false
				}
			}
		}
		if x.Lo < iv.Lo {
			switch {
			case fixed:
				r.Lo = x.Lo
			case round <= 60 && x.Lo >= 1:
				r.Lo = 1
			case round <= 60 && x.Lo >= 0:
				r.Lo = 0
			default:
				r.Lo = top.Lo
			}
		}
		if x.Hi > iv.Hi {
			switch {
			case fixed:
				r.Hi = x.Hi
			case !hard && x.Hi <= -1:
				r.Hi = -1
			case !hard && x.Hi <= 0:
				r.Hi = 0
			case x.Hi > 1<<12 && round <= 60:
				r.Hi = widenHi(x.Hi)
			default:
				r.Hi = top.Hi
			}
		}
		for _, m := range iv.Ne {
			if x.implies(Ival{Lo: top.Lo, Hi: top.Hi, Ne: []int64{m}}) {
				r.Ne = append(r.Ne, m)
			}
		}
		if !r.isTop() {
			n.ints[p] = r
		}
	}
	// a relation that the rounds so far implied, and that this one has to state
	if round <= 20 {
		for p, x := range cur.ints {
			if _, have := old.ints[p]; have || len(p.syms) != 2 {
				continue
			}
			y := ts.ival(old, p, 2)
			r := Ival{Lo: mini(x.Lo, y.Lo), Hi: maxi(x.Hi, y.Hi)}
			if !r.isTop() {
				n.ints[p] = r
			}
		}
	}
	for c, v := range old.bools {
		if cv, k := ts.decide(cur, c); k && cv == v {
			n.bools[c] = v
		}
	}
	return n
}

// generalise renames the changed slots to slot symbols.
func (in *Interp) generalise(s *State, h *ssa.BasicBlock, names []string) {
	f := s.top()
	ts := in.TS
	// slots that hold the same value, or parts of the same value, share a symbol
	type gs struct {
		names []string
		paths [][]*Term // the projections from the shared value to each slot
		sym   *Term
		val   *Term
	}
	var gss []*gs
	byVal := map[*Term]*gs{}
	for _, n := range names {
		v := in.getSlot(s, h, n)
		if v == nil || in.Finite[v] {
			continue
		}
		t := v.T
		if t == nil && isIntTerm(v) {
			t = types.Typ[types.Int]
		}
		if strings.HasPrefix(n, "phi:") {
			for _, ins := range h.Instrs {
				if phi, ok := ins.(*ssa.Phi); ok && phi.Name() == n[4:] {
					t = phi.Type()
				}
			}
		}
		var path []*Term
		name := n
		isInt := isIntTerm(v) || t != nil && isInteger(t)
		if !isInt || v.Op == "field" {
			for v.Op == "field" && !in.rootSyms[v] || v.Op == "pure" && len(v.Args) == 1 {
				path = append(path, v)
				v = v.Args[0]
				t = v.T
				name += "^"
			}
			if t == nil && isIntTerm(v) {
				t = types.Typ[types.Int]
			}
		}
		switch {
		case isInt && len(path) == 0, v.Op == "const", v.Op == "nil", v.Op == "zero":
		default:
			if g := byVal[v]; g != nil {
				g.names = append(g.names, n)
				g.paths = append(g.paths, path)
				continue
			}
		}
		sym := ts.Sym(fmt.Sprintf("slot:c%d.%s.%d.%s", f.ctx, f.fn.Name(), h.Index, name), t)
		g := &gs{names: []string{n}, paths: [][]*Term{path}, sym: sym, val: v}
		gss = append(gss, g)
		if _, have := byVal[v]; !have {
			byVal[v] = g
		}
	}
	// rename the old meaning of each slot symbol in terms of the new one
	m := map[*Term]*Term{}
	next := map[*Term]*Term{} // temporary names for the new meanings
	for _, g := range gss {
		next[g.sym] = ts.Sym("next:"+g.sym.Name, g.sym.T)
	}
	for _, g := range gss {
		if _, done := m[g.sym]; done {
			continue
		}
		if !s.mentions(g.sym) {
			continue
		}
		// find a slot whose new value is this symbol plus a constant
		for pass := 0; pass < 2 && m[g.sym] == nil; pass++ {
			for _, o := range gss {
				if pass == 0 && o != g {
					continue
				}
				if d, ok := ts.ConstDiff(o.val, g.sym); ok {
					m[g.sym] = ts.AddI(next[o.sym], -d)
					break
				}
			}
		}
		if m[g.sym] == nil {
			old := ts.Sym("stale:"+g.sym.Name, g.sym.T)
			if s.mentions(old) {
				m[old] = nil
			}
			m[g.sym] = old
		}
	}
	vals := make([]*Term, len(gss))
	for i, g := range gss {
		vals[i] = g.val
	}
	memo := map[*Term]*Term{}
	if len(m) > 0 {
		s.substSyms(m)
		for i := range vals {
			vals[i] = ts.subst(vals[i], m, memo)
		}
	}
	if s.dead {
		return
	}
	// bind the slots
	whole := map[*Term]*Term{}
	for i, g := range gss {
		nx := next[g.sym]
		v := vals[i]
		for k, n := range g.names {
			t := nx
			for x := len(g.paths[k]) - 1; x >= 0; x-- {
				t = ts.rebuild(g.paths[k][x], []*Term{t})
			}
			in.setSlotID(s, h, n, t, memo, m)
		}
		if v == nil || v == nx {
			continue
		}
		if isIntTerm(v) || g.sym.T != nil && isInteger(g.sym.T) {
			if !ts.assume(s.facts, ts.eq0(ts.Sub(nx, v)), true) {
				s.dead = true
				return
			}
			continue
		}
		if b, ok := v.BoolVal(); ok {
			s.facts.bools[nx] = b
			continue
		}
		if g.sym.T != nil && isBoolType(g.sym.T) {
			if b, ok := ts.decide(s.facts, v); ok {
				s.facts.bools[nx] = b
				continue
			}
		}
		switch v.Op {
		case "nil":
			s.facts.bools[ts.IsNil(nx)] = true
		case "const":
			s.facts.bools[ts.Eq(nx, v, nil)] = true
		case "sym", "call", "ext", "load", "append", "slice", "conv", "melem", "field", "assert", "iface", "wrap", "newerr", "closure", "pure":
			if v.NonNil() {
				s.facts.bools[ts.IsNil(nx)] = false
			}
			if !in.rootSyms[v] {
				if _, dup := whole[v]; !dup {
					whole[v] = nx
				} else {
					s.facts.bools[ts.Eq(nx, whole[v], nil)] = true
				}
			} else {
				s.facts.bools[ts.Eq(nx, v, nil)] = true
			}
		default:
			s.escape(v)
			if v.NonNil() {
				s.facts.bools[ts.IsNil(nx)] = false
			}
		}
	}
	if in.KeepLens {
		for i, g := range gss {
			if vals[i] == nil || vals[i] == next[g.sym] || g.sym.T == nil {
				continue
			}
			if _, ok := g.sym.T.Underlying().(*types.Slice); !ok {
				continue
			}
			if iv := ts.ival(s.facts, in.Len(vals[i]), 2); !iv.isTop() {
				s.facts.ints[in.Len(next[g.sym])] = iv
			}
		}
	}
	// what is known about the new value is stated for the slot itself
	for i, g := range gss {
		if vals[i] == nil || !(isIntTerm(vals[i]) || g.sym.T != nil && isInteger(g.sym.T)) {
			continue
		}
		nx := next[g.sym]
		iv := ts.ival(s.facts, nx, 2)
		if old, ok := s.facts.ints[nx]; ok {
			iv.Ne = old.Ne
		} else {
			iv.Ne = nil
		}
		if ti, ok := typeIval(g.sym.T); ok && iv.Lo <= ti.Lo && iv.Hi >= ti.Hi && len(iv.Ne) == 0 {
			continue
		}
		if !iv.isTop() {
			s.facts.ints[nx] = iv
		}
	}
	// so is its distance from the values a rule holds fixed
	for _, k := range s.held() {
		x := s.R[k]
		for i, g := range gss {
			if vals[i] == nil || !(isIntTerm(vals[i]) || g.sym.T != nil && isInteger(g.sym.T)) {
				continue
			}
			nx := next[g.sym]
			if iv := ts.ival(s.facts, ts.Sub(vals[i], x), 2); !iv.isTop() {
				if p, sg, k0 := ts.poly(ts.Sub(nx, x)); p != nil {
					s.facts.ints[p] = iv.scale(sg).plus(Ival{Lo: -sg * k0, Hi: -sg * k0})
				}
			}
		}
	}
	// slots whose new values differ by a constant stay related
	for i := range gss {
		if vals[i] == nil || !isIntTerm(vals[i]) {
			continue
		}
		for j := i + 1; j < len(gss); j++ {
			if vals[j] == nil || !isIntTerm(vals[j]) {
				continue
			}
			d, ok := ts.ConstDiff(vals[j], vals[i])
			if !ok && in.KeepOrder {
				p, sg, k0 := ts.poly(ts.Sub(next[gss[i].sym], next[gss[j].sym]))
				if iv := ts.ival(s.facts, ts.Sub(vals[i], vals[j]), 2); p != nil && !iv.isTop() {
					s.facts.ints[p] = iv.scale(sg).plus(Ival{Lo: -sg * k0, Hi: -sg * k0})
				}
			}
			if !ok {
				continue
			}
			p, sg, k0 := ts.poly(ts.AddI(ts.Sub(next[gss[i].sym], next[gss[j].sym]), d))
			if p == nil {
				continue
			}
			if !ts.assume(s.facts, ts.eq0(ts.AddI(ts.Sub(next[gss[i].sym], next[gss[j].sym]), d)), true) {
				s.dead = true
				return
			}
			s.facts.ints[p] = Ival{Lo: -k0 * sg, Hi: -k0 * sg}
		}
	}
	if len(whole) > 0 {
		s.substSyms(whole)
	}
	// the new meanings become the slot symbols
	back := map[*Term]*Term{}
	for _, g := range gss {
		back[next[g.sym]] = g.sym
		in.created[g.sym] = true
	}
	s.substSyms(back)
}

// held names the registers with numbers that a rule holds fixed.
func (s *State) held() []string {
	var held []string
	for k := range s.R {
		if strings.HasPrefix(k, "!") && isIntTerm(s.R[k]) {
			held = append(held, k)
		}
	}
	sort.Strings(held)
	return held
}

func constOf(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.IntVal()
}

// setSlotID sets a slot after a renaming may have changed cell addresses.
func (in *Interp) setSlotID(s *State, h *ssa.BasicBlock, slot string, t *Term, memo, m map[*Term]*Term) {
	if !strings.HasPrefix(slot, "mem:") {
		in.setSlot(s, h, slot, t)
		return
	}
	for a := range s.mem {
		if fmt.Sprintf("mem:%d", a.ID) == slot {
			s.mem[a] = t
			return
		}
	}
	// the address itself was renamed: find the renamed address
	for old, now := range memo {
		if now != nil && fmt.Sprintf("mem:%d", old.ID) == slot {
			if _, ok := s.mem[now]; ok {
				s.mem[now] = t
			}
			return
		}
	}
}

// run executes a state until it forks, ends or repeats.
func (in *Interp) run(s *State) {
	for !s.dead {
		if in.States > in.MaxStates {
			return
		}
		f := s.top()
		if f.idx >= len(f.blk.Instrs) {
			return
		}
		instr := f.blk.Instrs[f.idx]
		s.steps++
		if !in.step(s, f, instr) {
			return
		}
	}
}

func (in *Interp) emit(s *State, e *Event) {
	if e.Fn == nil {
		e.Fn = s.top().fn
	}
	if in.Hook != nil {
		in.Hook(in, s, e)
	}
}

// values continues with each of the values an event was given.
func (in *Interp) values(s *State, i ssa.Value, e *Event, def func(*State) *Term) bool {
	alts := e.alts
	e.alts = nil
	for k, a := range alts {
		o := s
		if k < len(alts)-1 {
			o = s.Clone()
		}
		if a.Note != "" {
			o.note(e.Instr, a.Note)
		}
		if a.Do != nil {
			a.Do(o)
		}
		if o.dead {
			continue
		}
		v := a.Result
		if v == nil {
			v = def(o)
		}
		o.top().env[i] = v
		o.top().idx++
		if k < len(alts)-1 {
			in.push(o)
		}
	}
	return !s.dead
}

// step executes one instruction. It returns false when the state is done with
// (ended or handed over to the work list).
func (in *Interp) step(s *State, f *Frame, instr ssa.Instruction) bool {
	ts := in.TS
	set := func(v ssa.Value, t *Term) { f.env[v] = t }
	ev := func(v ssa.Value) *Term { return in.eval(s, f, v) }

	switch i := instr.(type) {
	case *ssa.DebugRef:

	case *ssa.Alloc:
		t := ts.intern(&Term{Op: "alloc", Name: in.site(s, i), T: i.Type().Underlying().(*types.Pointer).Elem()})
		in.allocOf[t] = i
		in.define(s, t)
		f = s.top()
		// a new activation of the same site starts zeroed
		for a := range s.mem {
			if root(a) == t {
				delete(s.mem, a)
			}
		}
		delete(s.dirtyBase, t)
		delete(s.escaped, t)
		f.env[i] = t

	case *ssa.BinOp:
		x, y := ev(i.X), ev(i.Y)
		if i.Op == token.QUO || i.Op == token.REM {
			if isInteger(i.Type()) {
				e := &Event{Kind: "quo", Instr: instr, Args: []*Term{x, y}, Typ: i.Type()}
				in.emit(s, e)
				if s.dead {
					return false
				}
			}
		}
		set(i, in.binop(s, i, x, y))

	case *ssa.UnOp:
		x := ev(i.X)
		switch i.Op {
		case token.MUL:
			if x.Op == "nil" {
				return false // nil dereference ends the path
			}
			if x.Op == "global" && types.IsInterface(i.Type()) && in.Prog.constGlobal(x.Obj) {
				set(i, ts.intern(&Term{Op: "errconst", Name: x.Name, Obj: x.Obj, T: i.Type()}))
				break
			}
			e := &Event{Kind: "load", Instr: instr, Addr: x, Typ: i.Type()}
			in.emit(s, e)
			if s.dead {
				return false
			}
			if len(e.alts) > 0 {
				return in.values(s, i, e, func(o *State) *Term { return o.Load(x, i.Type(), i.Name()) })
			}
			if e.Result != nil {
				f.env[i] = e.Result
				break
			}
			t := s.Load(x, i.Type(), i.Name())
			s.top().env[i] = t
		case token.NOT:
			set(i, ts.Not(x))
		case token.SUB:
			if isInteger(i.Type()) {
				set(i, ts.Scale(-1, x))
			} else if x.Op == "const" {
				set(i, ts.intern(&Term{Op: "const", Name: "f", C: constant.UnaryOp(token.SUB, x.C, 0)}))
			} else {
				set(i, ts.Mk("neg", "", i.Type(), x))
			}
		case token.XOR:
			set(i, ts.Mk("xor1", "", i.Type(), x))
		case token.ARROW:
			return in.recv(s, f, i, x)
		}

	case *ssa.Phi:
		// handled on block entry

	case *ssa.ChangeType:
		set(i, ev(i.X))
	case *ssa.ChangeInterface:
		set(i, ev(i.X))
	case *ssa.Convert:
		set(i, in.convert(s, i.Type(), i.X.Type(), ev(i.X)))
	case *ssa.MultiConvert:
		set(i, in.convert(s, i.Type(), i.X.Type(), ev(i.X)))
	case *ssa.SliceToArrayPointer:
		set(i, ts.Mk("s2a", "", i.Type(), ev(i.X)))
	case *ssa.MakeInterface:
		set(i, ts.Iface(i.X.Type(), ev(i.X)))
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		binds := make([]*Term, len(i.Bindings))
		for k, b := range i.Bindings {
			binds[k] = ev(b)
		}
		set(i, ts.Closure(fn, binds))
	case *ssa.MakeMap:
		t := ts.intern(&Term{Op: "make", Name: "map@" + in.site(s, i), T: i.Type()})
		in.defineMake(s, t)
		s.top().env[i] = t
	case *ssa.MakeChan:
		n := ev(i.Size)
		e := &Event{Kind: "make", Instr: instr, Args: []*Term{n}, Typ: i.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		t := ts.intern(&Term{Op: "make", Name: "chan@" + in.site(s, i), T: i.Type()})
		in.defineMake(s, t)
		s.top().env[i] = t
	case *ssa.MakeSlice:
		n, c := ev(i.Len), ev(i.Cap)
		t := ts.intern(&Term{Op: "make", Name: "slice@" + in.site(s, i), T: i.Type()})
		e := &Event{Kind: "make", Instr: instr, Args: []*Term{n, c}, Typ: i.Type(), Result: t}
		in.emit(s, e)
		if s.dead {
			return false
		}
		in.defineMake(s, t)
		f = s.top()
		ln := in.Len(t)
		if !s.Assume(ts.eq0(ts.Sub(ln, n)), true) || !s.Assume(ts.eq0(ts.Sub(in.Cap(t), c)), true) {
			return false
		}
		f.env[i] = t

	case *ssa.Slice:
		x := ev(i.X)
		var lo, hi *Term = ts.Int(0), nil
		if i.Low != nil {
			lo = ev(i.Low)
		}
		if i.High != nil {
			hi = ev(i.High)
		}
		e := &Event{Kind: "slice", Instr: instr, Args: []*Term{x, lo, hi}, Typ: i.X.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		t := in.slice(s, i.X.Type(), i.Type(), x, lo, hi)
		if i.Max != nil {
			m := ev(i.Max)
			switch {
			case t.Op == "nil":
			case t.Op != "slice":
				t = ts.Mk("slice", "", i.Type(), t, ts.Int(0), in.Len(t), m)
			case x.Op == "slice":
				t = ts.Mk("slice", "", i.Type(), t.Args[0], t.Args[1], t.Args[2], ts.Add(x.Args[1], m))
			default:
				t = ts.Mk("slice", "", i.Type(), t.Args[0], t.Args[1], t.Args[2], m)
			}
		}
		set(i, t)

	case *ssa.FieldAddr:
		x := ev(i.X)
		if x.Op == "nil" {
			return false
		}
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(i, ts.FieldAddr(x, st.Field(i.Field)))
	case *ssa.Field:
		st := i.X.Type().Underlying().(*types.Struct)
		set(i, ts.Field(ev(i.X), i.Field, st))
	case *ssa.IndexAddr:
		x, n := ev(i.X), ev(i.Index)
		e := &Event{Kind: "index", Instr: instr, Args: []*Term{x, n}, Typ: i.X.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		et := i.Type().Underlying().(*types.Pointer).Elem()
		if len(e.alts) > 0 {
			return in.values(s, i, e, func(o *State) *Term { return in.indexAddr(x, n, et) })
		}
		set(i, in.indexAddr(x, n, et))
	case *ssa.Index:
		x, n := ev(i.X), ev(i.Index)
		e := &Event{Kind: "index", Instr: instr, Args: []*Term{x, n}, Typ: i.X.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		set(i, ts.Mk("idx", "", i.Type(), x, n))
	case *ssa.Lookup:
		return in.lookup(s, f, i, ev(i.X), ev(i.Index))
	case *ssa.MapUpdate:
		m, k, v := ev(i.Map), ev(i.Key), ev(i.Value)
		e := &Event{Kind: "mapset", Instr: instr, Addr: m, Val: v, Args: []*Term{m, k, v}, Typ: i.Map.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		in.mapSet(s, m, k, v, i.Map.Type())
	case *ssa.Range:
		set(i, ts.Mk("range", in.site(s, i), nil, ev(i.X)))
	case *ssa.Next:
		x := ev(i.Iter)
		tup := i.Type().(*types.Tuple)
		nm := i.Name()
		ok := in.fresh(s, nm+":ok", types.Typ[types.Bool])
		k := in.fresh(s, nm+":k", tup.At(1).Type())
		v := in.fresh(s, nm+":v", tup.At(2).Type())
		src := x
		if x.Op == "range" {
			src = x.Args[0]
		}
		e := &Event{Kind: "next", Instr: instr, Args: []*Term{src, ok, k, v}}
		in.emit(s, e)
		s.top().env[i] = ts.Mk("tuple", "", tup, ok, k, v)
		if e.Result != nil {
			s.top().env[i] = e.Result
		}

	case *ssa.TypeAssert:
		return in.typeAssert(s, f, i, ev(i.X))

	case *ssa.Extract:
		set(i, in.extract(ev(i.Tuple), i.Index, i.Type()))

	case *ssa.Store:
		a, v := ev(i.Addr), ev(i.Val)
		if a.Op == "nil" {
			return false
		}
		e := &Event{Kind: "store", Instr: instr, Addr: a, Val: v, Typ: i.Val.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		if e.Result != nil {
			v = e.Result
		}
		s.Store(a, v, i.Val.Type())

	case *ssa.Send:
		ch, v := ev(i.Chan), ev(i.X)
		return in.send(s, instr, ch, v, true)

	case *ssa.Select:
		return in.selectStmt(s, f, i)

	case *ssa.Defer:
		fn, args := in.callee(s, f, &i.Call)
		e := &Event{Kind: "defer", Instr: instr, FnVal: fn, Args: args}
		e.Callee, e.Method, e.Name = in.describe(fn, &i.Call)
		in.emit(s, e)
		s.top().defers = append(s.top().defers, deferred{i, fn, args})

	case *ssa.Go:
		fn, args := in.callee(s, f, &i.Call)
		e := &Event{Kind: "go", Instr: instr, FnVal: fn, Args: args}
		e.Callee, e.Method, e.Name = in.describe(fn, &i.Call)
		in.emit(s, e)
		if s.dead {
			return false
		}
		s.escape(fn)
		for _, a := range args {
			s.escape(a)
		}
		if body := e.Callee; in.GoInline != nil && body != nil && len(body.Blocks) > 0 && in.GoInline(s, e) {
			// the goroutine is a path of its own that starts here
			g := s.Clone()
			in.enterCall(g, i, body, fn, args, false)
			g.frames = g.frames[len(g.frames)-1:]
			g.D["go"] = body.Name()
			g.note(i, "goroutine "+body.Name())
			in.push(g)
		}

	case *ssa.Call:
		f.idx++
		fn, args := in.callee(s, f, &i.Call)
		return in.call(s, i, &i.Call, fn, args, false)

	case *ssa.RunDefers:
		return in.runDefers(s, f)

	case *ssa.Panic:
		v := ev(i.X)
		e := &Event{Kind: "panic", Instr: instr, Args: []*Term{v}}
		in.emit(s, e)
		if s.dead {
			return false
		}
		return in.startPanic(s, v)

	case *ssa.Return:
		rs := make([]*Term, len(i.Results))
		for k, r := range i.Results {
			rs[k] = ev(r)
		}
		return in.ret(s, instr, rs)

	case *ssa.Jump:
		return in.enter(s, f.blk.Succs[0])

	case *ssa.If:
		c := ev(i.Cond)
		v, known := s.Decide(c)
		if known {
			n := 1
			if v {
				n = 0
			}
			return in.enter(s, f.blk.Succs[n])
		}
		o := s.Clone()
		if o.Assume(c, false) {
			o.note(instr, "not ("+clip(c.String())+")")
			if in.enter(o, o.top().blk.Succs[1]) {
				in.push(o)
			}
		}
		if s.Assume(c, true) {
			s.note(instr, clip(c.String()))
			return in.enter(s, s.top().blk.Succs[0])
		}
		return false

	default:
		in.Unknown = append(in.Unknown, fmt.Sprintf("unsupported instruction %T in %s", instr, f.fn))
		return false
	}
	if s.dead {
		return false
	}
	s.top().idx++
	return true
}

func clip(x string) string {
	if len(x) > 160 {
		return x[:160] + "..."
	}
	return x
}

func (in *Interp) defineMake(s *State, t *Term) {
	if in.created[t] {
		old := in.TS.intern(&Term{Op: "make", Name: "old:" + t.Name, T: t.T})
		m := map[*Term]*Term{t: old}
		s.substSyms(m)
	}
	in.created[t] = true
	for a := range s.mem {
		if root(a) == t {
			delete(s.mem, a)
		}
	}
	delete(s.dirtyBase, t)
	delete(s.escaped, t)
}

// Len is the length of a slice, string or map term.
func (in *Interp) Len(x *Term) *Term {
	ts := in.TS
	switch x.Op {
	case "nil":
		return ts.Int(0)
	case "const":
		if s, ok := x.StrVal(); ok {
			return ts.Int(int64(len(s)))
		}
	case "slice":
		return ts.Sub(x.Args[2], x.Args[1])
	case "append":
		return ts.Add(in.Len(x.Args[0]), in.Len(x.Args[1]))
	case "conv":
		if x.Name == "bytes" {
			return in.Len(x.Args[0])
		}
	}
	return ts.Mk("len", "", types.Typ[types.Int], x)
}

// Cap is the capacity of a slice term.
func (in *Interp) Cap(x *Term) *Term {
	if x.Op == "nil" {
		return in.TS.Int(0)
	}
	if x.Op == "slice" {
		if len(x.Args) == 4 {
			return in.TS.Sub(x.Args[3], x.Args[1])
		}
		if t := x.Args[0].T; t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return in.TS.Sub(in.Cap(x.Args[0]), x.Args[1])
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					return in.TS.Sub(in.TS.Int(a.Len()), x.Args[1])
				}
			}
		}
	}
	return in.TS.Mk("cap", "", types.Typ[types.Int], x)
}

func (in *Interp) slice(s *State, xt, rt types.Type, x, lo, hi *Term) *Term {
	ts := in.TS
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			if hi == nil {
				hi = ts.Int(a.Len())
			}
			return ts.Mk("slice", "", rt, x, lo, hi)
		}
	}
	if hi == nil {
		hi = in.Len(x)
	}
	if x.Op == "nil" {
		return x
	}
	// slice of slice
	if x.Op == "slice" {
		as := []*Term{x.Args[0], ts.Add(x.Args[1], lo), ts.Add(x.Args[1], hi)}
		if len(x.Args) == 4 {
			as = append(as, x.Args[3])
		}
		return ts.Mk("slice", "", rt, as...)
	}
	if n, ok := lo.IntVal(); ok && n == 0 && hi == in.Len(x) {
		return x
	}
	if str, ok := x.StrVal(); ok {
		a, oka := lo.IntVal()
		b, okb := hi.IntVal()
		if oka && okb && 0 <= a && a <= b && b <= int64(len(str)) {
			return ts.Str(str[a:b])
		}
	}
	return ts.Mk("slice", "", rt, x, lo, hi)
}

func (in *Interp) indexAddr(x, n *Term, et types.Type) *Term {
	ts := in.TS
	if x.Op == "slice" {
		n = ts.Add(x.Args[1], n)
		x = x.Args[0]
	}
	return ts.intern(&Term{Op: "iaddr", T: et, Args: []*Term{x, n}})
}

func (in *Interp) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" && i < len(t.Args) {
		return t.Args[i]
	}
	return in.TS.Mk("ext", fmt.Sprint(i), typ, t)
}

func (in *Interp) binop(s *State, i *ssa.BinOp, x, y *Term) *Term {
	ts := in.TS
	xt := i.X.Type()
	switch i.Op {
	case token.EQL:
		return ts.Eq(x, y, xt)
	case token.NEQ:
		return ts.Not(ts.Eq(x, y, xt))
	}
	if isInteger(xt) {
		switch i.Op {
		case token.ADD:
			return ts.Add(x, y)
		case token.SUB:
			return ts.Sub(x, y)
		case token.LSS:
			return ts.le0(ts.AddI(ts.Sub(x, y), 1))
		case token.LEQ:
			return ts.le0(ts.Sub(x, y))
		case token.GTR:
			return ts.le0(ts.AddI(ts.Sub(y, x), 1))
		case token.GEQ:
			return ts.le0(ts.Sub(y, x))
		}
		nx, okx := x.IntVal()
		ny, oky := y.IntVal()
		switch i.Op {
		case token.MUL:
			if okx {
				return ts.Scale(nx, y)
			}
			if oky {
				return ts.Scale(ny, x)
			}
			if x.ID > y.ID {
				x, y = y, x
			}
			return ts.Mk("mul", "", i.Type(), x, y)
		case token.QUO:
			if okx && oky && ny != 0 {
				return ts.Int(nx / ny)
			}
			if oky && ny == 1 {
				return x
			}
			return ts.Mk("quo", "", i.Type(), x, y)
		case token.REM:
			if okx && oky && ny != 0 {
				return ts.Int(nx % ny)
			}
			return ts.Mk("rem", "", i.Type(), x, y)
		case token.SHL:
			if okx && oky && ny < 62 {
				return ts.Int(nx << uint(ny))
			}
			if oky && ny < 62 {
				return ts.Scale(1<<uint(ny), x)
			}
			return ts.Mk("shl", "", i.Type(), x, y)
		case token.SHR:
			if okx && oky && nx >= 0 && ny >= 0 && ny < 63 {
				return ts.Int(nx >> uint(ny))
			}
			return ts.Mk("shr", "", i.Type(), x, y)
		case token.AND:
			if okx && oky {
				return ts.Int(nx & ny)
			}
			if x.ID > y.ID {
				x, y = y, x
			}
			return ts.Mk("and", "", i.Type(), x, y)
		}
		if okx && oky && i.Op == token.OR {
			return ts.Int(nx | ny)
		}
		if okx && oky && i.Op == token.XOR {
			return ts.Int(nx ^ ny)
		}
		return ts.Mk("op"+i.Op.String(), "", i.Type(), x, y)
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return ts.Mk("op"+i.Op.String(), "", i.Type(), x, y)
	}
	if x.Op == "const" && y.Op == "const" {
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ts.Bool(constant.Compare(x.C, i.Op, y.C))
		case token.ADD:
			if x.C.Kind() == constant.String {
				return ts.Str(constant.StringVal(x.C) + constant.StringVal(y.C))
			}
		}
	}
	switch i.Op {
	case token.GTR:
		return ts.Mk("flt", "", types.Typ[types.Bool], y, x)
	case token.LSS:
		return ts.Mk("flt", "", types.Typ[types.Bool], x, y)
	case token.GEQ:
		return ts.Mk("fle", "", types.Typ[types.Bool], y, x)
	case token.LEQ:
		return ts.Mk("fle", "", types.Typ[types.Bool], x, y)
	}
	return ts.Mk("op"+i.Op.String(), "", i.Type(), x, y)
}

func (in *Interp) convert(s *State, to, from types.Type, x *Term) *Term {
	ts := in.TS
	if isInteger(to) && isInteger(from) {
		iv, ok := typeIval(to)
		if !ok { // int, int64
			if b, isb := from.Underlying().(*types.Basic); isb && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
				if x.Op == "conv" && isInteger(x.T) {
					return x.Args[0]
				}
				if _, isc := x.IntVal(); isc {
					return x
				}
				return ts.intern(&Term{Op: "conv", T: types.Typ[types.Int64], Args: []*Term{x}})
			}
			return x
		}
		if b := to.Underlying().(*types.Basic); b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
			if s.Bounds(x).Lo >= 0 {
				return x
			}
			return ts.intern(&Term{Op: "conv", T: to, Args: []*Term{x}})
		}
		b := s.Bounds(x)
		if b.Lo >= iv.Lo && b.Hi <= iv.Hi {
			return x
		}
		return ts.intern(&Term{Op: "conv", T: to, Args: []*Term{x}})
	}
	if isFloat(to) && isInteger(from) {
		return ts.Mk("i2f", to.String(), to, x)
	}
	if isInteger(to) && isFloat(from) {
		return ts.Mk("f2i", to.String(), to, x)
	}
	if isFloat(to) && isFloat(from) {
		if types.Identical(to.Underlying(), from.Underlying()) {
			return x
		}
		return ts.Mk("f2f", to.String(), to, x)
	}
	if isStringOrBytes(to) && isStringOrBytes(from) {
		if types.Identical(to.Underlying(), from.Underlying()) {
			return x
		}
		return ts.intern(&Term{Op: "conv", Name: "bytes", T: to, Args: []*Term{x}})
	}
	return ts.intern(&Term{Op: "conv", Name: "ptr", T: to, Args: []*Term{x}})
}

func isStringOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// --- maps ---

func (in *Interp) mapElem(op string, m, k *Term, t types.Type) *Term {
	return in.TS.intern(&Term{Op: op, T: t, Args: []*Term{m, k}})
}

func (in *Interp) mapSet(s *State, m, k, v *Term, mt types.Type) {
	ts := in.TS
	et := mt.Underlying().(*types.Map).Elem()
	ea, ha := in.mapElem("melem", m, k, et), in.mapElem("mhas", m, k, types.Typ[types.Bool])
	for a := range s.mem {
		if a != ea && a != ha && (a.Op == "melem" || a.Op == "mhas" || underMelem(a)) && s.mayAlias(stripTo(a), pick(a, ea, ha)) {
			delete(s.mem, a)
			s.dirtyBase[stripTo(a)] = true
		}
	}
	in.clearUnder(s, ea)
	s.Store(ea, v, et)
	s.mem[ha] = ts.Bool(true)
	if !isLocal(m) {
		s.escape(v)
	}
}

func underMelem(a *Term) bool { return stripTo(a) != nil }

// stripTo finds the map cell an address lies under.
func stripTo(a *Term) *Term {
	for a != nil {
		if a.Op == "melem" || a.Op == "mhas" {
			return a
		}
		if a.Op == "faddr" {
			a = a.Args[0]
			continue
		}
		return nil
	}
	return nil
}

func pick(a, ea, ha *Term) *Term {
	if stripTo(a).Op == "mhas" {
		return ha
	}
	return ea
}

func (in *Interp) clearUnder(s *State, ea *Term) {
	for a := range s.mem {
		if a != ea && a.Op == "faddr" && stripTo(a) == ea {
			delete(s.mem, a)
		}
	}
	delete(s.dirtyBase, ea)
}

func (in *Interp) mapDelete(s *State, m, k *Term, mt types.Type) {
	et := mt.Underlying().(*types.Map).Elem()
	ha := in.mapElem("mhas", m, k, types.Typ[types.Bool])
	ea := in.mapElem("melem", m, k, et)
	for a := range s.mem {
		if st := stripTo(a); st != nil && st != ea && st != ha && s.mayAlias(st, pick(a, ea, ha)) {
			delete(s.mem, a)
			s.dirtyBase[st] = true
		}
	}
	s.mem[ha] = in.TS.Bool(false)
}

func (in *Interp) lookup(s *State, f *Frame, i *ssa.Lookup, x, k *Term) bool {
	ts := in.TS
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		e := &Event{Kind: "index", Instr: i, Args: []*Term{x, k}, Typ: i.X.Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		if str, ok := x.StrVal(); ok {
			if n, ok := k.IntVal(); ok && n >= 0 && n < int64(len(str)) {
				f.env[i] = ts.Int(int64(str[n]))
				f.idx++
				return true
			}
		}
		f.env[i] = ts.Mk("idx", "", i.Type(), x, k)
		f.idx++
		return true
	}
	get := &Event{Kind: "mapget", Instr: i, Addr: x, Args: []*Term{x, k}, Typ: mt}
	in.emit(s, get)
	if s.dead {
		return false
	}
	if len(get.alts) > 0 {
		// a rule says what the map holds: each alternative is a tuple of
		// the element and whether it is there
		for k := range get.alts {
			if r := get.alts[k].Result; r != nil && !i.CommaOk {
				get.alts[k].Result = r.Args[0]
			}
		}
		return in.values(s, i, get, func(o *State) *Term { return ts.Zero(i.Type()) })
	}
	ha, ea := in.mapElem("mhas", x, k, types.Typ[types.Bool]), in.mapElem("melem", x, k, mt.Elem())
	name := i.Name()
	var has *Term
	if x.Op == "nil" {
		has = ts.Bool(false)
	} else if x.Op == "make" && !s.dirtyBase[x] && s.mem[ha] == nil && !in.mapTouched(s, x) && !strings.Contains(x.Name, "old:") {
		has = ts.Bool(false)
	} else {
		has = s.Load(ha, types.Typ[types.Bool], name+".has")
	}
	finish := func(s *State, present bool) {
		f := s.top()
		var v *Term
		if present {
			v = s.Load(ea, mt.Elem(), name+".v")
		} else {
			v = ts.Zero(mt.Elem())
		}
		f = s.top()
		if i.CommaOk {
			f.env[i] = ts.Mk("tuple", "", i.Type(), v, ts.Bool(present))
		} else {
			f.env[i] = v
		}
		f.idx++
		got := &Event{Kind: "mapgot", Instr: i, Addr: x, Args: []*Term{x, k}, Val: v, Typ: mt, Block: present}
		in.emit(s, got)
		if got.Result != nil && !s.dead {
			if i.CommaOk {
				f.env[i] = ts.Mk("tuple", "", i.Type(), got.Result, ts.Bool(present))
			} else {
				f.env[i] = got.Result
			}
		}
	}
	if v, known := s.Decide(has); known {
		finish(s, v)
		return true
	}
	if !i.CommaOk {
		finish(s, true)
		return true
	}
	o := s.Clone()
	if o.Assume(has, false) {
		o.note(i, "key not in map")
		finish(o, false)
		in.push(o)
	}
	if s.Assume(has, true) {
		s.note(i, "key in map")
		finish(s, true)
		return true
	}
	return false
}

// mapTouched reports whether cells of a locally made map are known.
func (in *Interp) mapTouched(s *State, m *Term) bool {
	for b := range s.dirtyBase {
		if st := stripTo(b); st != nil && st.Args[0] == m {
			return true
		}
	}
	for a := range s.mem {
		if st := stripTo(a); st != nil && st.Args[0] == m {
			return true
		}
	}
	return s.escaped[m]
}

// --- type assertions ---

func (in *Interp) typeAssert(s *State, f *Frame, i *ssa.TypeAssert, x *Term) bool {
	ts := in.TS
	at := i.AssertedType
	val := func(x *Term) *Term {
		if x.Op == "iface" && !types.IsInterface(at) {
			return x.Args[0]
		}
		if types.IsInterface(at) {
			return x
		}
		return ts.intern(&Term{Op: "assert", Name: at.String(), T: at, Args: []*Term{x}})
	}
	var cond *Term
	switch {
	case x.Op == "nil":
		cond = ts.Bool(false)
	case x.Op == "iface" && !types.IsInterface(at):
		cond = ts.Bool(types.Identical(x.T, at))
	case x.Op == "iface":
		cond = ts.Bool(types.Implements(x.T, at.Underlying().(*types.Interface)))
	default:
		cond = ts.intern(&Term{Op: "typeis", Name: at.String(), T: at, Args: []*Term{x}})
	}
	done := func(s *State, ok bool) {
		f := s.top()
		var v *Term
		if ok {
			v = val(x)
		} else {
			v = ts.Zero(at)
		}
		if i.CommaOk {
			e := &Event{Kind: "asserted", Instr: i, Args: []*Term{x}, Val: v, Typ: at, Block: ok}
			in.emit(s, e)
			if s.dead {
				return
			}
			f.env[i] = ts.Mk("tuple", "", i.Type(), v, ts.Bool(ok))
		} else {
			f.env[i] = v
		}
		f.idx++
	}
	v, known := s.Decide(cond)
	if !i.CommaOk {
		e := &Event{Kind: "assert", Instr: i, Args: []*Term{x}, Typ: at}
		if !(known && v) {
			in.emit(s, e)
		}
		if known && !v {
			return in.startPanic(s, ts.Str("type assertion"))
		}
		if !s.Assume(cond, true) {
			return false
		}
		done(s, true)
		return true
	}
	if known {
		done(s, v)
		return true
	}
	o := s.Clone()
	if o.Assume(cond, false) {
		o.note(i, "not a "+types.TypeString(at, types.RelativeTo(nil)))
		done(o, false)
		in.push(o)
	}
	if s.Assume(cond, true) {
		s.note(i, "is a "+types.TypeString(at, types.RelativeTo(nil)))
		done(s, true)
		return true
	}
	return false
}

// ElemAt reads an element of a slice.
func (in *Interp) ElemAt(s *State, x *Term, i int64, et types.Type) *Term {
	return s.Load(in.indexAddr(x, in.TS.Int(i), et), et, "rule.elem")
}

// ErrConst is the value of an error variable that nobody changes.
func (in *Interp) ErrConst(pkg, name string) *Term {
	p := in.Prog.SSA.ImportedPackage(pkg)
	if p == nil {
		return in.TS.Sym("errconst:"+pkg+"."+name, types.Universe.Lookup("error").Type())
	}
	g := p.Var(name)
	if g == nil {
		return in.TS.Sym("errconst:"+pkg+"."+name, types.Universe.Lookup("error").Type())
	}
	x := in.TS.Global(g)
	return in.TS.intern(&Term{Op: "errconst", Name: x.Name, Obj: x.Obj, T: g.Type().(*types.Pointer).Elem()})
}
