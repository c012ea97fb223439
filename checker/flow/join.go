package flow

import (
	"container/heap"
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The exploration keeps up to JoinLimit distinct abstract states per control
// location (which includes the rule's automaton state); further states are
// joined into one, so that the analysis always converges.

type place struct {
	exact map[string]bool
	acc   *State // joined state
	queue bool   // acc is waiting in the work list
	n     int
}

// --- the work list, in reverse post order of the virtual call tree ---

type worklist []*State

func (w worklist) Len() int            { return len(w) }
func (w worklist) Less(i, j int) bool  { return before(w[i].pos, w[j].pos) }
func (w worklist) Swap(i, j int)       { w[i], w[j] = w[j], w[i] }
func (w *worklist) Push(x interface{}) { *w = append(*w, x.(*State)) }
func (w *worklist) Pop() interface{} {
	o := *w
	x := o[len(o)-1]
	*w = o[:len(o)-1]
	return x
}

func before(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	if len(a) != len(b) {
		return len(a) > len(b) // still inside the call: earlier
	}
	return false
}

func (in *Interp) position(s *State) []int {
	out := make([]int, 0, len(s.frames)*2+1)
	for _, f := range s.frames {
		out = append(out, in.Prog.rpo(f.fn)[f.blk], f.idx)
	}
	in.seq++
	return out
}

func (p *Program) rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if m, ok := p.rpos[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit loop exits last so that they come after the body
		sc := append([]*ssa.BasicBlock{}, b.Succs...)
		l := p.loopsOf(fn)
		sort.SliceStable(sc, func(i, j int) bool { return exits(l, b, sc[i]) && !exits(l, b, sc[j]) })
		for _, x := range sc {
			if !seen[x] {
				visit(x)
			}
		}
		order = append(order, b)
	}
	visit(fn.Blocks[0])
	for _, b := range fn.Blocks {
		if !seen[b] {
			visit(b)
		}
	}
	for i, b := range order {
		m[b] = len(order) - i
	}
	if p.rpos == nil {
		p.rpos = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	p.rpos[fn] = m
	return m
}

func exits(l *loopInfo, from, to *ssa.BasicBlock) bool {
	for _, body := range l.headers {
		if body[from] && !body[to] {
			return true
		}
	}
	return false
}

func (in *Interp) enqueue(s *State) {
	s.pos = in.position(s)
	heap.Push(&in.work, s)
}

// admit records the state at a merge point and queues it if it is new.
func (in *Interp) admit(s *State) {
	if s.dead {
		return
	}
	var b strings.Builder
	s.ctlKey(&b)
	ck := b.String()
	pl := in.places[ck]
	if pl == nil {
		pl = &place{exact: map[string]bool{}}
		in.places[ck] = pl
	}
	b.Reset()
	s.dataKey(&b)
	b.WriteByte('#')
	s.facts.key(&b)
	dk := b.String()
	if pl.exact[dk] {
		return
	}
	in.States++
	if DebugMax > 0 {
		if in.hot == nil {
			in.hot = map[string][][]string{}
		}
		in.hot[ck] = append(in.hot[ck], s.dumpKey())
	}
	limit := in.JoinLimit
	if len(pl.exact) < limit {
		pl.exact[dk] = true
		in.enqueue(s)
		return
	}
	if pl.acc == nil {
		pl.exact[dk] = true
		pl.acc = s.Clone()
		pl.acc.loc = ck
		pl.queue = true
		in.enqueue(pl.acc)
		return
	}
	changed, ok := in.join(pl, s)
	if !ok { // cannot be joined
		pl.exact[dk] = true
		in.enqueue(s)
		return
	}
	if changed {
		if in.States > in.MaxStates {
			return
		}
		if !pl.queue {
			pl.queue = true
			in.enqueue(pl.acc)
		}
	}
}

// take pops the next state.
func (in *Interp) take() *State {
	s := heap.Pop(&in.work).(*State)
	if s.loc != "" {
		pl := in.places[s.loc]
		pl.queue = false
		n := s.Clone()
		return n
	}
	return s
}

func joinName(loc, slot string) string {
	h := fnv.New64a()
	h.Write([]byte(loc))
	return fmt.Sprintf("join:%x:%s", h.Sum64(), slot)
}

type jslot struct {
	name string
	a, b *Term // the value before and after the join
	set  func(*Term)
}

// join folds b into the place's accumulated state.
func (in *Interp) join(pl *place, b *State) (changed, ok bool) {
	ts := in.TS
	a := pl.acc
	b = b.Clone()
	pl.n++
	// join symbols keep their meaning in a; b's older uses become stale
	pre := joinName(a.loc, "")
	stale := map[*Term]*Term{}
	b.eachSym(func(t *Term) {
		if strings.HasPrefix(t.Name, pre) {
			stale[t] = ts.Sym("stale:"+t.Name, t.T)
		}
	})
	if len(stale) > 0 {
		for _, o := range stale {
			if b.mentions(o) {
				stale[o] = nil
			}
		}
		b.substSyms(stale)
		if b.dead {
			return false, true
		}
	}
	// memory known on one side only
	for _, pair := range [][2]*State{{a, b}, {b, a}} {
		x, y := pair[0], pair[1]
		for _, ad := range sortedTerms(x.mem) {
			if _, have := y.mem[ad]; have {
				continue
			}
			r := root(ad)
			if r.Op == "alloc" && !y.isDirty(ad) && ad.T != nil && r.Name != "" && !strings.HasPrefix(r.Name, "old:") && !in.lateAlloc[r] && ad.Op != "melem" && ad.Op != "mhas" && !underMelem(ad) {
				y.mem[ad] = ts.Zero(ad.T)
				if x == b {
					changed = true
				}
				continue
			}
			if !isLocal(ad) && !y.isDirty(ad) && ad.T != nil {
				v := ts.intern(&Term{Op: "load", T: ad.T, Args: []*Term{ad}})
				if ad.Op == "mhas" || ad.Op == "melem" || !underMelem(ad) {
					y.mem[ad] = v
					if x == b {
						changed = true
					}
					continue
				}
			}
			delete(x.mem, ad)
			if x == a {
				changed = true
			}
			switch {
			case r.Op == "alloc" || r.Op == "make":
				if !a.dirtyBase[r] {
					a.dirtyBase[r] = true
					changed = true
				}
			case ad.Obj != nil:
				if !a.dirtyFld[ad.Obj] {
					a.dirtyFld[ad.Obj] = true
					changed = true
				}
			default:
				if !a.dirtyBase[r] {
					a.dirtyBase[r] = true
					changed = true
				}
			}
		}
	}
	var slots []jslot
	// classes of slots with the same pair of values
	type class struct {
		sym  *Term
		a, b *Term
	}
	var classes []*class
	byPair := map[[2]*Term]*class{}
	used, newClass := map[*Term]bool{}, map[*Term]bool{}
	classOf := func(name string, x, y *Term, typ types.Type) *Term {
		k := [2]*Term{x, y}
		if cl := byPair[k]; cl != nil {
			return cl.sym
		}
		cl := &class{a: x, b: y}
		if x.Op == "sym" && strings.HasPrefix(x.Name, pre) && !used[x] {
			cl.sym = x
		} else {
			t := typ
			if t == nil || x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				t = x.T
			}
			if t == nil && isIntTerm(x) {
				t = types.Typ[types.Int]
			}
			if t == nil {
				t = y.T
			}
			cl.sym = ts.Sym(joinName(a.loc, name), t)
			if used[cl.sym] || a.mentions(cl.sym) {
				cl.sym = ts.Sym(joinName(a.loc, fmt.Sprintf("%s~%d", name, pl.n)), t)
			}
			changed = true
			newClass[cl.sym] = true
		}
		used[cl.sym] = true
		in.created[cl.sym] = true
		byPair[k] = cl
		classes = append(classes, cl)
		return cl.sym
	}
	var merge func(name string, x, y *Term, typ types.Type) *Term
	merge = func(name string, x, y *Term, typ types.Type) *Term {
		if x == y {
			return x
		}
		if x.Op == "newerr" && y.Op == "newerr" && ErrTag(x) == ErrTag(y) {
			any := ts.intern(&Term{Op: "newerr", Name: "any", T: x.T, Args: x.Args})
			if x != any {
				changed = true
			}
			return any
		}
		if sameShape(x, y) {
			args := make([]*Term, len(x.Args))
			for i := range args {
				args[i] = merge(fmt.Sprintf("%s.%d", name, i), x.Args[i], y.Args[i], nil)
			}
			return ts.rebuild(x, args)
		}
		return classOf(name, x, y, typ)
	}
	add := func(name string, x, y *Term, typ types.Type, set func(*Term)) bool {
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		if !joinable(x, y) {
			return false
		}
		slots = append(slots, jslot{name: name, a: x, b: merge(name, x, y, typ), set: set})
		return true
	}
	for i, f := range a.frames {
		g := b.frames[i]
		vs := make([]ssa.Value, 0, len(f.env))
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			y, have := g.env[v]
			if !have {
				return false, false
			}
			f, v := f, v
			if !add(fmt.Sprintf("%d.%s", i, v.Name()), f.env[v], y, v.Type(), func(t *Term) { f.env[v] = t }) {
				return false, false
			}
		}
		for v := range g.env {
			if _, have := f.env[v]; !have {
				return false, false
			}
		}
		for k := range f.defers {
			d, e := &f.defers[k], &g.defers[k]
			if d.call != e.call || len(d.args) != len(e.args) {
				return false, false
			}
			if d.fn != e.fn {
				if !joinable(d.fn, e.fn) || d.fn.Op != e.fn.Op {
					return false, false
				}
				return false, false
			}
			for n := range d.args {
				d, n := d, n
				if !add(fmt.Sprintf("%d.d%d.%d", i, k, n), d.args[n], e.args[n], d.args[n].T, func(t *Term) { d.args[n] = t }) {
					return false, false
				}
			}
		}
	}
	for _, ad := range sortedTerms(a.mem) {
		y, have := b.mem[ad]
		if !have {
			continue
		}
		ad := ad
		typ := ad.T
		if !add(fmt.Sprintf("m%d", ad.ID), a.mem[ad], y, typ, func(t *Term) { a.mem[ad] = t }) {
			return false, false
		}
	}
	rk := make([]string, 0, len(a.R))
	for k := range a.R {
		rk = append(rk, k)
	}
	sort.Strings(rk)
	for _, k := range rk {
		k := k
		if a.R[k] == nil {
			continue
		}
		if !add("R"+k, a.R[k], b.R[k], a.R[k].T, func(t *Term) { a.R[k] = t }) {
			return false, false
		}
	}
	if a.panicVal != b.panicVal {
		if a.panicVal == nil || b.panicVal == nil {
			return false, false
		}
		if !add("panic", a.panicVal, b.panicVal, nil, func(t *Term) { a.panicVal = t }) {
			return false, false
		}
	}
	for _, cl := range classes {
		a.escape(cl.a)
		b.escape(cl.b)
	}
	if w := os.Getenv("FLOW_JOIN"); w != "" && strings.Contains(pre, w) {
		for _, cl := range classes {
			fmt.Printf("JOIN n=%d %s: %s | %s\n", pl.n, cl.sym, cl.a, cl.b)
		}
		fmt.Println("JOIN A", a.facts.String(), "\nJOIN B", b.facts.String())
	}
	// facts that hold on both sides
	widen := pl.n > 6
	nf := newFacts()
	toA, toB := map[*Term]*Term{}, map[*Term]*Term{}
	for _, cl := range classes {
		toA[cl.sym] = cl.a
		toB[cl.sym] = cl.b
	}
	ma, mb := map[*Term]*Term{}, map[*Term]*Term{}
	inA := func(t *Term) *Term { return ts.subst(t, toA, ma) }
	inB := func(t *Term) *Term { return ts.subst(t, toB, mb) }
	keepInt := func(p *Term) {
		if p == nil || len(p.Args) == 0 && p.Op == "const" {
			return
		}
		pp, _, _ := ts.poly(p)
		if pp == nil {
			return
		}
		if _, done := nf.ints[pp]; done {
			return
		}
		pa, pb := inA(pp), inB(pp)
		if pa == nil || pb == nil {
			return
		}
		x, y := ts.ival(a.facts, pa, 2), ts.ival(b.facts, pb, 2)
		r := Ival{Lo: mini(x.Lo, y.Lo), Hi: maxi(x.Hi, y.Hi)}
		if w := os.Getenv("FLOW_KEEP"); w != "" && strings.HasSuffix(pp.String(), w) {
			fmt.Printf("KEEP %s n=%d %s a=%s %v b=%s %v widen=%v\n", a.loc, pl.n, pp, pa, x, pb, y, widen)
		}
		if widen && (pl.n > 60 || toA[pp] != nil || in.mentionsCreated(pp)) {
			old, have := a.facts.ints[pp]
			if !have {
				if _, isClass := toA[pp]; !isClass {
					fresh := false
					for sy := range pp.syms {
						fresh = fresh || newClass[sy]
					}
					if !fresh {
						return
					}
				}
				old = x // the class is new, its values are not
			}
			if r.Lo < old.Lo {
				r.Lo = widenLo(r.Lo)
			}
			if r.Hi > old.Hi {
				r.Hi = widenHi(r.Hi)
			}
		}
		for _, m := range append(append([]int64{}, x.Ne...), y.Ne...) {
			ne := Ival{Lo: top.Lo, Hi: top.Hi, Ne: []int64{m}}
			if x.implies(ne) && y.implies(ne) && m >= r.Lo && m <= r.Hi {
				dup := false
				for _, k := range r.Ne {
					dup = dup || k == m
				}
				if !dup {
					r.Ne = append(r.Ne, m)
				}
			}
		}
		sort.Slice(r.Ne, func(i, j int) bool { return r.Ne[i] < r.Ne[j] })
		if !r.isTop() {
			nf.ints[pp] = r
		}
	}
	keepBool := func(c *Term) {
		if c == nil || c.Op == "const" || c.Op == "le0" || c.Op == "eq0" {
			return
		}
		if _, done := nf.bools[c]; done {
			return
		}
		ca, cb := inA(c), inB(c)
		if ca == nil || cb == nil {
			return
		}
		va, ka := ts.decide(a.facts, ca)
		vb, kb := ts.decide(b.facts, cb)
		if ka && kb && va == vb {
			nf.bools[c] = va
		}
	}
	cands := func(f *Facts, to map[*Term]*Term) {
		back := map[*Term]*Term{}
		var single []map[*Term]*Term
		for _, cl := range classes {
			v := to[cl.sym]
			if v == cl.sym || v.Op == "const" || v.Op == "nil" || v.Op == "lin" {
				continue
			}
			if _, dup := back[v]; dup {
				single = append(single, map[*Term]*Term{v: cl.sym})
			} else {
				back[v] = cl.sym
			}
		}
		maps := append([]map[*Term]*Term{nil, back}, single...)
		for _, m := range maps {
			memo := map[*Term]*Term{}
			for _, p := range sortedFactInts(f.ints) {
				q := p
				if m != nil {
					q = ts.subst(p, m, memo)
				}
				keepInt(q)
			}
			for _, c := range sortedFactBools(f.bools) {
				q := c
				if m != nil {
					q = ts.subst(c, m, memo)
				}
				keepBool(q)
			}
		}
	}
	cands(a.facts, toA)
	if !widen {
		cands(b.facts, toB)
	}
	held := a.held()
	for _, cl := range classes {
		if isIntTerm(cl.a) || isIntTerm(cl.b) {
			keepInt(cl.sym)
			for _, o := range classes {
				if o != cl && o.sym.ID < cl.sym.ID && (isIntTerm(o.a) || isIntTerm(o.b)) {
					da, oka := ts.ConstDiff(cl.a, o.a)
					db, okb := ts.ConstDiff(cl.b, o.b)
					if oka && okb {
						if da == db {
							keepInt(ts.Sub(cl.sym, o.sym))
						}
						continue
					}
					// the same distance may follow from the facts only
					if x := ts.ival(a.facts, ts.Sub(cl.a, o.a), 2); x.Lo == x.Hi || in.KeepOrder && !x.isTop() {
						keepInt(ts.Sub(cl.sym, o.sym))
					}
				}
			}
			// relation to the values a rule holds fixed
			for _, k := range held {
				keepInt(ts.Sub(cl.sym, a.R[k]))
			}
			// relation to a value both sides share
			if l, ok := ts.ConstDiff(cl.a, cl.b); ok && l != 0 {
				m, _ := ts.toLin(cl.b)
				if len(m) > 0 && len(m) <= 3 {
					keepInt(ts.Sub(cl.sym, cl.b))
				}
			}
			continue
		}
		for _, k := range []*Term{cl.a, cl.b} {
			if _, isText := k.StrVal(); isText && cl.sym.T != nil {
				keepBool(ts.Eq(cl.sym, k, cl.sym.T))
			}
		}
		if cl.sym.T != nil {
			switch cl.sym.T.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
				keepBool(ts.IsNil(cl.sym))
				if _, ok := cl.sym.T.Underlying().(*types.Slice); ok && in.KeepLens {
					keepInt(in.Len(cl.sym))
				}
			case *types.Basic:
				if isBoolType(cl.sym.T) {
					keepBool(cl.sym)
				}
			}
		} else {
			keepBool(ts.IsNil(cl.sym))
		}
	}
	var ka, kb strings.Builder
	a.facts.key(&ka)
	nf.key(&kb)
	if os.Getenv("FLOW_WATCH") != "" {
		for p, iv := range a.facts.ints {
			if strings.HasSuffix(p.String(), os.Getenv("FLOW_WATCH")) && fmt.Sprint(nf.ints[p]) != fmt.Sprint(iv) {
				fmt.Printf("WATCH %s n=%d %s: %v -> %v  (b %v)\n", a.loc, pl.n, p, iv, nf.ints[p], ts.ival(b.facts, p, 2))
			}
		}
	}
	if ka.String() != kb.String() {
		changed = true
		a.facts = nf
	}
	for _, sl := range slots {
		if sl.b != sl.a {
			changed = true
		}
		sl.set(sl.b)
	}
	for t := range b.dirtyBase {
		if !a.dirtyBase[t] {
			a.dirtyBase[t] = true
			changed = true
		}
	}
	for t := range b.dirtyFld {
		if !a.dirtyFld[t] {
			a.dirtyFld[t] = true
			changed = true
		}
	}
	for t := range b.escaped {
		if !a.escaped[t] {
			a.escaped[t] = true
			changed = true
		}
	}
	if b.dirtyAll && !a.dirtyAll {
		a.dirtyAll = true
		changed = true
	}
	for i, f := range a.frames {
		for h, sn := range b.frames[i].loops {
			o := f.loops[h]
			if o == nil {
				f.loops[h] = sn
				continue
			}
			n := &loopSnap{vals: map[string]*Term{}, gen: map[string]bool{}}
			for k := range o.gen {
				n.gen[k] = true
			}
			for k := range sn.gen {
				n.gen[k] = true
			}
			for k, v := range o.vals {
				if sn.vals[k] == v {
					n.vals[k] = v
				} else {
					n.gen[k] = true
				}
			}
			f.loops[h] = n
		}
	}
	return changed, true
}

// mentionsCreated reports a symbol made by a join in the term: its value can
// move on every iteration of a loop, that of other terms cannot.
func (in *Interp) mentionsCreated(t *Term) bool {
	hit := false
	t.Walk(func(x *Term) bool {
		hit = hit || in.created[x]
		return !hit
	})
	return hit
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// sameShape reports whether the two values are built alike, so that only their
// parts need to be joined.
func sameShape(x, y *Term) bool {
	if x.Op != y.Op || len(x.Args) != len(y.Args) || x.Name != y.Name || x.Obj != y.Obj {
		return false
	}
	switch x.Op {
	case "tuple":
		return true
	case "pure":
		return true
	case "struct", "iface", "conv":
		return x.T != nil && y.T != nil && types.Identical(x.T, y.T)
	case "field", "wrap":
		return true
	}
	return false
}

func joinable(x, y *Term) bool {
	if (x.Op == "closure" || x.Op == "func") || (y.Op == "closure" || y.Op == "func") {
		return false
	}
	if x.Op == "iface" && y.Op == "iface" && !types.Identical(x.T, y.T) {
		// keep repository types apart: calls on them are resolved
		return true
	}
	return true
}

func sortedFactInts(m map[*Term]Ival) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

func sortedFactBools(m map[*Term]bool) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

// eachSym visits the symbols the state mentions.
func (s *State) eachSym(f func(*Term)) {
	seen := map[*Term]bool{}
	vis := func(t *Term) {
		if t == nil {
			return
		}
		for sy := range t.syms {
			if !seen[sy] {
				seen[sy] = true
				f(sy)
			}
		}
	}
	for _, fr := range s.frames {
		for _, t := range fr.env {
			vis(t)
		}
		for _, d := range fr.defers {
			vis(d.fn)
			for _, a := range d.args {
				vis(a)
			}
		}
	}
	for a, v := range s.mem {
		vis(a)
		vis(v)
	}
	for _, v := range s.R {
		vis(v)
	}
	for k := range s.facts.ints {
		vis(k)
	}
	for k := range s.facts.bools {
		vis(k)
	}
	vis(s.panicVal)
}

var thresholds = []int64{-(1 << 40), -(1 << 20), -1024, -2, -1, 0, 1, 2, 1024, 1 << 14, 1 << 20, 1 << 31, 1 << 40}

// widenHi is the next widening threshold at or above n, widenLo the one below.
func widenHi(n int64) int64 {
	for _, t := range thresholds {
		if n <= t {
			return t
		}
	}
	return top.Hi
}

func widenLo(n int64) int64 {
	for i := len(thresholds) - 1; i >= 0; i-- {
		if n >= thresholds[i] {
			return thresholds[i]
		}
	}
	return top.Lo
}
