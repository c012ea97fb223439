package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S16", Technique: "inductive invariant of the handle cache by abstract interpretation of SSA: the effects of every operation on the order and the entries are compared element by element, and the lock is followed with typestate",
		Explain: "The invariant: the order and the entries of the cache correspond one to one, each entry knows its place and its token, the order is no longer than the capacity, and no token is larger than the counter. The constructor establishes it. Every operation is explored from any state in which it holds, with the elements it looks at named as it looks at them, and at its end (and before it calls back) what it wrote, removed and returned is compared: the invariant holds again, the handle stored is in the cache under the token returned or is given back, exactly the entries removed are given back, and a token is never used twice. The tokens the file cache keeps for its paths, and the cache itself, are used only under the lock of the file cache.",
		Assume:  []string{"tokens do not overflow", "a callback does not use the cache"},
		Min:     6,
		Run:     runS16,
	})
}

// cacheShape are the fields of the cache and of its entries by role.
type cacheShape struct {
	t                           types.Type
	order, handles, counter, cp *types.Var
	tokT, fileT, entryT         types.Type
	entry                       *types.Struct
	eLoc, eTok, eFile           int
}

func cacheShapeOf(c *Ctx) *cacheShape {
	put := c.Fn(filesPkg, "cache.Put")
	if put == nil {
		return nil
	}
	sh := &cacheShape{t: deref(recvType(put)), eLoc: -1, eTok: -1, eFile: -1}
	if len(put.Params) == 2 {
		sh.fileT = put.Params[1].Type()
	}
	for _, f := range fields(sh.t) {
		if m, ok := f.Type().Underlying().(*types.Map); ok {
			if st, ok := m.Elem().Underlying().(*types.Struct); ok {
				sh.handles, sh.tokT, sh.entryT, sh.entry = f, m.Key(), m.Elem(), st
			}
		}
	}
	if sh.handles == nil || sh.fileT == nil {
		c.Fail("anchor:cache", c.P.Pos(put.Pos()), "the cache does not hold entries by token")
		return nil
	}
	for _, f := range fields(sh.t) {
		switch t := f.Type().(type) {
		case *types.Slice:
			if types.Identical(t.Elem(), sh.tokT) {
				sh.order = f
			}
		default:
			if types.Identical(t, sh.tokT) {
				sh.counter = f
			} else if types.Identical(t, types.Typ[types.Int]) {
				sh.cp = f
			}
		}
	}
	for i := 0; i < sh.entry.NumFields(); i++ {
		switch t := sh.entry.Field(i).Type(); {
		case types.Identical(t, sh.tokT):
			sh.eTok = i
		case types.Identical(t, sh.fileT):
			sh.eFile = i
		case types.Identical(t, types.Typ[types.Int]):
			sh.eLoc = i
		}
	}
	if sh.order == nil || sh.counter == nil || sh.eLoc < 0 || sh.eTok < 0 || sh.eFile < 0 {
		c.Fail("anchor:cache", c.P.Pos(put.Pos()), "the order, the counter or the entries of the cache were not found")
		return nil
	}
	return sh
}

// cacheRun follows one operation.
type cacheRun struct {
	c              *Ctx
	sh             *cacheShape
	ts             *flow.Terms
	in             *flow.Interp
	key            string
	self           *flow.Term
	ord, hnd, capT *flow.Term
	op             *ssa.Function
}

func (m *cacheRun) bad(s *flow.State, i ssa.Instruction, format string, a ...interface{}) {
	m.in.ReportAt(s, m.key, i, format, a...)
	s.Kill()
}

func count(s *flow.State, list string) int { return len(s.D["n:"+list]) }

// add appends to a list kept in the state.
func (m *cacheRun) add(s *flow.State, list string, xs ...*flow.Term) {
	k := itoa(count(s, list))
	s.D["n:"+list] += "x"
	for j, x := range xs {
		s.R[list+k+"."+itoa(j)] = x
	}
}

func (m *cacheRun) at(s *flow.State, list string, k, j int) *flow.Term {
	return s.R[list+itoa(k)+"."+itoa(j)]
}

func (m *cacheRun) clear(s *flow.State) {
	for _, l := range []string{"k", "a", "w", "h"} {
		delete(s.D, "n:"+l)
		for r := range s.R {
			if strings.HasPrefix(r, l) && len(r) > 1 && r[1] >= '0' && r[1] <= '9' {
				delete(s.R, r)
			}
		}
	}
}

// The lists: k are the tokens known to have been in the cache (token, place,
// file), a those known not to (token), w what was written to the order (place,
// token), h what was written to the entries (token, entry or nil).

// n is the length of the order, tok the counter.
func (m *cacheRun) n(s *flow.State) *flow.Term   { return m.ts.Add(s.R["n0"], s.R["d"]) }
func (m *cacheRun) tok(s *flow.State) *flow.Term { return m.ts.Add(s.R["tok0"], s.R["dt"]) }

func (m *cacheRun) differ(s *flow.State, a, b *flow.Term, t types.Type) bool {
	return s.Assume(m.ts.Eq(a, b, t), false)
}

// known adds a token that was in the cache.
func (m *cacheRun) known(s *flow.State, tok, loc, file *flow.Term) bool {
	ts := m.ts
	ok := s.Assume(ts.Le(tok, s.R["tok0"]), true) &&
		s.Assume(ts.Le(ts.Int(0), loc), true) && s.Assume(ts.Le(ts.AddI(loc, 1), s.R["n0"]), true)
	for k := 0; ok && k < count(s, "k"); k++ {
		ok = m.differ(s, tok, m.at(s, "k", k, 0), m.sh.tokT) && m.differ(s, loc, m.at(s, "k", k, 1), types.Typ[types.Int])
	}
	for k := 0; ok && k < count(s, "a"); k++ {
		ok = m.differ(s, tok, m.at(s, "a", k, 0), m.sh.tokT)
	}
	if ok {
		m.add(s, "k", tok, loc, file)
	}
	return ok
}

func (m *cacheRun) entryOf(s *flow.State, k int) *flow.Term {
	fs := make([]*flow.Term, m.sh.entry.NumFields())
	for i := range fs {
		fs[i] = m.ts.Zero(m.sh.entry.Field(i).Type())
	}
	fs[m.sh.eTok], fs[m.sh.eLoc], fs[m.sh.eFile] = m.at(s, "k", k, 0), m.at(s, "k", k, 1), m.at(s, "k", k, 2)
	return m.ts.Struct(m.sh.entryT, fs)
}

// getEntry says what the entries hold for a token, as they are now.
func (m *cacheRun) getEntry(s *flow.State, e *flow.Event, tok *flow.Term, rs func(v *flow.Term, ok bool) *flow.Term) {
	ts := m.ts
	var before []*flow.Term
	apart := func(s *flow.State, upto int) bool {
		for _, b := range before[:upto] {
			if !m.differ(s, tok, b, m.sh.tokT) {
				s.Kill()
				return false
			}
		}
		return true
	}
	alt := func(same *flow.Term, result *flow.Term) {
		n := len(before)
		e.Fork(flow.Alt{Result: result, Do: func(s *flow.State) {
			if apart(s, n) && !s.Assume(ts.Eq(tok, same, m.sh.tokT), true) {
				s.Kill()
			}
		}})
		before = append(before, same)
	}
	for k := count(s, "h") - 1; k >= 0; k-- {
		if v := m.at(s, "h", k, 1); v != nil {
			alt(m.at(s, "h", k, 0), rs(v, true))
		} else {
			alt(m.at(s, "h", k, 0), rs(ts.Zero(m.sh.entryT), false))
		}
	}
	for k := 0; k < count(s, "k"); k++ {
		alt(m.at(s, "k", k, 0), rs(m.entryOf(s, k), true))
	}
	for k := 0; k < count(s, "a"); k++ {
		alt(m.at(s, "a", k, 0), rs(ts.Zero(m.sh.entryT), false))
	}
	n := len(before)
	// one that was not looked at yet: it is there ...
	loc := m.in.Fresh(s, e, "rule.loc", types.Typ[types.Int])
	file := m.in.Fresh(s, e, "rule.file", m.sh.fileT)
	fs := make([]*flow.Term, m.sh.entry.NumFields())
	for i := range fs {
		fs[i] = ts.Zero(m.sh.entry.Field(i).Type())
	}
	fs[m.sh.eTok], fs[m.sh.eLoc], fs[m.sh.eFile] = tok, loc, file
	e.Fork(flow.Alt{Result: rs(ts.Struct(m.sh.entryT, fs), true), Note: "the cache has the token", Do: func(s *flow.State) {
		if apart(s, n) && !m.known(s, tok, loc, file) {
			s.Kill()
		}
	}})
	// ... or it is not
	e.Fork(flow.Alt{Result: rs(ts.Zero(m.sh.entryT), false), Note: "the cache does not have the token", Do: func(s *flow.State) {
		if apart(s, n) {
			m.add(s, "a", tok)
		}
	}})
}

// getOrder says which token is at a place, as the order is now.
func (m *cacheRun) getOrder(s *flow.State, e *flow.Event, at *flow.Term) {
	ts := m.ts
	int_ := types.Typ[types.Int]
	if !s.Le(ts.Int(0), at) || !s.Le(ts.AddI(at, 1), m.n(s)) {
		m.bad(s, e.Instr, "the place %s is looked at, which the order may not have", clipTerm(at))
		return
	}
	var before []*flow.Term
	apart := func(s *flow.State, upto int) bool {
		for _, b := range before[:upto] {
			if !m.differ(s, at, b, int_) {
				s.Kill()
				return false
			}
		}
		return true
	}
	alt := func(same, result *flow.Term) {
		n := len(before)
		e.Fork(flow.Alt{Result: result, Do: func(s *flow.State) {
			if apart(s, n) && !s.Assume(ts.Eq(at, same, int_), true) {
				s.Kill()
			}
		}})
		before = append(before, same)
	}
	for k := count(s, "w") - 1; k >= 0; k-- {
		alt(m.at(s, "w", k, 0), m.at(s, "w", k, 1))
	}
	for k := 0; k < count(s, "k"); k++ {
		alt(m.at(s, "k", k, 1), m.at(s, "k", k, 0))
	}
	n := len(before)
	tok := m.in.Fresh(s, e, "rule.tok", m.sh.tokT)
	file := m.in.Fresh(s, e, "rule.file", m.sh.fileT)
	e.Fork(flow.Alt{Result: tok, Do: func(s *flow.State) {
		if apart(s, n) && !m.known(s, tok, at, file) {
			s.Kill()
		}
	}})
}

func (m *cacheRun) isOrder(t *flow.Term) bool {
	for t != nil && (t.Op == "slice" || t.Op == "append") {
		t = t.Args[0]
	}
	return t == m.ord
}

// hook models the fields of the cache. It reports whether it took care of the
// event.
func (m *cacheRun) hook(s *flow.State, e *flow.Event) bool {
	ts, sh := m.ts, m.sh
	fieldAt := func(a *flow.Term) *types.Var {
		if a == nil || a.Op != "faddr" || len(a.Args) == 0 || a.Args[0] != m.self {
			return nil
		}
		v, _ := a.Obj.(*types.Var)
		return v
	}
	switch e.Kind {
	case "load":
		if v := fieldAt(e.Addr); v != nil {
			switch v {
			case sh.order:
				e.Result = ts.Mk("slice", "", sh.order.Type(), m.ord, ts.Int(0), m.n(s))
			case sh.handles:
				e.Result = m.hnd
			case sh.counter:
				e.Result = m.tok(s)
			case sh.cp:
				e.Result = m.capT
			default:
				return false
			}
			return true
		}
		if e.Addr.Op == "iaddr" && m.isOrder(e.Addr.Args[0]) {
			m.getOrder(s, e, e.Addr.Args[1])
			return true
		}
	case "store":
		if v := fieldAt(e.Addr); v != nil {
			switch v {
			case sh.order:
				m.setOrder(s, e)
			case sh.counter:
				if !s.Le(m.tok(s), e.Val) {
					m.bad(s, e.Instr, "the counter of tokens may go back to %s, so that a token is used twice", clipTerm(e.Val))
				}
				s.R["dt"] = ts.Sub(e.Val, s.R["tok0"])
			case sh.handles, sh.cp:
				if e.Val != m.hnd && e.Val != m.capT {
					m.bad(s, e.Instr, "%s of the cache is replaced", v.Name())
				}
			}
			return true
		}
		if e.Addr.Op == "iaddr" && m.isOrder(e.Addr.Args[0]) {
			at := e.Addr.Args[1]
			if !s.Le(ts.Int(0), at) || !s.Le(ts.AddI(at, 1), m.n(s)) {
				m.bad(s, e.Instr, "the place %s is written, which the order may not have", clipTerm(at))
				return true
			}
			m.add(s, "w", at, e.Val)
			return true
		}
	case "mapget":
		if e.Addr == m.hnd {
			m.getEntry(s, e, e.Args[1], func(v *flow.Term, ok bool) *flow.Term {
				return ts.Mk("tuple", "", types.NewTuple(types.NewVar(0, nil, "", sh.entryT), types.NewVar(0, nil, "", types.Typ[types.Bool])), v, ts.Bool(ok))
			})
			return true
		}
	case "mapset":
		if e.Args[0] == m.hnd {
			m.add(s, "h", e.Args[1], e.Args[2])
			return true
		}
	case "mapdel":
		if e.Args[0] == m.hnd {
			m.add(s, "h", e.Args[1], nil)
			return true
		}
	case "clear", "next":
		if len(e.Args) > 0 && e.Args[0] == m.hnd {
			m.bad(s, e.Instr, "the entries are used as a whole, which this check does not follow")
			return true
		}
	}
	return false
}

func (m *cacheRun) setOrder(s *flow.State, e *flow.Event) {
	ts := m.ts
	v := e.Val
	var grow func(v *flow.Term) (*flow.Term, bool)
	grow = func(v *flow.Term) (*flow.Term, bool) {
		switch v.Op {
		case "slice":
			if v.Args[0] == m.ord {
				if lo, ok := v.Args[1].IntVal(); ok && lo == 0 {
					return v.Args[2], true
				}
			}
			// a slice of what was appended to
			if m.isOrder(v.Args[0]) {
				if _, ok := grow(v.Args[0]); ok {
					if lo, ok := v.Args[1].IntVal(); ok && lo == 0 {
						return v.Args[2], true
					}
				}
			}
		case "append":
			n, ok := grow(v.Args[0])
			if !ok || len(v.Args) != 2 {
				return nil, false
			}
			more, ok := m.in.Len(v.Args[1]).IntVal()
			if !ok || more < 0 || more > 4 {
				return nil, false
			}
			for k := int64(0); k < more; k++ {
				m.add(s, "w", n, m.in.ElemAt(s, v.Args[1], k, m.sh.tokT))
				n = ts.AddI(n, 1)
			}
			return n, true
		}
		return nil, false
	}
	n, ok := grow(v)
	if !ok {
		m.bad(s, e.Instr, "the order becomes %s, which this check does not follow", clipTerm(v))
		return
	}
	d := ts.Sub(n, s.R["n0"])
	if b := s.Bounds(d); b.Lo == b.Hi {
		d = ts.Int(b.Lo)
	}
	s.R["d"] = d
}

// split asks a question of the state, and tries both answers when it has none.
type undecided struct{ q *flow.Term }

// verify checks that the invariant holds again, and that what was stored and
// removed is what was given and given back.
func (m *cacheRun) verify(s *flow.State, i ssa.Instruction, in, out []*flow.Term, key *flow.Term, depth int) bool {
	why := ""
	q := func() (q *flow.Term) {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(undecided)
				if !ok {
					panic(r)
				}
				q = u.q
			}
		}()
		why = m.holds(s, in, out, key)
		return nil
	}()
	if q != nil {
		if depth > 14 {
			m.in.ReportAt(s, m.key, i, "it is not clear whether %s", clipTerm(q))
			return false
		}
		o := s.Clone()
		if o.Assume(q, true) && !m.verify(o, i, in, out, key, depth+1) {
			return false
		}
		o = s.Clone()
		if o.Assume(q, false) && !m.verify(o, i, in, out, key, depth+1) {
			return false
		}
		return true
	}
	if why != "" {
		m.in.ReportAt(s, m.key, i, "%s", why)
		return false
	}
	return true
}

func (m *cacheRun) ask(s *flow.State, q *flow.Term) bool {
	v, known := s.Decide(q)
	if !known {
		panic(undecided{q})
	}
	return v
}

func (m *cacheRun) sameTok(s *flow.State, a, b *flow.Term) bool {
	return a == b || m.ask(s, m.ts.Eq(a, b, m.sh.tokT))
}

func (m *cacheRun) sameInt(s *flow.State, a, b *flow.Term) bool {
	return a == b || m.ask(s, m.ts.Eq(a, b, types.Typ[types.Int]))
}

// entryNow is the entry of a token (which was in the cache before, as the
// number k says, or not), after what was written.
func (m *cacheRun) entryNow(s *flow.State, tok *flow.Term) (v *flow.Term, ok bool) {
	for k := count(s, "h") - 1; k >= 0; k-- {
		if m.sameTok(s, tok, m.at(s, "h", k, 0)) {
			v := m.at(s, "h", k, 1)
			return v, v != nil
		}
	}
	for k := 0; k < count(s, "k"); k++ {
		if m.sameTok(s, tok, m.at(s, "k", k, 0)) {
			return m.entryOf(s, k), true
		}
	}
	return nil, false
}

// orderNow is the token at a place, after what was written; nil if it is one
// that was not looked at.
func (m *cacheRun) orderNow(s *flow.State, at *flow.Term) *flow.Term {
	for k := count(s, "w") - 1; k >= 0; k-- {
		if m.sameInt(s, at, m.at(s, "w", k, 0)) {
			return m.at(s, "w", k, 1)
		}
	}
	for k := 0; k < count(s, "k"); k++ {
		if m.sameInt(s, at, m.at(s, "k", k, 1)) {
			return m.at(s, "k", k, 0)
		}
	}
	return nil
}

// before finds the token among those that were in the cache.
func (m *cacheRun) before(s *flow.State, tok *flow.Term) int {
	for k := 0; k < count(s, "k"); k++ {
		if m.sameTok(s, tok, m.at(s, "k", k, 0)) {
			return k
		}
	}
	return -1
}

func (m *cacheRun) holds(s *flow.State, in, out []*flow.Term, key *flow.Term) string {
	ts, sh := m.ts, m.sh
	n, n0 := m.n(s), s.R["n0"]
	loc := func(v *flow.Term) *flow.Term { return ts.Field(v, sh.eLoc, sh.entry) }
	tokOf := func(v *flow.Term) *flow.Term { return ts.Field(v, sh.eTok, sh.entry) }
	fileOf := func(v *flow.Term) *flow.Term { return ts.Field(v, sh.eFile, sh.entry) }

	if !s.Le(n, m.capT) {
		return "the cache may hold more handles than its capacity"
	}
	if !s.Le(ts.Int(0), n) {
		return "the order may have a negative length"
	}
	// what a place holds is an entry that knows it
	places := []*flow.Term{}
	for k := 0; k < count(s, "w"); k++ {
		places = append(places, m.at(s, "w", k, 0))
	}
	for k := 0; k < count(s, "k"); k++ {
		places = append(places, m.at(s, "k", k, 1))
	}
	d, ok := ts.ConstDiff(n, n0)
	if !ok {
		return "the order changes its length by an unknown number of places"
	}
	for k := int64(1); k <= -d; k++ {
		places = append(places, ts.AddI(n0, -k))
	}
	for _, p := range places {
		if !m.ask(s, ts.Le(ts.AddI(p, 1), n)) {
			continue
		}
		tok := m.orderNow(s, p)
		if tok == nil {
			continue // as it was
		}
		v, ok := m.entryNow(s, tok)
		switch {
		case !ok:
			return "the order has a token for which there is no entry"
		case !m.sameInt(s, loc(v), p):
			return "an entry does not know the place its token has"
		case !m.sameTok(s, tokOf(v), tok):
			return "an entry does not know its token"
		}
	}
	// and every place is accounted for
	for k := int64(0); k < d; k++ {
		if m.orderNow(s, ts.AddI(n0, k)) == nil {
			return "the order grows without a token"
		}
	}
	// what was written over or cut off: the token that was there
	for _, p := range places {
		if !m.ask(s, ts.Le(ts.AddI(p, 1), n0)) {
			continue
		}
		seen := false
		for k := 0; k < count(s, "k"); k++ {
			if m.sameInt(s, p, m.at(s, "k", k, 1)) {
				seen = true
			}
		}
		if !seen {
			return "a token is taken out of the order while its entry stays"
		}
	}
	// entries, old and new, are where they say
	var toks []*flow.Term
	for k := 0; k < count(s, "k"); k++ {
		toks = append(toks, m.at(s, "k", k, 0))
	}
	for k := 0; k < count(s, "h"); k++ {
		toks = append(toks, m.at(s, "h", k, 0))
	}
	var removed, added []*flow.Term // files
	var addedAt *flow.Term
	for j, tok := range toks {
		v, ok := m.entryNow(s, tok)
		was := m.before(s, tok)
		dup := false
		for _, o := range toks[:j] {
			if m.sameTok(s, o, tok) {
				dup = true
			}
		}
		if dup {
			continue
		}
		if ok {
			if !m.ask(s, ts.Le(ts.AddI(loc(v), 1), n)) || !m.ask(s, ts.Le(ts.Int(0), loc(v))) {
				return "an entry is at a place beyond the order"
			}
			at := m.orderNow(s, loc(v))
			if at == nil || !m.sameTok(s, at, tok) {
				return "an entry is not at the place it says"
			}
			if !m.sameTok(s, tokOf(v), tok) {
				return "an entry does not know its token"
			}
		}
		switch {
		case was >= 0 && !ok:
			removed = append(removed, m.at(s, "k", was, 2))
		case was >= 0 && ok:
			if fileOf(v) != m.at(s, "k", was, 2) {
				return "the handle of a token is replaced by another one"
			}
		case ok:
			added, addedAt = append(added, fileOf(v)), tok
			if !s.Le(ts.AddI(s.R["tok0"], 1), tok) {
				return "a handle is stored under a token that may have been used before"
			}
			if !s.Le(tok, m.tok(s)) {
				return "a handle is stored under a token that the counter may give out again"
			}
		}
	}
	// what was given and what is given back
	for _, f := range in {
		n := 0
		for _, x := range append(append([]*flow.Term{}, added...), out...) {
			if x == f {
				n++
			}
		}
		switch {
		case n == 0:
			return "the handle stored is neither in the cache nor given back"
		case n > 1:
			return "the handle stored is in the cache and given back as well"
		}
	}
	for _, f := range removed {
		n := 0
		for _, x := range out {
			if x == f {
				n++
			}
		}
		if n != 1 {
			return "a handle is removed from the cache without being given back"
		}
	}
	for _, f := range out {
		ok := false
		for _, x := range append(append([]*flow.Term{}, removed...), in...) {
			if x == f {
				ok = true
			}
		}
		if !ok {
			return "something is given back that was not removed from the cache: " + clipTerm(f)
		}
	}
	for _, f := range added {
		ok := false
		for _, x := range in {
			if x == f {
				ok = true
			}
		}
		if !ok {
			return "something is stored that was not given: " + clipTerm(f)
		}
	}
	if addedAt != nil && key != nil && !m.sameTok(s, key, addedAt) {
		return "the token returned is not the one the handle is stored under"
	}
	if addedAt != nil && key == nil {
		return "the token of the handle stored is not returned"
	}
	return ""
}

func runS16(c *Ctx) {
	// the handle displaced is closed
	c.Include("S06", func(key, where, msg string) bool {
		return strings.Contains(key, "leak:evicted by") || strings.Contains(key, ".fileCache).")
	})
	sh := cacheShapeOf(c)
	if sh == nil {
		return
	}
	ts := c.P.TS
	uses := func(f *ssa.Function) bool {
		found := false
		instrsOf(f, func(i ssa.Instruction) {
			if fa, ok := i.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), sh.t) {
				found = true
			}
		})
		return found
	}
	mod := c.Fn(filesPkg, "fastMod")
	if mod == nil {
		return
	}
	// the choice of a place is one there is
	c.Oblige("choice", c.P.Pos(mod.Pos()), "a place chosen at random is one of those there are", true)
	{
		in := flow.NewInterp(c.P, nil)
		args := symArgs(c, mod)
		exits := 0
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind != "exit" || e.Callee != mod {
				return
			}
			exits++
			if !scaledBelow(s, ts, e.Args[0], args[0], args[1]) {
				in.ReportAt(s, "choice", e.Instr, "%s may not be below %s", clipTerm(e.Args[0]), clipTerm(args[1]))
			}
		}
		c.Explore(in, mod, args, func(s *flow.State) { s.Assume(ts.Le(ts.Int(1), args[1]), true) })
		if exits == 0 {
			c.Fail("choice", c.P.Pos(mod.Pos()), "nothing is chosen")
		}
	}

	// the operations are what others use of the cache
	var ops []*ssa.Function
	var mk *ssa.Function
	inner := map[*ssa.Function]bool{}
	for _, f := range c.P.RepoFuncs() {
		if inPkg(f, filesPkg) && uses(f) {
			inner[f] = true
		}
	}
	for _, f := range c.P.RepoFuncs() {
		if !inner[f] || f.Parent() != nil {
			continue
		}
		if f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && types.Identical(deref(f.Signature.Results().At(0).Type()), sh.t) {
			mk = f
			continue
		}
		called, outside := false, false
		for _, g := range c.P.RepoFuncs() {
			if g != f && calls(g, f) {
				called = true
				if !inner[g] {
					outside = true
				}
			}
		}
		if outside || !called || f.Object() != nil && f.Object().Exported() {
			ops = append(ops, f)
		}
	}
	if mk == nil {
		c.Fail("anchor:new", filesPkg, "nothing makes a cache")
	} else {
		runS16New(c, sh, mk)
	}
	kinds := map[string]int{}
	for _, f := range ops {
		f := f
		m := &cacheRun{c: c, sh: sh, ts: ts, op: f, key: "op:" + short(f.String())}
		c.Oblige(m.key, c.P.Pos(f.Pos()), f.Name()+" keeps order and entries in step, within the capacity, and loses no handle", true)
		in := flow.NewInterp(c.P, nil)
		m.in = in
		args := symArgs(c, f)
		var files []*flow.Term
		var callback *flow.Term
		for i, p := range f.Params {
			switch {
			case types.Identical(deref(p.Type()), sh.t) && m.self == nil:
				m.self = args[i]
			case types.Identical(p.Type(), sh.fileT):
				files = append(files, args[i])
			}
			if sig, ok := p.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), sh.fileT) {
				callback = args[i]
			}
		}
		if m.self == nil {
			c.Fail(m.key, c.P.Pos(f.Pos()), "%s uses a cache it is not given", f.Name())
			continue
		}
		m.ord = ts.Sym("rule.order", sh.order.Type())
		m.hnd = ts.Sym("rule.handles", sh.handles.Type())
		m.capT = in.Cap(m.ord)
		for _, t := range append([]*flow.Term{m.ord, m.hnd, m.capT, m.self}, args...) {
			in.Keep(t)
		}
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return inPkg(g, filesPkg) && g != mod && (inner[g] || g.Parent() == f)
		}
		ends, emptied := 0, 0
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if m.hook(s, e) {
				return
			}
			switch e.Kind {
			case "call":
				if e.Callee == mod {
					v := in.Fresh(s, e, "rule.place", types.Typ[types.Int])
					n := e.Args[1]
					if !s.Le(ts.Int(1), n) {
						m.bad(s, e.Instr, "a place is chosen out of %s, which may be none", clipTerm(n))
						return
					}
					s.Assume(ts.Le(ts.Int(0), v), true)
					s.Assume(ts.Le(ts.AddI(v, 1), n), true)
					e.Result, e.Handled = v, true
					return
				}
				if callback != nil && e.FnVal == callback {
					if !m.verify(s, e.Instr, nil, e.Args[:1], nil, 0) {
						s.Kill()
						return
					}
					m.clear(s)
					s.R["n0"], s.R["d"] = m.n(s), ts.Int(0)
					s.R["tok0"], s.R["dt"] = m.tok(s), ts.Int(0)
					e.Handled = true
					e.Fork(
						flow.Alt{Result: ts.Bool(true), Do: func(s *flow.State) { s.D["stop"] = "" }},
						flow.Alt{Result: ts.Bool(false), Do: func(s *flow.State) { s.D["stop"] = "1" }},
					)
					return
				}
			case "exit":
				if e.Callee != f {
					return
				}
				ends++
				var out []*flow.Term
				var key *flow.Term
				none := false
				for k, r := range e.Args {
					switch t := f.Signature.Results().At(k).Type(); {
					case types.Identical(t, sh.fileT):
						out = append(out, r)
					case types.Identical(t, sh.tokT):
						key = r
					case types.Identical(t, types.Typ[types.Bool]):
						v, known := s.Decide(r)
						if !known {
							m.bad(s, e.Instr, "it is not clear whether a handle is given back")
							return
						}
						none = !v
					}
				}
				if none {
					out = nil
				}
				// a token of nothing that is stored says nothing
				if callback != nil {
					if s.D["stop"] == "" {
						emptied++
						if !s.Le(m.n(s), ts.Int(0)) {
							m.bad(s, e.Instr, "handles may be left in the cache although the callback wanted them all")
							return
						}
					}
				}
				m.verify(s, e.Instr, files, out, key, 0)
			}
		}
		c.Explore(in, f, args, func(s *flow.State) {
			n, t0 := ts.Sym("rule.n0", types.Typ[types.Int]), ts.Sym("rule.tok0", sh.tokT)
			s.Interp().Keep(n)
			s.Interp().Keep(t0)
			s.R["n0"], s.R["d"], s.R["tok0"], s.R["dt"] = n, ts.Int(0), t0, ts.Int(0)
			s.Assume(ts.Le(ts.Int(0), n), true)
			s.Assume(ts.Le(n, m.capT), true)
		})
		switch {
		case ends == 0:
			c.Fail(m.key, c.P.Pos(f.Pos()), "%s was not followed to its end", f.Name())
		case callback != nil:
			kinds["drain"]++
		case len(files) > 0:
			kinds["put"]++
		default:
			kinds["take"]++
		}
	}
	for _, k := range []string{"put", "take", "drain"} {
		c.Count("operations: "+k, kinds[k])
		if kinds[k] == 0 {
			c.Fail("anchor:"+k, filesPkg, "the cache has no operation to %s", k)
		}
	}
	runS16Lock(c, sh, ops)
}

// scaledBelow recognises a uint32 scaled to a range: (x * n) >> 32.
func scaledBelow(s *flow.State, ts *flow.Terms, r, x, n *flow.Term) bool {
	if s.Le(ts.Int(0), r) && s.Le(ts.AddI(r, 1), n) {
		return true
	}
	strip := func(t *flow.Term) *flow.Term {
		for t != nil && (t.Op == "conv" || t.Op == "wrap") {
			t = t.Args[0]
		}
		return t
	}
	r = strip(r)
	if r == nil || len(r.Args) != 2 {
		return false
	}
	k, ok := r.Args[1].IntVal()
	if !ok {
		return false
	}
	switch r.Op {
	case "rem":
		return strip(r.Args[1]) == n
	case "quo":
		ok = k == 1<<32
	case "op>>", "shr":
		ok = k == 32
	default:
		return false
	}
	p := strip(r.Args[0])
	if !ok || p == nil || p.Op != "mul" || len(p.Args) != 2 {
		return false
	}
	a, b := strip(p.Args[0]), strip(p.Args[1])
	return a == x && b == n || a == n && b == x
}

func runS16New(c *Ctx, sh *cacheShape, mk *ssa.Function) {
	ts := c.P.TS
	key := "new:" + short(mk.String())
	c.Oblige(key, c.P.Pos(mk.Pos()), "a cache is made empty, with room for its capacity", true)
	in := flow.NewInterp(c.P, nil)
	args := symArgs(c, mk)
	var capT *flow.Term
	for i, p := range mk.Params {
		if isIntType(p.Type()) {
			capT = args[i]
		}
	}
	exits := 0
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if e.Kind != "exit" || e.Callee != mk {
			return
		}
		exits++
		v := e.Args[0]
		order := s.Load(ts.FieldAddr(v, sh.order), sh.order.Type(), "rule.order")
		if !s.Le(in.Len(order), ts.Int(0)) {
			in.ReportAt(s, key, e.Instr, "the order of a new cache is not empty: %s", clipTerm(order))
		}
		if capT == nil || !s.Same(in.Cap(order), capT) {
			in.ReportAt(s, key, e.Instr, "a new cache has room for %s, not for its capacity", clipTerm(in.Cap(order)))
		}
		if sh.cp != nil {
			if x := s.Load(ts.FieldAddr(v, sh.cp), sh.cp.Type(), "rule.cap"); x != capT {
				in.ReportAt(s, key, e.Instr, "a new cache has the capacity %s", clipTerm(x))
			}
		}
		if h := s.Load(ts.FieldAddr(v, sh.handles), sh.handles.Type(), "rule.handles"); h.Op != "make" {
			in.ReportAt(s, key, e.Instr, "a new cache has no entries to store to")
		}
	}
	c.Explore(in, mk, args, nil)
	if exits == 0 {
		c.Fail(key, c.P.Pos(mk.Pos()), "no cache is made")
	}
}

// runS16Lock follows the lock of the file cache, and the tokens it keeps for
// its paths.
func runS16Lock(c *Ctx, sh *cacheShape, ops []*ssa.Function) {
	pkg := c.P.ByPkg[flow.RepoPath+"/"+filesPkg]
	var owner types.Type
	isCache := func(v *types.Var) bool { return types.Identical(deref(v.Type()), sh.t) }
	isToks := func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), sh.tokT) && !types.Identical(m.Key(), sh.tokT)
	}
	for _, n := range pkg.Types.Scope().Names() {
		tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		for _, f := range fields(tn.Type()) {
			if isCache(f) {
				owner = tn.Type()
			}
		}
	}
	if owner == nil {
		c.Fail("anchor:owner", filesPkg, "nothing holds a cache")
		return
	}
	g := newGuard("lock", "the file cache", owner, func(v *types.Var) bool { return isCache(v) || isToks(v) })
	if len(g.mu) != 1 || len(g.fields) != 2 {
		c.Fail("anchor:lock", filesPkg, "the file cache does not have a lock, a cache and tokens by path")
		return
	}
	ts := c.P.TS
	c.Oblige("lock", filesPkg+"/file_cache.go", "the cache and the tokens of its paths are used only under the lock of the file cache", true)
	c.Oblige("token", filesPkg+"/file_cache.go", "the token of a stored handle is kept for its path, and taken for the same path", true)
	isOp := map[*ssa.Function]bool{}
	for _, f := range ops {
		isOp[f] = true
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		fa, ok := i.(*ssa.FieldAddr)
		return ok && g.touches(fieldOf(fa))
	})
	roots := 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, filesPkg) || !rel[f] || len(f.Blocks) == 0 || f.Parent() != nil || types.Identical(deref(recvType(f)), sh.t) {
			continue
		}
		// those that use it themselves, or through a helper of their own
		if recvType(f) == nil || !types.Identical(deref(recvType(f)), owner) {
			touch := false
			instrsOf(f, func(i ssa.Instruction) {
				if fa, ok := i.(*ssa.FieldAddr); ok && g.touches(fieldOf(fa)) {
					touch = true
				}
			})
			if !touch {
				continue
			}
		}
		// a helper is seen from its callers
		only := false
		for _, h := range c.P.RepoFuncs() {
			if h != f && calls(h, f) {
				r := recvType(h)
				if r != nil && types.Identical(deref(r), owner) {
					only = true
				} else {
					only = false
					break
				}
			}
		}
		if only {
			continue
		}
		roots++
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
			return inPkg(h, filesPkg) && rel[h] && !isOp[h]
		}
		args := symArgs(c, f)
		param := func(t *flow.Term) bool {
			for i, p := range f.Params {
				if args[i] == t && types.Identical(p.Type().Underlying(), types.Typ[types.String]) {
					return true
				}
			}
			return false
		}
		for _, a := range args {
			in.Keep(a)
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(key, format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			if e.Kind == "call" && e.Name == muUnlock && g.lockOf(e.Args[0]) != nil && s.D["owed"] != "" {
				bad("token", "a handle was stored, but its token is not kept for its path")
				return
			}
			if g.hook(in, s, e) || s.Dead() {
				return
			}
			switch e.Kind {
			case "call":
				if e.Callee == nil || !isOp[e.Callee] {
					return
				}
				if s.D["held:lock"] == "" {
					bad("lock", "%s of the cache is used without holding the lock of the file cache", e.Callee.Name())
					return
				}
				rs := e.Callee.Signature.Results()
				var tokAt, boolAt = -1, -1
				for i := 0; i < rs.Len(); i++ {
					switch {
					case types.Identical(rs.At(i).Type(), sh.tokT):
						tokAt = i
					case types.Identical(rs.At(i).Type(), types.Typ[types.Bool]):
						boolAt = i
					}
				}
				for i, a := range e.Args {
					if types.Identical(e.Callee.Params[i].Type(), sh.tokT) {
						if s.R["tok"] == nil || a != s.R["tok"] {
							bad("token", "the handle of %s is taken, which is not the token kept for the path", clipTerm(a))
							return
						}
					}
				}
				if rs.Len() < 2 || boolAt < 0 {
					return
				}
				var xs []*flow.Term
				for i := 0; i < rs.Len(); i++ {
					xs = append(xs, in.Fresh(s, e, "rule.r"+itoa(i), rs.At(i).Type()))
				}
				xs[boolAt] = ts.Bool(true)
				ys := append([]*flow.Term{}, xs...)
				ys[boolAt] = ts.Bool(false)
				if tokAt >= 0 {
					s.D["owed"] = "1"
					s.R["owed"] = xs[tokAt]
				}
				e.Handled = true
				e.Fork(flow.Alt{Result: ts.Mk("tuple", "", rs, xs...)}, flow.Alt{Result: ts.Mk("tuple", "", rs, ys...)})
			case "mapgot":
				if g.guardedMap(e.Typ) {
					delete(s.R, "tok")
					if e.Block {
						v := in.Fresh(s, e, "rule.tok", sh.tokT)
						e.Result = v
						if param(e.Args[1]) {
							s.R["tok"] = v
						}
					}
				}
			case "mapset":
				if g.guardedMap(e.Typ) {
					if s.D["owed"] == "" || e.Args[2] != s.R["owed"] || !param(e.Args[1]) {
						bad("token", "%s is kept as the token of %s, which is not that of a handle just stored for the path", clipTerm(e.Args[2]), clipTerm(e.Args[1]))
						return
					}
					delete(s.D, "owed")
					delete(s.R, "owed")
				}
			case "exit":
				if e.Callee == f && s.D["owed"] != "" {
					bad("token", "a handle was stored, but its token is not kept for its path")
				}
			}
		}
		c.Explore(in, f, args, nil)
	}
	c.Count("operations of the file cache", roots)
	if roots < 3 {
		c.Fail("lock", filesPkg, "only %d operations of the file cache were found", roots)
	}
}
