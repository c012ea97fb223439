package rules

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "D01", Technique: "lockset analysis of the aggregate and path-sensitive dataflow of one observation and one capture over inlined SSA",
		Explain: "The fields of a metric's aggregate are used only under its lock, in one critical section per operation, released on every path. An observation adds exactly one to the count, reaches the distribution exactly once, and replaces an extreme together with its identifier exactly when it is the first or exceeds it; a capture copies count, extremes, identifiers and distribution in the same critical section.",
		Min:     7,
		Run:     runD01,
	})
	register(&Rule{
		ID: "D02", Technique: "path-sensitive dataflow of the observed number to the aggregate over inlined SSA",
		Explain: "A number reaches a distribution, a count or an extreme only where it is known to be neither NaN nor infinite, and every number that is finite reaches them; when no distribution can be created nothing at all changes.",
		Min:     3,
		Run:     runD02,
	})
}

const dataPkg = "data"

// aggModel names the roles in the aggregate of a metric.
type aggModel struct {
	typ     types.Type
	mk      *ssa.Function
	observe *ssa.Function
	finish  *ssa.Function
	rec     *types.Var
	dist    *types.Var
	recT    *types.Struct
	recN    types.Type
	f       map[string]*types.Var // of the record
}

func newAggModel(c *Ctx) *aggModel {
	m := &aggModel{f: map[string]*types.Var{}}
	m.mk = c.Fn(dataPkg, "newAgg")
	m.observe = c.Fn(dataPkg, "(*agg).Observe")
	m.finish = c.Fn(dataPkg, "(*agg).Finish")
	if m.mk == nil || m.observe == nil || m.finish == nil {
		return nil
	}
	m.typ = deref(m.mk.Signature.Results().At(0).Type())
	for _, f := range fields(m.typ) {
		n, _ := f.Type().(*types.Named)
		switch {
		case n != nil && n.Obj().Name() == "Record":
			m.rec = f
			m.recN = n
			m.recT, _ = n.Underlying().(*types.Struct)
		case n != nil && n.Obj().Name() == "Dist":
			m.dist = f
		}
	}
	if m.rec == nil || m.dist == nil || m.recT == nil {
		c.Fail("anchor:agg", "data/agg.go", "the aggregate does not hold a record and a distribution")
		return nil
	}
	for i := 0; i < m.recT.NumFields(); i++ {
		m.f[m.recT.Field(i).Name()] = m.recT.Field(i)
	}
	for _, n := range []string{"Observations", "Min", "Max", "MinId", "MaxId", "StartTime", "EndTime", "Distribution", "Kind", "Merged"} {
		if m.f[n] == nil {
			c.Fail("anchor:record", "data/record.pb.go", "the record has no %s", n)
			return nil
		}
	}
	return m
}

// addr is the address of a record field of the aggregate.
func (m *aggModel) addr(ts *flow.Terms, self *flow.Term, name string) *flow.Term {
	return ts.FieldAddr(ts.FieldAddr(self, m.rec), m.f[name])
}

func (m *aggModel) load(s *flow.State, self *flow.Term, name string) *flow.Term {
	return s.Load(m.addr(s.Interp().TS, self, name), m.f[name].Type(), "rule."+name)
}

// recField is the record field an address selects, of any aggregate.
func (m *aggModel) recField(a *flow.Term) string {
	if a == nil || a.Op != "faddr" {
		return ""
	}
	for n, f := range m.f {
		if a.Obj == f && len(a.Args) > 0 && a.Args[0].Op == "faddr" && a.Args[0].Obj == m.rec {
			return n
		}
	}
	return ""
}

var distObserve, distNew, distMarshal, distKind = ").Observe", ").New", ").Marshal", ").Kind"

// isDist reports a call of a method of a distribution or its parameters,
// through the interface.
func isDist(e *flow.Event, iface, method string) bool {
	return e.Method != nil && e.Callee == nil && strings.HasSuffix(e.Name, "dist."+iface+method)
}

func runD01(c *Ctx) {
	ts := c.P.TS
	m := newAggModel(c)
	if m == nil {
		return
	}
	stored := map[*types.Var]bool{}
	for _, f := range c.P.AllRepoFuncs() {
		if f == m.mk {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					v := st.Addr
					for {
						fa, ok := v.(*ssa.FieldAddr)
						if !ok {
							break
						}
						if types.Identical(deref(fa.X.Type()), m.typ) {
							stored[fieldOf(fa)] = true
						}
						v = fa.X
					}
				}
			}
		}
	}
	g := newGuard("lock", "the aggregate", m.typ, func(f *types.Var) bool { return stored[f] || f == m.rec || f == m.dist })
	if len(g.mu) != 1 {
		c.Fail("anchor:lock", "data/agg.go", "the aggregate has no lock")
		return
	}
	c.Oblige("lock", "data/agg.go", "an aggregate is used only under its lock, which is always released", true)
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		if call, ok := i.(ssa.CallInstruction); ok {
			return inPkg(i.Parent(), dataPkg) && lockOp(calleeName(call.Common())) != 0
		}
		fa, ok := i.(*ssa.FieldAddr)
		return ok && g.touches(fieldOf(fa))
	})
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		f := f
		touches := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if fa, ok := i.(*ssa.FieldAddr); ok && g.touches(fieldOf(fa)) {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		// a helper that is only called with the lock held is seen from there
		if f != m.observe && f != m.finish && f != m.mk && f.Object() != nil && !f.Object().Exported() && hasCallers(c.P, nil)[f] || f.Parent() != nil {
			continue
		}
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			g.hook(in, s, e)
		}
		c.Explore(in, f, nil, nil)
	}

	// one observation
	at := c.P.Pos(m.observe.Pos())
	c.Oblige("once", at, "an observation is counted once and reaches the distribution once", true)
	c.Oblige("section", at, "an operation on the aggregate is one critical section", true)
	for _, x := range []string{"Min", "Max"} {
		c.Oblige("extreme:"+x, at, "an observation replaces "+x+" and its identifier exactly when it is the first or exceeds it", true)
	}
	self := ts.Sym("arg:"+m.observe.Params[0].Name()+":"+m.observe.Name(), m.observe.Params[0].Type())
	var val, id *flow.Term
	for _, p := range m.observe.Params[1:] {
		t := ts.Sym("arg:"+p.Name()+":"+m.observe.Name(), p.Type())
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			val = t
		} else if _, ok := p.Type().Underlying().(*types.Slice); ok {
			id = t
		}
	}
	if val == nil || id == nil {
		c.Fail("anchor:observe", at, "an observation does not have a number and an identifier")
		return
	}
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, dataPkg) }
	bool_ := types.Typ[types.Bool]
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		if g.hook(in, s, e) {
			if s.D["held:lock"] != "" {
				if s.D["locked"] != "" {
					bad("section", "the lock is given back and taken again in the middle of an operation")
					return
				}
				s.D["locked"] = "1"
				for n := range m.f {
					s.R["old:"+n] = m.load(s, self, n)
				}
				s.R["old:dist"] = s.Load(ts.FieldAddr(self, m.dist), m.dist.Type(), "rule.dist")
			}
			return
		}
		switch e.Kind {
		case "copy":
			if termHas(e.Args[1], func(x *flow.Term) bool { return x == id }) {
				s.R["idcopy"] = bare(e.Args[0])
			}
		case "call":
			switch {
			case isDist(e, "Params", distNew):
				forkNew(in, s, e)
			case isDist(e, "Dist", distObserve):
				e.Handled = true
				if s.D["observed"] != "" || !s.Same(e.Args[1], val) || !s.Same(e.Args[0], s.Load(ts.FieldAddr(self, m.dist), m.dist.Type(), "rule.dist2")) {
					bad("once", "the distribution observes something else than the number once")
					return
				}
				s.D["observed"] = "1"
			}
		case "store":
			n := m.recField(e.Addr)
			if n == "" {
				return
			}
			if s.R["old:"+n] == nil {
				return // reported as unlocked
			}
			switch n {
			case "Min", "Max":
				if s.Same(e.Val, s.R["old:"+n]) {
					return
				}
				less := func(strict bool) *flow.Term {
					op := "fle"
					if strict {
						op = "flt"
					}
					if n == "Min" {
						return ts.Mk(op, "", bool_, val, s.R["old:Min"])
					}
					return ts.Mk(op, "", bool_, s.R["old:Max"], val)
				}
				first := s.EqInt(s.R["old:Observations"], ts.Int(0)) || s.Le(s.R["old:Observations"], ts.Int(0))
				none, k0 := s.Decide(ts.Eq(s.R["old:Observations"], ts.Int(0), types.Typ[types.Int64]))
				if nodist, known := s.IsNil(s.R["old:dist"]); known && nodist && !(k0 && !none) {
					first = true
				}
				a, b := val, s.R["old:Min"]
				if n == "Max" {
					a, b = s.R["old:Max"], val
				}
				// numbers are finite (D02): not larger is less or equal
				v1, k1 := s.Decide(ts.Mk("fle", "", bool_, b, a))
				v2, k2 := s.Decide(ts.Mk("flt", "", bool_, b, a))
				exceeds := s.Must(less(true)) || s.Must(less(false)) || k1 && !v1 || k2 && !v2
				if !s.Same(e.Val, val) || !first && !exceeds {
					bad("extreme:"+n, "%s is replaced although the number may not exceed it", n)
					return
				}
				s.D[n] = "set"
				if first {
					s.D["first"] = "1"
				}
			case "MinId", "MaxId":
				if !termHas(e.Val, func(x *flow.Term) bool { return x == id }) && !(s.R["idcopy"] != nil && bare(e.Val) == s.R["idcopy"]) {
					bad("extreme:"+n[:3], "%s is replaced by something else than the identifier of the number", n)
					return
				}
				s.D[n] = "set"
			case "Observations":
				if d, ok := ts.ConstDiff(e.Val, s.R["old:"+n]); !ok || d != 1 || s.D[n] != "" {
					bad("once", "the count changes other than by one")
					return
				}
				s.D[n] = "set"
			default:
				bad("once", "an observation changes %s", n)
			}
		case "exit":
			c.Count("observation paths", 1)
			if s.D["made"] == "failed" {
				for _, n := range []string{"Min", "Max", "MinId", "MaxId", "Observations"} {
					if s.D[n] != "" {
						bad("once", "%s changes although there is no distribution to observe", n)
						return
					}
				}
				return
			}
			if s.D["observed"] == "" || s.D["Observations"] == "" {
				bad("once", "an observation is not both counted and added to the distribution")
				return
			}
			for _, n := range []string{"Min", "Max"} {
				if s.D[n] != s.D[n+"Id"] {
					bad("extreme:"+n, "%s and its identifier are not replaced together", n)
					return
				}
				if other := map[string]string{"Min": "Max", "Max": "Min"}[n]; s.D[n] == "" && s.D[other] != "" && s.D["first"] == "" {
					continue // what exceeds one extreme does not exceed the other
				}
				if s.D[n] == "" {
					first := !s.Lt(ts.Int(0), s.R["old:Observations"])
					if v, known := s.Decide(ts.Eq(s.R["old:Observations"], ts.Int(0), types.Typ[types.Int64])); known && !v {
						first = false
					}
					if nodist, known := s.IsNil(s.R["old:dist"]); known && !nodist && first {
						first = false // there is a distribution only after a first observation
					}
					a, b := val, s.R["old:Min"]
					if n == "Max" {
						a, b = s.R["old:Max"], val
					}
					lt, k1 := s.Decide(ts.Mk("flt", "", bool_, a, b))
					le, k2 := s.Decide(ts.Mk("fle", "", bool_, a, b))
					ge, k3 := s.Decide(ts.Mk("fle", "", bool_, b, a))
					gt, k4 := s.Decide(ts.Mk("flt", "", bool_, b, a))
					if first || !(k1 && !lt || k2 && !le || k3 && ge || k4 && gt) {
						bad("extreme:"+n, "%s is kept although the number may exceed it", n)
						return
					}
				}
			}
		}
	}
	c.Explore(in, m.observe, nil, nil)
	if c.Counts["observation paths"] < 2 {
		c.Fail("anchor:paths", at, "no complete observation was followed")
	}
	d01finish(c, m, g)
	d01new(c, m)
}

// forkNew makes creating a distribution succeed or fail.
func forkNew(in *flow.Interp, s *flow.State, e *flow.Event) {
	ts := in.TS
	rs := e.Method.Type().(*types.Signature).Results()
	d := in.Fresh(s, e, "dist", rs.At(0).Type())
	err := in.Fresh(s, e, "err", rs.At(1).Type())
	e.Fork(
		flow.Alt{Result: ts.Mk("tuple", "", rs, d, ts.Nil()), Note: "a distribution is created", Do: func(s *flow.State) {
			s.Assume(ts.IsNil(d), false)
			s.D["made"] = "ok"
		}},
		flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Nil(), err), Note: "no distribution can be created", Do: func(s *flow.State) {
			s.Assume(ts.IsNil(err), false)
			s.D["made"] = "failed"
		}})
}

// pureTime makes the conversions of a time functions of the time.
func pureTime(in *flow.Interp, e *flow.Event) bool {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, "(time.Time).") {
		return false
	}
	switch strings.TrimPrefix(e.Name, "(time.Time).") {
	case "In", "UTC", "Local", "UnixNano", "Unix", "Round":
		sig := e.Instr.(ssa.CallInstruction).Common().Signature()
		e.Handled = true
		e.Result = in.TS.Mk("pure", e.Name, sig.Results().At(0).Type(), e.Args...)
		return true
	}
	return false
}

// isNanosOf reports the time in nanoseconds.
func isNanosOf(t, now *flow.Term) bool {
	if t == nil || t.Op != "pure" || t.Name != "(time.Time).UnixNano" {
		return false
	}
	x := t.Args[0]
	for x.Op == "pure" && hasSuffixAny(x.Name, ".In", ".UTC", ".Local") {
		x = x.Args[0]
	}
	return x == now
}

func d01finish(c *Ctx, m *aggModel, g *guard) {
	ts := c.P.TS
	at := c.P.Pos(m.finish.Pos())
	c.Oblige("capture", at, "a captured record is what was aggregated, taken in one critical section", true)
	self := ts.Sym("arg:"+m.finish.Params[0].Name()+":"+m.finish.Name(), m.finish.Params[0].Type())
	ri := -1
	for i := 0; i < m.finish.Signature.Results().Len(); i++ {
		if types.Identical(deref(m.finish.Signature.Results().At(i).Type()), m.recN) {
			ri = i
		}
	}
	if ri < 0 {
		c.Fail("anchor:finish", at, "capturing an aggregate returns no record")
		return
	}
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, dataPkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, "capture", e.Instr, format, a...)
			s.Kill()
		}
		if g.hook(in, s, e) {
			if s.D["held:lock"] != "" {
				if s.D["locked"] != "" {
					in.ReportAt(s, "section", e.Instr, "the lock is given back and taken again in the middle of an operation")
					s.Kill()
					return
				}
				s.D["locked"] = "1"
				for n := range m.f {
					s.R["old:"+n] = m.load(s, self, n)
				}
			}
			return
		}
		if pureTime(in, e) {
			return
		}
		switch e.Kind {
		case "call":
			switch {
			case isDist(e, "Dist", distMarshal):
				v := in.Fresh(s, e, "bytes", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				e.Handled, e.Result = true, v
				if !s.Same(e.Args[0], s.Load(ts.FieldAddr(self, m.dist), m.dist.Type(), "rule.dist")) || s.D["held:lock"] == "" {
					bad("the distribution is encoded without the lock, or is another one")
					return
				}
				s.R["bytes"] = v
				s.D["bytes"] = "yes"
			case isDist(e, "Dist", distKind) || isDist(e, "Params", distKind):
				v := in.Fresh(s, e, "kind", types.Typ[types.String])
				e.Handled, e.Result = true, v
				s.R["kind"] = v
			}
		case "exit":
			c.Count("captures", 1)
			out := e.Args[ri]
			get := func(n string) *flow.Term {
				if _, ok := out.T.(*types.Pointer); ok && out.Op != "struct" {
					return s.Load(ts.FieldAddr(out, m.f[n]), m.f[n].Type(), "rule.out."+n)
				}
				for i := 0; i < m.recT.NumFields(); i++ {
					if m.recT.Field(i) == m.f[n] {
						return ts.Field(out, i, m.recT)
					}
				}
				return nil
			}
			for _, n := range []string{"Min", "Max", "MinId", "MaxId", "Observations", "StartTime", "Merged"} {
				if s.R["old:"+n] == nil || !s.Same(get(n), s.R["old:"+n]) {
					bad("%s of the captured record is not what was aggregated", n)
					return
				}
			}
			nodist, known := s.IsNil(s.Load(ts.FieldAddr(self, m.dist), m.dist.Type(), "rule.dist"))
			if known && nodist && s.D["bytes"] == "" {
				return // nothing was observed
			}
			if s.D["bytes"] == "" || !s.Same(get("Distribution"), s.R["bytes"]) || s.R["kind"] == nil || !s.Same(get("Kind"), s.R["kind"]) {
				bad("the captured record does not hold the distribution and its kind")
			}
		}
	}
	c.Explore(in, m.finish, nil, nil)
	if c.Counts["captures"] == 0 {
		c.Fail("anchor:captures", at, "no capture was followed")
	}
}

func d01new(c *Ctx, m *aggModel) {
	ts := c.P.TS
	at := c.P.Pos(m.mk.Pos())
	c.Oblige("empty", at, "a new aggregate counts nothing and stands for one record", true)
	in := flow.NewInterp(c.P, nil)
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if pureTime(in, e) || e.Kind != "exit" {
			return
		}
		a := e.Args[0]
		d := s.Load(ts.FieldAddr(a, m.dist), m.dist.Type(), "rule.dist")
		isnil, known := s.IsNil(d)
		if !s.EqInt(m.load(s, a, "Observations"), ts.Int(0)) || !s.EqInt(m.load(s, a, "Merged"), ts.Int(1)) || !known || !isnil {
			in.ReportAt(s, "empty", e.Instr, "a new aggregate is not empty")
		}
	}
	c.Explore(in, m.mk, nil, nil)
}

// finite reports that the number is known to be neither NaN nor infinite, or
// known not to be finite.
func finite(s *flow.State, v *flow.Term) (is, not bool) {
	ts := s.Interp().TS
	b := types.Typ[types.Bool]
	call := func(name string, args ...*flow.Term) (bool, bool) {
		return s.Decide(ts.Mk("pure", name, b, args...))
	}
	nan, nk := call("math.IsNaN", v)
	if !nk {
		if self, k := s.Decide(ts.Eq(v, v, types.Typ[types.Float64])); k {
			nan, nk = !self, true
		}
	}
	inf, ik := call("math.IsInf", v, ts.Int(0))
	if !ik {
		p, pk := call("math.IsInf", v, ts.Int(1))
		n, nk := call("math.IsInf", v, ts.Int(-1))
		switch {
		case pk && p || nk && n:
			inf, ik = true, true
		case pk && nk:
			inf, ik = false, true
		}
	}
	abs := ts.Mk("pure", "math.Abs", types.Typ[types.Float64], v)
	if v, k := s.Decide(ts.Mk("fle", "", b, abs, ts.Float(math.MaxFloat64))); k && !v {
		return false, true
	}
	s.EachTrue(func(t *flow.Term) {
		if (t.Op == "fle" || t.Op == "flt") && t.Args[0] == abs && t.Args[1].Op == "const" {
			nan, nk, inf, ik = false, true, false, true
		}
	})
	return nk && ik && !nan && !inf, nk && nan || ik && inf
}

func runD02(c *Ctx) {
	m := newAggModel(c)
	if m == nil {
		return
	}
	isObs := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && strings.HasSuffix(calleeName(call.Common()), "dist.Dist).Observe")
	}
	rel := c.P.Relevant(isObs)
	c.Oblige("finite", "data/writer.go", "only finite numbers reach the aggregate of a metric", true)
	c.Oblige("recorded", "data/writer.go", "every finite number reaches the aggregate of its metric", true)
	c.Oblige("unchanged", "data/agg.go", "nothing changes when no distribution can be created", true)
	n := 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, dataPkg) || !rel[f] || f.Parent() != nil || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() || f == m.observe {
			continue
		}
		var num *flow.Term
		var name *flow.Term
		for _, p := range f.Params {
			b, ok := p.Type().Underlying().(*types.Basic)
			if !ok {
				continue
			}
			if b.Info()&types.IsFloat != 0 {
				num = c.P.TS.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
			}
			if b.Kind() == types.String {
				name = c.P.TS.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
			}
		}
		if num == nil || name == nil {
			continue
		}
		n++
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, dataPkg) }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(key, format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "call":
				switch {
				case e.Callee == m.observe:
					// of two that add the first number of a metric at once,
					// only one puts its aggregate in a concurrent map
					if a := stripIface(e.Args[0]); a.Op == "alloc" && s.D["placed:"+a.Name] == "" {
						bad("recorded", "the number is added to an aggregate that may not be the one that is collected")
					}
				case isDist(e, "Params", distNew):
					forkNew(in, s, e)
				case isDist(e, "Dist", distObserve):
					if !s.Same(e.Args[1], num) {
						bad("recorded", "another number is recorded than the one observed")
						return
					}
					if is, _ := finite(s, num); !is {
						bad("finite", "a number reaches the distribution that may not be finite")
						return
					}
					s.D["observed"] = "1"
				case strings.HasPrefix(e.Name, "(*sync.Map)."):
					if len(e.Args) > 1 && !s.Same(stripIface(e.Args[1]), name) {
						bad("recorded", "the number is recorded under another metric")
					}
				}
			case "mapset":
				if a := stripIface(e.Val); a != nil && a.Op == "alloc" {
					s.D["placed:"+a.Name] = "1" // in a map that a lock guards
				}
			case "store":
				f := m.recField(e.Addr)
				if f == "" || e.Addr.Args[0].Args[0].Op == "alloc" {
					return
				}
				s.D["changed"] = f
				if s.D["made"] == "failed" {
					bad("unchanged", "%s changes although no distribution could be created", f)
					return
				}
				if is, _ := finite(s, num); !is {
					bad("finite", "%s changes for a number that may not be finite", f)
				}
			case "exit":
				c.Count("observation paths", 1)
				if s.D["made"] == "failed" {
					if s.D["changed"] != "" {
						bad("unchanged", "%s changes although no distribution could be created", s.D["changed"])
					}
					return
				}
				if _, not := finite(s, num); !not && s.D["observed"] == "" {
					bad("recorded", "a number that may be finite is not recorded")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if n == 0 || c.Counts["observation paths"] < 2 {
		c.Fail("anchor:add", "data/writer.go", "no function that observes numbers for metrics was found")
	}
}
