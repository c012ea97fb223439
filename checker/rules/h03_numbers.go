package rules

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID:        "H03",
		Technique: "interval analysis (abstract interpretation of SSA) with boundary contracts",
		Explain:   "The handler is abstractly interpreted with intervals: every integer it hands to the drawing, merging and searching packages lies in a fixed range (0..2^20 for sizes and counts, non-negative for times, at least one for durations and for widths that become divisors), every floating point setting between two constants. Every integer division and every allocation in those packages and in the handler has a divisor proven non-zero and a bounded, non-negative size, assuming only those contracts; the contract of the measuring function (a successful measurement has a width of at least one and a height of at least two) is itself verified.",
		Assume:    []string{"struct fields of the options types are not changed between the checked boundary and their use"},
		Min:       12,
		Run:       runH03,
	})
}

const maxNumber = 1 << 20

// drawing, merging and searching code reached by requests
func numberPkg(f *ssa.Function) bool {
	p := flow.PkgOf(f)
	return strings.HasPrefix(p, flow.RepoPath+"/draw") || strings.HasPrefix(p, flow.RepoPath+"/merge") || strings.HasPrefix(p, flow.RepoPath+"/api")
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isDuration(t types.Type) bool { return t.String() == "time.Duration" }

func isOptions(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st && strings.HasSuffix(n.Obj().Name(), "Options")
}

// measures reports a function of the graph package that measures: it returns
// a struct with a width and a height, and whether that worked.
func measures(f *ssa.Function) bool {
	if f == nil || !inPkg(f, "draw/graph") || f.Signature.Results().Len() != 2 || !isBool(f.Signature.Results().At(1).Type()) {
		return false
	}
	t := f.Signature.Results().At(0).Type()
	return field(t, "Width") != nil && field(t, "Height") != nil && f.Object() != nil && f.Object().Exported()
}

func sizeMin(name string) int64 {
	if name == "Height" {
		return 2
	}
	return 1
}

func runH03(c *Ctx) {
	ts := c.P.TS
	options := map[string]bool{}
	checkedParams := map[*types.Var]bool{}

	quoOK := func(in *flow.Interp, s *flow.State, d *flow.Term) bool {
		b := s.Bounds(d)
		if b.Lo > 0 || b.Hi < 0 || s.Must(ts.Not(ts.Eq(d, ts.Int(0), types.Typ[types.Int]))) {
			return true
		}
		for _, n := range b.Ne {
			if n == 0 {
				return true
			}
		}
		return false
	}

	// --- the handler
	boundary := 0
	var checkArg func(in *flow.Interp, s *flow.State, e *flow.Event, what string, t *flow.Term, typ types.Type, name string)
	checkArg = func(in *flow.Interp, s *flow.State, e *flow.Event, what string, t *flow.Term, typ types.Type, name string) {
		key := "range:" + what
		oblige := func(desc string, ok bool) {
			boundary++
			if _, have := c.Obl[key]; !have {
				c.Oblige(key, c.P.PosOf(e.Instr), desc, true)
			}
			if !ok {
				in.ReportAt(s, key, e.Instr, "%s: not guaranteed (it may be in %v)", desc, s.Bounds(t))
			}
		}
		switch {
		case isDuration(typ):
			b := s.Bounds(t)
			oblige(what+" is at least one", b.Lo >= 1)
		case isIntType(typ) && typ.Underlying().(*types.Basic).Kind() == types.Int64:
			oblige(what+" is not negative", s.Bounds(t).Lo >= 0)
		case isIntType(typ):
			b := s.Bounds(t)
			lo := int64(0)
			if strings.EqualFold(name, "width") || strings.EqualFold(name, "samples") || strings.EqualFold(name, "height") {
				lo = 1
			}
			oblige(fmt.Sprintf("%s is between %d and %d", what, lo, maxNumber), b.Lo >= lo && b.Hi <= maxNumber)
		case isFloatType(typ):
			oblige(what+" lies between two constants and is a number", floatBounded(s, t))
		case isOptions(typ) || boundStruct(typ):
			st := typ.Underlying().(*types.Struct)
			if isOptions(typ) {
				options[typ.String()] = true
			}
			for i := 0; i < st.NumFields(); i++ {
				checkArg(in, s, e, what+"."+st.Field(i).Name(), ts.Field(t, i, st), st.Field(i).Type(), st.Field(i).Name())
			}
		}
	}
	exploreHTTP(c, "H03", func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			if e.Callee == nil || !e.Opaque || !numberPkg(e.Callee) {
				if e.Callee != nil && e.Opaque && e.Callee.Signature.Results().Len() == 0 {
					return
				}
				return
			}
			n := 0
			sig := e.Callee.Signature
			if sig.Recv() != nil {
				n = 1
			}
			for i := 0; i < sig.Params().Len() && n+i < len(e.Args); i++ {
				p := sig.Params().At(i)
				checkArg(in, s, e, e.Callee.Name()+"("+p.Name()+")", e.Args[n+i], p.Type(), p.Name())
				checkedParams[p] = true
			}
			if measures(e.Callee) {
				rs := sig.Results()
				m := in.Fresh(s, e, "measured", rs.At(0).Type())
				bad := in.Fresh(s, e, "unmeasured", rs.At(0).Type())
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, m, ts.Bool(true)), Note: "measured", Do: func(s *flow.State) {
						st := m.T.Underlying().(*types.Struct)
						for i := 0; i < st.NumFields(); i++ {
							if f := st.Field(i); isIntType(f.Type()) && (f.Name() == "Width" || f.Name() == "Height") {
								s.Assume(le(ts, ts.Int(sizeMin(f.Name())), ts.Field(m, i, st)), true)
								s.Assume(le(ts, ts.Field(m, i, st), ts.Int(maxNumber)), true)
							}
						}
					}},
					flow.Alt{Result: ts.Mk("tuple", "", rs, bad, ts.Bool(false)), Note: "not measured"},
				)
			}
		case "quo", "make":
			c.numberEvent(in, s, e, quoOK, nil)
		}
	})
	// the callbacks of the handler run on their own as well
	for _, f := range c.P.RepoFuncs() {
		if inPkg(f, "api") && f.Parent() != nil {
			in := flow.NewInterp(c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
				if e.Kind != "call" || e.Callee == nil || !e.Opaque || !numberPkg(e.Callee) {
					return
				}
				if measures(e.Callee) {
					rs := e.Callee.Signature.Results()
					m := in.Fresh(s, e, "measured", rs.At(0).Type())
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", rs, m, ts.Bool(true)), Note: "measured", Do: func(s *flow.State) {
							st := m.T.Underlying().(*types.Struct)
							for i := 0; i < st.NumFields(); i++ {
								if f := st.Field(i); isIntType(f.Type()) && (f.Name() == "Width" || f.Name() == "Height") {
									s.Assume(le(ts, ts.Int(sizeMin(f.Name())), ts.Field(m, i, st)), true)
									s.Assume(le(ts, ts.Field(m, i, st), ts.Int(maxNumber)), true)
								}
							}
						}},
						flow.Alt{Result: ts.Mk("tuple", "", rs, in.Fresh(s, e, "unmeasured", rs.At(0).Type()), ts.Bool(false)), Note: "not measured"},
					)
					return
				}
				sig := e.Callee.Signature
				n := 0
				if sig.Recv() != nil {
					n = 1
				}
				for i := 0; i < sig.Params().Len() && n+i < len(e.Args); i++ {
					p := sig.Params().At(i)
					if isIntType(p.Type()) {
						checkArg(in, s, e, e.Callee.Name()+"("+p.Name()+")", e.Args[n+i], p.Type(), p.Name())
					}
				}
			})
			in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool { return inPkg(fn, "api") }
			c.Explore(in, f, nil, nil)
		}
	}
	c.Count("boundary arguments on paths", boundary)

	// --- the code behind the boundary
	assume := func(s *flow.State, t *flow.Term, typ types.Type) {
		if !options[typ.String()] {
			return
		}
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !isIntType(f.Type()) {
				continue
			}
			x := ts.Field(t, i, st)
			lo := int64(0)
			if isDuration(f.Type()) || f.Name() == "Width" || f.Name() == "Height" || f.Name() == "Samples" {
				lo = 1
			}
			s.Assume(le(ts, ts.Int(lo), x), true)
			if b := f.Type().Underlying().(*types.Basic); b.Kind() == types.Int {
				s.Assume(le(ts, x, ts.Int(maxNumber)), true)
			}
		}
	}
	setup := func(fn *ssa.Function) func(s *flow.State) {
		return func(s *flow.State) {
			for _, p := range fn.Params {
				t := ts.Sym("arg:"+p.Name()+":"+fn.Name(), p.Type())
				assume(s, t, p.Type())
				if v, ok := p.Object().(*types.Var); ok && checkedParams[v] && isIntType(p.Type()) {
					s.Assume(le(ts, ts.Int(0), t), true)
					if p.Type().Underlying().(*types.Basic).Kind() == types.Int {
						s.Assume(le(ts, t, ts.Int(maxNumber)), true)
					}
				}
				if isIntType(p.Type()) && strings.EqualFold(p.Name(), "width") && fn.Object() != nil && fn.Object().Exported() {
					s.Assume(le(ts, ts.Int(1), t), true)
				}
				// options kept in a struct
				for _, v := range fields(p.Type()) {
					if !options[v.Type().String()] {
						continue
					}
					if _, ok := p.Type().Underlying().(*types.Pointer); ok {
						st := v.Type().Underlying().(*types.Struct)
						fa := ts.FieldAddr(t, v)
						args := make([]*flow.Term, st.NumFields())
						for i := range args {
							args[i] = ts.Mk("load", "", st.Field(i).Type(), ts.FieldAddr(fa, st.Field(i)))
						}
						assume(s, ts.Struct(v.Type(), args), v.Type())
					} else if st, ok := p.Type().Underlying().(*types.Struct); ok {
						assume(s, ts.Field(t, fieldIndex(p.Type(), v), st), v.Type())
					}
				}
			}
		}
	}
	guards := fieldGuards(c)
	sites := map[ssa.Instruction]bool{}
	done := map[ssa.Instruction]bool{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		if numberPkg(f) && numberSite(i) && !inPkg(f, "api") {
			sites[i] = true
		}
	})
	rel := c.P.Relevant(func(i ssa.Instruction) bool { return sites[i] })
	var fs []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		if numberPkg(f) && !inPkg(f, "api") && f.Parent() == nil && len(f.Blocks) > 0 && (rel[f] || measures(f)) {
			fs = append(fs, f)
		}
	}
	sortFns(fs)
	callers := hasCallers(c.P, nil)
	for pass := 0; pass < 2; pass++ {
		for _, f := range fs {
			exported := f.Object() != nil && f.Object().Exported()
			if (pass == 0) != (exported || !callers[f]) {
				continue
			}
			if pass == 1 {
				need := false
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						need = need || sites[i] && !done[i]
					}
				}
				if !need {
					continue
				}
			}
			f := f
			in := flow.NewInterp(c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
				switch e.Kind {
				case "ret":
					// keep failed and successful measurements apart
					if !e.Opaque && len(e.Args) == 2 && isBool(e.Callee.Signature.Results().At(1).Type()) {
						v, ok := s.Decide(e.Args[1])
						s.D["measured"] = fmt.Sprint(v, ok)
					}
				case "load":
					if v, ok := optionField(e.Addr, options); ok && isIntType(v.Type()) {
						t := s.Load(e.Addr, e.Typ, e.Instr.(ssa.Value).Name())
						lo := int64(0)
						if isDuration(v.Type()) || v.Name() == "Width" || v.Name() == "Height" || v.Name() == "Samples" {
							lo = 1
						}
						s.Assume(le(ts, ts.Int(lo), t), true)
						if v.Type().Underlying().(*types.Basic).Kind() == types.Int {
							s.Assume(le(ts, t, ts.Int(maxNumber)), true)
						}
						e.Result = t
					}
				case "quo", "make":
					if sites[e.Instr] {
						done[e.Instr] = true
						c.numberEvent(in, s, e, quoOK, guards)
					}
				case "exit":
					if !measures(f) || e.Callee != f || len(e.Args) != 2 {
						return
					}
					if v, ok := s.Decide(e.Args[1]); ok && !v {
						return
					}
					for i, v := range fields(e.Args[0].T) {
						if v.Name() != "Width" && v.Name() != "Height" || !isIntType(v.Type()) {
							continue
						}
						x := ts.Field(e.Args[0], i, f.Signature.Results().At(0).Type().Underlying().(*types.Struct))
						key := "measured:" + f.Name() + "." + v.Name()
						c.Oblige(key, c.P.Pos(f.Pos()), fmt.Sprintf("a successful measurement has a %s of at least %d", v.Name(), sizeMin(v.Name())), true)
						if s.Bounds(x).Lo < sizeMin(v.Name()) {
							in.ReportAt(s, key, e.Instr, "%s can report success with a %s in %v", f.Name(), v.Name(), s.Bounds(x))
						}
					}
				}
			})
			in.UseRelevance(rel)
			in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
				return flow.PkgOf(fn) == flow.PkgOf(f)
			}
			c.Explore(in, f, nil, setup(f))
		}
	}
	for i := range sites {
		if !done[i] {
			c.Fail("unreached:"+c.P.PosOf(i), c.P.PosOf(i), "no analysed path reaches this division or allocation")
		}
	}
}

func le(ts *flow.Terms, a, b *flow.Term) *flow.Term { return ts.Le(a, b) }

// numberSite is an integer division or an allocation whose operand is not a
// constant.
func numberSite(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.BinOp:
		if i.Op.String() != "/" && i.Op.String() != "%" || !isIntType(i.Type()) {
			return false
		}
		_, k := i.Y.(*ssa.Const)
		return !k
	case *ssa.MakeSlice:
		_, a := i.Len.(*ssa.Const)
		_, b := i.Cap.(*ssa.Const)
		return !a || !b
	}
	return false
}

// boundStruct is a parameters struct nested in options.
func boundStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	_, st := n.Underlying().(*types.Struct)
	return st && strings.HasSuffix(n.Obj().Name(), "Params")
}

func floatBounded(s *flow.State, t *flow.Term) bool {
	if t.Op == "const" {
		return true
	}
	lo, hi := false, false
	s.EachTrue(func(q *flow.Term) {
		if q.Op != "fle" && q.Op != "flt" {
			return
		}
		if q.Args[1] == t && q.Args[0].Op == "const" {
			lo = true
		}
		if q.Args[0] == t && q.Args[1].Op == "const" {
			hi = true
		}
	})
	return lo && hi
}

// fieldGuards maps an integer struct field to the fields of the same struct
// that are only ever stored together with it, by a function that leaves it
// positive.
func fieldGuards(c *Ctx) map[*types.Var][]*types.Var {
	storedIn := map[*types.Var]map[*ssa.Function]bool{}
	owner := map[*types.Var]types.Type{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		st, ok := i.(*ssa.Store)
		if !ok || !numberPkg(f) {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
		v := pt.Underlying().(*types.Struct).Field(fa.Field)
		if !isIntType(v.Type()) {
			return
		}
		if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			return
		}
		if storedIn[v] == nil {
			storedIn[v] = map[*ssa.Function]bool{}
		}
		storedIn[v][f] = true
		owner[v] = pt
	})
	out := map[*types.Var][]*types.Var{}
	for v, fs := range storedIn {
		for g, gs := range storedIn {
			if g == v || !types.Identical(owner[v], owner[g]) {
				continue
			}
			sub := true
			for f := range gs {
				sub = sub && fs[f]
			}
			params := true
			for f := range fs {
				has := false
				for _, p := range f.Params {
					for _, x := range fields(p.Type()) {
						has = has || x == v
					}
				}
				params = params && has
			}
			if sub && params && c.leavesPositive(v, fs) {
				out[v] = append(out[v], g)
			}
		}
	}
	return out
}

// leavesPositive reports that each function leaves the field positive.
func (c *Ctx) leavesPositive(v *types.Var, fs map[*ssa.Function]bool) bool {
	ok := true
	for f := range fs {
		in := flow.NewInterp(c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "exit" && e.Callee == f {
				good := false
				for _, p := range f.Params {
					for _, x := range fields(p.Type()) {
						if x == v {
							t := s.Load(c.P.TS.FieldAddr(c.P.TS.Sym("arg:"+p.Name()+":"+f.Name(), p.Type()), v), v.Type(), "g")
							good = s.Bounds(t).Lo >= 1
						}
					}
				}
				ok = ok && good
			}
		})
		in.Run(f, nil, nil)
		if len(in.Unknown) > 0 {
			ok = false
		}
	}
	return ok
}

func (c *Ctx) numberEvent(in *flow.Interp, s *flow.State, e *flow.Event, quoOK func(*flow.Interp, *flow.State, *flow.Term) bool, guards map[*types.Var][]*types.Var) {
	if !numberSite(e.Instr) {
		return
	}
	ts := in.TS
	where := c.P.PosOf(e.Instr)
	if e.Kind == "quo" {
		key := "divisor:" + fname(e.Fn) + ":" + e.Instr.(*ssa.BinOp).Y.Type().String()
		c.Oblige(key, where, "integer divisors in "+fname(e.Fn)+" are never zero", true)
		d := e.Args[1]
		if quoOK(in, s, d) {
			return
		}
		if d.Op == "load" && d.Args[0].Op == "faddr" {
			if v, ok := d.Args[0].Obj.(*types.Var); ok {
				for _, g := range guards[v] {
					x := s.Load(ts.FieldAddr(d.Args[0].Args[0], g), g.Type(), "g")
					if quoOK(in, s, x) {
						return
					}
				}
			}
		}
		in.ReportAt(s, key, e.Instr, "the divisor may be zero (it is in %v)", s.Bounds(d))
		return
	}
	key := "size:" + fname(e.Fn)
	c.Oblige(key, where, "allocation sizes in "+fname(e.Fn)+" are bounded and not negative", true)
	for _, n := range e.Args {
		b := s.Bounds(n)
		if b.Lo < 0 || b.Hi > 1<<40 && !lenBased(n) && b.Hi == math.MaxInt64 {
			in.ReportAt(s, key, e.Instr, "the size may be negative or unbounded (it is in %v)", b)
		}
	}
}

// lenBased is a size made of the length of existing data.
func lenBased(n *flow.Term) bool {
	return termHas(n, func(x *flow.Term) bool { return x.Op == "len" || x.Op == "cap" })
}

// optionField recognises the address of a field of an options struct that is
// kept in another struct.
func optionField(a *flow.Term, options map[string]bool) (*types.Var, bool) {
	if a == nil || a.Op != "faddr" || a.Args[0].Op != "faddr" || a.Args[0].T == nil {
		return nil, false
	}
	v, ok := a.Obj.(*types.Var)
	return v, ok && options[a.Args[0].T.String()]
}
