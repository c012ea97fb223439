package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P06", Technique: "interval analysis of the configured numbers by abstract interpretation of SSA: through the inlined constructors into fields, and from the fields into allocations, divisions, timers and loops",
		Explain: "Along every path of a constructor every allocation sized by a setting has a size in 0..2^32. The ranges the settings have when the constructor succeeds, and the loaded interval, are carried into the code that reads those fields, which nothing else changes: allocations stay in 0..2^32, divisors are not zero, timers get at least a nanosecond, distributions get a positive bounded compression, and at least one worker is started.",
		Assume:  []string{"a component is used only after its constructor returned, so that its settings have the ranges they had then"},
		Min:     8,
		Run:     runP06,
	})
}

type numRange struct {
	lo, hi int64
	where  string
}

// sinkOK says what a number has to be where it is used.
func numSink(in *flow.Interp, s *flow.State, e *flow.Event, of func(t *flow.Term) bool) (what string, ok bool) {
	ts := in.TS
	switch e.Kind {
	case "make":
		for _, a := range e.Args {
			if !of(a) {
				continue
			}
			b := s.Bounds(a)
			what = "a size"
			if b.Lo < 0 || b.Hi > 1<<32 {
				return fmt.Sprintf("the size of an allocation may be anything in %v", b), false
			}
		}
		return what, true
	case "quo":
		d := e.Args[1]
		if !of(d) {
			return "", true
		}
		b := s.Bounds(d)
		if b.Lo > 0 || b.Hi < 0 || s.Must(ts.Not(ts.Eq(d, ts.Int(0), types.Typ[types.Int]))) {
			return "a divisor", true
		}
		return "a divisor may be zero", false
	case "call":
		name := ""
		if e.Callee != nil {
			name = e.Callee.String()
		}
		switch name {
		case "time.NewTicker", "time.Tick", "(*time.Ticker).Reset":
			d := e.Args[len(e.Args)-1]
			if !of(d) {
				return "", true
			}
			if s.Bounds(d).Lo < 1 {
				return "a ticker panics without a positive interval", false
			}
			return "an interval", true
		}
		if e.Callee != nil && !in.Prog.InRepo(e.Callee) && strings.HasSuffix(flow.PkgOf(e.Callee), "/tdigest") && e.Callee.Signature.Recv() == nil {
			for _, a := range e.Args {
				if a.T == nil || !isFloatType(a.T) || !of(a) {
					continue
				}
				if !positiveFloat(in, s, a) {
					return "a distribution is made with a compression that may be negative, zero or too large", false
				}
				what = "a compression"
			}
			return what, true
		}
	}
	return "", true
}

const maxFloat = 1 << 24

// positiveFloat: greater than zero or a positive constant, and bounded.
func positiveFloat(in *flow.Interp, s *flow.State, t *flow.Term) bool {
	lo, hi := false, false
	s.EachTrue(func(q *flow.Term) {
		if q.Op != "fle" && q.Op != "flt" {
			return
		}
		if q.Args[1] == t && q.Args[0].Op == "const" {
			v, ok := constFloat(q.Args[0])
			lo = lo || ok && (v > 0 || v == 0 && (q.Op == "flt" || s.Must(in.TS.Not(in.TS.Eq(t, in.TS.Float(0), types.Typ[types.Float64])))))
		}
		if q.Args[0] == t && q.Args[1].Op == "const" {
			v, ok := constFloat(q.Args[1])
			hi = hi || ok && v <= maxFloat
		}
	})
	return lo && hi
}

func runP06(c *Ctx) {
	ts := c.P.TS
	ranges := map[*types.Var]*numRange{}
	floats := map[*types.Var]string{} // "bounded" or "zero or bounded"
	join := func(v *types.Var, b flow.Ival, where string) {
		r := ranges[v]
		if r == nil {
			ranges[v] = &numRange{b.Lo, b.Hi, where}
			return
		}
		if b.Lo < r.lo {
			r.lo = b.Lo
		}
		if b.Hi > r.hi {
			r.hi = b.Hi
		}
	}
	lens := map[*types.Var]int64{} // lists made with the component: how long they are at least
	constructed := map[*ssa.Function]bool{}
	sinks := 0
	// the constructors
	for _, m := range makersOf(c) {
		m := m
		if m.conf == nil {
			continue
		}
		key := "construct:" + m.name
		c.Oblige(key, c.P.Pos(m.fn.Pos()), "constructing "+m.name+" survives every number and keeps only usable ones", true)
		fromCfg := func(t *flow.Term) bool {
			return termHas(t, func(x *flow.Term) bool { _, ok := cfgPath(x); return ok })
		}
		m.exploreWith(c, key, func(h *ssa.Function) bool { return flow.PkgOf(h) == flow.PkgOf(m.fn) }, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			constructed[e.Fn] = true
			if e.Kind == "call" && e.Callee != nil && (e.Callee.String() == "runtime.GOMAXPROCS" || e.Callee.String() == "runtime.NumCPU") {
				e.Result, e.Handled = in.Fresh(s, e, "rule.cpus", types.Typ[types.Int]), true
				s.Assume(ts.Le(ts.Int(1), e.Result), true)
				s.Assume(ts.Le(e.Result, ts.Int(1<<16)), true)
				return
			}
			of := fromCfg
			if e.Kind == "make" {
				of = func(t *flow.Term) bool { return t.Op != "const" }
			}
			if what, ok := numSink(in, s, e, of); !ok {
				in.ReportAt(s, key, e.Instr, "%s%s", cfgIn(e.Args), what)
				s.Kill()
				return
			} else if what != "" {
				sinks++
			}
			if e.Kind != "exit" {
				return
			}
			if n, known := s.IsNil(e.Args[len(e.Args)-1]); known && !n {
				return
			}
			seen := map[*flow.Term]bool{}
			var walk func(addr, val *flow.Term, t types.Type)
			walk = func(addr, val *flow.Term, t types.Type) {
				switch u := t.Underlying().(type) {
				case *types.Struct:
					for i := 0; i < u.NumFields(); i++ {
						v := u.Field(i)
						var fa, fv *flow.Term
						if addr != nil {
							fa = ts.FieldAddr(addr, v)
						} else {
							fv = ts.Field(val, i, u)
						}
						if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsFloat) != 0 {
							if fa != nil {
								fv = s.Load(fa, v.Type(), "rule.num")
							}
							if b.Info()&types.IsInteger != 0 {
								join(v, s.Bounds(fv), c.P.Pos(m.fn.Pos()))
							} else {
								st := "any"
								if positiveFloat(in, s, fv) {
									st = "bounded"
								} else if isZero(fv) {
									st = "zero"
								}
								if old := floats[v]; old != "" && old != st {
									if st == "any" || old == "any" {
										st = "any"
									} else {
										st = "zero or bounded"
									}
								}
								floats[v] = st
								if st == "any" && allocates(c, v) {
									in.ReportAt(s, key, e.Instr, "the %s that is configured may be negative or too large to make anything with", v.Name())
									s.Kill()
									return
								}
							}
							continue
						}
						if _, ok := v.Type().Underlying().(*types.Struct); ok {
							walk(fa, fv, v.Type())
							continue
						}
						if _, ok := v.Type().Underlying().(*types.Slice); ok && fa != nil {
							n := s.Bounds(in.Len(s.Load(fa, v.Type(), "rule.list"))).Lo
							if old, have := lens[v]; !have || n < old {
								lens[v] = n
							}
							continue
						}
						if p, ok := v.Type().Underlying().(*types.Pointer); ok && fa != nil {
							if x := s.Load(fa, v.Type(), "rule.ptr"); x.Op == "alloc" && !seen[x] {
								seen[x] = true
								walk(x, nil, p.Elem())
							}
						}
					}
				}
			}
			x := e.Args[0]
			if x.Op == "iface" && x.T != nil {
				v := x.Args[0]
				if p, ok := x.T.Underlying().(*types.Pointer); ok {
					if v.Op == "alloc" {
						walk(v, nil, p.Elem())
					}
				} else {
					walk(nil, v, x.T)
				}
			}
			c.Count("constructed", 1)
		})
	}
	// the loaded configuration
	if f, cfg := loader(c); f != nil {
		exploreLoad(c, f, func(string, types.Type) {}, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind != "exit" {
				return
			}
			if n, known := s.IsNil(e.Args[1]); known && !n {
				return
			}
			var walk func(addr *flow.Term, t types.Type)
			walk = func(addr *flow.Term, t types.Type) {
				for _, v := range fields(t) {
					a := ts.FieldAddr(addr, v)
					if isIntType(v.Type()) {
						join(v, s.Bounds(s.Load(a, v.Type(), "rule.num")), c.P.Pos(f.Pos()))
					} else if _, ok := v.Type().Underlying().(*types.Struct); ok {
						walk(a, v.Type())
					}
				}
			}
			walk(e.Args[0], cfg)
		})
		constructed[f] = true
	} else {
		c.Fail("anchor:load", "config/load.go", "the function that loads the configuration was not found")
	}
	isNum := func(t *flow.Term) *types.Var {
		if t.Op != "field" && !(t.Op == "load" && t.Args[0].Op == "faddr") {
			return nil
		}
		o := t.Obj
		if t.Op == "load" {
			o = t.Args[0].Obj
		}
		v, _ := o.(*types.Var)
		if v == nil || ranges[v] == nil && floats[v] == "" {
			return nil
		}
		return v
	}
	symOf := func(v *types.Var) *flow.Term { return ts.Sym("number:"+v.Name()+":"+itoa(int(v.Pos())), v.Type()) }
	varOf := map[*flow.Term]*types.Var{}
	var assumeFloat func(s *flow.State, t *flow.Term, v *types.Var)
	assume := func(s *flow.State, t *flow.Term, v *types.Var) {
		assumeFloat(s, t, v)
		if r := ranges[v]; r != nil {
			if r.lo > math.MinInt64 {
				s.Assume(ts.Le(ts.Int(r.lo), t), true)
			}
			if r.hi < math.MaxInt64 {
				s.Assume(ts.Le(t, ts.Int(r.hi)), true)
			}
		}
	}
	assumeFloat = func(s *flow.State, t *flow.Term, v *types.Var) {
		op := map[string]string{"bounded": "flt", "zero or bounded": "fle", "zero": "fle"}[floats[v]]
		if op == "" {
			return
		}
		s.Assume(ts.Mk(op, "", types.Typ[types.Bool], ts.Float(0), t), true)
		s.Assume(ts.Mk("fle", "", types.Typ[types.Bool], t, ts.Float(maxFloat)), true)
	}
	hookNum := func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if e.Kind == "load" && e.Addr.Op == "faddr" {
			if v, ok := e.Addr.Obj.(*types.Var); ok && (ranges[v] != nil || floats[v] != "") {
				e.Result = symOf(v)
				varOf[e.Result] = v
				in.Keep(e.Result)
				assume(s, e.Result, v)
			}
		}
		for _, a := range append(append([]*flow.Term{}, e.Args...), e.Val) {
			if a != nil {
				a.Walk(func(t *flow.Term) bool {
					if v := isNum(t); v != nil {
						assume(s, t, v)
					}
					return true
				})
			}
		}
	}
	numTerm := func(t *flow.Term) bool {
		return termHas(t, func(x *flow.Term) bool {
			return varOf[x] != nil || isNum(x) != nil
		})
	}
	// what the program hands to the components it makes itself
	given := map[*types.Var]bool{}
	touches := c.P.Relevant(func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.FieldAddr:
			v := fieldOf(i)
			return ranges[v] != nil || floats[v] != ""
		case *ssa.Field:
			v := fields(i.X.Type())[i.Field]
			return ranges[v] != nil || floats[v] != ""
		}
		return false
	})
	main := func(f *ssa.Function) bool { return inPkg(f, "") }
	stored := map[*types.Var]*numRange{}
	c.drive(touches, main, func(f *ssa.Function) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return main(h) && touches[h] }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			hookNum(in, s, e)
			if e.Kind == "store" && e.Addr.Op == "faddr" && e.Val != nil && numTerm(e.Val) {
				if v, ok := e.Addr.Obj.(*types.Var); ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), flow.RepoPath) && isIntType(v.Type()) && ranges[v] == nil {
					given[v] = true
					b := s.Bounds(e.Val)
					if r := stored[v]; r == nil {
						stored[v] = &numRange{b.Lo, b.Hi, c.P.PosOf(e.Instr)}
					} else {
						r.lo, r.hi = min(r.lo, b.Lo), max(r.hi, b.Hi)
					}
				}
			}
		}
		return in
	})
	for v, r := range stored {
		ranges[v] = r
	}
	// nobody else changes them
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		st, ok := i.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		v := fieldOf(fa)
		if !constructed[f] {
			delete(lens, v)
		}
		if ranges[v] == nil && floats[v] == "" || constructed[f] || main(f) && given[v] || !numericSetting(v) {
			return
		}
		if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
			if isIntType(v.Type()) {
				join(v, flow.Ival{Lo: k.Int64(), Hi: k.Int64()}, c.P.PosOf(i))
				return
			} else if f := k.Float64(); f > 0 && f <= maxFloat {
				return
			}
		}
		if given[v] {
			c.Fail("given:"+v.Name(), c.P.PosOf(i), "the %s that is configured is changed", v.Name())
			return
		}
		delete(ranges, v) // a number that is not only a setting
		delete(floats, v)
	})
	for _, v := range sortedVars(ranges) {
		c.Count("fields with a range", 1)
		_ = v
	}
	// the code that uses them
	uses := c.P.Relevant(func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.FieldAddr:
			v := fieldOf(i)
			return ranges[v] != nil || floats[v] != ""
		case *ssa.Field:
			v := fields(i.X.Type())[i.Field]
			return ranges[v] != nil || floats[v] != ""
		}
		return false
	})
	direct := map[*ssa.Function]bool{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		switch i := i.(type) {
		case *ssa.FieldAddr:
			v := fieldOf(i)
			if ranges[v] != nil || floats[v] != "" {
				direct[f] = true
			}
		case *ssa.Field:
			v := fields(i.X.Type())[i.Field]
			if ranges[v] != nil || floats[v] != "" {
				direct[f] = true
			}
		}
	})
	_ = uses
	c.Oblige("workers", "database/files/db.go", "at least one worker is started", true)
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		f := f
		if !direct[f] || constructed[f] && f.Parent() == nil || main(f) || inPkg(f, "config") || len(f.Blocks) == 0 {
			continue
		}
		key := "use:" + fname(f)
		n := 0
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
			if !c.P.InRepo(h) || len(h.Blocks) == 0 {
				return false
			}
			for _, a := range args {
				if numTerm(a) && (isIntType(a.T) || isFloatType(a.T)) {
					return true
				}
			}
			return false
		}
		loops := queuesInLoops(f)
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			hookNum(in, s, e)
			if e.Kind == "load" && e.Addr.Op == "faddr" && e.Result == nil {
				if v, ok := e.Addr.Obj.(*types.Var); ok && lens[v] > 0 {
					s.Assume(ts.Le(ts.Int(lens[v]), in.Len(s.Load(e.Addr, v.Type(), "rule.list"))), true)
				}
			}
			if e.Kind == "call" && loops[e.Instr] {
				s.D["launched"] = "1"
			}
			if e.Kind == "call" && len(loops) > 0 && e.Callee != nil && e.Fn == f && (c.via(e.Callee.String(), junkPkg+".Launcher).Run") || c.via(e.Callee.String(), "sync.WaitGroup).Wait")) {
				c.Count("worker loops", 1)
				if s.D["launched"] == "" {
					in.ReportAt(s, "workers", e.Instr, "no worker may be started")
					s.Kill()
					return
				}
			}
			what, ok := numSink(in, s, e, numTerm)
			if what != "" {
				n++
				c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" survives every configured number", true)
			}
			if !ok {
				in.ReportAt(s, key, e.Instr, "a configured number is used unchecked: %s", what)
				s.Kill()
			}
		}
		c.Explore(in, f, nil, nil)
		sinks += n
	}
	c.Count("uses", sinks)
	if c.Counts["constructed"] < 2 || c.Counts["worker loops"] == 0 || sinks < 6 || len(given) == 0 {
		c.Fail("anchor:numbers", "database/files/db.go", "the use of the configured numbers was not recognised (%d constructed, %d worker loops, %d uses, %d given)", c.Counts["constructed"], c.Counts["worker loops"], sinks, len(given))
	}
}

// allocates: the field is what an external package sizes its memory by.
func allocates(c *Ctx, v *types.Var) bool {
	hit := false
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := call.Common().StaticCallee()
		if g == nil || c.P.InRepo(g) || !strings.HasSuffix(flow.PkgOf(g), "/tdigest") || g.Signature.Recv() != nil {
			return
		}
		for _, a := range call.Common().Args {
			switch a := a.(type) {
			case *ssa.UnOp:
				if fa, ok := a.X.(*ssa.FieldAddr); ok && fieldOf(fa) == v {
					hit = true
				}
			case *ssa.Field:
				hit = hit || fields(a.X.Type())[a.Field] == v
			}
		}
	})
	return hit
}

func numericSetting(v *types.Var) bool { return isIntType(v.Type()) || isFloatType(v.Type()) }

func sortedVars(m map[*types.Var]*numRange) []*types.Var {
	var out []*types.Var
	for v := range m {
		out = append(out, v)
	}
	return out
}

func isZero(t *flow.Term) bool {
	if t.Op == "zero" {
		return true
	}
	v, ok := constFloat(t)
	return ok && v == 0
}

func cfgIn(ts []*flow.Term) string {
	out := ""
	for _, t := range ts {
		t.Walk(func(x *flow.Term) bool {
			if p, ok := cfgPath(x); ok && p != "" && len(p) > len(out) {
				out = p
			}
			return true
		})
	}
	if out != "" {
		out = "with the setting " + out + " "
	}
	return out
}

// queuesInLoops are the calls inside of a loop that queue a task.
func queuesInLoops(f *ssa.Function) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if !seen[x] {
				seen[x] = true
				work = append(work, x.Succs...)
			}
		}
		if !seen[b] {
			continue
		}
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Call:
				if strings.HasSuffix(calleeName(i.Common()), "Launcher).Queue") {
					out[i] = true
				}
			}
		}
	}
	return out
}

func constFloat(t *flow.Term) (float64, bool) {
	if t.Op != "const" || t.C == nil || t.C.Kind() != constant.Float && t.C.Kind() != constant.Int {
		return 0, false
	}
	v, _ := constant.Float64Val(t.C)
	return v, true
}
