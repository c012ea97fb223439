package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "D03", Technique: "value-flow of capture times and typestate of the page exchange over inlined SSA",
		Explain: "A capture takes one time; the page it installs starts at that time, the values of the page it took out end at that time, and it visits a page only after exchanging exactly that page for the new one. A metric joins a page with the start time of that page, and the only other page ever installed replaces none.",
		Min:     5,
		Run:     runD03,
	})
}

func runD03(c *Ctx) {
	ts := c.P.TS
	m := newAggModel(c)
	if m == nil {
		return
	}
	// the page: the type with the map of aggregates and the time
	pkg := c.P.ByPkg[flow.RepoPath+"/"+dataPkg]
	var pageT types.Type
	var pageM, pageNow, pageF *types.Var
	for _, n := range pkg.Types.Scope().Names() {
		tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		var sm, now *types.Var
		for _, f := range fields(tn.Type()) {
			switch f.Type().String() {
			case "sync.Map":
				sm = f
			case "time.Time":
				now = f
			}
		}
		if sm != nil && now != nil {
			pageT, pageM, pageNow = tn.Type(), sm, now
		}
	}
	writer := pkg.Types.Scope().Lookup("Writer")
	if pageT == nil || writer == nil {
		c.Fail("anchor:page", "data/writer.go", "no type holds the aggregates of an interval and its start")
		return
	}
	for _, f := range fields(writer.Type()) {
		if strings.Contains(f.Type().String(), "unsafe.Pointer") || strings.Contains(f.Type().String(), "atomic.Pointer") {
			pageF = f
		}
	}
	if pageF == nil {
		c.Fail("anchor:writer", "data/writer.go", "the writer does not hold its page")
		return
	}
	c.Oblige("exchange", "data/writer.go", "a page is visited only after it was exchanged for the next one", true)
	c.Oblige("start", "data/writer.go", "the next page starts at the time the values of this one end", true)
	c.Oblige("end", "data/writer.go", "all values of a captured page end at the time of the capture", true)
	c.Oblige("join", "data/writer.go", "a metric joins a page with the start of that page", true)
	c.Oblige("times", "data/agg.go", "the times of a record are those it was given", true)

	// the times of a record
	d03record(c, m)

	isPage := func(a *flow.Term) bool { // the address of the writer's page
		return a != nil && a.Op == "faddr" && a.Obj == pageF
	}
	strip := func(t *flow.Term) *flow.Term {
		for t != nil && (t.Op == "conv" || t.Op == "iface") && len(t.Args) > 0 {
			t = t.Args[0]
		}
		return t
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		if fa, ok := i.(*ssa.FieldAddr); ok && (fieldOf(fa) == pageF || fieldOf(fa) == pageM) {
			return true
		}
		call, ok := i.(ssa.CallInstruction)
		return ok && (call.Common().StaticCallee() == m.finish || call.Common().StaticCallee() == m.mk)
	})
	captures := 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, dataPkg) || !rel[f] || f.Parent() != nil || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() || f == m.finish || f == m.observe {
			continue
		}
		if f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), writer.Type()) {
			continue
		}
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
			return inPkg(h, dataPkg) && h != m.finish && h != m.mk && h != m.observe
		}
		// aggOf is the page whose map holds the aggregate
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(key, format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			if pureTime(in, e) {
				return
			}
			page := func(a *flow.Term) *flow.Term { // the page whose map is addressed
				if a != nil && a.Op == "faddr" && a.Obj == pageM {
					return a.Args[0]
				}
				return nil
			}
			startOf := func(p *flow.Term) *flow.Term {
				return s.Load(ts.FieldAddr(p, pageNow), pageNow.Type(), "rule.start")
			}
			install := func(addr, old, new *flow.Term) bool {
				old, new = strip(old), strip(new)
				none := old != nil && old.Op == "nil"
				if !none && (s.R["page"] == nil || !s.Same(old, s.R["page"])) {
					bad("exchange", "another page is exchanged than the one that was loaded")
					return false
				}
				s.R["new"] = new
				return true
			}
			done := func(none bool) func(s *flow.State) {
				return func(s *flow.State) {
					if none {
						s.R["page"] = s.R["new"]
						return
					}
					s.D["taken"] = "1"
				}
			}
			switch e.Kind {
			case "call":
				switch {
				case e.Name == "time.Now":
					v := in.Fresh(s, e, "now", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
					e.Handled, e.Result = true, v
				case e.Name == "sync/atomic.LoadPointer" && isPage(e.Args[0]) || strings.HasPrefix(e.Name, "(*sync/atomic.Pointer") && strings.HasSuffix(e.Name, ".Load") && isPage(e.Args[0]):
					t := e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()
					v := in.Fresh(s, e, "page", t)
					s.R["page"] = v
					e.Handled, e.Result = true, v
				case e.Name == "sync/atomic.CompareAndSwapPointer" && isPage(e.Args[0]) || strings.HasSuffix(e.Name, ".CompareAndSwap") && isPage(e.Args[0]):
					if !install(e.Args[0], e.Args[1], e.Args[2]) {
						return
					}
					old := strip(e.Args[1])
					none := old != nil && old.Op == "nil"
					if !none {
						s.D["tried"] = "1"
					}
					e.Fork(
						flow.Alt{Result: ts.Bool(true), Note: "the page is exchanged", Do: done(none)},
						flow.Alt{Result: ts.Bool(false), Note: "somebody else exchanged the page", Do: func(s *flow.State) { delete(s.R, "new") }})
				case (e.Name == "sync/atomic.SwapPointer" || strings.HasSuffix(e.Name, ".Swap")) && isPage(e.Args[0]):
					t := e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()
					v := in.Fresh(s, e, "page", t)
					s.R["page"], s.R["new"] = v, strip(e.Args[1])
					s.D["taken"] = "1"
					e.Handled, e.Result = true, v
				case e.Opaque && len(e.Args) > 0 && isPage(e.Args[0]):
					bad("exchange", "the page is replaced without being exchanged")
				case strings.HasPrefix(e.Name, "(*sync.Map)."):
					p := page(e.Args[0])
					if p == nil {
						return
					}
					switch strings.TrimPrefix(e.Name, "(*sync.Map).") {
					case "Load", "LoadOrStore", "Store", "LoadAndDelete":
						if len(e.Args) > 2 {
							a := strip(e.Args[2])
							if s.R["joins"] == nil || !s.Same(a, s.R["made"]) || !s.Same(s.R["joins"], startOf(p)) {
								bad("join", "a metric joins a page with another start than that of the page")
								return
							}
							c.Count("joins", 1)
						}
						if strings.HasSuffix(e.Name, "Delete") {
							bad("exchange", "a metric is taken out of a page")
						}
					case "Range":
						s.R["ranged"] = strip(p)
						cb := e.Args[1]
						for cb.Op == "conv" {
							cb = cb.Args[0]
						}
						if cb.Fn == nil {
							bad("exchange", "what is done with the values of a page is not known")
							return
						}
						var args []*flow.Term
						for i, q := range cb.Fn.Params {
							args = append(args, in.Fresh(s, e, "cb"+itoa(i), q.Type()))
						}
						e.Fork(flow.Alt{Note: "a metric of the page", Enter: cb, Args: args}, flow.Alt{Note: "no more metrics"})
					default:
						bad("exchange", "a page is changed by %s", short(e.Name))
					}
				case e.Callee == m.mk:
					var now *flow.Term
					for _, a := range e.Args {
						if a.T != nil && a.T.String() == "time.Time" {
							now = a
						}
					}
					if now == nil {
						now = e.Args[len(e.Args)-1]
					}
					v := in.Fresh(s, e, "agg", m.mk.Signature.Results().At(0).Type())
					s.Assume(ts.IsNil(v), false)
					s.R["made"], s.R["joins"] = v, now
					e.Handled, e.Result = true, v
				case e.Callee == m.finish:
					captures++
					var now *flow.Term
					for i, p := range m.finish.Params {
						if p.Type().String() == "time.Time" {
							now = e.Args[i]
						}
					}
					if s.D["tried"] != "" && s.D["taken"] == "" {
						bad("exchange", "a page is visited although somebody else may have exchanged it")
						return
					}
					if s.R["new"] != nil && s.D["taken"] != "" {
						if s.R["ranged"] == nil || !s.Same(s.R["ranged"], strip(s.R["page"])) {
							bad("exchange", "another page is visited than the one taken out")
							return
						}
						if now == nil || !s.Same(startOf(s.R["new"]), now) {
							bad("start", "the next page starts at another time than the values of this one end")
							return
						}
						c.Count("captured values", 1)
					}
					if s.R["end"] != nil && !s.Same(s.R["end"], now) {
						bad("end", "the values of a page end at different times")
						return
					}
					s.R["end"] = now
					if now == nil || now.Op != "sym" && now.Op != "call" && !strings.Contains(now.String(), "now") {
						bad("end", "the values of a page do not end at a time that was taken once")
						return
					}
					rs := m.finish.Signature.Results()
					e.Handled = true
					var xs []*flow.Term
					for i := 0; i < rs.Len(); i++ {
						xs = append(xs, in.Fresh(s, e, "fin"+itoa(i), rs.At(i).Type()))
					}
					if len(xs) == 1 {
						e.Result = xs[0]
					} else {
						e.Result = ts.Mk("tuple", "", rs, xs...)
					}
				}
			case "store":
				if e.Addr != nil && isPage(e.Addr) && e.Addr.Args[0].Op != "alloc" {
					bad("exchange", "the page is replaced without being exchanged")
				}
				if e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Obj == pageNow && e.Addr.Args[0].Op != "alloc" {
					bad("start", "the start of a page is changed")
				}
			case "exit":
				if s.D["taken"] != "" && s.R["ranged"] == nil {
					bad("exchange", "a page is taken out and its values are not visited")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if captures == 0 || c.Counts["captured values"] == 0 || c.Counts["joins"] == 0 {
		c.Fail("anchor:capture", "data/writer.go", "no capture that takes a page out, or no metric that joins one, was found")
	}
}

// d03record: the start of a record is the time its aggregate was made with,
// the end the time it was captured with.
func d03record(c *Ctx, m *aggModel) {
	ts := c.P.TS
	nowOf := func(f *ssa.Function) *flow.Term {
		for _, p := range f.Params {
			if p.Type().String() == "time.Time" {
				return ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
			}
		}
		return nil
	}
	in := flow.NewInterp(c.P, nil)
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if pureTime(in, e) || e.Kind != "exit" {
			return
		}
		if now := nowOf(m.mk); now == nil || !isNanosOf(m.load(s, e.Args[0], "StartTime"), now) {
			in.ReportAt(s, "times", e.Instr, "the start of a record is not the time its aggregate was made with")
		}
	}
	c.Explore(in, m.mk, nil, nil)
	in = flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, dataPkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if pureTime(in, e) || e.Kind != "exit" {
			return
		}
		for _, out := range e.Args {
			if out.T != nil && types.Identical(out.T, m.recN) || out.Op == "struct" {
				for i := 0; i < m.recT.NumFields(); i++ {
					if m.recT.Field(i) == m.f["EndTime"] {
						if now := nowOf(m.finish); now != nil && isNanosOf(ts.Field(out, i, m.recT), now) {
							return
						}
					}
				}
			}
		}
		in.ReportAt(s, "times", e.Instr, "the end of a captured record is not the time it was captured with")
	}
	c.Explore(in, m.finish, nil, nil)
	// nobody else changes the start
	for _, f := range c.P.AllRepoFuncs() {
		if f == m.mk || !inPkg(f, dataPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != m.f["StartTime"] {
					continue
				}
				if outer, ok := fa.X.(*ssa.FieldAddr); ok && fieldOf(outer) == m.rec {
					c.Fail("times", c.P.PosOf(i), "%s changes the start of a record that is being aggregated", fname(f))
				}
			}
		}
	}
}
