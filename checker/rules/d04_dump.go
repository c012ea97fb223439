package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "D04", Technique: "typestate analysis of each captured value (buffer, queue, completion, wait group) over inlined SSA with the callbacks followed",
		Explain: "Every value a dump captures is encoded whole into a buffer of its own and offered once under its metric and times with a completion that counts it down exactly once whether it is queued or refused; it is counted before it is offered, and the dump returns only after waiting for the count. Capturing is stopped early only when the dump was cancelled. The buffer is given back once, by the completion or after a refusal: a value that is completed only later keeps it.",
		Min:     5,
		Run:     runD04,
	})
}

func runD04(c *Ctx) {
	ts := c.P.TS
	capture := c.Fn(dataPkg, "(*Writer).Capture")
	if capture == nil {
		return
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && (call.Common().StaticCallee() == capture || strings.HasSuffix(calleeName(call.Common()), ".Queue") && call.Common().IsInvoke() ||
			strings.HasPrefix(calleeName(call.Common()), "(*sync.WaitGroup)."))
	})
	n := 0
	callers := hasCallers(c.P, nil)
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, "dump") || !rel[f] || f.Parent() != nil || len(f.Blocks) == 0 || !reaches(f, capture) {
			continue
		}
		if callers[f] && (f.Object() == nil || !f.Object().Exported()) {
			continue
		}
		// a function that dumps again and again is made of dumps
		again := false
		for _, g := range c.P.RepoFuncs() {
			if g != f && inPkg(g, "dump") && g.Object() != nil && g.Object().Exported() && calls(f, g) && reaches(g, capture) {
				again = true
			}
		}
		if again {
			continue
		}
		n++
		name := fname(f)
		at := c.P.Pos(f.Pos())
		c.Oblige("offered", at, "every captured value is offered once, under its metric and times, unless it cannot be encoded or the dump was cancelled", true)
		c.Oblige("bytes", at, "the bytes offered are the whole encoding of the value", true)
		c.Oblige("completed", at, "a value is counted before it is offered and counted down exactly once", true)
		c.Oblige("waited", at, "the dump returns only after all values were completed", true)
		c.Oblige("buffer", at, "the buffer of a value is given back at most once and not used afterwards", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return inPkg(g, "dump")
		}
		recT, _ := c.P.ByPkg[flow.RepoPath+"/"+dataPkg].Types.Scope().Lookup("Record").(*types.TypeName)
		st := recT.Type().Underlying().(*types.Struct)
		recOf := func(s *flow.State, t *flow.Term, name string) *flow.Term {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return ts.Field(t, i, st)
				}
			}
			return nil
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(key, format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			sig := func() *types.Signature { return e.Instr.(ssa.CallInstruction).Common().Signature() }
			isRec := func(t *flow.Term) bool { // the captured record, or where it is kept
				r := s.R["rec"]
				return r != nil && t != nil && (s.Same(t, r) || (t.Op == "alloc" || t.Op == "load") && s.Refers(t, r))
			}
			switch e.Kind {
			case "recv":
				if e.Addr != nil && !e.Closed {
					// the channel of a context: it ends
					e.Fork(flow.Alt{Note: "the dump is cancelled", Do: func(s *flow.State) { s.D["cancelled"] = "1" }})
				} else {
					s.D["cancelled"] = "1"
				}
			case "call", "go":
				switch {
				case e.Callee == capture:
					e.Handled = true
					if s.D["captured"] != "" {
						bad("offered", "a dump captures twice")
						return
					}
					cb := e.Args[len(e.Args)-1]
					if cb.Fn == nil {
						bad("offered", "what is done with the captured values is not known")
						return
					}
					var args []*flow.Term
					var metric, rec *flow.Term
					for i, q := range cb.Fn.Params {
						a := in.Fresh(s, e, "cb"+itoa(i), q.Type())
						args = append(args, a)
						if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
							metric = a
						}
						if types.Identical(q.Type(), recT.Type()) {
							rec = a
						}
					}
					if metric == nil || rec == nil {
						bad("offered", "captured values are handed over without their metric or record")
						return
					}
					e.Fork(
						flow.Alt{Note: "a value is captured", Enter: cb, Args: args, Do: func(s *flow.State) {
							s.R["metric"], s.R["rec"], s.R["cb"] = metric, rec, cb
							s.D["captured"], s.D["in"] = "1", "1"
						}},
						flow.Alt{Note: "nothing is captured", Do: func(s *flow.State) { s.D["captured"] = "none" }})
				case e.Name == "(context.Context).Err" && len(e.Args) > 0:
					err := in.Fresh(s, e, "ctxerr", sig().Results().At(0).Type())
					e.Fork(flow.Alt{Result: ts.Nil()}, flow.Alt{Result: err, Note: "the dump is cancelled", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["cancelled"] = "1"
					}})
				case strings.HasSuffix(e.Name, "data.Record).Size") || strings.HasSuffix(e.Name, "data.Record).ProtoSize"):
					if !isRec(e.Args[0]) {
						return
					}
					v := in.Fresh(s, e, "size", types.Typ[types.Int])
					s.Assume(ts.Le(ts.Int(0), v), true)
					s.R["size"] = v
					e.Handled, e.Result = true, v
				case strings.HasSuffix(e.Name, "data.Record).MarshalTo"):
					if !isRec(e.Args[0]) {
						bad("bytes", "another record is encoded than the captured one")
						return
					}
					if s.R["size"] == nil || !s.EqInt(in.Len(e.Args[1]), s.R["size"]) {
						bad("bytes", "the buffer a value is encoded into does not have the size of the value")
						return
					}
					if b := e.Args[1]; !(s.R["own:got"] != nil && s.Refers(b, s.R["own:got"]) || s.R["own:made"] != nil && s.Refers(b, s.R["own:made"])) {
						bad("buffer", "a value is encoded into a buffer that other values use too")
						return
					}
					d03outcome(in, s, e, sig(), e.Args[1])
				case strings.HasSuffix(e.Name, "data.Record).Marshal"):
					if !isRec(e.Args[0]) {
						bad("bytes", "another record is encoded than the captured one")
						return
					}
					v := in.Fresh(s, e, "encoded", sig().Results().At(0).Type())
					d03outcome(in, s, e, sig(), v)
				case e.Name == "(*sync.Pool).Get":
					v := in.Fresh(s, e, "buf", sig().Results().At(0).Type())
					if s.D["in"] != "" {
						s.R["own:got"] = v
					}
					e.Handled, e.Result = true, v
				case e.Name == "(*sync.Pool).Put":
					if s.D["put"] != "" {
						bad("buffer", "the buffer of a value may be given back twice: two values then share it")
						return
					}
					if s.D["pending"] != "" {
						bad("buffer", "the buffer of a value is given back before the value was completed: the next value may overwrite it")
						return
					}
					if s.D["queued"] == "" && s.D["encoded"] == "ok" {
						bad("buffer", "the buffer of a value is given back before the value is offered")
						return
					}
					s.D["put"] = "1"
				case e.Name == wgAdd:
					if s.D["added"] != "" || s.D["queued"] != "" || s.D["in"] == "" || !s.EqInt(e.Args[1], ts.Int(1)) {
						bad("completed", "a value is not counted once before it is offered")
						return
					}
					s.D["added"] = "1"
				case e.Name == wgDone:
					if s.D["added"] == "" || s.D["down"] != "" {
						bad("completed", "a value may be counted down twice, or without having been counted")
						return
					}
					if s.D["refused"] == "" && s.D["completing"] == "" {
						bad("completed", "a value is counted down although it is neither completed nor refused")
						return
					}
					s.D["down"] = "1"
				case e.Name == wgWait:
					if s.D["in"] != "" {
						bad("waited", "a value waits for the others")
						return
					}
					if s.D["captured"] != "" {
						s.D["waited"] = "1"
					}
				case e.Method != nil && e.Method.Name() == "Error" && e.Callee == nil && e.Kind == "call":
					if isnil, known := s.IsNil(e.Args[0]); !known || isnil {
						bad("completed", "the text of an error is asked for although there may be no error")
					}
				case e.Method != nil && e.Method.Name() == "Queue" && e.Callee == nil:
					d04queue(in, s, e, sig(), recOf)
				case s.R["done"] != nil && e.Callee != nil && e.Callee == s.R["done"].Fn && s.D["refused"] != "" && e.Kind == "call":
					s.D["told"] = "1"
				}
			case "store", "copy":
				b := e.Addr
				if e.Kind == "copy" {
					b = e.Args[0]
				}
				if s.D["pending"] != "" && s.D["in"] != "" && b != nil && s.R["data"] != nil && (b.Op == "iaddr" || e.Kind == "copy") && s.Refers(b, s.R["data"]) {
					bad("buffer", "the bytes of a value are changed after they were offered")
				}
			case "make":
				if s.D["in"] != "" && e.Result != nil {
					s.R["own:made"] = e.Result
				}
			case "slice":
				if s.R["size"] != nil && len(e.Args) > 2 && e.Args[2] != nil && s.Same(e.Args[2], s.R["size"]) && !s.Le(e.Args[2], in.Cap(e.Args[0])) {
					bad("bytes", "the buffer may be too small for the value")
				}
			case "ret":
				if s.R["cb"] == nil || e.Callee != s.R["cb"].Fn || s.D["in"] == "" {
					if s.R["done"] != nil && e.Callee == s.R["done"].Fn && s.D["completing"] != "" {
						delete(s.D, "completing")
						s.D["completed"] = "1"
					}
					return
				}
				delete(s.D, "in")
				c.Count("captured values", 1)
				more := len(e.Args) > 0 && func() bool { v, known := s.Decide(e.Args[0]); return known && v }()
				switch {
				case s.D["cancelled"] != "" && s.D["encoded"] == "" && s.D["queued"] == "":
					return // given up before it was looked at
				case !more && s.D["cancelled"] == "":
					bad("offered", "the values after one are not captured although the dump was not cancelled")
					return
				case s.D["encoded"] == "failed":
					if s.D["added"] != "" && s.D["down"] == "" {
						bad("completed", "a value that cannot be encoded is counted and never counted down")
					}
					return
				case s.D["queued"] == "":
					bad("offered", "a captured value is not offered to the database")
					return
				case s.D["pending"] != "":
					// counted down when it is completed
				case s.D["added"] == "" || s.D["down"] == "":
					bad("completed", "a value is offered and, when it is completed or refused, not counted down")
				}
			case "exit":
				if s.D["captured"] != "" && s.D["waited"] == "" {
					bad("waited", "the dump returns without waiting for the values it offered")
				}
				if s.D["captured"] == "" {
					bad("offered", "the dump captures nothing")
				}
			}
		}
		c.Explore(in, f, nil, nil)
		d04counters(c, f)
		_ = name
	}
	if n == 0 || c.Counts["captured values"] < 2 {
		c.Fail("anchor:dump", "dump/dump.go", "no dump of captured values was found")
	}
}

// d03outcome makes encoding a value succeed or fail.
func d03outcome(in *flow.Interp, s *flow.State, e *flow.Event, sig *types.Signature, data *flow.Term) {
	ts := in.TS
	if s.D["encoded"] != "" {
		in.ReportAt(s, "bytes", e.Instr, "a value is encoded twice")
		s.Kill()
		return
	}
	rs := sig.Results()
	err := in.Fresh(s, e, "encerr", rs.At(rs.Len()-1).Type())
	var first *flow.Term
	if types.Identical(rs.At(0).Type(), types.Typ[types.Int]) {
		first = in.Fresh(s, e, "n", rs.At(0).Type())
	} else {
		first = data
	}
	e.Fork(
		flow.Alt{Result: ts.Mk("tuple", "", rs, first, ts.Nil()), Note: "the value is encoded", Do: func(s *flow.State) {
			s.D["encoded"] = "ok"
			s.R["data"] = data
		}},
		flow.Alt{Result: ts.Mk("tuple", "", rs, first, err), Note: "the value cannot be encoded", Do: func(s *flow.State) {
			s.Assume(ts.IsNil(err), false)
			s.D["encoded"] = "failed"
		}})
}

func d04queue(in *flow.Interp, s *flow.State, e *flow.Event, sig *types.Signature, recOf func(*flow.State, *flow.Term, string) *flow.Term) {
	ts := in.TS
	bad := func(key, format string, a ...interface{}) {
		in.ReportAt(s, key, e.Instr, format, a...)
		s.Kill()
	}
	if s.D["in"] == "" || s.D["queued"] != "" {
		bad("offered", "a value is offered twice, or after it was captured")
		return
	}
	if s.D["encoded"] != "ok" {
		bad("bytes", "a value is offered that was not encoded")
		return
	}
	if s.D["added"] == "" {
		bad("completed", "a value is offered before it is counted: the dump may finish without it")
		return
	}
	// receiver, ctx, metric, start, end, data, callback
	if len(e.Args) != 7 {
		bad("offered", "a value is offered in a way that is not understood")
		return
	}
	rec := s.R["rec"]
	if !s.Same(e.Args[2], s.R["metric"]) || !s.Same(e.Args[3], recOf(s, rec, "StartTime")) || !s.Same(e.Args[4], recOf(s, rec, "EndTime")) {
		bad("offered", "a value is offered under another metric or other times")
		return
	}
	if !s.Same(e.Args[5], s.R["data"]) {
		bad("bytes", "other bytes are offered than the encoded value")
		return
	}
	cb := e.Args[6]
	if cb.Fn == nil {
		bad("completed", "a value is offered without a completion")
		return
	}
	var args []*flow.Term
	for i, q := range cb.Fn.Params {
		args = append(args, in.Fresh(s, e, "done"+itoa(i), q.Type()))
	}
	err := in.Fresh(s, e, "qerr", sig.Results().At(0).Type())
	e.Fork(
		flow.Alt{Result: ts.Nil(), Note: "the value is accepted and completed", Enter: cb, Args: args, Do: func(s *flow.State) {
			s.D["queued"], s.D["completing"] = "1", "1"
			s.R["done"] = cb
		}},
		flow.Alt{Result: ts.Nil(), Note: "the value is accepted and completed later", Do: func(s *flow.State) {
			s.D["queued"], s.D["pending"] = "1", "1"
		}},
		flow.Alt{Result: err, Note: "the database refuses the value", Do: func(s *flow.State) {
			s.Assume(ts.IsNil(err), false)
			s.D["queued"], s.D["refused"] = "1", "1"
			s.R["done"] = cb
		}})
}

// reaches reports that the function, or a module function it calls or a
// closure it makes, calls the target.
func reaches(f, target *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == target {
			return true
		}
		if seen[f] || !strings.HasPrefix(flow.PkgOf(f), flow.RepoPath) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

func calls(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
				return true
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if calls(a, g) {
			return true
		}
	}
	return false
}

// d04counters: completions run at the same time, so what they share is changed
// atomically or under a lock.
func d04counters(c *Ctx, f *ssa.Function) {
	c.Oblige("shared", c.P.Pos(f.Pos()), "completions change what they share only atomically or under a lock", true)
	var walk func(g *ssa.Function)
	seen := map[*ssa.Function]bool{}
	walk = func(g *ssa.Function) {
		if seen[g] || len(g.Blocks) == 0 || !inPkg(g, "dump") {
			return
		}
		seen[g] = true
		for _, a := range g.AnonFuncs {
			walk(a)
		}
		locks, done := false, false
		eachOf(g, func(i ssa.Instruction) {
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			if h := call.Common().StaticCallee(); h != nil {
				walk(h)
			}
			switch calleeName(call.Common()) {
			case muLock:
				locks = true
			case wgDone:
				done = true
			}
		})
		if !done || g.Parent() == nil || locks {
			return
		}
		eachOf(g, func(i ssa.Instruction) {
			st, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			a := st.Addr
			for {
				if fa, ok := a.(*ssa.FieldAddr); ok {
					a = fa.X
					continue
				}
				break
			}
			fv, ok := a.(*ssa.FreeVar)
			if !ok {
				return
			}
			c.Fail("shared", c.P.PosOf(i), "%s, which completes values at the same time as others, changes %s without a lock", fname(g), fv.Name())
		})
	}
	walk(f)
}

func eachOf(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			visit(i)
		}
	}
}
