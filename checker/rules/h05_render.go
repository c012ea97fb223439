package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "H05", Technique: "typestate of a render request (parameters, query, each value, merged columns, answer) over inlined SSA with the query's callback followed from its first and from any later call",
		Explain: "A render queries the metric it was asked for up to the time it was asked for; the merger and the measuring get the same time and duration. Each value passed by the query is decoded from the bytes passed and pushed to the merger exactly once, unchanged; without an error the callback leaves a value out only when nothing can be drawn, and stops only then or when the value ended before the window. A failure to decode, load or push becomes an error of the query, and that of the query, or of finishing, one of the request. What is drawn or encoded are the columns of the merger, finished after the query.",
		Min:     4,
		Run:     runH05,
	})
}

// formValue models the lookup of a request parameter: the same name yields the
// same text.
func formValue(in *flow.Interp, e *flow.Event) bool {
	if e.Kind != "call" || len(e.Args) < 2 {
		return false
	}
	switch e.Name {
	case "(*net/http.Request).FormValue", "(net/url.Values).Get", "(*net/http.Request).URL.Query.Get":
	default:
		return false
	}
	name, ok := e.Args[1].StrVal()
	if !ok {
		return false
	}
	v := in.TS.Sym("form:"+name, types.Typ[types.String])
	in.Keep(v)
	e.Handled, e.Result = true, v
	return true
}

// formName is the request parameter a term is.
func formName(t *flow.Term) string {
	for t != nil && t.Op == "pure" && (t.Name == "strings.TrimSpace" || t.Name == "strings.ToLower") {
		t = t.Args[0]
	}
	if t != nil && t.Op == "sym" && strings.HasPrefix(t.Name, "form:") {
		return t.Name[len("form:"):]
	}
	return ""
}

func runH05(c *Ctx) {
	const mergePkg, apiPkg = "merge", "api"
	push := c.Fn(mergePkg, "(*Merger).Push")
	finish := c.Fn(mergePkg, "(*Merger).Finish")
	mk := c.Fn(mergePkg, "NewMerger")
	if push == nil || finish == nil || mk == nil {
		return
	}
	isQuery := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && call.Common().IsInvoke() && call.Common().Method.Name() == "Query" && len(call.Common().Args) == 5
	}
	isForm := func(i ssa.Instruction) bool {
		return isCallTo(i, "(*net/http.Request).FormValue", "(net/url.Values).Get")
	}
	isAnswer := func(i ssa.Instruction) bool {
		return isCallTo(i, "(*encoding/json.Encoder).Encode", "image/png.Encode", "encoding/json.Marshal", "(*image/png.Encoder).Encode")
	}
	has := func(pred func(ssa.Instruction) bool) map[*ssa.Function]bool {
		rel := c.P.Relevant(pred)
		out := map[*ssa.Function]bool{}
		for f := range rel {
			out[f] = true
		}
		return out
	}
	q, fm, an := has(isQuery), has(isForm), has(isAnswer)
	isRoot := func(f *ssa.Function) bool {
		return inPkg(f, apiPkg) && f.Parent() == nil && len(f.Blocks) > 0 && q[f] && fm[f] && an[f]
	}
	n := 0
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if !isRoot(f) {
			continue
		}
		inner := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g != f && isRoot(g) {
						inner = true
					}
				}
			}
		}
		if inner {
			continue
		}
		n++
		h05request(c, f, mk, push, finish)
	}
	if n == 0 {
		c.Fail("anchor:render", "api/server.go", "no request that renders what a query passes was found")
	}
}

func h05request(c *Ctx, f, mk, push, finish *ssa.Function) {
	ts := c.P.TS
	at := c.P.Pos(f.Pos())
	k := ":" + fname(f)
	c.Oblige("asked"+k, at, "the query, the merger and the measuring get the metric, time and duration of the request", true)
	c.Oblige("pushed"+k, at, "every value read is decoded and merged exactly once", true)
	c.Oblige("stop"+k, at, "reading is stopped only behind the window or when nothing can be drawn", true)
	c.Oblige("failed"+k, at, "a failure to read, decode or merge fails the request", true)
	c.Oblige("answer"+k, at, "the answer is what was merged", true)

	recT, _ := c.P.ByPkg[flow.RepoPath+"/"+dataPkg].Types.Scope().Lookup("Record").(*types.TypeName)
	if recT == nil {
		c.Fail("anchor:record", dataPkg, "there is no record type")
		return
	}
	errT := types.Universe.Lookup("error").Type()
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, "api") }
	isCol := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		nm, ok := sl.Elem().(*types.Named)
		return ok && nm.Obj().Name() == "Column"
	}
	isDur := func(t types.Type) bool {
		nm, ok := t.(*types.Named)
		return ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "time" && nm.Obj().Name() == "Duration"
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key+k, e.Instr, format, a...)
			s.Kill()
		}
		sig := func() *types.Signature { return e.Instr.(ssa.CallInstruction).Common().Signature() }
		// outcome forks a fallible call.
		outcome := func(what string, do func(*flow.State), vals ...*flow.Term) {
			rs := sig().Results()
			err := in.Fresh(s, e, "err", errT)
			tup := func(x *flow.Term) *flow.Term {
				if rs.Len() == 1 {
					return x
				}
				return ts.Mk("tuple", "", rs, append(append([]*flow.Term{}, vals...), x)...)
			}
			e.Fork(
				flow.Alt{Result: tup(ts.Nil()), Note: what + " succeeds", Do: do},
				flow.Alt{Result: tup(err), Note: what + " fails", Do: func(s *flow.State) {
					s.Assume(ts.IsNil(err), false)
					if s.D["in"] != "" {
						s.D["cbfailed"] = "1"
					} else {
						s.D["failed"] = "1"
					}
				}})
		}
		// now and duration of a set of options
		times := func(opts *flow.Term, typ types.Type, what string) bool {
			st, ok := typ.Underlying().(*types.Struct)
			if !ok {
				return true
			}
			for i := 0; i < st.NumFields(); i++ {
				v := ts.Field(opts, i, st)
				switch t := st.Field(i).Type(); {
				case isDur(t):
					if s.D["p:duration"] == "ok" && !s.EqInt(v, s.R["n:duration"]) {
						bad("asked", "%s another duration than the one asked for", what)
						return false
					}
					if s.R["dur"] == nil {
						s.R["dur"] = v
					} else if !s.EqInt(v, s.R["dur"]) {
						bad("asked", "%s another duration than what was asked before", what)
						return false
					}
				case isInt(t) && t.String() == "int64":
					if s.D["p:now"] == "ok" && !s.EqInt(v, s.R["n:now"]) {
						bad("asked", "%s another time than the one asked for", what)
						return false
					}
					if s.R["now"] == nil {
						s.R["now"] = v
					} else if !s.EqInt(v, s.R["now"]) {
						bad("asked", "%s another time than what was asked before", what)
						return false
					}
				}
			}
			return true
		}
		switch e.Kind {
		case "call":
			if formValue(in, e) {
				return
			}
			switch {
			case e.Name == "strconv.ParseInt" || e.Name == "strconv.Atoi" || e.Name == "time.ParseDuration" || e.Name == "strconv.ParseUint":
				name := formName(e.Args[0])
				if name != "now" && name != "duration" {
					return
				}
				rs := sig().Results()
				v := in.Fresh(s, e, "n:"+name, rs.At(0).Type())
				in.Keep(v)
				err := in.Fresh(s, e, "notnumber", errT)
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, v, ts.Nil()), Note: name + " is given", Do: func(s *flow.State) {
						s.R["n:"+name], s.D["p:"+name] = v, "ok"
					}},
					flow.Alt{Result: ts.Mk("tuple", "", rs, v, err), Note: name + " is not given", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["p:"+name] = "no"
					}})
			case e.Name == "(time.Duration).Nanoseconds":
				e.Handled, e.Result = true, e.Args[0]
			case e.Callee == mk:
				if !times(e.Args[0], mk.Params[0].Type(), "the merger gets") {
					return
				}
				e.Handled = true
				v := in.Fresh(s, e, "merger", mk.Signature.Results().At(0).Type())
				s.Assume(ts.IsNil(v), false)
				s.R["merger"], e.Result = v, v
			case e.Name == flow.RepoPath+"/draw/graph.Measure":
				if !times(e.Args[1], sig().Params().At(1).Type(), "the picture is measured for") {
					return
				}
				rs := sig().Results()
				m := in.Fresh(s, e, "measured", rs.At(0).Type())
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, m, ts.Bool(true)), Note: "the picture is measured"},
					flow.Alt{Result: ts.Mk("tuple", "", rs, m, ts.Bool(false)), Note: "the picture is too small", Do: func(s *flow.State) {
						if s.D["in"] != "" {
							s.D["small"] = "1"
						}
					}})
			case e.Method != nil && e.Method.Name() == "Query" && len(e.Args) == 6:
				cb := e.Args[5]
				switch {
				case s.D["queried"] != "":
					bad("asked", "a render queries twice")
					return
				case e.Args[2].Op != "sym" || formName(e.Args[2]) != "metric":
					bad("asked", "another metric is queried than the one asked for")
					return
				case s.D["p:now"] == "" || s.D["p:duration"] == "":
					bad("asked", "the time and duration asked for are not looked at before the query")
					return
				case s.D["p:now"] == "ok" && !s.EqInt(e.Args[3], s.R["n:now"]) || s.R["now"] != nil && !s.EqInt(e.Args[3], s.R["now"]):
					bad("asked", "the query does not end at the time asked for")
					return
				case cb.Fn == nil || len(cb.Fn.Params) < 4:
					bad("pushed", "what is done with the values read is not known")
					return
				}
				s.R["now"] = e.Args[3]
				if s.R["dur"] == nil && s.D["p:duration"] == "ok" {
					s.R["dur"] = s.R["n:duration"]
				}
				s.R["cb"] = cb
				var args []*flow.Term
				var end, buf *flow.Term
				for i, p := range cb.Fn.Params {
					a := in.Fresh(s, e, "cb"+itoa(i), p.Type())
					args = append(args, a)
					if isInt(p.Type()) {
						end = a // the last of the times
					}
					if isBytes(p.Type()) {
						buf = a
					}
				}
				if end == nil || buf == nil {
					bad("pushed", "values are read without their bytes or their end")
					return
				}
				err := in.Fresh(s, e, "queryerr", errT)
				enter := func(later bool) func(*flow.State) {
					return func(s *flow.State) {
						if later {
							for _, b := range cb.Args {
								if h05writes(cb.Fn, cb, b) {
									s.HavocBaseExact(b)
								}
							}
						}
						s.D["queried"], s.D["in"] = "1", "1"
						s.R["end"], s.R["buf"], s.R["qerr"] = end, buf, err
					}
				}
				e.Fork(
					flow.Alt{Result: err, Note: "the first value is read", Enter: cb, Args: args, Do: enter(false)},
					flow.Alt{Result: err, Note: "a later value is read", Enter: cb, Args: args, Do: enter(true)},
					flow.Alt{Result: ts.Nil(), Note: "there is no value", Do: func(s *flow.State) { s.D["queried"] = "1" }},
					flow.Alt{Result: err, Note: "the query fails", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["queried"], s.D["failed"] = "1", "1"
					}})
			case strings.HasSuffix(e.Name, "data.Record).Unmarshal") && s.D["in"] != "":
				if !s.Same(e.Args[1], s.R["buf"]) {
					bad("pushed", "something else is decoded than the value read")
					return
				}
				addr := e.Args[0]
				rec := in.Fresh(s, e, "rec", recT.Type())
				outcome("decoding the value", func(s *flow.State) {
					s.Store(addr, rec, recT.Type())
					s.R["rec"], s.D["decoded"] = rec, "1"
				})
			case e.Callee != nil && e.Callee.Name() == "Load" && inPkg(e.Callee, "data/load"):
				if s.D["in"] == "" {
					return
				}
				outcome("loading the distribution", func(*flow.State) {}, in.Fresh(s, e, "dist", sig().Results().At(0).Type()))
			case e.Callee == push:
				var rec *flow.Term
				for i, p := range push.Params {
					if types.Identical(deref(p.Type()), recT.Type()) {
						rec = e.Args[i]
						if _, ptr := p.Type().Underlying().(*types.Pointer); ptr {
							rec = s.Load(rec, recT.Type(), "rule.rec")
						}
					}
				}
				switch {
				case s.D["in"] == "":
					bad("pushed", "something is merged that was not read")
					return
				case s.D["pushed"] != "":
					bad("pushed", "a value is merged twice")
					return
				case s.D["decoded"] == "" || rec == nil || !s.Same(rec, s.R["rec"]):
					bad("pushed", "something else is merged than the value read")
					return
				case s.R["merger"] == nil || !s.Same(e.Args[0], s.R["merger"]):
					bad("pushed", "a value is given to another merger than the one of the request")
					return
				}
				outcome("merging the value", func(s *flow.State) { s.D["pushed"] = "1" })
			case e.Callee == finish:
				if s.D["in"] != "" || s.D["queried"] == "" || s.R["merger"] == nil || !s.Same(e.Args[0], s.R["merger"]) {
					bad("answer", "merging is finished before everything was read, or of another merger")
					return
				}
				cols := in.Fresh(s, e, "cols", sig().Results().At(0).Type())
				outcome("finishing", func(s *flow.State) { s.R["cols"] = cols }, cols)
			case e.Name == flow.RepoPath+"/draw/graph.(Measured).Draw" || strings.HasSuffix(e.Name, "graph.Measured).Draw"):
				opts := e.Args[len(e.Args)-1]
				st, ok := sig().Params().At(sig().Params().Len() - 1).Type().Underlying().(*types.Struct)
				if !ok {
					return
				}
				for i := 0; i < st.NumFields(); i++ {
					if !isCol(st.Field(i).Type()) {
						continue
					}
					if s.R["cols"] == nil || !s.Same(ts.Field(opts, i, st), s.R["cols"]) {
						bad("answer", "something else is drawn than what was merged")
						return
					}
					s.D["answered"] = "1"
				}
			}
		case "ret":
			if s.D["in"] == "" || e.Opaque || s.R["cb"] == nil || e.Callee != s.R["cb"].Fn {
				return
			}
			if len(e.Args) < 2 {
				return
			}
			c.Count("values followed", 1)
			isnil, known := s.IsNil(e.Args[1])
			switch {
			case s.D["cbfailed"] != "":
				if !known || isnil {
					bad("failed", "a value that cannot be decoded or merged is left out without an error")
					return
				}
			case !known || !isnil:
				bad("failed", "reading a value fails although nothing failed")
				return
			case s.D["pushed"] == "" && s.D["small"] == "":
				bad("pushed", "a value that was read is not merged")
				return
			}
			if known && isnil && s.D["small"] == "" {
				if t := s.Clone(); t.Assume(e.Args[0], false) {
					if s.R["dur"] == nil || !t.Lt(s.R["end"], ts.Sub(s.R["now"], s.R["dur"])) {
						bad("stop", "reading is stopped although the value does not end before the window")
						return
					}
				}
			}
			if known && !isnil {
				s.Assume(ts.IsNil(s.R["qerr"]), false)
				s.D["failed"] = "1"
			}
			delete(s.D, "in")
		case "mapset":
			if s.D["in"] != "" || len(e.Args) < 2 {
				return
			}
			v := e.Val
			if v == nil {
				return
			}
			t := v
			for t.Op == "iface" {
				if t.T != nil && isCol(t.T) {
					if s.R["cols"] == nil || !s.Same(t.Args[0], s.R["cols"]) {
						bad("answer", "something else is answered than what was merged")
						return
					}
					s.D["answered"] = "1"
				}
				t = t.Args[0]
			}
		case "exit":
			c.Count("render exits", 1)
			res := e.Args[len(e.Args)-1]
			isnil, known := s.IsNil(res)
			if s.D["failed"] != "" && (!known || isnil) {
				bad("failed", "the request succeeds although reading or merging failed")
				return
			}
			if known && !isnil {
				return
			}
			if s.D["queried"] == "" {
				bad("answer", "the request may succeed without having read anything")
			} else if s.D["answered"] == "" {
				bad("answer", "the request may succeed without answering with what was merged")
			}
		}
	}
	c.Explore(in, f, nil, nil)
	if c.Counts["values followed"] == 0 {
		c.Fail("anchor:values"+k, at, "no value read by a render was followed")
	}
}

// h05writes reports a captured variable that the callback, or what it makes,
// may change.
func h05writes(fn *ssa.Function, cb, bind *flow.Term) bool {
	for i, b := range cb.Args {
		if b == bind && i < len(fn.FreeVars) && changed(fn.FreeVars[i], 0) {
			return true
		}
	}
	return false
}

// changed reports that something may be written through the address.
func changed(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if changed(r, depth+1) {
				return true
			}
		case *ssa.IndexAddr:
			if changed(r, depth+1) {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && changed(g.FreeVars[i], depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}
