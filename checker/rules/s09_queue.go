package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S09", Technique: "typestate analysis of completion callbacks and queued values over virtually inlined SSA",
		Explain: "On every path of the function that accepts a value, a send that panics because the queue was closed included, the completion callback either travels into the queue or is called, once. Every function that takes values from the queue calls the callback of each one exactly once, with the outcome of the write if one ran, and the function that closes the queue empties it.",
		Min:     6,
		Run:     runS09,
	})
}

// queueWorld knows the queue of values and their completion callbacks.
type queueWorld struct {
	p    *flow.Program
	item types.Type // the queued structure
	done int        // its callback field
}

func isDoneSig(t types.Type) bool {
	sg, ok := t.Underlying().(*types.Signature)
	return ok && sg.Params().Len() == 2 && sg.Results().Len() == 0 &&
		basicKind(sg.Params().At(0).Type(), types.Bool) && sg.Params().At(1).Type().String() == "error"
}

func doneField(t types.Type) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		if p, isP := t.Underlying().(*types.Pointer); isP {
			return doneField(p.Elem())
		}
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if isDoneSig(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

// queueChan reports a channel of queued values.
func queueChan(t types.Type) bool {
	e := chanElem(t)
	return e != nil && doneField(e) >= 0
}

// chanOps lists the channel operations of an instruction.
func chanOps(i ssa.Instruction, f func(op string, ch ssa.Value)) {
	switch i := i.(type) {
	case *ssa.Send:
		f("send", i.Chan)
	case *ssa.UnOp:
		if i.Op.String() == "<-" {
			f("recv", i.X)
		}
	case *ssa.Select:
		for _, st := range i.States {
			if st.Dir == types.SendOnly {
				f("send", st.Chan)
			} else {
				f("recv", st.Chan)
			}
		}
	case ssa.CallInstruction:
		if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			f("close", i.Common().Args[0])
		}
	}
}

func runS09(c *Ctx) {
	ops := map[string]int{}
	isOp := func(i ssa.Instruction) bool {
		hit := false
		chanOps(i, func(op string, ch ssa.Value) {
			if queueChan(ch.Type()) {
				hit = true
			}
		})
		if call, ok := i.(ssa.CallInstruction); ok && !call.Common().IsInvoke() && call.Common().StaticCallee() == nil && isDoneSig(call.Common().Value.Type()) {
			hit = true
		}
		return hit
	}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		chanOps(i, func(op string, ch ssa.Value) {
			if queueChan(ch.Type()) {
				ops[op]++
			}
		})
	})
	for _, op := range []string{"send", "recv", "close"} {
		if ops[op] == 0 {
			c.Fail("anchor:"+op, filesPkg, "no %s on a queue of values with completion callbacks was found", op)
			return
		}
		c.Count("queue "+op+" sites", ops[op])
	}
	rel := c.P.Relevant(isOp)
	accepts, takes := 0, 0
	c.drive(rel, func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Pkg != nil && f.Pkg.Pkg.Path() == flow.RepoPath+"/"+filesPkg
	}, func(root *ssa.Function) *flow.Interp {
		has := map[string]bool{}
		reach(root, rel, func(i ssa.Instruction) {
			chanOps(i, func(op string, ch ssa.Value) {
				if queueChan(ch.Type()) {
					has[op] = true
				}
			})
		})
		if root.Parent() == nil && !has["send"] && !has["recv"] && !has["close"] && len(doneParams(root)) == 0 {
			return nil
		}
		name := fname(root)
		at := c.P.Pos(root.Pos())
		if len(doneParams(root)) > 0 {
			accepts++
			c.Oblige("accept:"+name, at, "the callback given to "+name+" travels into the queue or is called, exactly once, on every path", true)
		}
		if has["recv"] {
			takes++
			c.Oblige("take:"+name, at, "the callback of every value taken from the queue in "+name+" is called exactly once", true)
			c.Oblige("outcome:"+name, at, "the callback learns the outcome of the write", true)
		}
		if has["close"] {
			c.Oblige("drain:"+name, at, "the queue that "+name+" closes is emptied", true)
		}
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.SendPanics = func(s *flow.State, ch *flow.Term) bool { return ch.T == nil || queueChan(ch.T) }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) { s09hook(in, s, e, root, name) }
		return in
	})
	if accepts == 0 {
		c.Fail("anchor:accept", filesPkg, "no function that accepts a completion callback was found")
	}
	if takes == 0 {
		c.Fail("anchor:take", filesPkg, "no function that takes queued values was found")
	}
	s09shutdown(c)
}

// reach visits the instructions of a function, its closures and the relevant
// functions it calls.
func reach(root *ssa.Function, rel map[*ssa.Function]bool, visit func(ssa.Instruction)) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				visit(i)
				if call, ok := i.(*ssa.Call); ok {
					if g := call.Common().StaticCallee(); g != nil && rel[g] {
						walk(g)
					}
				}
				if call, ok := i.(*ssa.Defer); ok {
					if g := call.Common().StaticCallee(); g != nil && rel[g] {
						walk(g)
					}
				}
			}
		}
	}
	walk(root)
}

func doneParams(f *ssa.Function) []*ssa.Parameter {
	var out []*ssa.Parameter
	for _, p := range f.Params {
		if isDoneSig(p.Type()) {
			out = append(out, p)
		}
	}
	return out
}

func s09hook(in *flow.Interp, s *flow.State, e *flow.Event, root *ssa.Function, name string) {
	ts := in.TS
	own := func() *flow.Term {
		if ps := doneParams(root); len(ps) > 0 {
			return ts.Sym("arg:"+ps[0].Name()+":"+root.Name(), ps[0].Type())
		}
		return nil
	}
	doneOf := func(v *flow.Term) *flow.Term {
		if v == nil || v.T == nil {
			return nil
		}
		i := doneField(v.T)
		if i < 0 {
			return nil
		}
		if _, isP := v.T.Underlying().(*types.Pointer); isP {
			ft := v.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return s.Load(ts.FieldAddr(v, ft.Field(i)), ft.Field(i).Type(), "rule.done")
		}
		return ts.Field(v, i, v.T.Underlying().(*types.Struct))
	}
	settle := func(what string) {
		switch s.D["own"] {
		case "":
			s.D["own"] = what
		default:
			in.ReportAt(s, "accept:"+name, e.Instr, "the completion callback is %s although it was already %s", what, s.D["own"])
			s.Kill()
		}
	}
	finished := func(where string) bool {
		if s.D["item"] != "owed" {
			return true
		}
		d := doneOf(s.R["item"])
		if isNil, k := s.IsNil(d); k && isNil {
			return true
		}
		in.ReportAt(s, "take:"+name, e.Instr, "a value taken from the queue is dropped without calling its completion callback (%s)", where)
		s.Kill()
		return false
	}
	switch e.Kind {
	case "send":
		if e.Addr == nil || e.Val == nil || e.Val.T == nil || doneField(e.Val.T) < 0 {
			return
		}
		d := doneOf(e.Val)
		if cb := own(); cb != nil && s.Same(d, cb) {
			settle("sent with a value")
			return
		}
		if s.D["item"] == "owed" && s.Same(d, doneOf(s.R["item"])) {
			s.D["item"] = "done" // put back into a queue
			return
		}
		if cb := own(); cb != nil {
			in.ReportAt(s, "accept:"+name, e.Instr, "a value is queued without the completion callback of its caller")
			s.Kill()
		}
	case "recv":
		if e.Typ == nil || doneField(e.Typ) < 0 {
			return
		}
		if !finished("another one is taken") {
			return
		}
		delete(s.R, "wrote")
		if e.Closed {
			s.D["drained"] = "1"
			delete(s.R, "item")
			delete(s.D, "item")
			return
		}
		v := in.Fresh(s, e, "item", e.Typ)
		e.Result = v
		d := doneOf(v)
		s.R["item"] = v
		e.Fork(
			flow.Alt{Note: "a value without a callback is taken", Do: func(s *flow.State) { s.Assume(ts.IsNil(d), true); s.D["item"] = "none" }},
			flow.Alt{Note: "a value is taken", Do: func(s *flow.State) { s.Assume(ts.IsNil(d), false); s.D["item"] = "owed" }},
		)
	case "call", "go":
		if e.FnVal != nil && e.Callee == nil && e.FnVal.T != nil && isDoneSig(e.FnVal.T) || isDoneCall(e) {
			if cb := own(); cb != nil && s.Same(e.FnVal, cb) {
				settle("called")
				if len(e.Args) == 2 && !s.Must(ts.Not(e.Args[0])) {
					in.ReportAt(s, "outcome:"+name, e.Instr, "the completion callback may report a value as written that was not accepted")
				}
				return
			}
			if it := s.R["item"]; it != nil && s.Same(e.FnVal, doneOf(it)) {
				if s.D["item"] != "owed" {
					in.ReportAt(s, "take:"+name, e.Instr, "the completion callback of a value is called twice")
					s.Kill()
					return
				}
				s.D["item"] = "done"
				w := s.R["wrote"]
				if len(e.Args) != 2 {
					return
				}
				ok, err := e.Args[0], e.Args[1]
				if w == nil {
					if b, k := s.Decide(ok); !k || b {
						in.ReportAt(s, "outcome:"+name, e.Instr, "the completion callback may report a value as written that was not written")
					}
					return
				}
				if !s.Same(ok, ts.Mk("ext", "0", types.Typ[types.Bool], w)) && !sameExt(s, ok, w, 0) {
					in.ReportAt(s, "outcome:"+name, e.Instr, "the completion callback does not report whether the value was written")
				}
				if !sameExt(s, err, w, 1) {
					in.ReportAt(s, "outcome:"+name, e.Instr, "the completion callback does not report the error of the write")
				}
			}
			return
		}
		if it := s.R["item"]; it != nil && e.Kind == "call" && e.Opaque && writesItem(e, it) {
			if s.R["wrote"] != nil {
				in.ReportAt(s, "outcome:"+name, e.Instr, "a value taken from the queue is written twice")
			}
			rs := e.Callee.Signature.Results()
			b, err := in.Fresh(s, e, "ok", rs.At(0).Type()), in.Fresh(s, e, "err", rs.At(1).Type())
			r := ts.Mk("tuple", "", rs, b, err)
			e.Result = r
			e.Handled = true
			s.R["wrote"] = r
		}
	case "close":
		if e.Addr != nil && e.Addr.T != nil && queueChan(e.Addr.T) {
			s.D["closed"] = "1"
			delete(s.D, "drained")
		}
	case "exit", "panicexit":
		if cb := own(); cb != nil && s.D["own"] == "" {
			if isNil, k := s.IsNil(cb); !(k && isNil) {
				in.ReportAt(s, "accept:"+name, e.Instr, "the function ends although the completion callback was neither queued nor called")
			}
		}
		if n := errResult(root.Signature); e.Kind == "exit" && own() != nil && s.D["own"] != "" && n >= 0 && n < len(e.Args) {
			if isNil, k := s.IsNil(e.Args[n]); !k || !isNil {
				in.ReportAt(s, "accept:"+name, e.Instr, "the function may fail although the completion callback was taken care of: the caller completes the value again")
			}
		}
		if e.Kind == "panicexit" && own() != nil {
			in.ReportAt(s, "accept:"+name, e.Instr, "a value queued while the database shuts down panics in the caller")
		}
		if e.Kind == "exit" {
			if !finished("the function returns") {
				return
			}
			if s.D["closed"] != "" && s.D["drained"] == "" {
				in.ReportAt(s, "drain:"+name, e.Instr, "the queue is closed but not emptied: values in it are never completed")
			}
		}
	}
}

func isDoneCall(e *flow.Event) bool {
	return e.FnVal != nil && e.FnVal.T != nil && isDoneSig(e.FnVal.T)
}

// sameExt compares a term with a result of a tuple.
func sameExt(s *flow.State, t, tuple *flow.Term, i int) bool {
	if tuple == nil || tuple.Op != "tuple" || i >= len(tuple.Args) {
		return false
	}
	return s.Same(t, tuple.Args[i])
}

// writesItem reports a call that gets (parts of) the item and says whether it
// was written.
func writesItem(e *flow.Event, item *flow.Term) bool {
	f := e.Callee
	if f == nil {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 2 || !basicKind(rs.At(0).Type(), types.Bool) || rs.At(1).Type().String() != "error" {
		return false
	}
	for _, a := range e.Args {
		if termHas(a, func(x *flow.Term) bool { return x == item }) {
			return true
		}
	}
	return false
}

// s09shutdown: the service function closes the queue after its workers stopped.
func s09shutdown(c *Ctx) {
	run := c.Fn(filesPkg, "DB.Run")
	if run == nil {
		return
	}
	c.Oblige("shutdown", c.P.Pos(run.Pos()), "after the workers stopped, the queue they served is replaced, closed and emptied", true)
	isOp := func(i ssa.Instruction) bool {
		hit := false
		chanOps(i, func(op string, ch ssa.Value) { hit = hit || queueChan(ch.Type()) })
		return hit || isLaunch(i)
	}
	rel := c.P.Relevant(isOp)
	in := flow.NewInterp(c.P, nil)
	in.UseRelevance(rel)
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			if launchName(e.Name) {
				e.Handled = true
				if s.D["closed"] != "" {
					in.ReportAt(s, "shutdown", e.Instr, "workers run on a queue that was already closed")
				}
				s.D["ran"] = "1"
				e.Result = freshErr(in, s, e, "err")
			}
		case "go":
			s.D["ran"] = "1"
		case "close":
			if e.Addr != nil && e.Addr.T != nil && queueChan(e.Addr.T) {
				s.D["closed"] = "1"
			}
		case "recv":
			if e.Typ != nil && doneField(e.Typ) >= 0 && e.Closed {
				s.D["drained"] = "1"
			}
		case "exit":
			if s.D["ran"] != "" {
				c.Count("shutdown exits", 1)
				if s.D["closed"] == "" || s.D["drained"] == "" {
					in.ReportAt(s, "shutdown", e.Instr, "the database stops although the values still queued are not completed")
				}
			}
		}
	}
	c.Explore(in, run, nil, nil)
	if c.Counts["shutdown exits"] == 0 {
		c.Fail("shutdown:none", c.P.Pos(run.Pos()), "no path on which the workers were run was found")
	}
}

const junkPkg = flow.RepoPath + "/internal/junk"

func launchName(n string) bool {
	return n == "(*"+junkPkg+".Launcher).Run"
}

func isLaunch(i ssa.Instruction) bool {
	call, ok := i.(ssa.CallInstruction)
	return ok && launchName(calleeName(call.Common()))
}
