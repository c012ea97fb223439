package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P01", Technique: "typestate of cancellation, error channel and wait group over inlined SSA, goroutine bodies followed as paths of their own, plus a capture analysis of task closures",
		Explain: "Every task gets a context that is cancelled before the launcher waits for another task or for all of them; every task is started, reports its error and only then marks itself done, once each; the launcher returns the first error it is told of. No task closure captures a variable that is overwritten after it was handed over.",
		Min:     7,
		Run:     runP01,
	})
}

const (
	wgAdd  = "(*sync.WaitGroup).Add"
	wgDone = "(*sync.WaitGroup).Done"
	wgWait = "(*sync.WaitGroup).Wait"
)

// taskSig is a task: func(context.Context) error.
func taskSig(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 &&
		sig.Params().At(0).Type().String() == "context.Context" && sig.Results().At(0).Type().String() == "error"
}

func runP01(c *Ctx) {
	// the launcher: the function of the package that takes a slice of tasks
	var launch *ssa.Function
	for _, f := range sortFns(c.P.RepoFuncs()) {
		if !inPkg(f, "internal/junk") || f.Parent() != nil {
			continue
		}
		for _, p := range f.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && taskSig(sl.Elem()) && f.Signature.Results().Len() == 1 {
				if launch == nil || f.Name() == "Launch" {
					launch = f
				}
			}
		}
	}
	if launch == nil {
		c.Fail("anchor:launch", "internal/junk", "no function that runs a list of tasks was found")
		return
	}
	p01launch(c, launch)
	p01queue(c, launch)
	p01capture(c)
}

func p01launch(c *Ctx, launch *ssa.Function) {
	ts := c.P.TS
	at := c.P.Pos(launch.Pos())
	for _, o := range [][2]string{
		{"started", "every task is started exactly once, with a context that is cancelled with the others"},
		{"cancel", "the other tasks are told to stop before the launcher waits for them"},
		{"wait", "the launcher returns only after every task is done"},
		{"first", "the first error reported by a task is returned"},
		{"report", "a task reports its error and then marks itself done, exactly once"},
	} {
		c.Oblige(o[0], at, o[1], true)
	}
	var tasks, ctx0 *flow.Term
	for _, p := range launch.Params {
		t := ts.Sym("arg:"+p.Name()+":"+launch.Name(), p.Type())
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			tasks = t
		} else if p.Type().String() == "context.Context" {
			ctx0 = t
		}
	}
	in := flow.NewInterp(c.P, nil)
	in.KeepOrder = true
	n := in.Len(tasks)
	// known: the number counted is that of the tasks
	known := func(s *flow.State, r string) bool {
		if s.D["all "+r] == "" && (s.EqInt(s.R[r], n) || s.R[r+" left"] != nil && s.EqInt(s.R[r+" left"], ts.Int(0))) {
			s.D["all "+r] = "1"
		}
		return s.D["all "+r] != ""
	}
	in.GoInline = func(s *flow.State, e *flow.Event) bool { return s.D["go"] == "" }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		if s.D["go"] != "" {
			if e.Kind == "exit" {
				c.Count("task ends", 1)
			}
			p01task(in, s, e, tasks)
			return
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "context.WithCancel":
				if ctx0 == nil || !s.Same(e.Args[0], ctx0) {
					return
				}
				tup := launchCtxTuple(e)
				cx := in.Fresh(s, e, "ctx", tup.At(0).Type())
				cn := in.Fresh(s, e, "cancel", tup.At(1).Type())
				s.R["ctx"], s.R["cancel"] = cx, cn
				e.Handled, e.Result = true, ts.Mk("tuple", "", tup, cx, cn)
			case e.Callee == nil && e.FnVal != nil && s.R["cancel"] != nil && s.Same(e.FnVal, s.R["cancel"]):
				e.Handled = true
				s.D["cancelled"] = "1"
			case e.Name == wgAdd:
				e.Handled = true
				delete(s.D, "all added")
				s.R["added"] = ts.Add(s.R["added"], e.Args[1])
			case e.Name == wgWait:
				e.Handled = true
				if s.D["cancelled"] == "" {
					bad("cancel", "the launcher waits for all tasks without having cancelled their context")
					return
				}
				if !known(s, "added") || !known(s, "started") {
					bad("wait", "the number of tasks waited for is not known to be the number of tasks started")
					return
				}
				if cp := s.R["cap"]; !known(s, "recvd") && (cp == nil || !s.Le(n, cp)) {
					bad("wait", "the launcher waits for tasks whose report nobody takes")
					return
				}
				s.D["waited"] = "1"
			case e.Name == wgDone:
				bad("report", "the launcher itself marks a task as done")
			case e.Callee == nil && e.FnVal != nil && e.FnVal.T != nil && taskSig(e.FnVal.T):
				bad("started", "a task runs in the launcher instead of beside the others")
			}
		case "make":
			if ch, ok := e.Typ.Underlying().(*types.Chan); ok && ch.Elem().String() == "error" && len(e.Args) > 0 {
				s.R["cap"] = e.Args[0]
			}
		case "go":
			if s.R["ctx"] == nil {
				bad("started", "a task is started without a context that the launcher can cancel")
				return
			}
			delete(s.D, "all started")
			s.R["started"] = ts.AddI(s.R["started"], 1)
			s.R["started left"] = ts.AddI(s.R["started left"], -1)
		case "recv":
			if e.Typ == nil || e.Typ.String() != "error" {
				return
			}
			known(s, "added")
			if !known(s, "started") {
				bad("started", "the launcher waits for a task before all of them were started")
				return
			}
			if s.D["got"] != "" && s.D["cancelled"] == "" {
				bad("cancel", "the launcher waits for another task although one has ended and the others were not cancelled")
				return
			}
			s.D["got"] = "1"
			s.R["recvd"] = ts.AddI(s.R["recvd"], 1)
			s.R["recvd left"] = ts.AddI(s.R["recvd left"], -1)
			err := in.Fresh(s, e, "taskerr", e.Typ)
			e.Result = err
			e.Fork(
				flow.Alt{Note: "a task failed", Do: func(s *flow.State) {
					s.Assume(ts.IsNil(err), false)
					if s.D["first"] == "" {
						s.D["first"] = "1"
						s.R["err"] = err
					}
				}},
				flow.Alt{Note: "a task ended without an error", Do: func(s *flow.State) { s.Assume(ts.IsNil(err), true) }},
			)
		case "exit":
			c.Count("launcher exits", 1)
			if s.D["waited"] == "" {
				bad("wait", "the launcher returns without waiting for its tasks")
				return
			}
			res := e.Args[len(e.Args)-1]
			if s.D["first"] != "" {
				if s.R["err"] == nil || !carries(res, s.R["err"]) && !s.Same(res, s.R["err"]) {
					bad("first", "the error of the task that failed first is not the one returned")
				}
				return
			}
			if isnil, known := s.IsNil(res); !known || !isnil {
				bad("first", "an error is returned although no task failed")
				return
			}
			if !known(s, "recvd") {
				bad("first", "success is returned without having heard from every task")
			}
		}
	}
	c.Explore(in, launch, nil, func(s *flow.State) {
		s.R["started"], s.R["added"], s.R["recvd"] = ts.Int(0), ts.Int(0), ts.Int(0)
		s.R["started left"], s.R["recvd left"] = n, n // the same counted down
		s.R["!n"] = n
	})
	if c.Counts["launcher exits"] == 0 {
		c.Fail("exits:none", at, "no path through the launcher completes")
	}
	if c.Counts["task ends"] == 0 {
		c.Fail("tasks:none", at, "the launcher starts no goroutine")
	}
}

// p01task follows the goroutine of one task.
func p01task(in *flow.Interp, s *flow.State, e *flow.Event, tasks *flow.Term) {
	bad := func(key, format string, a ...interface{}) {
		in.ReportAt(s, key, e.Instr, format, a...)
		s.Kill()
	}
	switch e.Kind {
	case "call":
		switch {
		case e.Name == wgDone:
			e.Handled = true
			if s.D["sent"] == "" || s.D["done"] != "" {
				bad("report", "a task is marked as done before its error was reported, or twice")
				return
			}
			s.D["done"] = "1"
		case e.Callee == nil && e.FnVal != nil && e.FnVal.T != nil && taskSig(e.FnVal.T):
			if s.D["ran"] != "" || !termHas(e.FnVal, func(x *flow.Term) bool { return x == tasks }) {
				bad("started", "the goroutine does not run one of the tasks exactly once")
				return
			}
			if len(e.Args) == 0 || !s.Same(e.Args[0], s.R["ctx"]) {
				bad("started", "the task gets a context that the launcher does not cancel")
				return
			}
			s.D["ran"] = "1"
			err := in.Fresh(s, e, "err", types.Universe.Lookup("error").Type())
			s.R["result"] = err
			e.Handled, e.Result = true, err
		}
	case "send":
		if e.Val == nil || s.D["ran"] == "" || s.D["sent"] != "" || !s.Same(e.Val, s.R["result"]) {
			bad("report", "what is reported is not the error of the task")
			return
		}
		s.D["sent"] = "1"
	case "exit":
		if s.D["done"] == "" {
			bad("report", "a task ends without being marked as done")
		}
	}
}

// carries reports an error made from another one.
func carries(t, of *flow.Term) bool {
	return termHas(t, func(x *flow.Term) bool { return x == of })
}

func launchCtxTuple(e *flow.Event) *types.Tuple {
	return e.Instr.(ssa.CallInstruction).Common().Signature().Results()
}

// p01queue checks the list of tasks in front of the launcher.
func p01queue(c *Ctx, launch *ssa.Function) {
	ts := c.P.TS
	var owner types.Type
	var fld *types.Var
	for _, f := range sortFns(c.P.RepoFuncs()) {
		if r := f.Signature.Recv(); r != nil && inPkg(f, "internal/junk") {
			for _, v := range fields(r.Type()) {
				if sl, ok := v.Type().Underlying().(*types.Slice); ok && taskSig(sl.Elem()) {
					owner, fld = r.Type(), v
				}
			}
		}
	}
	if fld == nil {
		c.Fail("anchor:queue", "internal/junk", "no type that collects tasks was found")
		return
	}
	adds, runs := 0, 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		r := f.Signature.Recv()
		if r == nil || !types.Identical(r.Type(), owner) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		self := ts.Sym("arg:"+f.Params[0].Name()+":"+f.Name(), f.Params[0].Type())
		var task *flow.Term
		for _, p := range f.Params[1:] {
			if taskSig(p.Type()) {
				task = ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
			}
		}
		if task == nil && !taskSigLike(f) {
			continue // part of one of the others
		}
		key := "queue:" + fname(f)
		if task != nil {
			adds++
			c.Oblige(key, c.P.Pos(f.Pos()), "a queued task is added behind the tasks queued before", true)
		} else {
			runs++
			c.Oblige(key, c.P.Pos(f.Pos()), "every queued task is handed to the launcher, whose result is returned", true)
		}
		isMu := func(a *flow.Term) bool { return a != nil && a.Op == "faddr" && a.Args[0] == self }
		in := flow.NewInterp(c.P, nil)
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "load", "store":
				if e.Addr == nil || e.Addr.Op != "faddr" || e.Addr.Obj != fld || e.Addr.Args[0] != self {
					return
				}
				if s.D["mu"] == "" {
					bad("the queued tasks are used without the lock")
					return
				}
				if e.Kind == "store" && task != nil {
					if s.R["new"] == nil || !s.Same(e.Val, s.R["new"]) {
						bad("the list of tasks is replaced by something else than itself and the new task")
						return
					}
					s.D["added"] = "1"
				}
			case "append":
				if task == nil || len(e.Args) < 2 {
					return
				}
				cur := s.Load(ts.FieldAddr(self, fld), fld.Type(), "rule.queue")
				if s.Same(e.Args[0], cur) && s.Same(in.ElemAt(s, e.Args[1], 0, task.T), task) && s.EqInt(in.Len(e.Args[1]), ts.Int(1)) {
					v := in.Fresh(s, e, "longer", fld.Type())
					e.Result, s.R["new"] = v, v
				}
			case "call":
				switch {
				case e.Name == muLock && isMu(e.Args[0]):
					e.Handled = true
					s.D["mu"] = "1"
					if s.R["all"] == nil {
						s.R["all"] = s.Load(ts.FieldAddr(self, fld), fld.Type(), "rule.queue")
					}
				case e.Name == muUnlock && isMu(e.Args[0]):
					e.Handled = true
					delete(s.D, "mu")
				case e.Callee == launch:
					e.Handled = true
					if s.D["mu"] != "" {
						bad("the tasks run while the list of tasks is locked")
						return
					}
					if s.R["all"] == nil || !s.Same(e.Args[len(e.Args)-1], s.R["all"]) {
						bad("the launcher is not given the tasks that were queued")
						return
					}
					r := freshErr(in, s, e, "err")
					e.Result, s.R["res"] = r, r
				}
			case "exit":
				if s.D["mu"] != "" {
					bad("the list of tasks stays locked")
					return
				}
				if task != nil && s.D["added"] == "" {
					bad("a queued task is forgotten")
				}
				if task == nil && len(e.Args) > 0 && (s.R["res"] == nil || !s.Same(e.Args[len(e.Args)-1], s.R["res"])) {
					bad("the result of the launcher is not returned")
				}
			}
		}
		base := in.InlineCall
		in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
			return fn != launch && (base != nil && base(s, fn, args) || inPkg(fn, "internal/junk"))
		}
		c.Explore(in, f, nil, nil)
	}
	if adds == 0 || runs == 0 {
		c.Fail("anchor:queue", "internal/junk", "no method that queues a task or runs the queued tasks was found")
	}
}

// taskSigLike reports a method that runs under a context and yields an error.
func taskSigLike(f *ssa.Function) bool {
	sig := f.Signature
	return sig.Params().Len() > 0 && sig.Params().At(0).Type().String() == "context.Context" && sig.Results().Len() == 1 && sig.Results().At(0).Type().String() == "error"
}

// p01capture: a closure handed over as a task or goroutine sees variables that
// keep their value.
func p01capture(c *Ctx) {
	n := 0
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		mc, ok := i.(*ssa.MakeClosure)
		if !ok || !handedOver(mc) {
			return
		}
		n++
		for k, b := range mc.Bindings {
			al, ok := b.(*ssa.Alloc)
			if !ok {
				continue
			}
			if at := overwrittenAfter(mc, al); at != nil {
				c.Fail("capture:"+fname(mc.Fn.(*ssa.Function))+":"+mc.Fn.(*ssa.Function).FreeVars[k].Name(), c.P.PosOf(at),
					"%s is overwritten while the task that captured it may still run", mc.Fn.(*ssa.Function).FreeVars[k].Name())
			}
		}
	})
	c.Oblige("capture", "repository", "no task or goroutine captures a variable that is overwritten after the task was handed over", true)
	c.Count("task closures", n)
	if n < 4 {
		c.Fail("capture:none", "repository", "fewer task closures than expected were found (%d)", n)
	}
}

// handedOver reports a closure that runs later: a goroutine, or an argument of
// a function that queues tasks.
func handedOver(mc *ssa.MakeClosure) bool {
	var uses func(v ssa.Value, depth int) bool
	uses = func(v ssa.Value, depth int) bool {
		if depth > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Go:
				return true
			case *ssa.Call:
				if taskSig(mc.Type()) && r.Common().Value != v {
					return true
				}
			case *ssa.ChangeType:
				if uses(r, depth+1) {
					return true
				}
			}
		}
		return false
	}
	return uses(mc, 0)
}

// overwrittenAfter finds a store to the variable that can run after the closure
// was made, before the variable is made anew.
func overwrittenAfter(mc *ssa.MakeClosure, al *ssa.Alloc) ssa.Instruction {
	type pos struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var work []pos
	for i, x := range mc.Block().Instrs {
		if x == ssa.Instruction(mc) {
			work = append(work, pos{mc.Block(), i + 1})
		}
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for _, x := range p.b.Instrs[p.i:] {
			if x == ssa.Instruction(al) {
				stop = true
				break
			}
			if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				return st
			}
		}
		if stop {
			continue
		}
		for _, b := range p.b.Succs {
			if !seen[b] {
				seen[b] = true
				work = append(work, pos{b, 0})
			}
		}
	}
	return nil
}
