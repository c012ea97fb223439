package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S17", Technique: "typestate of the running flag, the value queue and the handle cache over inlined SSA of the database's service function, with its tasks followed as paths of their own",
		Explain: "Nothing is run, closed or replaced before the running flag was taken, and a run that did not get it leaves it alone; whoever got it gives it back as its last act on every path. All tasks are run by the launcher, serve the queue values are sent to, do not start goroutines of their own, end only when told to and then end. Handles are closed, and the queue is replaced and closed, only after the launcher has returned; its error is returned. The flag itself is only given to one at a time.",
		Min:     6,
		Run:     runS17,
	})
}

const fchClose = "(*" + flow.RepoPath + "/" + filesPkg + ".fileCache).Close"

// flagFns finds the methods of the type that lets one run at a time.
func flagFns(c *Ctx) (typ types.Type, start, stop *ssa.Function) {
	for _, f := range sortFns(c.P.RepoFuncs()) {
		r := f.Signature.Recv()
		if r == nil || !inPkg(f, "internal/junk") || f.Synthetic != "" || !strings.HasSuffix(deref(r.Type()).String(), ".Flag") {
			continue
		}
		typ = deref(r.Type())
		switch f.Name() {
		case "Start":
			start = f
		case "Stop":
			stop = f
		}
	}
	return
}

func runS17(c *Ctx) {
	// the values still queued and the handles
	c.Include("S09", func(key, where, msg string) bool { return true })
	c.Include("S06", func(key, where, msg string) bool { return strings.Contains(key, ".fileCache).Close") })
	c.Include("S16", func(key, where, msg string) bool { return strings.HasSuffix(key, ".TakeAll") })
	run := c.Fn(filesPkg, "DB.Run")
	if run == nil {
		return
	}
	flag, start, stop := flagFns(c)
	if start == nil || stop == nil {
		c.Fail("anchor:flag", "internal/junk", "no flag that is started and stopped was found")
		return
	}
	s17flag(c, flag, start, stop)

	ts := c.P.TS
	at := c.P.Pos(run.Pos())
	for _, o := range [][2]string{
		{"once", "the database is run by one call at a time: the flag is taken first, given back last, and only by the one who took it"},
		{"wait", "handles and the queue are taken care of only after every task of the database has ended"},
		{"tasks", "the tasks serve the queue values are sent to, end when they are told to, and not before"},
		{"ready", "a new queue is in place and the handles are closed when the database stops"},
		{"error", "the error of the tasks is returned"},
	} {
		c.Oblige(o[0], at, o[1], true)
	}
	isAtomic := func(n string) bool { return strings.HasPrefix(n, "(*sync/atomic.Value).") }
	isOp := func(i ssa.Instruction) bool {
		hit := false
		chanOps(i, func(op string, ch ssa.Value) { hit = hit || queueChan(ch.Type()) })
		if call, ok := i.(ssa.CallInstruction); ok {
			n := calleeName(call.Common())
			g := call.Common().StaticCallee()
			hit = hit || n == fchClose || g == start || g == stop || isLaunch(i) ||
				n == "(*"+junkPkg+".Launcher).Queue" || n == "(context.Context).Done"
		}
		return hit
	}
	rel := c.P.Relevant(isOp)
	// atomic values that hold the queue: stored to somewhere with one
	isQueueVal := func(t *flow.Term) bool {
		return t != nil && t.Op == "faddr" && t.Obj != nil && strings.HasSuffix(t.Obj.Type().String(), "atomic.Value")
	}
	cur := func(in *flow.Interp, s *flow.State, e *flow.Event, addr *flow.Term) (string, *flow.Term) {
		k := "cur:" + addr.Obj.Name()
		if s.R[k] == nil {
			s.R[k] = in.Fresh(s, e, "held", types.NewInterfaceType(nil, nil))
		}
		return k, s.R[k]
	}
	// the channel inside what an atomic value holds
	unwrap := func(t *flow.Term) *flow.Term {
		for t != nil && (t.Op == "iface" || t.Op == "conv" || t.Op == "assert") && len(t.Args) > 0 {
			t = t.Args[0]
		}
		return t
	}
	in := flow.NewInterp(c.P, nil)
	in.UseRelevance(rel)
	inl := in.InlineCall
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return inPkg(g, filesPkg) && g != start && g != stop && (inl == nil || inl(s, g, args))
	}
	runs, ends := 0, 0
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		task := s.R["taskctx"]
		// need the flag for an effect
		owned := func(what string) bool {
			if task != nil {
				return true
			}
			switch s.D["flag"] {
			case "on":
				return true
			case "":
				bad("once", "%s before it is known that nobody else runs the database", what)
			case "refused":
				bad("once", "%s although somebody else runs the database", what)
			case "off":
				bad("once", "%s after somebody else may have started to run the database", what)
			}
			return false
		}
		if ctxEvent(in, s, e) {
			return
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Callee == start:
				e.Handled = true
				if task != nil || s.D["flag"] != "" {
					bad("once", "the flag is taken twice")
					return
				}
				err := in.Fresh(s, e, "err", start.Signature.Results().At(0).Type())
				e.Fork(
					flow.Alt{Result: ts.Nil(), Note: "the flag is taken", Do: func(s *flow.State) { s.D["flag"] = "on" }},
					flow.Alt{Result: err, Note: "somebody else has the flag", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["flag"] = "refused"
					}})
			case e.Callee == stop:
				e.Handled = true
				if task != nil {
					bad("once", "a task gives the flag back while the others still run")
					return
				}
				if s.D["flag"] != "on" {
					bad("once", "the flag is given back by somebody who does not have it")
					return
				}
				s.D["flag"] = "off"
			case e.Name == "(*"+junkPkg+".Launcher).Queue":
				e.Handled = true
				fn := bare(e.Args[1])
				if fn.Fn == nil {
					bad("tasks", "a task is queued that is not known")
					return
				}
				if task != nil {
					bad("tasks", "a task queues others")
					return
				}
				name := fn.Fn.String()
				ct := fn.Fn.Signature.Params().At(0).Type()
				tcx := ts.Mk("pure", "ctx-cancel", ct, ts.Sym("taskctx:"+name, ct))
				s.D["tasks"] = "1"
				e.Fork(
					flow.Alt{Note: "the task is queued", Result: ts.Mk("tuple", "", types.NewTuple())},
					flow.Alt{Note: "the task runs", Enter: fn, Args: []*flow.Term{tcx}, Do: func(s *flow.State) {
						s.R["taskctx"] = tcx
						s.D["taskfn"] = name
					}})
			case e.Name == "(context.Context).Err" && task != nil && endsWith(s, e.Args[0], task):
				err := in.Fresh(s, e, "cerr", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				ended := flow.Alt{Result: err, Note: "the task is told to stop", Do: func(s *flow.State) {
					s.Assume(ts.IsNil(err), false)
					if s.D["told"] == "" {
						s.D["told"] = "1"
					}
				}}
				e.Handled = true
				if s.D["told"] != "" {
					e.Fork(ended)
				} else {
					e.Fork(ended, flow.Alt{Result: ts.Nil()})
				}
			case launchName(e.Name):
				e.Handled = true
				if task != nil {
					bad("tasks", "a task runs others")
					return
				}
				if !owned("tasks are run") {
					return
				}
				cx := bare(e.Args[1])
				if xp := ctxArg(run); xp == nil || !endsWith(s, cx, ts.Sym("arg:"+xp.Name()+":"+run.Name(), xp.Type())) {
					bad("tasks", "the tasks are not told when the database is to stop")
					return
				}
				if s.D["fch"] != "" {
					bad("wait", "tasks are run after the handles were closed")
					return
				}
				if s.D["closed"] != "" {
					bad("wait", "tasks are run on a queue that was already closed")
					return
				}
				runs++
				err := in.Fresh(s, e, "err", e.Callee.Signature.Results().At(0).Type())
				if s.D["tasks"] == "" {
					bad("tasks", "nothing serves the queue")
					return
				}
				e.Fork(flow.Alt{Result: err, Note: "all tasks have ended", Do: func(s *flow.State) {
					s.D["ran"] = "1"
					s.R["lerr"] = err
					for k, v := range s.R {
						if strings.HasPrefix(k, "cur:") {
							s.R["old:"+k[4:]] = v
						}
					}
				}})
			case e.Name == fchClose:
				if task != nil {
					bad("wait", "a task closes the handles while others use them")
					return
				}
				if !owned("the handles are closed") {
					return
				}
				if s.D["ran"] == "" {
					bad("wait", "the handles are closed before the tasks that use them have ended")
					return
				}
				e.Handled = true
				e.Result = ts.Mk("tuple", "", types.NewTuple())
				if rs := e.Callee.Signature.Results(); rs.Len() == 1 {
					e.Result = freshErr(in, s, e, "err")
				}
				s.D["fch"] = "closed"
			case isAtomic(e.Name) && isQueueVal(e.Args[0]):
				op := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
				k, v := cur(in, s, e, e.Args[0])
				switch op {
				case "Load":
					e.Handled, e.Result = true, v
				case "Store", "Swap":
					nv := e.Args[1]
					if ch := unwrap(nv); ch == nil || ch.T == nil || !queueChan(ch.T) {
						return
					}
					e.Handled = true
					e.Result = ts.Mk("tuple", "", types.NewTuple())
					if op == "Swap" {
						e.Result = v
					}
					if task != nil {
						bad("wait", "a task replaces the queue while others serve it")
						return
					}
					if !owned("the queue is replaced") {
						return
					}
					if s.D["tasks"] != "" && s.D["ran"] == "" {
						bad("tasks", "the queue is replaced after its tasks were made")
						return
					}
					s.R[k] = nv
					if s.D["ran"] != "" {
						s.D["replaced:"+k[4:]] = "1"
					}
				default:
					bad("ready", "the queue is changed in a way that is not known")
				}
			}
		case "make":
			if queueChan(e.Typ) && e.Result != nil {
				s.Assume(ts.IsNil(e.Result), false)
			}
		case "go":
			b := e.Callee
			if b == nil && e.FnVal != nil {
				b = e.FnVal.Fn
			}
			if task != nil {
				bad("wait", "a task starts a goroutine that nobody waits for")
				return
			}
			if b == nil || rel[b] || usesQueue(b) {
				bad("wait", "the queue is served by a goroutine that the database does not wait for")
			}
		case "close":
			if e.Addr == nil || e.Addr.T == nil || !queueChan(e.Addr.T) {
				return
			}
			if task != nil {
				bad("wait", "a task closes the queue while others serve it")
				return
			}
			if !owned("the queue is closed") {
				return
			}
			if s.D["ran"] == "" {
				bad("wait", "the queue is closed while tasks may serve it")
				return
			}
			if s.D["closed"] != "" {
				bad("wait", "a queue is closed twice")
				return
			}
			ok := false
			for k, v := range s.R {
				if strings.HasPrefix(k, "old:") && s.Same(unwrap(e.Addr), unwrap(v)) {
					ok = true
					if !s.Same(unwrap(s.R["cur:"+k[4:]]), unwrap(e.Addr)) {
						s.D["gone"] = "1" // nobody gets at the closed queue any more
					}
				}
			}
			if !ok {
				bad("ready", "another queue is closed than the one the tasks served")
				return
			}
			s.D["closed"] = "1"
		case "recv":
			if task == nil {
				if e.Typ != nil && doneField(e.Typ) >= 0 && s.D["ran"] == "" {
					bad("wait", "values are taken from the queue while tasks may serve it")
				}
				return
			}
			if cx := doneOf(e.Addr); cx != nil {
				if !endsWith(s, cx, task) {
					bad("tasks", "a task waits for something else than the order to stop")
					return
				}
				here := c.P.PosOf(e.Instr)
				if s.D["told"] == here {
					bad("tasks", "a task goes on after it was told to stop")
					return
				}
				s.D["told"] = here
				return
			}
			if e.Typ == nil || doneField(e.Typ) < 0 {
				if e.Block {
					bad("tasks", "a task waits for something else than the order to stop")
				}
				return
			}
			if e.Closed {
				s.Kill() // only closed after the tasks have ended
				return
			}
			c.Count("values served", 1)
			ok := false
			for k, v := range s.R {
				ok = ok || strings.HasPrefix(k, "cur:") && s.Same(unwrap(e.Addr), unwrap(v))
			}
			if !ok {
				bad("tasks", "a task serves another queue than the one values are sent to")
				return
			}
			if e.Block || e.Name == "select" && !waitsForStop(e.Instr) {
				bad("tasks", "a task that waits for values does not notice that it is to stop")
			}
		case "ret":
			if task == nil || e.Callee == nil || e.Callee.String() != s.D["taskfn"] {
				return
			}
			ends++
			if s.D["told"] == "" {
				if n := len(e.Args); n > 0 {
					if isNil, k := s.IsNil(e.Args[n-1]); k && !isNil {
						s.Kill() // a failure stops the others
						return
					}
				}
				bad("tasks", "a task ends before it was told to and takes the others with it")
				return
			}
			s.Kill()
		case "exit", "panicexit":
			if task != nil {
				s.Kill()
				return
			}
			switch s.D["flag"] {
			case "on":
				bad("once", "the database stops without giving the flag back: it can never run again")
				return
			case "":
				if e.Kind == "exit" {
					bad("once", "the database stops without having looked whether somebody else runs it")
				}
				return
			}
			if e.Kind == "panicexit" {
				return
			}
			n := errResult(run.Signature)
			if s.D["flag"] == "refused" {
				c.Count("refused runs", 1)
				if isNil, k := s.IsNil(e.Args[n]); !k || isNil {
					bad("once", "a run that is refused reports no error")
				}
				return
			}
			if s.D["ran"] == "" {
				if isNil, k := s.IsNil(e.Args[n]); !k || isNil {
					bad("tasks", "the database stops without having run its tasks")
				}
				return
			}
			c.Count("stops", 1)
			if s.D["fch"] == "" {
				bad("ready", "the database stops without closing its handles")
				return
			}
			if s.D["closed"] != "" && s.D["gone"] == "" {
				// closed while in place: must have been replaced since
				rep := false
				for k := range s.D {
					rep = rep || strings.HasPrefix(k, "replaced:")
				}
				if !rep {
					bad("ready", "the queue was closed and not replaced: later values are refused for ever")
					return
				}
			}
			for k, v := range s.R {
				if !strings.HasPrefix(k, "cur:") {
					continue
				}
				ch := unwrap(v)
				if s.D["replaced:"+k[4:]] != "" {
					if ch.Op != "make" && ch.Op != "alloc" {
						if isNil, kn := s.IsNil(ch); !kn || isNil {
							bad("ready", "what replaces the queue may be no queue")
							return
						}
					}
					if old := s.R["old:"+k[4:]]; old != nil && s.Same(unwrap(old), ch) {
						bad("ready", "the queue is replaced by itself")
						return
					}
				}
			}
			le := s.R["lerr"]
			if isNil, k := s.IsNil(le); k && isNil {
				return
			}
			if !carries(e.Args[n], le) {
				bad("error", "the error of the tasks is not returned")
			}
		}
	}
	c.Explore(in, run, nil, nil)
	c.Count("runs of the tasks", runs)
	c.Count("task ends", ends)
	for _, n := range []string{"refused runs", "stops", "runs of the tasks", "task ends", "values served"} {
		if c.Counts[n] == 0 {
			c.Fail("none:"+n, at, "no path with %s was found", n)
		}
	}
}

// waitsForStop reports a select that also waits for a context or has a default.
func waitsForStop(i ssa.Instruction) bool {
	sel, ok := i.(*ssa.Select)
	if !ok || !sel.Blocking {
		return true
	}
	for _, st := range sel.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		if e := chanElem(st.Chan.Type()); e != nil {
			if str, ok := e.Underlying().(*types.Struct); ok && str.NumFields() == 0 {
				return true
			}
		}
	}
	return false
}

func usesQueue(f *ssa.Function) bool {
	hit := false
	eachOf(f, func(i ssa.Instruction) {
		chanOps(i, func(op string, ch ssa.Value) { hit = hit || queueChan(ch.Type()) })
	})
	return hit
}

// s17flag: the flag is given to one at a time.
func s17flag(c *Ctx, typ types.Type, start, stop *ssa.Function) {
	ts := c.P.TS
	at := c.P.Pos(start.Pos())
	c.Oblige("flag", at, "the flag is given to one caller at a time, and can be given again once it is back", true)
	for _, f := range []*ssa.Function{start, stop} {
		f := f
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, "internal/junk") }
		own := func(a *flow.Term) bool {
			return a != nil && a.Op == "faddr" && a.Obj != nil && fieldIn(typ, a.Obj)
		}
		// the flag as it is between the lock and the unlock
		state := func(in *flow.Interp, s *flow.State, e *flow.Event, t types.Type) *flow.Term {
			if s.R["now"] == nil {
				s.R["now"] = in.Fresh(s, e, "on", t)
				s.R["was"] = s.R["now"]
			}
			return s.R["now"]
		}
		isOn := func(s *flow.State, v *flow.Term, on bool) bool {
			if v == nil {
				return false
			}
			if b, ok := v.BoolVal(); ok {
				return b == on
			}
			if v.T != nil && basicKind(v.T, types.Bool) {
				b, k := s.Decide(v)
				return k && b == on
			}
			eq, k := s.Decide(ts.Eq(v, ts.Int(0), v.T))
			return k && eq == !on
		}
		exits := 0
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, "flag", e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "call":
				switch {
				case e.Name == muLock:
					e.Handled = true
					if s.D["held"] != "" {
						bad("the lock of the flag is taken twice")
						return
					}
					s.D["held"] = "1"
					delete(s.R, "now")
				case e.Name == muUnlock:
					e.Handled = true
					if s.D["held"] == "" {
						bad("the lock of the flag is given back without being held")
						return
					}
					delete(s.D, "held")
					if s.D["set"] == "" {
						delete(s.R, "was")
						delete(s.R, "now")
					}
				case strings.HasPrefix(e.Name, "sync/atomic.CompareAndSwap") || strings.HasPrefix(e.Name, "(*sync/atomic.") && strings.HasSuffix(e.Name, ").CompareAndSwap"):
					e.Handled = true
					a := e.Args
					e.Fork(
						flow.Alt{Result: ts.Bool(true), Do: func(s *flow.State) {
							s.R["was"], s.R["now"] = a[1], a[2]
							s.D["set"] = "1"
						}},
						flow.Alt{Result: ts.Bool(false), Do: func(s *flow.State) { s.D["lost"] = "1" }})
				case strings.HasPrefix(e.Name, "sync/atomic.Store") || strings.HasPrefix(e.Name, "(*sync/atomic.") && strings.HasSuffix(e.Name, ").Store"):
					e.Handled = true
					if f == start {
						bad("the flag is taken without looking whether somebody has it")
						return
					}
					s.R["now"], s.D["set"] = e.Args[1], "1"
				}
			case "load":
				if own(e.Addr) && !strings.HasPrefix(e.Addr.Obj.Type().String(), "sync") {
					if s.D["held"] == "" {
						bad("the flag is read without its lock")
						return
					}
					e.Result = state(in, s, e, e.Addr.Obj.Type())
				}
			case "store":
				if own(e.Addr) {
					if s.D["held"] == "" {
						bad("the flag is changed without its lock")
						return
					}
					state(in, s, e, e.Addr.Obj.Type())
					s.R["now"], s.D["set"] = e.Val, "1"
				}
			case "exit", "panicexit":
				exits++
				if s.D["held"] != "" {
					bad("the lock of the flag is not given back")
					return
				}
				if f == stop {
					if s.D["set"] == "" || !isOn(s, s.R["now"], false) {
						bad("the flag is not given back")
					}
					return
				}
				if e.Kind == "panicexit" {
					return
				}
				isNil, k := s.IsNil(e.Args[0])
				if k && !isNil {
					if s.D["set"] != "" && !isOn(s, s.R["was"], true) {
						bad("the flag is taken although an error is reported")
					} else if s.D["lost"] == "" && !isOn(s, s.R["was"], true) && s.D["set"] == "" && s.R["was"] != nil {
						bad("the flag is refused although nobody has it")
					}
					return
				}
				if s.D["set"] == "" || !isOn(s, s.R["now"], true) {
					bad("the flag is said to be taken and is not: a second run may start")
					return
				}
				if !isOn(s, s.R["was"], false) {
					bad("the flag is taken although somebody may have it")
				}
			}
		}
		c.Explore(in, f, nil, nil)
		if exits == 0 {
			c.Fail("flag:none", at, "no path through %s was found", fname(f))
		}
	}
}

// fieldIn reports a field of a structure.
func fieldIn(t types.Type, v types.Object) bool {
	for _, w := range fields(t) {
		if types.Object(w) == v {
			return true
		}
	}
	return false
}
