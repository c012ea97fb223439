package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P02", Technique: "ordering typestate over inlined SSA of the process's tasks with contexts as terms that hold what they derive from, and of every service's reaction to a stop request",
		Explain: "All listeners and the dumper run, with one writer, under one context that a signal ends; when that has ended without an error the same writer is dumped with a context the signal does not end before that task returns, and the database runs beside that task, not under the signal. On a signal the context is cancelled; the dumper never aborts a dump on a stop request; and no service answers a stop request with an error.",
		Min:     8,
		Run:     runP02,
	})
}

func runP02(c *Ctx) {
	// what is started together ends together
	c.Include("P01", func(key, where, msg string) bool { return true })
	// a dump has ended when every value was stored or refused
	c.Include("D04", func(key, where, msg string) bool {
		return key == "offered" || key == "completed" || key == "waited" || key == "bytes"
	})
	ts := c.P.TS
	isDump := func(i ssa.Instruction) bool {
		return isCallTo(i, "(*"+flow.RepoPath+"/dump.Dumper).Dump")
	}
	// the launcher
	var launcher types.Type
	var queue, runAll *ssa.Function
	for _, f := range sortFns(c.P.RepoFuncs()) {
		r := f.Signature.Recv()
		if r == nil || !inPkg(f, "internal/junk") || f.Synthetic != "" {
			continue
		}
		for _, v := range fields(r.Type()) {
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && taskSig(sl.Elem()) {
				launcher = r.Type()
			}
		}
	}
	if launcher != nil {
		for _, f := range sortFns(c.P.RepoFuncs()) {
			r := f.Signature.Recv()
			if r == nil || !types.Identical(r.Type(), launcher) || f.Synthetic != "" {
				continue
			}
			switch {
			case taskSigLike(f):
				runAll = f
			case f.Signature.Params().Len() == 1 && taskSig(f.Signature.Params().At(0).Type()):
				queue = f
			}
		}
	}
	if queue == nil || runAll == nil {
		c.Fail("anchor:launcher", "internal/junk", "no type that collects and runs tasks was found")
		return
	}
	// what derives a context from signals
	var sigs []*ssa.Function
	isSig := map[*ssa.Function]bool{}
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		eachOf(f, func(i ssa.Instruction) {
			if isCallTo(i, "os/signal.Notify") && !isSig[f] {
				isSig[f] = true
				sigs = append(sigs, f)
			}
		})
	}
	if len(sigs) == 0 {
		c.Fail("anchor:signal", "internal/junk", "nothing listens for signals")
		return
	}
	for _, f := range sigs {
		p02signal(c, f)
	}
	var root *ssa.Function
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if !inPkg(f, "") {
			continue
		}
		eachOf(f, func(i ssa.Instruction) {
			if isDump(i) {
				root = f
			}
		})
	}
	if root == nil {
		c.Fail("anchor:run", "run.go", "no task performs a last dump")
		return
	}
	for root.Parent() != nil {
		root = root.Parent()
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && (isDump(i) || call.Common().StaticCallee() == queue || call.Common().StaticCallee() == runAll)
	})
	for n := 0; n < 4; n++ { // a helper that only performs the dump, say
		for _, g := range sortFns(c.P.AllRepoFuncs()) {
			found := false
			eachOf(g, func(i ssa.Instruction) {
				found = found || isCallTo(i, "(*"+flow.RepoPath+"/internal/junk.Launcher).Queue")
			})
			if found && g != root && calls(g, root) && inPkg(g, "") {
				root = g
			}
		}
	}
	at := c.P.Pos(root.Pos())
	for _, o := range [][2]string{
		{"services", "the listeners and the dumper run with one writer until a signal or the end of one of them"},
		{"last", "what was collected is dumped after the listeners have stopped without an error"},
		{"alive", "the last dump is not cut short by the signal, and the database still runs"},
		{"writer", "the writer dumped is the one the listeners fill, into the database that runs"},
	} {
		c.Oblige(o[0], at, o[1], true)
	}
	type site struct {
		at   string
		in   string // launcher whose task it is in
		inst ssa.Instruction
	}
	var listeners, dumpers, dbs, lasts, inners []site
	var innerOf = map[string]string{} // the launcher run under the signal by a task of another
	in := flow.NewInterp(c.P, nil)
	in.UseRelevance(rel)
	inl := in.InlineCall
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return g != queue && g != runAll && !isSig[g] && inPkg(g, "") && (inl == nil || inl(s, g, args))
	}
	lid := func(t *flow.Term) string { return clipTerm(t) }
	taskOf := func(s *flow.State) string { return s.D["task"] }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		if e.Kind == "call" && (e.Name == "context.WithTimeout" || e.Name == "context.WithDeadline") && s.D["services"] != "" {
			if n, ok := e.Args[1].IntVal(); e.Name == "context.WithTimeout" && ok && n < 1e9 {
				bad("alive", "the last dump is given no time")
				return
			}
		}
		if e.Kind == "call" && e.Callee != nil && isSig[e.Callee] {
			// a context that a signal ends
			tup := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
			cx := ts.Mk("pure", "ctx-cancel", tup.At(0).Type(), e.Args[0], in.Fresh(s, e, "ctx", tup.At(0).Type()))
			cn := ts.Mk("pure", "cancelfn", tup.At(1).Type(), cx)
			s.Assume(ts.IsNil(cx), false)
			s.Assume(ts.IsNil(cn), false)
			e.Handled, e.Result = true, ts.Mk("tuple", "", tup, cx, cn)
			s.R["sigctx"] = cx
			return
		}
		if ctxEvent(in, s, e) {
			return
		}
		mySite := func() site { return site{c.P.PosOf(e.Instr), taskOf(s), e.Instr} }
		task := s.R["taskctx"]
		// an argument of a type, if the call has one
		arg := func(suffix string) *flow.Term {
			for _, a := range e.Args {
				if a != nil && a.T != nil && strings.HasSuffix(a.T.String(), suffix) {
					return a
				}
			}
			return nil
		}
		writer := func() {
			w := arg("data.Writer")
			if s.R["w"] == nil || w == nil || !s.Same(w, s.R["w"]) {
				bad("writer", "another writer is used than the one made for this run")
			}
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Callee == queue:
				e.Handled = true
				fn := e.Args[1]
				if fn.Op == "conv" {
					fn = fn.Args[0]
				}
				if fn.Fn == nil {
					bad("services", "a task is queued that is not known")
					return
				}
				l := lid(e.Args[0])
				cx := ts.Mk("pure", "ctx-cancel", fn.Fn.Signature.Params().At(0).Type(), ts.Sym("taskctx:"+l, fn.Fn.Signature.Params().At(0).Type()))
				if s.D["task"] != "" {
					bad("services", "a task queues others")
					return
				}
				c.Count("queued tasks", 1)
				e.Fork(
					flow.Alt{Note: "the task is queued", Result: ts.Mk("tuple", "", types.NewTuple())},
					flow.Alt{Note: "the task runs", Enter: fn, Args: []*flow.Term{cx}, Do: func(s *flow.State) {
						s.D["task"] = l
						s.R["taskctx"] = cx
						s.D["taskfn"] = fn.Fn.String()
					}})
			case e.Callee == runAll:
				e.Handled = true
				l := lid(e.Args[0])
				err := in.Fresh(s, e, "err", e.Callee.Signature.Results().At(0).Type())
				e.Result = err
				if s.D["task"] == "" { // the outermost one
					if s.R["sigctx"] != nil && endsWith(s, e.Args[1], s.R["sigctx"]) {
						bad("alive", "all tasks, the last dump's and the database's too, run with a context that a signal ends")
					}
					e.Fork(
						flow.Alt{Result: ts.Nil(), Note: "all tasks end"},
						flow.Alt{Result: err, Note: "a task fails", Do: func(s *flow.State) { s.Assume(ts.IsNil(err), false) }})
					return
				}
				if s.R["sigctx"] == nil || !endsWith(s, e.Args[1], s.R["sigctx"]) {
					bad("services", "the services are run with a context that a signal does not end")
					return
				}
				if !endsWith(s, e.Args[1], task) {
					bad("services", "the services go on when the database has ended")
					return
				}
				innerOf[l] = s.D["task"]
				inners = append(inners, mySite())
				e.Fork(
					flow.Alt{Result: ts.Nil(), Note: "the services have stopped", Do: func(s *flow.State) { s.D["services"] = "ok" }},
					flow.Alt{Result: err, Note: "a service failed", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["services"] = "failed"
						s.R["serr"] = err
					}})
			case e.Callee != nil && e.Callee.Name() == "NewWriter" && inPkg(e.Callee, dataPkg):
				e.Handled = true
				w := in.Fresh(s, e, "w", e.Callee.Signature.Results().At(0).Type())
				s.Assume(ts.IsNil(w), false)
				e.Result = w
				if s.R["w"] != nil {
					bad("writer", "a second writer is made")
					return
				}
				s.R["w"] = w
			case e.Callee != nil && e.Callee.Name() == "NewDatabase" && inPkg(e.Callee, "registry"):
				e.Handled = true
				res := e.Callee.Signature.Results()
				db := in.Fresh(s, e, "db", res.At(0).Type())
				err := in.Fresh(s, e, "err", res.At(1).Type())
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", res, db, ts.Nil()), Do: func(s *flow.State) {
						s.Assume(ts.IsNil(db), false)
						s.R["db"] = db
					}},
					flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "the database cannot be made", Do: func(s *flow.State) { s.Assume(ts.IsNil(err), false) }})
			case e.Callee != nil && e.Callee.Name() == "New" && inPkg(e.Callee, "dump"):
				e.Handled = true
				d := in.Fresh(s, e, "dumper", e.Callee.Signature.Results().At(0).Type())
				s.Assume(ts.IsNil(d), false)
				e.Result = d
				if s.R["db"] == nil || !s.Refers(e.Args[0], s.R["db"]) {
					bad("writer", "the dumper is made for another database than the one of this run")
					return
				}
				s.R["dumper"] = d
			case strings.HasSuffix(e.Name, "listener.Listener).Run"):
				e.Handled = true
				e.Result = freshErr(in, s, e, "err")
				if task == nil || !endsWith(s, e.Args[1], task) {
					bad("services", "a listener is run with a context that does not end with the other services")
					return
				}
				if writer(); s.Dead() {
					return
				}
				listeners = append(listeners, mySite())
				s.D["ran"] = "1"
			case strings.HasSuffix(e.Name, "/dump.Dumper).Run"):
				e.Handled = true
				e.Result = freshErr(in, s, e, "err")
				if task == nil || !endsWith(s, e.Args[1], task) {
					bad("services", "the dumper is run with a context that does not end with the other services")
					return
				}
				if s.R["dumper"] == nil || !s.Same(e.Args[0], s.R["dumper"]) {
					bad("writer", "another dumper is run than the one for this database")
					return
				}
				if writer(); s.Dead() {
					return
				}
				dumpers = append(dumpers, mySite())
			case strings.HasSuffix(e.Name, "database.DB).Run"):
				e.Handled = true
				e.Result = freshErr(in, s, e, "err")
				if s.R["db"] == nil || !s.Same(e.Args[0], s.R["db"]) {
					bad("writer", "another database is run than the one dumped into")
					return
				}
				if task == nil || !endsWith(s, e.Args[1], task) || s.R["sigctx"] != nil && endsWith(s, e.Args[1], s.R["sigctx"]) {
					bad("alive", "the database does not run with the context of its task")
					return
				}
				dbs = append(dbs, mySite())
			case isDump(e.Instr):
				e.Handled = true
				if s.D["services"] == "" {
					bad("last", "the last dump is made before the listeners have stopped")
					return
				}
				if s.R["dumper"] == nil || !s.Same(e.Args[0], s.R["dumper"]) {
					bad("writer", "another dumper is used for the last dump")
					return
				}
				if writer(); s.Dead() {
					return
				}
				cx := arg("context.Context")
				if cx == nil {
					cx = e.Args[1]
				}
				if isCancelled(s, cx) || s.R["sigctx"] != nil && endsWith(s, cx, s.R["sigctx"]) {
					bad("alive", "the context of the last dump has ended when it is made")
					return
				}
				s.D["dumped"] = "1"
				lasts = append(lasts, mySite())
			}
		case "go":
			if b := e.Callee; b != nil && isDumpIn(b, isDump) {
				bad("last", "the last dump is made beside the task that should wait for it")
			}
		case "ret":
			if s.D["task"] == "" || e.Callee == nil || e.Callee.String() != s.D["taskfn"] {
				return
			}
			c.Count("task ends", 1)
			if s.D["services"] == "ok" && s.D["dumped"] == "" {
				bad("last", "the services have stopped and nothing is dumped")
				return
			}
			if s.D["services"] == "failed" && s.R["serr"] != nil && len(e.Args) > 0 && !carries(e.Args[0], s.R["serr"]) {
				bad("services", "the failure of a service is not reported")
				return
			}
			s.Kill()
		}
	}
	c.Explore(in, root, nil, nil)
	for what, ss := range map[string][]site{"runs the listeners": listeners, "runs the dumper": dumpers, "runs the database": dbs, "performs a last dump": lasts, "runs the services": inners} {
		if len(ss) == 0 {
			c.Fail("missing:"+what, at, "no task that %s was found", what)
		}
	}
	for _, s := range append(append([]site{}, listeners...), dumpers...) {
		if innerOf[s.in] == "" {
			c.Fail("services", s.at, "a service is not among those that have stopped before the last dump")
		}
	}
	for _, s := range dbs {
		if innerOf[s.in] != "" {
			c.Fail("alive", s.at, "the database stops together with the services, before the last dump")
			continue
		}
		for _, l := range lasts {
			if l.in != s.in {
				c.Fail("alive", l.at, "the last dump is not made beside the database")
			}
		}
	}
	p02dumper(c, isDump)
	p02server(c)
	p02services(c)
}

// clipTerm names a term.
func clipTerm(t *flow.Term) string {
	if t == nil {
		return "?"
	}
	return t.String()
}

func isDumpIn(f *ssa.Function, isDump func(ssa.Instruction) bool) bool {
	found := false
	eachOf(f, func(i ssa.Instruction) { found = found || isDump(i) })
	return found
}

// p02signal: a signal ends the context.
func p02signal(c *Ctx, f *ssa.Function) {
	ts := c.P.TS
	at := c.P.Pos(f.Pos())
	key := "signal:" + fname(f)
	c.Oblige(key, at, "a signal ends the context returned, and nothing is missed or left behind", true)
	xp := ctxArg(f)
	if xp == nil {
		c.Fail(key, at, "%s is given no context", fname(f))
		return
	}
	ctx0 := ts.Sym("arg:"+xp.Name()+":"+f.Name(), xp.Type())
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return flow.PkgOf(g) == flow.PkgOf(f) }
	in.GoInline = func(s *flow.State, e *flow.Event) bool { return s.D["go"] == "" }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		if ctxEvent(in, s, e) {
			return
		}
		inGo := s.D["go"] != ""
		switch e.Kind {
		case "make":
			if ch, ok := e.Typ.Underlying().(*types.Chan); ok && strings.HasSuffix(ch.Elem().String(), "os.Signal") && len(e.Args) > 0 {
				s.R["cap"] = e.Args[0]
			}
		case "call":
			switch e.Name {
			case "os/signal.Notify":
				e.Handled = true
				s.R["ch"] = e.Args[0]
				n := s.R["cap"]
				list := e.Args[len(e.Args)-1]
				if n == nil || !s.Le(ts.Int(1), n) && !s.EqInt(n, in.Len(list)) {
					bad("a signal that arrives early is missed")
					return
				}
				own := false
				for _, p := range f.Params {
					own = own || s.Same(list, ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type()))
				}
				if len(f.Params) > 1 && !own {
					bad("other signals are listened for than the ones asked for")
					return
				}
			case "os/signal.Stop":
				e.Handled = true
				if inGo {
					s.D["stopped"] = "1"
				} else {
					bad("signals are no longer listened for when it returns")
				}
			case "os/signal.Ignore", "os/signal.Reset":
				bad("the signals are not listened for any more")
			}
		case "go":
			if !inGo {
				if s.R["ch"] == nil {
					bad("the goroutine starts before signals are listened for")
					return
				}
				s.D["started"] = "1"
			}
		case "recv":
			if !inGo {
				bad("it waits before it returns")
				return
			}
			if cx := doneOf(e.Addr); cx != nil {
				s.R["ended"] = cx
				return
			}
			if s.R["ch"] != nil && e.Addr != nil && (s.Same(e.Addr, s.R["ch"]) || termHas(e.Addr, func(x *flow.Term) bool { return x == s.R["ch"] })) {
				s.D["signal"] = "1"
				return
			}
		case "exit":
			if inGo {
				c.Count("signal goroutine ends", 1)
				if s.D["signal"] != "" {
					ok := false
					for k, v := range s.D {
						ok = ok || strings.HasPrefix(k, "cancelled:") && v != ""
					}
					if !ok {
						bad("a signal is received and the context is not ended")
						return
					}
				} else if s.R["ended"] == nil {
					bad("the goroutine ends without a signal or the end of the context")
					return
				}
				if s.D["stopped"] == "" {
					bad("signals go on being taken after the context has ended")
				}
				return
			}
			if s.D["started"] == "" {
				bad("nobody waits for the signals")
				return
			}
			cx := e.Args[0]
			if ctxParent(cx) == nil || !endsWith(s, ctxParent(cx), ctx0) {
				bad("the context returned does not end with the one given")
				return
			}
			if len(e.Args) > 1 && cancels(e.Args[1]) != nil && !s.Same(cancels(e.Args[1]), cx) {
				bad("what is returned ends another context")
			}
		}
	}
	c.Explore(in, f, nil, nil)
	if c.Counts["signal goroutine ends"] == 0 {
		c.Fail(key, at, "no goroutine of %s waits for signals", fname(f))
	}
}

// p02dumper: the periodic dumps.
func p02dumper(c *Ctx, isDump func(ssa.Instruction) bool) {
	ts := c.P.TS
	n := 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		if !inPkg(f, "dump") || !taskSigLike(f) || f.Parent() != nil {
			continue
		}
		f := f
		n++
		at := c.P.Pos(f.Pos())
		c.Oblige("periodic", at, "every period a dump is made, to its end, until a stop is asked for", true)
		xp := ctxArg(f)
		ctx0 := ts.Sym("arg:"+xp.Name()+":"+f.Name(), xp.Type())
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return flow.PkgOf(g) == flow.PkgOf(f) && g.Name() != "Dump"
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, "periodic", e.Instr, format, a...)
				s.Kill()
			}
			if ctxEvent(in, s, e) {
				return
			}
			switch e.Kind {
			case "call":
				switch {
				case isDump(e.Instr):
					e.Handled = true
					if s.D["tick"] == "" {
						bad("a dump is made although no period has passed")
						return
					}
					if s.D["stop"] != "" {
						bad("a dump is made after the stop was asked for")
						return
					}
					if endsWith(s, e.Args[1], ctx0) {
						bad("a stop request cuts a dump short, and what it captured is lost")
						return
					}
					delete(s.D, "tick")
				case strings.HasPrefix(e.Name, "time.") || strings.HasPrefix(e.Name, "(*time.") || strings.HasPrefix(e.Name, flow.RepoPath+"/external"):
					e.Handled = true
				case e.Name == "(context.Context).Err" && s.Same(e.Args[0], ctx0):
					e.Handled = true
					err := freshErr(in, s, e, "ctxerr")
					e.Fork(
						flow.Alt{Result: ts.Nil(), Note: "no stop was asked for"},
						flow.Alt{Result: err, Note: "a stop was asked for", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["stop"] = "1"
						}})
				}
			case "go":
				if isDump(e.Instr) || e.Callee != nil && isDumpIn(e.Callee, isDump) {
					bad("a dump goes on beside the dumper, which does not wait for it")
				}
			case "recv":
				if s.D["tick"] != "" {
					bad("a period passes without a dump")
					return
				}
				if cx := doneOf(e.Addr); cx != nil {
					if s.Same(cx, ctx0) {
						s.D["stop"] = "1"
					}
					return
				}
				if e.Typ != nil && e.Typ.String() == "time.Time" {
					s.D["tick"] = "1"
				}
			case "exit":
				c.Count("dumper exits", 1)
				if s.D["stop"] == "" {
					bad("the dumper ends although no stop was asked for")
					return
				}
				if isNil, ok := s.IsNil(e.Args[0]); !ok || !isNil {
					bad("the dumper answers a stop request with an error, so that nothing more is dumped")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if n == 0 || c.Counts["dumper exits"] == 0 {
		c.Fail("anchor:dumper", "dump", "the dumper's loop was not found or never ends")
	}
}

// p02server: the server stops when asked to, without an error.
func p02server(c *Ctx) {
	ts := c.P.TS
	n := 0
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if !inPkg(f, "") || f.Parent() != nil || ctxArg(f) == nil {
			continue
		}
		direct := false
		for g := range c.reach(f) {
			if g == f || g.Parent() == f || calls(f, g) {
				eachOf(g, func(i ssa.Instruction) {
					if call, ok := i.(ssa.CallInstruction); ok && serves(calleeName(call.Common())) != "" {
						direct = true
					}
				})
			}
		}
		if !direct || errResult(f.Signature) < 0 || f.Signature.Results().Len() != 1 {
			continue
		}
		f := f
		n++
		at := c.P.Pos(f.Pos())
		c.Oblige("server", at, "the server is told to end when a stop is asked for, and does so without an error", true)
		xp := ctxArg(f)
		ctx0 := ts.Sym("arg:"+xp.Name()+":"+f.Name(), xp.Type())
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return flow.PkgOf(g) == flow.PkgOf(f) }
		in.GoInline = func(s *flow.State, e *flow.Event) bool { return s.D["go"] == "" }
		stops := false
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, "server", e.Instr, format, a...)
				s.Kill()
			}
			if ctxEvent(in, s, e) {
				return
			}
			inGo := s.D["go"] != ""
			switch e.Kind {
			case "call":
				switch {
				case serves(e.Name) != "":
					e.Handled = true
					if inGo {
						return
					}
					if s.D["watched"] == "" {
						bad("the server runs although nothing ends it when a stop is asked for")
						return
					}
					err := freshErr(in, s, e, "served")
					s.R["served"] = err
					e.Fork(
						flow.Alt{Result: in.ErrConst("net/http", "ErrServerClosed"), Note: "the server was told to end", Do: func(s *flow.State) { s.D["ended"] = "1" }},
						flow.Alt{Result: err, Note: "the server fails", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.Assume(ts.Eq(err, in.ErrConst("net/http", "ErrServerClosed"), err.T), false)
							s.D["failed"] = "1"
						}})
				case e.Name == "errors.Is":
					e.Handled = true
					e.Result = ts.Eq(e.Args[0], e.Args[1], e.Args[0].T)
				case inGo && (e.Name == "(*net/http.Server).Shutdown" || e.Name == "(*net/http.Server).Close"):
					e.Handled = true
					if s.R["stop"] == nil {
						bad("the server is ended although no stop was asked for")
						return
					}
					if e.Name == "(*net/http.Server).Shutdown" && (isCancelled(s, e.Args[1]) || endsWith(s, e.Args[1], s.R["stop"])) {
						bad("the server is given no time to end its requests")
						return
					}
					s.D["shut"] = "1"
				}
			case "recv":
				if inGo {
					if cx := doneOf(e.Addr); cx != nil && endsWith(s, cx, ctx0) {
						s.R["stop"] = cx
					}
				}
			case "go":
				if !inGo {
					s.D["watched"] = "1"
				}
			case "exit":
				if inGo {
					stops = stops || s.D["shut"] != ""
					if s.R["stop"] != nil && s.D["shut"] == "" {
						bad("a stop is asked for and the server is not told to end")
					}
					return
				}
				c.Count("server exits", 1)
				isNil, ok := s.IsNil(e.Args[0])
				if s.D["ended"] != "" && (!ok || !isNil) {
					bad("the server answers a stop request with an error, so that nothing more is dumped")
				}
				if s.D["failed"] != "" && (!ok || isNil) {
					bad("the server fails and no error is returned")
				}
			}
		}
		c.Explore(in, f, nil, nil)
		if !stops {
			c.Fail("server", at, "nothing ends the server when a stop is asked for")
		}
	}
	if n == 0 || c.Counts["server exits"] == 0 {
		c.Fail("anchor:server", "run.go", "nothing that serves until it is stopped was found")
	}
}

// p02services: a listener that is stopped has not failed.
func p02services(c *Ctx) {
	ts := c.P.TS
	for _, f := range sortFns(c.P.RepoFuncs()) {
		if !strings.HasPrefix(flow.PkgOf(f), flow.RepoPath+"/listener") || f.Parent() != nil || !taskSigLike(f) || f.Signature.Recv() == nil || f.Name() != "Run" {
			continue
		}
		f := f
		key := "stopped:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), "a stop request is not answered with an error", true)
		xp := ctxArg(f)
		ctx0 := ts.Sym("arg:"+xp.Name()+":"+f.Name(), xp.Type())
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return flow.PkgOf(g) == flow.PkgOf(f) && ctxArg(g) == nil
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if ctxEvent(in, s, e) {
				return
			}
			switch e.Kind {
			case "recv":
				if cx := doneOf(e.Addr); cx != nil && s.Same(cx, ctx0) {
					s.D["stop"] = "1"
				}
			case "exit":
				if s.D["stop"] == "" {
					return
				}
				c.Count("stopped listeners", 1)
				if isNil, ok := s.IsNil(e.Args[0]); !ok || !isNil {
					in.ReportAt(s, key, e.Instr, "the listener answers a stop request with an error, so that nothing more is dumped")
				}
			}
		}
		c.Explore(in, f, nil, nil)
		if c.Counts["stopped listeners"] == 0 {
			c.Fail(key, c.P.Pos(f.Pos()), "the listener does not end when a stop is asked for")
		}
	}
}
