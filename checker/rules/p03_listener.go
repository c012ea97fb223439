package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P03", Technique: "typestate of listener, connections, goroutines and contexts over inlined SSA, goroutine bodies followed as paths of their own, with interval analysis of every access while a line is parsed",
		Explain: "The listener is closed and everything started for it has ended before it returns, and it returns only when asked to stop or with the error that ended it; after an accept error nothing more is accepted and that error is returned; every accepted connection is handed to a counted goroutine with a context that is cancelled before it is waited for; a connection is closed when its context ends or its input does, its reading ends only with its input, and a line that can be parsed is recorded.",
		Min:     9,
		Run:     runP03,
	})
}

const (
	netAccept = "(net.Listener).Accept"
	lisClose  = "(net.Listener).Close"
	connClose = "(net.Conn).Close"
)

func runP03(c *Ctx) {
	isAccept := func(i ssa.Instruction) bool { return isCallTo(i, netAccept) }
	isListen := func(i ssa.Instruction) bool {
		return isCallTo(i, "net.Listen", "(*net.ListenConfig).Listen", "net.ListenTCP")
	}
	acceptors, listeners, conns := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.P.AllRepoFuncs() {
		if !strings.HasPrefix(flow.PkgOf(f), flow.RepoPath+"/listener") {
			continue
		}
		eachOf(f, func(i ssa.Instruction) {
			acceptors[f] = acceptors[f] || isAccept(i)
			listeners[f] = listeners[f] || isListen(i)
			if call, ok := i.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(call.Common()), "bufio.New") {
				conns[f] = true
			}
		})
	}
	pick := func(m map[*ssa.Function]bool) []*ssa.Function {
		var out []*ssa.Function
		for f, ok := range m {
			if ok {
				out = append(out, f)
			}
		}
		return sortFns(out)
	}
	as, ls, hs := pick(acceptors), pick(listeners), pick(conns)
	// a connection is handled where one is given; a helper that only reads is
	// part of it
	var handlers []*ssa.Function
	for _, h := range hs {
		f := h
		for n := 0; n < 4; n++ {
			if connParam(f) != nil && ctxArg(f) != nil {
				break
			}
			for _, g := range c.P.AllRepoFuncs() {
				if flow.PkgOf(g) == flow.PkgOf(f) && calls(g, f) && !acceptors[g] {
					f = g
					break
				}
			}
		}
		// the tests of this package call it by name
		for _, g := range c.P.AllRepoFuncs() {
			if flow.PkgOf(g) == flow.PkgOf(f) && g.Name() == "handleConn" && connParam(g) != nil && c.reach(g)[h] {
				f = g
			}
		}
		handlers = append(handlers, f)
	}
	c.Count("listeners", len(ls))
	c.Count("accept loops", len(as))
	c.Count("connection handlers", len(handlers))
	if len(as) == 0 || len(ls) == 0 || len(handlers) == 0 {
		c.Fail("anchor:listener", "listener", "no listener, accept loop or connection handler was found")
		return
	}
	isH := map[*ssa.Function]bool{}
	for _, h := range handlers {
		isH[h] = true
	}
	for _, f := range ls {
		p03listen(c, f, acceptors)
	}
	for _, f := range as {
		p03accept(c, f, isH)
	}
	for _, f := range handlers {
		p03conn(c, f)
	}
}

func connParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if p.Type().String() == "net.Conn" {
			return p
		}
	}
	return nil
}

func ctxArg(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if isCtx(p.Type()) {
			return p
		}
	}
	return nil
}

// p03listen: the function that listens.
func p03listen(c *Ctx, f *ssa.Function, acceptors map[*ssa.Function]bool) {
	ts := c.P.TS
	at := c.P.Pos(f.Pos())
	c.Oblige("listener", at, "the listener is closed and what accepts on it has ended before it returns", true)
	c.Oblige("stop", at, "it returns when asked to stop, and otherwise only with the error that ended it", true)
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return flow.PkgOf(g) == flow.PkgOf(f) && !acceptors[g]
	}
	in.GoInline = func(s *flow.State, e *flow.Event) bool {
		return s.D["go"] == "" && e.Callee != nil && !acceptors[e.Callee]
	}
	var ctx0 *flow.Term
	if p := ctxArg(f); p != nil {
		ctx0 = ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		if ctxEvent(in, s, e) {
			return
		}
		inGo := s.D["go"] != ""
		ended := func() { s.D["ended"] = "1" }
		accept := func() bool { // a call of what accepts, and how it ended
			if e.Callee == nil || !acceptors[e.Callee] {
				return false
			}
			if s.R["lis"] == nil {
				bad("listener", "connections are accepted without listening")
				return true
			}
			e.Handled = true
			s.D["accepted"] = "1"
			if n := errResult(e.Callee.Signature); n >= 0 && e.Callee.Signature.Results().Len() == 1 {
				s.R["aerr"] = in.Fresh(s, e, "accept", e.Callee.Signature.Results().At(n).Type())
				e.Result = s.R["aerr"]
			}
			return true
		}
		switch e.Kind {
		case "call":
			switch {
			case isCallTo(e.Instr, "net.Listen", "(*net.ListenConfig).Listen", "net.ListenTCP"):
				res := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
				lis := in.Fresh(s, e, "lis", res.At(0).Type())
				err := in.Fresh(s, e, "err", res.At(1).Type())
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", res, lis, ts.Nil()), Note: "listening", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(lis), false)
						s.R["lis"] = lis
					}},
					flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "cannot listen", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["failed"] = "1"
					}})
			case accept():
				if !inGo {
					ended()
				}
			case e.Name == lisClose && s.R["lis"] != nil && s.Same(e.Args[0], s.R["lis"]):
				e.Handled = true
				res := in.Fresh(s, e, "closed", types.Universe.Lookup("error").Type())
				e.Result = res
				s.D["closed"] = "1"
			case e.Name == wgAdd:
				e.Handled = true
				s.D["added"] = "1"
			case e.Name == wgDone:
				e.Handled = true
				if !inGo || s.D["accepted"] == "" {
					bad("listener", "what accepts is said to have ended before it has")
					return
				}
				s.D["done"] = "1"
			case e.Name == wgWait && !inGo:
				e.Handled = true
				if s.D["running"] == "" || s.D["counted"] == "" {
					return
				}
				if s.D["closed"] == "" && s.D["ended"] == "" {
					bad("stop", "what accepts is waited for while it can go on accepting")
					return
				}
				if s.D["ended"] == "" && s.D["unbuffered"] != "" {
					bad("stop", "what accepts is waited for although nobody takes its result")
					return
				}
				ended()
			}
		case "make":
			if ch, ok := e.Typ.Underlying().(*types.Chan); ok && ch.Elem().String() == "error" {
				if len(e.Args) == 0 || !s.Le(ts.Int(1), e.Args[0]) {
					s.D["unbuffered"] = "1"
				}
			}
		case "go":
			if inGo {
				return
			}
			if s.R["lis"] == nil {
				bad("listener", "something is started before the listener exists")
				return
			}
			s.D["running"] = "1"
			if s.D["added"] != "" {
				s.D["counted"] = "1"
			}
		case "send":
			if inGo && e.Typ == nil && s.D["accepted"] != "" {
				if s.R["aerr"] != nil && e.Val != nil && !s.Same(e.Val, s.R["aerr"]) && !carries(e.Val, s.R["aerr"]) {
					bad("stop", "the error that ended accepting is not the one reported")
					return
				}
				s.D["sent"] = "1"
			}
		case "recv":
			if cx := doneOf(e.Addr); cx != nil {
				if ctx0 != nil && s.Same(cx, ctx0) && !inGo {
					s.D["stop"] = "1"
				}
				return
			}
			if e.Typ != nil && e.Typ.String() == "error" && !inGo && s.D["running"] != "" {
				err := in.Fresh(s, e, "aerr", e.Typ)
				s.R["aerr"] = err
				e.Result = err
				ended()
			}
		case "exit":
			if inGo {
				if s.D["accepted"] == "" {
					return
				}
				if s.D["sent"] == "" && s.D["done"] == "" {
					bad("listener", "nobody is told when accepting ends")
				}
				return
			}
			c.Count("listener exits", 1)
			res := e.Args[len(e.Args)-1]
			isNil, known := s.IsNil(res)
			if s.D["failed"] != "" {
				if !known || isNil {
					bad("stop", "it returns without an error although it could not listen")
				}
				return
			}
			if s.D["closed"] == "" {
				bad("listener", "it returns without closing the listener")
				return
			}
			if s.D["running"] != "" && s.D["ended"] == "" {
				bad("listener", "it returns while connections may still be accepted or used")
				return
			}
			if s.D["stop"] != "" {
				return
			}
			if s.R["aerr"] == nil {
				bad("stop", "it returns although it was not asked to stop and nothing failed")
				return
			}
			if !s.Same(res, s.R["aerr"]) && !carries(res, s.R["aerr"]) {
				bad("stop", "the error that ended accepting is not returned")
			}
		}
	}
	c.Explore(in, f, nil, nil)
	if c.Counts["listener exits"] == 0 {
		c.Fail("exits:none", at, "no path through %s completes", fname(f))
	}
}

// p03accept: the loop that accepts, for one arbitrary connection.
func p03accept(c *Ctx, f *ssa.Function, isH map[*ssa.Function]bool) {
	ts := c.P.TS
	at := c.P.Pos(f.Pos())
	c.Oblige("accept", at, "after an accept error nothing more is accepted, and it is returned", true)
	c.Oblige("handed", at, "every accepted connection is handed to a goroutine of its own that is counted", true)
	c.Oblige("wait", at, "connections are told to end, and waited for, before the loop returns", true)
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return flow.PkgOf(g) == flow.PkgOf(f) && !isH[g]
	}
	in.GoInline = func(s *flow.State, e *flow.Event) bool { return s.D["go"] == "" && e.Callee != nil && !isH[e.Callee] }
	var ctx0 *flow.Term
	if p := ctxArg(f); p != nil {
		ctx0 = ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		if ctxEvent(in, s, e) {
			return
		}
		inGo := s.D["go"] != ""
		handle := func() bool { // a call of, or a goroutine running, the handler
			if e.Callee == nil || !isH[e.Callee] {
				return false
			}
			e.Handled = true
			if n := errResult(e.Callee.Signature); n >= 0 && e.Kind == "call" && e.Callee.Signature.Results().Len() == 1 {
				e.Result = in.Fresh(s, e, "handled", e.Callee.Signature.Results().At(n).Type())
			}
			var conn, cx *flow.Term
			for i, p := range e.Callee.Params {
				if p.Type().String() == "net.Conn" && i < len(e.Args) {
					conn = e.Args[i]
				}
				if isCtx(p.Type()) && i < len(e.Args) {
					cx = e.Args[i]
				}
			}
			if s.R["conn"] == nil || conn == nil || !s.Same(conn, s.R["conn"]) {
				bad("handed", "another connection is handled than the one just accepted")
				return true
			}
			if cx == nil || ctx0 != nil && !endsWith(s, cx, ctx0) {
				bad("wait", "a connection is handled with a context that does not end when the listener is stopped")
				return true
			}
			s.R["cx"] = cx
			s.D["handled"] = "1"
			return true
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Name == netAccept:
				if inGo {
					bad("handed", "a goroutine of a connection accepts others")
					return
				}
				if s.D["failed"] != "" {
					bad("accept", "it goes on accepting after an accept error")
					return
				}
				if s.D["conn"] == "open" {
					bad("handed", "an accepted connection is neither handled nor closed before the next one is accepted")
					return
				}
				res := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
				conn := in.Fresh(s, e, "conn", res.At(0).Type())
				err := in.Fresh(s, e, "err", res.At(1).Type())
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", res, conn, ts.Nil()), Note: "a connection is accepted", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(conn), false)
						s.R["conn"] = conn
						s.D["conn"] = "open"
						delete(s.D, "added")
					}},
					flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "accepting fails", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["failed"] = "1"
						s.R["err"] = err
						delete(s.R, "conn")
					}})
			case handle():
				if !inGo && !s.Dead() {
					bad("handed", "a connection is handled while no others can be accepted")
				}
			case e.Name == lisClose:
				if inGo || s.D["failed"] == "" {
					bad("accept", "the listener is closed although nobody asked for it and accepting did not fail")
				}
			case e.Name == connClose:
				e.Handled = true
				e.Result = in.Fresh(s, e, "closed", types.Universe.Lookup("error").Type())
				if !inGo {
					delete(s.D, "conn")
				}
			case e.Name == wgAdd:
				e.Handled = true
				s.D["added"] = "1"
			case e.Name == wgDone:
				e.Handled = true
				if !inGo || s.D["handled"] == "" || s.D["done"] != "" {
					bad("wait", "a connection is said to have ended before it has, or twice")
					return
				}
				s.D["done"] = "1"
			case e.Name == wgWait && !inGo:
				e.Handled = true
				if s.D["spawned"] != "" {
					cx := s.R["hctx"]
					if cx == nil || !isCancelled(s, cx) {
						bad("wait", "connections are waited for without having been told to end")
						return
					}
				}
				s.D["waited"] = "1"
			}
		case "go":
			if inGo {
				return
			}
			if s.D["conn"] != "open" {
				return
			}
			if s.D["added"] == "" {
				bad("handed", "a connection is handled by a goroutine that is not counted")
				return
			}
			if e.Callee != nil && isH[e.Callee] {
				bad("wait", "nobody is told when the handling of a connection ends")
				return
			}
			delete(s.D, "added")
			delete(s.D, "waited")
			s.D["conn"] = "handled"
			s.D["spawned"] = "1"
			// the context handlers get: the innermost one the goroutine can see
			s.R["hctx"] = p03ctx(in, s, e)
		case "exit":
			if inGo {
				c.Count("connection goroutines", 1)
				if s.D["handled"] == "" {
					bad("handed", "the goroutine of a connection does not handle it")
				} else if s.D["done"] == "" {
					bad("wait", "nobody is told when the handling of a connection ends")
				} else if h := s.R["cx"]; h != nil && s.R["hctx"] != nil && !s.Same(h, s.R["hctx"]) && !endsWith(s, h, s.R["hctx"]) {
					bad("wait", "a connection is handled with a context that is not cancelled before it is waited for")
				}
				return
			}
			c.Count("accept exits", 1)
			if s.D["conn"] == "open" {
				bad("handed", "the loop ends with a connection that is neither handled nor closed")
				return
			}
			if s.D["spawned"] != "" && s.D["waited"] == "" {
				bad("wait", "the loop ends without waiting for its connections")
				return
			}
			if s.D["failed"] == "" {
				bad("accept", "the loop ends although accepting did not fail")
				return
			}
			n := errResult(f.Signature)
			if n < 0 || n >= len(e.Args) {
				return
			}
			if r := e.Args[n]; s.R["err"] == nil || !s.Same(r, s.R["err"]) && !carries(r, s.R["err"]) {
				bad("accept", "the accept error is not returned")
			}
		}
	}
	c.Explore(in, f, nil, nil)
	if c.Counts["accept exits"] == 0 || c.Counts["connection goroutines"] == 0 {
		c.Fail("accept:none", at, "no path through %s and the goroutines it starts completes", fname(f))
	}
}

// p03ctx is the context a goroutine is given, directly or as a captured variable.
func p03ctx(in *flow.Interp, s *flow.State, e *flow.Event) *flow.Term {
	var out *flow.Term
	see := func(t *flow.Term) {
		if t == nil {
			return
		}
		if t.T != nil && isCtx(t.T) {
			out = t
			if t.Op == "alloc" { // a variable
				out = s.Load(t, t.T, "rule.ctx")
			}
			return
		}
		if t.T != nil {
			if p, ok := t.T.Underlying().(*types.Pointer); ok && isCtx(p.Elem()) {
				out = s.Load(t, p.Elem(), "rule.ctx")
			}
		}
	}
	for _, a := range e.Args {
		see(a)
	}
	if e.FnVal != nil {
		for _, a := range e.FnVal.Args {
			see(a)
		}
	}
	return out
}

// p03conn: the handling of one connection.
func p03conn(c *Ctx, f *ssa.Function) {
	ts := c.P.TS
	at := c.P.Pos(f.Pos())
	c.Oblige("closed", at, "the connection is closed when its context or its input ends, before the handler returns", true)
	c.Oblige("ends", at, "what waits for the context ends before the handler returns", true)
	c.Oblige("reading", at, "a connection is read until its input ends, whatever its lines are", true)
	c.Oblige("recorded", at, "a line that can be parsed is recorded, once", true)
	c.Oblige("bounds", at, "no line makes the parser look outside of what it split", true)
	cp, xp := connParam(f), ctxArg(f)
	if cp == nil || xp == nil {
		c.Fail("anchor:conn", at, "%s is given no connection and context", fname(f))
		return
	}
	conn := ts.Sym("arg:"+cp.Name()+":"+f.Name(), cp.Type())
	ctx0 := ts.Sym("arg:"+xp.Name()+":"+f.Name(), xp.Type())
	isConn := func(s *flow.State, x *flow.Term) bool { return s.Same(x, conn) }
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return flow.PkgOf(g) == flow.PkgOf(f)
	}
	in.GoInline = func(s *flow.State, e *flow.Event) bool { return s.D["go"] == "" }
	// first what the goroutines it starts do
	type body struct{ closes, waits, done bool }
	bodies := map[ssa.Instruction]*body{}
	reading := false
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			if reading {
				in.ReportAt(s, key, e.Instr, format, a...)
			}
			s.Kill()
		}
		if ctxEvent(in, s, e) {
			return
		}
		inGo := s.D["go"] != ""
		line := func() { // the line read last is over
			switch s.D["line"] {
			case "parsed":
				bad("recorded", "a line that was parsed is not recorded")
			case "read":
				if n := s.R["fields"]; n != nil && s.D["unparsed"] == "" && !s.Must(ts.Not(ts.Eq(n, ts.Int(3), types.Typ[types.Int]))) {
					bad("recorded", "a line with a name, a value and a time is not parsed")
				} else if n == nil && s.D["unparsed"] == "" {
					bad("recorded", "a line is passed over without having been looked at")
				}
			}
			s.D["line"] = ""
			delete(s.D, "unparsed")
			delete(s.R, "fields")
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Name == connClose && isConn(s, e.Args[0]):
				e.Handled = true
				e.Result = in.Fresh(s, e, "closed", types.Universe.Lookup("error").Type())
				if inGo {
					if s.D["gowaits"] == "" {
						bad("closed", "the connection is closed although its context has not ended")
						return
					}
					s.D["gocloses"] = "1"
				} else {
					s.D["closed"] = "1"
				}
			case e.Name == "(net.Conn).RemoteAddr" || e.Name == "(net.Conn).LocalAddr" || e.Name == "(net.Addr).String":
				e.Handled = true
				e.Result = in.Fresh(s, e, "addr", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
			case e.Name == wgAdd:
				e.Handled = true
				s.D["added"] = "1"
			case e.Name == wgDone:
				e.Handled = true
				if inGo {
					if s.D["gowaits"] == "" {
						bad("ends", "what waits for the context is said to have ended before it has")
						return
					}
					s.D["godone"] = "1"
				}
			case e.Name == wgWait && !inGo:
				e.Handled = true
				if s.R["waitctx"] != nil {
					if !isCancelled(s, s.R["waitctx"]) {
						bad("ends", "what waits for the context is waited for although the context may never end")
						return
					}
					if s.D["closer"] == "counted" {
						s.D["closed"] = "1"
					}
				}
			case e.Name == "(*bufio.Scanner).Scan":
				if inGo {
					return
				}
				if reading && s.D["closer"] == "" {
					bad("closed", "the connection is read although nothing closes it when its context ends")
					return
				}
				if s.D["eof"] != "" {
					bad("reading", "reading goes on after the input ended")
					return
				}
				line()
				if s.Dead() {
					return
				}
				e.Fork(
					flow.Alt{Result: ts.Bool(true), Note: "a line is read", Do: func(s *flow.State) { s.D["line"] = "read" }},
					flow.Alt{Result: ts.Bool(false), Note: "the input has ended", Do: func(s *flow.State) { s.D["eof"] = "1" }})
				e.Handled = true
			case e.Name == "(*bufio.Scanner).Bytes" || e.Name == "(*bufio.Scanner).Text" || e.Name == "(*bufio.Scanner).Err":
				e.Handled = true
				e.Result = in.Fresh(s, e, "scanned", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
			case e.Name == "bytes.Split" || e.Name == "strings.Split" || e.Name == "bytes.Fields" || e.Name == "strings.Fields" || e.Name == "bytes.SplitN" || e.Name == "strings.SplitN":
				e.Handled = true
				e.Result = in.Fresh(s, e, "split", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				s.R["fields"] = in.Len(e.Result)
			case e.Name == "strconv.ParseFloat":
				e.Handled = true
				res := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
				v := in.Fresh(s, e, "value", res.At(0).Type())
				err := in.Fresh(s, e, "err", res.At(1).Type())
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", res, v, ts.Nil()), Note: "the value is a number", Do: func(s *flow.State) {
						if s.D["line"] == "read" {
							s.D["line"] = "parsed"
						}
						s.R["value"] = v
					}},
					flow.Alt{Result: ts.Mk("tuple", "", res, v, err), Note: "the value is not a number", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["unparsed"] = "1"
					}})
			case e.Callee != nil && e.Callee.Name() == "Add" && inPkg(e.Callee, dataPkg):
				e.Handled = true
				if inGo {
					return
				}
				if s.D["line"] != "parsed" {
					bad("recorded", "something is recorded that is not a parsed line, or a line is recorded twice")
					return
				}
				same := false
				for _, a := range e.Args {
					same = same || s.R["value"] != nil && s.Same(a, s.R["value"])
				}
				if !same {
					bad("recorded", "another value is recorded than the one parsed")
					return
				}
				s.D["line"] = "recorded"
			case strings.HasSuffix(e.Name, ".SetReadDeadline") || strings.HasSuffix(e.Name, ".SetDeadline"):
				bad("reading", "the time the connection is read is limited")
			case strings.HasPrefix(e.Name, "(net.Conn).") || strings.HasPrefix(e.Name, "bufio."):
				e.Handled = true
				res := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
				if res.Len() == 1 {
					e.Result = in.Fresh(s, e, "conn", res.At(0).Type())
				}
			case strings.HasPrefix(e.Name, "(*bufio.Reader).Read"):
				bad("reading", "the connection is read in a way that is not followed")
			}
		case "index":
			if inGo || s.D["line"] == "" {
				return
			}
			if _, ok := e.Args[0].T.Underlying().(*types.Slice); !ok {
				return
			}
			if !s.Le(ts.Int(0), e.Args[1]) || !s.Lt(e.Args[1], in.Len(e.Args[0])) {
				bad("bounds", "the parser may look outside of what it split")
			}
		case "slice":
			if inGo || s.D["line"] == "" || len(e.Args) < 3 {
				return
			}
			lo, hi := e.Args[1], e.Args[2]
			if lo == nil {
				lo = ts.Int(0)
			}
			if hi == nil {
				hi = in.Len(e.Args[0])
			}
			if e.Args[0].T != nil {
				if _, ptr := e.Args[0].T.Underlying().(*types.Pointer); ptr {
					return
				}
			}
			if !s.Le(ts.Int(0), lo) || !s.Le(lo, hi) || !s.Le(hi, in.Cap(e.Args[0])) && !s.Le(hi, in.Len(e.Args[0])) {
				bad("bounds", "the parser may look outside of the line")
			}
		case "panic":
			bad("reading", "a line can stop the program")
		case "go":
			if inGo {
				return
			}
			b := bodies[e.Instr]
			if b == nil {
				return
			}
			if b.closes {
				s.D["closer"] = "free"
				if b.done && s.D["added"] != "" {
					s.D["closer"] = "counted"
				}
			}
			if b.waits {
				s.R["waitctx"] = p03ctx(in, s, e)
			}
		case "recv":
			if inGo {
				if cx := doneOf(e.Addr); cx != nil {
					if !endsWith(s, cx, ctx0) {
						bad("closed", "what closes the connection waits for a context that does not end when the listener is stopped")
						return
					}
					s.D["gowaits"] = "1"
				}
			}
		case "exit":
			if inGo {
				if reading {
					return
				}
				var key ssa.Instruction
				for i, b := range bodies {
					_ = b
					if g, ok := i.(*ssa.Go); ok {
						if fn := g.Common().StaticCallee(); fn != nil && fn.Name() == s.D["go"] {
							key = i
						}
						if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok && mc.Fn.Name() == s.D["go"] {
							key = i
						}
					}
				}
				if key == nil {
					return
				}
				b := bodies[key]
				b.closes = b.closes && s.D["gocloses"] != ""
				b.waits = b.waits || s.D["gowaits"] != ""
				b.done = b.done && s.D["godone"] != ""
				return
			}
			if !reading {
				return
			}
			c.Count("handler exits", 1)
			line()
			if s.Dead() {
				return
			}
			if s.D["eof"] == "" {
				bad("reading", "the handler ends although the input has not")
				return
			}
			if s.D["closed"] == "" {
				bad("closed", "the handler returns without the connection having been closed")
				return
			}
			if cx := s.R["waitctx"]; cx != nil && !isCancelled(s, cx) {
				bad("ends", "what waits for the context outlives the handler")
			}
		}
	}
	for g := range c.reach(f) {
		eachOf(g, func(i ssa.Instruction) {
			if x, ok := i.(*ssa.Go); ok {
				bodies[x] = &body{closes: true, done: true}
			}
		})
	}
	c.Explore(in, f, nil, nil)
	reading = true
	c.Explore(in, f, nil, nil)
	if c.Counts["handler exits"] == 0 {
		c.Fail("conn:none", at, "no path through %s completes", fname(f))
	}
}

// reach are the functions of its package a function may run.
func (c *Ctx) reach(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if out[g] || flow.PkgOf(g) != flow.PkgOf(f) {
			return
		}
		out[g] = true
		for _, a := range g.AnonFuncs {
			walk(a)
		}
		eachOf(g, func(i ssa.Instruction) {
			if call, ok := i.(ssa.CallInstruction); ok {
				if h := call.Common().StaticCallee(); h != nil {
					walk(h)
				}
			}
		})
	}
	walk(f)
	return out
}
