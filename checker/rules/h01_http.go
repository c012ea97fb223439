package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID:        "H01",
		Technique: "path-sensitive typestate dataflow over the HTTP handler (abstract interpretation of SSA)",
		Explain:   "The handler is abstractly interpreted on a server built by its constructor. Wherever the database, the static handler, or a response body is reached, the path must have established that no credentials are configured, or that both the user name and the password taken from the request's basic auth were compared in full with the configured ones and matched. A path whose comparison failed must end in a 401.",
		Assume:    []string{"subtle.ConstantTimeCompare, bytes.Equal and hmac.Equal compare their whole arguments", "net/http.Request.BasicAuth returns the presented credentials"},
		Min:       4,
		Run:       func(c *Ctx) { runHTTP(c, "H01") },
	})
	register(&Rule{
		ID:        "H02",
		Technique: "path-sensitive typestate dataflow over the HTTP handler (abstract interpretation of SSA)",
		Explain:   "On every path through the handler: work happens only when the method is GET; the configured origin is set on the response before anything is written; a database, encoding or merge failure that happens before the response started ends in a 5xx status; a request error ends in the 4xx status of its class; an error status is never sent without an error.",
		Assume:    []string{"errdata.Get returns the value registered for a class in the error's chain"},
		Min:       5,
		Run: func(c *Ctx) {
			runHTTP(c, "H02")
			// A page that failed is an error before it is a response.
			c.Include("H08", func(key, where, msg string) bool {
				return key == "whole" || key == "missing" || key == "load"
			})
		},
	})
}

// httpServer finds the handler type of the API package and its constructor.
func httpServer(c *Ctx) (serve, ctor *ssa.Function) {
	sp := c.P.Pkg("api")
	if sp == nil {
		c.Fail("anchor:api", "api", "package api not found")
		return nil, nil
	}
	for _, f := range sortFns(append([]*ssa.Function(nil), c.P.RepoFuncs()...)) {
		if !inPkg(f, "api") || f.Parent() != nil {
			continue
		}
		if f.Name() == "ServeHTTP" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 2 && f.Synthetic == "" {
			serve = f
		}
	}
	if serve == nil {
		c.Fail("anchor:ServeHTTP", "api", "no HTTP handler found in package api")
		return nil, nil
	}
	recv := serve.Signature.Recv().Type()
	for _, f := range sortFns(append([]*ssa.Function(nil), c.P.RepoFuncs()...)) {
		if inPkg(f, "api") && f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && types.Identical(f.Signature.Results().At(0).Type(), recv) {
			if ctor == nil || f.Object() != nil && f.Object().Exported() {
				ctor = f
			}
		}
	}
	if ctor == nil {
		c.Fail("anchor:constructor", "api", "no constructor of the HTTP handler found")
	}
	return serve, ctor
}

// classCodes reads the status registered for each error class.
func classCodes(c *Ctx) map[string]int64 {
	out := map[string]int64{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		if !isCallTo(i, "github.com/zeebo/errs/errdata.Set") {
			return
		}
		a := i.(ssa.CallInstruction).Common().Args
		g, ok := a[0].(*ssa.Global)
		mi, ok2 := a[2].(*ssa.MakeInterface)
		if !ok || !ok2 {
			return
		}
		if k, ok := mi.X.(*ssa.Const); ok && k.Value != nil {
			out[g.String()] = k.Int64()
		}
	})
	return out
}

func errClass(t *flow.Term, codes map[string]int64) (int64, bool) {
	for t != nil {
		switch t.Op {
		case "wrap":
			if n, ok := codes[t.Name]; ok {
				return n, true
			}
			t = t.Args[0]
		case "newerr":
			if len(t.Args) > 0 {
				if n, ok := codes[t.Args[0].Name]; ok {
					return n, true
				}
			}
			return 0, false
		default:
			return 0, false
		}
	}
	return 0, false
}

func runHTTP(c *Ctx, id string) { exploreHTTP(c, id, nil) }

// exploreHTTP interprets the handler; extra, if set, replaces the rule's hook
// for everything but the authentication.
func exploreHTTP(c *Ctx, id string, extra flow.Hook) {
	serve, ctor := httpServer(c)
	if serve == nil || ctor == nil {
		return
	}
	codes := classCodes(c)
	c.Count("error classes with a status", len(codes))

	// the options the constructor is given, and what it stores
	recvT := serve.Signature.Recv().Type()
	ts := c.P.TS
	type ctorExit struct {
		stored map[*types.Var]*flow.Term
		known  map[*flow.Term]bool
	}
	var exits []ctorExit
	var user, pass, origin *flow.Term
	var syms, strs []*flow.Term
	var args []*flow.Term
	for _, p := range ctor.Params {
		t := ts.Sym("conf:"+p.Name(), p.Type())
		syms = append(syms, t)
		args = append(args, t)
		st, ok := p.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := ts.Field(t, i, st)
			switch st.Field(i).Name() {
			case "Username":
				user = ft
			case "Password":
				pass = ft
			case "Origin":
				origin = ft
			}
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				strs = append(strs, ts.Eq(ft, ts.Str(""), ft.T))
			}
		}
	}
	if !c.Oblige("anchor:options", c.P.Pos(ctor.Pos()), "the constructor takes options with a Username, a Password and an Origin", user != nil && pass != nil && origin != nil) {
		return
	}
	{
		in := flow.NewInterp(c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "exit" && len(e.Args) > 0 {
				ex := ctorExit{map[*types.Var]*flow.Term{}, map[*flow.Term]bool{}}
				for _, v := range fields(recvT) {
					ex.stored[v] = s.Load(in.TS.FieldAddr(e.Args[0], v), v.Type(), "ctor")
				}
				for _, q := range strs {
					if v, ok := s.Decide(q); ok {
						ex.known[q] = v
					}
				}
				exits = append(exits, ex)
			}
		})
		in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool { return inPkg(fn, "api") }
		c.Explore(in, ctor, args, nil)
	}
	c.Oblige("constructor", c.P.Pos(ctor.Pos()), "the constructor returns on some path", len(exits) > 0)

	w := ts.Sym("http:w", serve.Params[1].Type())
	req := ts.Sym("http:req", serve.Params[2].Type())
	recv := ts.Sym("http:server", recvT)
	mfld := field(serve.Params[2].Type(), "Method")
	method := ts.Mk("load", "", mfld.Type(), ts.FieldAddr(req, mfld))
	sinks, writes, failing := map[string]bool{}, map[string]bool{}, map[string]bool{}

	noCreds := func(s *flow.State) bool {
		return s.Must(ts.Eq(user, ts.Str(""), user.T)) && s.Must(ts.Eq(pass, ts.Str(""), pass.T))
	}
	authOK := func(in *flow.Interp, s *flow.State) bool {
		if noCreds(s) {
			return true
		}
		for k, conf := range []*flow.Term{user, pass} {
			if s.D[fmt.Sprintf("cmp%d", k)] == "ok" {
				continue
			}
			p := s.R[fmt.Sprintf("ba%d", k)]
			if p == nil || !s.Must(ts.Eq(p, conf, conf.T)) {
				return false
			}
		}
		return true
	}
	// resolve replaces a slice of a whole array by the array
	var resolve func(s *flow.State, t *flow.Term) *flow.Term
	resolve = func(s *flow.State, t *flow.Term) *flow.Term {
		if t == nil {
			return nil
		}
		if t.Op == "slice" && t.Args[0].T != nil {
			at, ok := t.Args[0].T.Underlying().(*types.Array)
			if pt, isP := t.Args[0].T.Underlying().(*types.Pointer); isP {
				at, ok = pt.Elem().Underlying().(*types.Array)
			}
			if ok {
				lo, ok1 := t.Args[1].IntVal()
				hi, ok2 := t.Args[2].IntVal()
				if ok1 && ok2 && lo == 0 && hi == at.Len() {
					return resolve(s, s.Load(t.Args[0], at, "arr"))
				}
			}
		}
		return t
	}
	// peel takes the digests and conversions off a value
	peel := func(s *flow.State, t *flow.Term) (string, *flow.Term) {
		chain := ""
		for {
			t = resolve(s, t)
			switch {
			case t == nil:
				return chain, t
			case t.Op == "conv" && isStringLike(t.T):
				t = t.Args[0]
			case t.Op == "append" && (t.Args[0].Op == "nil" || s.EqInt(s.Interp().Len(t.Args[0]), ts.Int(0))):
				t = t.Args[1] // a copy of it
			case (t.Op == "pure" || t.Op == "call") && strings.HasPrefix(t.Name, "crypto/") && len(t.Args) == 1:
				n := t.Name
				if i := strings.IndexByte(n, '@'); i >= 0 {
					n = n[:i]
				}
				chain += n + "/"
				t = t.Args[0]
			default:
				return chain, t
			}
		}
	}
	compare := func(in *flow.Interp, s *flow.State, e *flow.Event, a, b *flow.Term, one, zero *flow.Term) bool {
		ca, ta := peel(s, a)
		cb, tb := peel(s, b)
		k, other := -1, (*flow.Term)(nil)
		for i := 0; i < 2; i++ {
			if p := s.R[fmt.Sprintf("ba%d", i)]; p != nil {
				if ta == p {
					k, other = i, tb
				} else if tb == p {
					k, other = i, ta
				}
			}
		}
		if k < 0 {
			return false
		}
		conf := user
		if k == 1 {
			conf = pass
		}
		good := other == conf && ca == cb
		n := fmt.Sprintf("cmp%d", k)
		e.Fork(flow.Alt{Result: one, Note: "the presented credential matches", Do: func(s *flow.State) {
			if good {
				s.D[n] = "ok"
			}
		}}, flow.Alt{Result: zero, Note: "the presented credential does not match"})
		return true
	}
	// the writer and anything wrapping it
	isW := func(s *flow.State, t *flow.Term) bool {
		if t == w {
			return true
		}
		if t != nil && t.Op == "iface" {
			t = t.Args[0]
		}
		if t == w {
			return true
		}
		if t != nil && t.Op == "alloc" {
			for _, v := range fields(t.T) {
				if types.Identical(v.Type(), w.T) {
					return true
				}
			}
		}
		return false
	}

	hook := func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if extra != nil {
			extra(in, s, e)
			return
		}
		sink := func(what string, resp bool) {
			key := what + ":" + fname(e.Fn)
			if id == "H01" {
				if !sinks[key] {
					sinks[key] = true
					c.Oblige("guard:"+key, c.P.PosOf(e.Instr), "reaching "+what+" requires that the configured credentials were presented", true)
				}
				if !authOK(in, s) {
					in.ReportAt(s, "guard:"+key, e.Instr, "%s is reached although the configured credentials were not presented", what)
				}
				return
			}
			if resp {
				return
			}
			if !sinks[key] {
				sinks[key] = true
				c.Oblige("method:"+key, c.P.PosOf(e.Instr), "reaching "+what+" requires a GET request", true)
			}
			if !s.Must(ts.Eq(method, ts.Str("GET"), method.T)) {
				in.ReportAt(s, "method:"+key, e.Instr, "%s is reached by a request that is not known to be a GET", what)
			}
		}
		wrote := func(code *flow.Term) {
			if id == "H02" && s.D["wrote"] == "" {
				key := "origin:" + fname(e.Fn)
				if !writes[key] {
					writes[key] = true
					c.Oblige(key, c.P.PosOf(e.Instr), "the origin header is set before the response starts", true)
				}
				if s.D["origin"] != "ok" {
					in.ReportAt(s, key, e.Instr, "the response is started without the configured origin header")
				}
			}
			if s.D["wrote"] == "" {
				s.D["wrote"] = "1"
				if n, ok := code.IntVal(); ok {
					s.D["code"] = fmt.Sprint(n)
				} else {
					b := s.Bounds(code)
					s.D["code"] = "?"
					if b.Lo >= 500 && b.Hi < 600 {
						s.D["code"] = "500"
					}
				}
				s.D["failAtWrite"] = s.D["fail"]
				if id == "H01" && s.D["code"] != "401" {
					sink("a response", true)
				}
			}
		}
		switch e.Kind {
		case "call":
			n := e.Name
			switch {
			case n == "(*net/http.Request).BasicAuth" && e.Args[0] == req:
				u, p, ok := in.Fresh(s, e, "user", types.Typ[types.String]), in.Fresh(s, e, "pass", types.Typ[types.String]), in.Fresh(s, e, "ok", types.Typ[types.Bool])
				s.R["ba0"], s.R["ba1"] = u, p
				e.Handled, e.Result = true, ts.Mk("tuple", "", e.Callee.Signature.Results(), u, p, ok)
			case strings.HasSuffix(n, "subtle.ConstantTimeCompare"):
				compare(in, s, e, e.Args[0], e.Args[1], ts.Int(1), ts.Int(0))
			case n == "bytes.Equal", n == "crypto/hmac.Equal":
				compare(in, s, e, e.Args[0], e.Args[1], ts.Bool(true), ts.Bool(false))
			case n == "github.com/zeebo/errs/errdata.Get":
				if v, ok := errClass(e.Args[0], codes); ok {
					e.Handled, e.Result = true, ts.Iface(types.Typ[types.Int], ts.Int(v))
				} else {
					e.Handled, e.Result = true, ts.Nil()
				}
			case n == "(net/http.Header).Set" || n == "(net/http.Header).Add":
				if k, ok := e.Args[1].StrVal(); ok && strings.EqualFold(k, "Access-Control-Allow-Origin") && isHeaderOf(e.Args[0], w) && s.D["wrote"] == "" {
					star, isStr := e.Args[2].StrVal()
					unset := s.Must(ts.Eq(origin, ts.Str(""), origin.T))
					s.D["origin"] = "bad"
					if n == "(net/http.Header).Set" && (e.Args[2] == origin && !unset || isStr && star == "*" && unset) {
						s.D["origin"] = "ok"
					}
				}
			case (n == "(net/http.Header).Del") && isHeaderOf(e.Args[0], w):
				if k, ok := e.Args[1].StrVal(); !ok || strings.EqualFold(k, "Access-Control-Allow-Origin") {
					s.D["origin"] = "bad"
				}
			case n == "(net/http.ResponseWriter).WriteHeader" && e.Args[0] == w:
				wrote(e.Args[1])
			case n == "(net/http.ResponseWriter).Write" && e.Args[0] == w:
				wrote(ts.Int(200))
			case n == "(net/http.Handler).ServeHTTP" || strings.HasPrefix(n, "(net/http.HandlerFunc)"):
				sink("the static handler", false)
				wrote(ts.Int(200))
			case e.Method != nil && e.Callee == nil && e.Method.Pkg() != nil && e.Method.Pkg().Path() == flow.RepoPath+"/database":
				sink("the database", false)
				forkErr(in, s, e, "5xx")
			case e.Opaque && e.Callee != nil || e.Opaque && e.Method != nil:
				// a library that is handed the writer may start the response
				hit := false
				for _, a := range e.Args {
					if isW(s, a) || termHas(a, func(x *flow.Term) bool { return x == w }) && !isHeaderOf(a, w) {
						hit = true
					}
				}
				if hit && n != "(net/http.ResponseWriter).Header" {
					if !in.Prog.InRepo(e.Callee) {
						wrote(ts.Int(200))
					}
				}
				if n == "(*encoding/json.Encoder).Encode" {
					wrote(ts.Int(200))
					forkErr(in, s, e, "")
					return
				}
				if in.Prog.InRepo(e.Callee) || hit {
					if s.D["wrote"] != "" && hit {
						forkErr(in, s, e, "")
						return
					}
					forkErr(in, s, e, "5xx")
				}
			}
		case "ret":
			i := -1
			if e.Callee != nil && !e.Opaque {
				i = errResult(e.Callee.Signature)
			}
			if i < 0 || i >= len(e.Args) {
				return
			}
			if s.D["cbfn"] == e.Callee.String() {
				if v, ok := s.IsNil(e.Args[i]); ok {
					s.Assume(ts.Eq(s.R["cbres"], ts.Nil(), e.Args[i].T), v)
				}
				delete(s.D, "cbfn")
			}
			if id == "H02" && s.D["wrote"] == "" && inPkg(e.Callee, "api") && takesWriter(e.Callee.Signature) {
				if v, ok := s.IsNil(e.Args[i]); ok && !v {
					s.D["refused"] = fname(e.Callee)
				}
			}
			if id != "H02" || s.D["wrote"] == "" || !inPkg(e.Callee, "api") {
				return
			}
			if n, ok := errClass(e.Args[i], codes); ok && s.D["code"] != fmt.Sprint(n) {
				in.ReportAt(s, "late:"+fname(e.Callee), e.Instr, "an error that calls for status %d is returned when the response was already started with status %s", n, s.D["code"])
			}
		case "exit":
			if id == "H01" {
				if !authOK(in, s) {
					c.Oblige("denied:"+fname(e.Callee), c.P.Pos(e.Callee.Pos()), "a request without the configured credentials is answered with 401", true)
					if s.D["code"] != "401" {
						in.ReportAt(s, "denied:"+fname(e.Callee), e.Instr, "a request without the configured credentials ends with status %q instead of 401", s.D["code"])
					}
				}
				return
			}
			code := s.D["code"]
			switch {
			case s.D["failAtWrite"] != "" && s.D["wrote"] != "":
				failing[s.D["failAtWrite"]] = true
				c.Oblige("failure:"+s.D["failAtWrite"], c.P.Pos(e.Callee.Pos()), "a failure of "+s.D["failAtWrite"]+" is answered with a 5xx status", true)
				if !strings.HasPrefix(code, "5") {
					in.ReportAt(s, "failure:"+s.D["failAtWrite"], e.Instr, "%s failed, but the response has status %q", s.D["failAtWrite"], code)
				}
			case s.D["fail"] != "" && s.D["wrote"] != "":
				if !strings.HasPrefix(code, "5") {
					in.ReportAt(s, "failure:"+s.D["fail"], e.Instr, "%s fails when the response was already started with status %q", s.D["fail"], code)
				}
			case s.D["fail"] != "" && s.D["wrote"] == "":
				in.ReportAt(s, "failure:"+s.D["fail"], e.Instr, "%s failed, but no error status is sent", s.D["fail"])
			case s.D["refused"] != "" && s.D["wrote"] != "" && !strings.HasPrefix(code, "4") && !strings.HasPrefix(code, "5"):
				in.ReportAt(s, "refused:"+s.D["refused"], e.Instr, "%s returned an error before the response started, but the response has status %q", s.D["refused"], code)
			case s.D["wrote"] == "":
				if e.Fn == serve {
					in.ReportAt(s, "noresponse", e.Instr, "the handler returns without any response although nothing failed")
				}
			case code != "200" && !strings.HasPrefix(code, "4") && !strings.HasPrefix(code, "5"):
				in.ReportAt(s, "status:"+code, e.Instr, "a response with the undetermined status %q", code)
			case strings.HasPrefix(code, "5"):
				in.ReportAt(s, "blame:"+code, e.Instr, "status %s is sent although neither the database nor an encoder failed", code)
			}
			c.Oblige("status:"+code, c.P.Pos(e.Callee.Pos()), "responses with status "+code+" are sent for the outcomes that call for it", true)
		}
	}
	for _, ex := range exits {
		in := flow.NewInterp(c.P, hook)
		in.ErrKeys = true
		in.Keep(w)
		in.Keep(req)
		in.Keep(recv)
		for _, sy := range syms {
			in.Keep(sy)
		}
		in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
			if !in.Prog.InRepo(fn) {
				return false
			}
			if inPkg(fn, "api") {
				return true
			}
			for _, a := range args {
				if isW(s, a) {
					return true
				}
			}
			return false
		}
		c.Explore(in, serve, []*flow.Term{recv, w, req}, func(s *flow.State) {
			for v, t := range ex.stored {
				s.Store(ts.FieldAddr(recv, v), t, v.Type())
			}
			for q, v := range ex.known {
				s.Assume(q, v)
			}
		})
	}
	if extra != nil {
		return
	}
	c.Oblige("anchor:sinks", c.P.Pos(serve.Pos()), "the handler reaches the database and the static handler", len(sinks) >= 2)
	if id == "H01" {
		guardWiring(c, serve, ctor)
	}
	if id == "H02" {
		c.Oblige("anchor:failures", c.P.Pos(serve.Pos()), "some failing operation was found", len(failing) >= 1)
	}
}

func fieldIndex(t types.Type, v *types.Var) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == v {
			return i
		}
	}
	return -1
}

// takesWriter: a function that is handed what the response is written to.
func takesWriter(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "ResponseWriter" {
			return true
		}
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "WriteHeader") != nil && ms.Lookup(nil, "Header") != nil {
			return true
		}
	}
	return false
}

func isHeaderOf(h, w *flow.Term) bool {
	return termHas(h, func(x *flow.Term) bool {
		return x.Op == "call" && strings.HasPrefix(x.Name, "(net/http.ResponseWriter).Header")
	})
}

// forkErr splits an opaque call that returns an error into success and failure.
func forkErr(in *flow.Interp, s *flow.State, e *flow.Event, fail string) {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return
	}
	sig := ci.Common().Signature()
	rs := sig.Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return
	}
	mk := func(bad bool) *flow.Term {
		args := make([]*flow.Term, rs.Len())
		for i := range args {
			t := rs.At(i).Type()
			if i == rs.Len()-1 {
				if bad {
					args[i] = freshErr(in, s, e, "err")
				} else {
					args[i] = in.TS.Nil()
				}
			} else {
				args[i] = in.Fresh(s, e, fmt.Sprint("r", i), t)
			}
		}
		if len(args) == 1 {
			return args[0]
		}
		return in.TS.Mk("tuple", "", rs, args...)
	}
	name := e.Name
	var alts []flow.Alt
	if rs.Len() == 1 && fail != "" {
		// a function of the handler that is handed over runs, and what it
		// returns decides what the call returns
		for _, a := range e.Args {
			f := stripIface(a)
			if f == nil || f.Op != "closure" && f.Op != "func" || f.Fn == nil || !inPkg(f.Fn, "api") || len(f.Fn.Blocks) == 0 || errResult(f.Fn.Signature) < 0 {
				continue
			}
			var args []*flow.Term
			for i, p := range f.Fn.Params {
				args = append(args, in.Fresh(s, e, "cb"+itoa(i), p.Type()))
			}
			r := in.Fresh(s, e, "cbres", rs.At(0).Type())
			alts = append(alts, flow.Alt{Note: "the function handed over is run", Enter: f, Args: args, Result: r, Do: func(s *flow.State) {
				s.R["cbres"], s.D["cbfn"] = r, f.Fn.String()
			}})
		}
	}
	e.Fork(append(alts,
		flow.Alt{Result: mk(false), Note: short(name) + " succeeds"},
		flow.Alt{Result: mk(true), Note: short(name) + " fails", Do: func(s *flow.State) {
			if fail != "" && s.D["fail"] == "" {
				s.D["fail"] = short(name)
			}
		}},
	)...)
}

func isStringLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// guardWiring checks that the process hands the configured credentials to the
// handler that asks for them, and that nothing else handles requests.
func guardWiring(c *Ctx, serve, ctor *ssa.Function) {
	ts := c.P.TS
	recvT := serve.Signature.Recv().Type()
	pkg := c.P.ByPkg[flow.RepoPath+"/config"]
	var cfg *types.TypeName
	if pkg != nil && pkg.Types != nil {
		cfg, _ = pkg.Types.Scope().Lookup("Config").(*types.TypeName)
	}
	leaf := map[types.Object]string{}
	var dig func(t types.Type, depth int)
	dig = func(t types.Type, depth int) {
		for _, f := range fields(t) {
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				switch n := strings.ToLower(f.Name()); n {
				case "username", "password":
					leaf[f] = n
				}
			}
			if _, ok := f.Type().Underlying().(*types.Struct); ok && depth < 6 {
				dig(f.Type(), depth+1)
			}
		}
	}
	if cfg != nil {
		dig(cfg.Type(), 0)
	}
	if len(leaf) != 2 {
		c.Fail("anchor:credentials", "config", "the configured user name and password were not found")
		return
	}
	isHandlerField := func(fa *ssa.FieldAddr) bool {
		v := fieldOf(fa)
		return v != nil && v.Name() == "Handler" && v.Pkg() != nil && v.Pkg().Path() == "net/http"
	}
	handlerArg := func(name string) int {
		switch name {
		case "net/http.Handle", "net/http.HandleFunc", "net/http.ListenAndServe", "net/http.Serve", "net/http.ServeTLS":
			return 1
		case "net/http.ListenAndServeTLS":
			return 3
		}
		return -1
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		switch x := i.(type) {
		case ssa.CallInstruction:
			return x.Common().StaticCallee() == ctor || handlerArg(calleeName(x.Common())) >= 0
		case *ssa.FieldAddr:
			return isHandlerField(x) || leaf[fieldOf(x)] != ""
		}
		return false
	})
	made, servers := 0, 0
	c.Oblige("wiring", "run.go", "the handler is made with the configured user name and password", true)
	c.Oblige("entrance", "run.go", "requests are handled by nothing but the handler that asks for the credentials", true)
	c.drive(rel, func(f *ssa.Function) bool { return !inPkg(f, "api") && !inPkg(f, "config") }, func(f *ssa.Function) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		check := func(s *flow.State, e *flow.Event, h *flow.Term) {
			servers++
			if h == nil || h.Op == "nil" {
				return
			}
			if h.Op == "iface" && h.T != nil && types.Identical(h.T, recvT) {
				return
			}
			in.ReportAt(s, "entrance", e.Instr, "requests are handled by something else than the handler that asks for the credentials")
			s.Kill()
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "load":
				if v, ok := e.Addr.Obj.(*types.Var); ok && e.Addr.Op == "faddr" && leaf[v] != "" {
					e.Result = ts.Sym("setting:"+leaf[v], v.Type())
				}
			case "store":
				if st, ok := e.Instr.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isHandlerField(fa) {
						check(s, e, e.Val)
					}
				}
			case "call":
				if i := handlerArg(e.Name); i >= 0 && i < len(e.Args) {
					check(s, e, e.Args[i])
					return
				}
				if e.Callee != ctor {
					return
				}
				made++
				e.Handled = true
				e.Result = in.Fresh(s, e, "handler", recvT)
				for _, a := range e.Args {
					st, ok := a.T.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						n := strings.ToLower(st.Field(i).Name())
						if n != "username" && n != "password" {
							continue
						}
						v := ts.Field(a, i, st)
						if v.Op == "sym" && v.Name == "setting:"+n || v.Op == "field" && strings.EqualFold(v.Name, n) && termHas(v, func(x *flow.Term) bool { return x.T != nil && types.Identical(deref(x.T), cfg.Type()) }) {
							continue
						}
						in.ReportAt(s, "wiring", e.Instr, "the handler's %s is not the configured one", n)
						s.Kill()
						return
					}
				}
			}
		}
		return in
	})
	c.Count("handlers constructed", made)
	c.Count("entrances", servers)
	if made == 0 || servers == 0 {
		c.Fail("anchor:wiring", "run.go", "where the process makes its HTTP handler was not recognised")
	}
}
