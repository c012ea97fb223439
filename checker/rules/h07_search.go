package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "H07", Technique: "interval and order analysis of the result list over SSA with a loop invariant per search term, and typestate of the request that searches",
		Explain: "A search starts with an empty list and the requested limit; a name is added only when every search term matched it and there is room for it, the scan is stopped only when the list is full, and a matching name is never passed over while there is room. The response is the list of a search that was run over the stored metrics with the limit of the request.",
		Min:     6,
		Run:     runH07,
	})
}

const queryPkg = "api/query"

func runH07(c *Ctx) {
	ts := c.P.TS
	mk := c.Fn(queryPkg, "New")
	add := c.Fn(queryPkg, "(*Search).Add")
	match := c.Fn(queryPkg, "(*Search).Match")
	matched := c.Fn(queryPkg, "(*Search).Matched")
	if mk == nil || add == nil || match == nil || matched == nil {
		return
	}
	var list, limit, terms *types.Var
	for _, v := range fields(add.Signature.Recv().Type()) {
		switch t := v.Type().Underlying().(type) {
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				list = v
			} else {
				terms = v
			}
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				limit = v
			}
		}
	}
	if list == nil || terms == nil {
		c.Fail("anchor:fields", queryPkg, "a search does not hold its terms and its result")
		return
	}

	// a new search
	c.Oblige("start", c.P.Pos(mk.Pos()), "a search starts with nothing found and the requested limit", true)
	in := flow.NewInterp(c.P, nil)
	words := h07words(c, in, mk, terms)
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		words(s, e)
		if e.Kind != "exit" || s.Dead() {
			return
		}
		c.Count("new searches", 1)
		var want *flow.Term
		for _, p := range mk.Params {
			if isInt(p.Type()) {
				want = ts.Sym("arg:"+p.Name()+":"+mk.Name(), p.Type())
			}
		}
		l := s.Load(ts.FieldAddr(e.Args[0], list), list.Type(), "rule.list")
		lim := in.Cap(l)
		if limit != nil {
			lim = s.Load(ts.FieldAddr(e.Args[0], limit), limit.Type(), "rule.limit")
		}
		if want == nil || !s.EqInt(in.Len(l), ts.Int(0)) || !s.EqInt(lim, want) {
			in.ReportAt(s, "start", e.Instr, "a search does not start empty with the requested limit")
		}
	}
	c.Explore(in, mk, nil, func(s *flow.State) { s.R["asked"], s.R["made"] = ts.Int(0), ts.Int(0) })

	// adding a name
	key := "arg:" + add.Params[1].Name() + ":" + add.Name()
	name := ts.Sym(key, add.Params[1].Type())
	self := ts.Sym("arg:"+add.Params[0].Name()+":"+add.Name(), add.Params[0].Type())
	c.Oblige("limit", c.P.Pos(add.Pos()), "a name is added only while there is room for it", true)
	c.Oblige("match", c.P.Pos(add.Pos()), "a name is added only if it matches, and never passed over if it does", true)
	c.Oblige("stop", c.P.Pos(add.Pos()), "the scan is stopped only when there is no room", true)
	in = flow.NewInterp(c.P, nil)
	lim := func(s *flow.State) *flow.Term {
		if limit != nil {
			return s.Load(ts.FieldAddr(self, limit), limit.Type(), "rule.limit")
		}
		return in.Cap(s.R["list"])
	}
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, queryPkg) && g != match }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		switch e.Kind {
		case "call":
			if e.Callee != match {
				return
			}
			if !s.Same(e.Args[0], self) || !s.Same(e.Args[1], name) {
				bad("match", "another name is matched than the one that may be added")
				return
			}
			e.Fork(
				flow.Alt{Result: ts.Bool(true), Note: "the name matches", Do: func(s *flow.State) { s.D["match"] = "yes" }},
				flow.Alt{Result: ts.Bool(false), Note: "the name does not match", Do: func(s *flow.State) { s.D["match"] = "no" }})
		case "append":
			if len(e.Args) > 1 && e.Typ != nil && types.Identical(e.Typ, list.Type()) && s.Same(e.Args[0], s.R["list"]) {
				if s.EqInt(in.Len(e.Args[1]), ts.Int(1)) && s.Same(in.ElemAt(s, e.Args[1], 0, types.Typ[types.String]), name) {
					s.D["appended"] = "1"
				} else {
					bad("match", "something else than the name is added to the result")
				}
			}
		case "store":
			if e.Addr == nil || e.Addr.Op != "faddr" || e.Addr.Obj != list || e.Addr.Args[0] != self {
				return
			}
			if s.D["added"] != "" || s.D["appended"] == "" || !s.EqInt(in.Len(e.Val), ts.AddI(in.Len(s.R["list"]), 1)) {
				bad("match", "the result is changed other than by adding the name once")
				return
			}
			if s.D["match"] != "yes" {
				bad("match", "a name is added that was not found to match")
				return
			}
			if !s.Lt(in.Len(s.R["list"]), lim(s)) {
				bad("limit", "a name is added although the limit may be reached")
				return
			}
			s.D["added"] = "1"
		case "exit":
			c.Count("names offered", 1)
			full := func(s *flow.State, n int64) bool { return s.Le(lim(s), ts.AddI(in.Len(s.R["list"]), n)) }
			if s.D["added"] == "" && s.D["match"] != "no" && !full(s, 0) {
				bad("match", "a name is passed over although it may match and there may be room")
				return
			}
			if t := s.Clone(); t.Assume(e.Args[0], false) {
				// the name may have been the last one there was room for
				n := int64(0)
				if s.D["added"] != "" {
					n = 1
				}
				if !full(t, n) {
					bad("stop", "the scan is stopped although there may be room")
					return
				}
			}
			if isnil, known := s.IsNil(e.Args[1]); !known || !isnil {
				bad("stop", "adding a name fails")
			}
		}
	}
	c.Explore(in, add, nil, func(s *flow.State) {
		l := s.Load(ts.FieldAddr(self, list), list.Type(), "rule.list")
		s.R["list"] = l
		s.Assume(ts.Le(in.Len(l), lim(s)), true)
	})

	// matching a name
	c.Oblige("terms", c.P.Pos(match.Pos()), "a name matches exactly when every search term matches it", true)
	mself := ts.Sym("arg:"+match.Params[0].Name()+":"+match.Name(), match.Params[0].Type())
	mname := ts.Sym("arg:"+match.Params[1].Name()+":"+match.Name(), match.Params[1].Type())
	min := flow.NewInterp(c.P, nil)
	isTerm := func(g *ssa.Function) bool {
		if g == nil || g == match {
			return false
		}
		r := g.Signature.Recv()
		return r != nil && sameElem(r.Type(), terms.Type())
	}
	min.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return inPkg(g, queryPkg) && !isTerm(g)
	}
	min.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, "terms", e.Instr, format, a...)
			s.Kill()
		}
		switch e.Kind {
		case "call":
			if !isTerm(e.Callee) {
				return
			}
			if len(e.Args) < 2 || !s.Same(e.Args[1], mname) || !termHas(e.Args[0], func(x *flow.Term) bool { return x == mself }) {
				bad("a term is matched against something else than the name")
				return
			}
			s.R["asked"] = ts.AddI(s.R["asked"], 1)
			e.Fork(
				flow.Alt{Result: ts.Bool(true), Note: "a term matches"},
				flow.Alt{Result: ts.Bool(false), Note: "a term does not match", Do: func(s *flow.State) { s.D["miss"] = "1" }})
		case "exit":
			c.Count("names matched", 1)
			v, known := s.Decide(e.Args[0])
			if s.D["miss"] != "" && !(known && !v) {
				bad("a name matches although one of the terms does not match it")
			}
			if s.D["miss"] == "" && (!known || !v || !s.EqInt(s.R["asked"], s.R["!n"])) {
				bad("not every term is asked whether it matches, or none that fails is found")
			}
		}
	}
	c.Explore(min, match, nil, func(s *flow.State) {
		s.R["asked"] = ts.Int(0)
		s.R["!n"] = min.Len(s.Load(ts.FieldAddr(mself, terms), terms.Type(), "rule.terms"))
	})
	h07stores(c, list, mk, add)
	h07request(c, mk, add, matched)
}

// sameElem: the receiver is an element of the list, or a pointer to one.
func sameElem(r, list types.Type) bool {
	sl, ok := list.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if p, ok := r.(*types.Pointer); ok && !types.Identical(r, sl.Elem()) {
		r = p.Elem()
	}
	return types.Identical(r, sl.Elem())
}

// h07stores: nobody else changes the result of a search.
func h07stores(c *Ctx, list *types.Var, mk, add *ssa.Function) {
	c.Oblige("only", queryPkg, "the result of a search is changed only when it is made or a name is added", true)
	ok := map[*ssa.Function]bool{mk: true, add: true}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		if call, isCall := i.(ssa.CallInstruction); isCall {
			if g := call.Common().StaticCallee(); g != nil {
				if callers[g] == nil {
					callers[g] = map[*ssa.Function]bool{}
				}
				callers[g][f] = true
			}
		}
	})
	var part func(f *ssa.Function, depth int) bool
	part = func(f *ssa.Function, depth int) bool {
		if ok[f] {
			return true
		}
		if depth > 5 || len(callers[f]) == 0 || !inPkg(f, queryPkg) {
			return false
		}
		for g := range callers[f] {
			if !part(g, depth+1) {
				return false
			}
		}
		return true
	}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		fa, isFA := i.(*ssa.FieldAddr)
		if !isFA || fieldOf(fa) != list {
			return
		}
		for _, r := range *fa.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Addr != ssa.Value(fa) || !part(f, 0) {
					c.Fail("only:"+fname(f), c.P.PosOf(r), "%s changes the result of a search", fname(f))
				}
			default:
				c.Fail("only:"+fname(f), c.P.PosOf(r), "%s hands out the result of a search to be changed", fname(f))
			}
		}
	})
}

// fieldOf is the field a field address selects.
func fieldOf(fa *ssa.FieldAddr) *types.Var {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// h07request: what a request answers is what its search found.
func h07request(c *Ctx, mk, add, matched *ssa.Function) {
	isMk := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && call.Common().StaticCallee() == mk
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		return isMk(i) || parses(call.Common()) || call.Common().StaticCallee() == matched || strings.HasSuffix(calleeName(call.Common()), ".Metrics") || strings.HasSuffix(calleeName(call.Common()), "json.Encoder).Encode")
	})
	n := 0
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		f := f
		if !inPkg(f, "api") || len(f.Blocks) == 0 {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				has = has || isMk(i)
			}
		}
		if !has {
			continue
		}
		n++
		key := "answer:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" answers with the result of a search over all stored metrics", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return inPkg(g, "api") && rel[g] && g != mk && g != matched
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			ts := in.TS
			if formValue(in, e) {
				return
			}
			switch e.Kind {
			case "call":
				switch {
				case e.Callee != nil && formName(e.Args[0]) == "results" && parses(e.Instr.(ssa.CallInstruction).Common()):
					rs := e.Callee.Signature.Results()
					v := in.Fresh(s, e, "number", rs.At(0).Type())
					err := in.Fresh(s, e, "notnumber", rs.At(1).Type())
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", rs, v, ts.Nil()), Note: "the number is parsed", Do: func(s *flow.State) {
							s.R["asked"] = v
							s.D["parsed"] = "ok"
						}},
						flow.Alt{Result: ts.Mk("tuple", "", rs, v, err), Note: "the number cannot be parsed", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["parsed"] = "failed"
						}})
				case e.Callee == mk:
					e.Handled = true
					for i, p := range mk.Params {
						if isInt(p.Type()) && s.D["parsed"] != "failed" && (s.R["asked"] == nil || !s.Le(e.Args[i], s.R["asked"])) {
							in.ReportAt(s, key, e.Instr, "the limit of the search is not the number the request asked for")
							s.Kill()
							return
						}
						if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && formName(e.Args[i]) != "query" {
							in.ReportAt(s, key, e.Instr, "the words searched for are not the query of the request")
							s.Kill()
							return
						}
					}
					v := in.Fresh(s, e, "search", mk.Signature.Results().At(0).Type())
					s.Assume(ts.IsNil(v), false)
					s.R["search"], e.Result = v, v
				case e.Method != nil && e.Method.Name() == "Metrics" || strings.HasSuffix(e.Name, ".Metrics"):
					cb := e.Args[len(e.Args)-1]
					if s.R["search"] == nil || !s.Refers(cb, s.R["search"]) || !usesFn(cb, add) {
						in.ReportAt(s, key, e.Instr, "the stored metrics are not handed to the search")
						s.Kill()
						return
					}
					err := in.Fresh(s, e, "err", types.Universe.Lookup("error").Type())
					e.Fork(
						flow.Alt{Result: ts.Nil(), Note: "the metrics are listed", Do: func(s *flow.State) { s.D["searched"] = "1" }},
						flow.Alt{Result: err, Note: "listing the metrics fails", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["searched"] = "failed"
						}})
				case e.Callee == matched:
					e.Handled = true
					if s.R["search"] == nil || !s.Same(e.Args[0], s.R["search"]) || s.D["searched"] != "1" {
						in.ReportAt(s, key, e.Instr, "the result of a search is used before the metrics were searched")
						s.Kill()
						return
					}
					v := in.Fresh(s, e, "found", matched.Signature.Results().At(0).Type())
					s.R["found"], e.Result = v, v
				case strings.HasSuffix(e.Name, "json.Encoder).Encode"):
					v := e.Args[len(e.Args)-1]
					if s.R["found"] == nil || !termHas(v, func(x *flow.Term) bool { return x == s.R["found"] }) || termHas(v, func(x *flow.Term) bool { return x.Op == "slice" || x.Op == "append" }) {
						in.ReportAt(s, key, e.Instr, "the answer is not the result of the search")
						s.Kill()
						return
					}
					c.Count("search answers", 1)
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if n == 0 || c.Counts["search answers"] == 0 {
		c.Fail("anchor:request", "api/server.go", "no request that searches and answers with the result was found")
	}
}

// parses: a number is parsed from text.
func parses(call *ssa.CallCommon) bool {
	switch calleeName(call) {
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		return true
	}
	return false
}

// usesFn reports a function value made of the function: itself, a bound method
// or a closure that calls it.
func usesFn(t *flow.Term, f *ssa.Function) bool {
	if t.Fn == nil {
		return false
	}
	if t.Fn == f || t.Fn.Object() != nil && t.Fn.Object() == f.Object() {
		return true
	}
	for _, b := range t.Fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

// h07words follows how a new search makes its terms: one of every word of the
// query, in order, and of nothing else. A query taken apart by hand, byte by
// byte, is not followed.
func h07words(c *Ctx, in *flow.Interp, mk *ssa.Function, terms *types.Var) func(*flow.State, *flow.Event) {
	ts := c.P.TS
	c.Oblige("words", c.P.Pos(mk.Pos()), "a search has one term for every word of the query, made of that word", true)
	elem := terms.Type().Underlying().(*types.Slice).Elem()
	maker := func(g *ssa.Function) bool {
		return g != nil && g != mk && inPkg(g, queryPkg) && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), elem)
	}
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, queryPkg) && !maker(g) }
	var query *flow.Term
	for _, p := range mk.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			query = ts.Sym("arg:"+p.Name()+":"+mk.Name(), p.Type())
		}
	}
	if query == nil {
		c.Fail("anchor:query", queryPkg, "a new search does not take a query")
		return func(*flow.State, *flow.Event) {}
	}
	return func(s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, "words", e.Instr, format, a...)
			s.Kill()
		}
		about := func(t *flow.Term) bool { return t != nil && (t == query || s.Refers(t, query)) }
		empty := func() bool { return s.R["word"] != nil && emptyStr(s, s.R["word"]) }
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "strings.Fields" || e.Name == "strings.FieldsFunc" || strings.HasPrefix(e.Name, "strings.Split"):
				if !about(e.Args[0]) {
					return
				}
				if !s.Same(e.Args[0], query) {
					bad("a part of the query is searched for, or a part of it is taken apart again")
					return
				}
				if strings.HasPrefix(e.Name, "strings.Split") {
					if v, ok := e.Args[1].StrVal(); !ok || v != " " || e.Name != "strings.Split" && e.Name != "strings.SplitN" {
						bad("the query is not taken apart into its words")
						return
					}
				}
				if e.Name == "strings.SplitN" && !s.Lt(e.Args[2], ts.Int(0)) {
					bad("not every word of the query becomes a term: what is behind the last part is one term")
					return
				}
				if s.R["words"] != nil {
					return
				}
				w := in.Fresh(s, e, "words", e.Instr.(ssa.Value).Type())
				in.Keep(w)
				s.R["words"] = w
				e.Handled, e.Result = true, w
			case e.Name == "strings.TrimSpace" || e.Name == "strings.ToLower":
				// changes neither the number of the words nor what they match
				if s.Same(e.Args[0], query) || s.R["word"] != nil && s.Same(e.Args[0], s.R["word"]) {
					e.Handled, e.Result = true, e.Args[0]
				}
			case maker(e.Callee):
				e.Handled = true
				e.Result = in.Fresh(s, e, "term", elem)
				if s.D["unkept"] != "" {
					bad("a term is not kept")
					return
				}
				if s.R["words"] == nil {
					s.D["byhand"] = "1"
				} else {
					ok := false
					for _, a := range e.Args {
						ok = ok || s.R["word"] != nil && s.Same(a, s.R["word"])
					}
					if !ok || s.D["open"] == "" {
						bad("a term is made of something else than the next word of the query")
						return
					}
				}
				s.D["open"], s.D["unkept"] = "", "1"
				s.R["term"] = e.Result
				s.R["made"] = ts.AddI(s.R["made"], 1)
			}
		case "index", "slice":
			if about(e.Args[0]) {
				s.D["byhand"] = "1"
			}
		case "load":
			w := s.R["words"]
			if w == nil || e.Addr == nil || e.Addr.Op != "iaddr" || !s.Same(e.Addr.Args[0], w) {
				return
			}
			at := e.Addr.Args[1]
			e.Result = s.Load(e.Addr, e.Typ, "word")
			switch {
			case s.D["read"] != "" && s.EqInt(ts.AddI(at, 1), s.R["asked"]):
				s.R["word"] = e.Result
				return
			case !s.EqInt(at, s.R["asked"]):
				bad("a word of the query is left out")
				return
			case s.D["open"] != "" && !empty():
				bad("a word of the query does not become a term")
				return
			}
			s.R["asked"] = ts.AddI(at, 1)
			s.R["word"] = e.Result
			s.D["open"], s.D["read"] = "1", "1"
		case "make":
			if e.Result != nil && types.Identical(e.Typ, terms.Type()) && s.EqInt(in.Len(e.Result), ts.Int(0)) && s.D["appended"] == "" {
				s.R["kept"] = e.Result
			}
		case "append":
			if len(e.Args) < 2 || !types.Identical(e.Typ, terms.Type()) {
				return
			}
			if s.R["kept"] == nil {
				s.R["kept"] = ts.Nil()
			}
			base := e.Args[0]
			if !(s.Same(base, s.R["kept"]) || s.D["appended"] == "" && s.EqInt(in.Len(base), ts.Int(0))) || s.R["term"] == nil ||
				!s.EqInt(in.Len(e.Args[1]), ts.Int(1)) || !s.Same(in.ElemAt(s, e.Args[1], 0, elem), s.R["term"]) {
				bad("something else than the next term is added to the terms")
				return
			}
			s.D["unkept"], s.D["appended"] = "", "1"
			e.Result = in.Fresh(s, e, "kept", e.Typ)
			s.R["kept"] = e.Result
			delete(s.R, "term")
		case "store":
			if s.D["unkept"] == "" || e.Addr == nil || e.Addr.Op != "iaddr" || !s.Same(e.Val, s.R["term"]) {
				return
			}
			if e.Addr.Args[0].Op == "alloc" {
				return // on its way into an append
			}
			if !s.EqInt(ts.AddI(e.Addr.Args[1], 1), s.R["made"]) {
				bad("a term is not kept in a place of its own")
				return
			}
			s.D["unkept"] = ""
		case "exit":
			l := s.Load(ts.FieldAddr(e.Args[0], terms), terms.Type(), "rule.terms")
			switch {
			case s.D["unkept"] != "":
				bad("a term is not kept")
			case s.R["words"] == nil && s.D["byhand"] == "":
				if !emptyStr(s, query) || !s.EqInt(in.Len(l), ts.Int(0)) {
					bad("a search is made without looking at the query")
				}
			case s.D["appended"] == "" && !s.EqInt(in.Len(l), s.R["made"]) || s.D["appended"] != "" && !s.Same(l, s.R["kept"]):
				bad("a search does not have the terms that were made of the query")
			case s.R["words"] == nil:
			case s.D["open"] != "" && !empty():
				bad("a word of the query does not become a term")
			case !s.EqInt(s.R["asked"], in.Len(s.R["words"])):
				bad("a search may have fewer terms than the query has words")
			}
		}
	}
}
