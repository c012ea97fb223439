package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "D06", Technique: "constant evaluation of every kind by abstract interpretation over SSA, and pairing of encoders and decoders by the types of their codec",
		Explain: "Every distribution type reports one constant kind, the parameters that make and load it report the same one and are registered under it, without configuration too; wherever a record gets a kind it gets the encoding of the distribution that reports it, from the codec its parameters decode with; loading decodes the record's own bytes with the parameters of its own kind, and resampling accepts every kind.",
		Min:     8,
		Run:     runD06,
	})
	register(&Rule{
		ID: "D07", Technique: "typestate of memoised answers (empty, current, stale) over SSA of every operation of every distribution",
		Explain: "Every operation that may change the underlying distribution leaves no answer memoised before it, answers are memoised only under the question asked and while current, queries answer from the underlying distribution or a current memoised answer to the same question, and observing passes every value on before it returns.",
		Min:     6,
		Run:     runD07,
	})
}

// implementers are the types of the module that implement an interface of the
// dist package.
func implementers(c *Ctx, iface string) []types.Type {
	p := c.P.ByPkg[flow.RepoPath+"/dist"]
	if p == nil || p.Types.Scope().Lookup(iface) == nil {
		return nil
	}
	it, ok := p.Types.Scope().Lookup(iface).Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, path := range repoPkgs(c.P) {
		pkg := c.P.ByPkg[path]
		if pkg == nil {
			continue
		}
		names := pkg.Types.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			switch {
			case types.Implements(tn.Type(), it):
				out = append(out, tn.Type())
			case types.Implements(types.NewPointer(tn.Type()), it):
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	return out
}

// method is the function that implements a method for a type.
func method(c *Ctx, t types.Type, name string) *ssa.Function {
	n, _ := deref(t).(*types.Named)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return c.P.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// ifaceType is the concrete type of an interface value.
func ifaceType(t *flow.Term) types.Type {
	if t != nil && t.Op == "iface" && len(t.Args) > 0 {
		if t.Args[0].T != nil {
			return t.Args[0].T
		}
	}
	return nil
}

func isIface(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == flow.RepoPath+"/dist"
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isDecoder reports a function outside of the module that makes something of bytes.
func isDecoder(f *ssa.Function) bool {
	if f == nil || strings.HasPrefix(flow.PkgOf(f), flow.RepoPath) {
		return false
	}
	sig := f.Signature
	return sig.Recv() == nil && sig.Params().Len() == 1 && isBytes(sig.Params().At(0).Type()) && sig.Results().Len() == 2 && sig.Results().At(1).Type().String() == "error"
}

// isEncoder reports a method outside of the module that appends its receiver to bytes.
func isEncoder(f *ssa.Function) bool {
	if f == nil || strings.HasPrefix(flow.PkgOf(f), flow.RepoPath) {
		return false
	}
	sig := f.Signature
	return sig.Recv() != nil && sig.Params().Len() == 1 && isBytes(sig.Params().At(0).Type()) && sig.Results().Len() == 1 && isBytes(sig.Results().At(0).Type())
}

func runD06(c *Ctx) {
	ts := c.P.TS
	where := "dist"
	inRepo := func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return strings.HasPrefix(flow.PkgOf(g), flow.RepoPath)
	}
	dists, params := implementers(c, "Dist"), implementers(c, "Params")
	c.Count("distribution types", len(dists))
	c.Count("parameter types", len(params))
	if len(dists) == 0 || len(params) == 0 {
		c.Fail("anchor:types", where, "no type implements a distribution and its parameters")
		return
	}

	// the kinds
	kindOf := map[string]string{}
	for _, t := range append(append([]types.Type{}, dists...), params...) {
		f := method(c, t, "Kind")
		if f == nil {
			c.Fail("anchor:"+short(t.String()), where, "%s has no kind", short(t.String()))
			continue
		}
		key := "kind:" + short(deref(t).String())
		c.Oblige(key, c.P.Pos(f.Pos()), "the kind is one constant", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = inRepo
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind != "exit" {
				return
			}
			k, ok := e.Args[0].StrVal()
			if !ok {
				in.ReportAt(s, key, e.Instr, "the kind of %s is not a constant", short(t.String()))
				return
			}
			if prev, done := kindOf[deref(t).String()]; done && prev != k {
				in.ReportAt(s, key, e.Instr, "%s reports different kinds", short(t.String()))
				return
			}
			kindOf[deref(t).String()] = k
		}
		c.Explore(in, f, nil, nil)
	}

	// what parameters make and load
	decoders := map[string]map[*ssa.Function]bool{} // by kind
	decoded := map[string]types.Type{}              // by kind: what the codec decodes to
	for _, t := range params {
		kind := kindOf[deref(t).String()]
		for _, name := range []string{"New", "Unmarshal"} {
			f := method(c, t, name)
			if f == nil {
				c.Fail("anchor:"+name, where, "%s has no %s", short(t.String()), name)
				continue
			}
			key := strings.ToLower(name) + ":" + short(deref(t).String())
			c.Oblige(key, c.P.Pos(f.Pos()), "the distribution has the kind of its parameters", true)
			in := flow.NewInterp(c.P, nil)
			in.InlineCall = inRepo
			in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
				switch e.Kind {
				case "call":
					if isDecoder(e.Callee) {
						if name == "Unmarshal" && !s.Same(e.Args[0], ts.Sym("arg:"+f.Params[1].Name()+":"+f.Name(), f.Params[1].Type())) {
							in.ReportAt(s, key, e.Instr, "something else than the bytes given is decoded")
							s.Kill()
							return
						}
						s.D["decoded"] = "1"
						if decoders[kind] == nil {
							decoders[kind] = map[*ssa.Function]bool{}
						}
						decoders[kind][e.Callee] = true
						decoded[kind] = e.Callee.Signature.Results().At(0).Type()
						res := e.Callee.Signature.Results()
						got := in.Fresh(s, e, "got", res.At(0).Type())
						err := in.Fresh(s, e, "err", res.At(1).Type())
						e.Fork(
							flow.Alt{Result: ts.Mk("tuple", "", res, got, ts.Nil()), Note: "the bytes decode", Do: func(s *flow.State) {
								s.Assume(ts.IsNil(got), false)
								s.R["got"] = got
							}},
							flow.Alt{Result: ts.Mk("tuple", "", res, got, err), Note: "the bytes do not decode", Do: func(s *flow.State) {
								s.Assume(ts.IsNil(err), false)
								s.D["failed"] = "1"
							}})
					}
				case "exit":
					if len(e.Args) != 2 {
						return
					}
					isErr, ok := s.Decide(ts.IsNil(e.Args[1]))
					switch {
					case ok && !isErr:
						if name == "Unmarshal" && s.D["failed"] != "1" {
							in.ReportAt(s, key, e.Instr, "bytes that decode are refused")
						}
					case name == "Unmarshal" && s.D["failed"] == "1":
						in.ReportAt(s, key, e.Instr, "a distribution that did not decode is returned without an error")
					default:
						ct := ifaceType(e.Args[0])
						if ct == nil || kindOf[deref(ct).String()] != kind {
							in.ReportAt(s, key, e.Instr, "the distribution returned does not have the kind %q of its parameters", kind)
							return
						}
						if name == "Unmarshal" && (s.D["decoded"] != "1" || s.R["got"] == nil || !s.Refers(e.Args[0], s.R["got"])) {
							in.ReportAt(s, key, e.Instr, "the distribution returned is not the one decoded")
						}
					}
				}
			}
			c.Explore(in, f, nil, nil)
		}
	}

	// how distributions are encoded
	for _, t := range dists {
		f := method(c, t, "Marshal")
		kind := kindOf[deref(t).String()]
		if f == nil {
			continue
		}
		key := "marshal:" + short(deref(t).String())
		c.Oblige(key, c.P.Pos(f.Pos()), "a distribution is encoded with the codec it is decoded with", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = inRepo
		buf := ts.Sym("arg:"+f.Params[1].Name()+":"+f.Name(), f.Params[1].Type())
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "call":
				if isEncoder(e.Callee) {
					rt := e.Callee.Signature.Recv().Type()
					if decoded[kind] == nil || !types.Identical(deref(rt), deref(decoded[kind])) {
						in.ReportAt(s, key, e.Instr, "the distribution is encoded as %s, which is not what its parameters decode", short(rt.String()))
						s.Kill()
						return
					}
					out := in.Fresh(s, e, "encoded", e.Callee.Signature.Results().At(0).Type())
					s.R["encoded"], s.R["into"] = out, e.Args[1]
					e.Result = out
				}
			case "append":
				if s.R["encoded"] != nil && len(e.Args) > 1 && s.Same(e.Args[0], buf) && s.Same(e.Args[1], s.R["encoded"]) && s.EqInt(in.Len(s.R["into"]), ts.Int(0)) {
					out := in.Fresh(s, e, "appended", e.Typ)
					s.R["encoded"], s.R["into"] = out, buf
					e.Result = out
				}
			case "exit":
				if s.R["encoded"] == nil || !s.Same(e.Args[0], s.R["encoded"]) || !s.Same(s.R["into"], buf) {
					in.ReportAt(s, key, e.Instr, "what is returned is not the encoded distribution appended to the buffer given")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}

	d06registered(c, kindOf, params)
	d06records(c, kindOf, decoded)
	d06load(c)
	d06resample(c, kindOf, params, decoders)
}

// d06registered: every parameter type is registered under its kind.
func d06registered(c *Ctx, kindOf map[string]string, params []types.Type) {
	ts := c.P.TS
	inRepo := func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return strings.HasPrefix(flow.PkgOf(g), flow.RepoPath)
	}
	isReg := func(call *ssa.CallCommon) (name, maker ssa.Value) {
		g := call.StaticCallee()
		if g == nil || g.Name() != "RegisterDistribution" || !inPkg(g, "registry") {
			return nil, nil
		}
		a := call.Args
		return a[len(a)-2], a[len(a)-1]
	}
	registered := map[string]bool{}
	sites := 0
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if inPkg(f, "registry") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nv, mv := isReg(call.Common())
				if nv == nil {
					continue
				}
				sites++
				at := c.P.PosOf(i)
				key := "registered:" + fname(f)
				c.Oblige(key, at, "what is registered makes parameters of the kind it is registered under", true)
				name, ok := constStr(nv)
				if !ok {
					ok = true
					in := flow.NewInterp(c.P, nil)
					in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
						return inRepo(s, g, args) && !inPkg(g, "registry")
					}
					in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
						if e.Kind == "call" && e.Instr == i.(ssa.Instruction) {
							got, is := e.Args[len(e.Args)-2].StrVal()
							if !is || name != "" && got != name {
								ok = false
							}
							name = got
						}
					}
					c.Explore(in, f, nil, nil)
					ok = ok && name != ""
				}
				if !ok {
					c.Fail(key, at, "the name a distribution is registered under is not a constant")
					continue
				}
				var maker *ssa.Function
				for v := mv; v != nil; {
					switch x := v.(type) {
					case *ssa.MakeInterface:
						v = x.X
						continue
					case *ssa.ChangeType:
						v = x.X
						continue
					case *ssa.MakeClosure:
						v = x.Fn
						continue
					case *ssa.Function:
						maker = x
					default:
						if m := method(c, v.Type(), "New"); m != nil {
							maker = m
						}
					}
					break
				}
				if maker == nil {
					c.Fail(key, at, "the maker registered under %q is not known", name)
					continue
				}
				for _, conf := range []string{"absent", "given"} {
					in := flow.NewInterp(c.P, nil)
					in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
						return inRepo(s, g, args) && !inPkg(g, "internal/typeassert")
					}
					in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
						if e.Kind != "exit" || len(e.Args) != 2 {
							return
						}
						if isNil, ok := s.Decide(ts.IsNil(e.Args[1])); ok && !isNil {
							if conf == "absent" {
								in.ReportAt(s, key, e.Instr, "parameters of kind %q cannot be had without configuration, so its records cannot be loaded", name)
							}
							return
						}
						ct := ifaceType(e.Args[0])
						if ct == nil || kindOf[deref(ct).String()] != name {
							in.ReportAt(s, key, e.Instr, "what is registered under %q makes parameters of another kind", name)
							return
						}
						registered[deref(ct).String()] = true
					}
					c.Explore(in, maker, nil, func(s *flow.State) {
						if conf == "absent" {
							for _, p := range maker.Params {
								if it, ok := p.Type().Underlying().(*types.Interface); ok && it.Empty() {
									s.Assume(ts.IsNil(ts.Sym("arg:"+p.Name()+":"+maker.Name(), p.Type())), true)
								}
							}
						}
					})
				}
				// it is registered on every path of an initialiser
				if f.Synthetic == "" && !strings.HasPrefix(f.Name(), "init") {
					c.Fail(key, at, "a distribution is not registered when the program starts")
				} else if f.Name() != "init" && len(b.Preds) > 0 {
					c.Fail(key, at, "a distribution is registered only sometimes")
				}
			}
		}
	}
	c.Count("registrations", sites)
	for _, t := range params {
		c.Oblige("known:"+short(t.String()), "dist", "parameters are registered under their kind", true)
		if !registered[deref(t).String()] {
			c.Fail("known:"+short(t.String()), "dist", "%s is not registered under its kind %q, so its records cannot be loaded", short(t.String()), kindOf[deref(t).String()])
		}
	}
}

// d06records: a record's kind and its distribution come from one source.
func d06records(c *Ctx, kindOf map[string]string, decoded map[string]types.Type) {
	ts := c.P.TS
	rec := c.P.ByPkg[flow.RepoPath+"/"+dataPkg].Types.Scope().Lookup("Record")
	if rec == nil {
		c.Fail("anchor:record", "data", "there is no record type")
		return
	}
	kf, df := field(rec.Type(), "Kind"), field(rec.Type(), "Distribution")
	if kf == nil || df == nil {
		c.Fail("anchor:record", "data/record.pb.go", "records have no kind or no distribution")
		return
	}
	generated := func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return r != nil && types.Identical(deref(r.Type()), rec.Type())
	}
	// the functions that set both: a helper that sets only one is looked at in
	// the functions that call it
	sets := map[*ssa.Function]int{}
	for _, f := range c.P.AllRepoFuncs() {
		eachOf(f, func(i ssa.Instruction) {
			if st, ok := i.(*ssa.Store); ok && !generated(f) {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldOf(fa) == kf {
					sets[f] |= 1
				} else if ok && fieldOf(fa) == df {
					sets[f] |= 2
				}
			}
		})
	}
	rel := map[*ssa.Function]bool{}
	roots := map[*ssa.Function]bool{}
	for f := range sets {
		roots[f] = true
	}
	for n := 0; n < 3; n++ {
		for f := range roots {
			rel[f] = true
			if sets[f] == 3 {
				continue
			}
			for _, g := range c.P.AllRepoFuncs() {
				if flow.PkgOf(g) == flow.PkgOf(f) && calls(g, f) {
					delete(roots, f)
					roots[g] = true
					rel[g] = true
					sets[g] |= sets[f]
				}
			}
		}
	}
	sites := map[string]bool{}
	c.Oblige("record", "data", "a record has the kind of the distribution it holds", true)
	var rs []*ssa.Function
	for f := range roots {
		rs = append(rs, f)
	}
	for _, root := range sortFns(rs) {
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			if rel[g] {
				return true
			}
			// helpers that yield an encoding or a kind
			res := g.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if isBytes(res.At(i).Type()) && !generated(g) && (flow.PkgOf(g) == flow.PkgOf(root) || strings.Contains(flow.PkgOf(g), "/dist")) {
					return true
				}
			}
			return false
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, "record", e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "call":
				e.Handled = isDist(e, "Dist", distKind) || isDist(e, "Dist", distMarshal) || isEncoder(e.Callee)
				switch {
				case isDist(e, "Dist", distKind), e.Callee != nil && e.Callee.Name() == "Kind" && kindOf[deref(recvType(e.Callee)).String()] != "":
					if e.Callee != nil {
						e.Result = ts.Str(kindOf[deref(recvType(e.Callee)).String()])
					} else {
						e.Result = ts.Mk("pure", "kind", types.Typ[types.String], e.Args[0])
					}
				case isDist(e, "Dist", distMarshal):
					out := in.Fresh(s, e, "encoded", types.NewSlice(types.Typ[types.Byte]))
					if !s.EqInt(in.Len(e.Args[1]), ts.Int(0)) {
						bad("a distribution is encoded behind other bytes")
						return
					}
					s.R["enc"], s.R["encdist"] = out, e.Args[0]
					e.Result = out
				case isEncoder(e.Callee):
					out := in.Fresh(s, e, "encoded", types.NewSlice(types.Typ[types.Byte]))
					if !s.EqInt(in.Len(e.Args[1]), ts.Int(0)) {
						bad("a distribution is encoded behind other bytes")
						return
					}
					s.R["enc"] = out
					delete(s.R, "encdist")
					s.D["enctype"] = deref(e.Callee.Signature.Recv().Type()).String()
					e.Result = out
				}
			case "store":
				if e.Addr == nil || e.Addr.Op != "faddr" || e.Addr.Obj != kf && e.Addr.Obj != df {
					return
				}
				sites[c.P.PosOf(e.Instr)] = true
				base := e.Addr.Args[0]
				if s.R["base"] != nil && !s.Same(s.R["base"], base) {
					if (s.R["kind"] == nil) != (s.R["dist"] == nil) {
						bad("another record gets its kind or its distribution before this one has both")
						return
					}
					delete(s.R, "kind")
					delete(s.R, "dist")
				}
				s.R["base"] = base
				if e.Addr.Obj == kf {
					s.R["kind"] = e.Val
				} else {
					if s.R["enc"] == nil || !s.Same(e.Val, s.R["enc"]) {
						bad("the distribution of a record is not what was just encoded")
						return
					}
					s.R["dist"] = e.Val
				}
				if s.R["kind"] == nil || s.R["dist"] == nil {
					return
				}
				k := s.R["kind"]
				name, isConst := k.StrVal()
				switch {
				case k.Op == "pure" && k.Name == "kind":
					if s.R["encdist"] == nil || !s.Same(k.Args[0], s.R["encdist"]) {
						bad("the kind is of another distribution than the one encoded")
						return
					}
				case isConst:
					if s.R["encdist"] != nil {
						bad("the kind %q is given whatever distribution was encoded", name)
						return
					}
					if decoded[name] == nil || deref(decoded[name]).String() != s.D["enctype"] {
						bad("the kind %q is not one that decodes %s", name, short(s.D["enctype"]))
						return
					}
				default:
					bad("the kind of a record does not come from its distribution")
					return
				}
				delete(s.R, "kind")
				delete(s.R, "dist")
			case "exit":
				if (s.R["kind"] == nil) != (s.R["dist"] == nil) {
					if er := errResult(root.Signature); er >= 0 && er < len(e.Args) {
						if isNil, ok := s.Decide(ts.IsNil(e.Args[er])); ok && !isNil {
							return
						}
					}
					bad("a record has only one of kind and distribution")
				}
			}
		}
		c.Explore(in, root, nil, nil)
	}
	c.Count("stores of kinds and distributions", len(sites))
	if len(sites) == 0 {
		c.Fail("anchor:stores", "data", "no record gets a kind")
	}
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// d06load: what loads a record uses its kind and its bytes.
func d06load(c *Ctx) {
	ts := c.P.TS
	rec := c.P.ByPkg[flow.RepoPath+"/"+dataPkg].Types.Scope().Lookup("Record").Type()
	kf, df := field(rec, "Kind"), field(rec, "Distribution")
	isUn := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && call.Common().IsInvoke() && call.Common().Method.Name() == "Unmarshal" && isIface(call.Common().Value.Type(), "Params")
	}
	var roots []*ssa.Function
	direct := map[*ssa.Function]bool{}
	for _, f := range c.P.AllRepoFuncs() {
		eachOf(f, func(i ssa.Instruction) { direct[f] = direct[f] || isUn(i) })
	}
	hasRec := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if types.Identical(deref(p.Type()), rec) {
				return true
			}
		}
		return false
	}
	for f := range direct {
		if !direct[f] {
			continue
		}
		if hasRec(f) {
			roots = append(roots, f)
			continue
		}
		n := len(roots)
		for _, g := range c.P.AllRepoFuncs() {
			if calls(g, f) {
				roots = append(roots, g)
			}
		}
		if len(roots) == n {
			roots = append(roots, f)
		}
	}
	sites := map[string]bool{}
	c.Oblige("load", "data/load", "a record is loaded by its own kind from its own bytes", true)
	fieldFrom := func(t *flow.Term, v *types.Var) *flow.Term { // what a field was read from
		if t == nil {
			return nil
		}
		switch {
		case (t.Op == "field" || t.Op == "faddr") && t.Obj == v:
			return t.Args[0]
		case t.Op == "load" && len(t.Args) > 0 && t.Args[0].Op == "faddr" && t.Args[0].Obj == v:
			return t.Args[0].Args[0]
		}
		return nil
	}
	for _, root := range sortFns(roots) {
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return direct[g] || flow.PkgOf(g) == flow.PkgOf(root)
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, "load", e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "call":
				switch {
				case e.Callee != nil && e.Callee.Name() == "NewDistribution" && inPkg(e.Callee, "registry"):
					res := e.Callee.Signature.Results()
					got := in.Fresh(s, e, "params", res.At(0).Type())
					err := in.Fresh(s, e, "err", res.At(1).Type())
					var name *flow.Term
					for _, a := range e.Args {
						if a.T == nil {
							continue
						}
						if b, ok := a.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
							name = a
						}
					}
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", res, got, ts.Nil()), Note: "the kind is known", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(got), false)
							s.R["params"], s.R["name"] = got, name
						}},
						flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "the kind is not known", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["unknown"] = "1"
						}})
				case isDist(e, "Params", ").Unmarshal"):
					sites[c.P.PosOf(e.Instr)] = true
					if s.R["params"] == nil || !s.Same(e.Args[0], s.R["params"]) {
						bad("bytes are decoded with parameters that were not looked up by a kind")
						return
					}
					kb, db := fieldFrom(s.R["name"], kf), fieldFrom(e.Args[1], df)
					if kb == nil || db == nil || !s.Same(kb, db) {
						bad("the bytes decoded and the kind looked up are not those of one record")
						return
					}
					res := e.Method.Type().(*types.Signature).Results()
					got := in.Fresh(s, e, "dist", res.At(0).Type())
					err := in.Fresh(s, e, "err", res.At(1).Type())
					s.R["loaded"] = got
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", res, got, ts.Nil()), Note: "the bytes decode", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(got), false)
						}},
						flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "the bytes do not decode", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["unknown"] = "1"
						}})
				}
			case "exit":
				res := root.Signature.Results()
				if res.Len() != 2 || !isIface(res.At(0).Type(), "Dist") {
					return
				}
				isNil, ok := s.Decide(ts.IsNil(e.Args[1]))
				switch {
				case ok && !isNil:
					if s.D["unknown"] != "1" {
						bad("a record that can be loaded is refused")
					}
				case s.D["unknown"] == "1":
					bad("a record that cannot be loaded is returned without an error")
				case s.R["loaded"] == nil || !s.Same(e.Args[0], s.R["loaded"]):
					bad("what is returned is not the distribution loaded")
				}
			}
		}
		c.Explore(in, root, nil, nil)
	}
	c.Count("loads", len(sites))
	if len(sites) == 0 {
		c.Fail("anchor:load", "data/load", "no record is loaded by its kind")
	}
}

// d06resample: everything that dispatches on a record's kind accepts every
// kind that can be written, and decodes it with its own codec.
func d06resample(c *Ctx, kindOf map[string]string, params []types.Type, decoders map[string]map[*ssa.Function]bool) {
	ts := c.P.TS
	rec := c.P.ByPkg[flow.RepoPath+"/"+dataPkg].Types.Scope().Lookup("Record").Type()
	st := rec.Underlying().(*types.Struct)
	kinds := map[string]bool{}
	for _, t := range params {
		kinds[kindOf[deref(t).String()]] = true
	}
	var fs []*ssa.Function
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if !inPkg(f, mergePkg) || f.Parent() != nil {
			continue
		}
		one := false
		for _, p := range f.Params {
			one = one || types.Identical(deref(p.Type()), rec)
		}
		direct := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok && isDecoder(call.Common().StaticCallee()) {
					direct = true
				}
			}
		}
		if direct || one && reachesDecoder(f, rec) {
			if !one {
				c.Fail("anchor:resample", c.P.Pos(f.Pos()), "%s decodes a distribution outside of a record", fname(f))
				continue
			}
			fs = append(fs, f)
		}
	}
	c.Count("functions that resample", len(fs))
	if len(fs) == 0 {
		c.Fail("anchor:resample", mergePkg, "nothing resamples records")
		return
	}
	c.Oblige("resample", c.P.Pos(fs[0].Pos()), "records of every kind are resampled with the codec of their kind", true)
	for _, f := range fs {
		for kind := range kinds {
			kind := kind
			in := flow.NewInterp(c.P, nil)
			in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
				return strings.HasPrefix(flow.PkgOf(g), flow.RepoPath)
			}
			var r *flow.Term
			var rp *ssa.Parameter
			var fsyms []*flow.Term
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Kind" {
					fsyms = append(fsyms, ts.Str(kind))
				} else {
					fsyms = append(fsyms, ts.Sym("rec:"+st.Field(i).Name(), st.Field(i).Type()))
				}
			}
			for _, p := range f.Params {
				if types.Identical(deref(p.Type()), rec) {
					rp = p
				}
			}
			if types.Identical(rp.Type(), rec) {
				r = ts.Struct(rec, fsyms)
			}
			in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
				bad := func(format string, a ...interface{}) {
					in.ReportAt(s, "resample", e.Instr, format, a...)
					s.Kill()
				}
				switch e.Kind {
				case "call":
					if e.Callee == nil || strings.HasPrefix(flow.PkgOf(e.Callee), flow.RepoPath) {
						return
					}
					if isDecoder(e.Callee) {
						if !decoders[kind][e.Callee] {
							bad("a record of kind %q is decoded with %s, which is not what its parameters use", kind, short(e.Callee.String()))
							return
						}
						if !s.Same(e.Args[0], ts.Sym("rec:Distribution", types.NewSlice(types.Typ[types.Byte]))) {
							bad("something else than the distribution of the record is decoded")
							return
						}
						res := e.Callee.Signature.Results()
						got := in.Fresh(s, e, "other", res.At(0).Type())
						err := in.Fresh(s, e, "err", res.At(1).Type())
						e.Fork(
							flow.Alt{Result: ts.Mk("tuple", "", res, got, ts.Nil()), Note: "the bytes decode", Do: func(s *flow.State) {
								s.Assume(ts.IsNil(got), false)
								s.R["other"] = got
							}},
							flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "the bytes do not decode", Do: func(s *flow.State) {
								s.Assume(ts.IsNil(err), false)
								s.D["failed"] = "1"
							}})
						return
					}
					// what takes the decoded distribution is where it ends up
					for _, a := range e.Args {
						if s.R["other"] != nil && s.Same(a, s.R["other"]) {
							s.D["used"] = "1"
							sig := e.Callee.Signature
							if n := errResult(sig); n >= 0 && sig.Results().Len() == 1 {
								err := in.Fresh(s, e, "merge", sig.Results().At(0).Type())
								e.Fork(
									flow.Alt{Result: ts.Nil(), Note: "it is merged"},
									flow.Alt{Result: err, Note: "it cannot be merged", Do: func(s *flow.State) {
										s.Assume(ts.IsNil(err), false)
										s.D["failed"] = "1"
									}})
							}
						}
					}
				case "exit":
					n := errResult(f.Signature)
					if n < 0 || n >= len(e.Args) {
						return
					}
					isNil, ok := s.Decide(ts.IsNil(e.Args[n]))
					switch {
					case ok && !isNil:
						if s.D["failed"] != "1" {
							bad("a record of the kind %q cannot be resampled", kind)
						}
					case s.D["failed"] == "1":
						bad("a record that cannot be decoded is passed over without an error")
					case s.D["used"] != "1" && !(s.R["other"] != nil && len(e.Args) > 1 && s.Refers(e.Args[0], s.R["other"])):
						bad("a record of the kind %q is passed over", kind)
					}
				}
			}
			var args []*flow.Term
			for _, p := range f.Params {
				if p == rp && r != nil {
					args = append(args, r)
				} else {
					args = append(args, ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type()))
				}
			}
			c.Explore(in, f, args, func(s *flow.State) {
				if r == nil {
					for i := 0; i < st.NumFields(); i++ {
						s.Store(ts.FieldAddr(ts.Sym("arg:"+rp.Name()+":"+f.Name(), rp.Type()), st.Field(i)), fsyms[i], st.Field(i).Type())
					}
				}
			})
		}
	}
}

// reachesDecoder reports a function that decodes what it is given itself, or
// through functions that are not given a record.
func reachesDecoder(f *ssa.Function, rec types.Type) bool {
	found := false
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || found || !strings.HasPrefix(flow.PkgOf(g), flow.RepoPath) {
			return
		}
		for _, p := range g.Params {
			if g != f && types.Identical(deref(p.Type()), rec) {
				return
			}
		}
		seen[g] = true
		eachOf(g, func(i ssa.Instruction) {
			if call, ok := i.(ssa.CallInstruction); ok {
				if h := call.Common().StaticCallee(); h != nil {
					if isDecoder(h) {
						found = true
						return
					}
					walk(h)
				}
			}
		})
	}
	walk(f)
	return found
}

// runD07: the underlying distribution is whatever field of a distribution
// type comes from outside of the module; any other field may hold memoised
// answers.
func runD07(c *Ctx) {
	ts := c.P.TS
	dists := implementers(c, "Dist")
	c.Count("distribution types", len(dists))
	if len(dists) == 0 {
		c.Fail("anchor:types", "dist", "no type implements a distribution")
	}
	for _, t := range dists {
		var under *types.Var
		var memos []*types.Var
		for _, v := range fields(t) {
			n, _ := deref(v.Type()).(*types.Named)
			if n != nil && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), flow.RepoPath) && under == nil {
				under = v
			} else {
				memos = append(memos, v)
			}
		}
		if under == nil {
			c.Fail("anchor:"+short(t.String()), "dist", "%s holds no underlying distribution", short(t.String()))
			continue
		}
		var ms []*ssa.Function
		nt := deref(t).(*types.Named)
		for i := 0; i < nt.NumMethods(); i++ {
			if f := c.P.SSA.FuncValue(nt.Method(i)); f != nil && f.Blocks != nil {
				ms = append(ms, f)
			}
		}
		for _, f := range sortFns(ms) {
			c.Count("operations", 1)
			d07method(c, ts, t, f, under, memos)
		}
		// nobody else changes a distribution that may be memoised
		key := "others:" + short(deref(t).String())
		c.Oblige(key, "dist", "the underlying distribution is changed only by its own operations", true)
		for _, f := range sortFns(c.P.AllRepoFuncs()) {
			if r := f.Signature.Recv(); r != nil && types.Identical(deref(r.Type()), nt) {
				continue
			}
			eachOf(f, func(i ssa.Instruction) {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) == nil {
					return
				}
				for _, v := range memos {
					if fieldOf(fa) == v {
						for _, r := range *fa.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == fa {
								if _, fresh := fa.X.(*ssa.Alloc); !fresh {
									c.Fail(key, c.P.PosOf(i), "%s sets memoised answers of a distribution", fname(f))
								}
							}
						}
					}
				}
			})
		}
	}
}

// readOnly are the operations of an underlying distribution that leave what it
// answers as it is.
func readOnly(f *ssa.Function) bool {
	switch f.Name() {
	case "Quantile", "CDF", "Count", "Marshal", "ForEachCentroid", "String":
		return true
	}
	return false
}

func d07method(c *Ctx, ts *flow.Terms, t types.Type, f *ssa.Function, under *types.Var, memos []*types.Var) {
	key := f.Name()
	at := c.P.Pos(f.Pos())
	self := ts.Sym("arg:"+f.Params[0].Name()+":"+f.Name(), f.Params[0].Type())
	_, byPtr := f.Params[0].Type().Underlying().(*types.Pointer)
	c.Oblige("stale:"+key, at, "no memoised answer outlives a change of the distribution", true)
	c.Oblige("memo:"+key, at, "answers are memoised under the question asked, and used for it while current", true)
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return strings.Contains(flow.PkgOf(g), flow.RepoPath+"/dist")
	}
	memoAddr := func(a *flow.Term) *types.Var {
		if a != nil && a.Op == "faddr" {
			for _, v := range memos {
				if a.Obj == v && byPtr && a.Args[0] == self {
					return v
				}
			}
		}
		return nil
	}
	initial := map[*types.Var]*flow.Term{}
	cur := func(s *flow.State, v *types.Var) *flow.Term { // what the memo field holds
		if !byPtr {
			return initial[v]
		}
		return s.Load(ts.FieldAddr(self, v), v.Type(), "rule.memo:"+v.Name())
	}
	isUnder := func(s *flow.State, x *flow.Term) bool {
		if s.R["under"] != nil && s.Same(x, s.R["under"]) {
			return true
		}
		return false
	}
	param := func(i int) *flow.Term {
		return ts.Sym("arg:"+f.Params[i].Name()+":"+f.Name(), f.Params[i].Type())
	}
	question := func(x *flow.Term) *flow.Term { return ts.Mk("pure", "answer", types.Typ[types.Float64], x) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		memoOf := func(m *flow.Term) *types.Var {
			for _, v := range memos {
				if x := cur(s, v); x != nil && s.Same(x, m) {
					return v
				}
			}
			return nil
		}
		// every memoised answer was deleted, one by one
		swept := func(v *types.Var) bool {
			if s.D["sweep:"+v.Name()] != "look" {
				return false
			}
			more, known := s.Decide(s.R["sweepok:"+v.Name()])
			return known && !more
		}
		switch e.Kind {
		case "call":
			g := e.Callee
			if g == nil || strings.HasPrefix(flow.PkgOf(g), flow.RepoPath) {
				return
			}
			for n, a := range e.Args {
				if !isUnder(s, a) {
					continue
				}
				if readOnly(g) {
					if n == 0 && g.Name() == "Quantile" && len(e.Args) == 2 {
						e.Result = question(e.Args[1])
						if s.D["changed"] != "" {
							e.Result = ts.Mk("pure", "answer", types.Typ[types.Float64], e.Args[1], ts.Str(s.D["changed"]))
						}
					}
					continue
				}
				if s.D["changed"] == "" {
					s.D["changed"] = "1"
				}
				for _, v := range memos {
					if swept(v) {
						s.D["memo:"+v.Name()] = "empty"
					}
					delete(s.D, "sweep:"+v.Name())
					if s.D["memo:"+v.Name()] != "empty" {
						s.D["memo:"+v.Name()] = "stale"
					}
				}
				if f.Name() == "Observe" && n == 0 && g.Name() == "Add" {
					if s.D["observed"] == "1" || !s.Same(e.Args[1], param(1)) {
						bad("observe", "something else than the value observed is added, or it is added again")
						return
					}
					s.D["observed"] = "1"
				} else if f.Name() == "Observe" {
					s.D["observed"] = "1"
				}
			}
		case "clear":
			if v := memoOf(e.Args[0]); v != nil {
				s.D["memo:"+v.Name()] = "empty"
			}
		case "next":
			if v := memoOf(e.Args[0]); v != nil {
				switch s.D["sweep:"+v.Name()] {
				case "", "clean":
					s.D["sweep:"+v.Name()] = "look"
				default:
					s.D["sweep:"+v.Name()] = "dirty" // an entry was left
				}
				s.R["sweepok:"+v.Name()], s.R["sweepkey:"+v.Name()] = e.Args[1], e.Args[2]
			}
		case "mapdel":
			if v := memoOf(e.Addr); v != nil && s.D["sweep:"+v.Name()] == "look" && s.Same(e.Args[1], s.R["sweepkey:"+v.Name()]) {
				s.D["sweep:"+v.Name()] = "clean"
			}
		case "store":
			v := memoAddr(e.Addr)
			if v == nil {
				if byPtr && e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Obj == under && e.Addr.Args[0] == self {
					bad("stale:"+key, "the underlying distribution is replaced")
				}
				return
			}
			if e.Val.Op == "nil" || s.Same(e.Val, ts.Zero(v.Type())) {
				s.D["memo:"+v.Name()] = "empty"
				return
			}
			switch {
			case e.Val.Op == "make" || e.Val.Op == "alloc":
				s.D["memo:"+v.Name()] = "empty"
			case s.Same(e.Val, cur(s, v)):
			default:
				if _, isMap := v.Type().Underlying().(*types.Map); isMap {
					bad("memo:"+key, "memoised answers are replaced by others")
				} else {
					s.D["memo:"+v.Name()] = "ok" // a single answer: just computed
				}
			}
		case "mapset":
			v := memoOf(e.Args[0])
			if v == nil {
				return
			}
			if !s.Same(e.Args[2], question(e.Args[1])) && !(s.D["changed"] != "" && s.Same(e.Args[2], ts.Mk("pure", "answer", types.Typ[types.Float64], e.Args[1], ts.Str(s.D["changed"])))) {
				bad("memo:"+key, "what is memoised is not the answer to the question it is memoised under")
				return
			}
			if s.D["memo:"+v.Name()] == "empty" {
				s.D["memo:"+v.Name()] = "ok"
			}
		case "mapgot":
			v := memoOf(e.Args[0])
			if v == nil || !e.Block {
				return
			}
			if s.D["memo:"+v.Name()] == "stale" && !swept(v) {
				bad("memo:"+key, "a memoised answer is used after the distribution changed")
				return
			}
			e.Result = question(e.Args[1])
			if s.D["changed"] != "" {
				e.Result = ts.Mk("pure", "answer", types.Typ[types.Float64], e.Args[1], ts.Str(s.D["changed"]))
			}
		case "exit":
			for _, v := range memos {
				if m := cur(s, v); m != nil && s.Must(ts.IsNil(m)) {
					continue // none at all
				}
				if s.D["memo:"+v.Name()] == "stale" && !swept(v) {
					bad("stale:"+key, "%s memoised before the distribution changed is still used after %s", v.Name(), f.Name())
					return
				}
			}
			if f.Name() == "Observe" && s.D["observed"] != "1" {
				bad("observe", "an observed value is not added to the distribution before Observe returns")
			}
			if f.Name() == "Query" && len(e.Args) == 1 && len(f.Params) == 2 {
				if !s.Same(e.Args[0], question(param(1))) {
					bad("query", "a query is not answered by the underlying distribution")
				}
			}
		}
	}
	if f.Name() == "Observe" {
		c.Oblige("observe", at, "every observed value is added before Observe returns", true)
	}
	if f.Name() == "Query" {
		c.Oblige("query", at, "a query is answered by the underlying distribution or a current memoised answer", true)
	}
	c.Explore(in, f, nil, func(s *flow.State) {
		for _, v := range memos {
			s.D["memo:"+v.Name()] = "ok"
		}
		if byPtr {
			s.R["under"] = s.Load(ts.FieldAddr(self, under), under.Type(), "rule.under")
		} else {
			st := deref(t).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				x := ts.Field(self, i, st)
				if st.Field(i) == under {
					s.R["under"] = x
				}
				initial[st.Field(i)] = x
			}
		}
	})
}
