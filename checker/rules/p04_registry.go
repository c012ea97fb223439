package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P04", Technique: "lockset and typestate analysis of the registry over inlined SSA, and nil-receiver analysis of the optional resources",
		Explain: "The maps of a registry are used only under its lock, the lock is released on every path and never held while a component is constructed; a lookup returns what the constructor registered under exactly that name returned, or a non-nil error; registering stores the constructor under exactly its name. Missing loggers and monitors are never called.",
		Min:     8,
		Run:     runP04,
	})
}

func runP04(c *Ctx) {
	ts := c.P.TS
	pkg := c.P.ByPkg[flow.RepoPath+"/registry"]
	if pkg == nil || pkg.Types == nil {
		c.Fail("anchor:registry", "registry", "the registry was not found")
		return
	}
	// the registry is the type with a lock and the maps of constructors
	var reg types.Type
	for _, n := range pkg.Types.Scope().Names() {
		tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		g := newGuard("lock", "the registry", tn.Type(), isMapField)
		if len(g.mu) > 0 && len(g.fields) > 0 {
			reg = tn.Type()
		}
	}
	if reg == nil {
		c.Fail("anchor:registry", "registry", "no type holds registered constructors and a lock")
		return
	}
	g := newGuard("lock", "the registry", reg, isMapField)
	c.Oblige("lock", "registry/registry.go", "the registered constructors are used only under the lock, which is always released", true)
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		fa, ok := i.(*ssa.FieldAddr)
		return ok && g.touches(fieldOf(fa))
	})
	lookups, registers := 0, 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, "registry") || !rel[f] || len(f.Blocks) == 0 || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		var name, maker *ssa.Parameter
		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				name = p
			}
			if isMaker(p.Type()) && !types.Identical(deref(p.Type()), reg) {
				maker = p
			}
		}
		if name == nil {
			continue
		}
		nameT := ts.Sym("arg:"+name.Name()+":"+f.Name(), name.Type())
		lookup := maker == nil && errResult(f.Signature) >= 0
		key := "register:" + fname(f)
		if lookup {
			key = "lookup:" + fname(f)
			lookups++
			c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" constructs what is registered under the name, without the lock, or fails", true)
		} else if maker != nil {
			registers++
			c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" stores the constructor under its name", true)
		} else {
			continue
		}
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, "registry") }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			if g.hook(in, s, e) {
				return
			}
			switch e.Kind {
			case "mapgot":
				if g.guardedMap(e.Typ) && lookup {
					if !s.Same(e.Args[1], nameT) {
						bad("another name is looked up than the one asked for")
						return
					}
					s.D["found"] = "no"
					if e.Block {
						s.D["found"] = "maybe"
						if l, ok := e.Instr.(*ssa.Lookup); ok && l.CommaOk {
							s.D["found"] = "yes"
						}
						s.R["found"] = e.Val
					}
				}
			case "mapset":
				if !g.guardedMap(e.Typ) {
					return
				}
				if maker == nil || !s.Same(e.Args[1], nameT) || !s.Same(stripIface(e.Args[2]), ts.Sym("arg:"+maker.Name()+":"+f.Name(), maker.Type())) {
					bad("something else is stored than the constructor under its name")
					return
				}
				s.D["stored"] = "1"
			case "call":
				m := e.Method
				if m == nil || e.Callee != nil || len(e.Args) == 0 || errResult(m.Type().(*types.Signature)) < 0 || s.R["found"] == nil || !s.Same(e.Args[0], s.R["found"]) {
					return
				}
				if s.D["held:"+g.key] != "" {
					bad("a component is constructed while the registry is locked: it cannot use the registry, and nobody else can")
					return
				}
				isnil, known := s.IsNil(e.Args[0])
				if s.D["found"] != "yes" && !(known && !isnil) {
					bad("a component may be constructed although none is registered under the name")
					return
				}
				for i, p := range f.Params {
					if i > 0 && p != name && p.Name() != "_" && (types.IsInterface(p.Type())) {
						found := false
						for _, a := range e.Args[1:] {
							found = found || s.Same(a, ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type()))
						}
						if !found {
							bad("the component is constructed without the %s it was asked for", p.Name())
							return
						}
					}
				}
				c.Count("constructions", 1)
				rs := m.Type().(*types.Signature).Results()
				v := in.Fresh(s, e, "component", rs.At(0).Type())
				err := in.Fresh(s, e, "err", rs.At(1).Type())
				s.R["component"], s.R["err"] = v, err
				e.Handled = true
				e.Result = ts.Mk("tuple", "", rs, v, err)
			case "exit":
				if lookup {
					v, err := e.Args[0], e.Args[len(e.Args)-1]
					if s.R["component"] != nil {
						if !s.Same(err, s.R["err"]) && !carries(err, s.R["err"]) {
							bad("the error of the constructor is not what the lookup returns")
							return
						}
						if en, known := s.IsNil(err); !s.Same(v, s.R["component"]) && !(known && !en) {
							bad("the lookup does not return the component that was constructed")
						}
						return
					}
					if en, known := s.IsNil(err); !known || en {
						bad("the lookup succeeds although nothing was constructed")
					}
					c.Count("failed lookups", 1)
				} else if s.D["stored"] == "" {
					bad("the constructor is not stored on every path")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	c.Count("lookup functions", lookups)
	c.Count("register functions", registers)
	if lookups < 2 || registers < 2 || c.Counts["constructions"] == 0 || c.Counts["failed lookups"] == 0 {
		c.Fail("anchor:functions", "registry/registry.go", "the functions that register and look up components were not found")
	}
	p04resources(c)
}

func isMapField(v *types.Var) bool {
	_, ok := v.Type().Underlying().(*types.Map)
	return ok
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// isMaker: the type can construct something that may fail.
func isMaker(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if sig, ok := ms.At(i).Type().(*types.Signature); ok && sig.Results().Len() == 2 && errResult(sig) >= 0 {
			return true
		}
	}
	return false
}

func stripIface(t *flow.Term) *flow.Term {
	for t != nil && (t.Op == "iface" || t.Op == "conv") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// p04resources: a missing logger or monitor is never called, one that is there
// is handed what the caller said.
func p04resources(c *Ctx) {
	ts := c.P.TS
	n := 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, "external") || len(f.Blocks) == 0 || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || strings.HasPrefix(f.Name(), "init") {
			continue
		}
		key := "resource:" + fname(f)
		n++
		c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" passes on exactly what it is given, if there is somebody to pass it on to", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, "external") }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "call":
				if e.Method == nil || e.Callee != nil || len(e.Args) == 0 {
					return
				}
				if isnil, known := s.IsNil(e.Args[0]); !known || isnil {
					in.ReportAt(s, key, e.Instr, "a resource is used although there may be none")
					s.Kill()
					return
				}
				ps := f.Params
				if f.Signature.Recv() != nil {
					ps = ps[1:]
				}
				same := e.Method.Name() == f.Name() && len(ps) == len(e.Args)-1
				for i, p := range ps {
					same = same && s.Same(e.Args[i+1], ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type()))
				}
				if !same {
					in.ReportAt(s, key, e.Instr, "something else is passed on than what was given")
					s.Kill()
					return
				}
				c.Count("resource uses", 1)
				s.D["passed"] = "1"
			case "exit":
				none := false
				s.EachTrue(func(t *flow.Term) { none = none || t.Op == "isnil" })
				if s.D["passed"] == "" && !none {
					in.ReportAt(s, key, e.Instr, "nothing is passed on although there is a resource")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if n < 3 || c.Counts["resource uses"] < 3 {
		c.Fail("anchor:external", "external", "the optional resources were not found")
	}
}
