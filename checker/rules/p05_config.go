package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P05", Technique: "path-sensitive typestate of every dynamically typed setting over inlined SSA of the constructors, the typed accessors and the loader",
		Explain: "On every path through a registered constructor on which a present setting was found not to have any of the types tried for it, the constructor fails; settings are never converted with an assertion that panics. Every accessor keeps an earlier error, records one when the type is wrong and otherwise yields exactly the value. The loader fails when parsing fails and unless there is exactly one database and one distribution, and returns what was parsed.",
		Min:     8,
		Run:     runP05,
	})
}

// maker is a constructor that was registered under a name.
type maker struct {
	name string
	fn   *ssa.Function
	made types.Type
	conf *ssa.Parameter
}

// makersOf finds what is registered when the packages are initialised.
func makersOf(c *Ctx) []maker {
	ts := c.P.TS
	isReg := func(f *ssa.Function) bool {
		if f == nil || !inPkg(f, "registry") || !strings.Contains(f.Name(), "Register") {
			return false
		}
		return true
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && isReg(call.Common().StaticCallee())
	})
	var out []maker
	seen := map[string]bool{}
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if !rel[f] || f.Parent() != nil || f.Signature.Recv() != nil || inPkg(f, "registry") || !strings.HasPrefix(f.Name(), "init") || len(f.Params) > 0 || f.Pos() == 0 && f.Name() == "init" {
			continue
		}
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
			if isReg(h) {
				return false
			}
			return rel[h] || flow.PkgOf(h) == flow.PkgOf(f) && len(h.Blocks) == 1 // a name that a method gives
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind != "call" || !isReg(e.Callee) {
				return
			}
			e.Handled = true
			var name string
			var fn *ssa.Function
			for _, a := range e.Args {
				if v, ok := a.StrVal(); ok {
					name = v
				}
				if a.Op == "iface" && a.T != nil && !isFuncType(a.T) {
					if m := method(c, a.T, "New"); m != nil {
						fn = m
					}
				}
				if x := stripIface(a); x.Fn != nil {
					fn = x.Fn
				}
			}
			key := "maker:" + name
			if name == "" || fn == nil {
				c.Fail("maker:"+c.P.PosOf(e.Instr), c.P.PosOf(e.Instr), "what is registered here was not recognised")
				return
			}
			if seen[key+fn.String()] {
				return
			}
			seen[key+fn.String()] = true
			m := maker{name: name, fn: fn, made: fn.Signature.Results().At(0).Type()}
			for _, p := range fn.Params {
				if i, ok := p.Type().Underlying().(*types.Interface); ok && i.Empty() {
					m.conf = p
				}
			}
			out = append(out, m)
		}
		c.Explore(in, f, nil, nil)
	}
	_ = ts
	return out
}

func isFuncType(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

// cfgPath is the path of a setting, "" for the whole of it.
func cfgPath(t *flow.Term) (string, bool) {
	if t != nil && t.Op == "sym" && (t.Name == "cfg" || strings.HasPrefix(t.Name, "cfg.")) {
		return strings.TrimPrefix(strings.TrimPrefix(t.Name, "cfg"), "."), true
	}
	return "", false
}

// dynamic follows the settings of a constructor: ok reads and failed reads.
func (m maker) explore(c *Ctx, key string, hook func(in *flow.Interp, s *flow.State, e *flow.Event)) {
	m.exploreWith(c, key, func(*ssa.Function) bool { return false }, hook)
}

func (m maker) exploreWith(c *Ctx, key string, more func(*ssa.Function) bool, hook func(in *flow.Interp, s *flow.State, e *flow.Event)) {
	ts := c.P.TS
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		_, ok := i.(*ssa.TypeAssert)
		return ok
	})
	in := flow.NewInterp(c.P, nil)
	in.ErrKeys = true
	in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
		if !c.P.InRepo(h) || len(h.Blocks) == 0 {
			return false
		}
		return rel[h] || more(h) || inPkg(h, "internal/typeassert") || flow.PkgOf(h) == flow.PkgOf(m.fn) && errResult(h.Signature) >= 0
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if e.Kind == "ret" && inPkg(e.Callee, "internal/typeassert") && e.Val != nil && e.Val.Op == "alloc" {
			s.D["cur"] = e.Val.String() // keeps what it holds apart
		}
		if e.Kind == "mapgot" {
			x := e.Args[0]
			if x.Op == "assert" {
				if p, ok := cfgPath(x.Args[0]); ok {
					k, isStr := e.Args[1].StrVal()
					if !isStr {
						in.ReportAt(s, key, e.Instr, "a setting is looked up under a name that is not known")
						s.Kill()
						return
					}
					if e.Block {
						e.Result = ts.Sym(strings.TrimSuffix("cfg."+p, ".")+"."+k, e.Typ.Underlying().(*types.Map).Elem())
					}
				}
			}
		}
		hook(in, s, e)
	}
	var args []*flow.Term
	for _, p := range m.fn.Params {
		if p == m.conf {
			args = append(args, ts.Sym("cfg", p.Type()))
		} else {
			args = append(args, ts.Sym("arg:"+p.Name()+":"+m.fn.Name(), p.Type()))
		}
	}
	c.Explore(in, m.fn, args, nil)
}

func runP05(c *Ctx) {
	// A value of the right type is used as it is written.
	c.Include("P07", func(key, where, msg string) bool {
		return key == "uses" || strings.HasPrefix(key, "options:") || strings.HasPrefix(key, "used:")
	})
	ms := makersOf(c)
	c.Count("constructors", len(ms))
	for _, m := range ms {
		m := m
		key := "construct:" + m.name
		c.Oblige(key, c.P.Pos(m.fn.Pos()), "constructing "+m.name+" fails when a setting has the wrong type", true)
		if m.conf == nil {
			c.Fail(key, c.P.Pos(m.fn.Pos()), "the constructor of %s takes no settings", m.name)
			continue
		}
		m.explore(c, key, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "asserted":
				p, ok := cfgPath(e.Args[0])
				if !ok {
					return
				}
				if e.Block {
					delete(s.D, "wrong:"+p)
					c.Count("settings read", 1)
				} else if nil_, known := s.IsNil(e.Args[0]); !known || !nil_ {
					s.D["wrong:"+p] = "1"
				}
			case "assert":
				if _, ok := cfgPath(e.Args[0]); ok {
					in.ReportAt(s, key, e.Instr, "a setting of the wrong type makes the process panic")
					s.Kill()
				}
			case "exit":
				err := e.Args[len(e.Args)-1]
				if n, known := s.IsNil(err); known && !n {
					c.Count("refusals", 1)
					return
				}
				for d := range s.D {
					if strings.HasPrefix(d, "wrong:") && s.D[d] != "" {
						in.ReportAt(s, key, e.Instr, "constructed although the setting %q has the wrong type", strings.TrimPrefix(d, "wrong:"))
						s.Kill()
						return
					}
				}
			}
		})
	}
	if len(ms) < 3 || c.Counts["settings read"] < 3 || c.Counts["refusals"] < 3 {
		c.Fail("anchor:constructors", "registry", "the registered constructors were not found")
	}
	p05accessors(c)
	p05load(c)
}

// p05accessors: the accessors keep the first error, and add one when needed.
func p05accessors(c *Ctx) {
	ts := c.P.TS
	pkg := c.P.ByPkg[flow.RepoPath+"/internal/typeassert"]
	if pkg == nil || pkg.Types == nil {
		return // the constructors do without
	}
	for _, n := range pkg.Types.Scope().Names() {
		tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		var val, errp *types.Var
		for _, v := range fields(tn.Type()) {
			if i, ok := v.Type().Underlying().(*types.Interface); ok && i.Empty() {
				val = v
			}
			if p, ok := v.Type().Underlying().(*types.Pointer); ok && p.Elem().String() == "error" {
				errp = v
			}
		}
		if val == nil || errp == nil {
			continue
		}
		errT := errp.Type().Underlying().(*types.Pointer).Elem()
		ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(tn.Type()))
		for i := 0; i < ms.Len(); i++ {
			f := c.P.SSA.MethodValue(ms.At(i))
			if f == nil || f.Synthetic != "" || !f.Object().Exported() || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			f = f
			rt := f.Signature.Results().At(0).Type()
			if types.IsInterface(rt) {
				continue // Err and V only hand out what there is
			}
			child := types.Identical(rt, types.NewPointer(tn.Type()))
			key := "accessor:" + fname(f)
			c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" records a wrong type, keeps an earlier error, and yields the value", true)
			recv := ts.Mk("alloc", "rule.recv", tn.Type())
			x, ep := ts.Sym("cfg", val.Type()), ts.Mk("alloc", "rule.err", errT)
			old := ts.Sym("olderr", errT)
			in := flow.NewInterp(c.P, nil)
			in.Keep(x)
			in.Keep(old)
			in.Keep(ep)
			in.Keep(recv)
			in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, "internal/typeassert") }
			in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
				bad := func(format string, a ...interface{}) {
					in.ReportAt(s, key, e.Instr, format, a...)
					s.Kill()
				}
				switch e.Kind {
				case "asserted":
					if e.Args[0] == x {
						if e.Block {
							s.D["right"], s.D["wrong"] = "1", ""
						} else {
							s.D["wrong"] = "1"
						}
					}
				case "assert":
					bad("a value of another type makes the accessor panic")
				case "mapgot":
					if e.Args[0].Op == "assert" && e.Args[0].Args[0] == x {
						if !s.Same(e.Args[1], ts.Sym("arg:"+f.Params[1].Name()+":"+f.Name(), f.Params[1].Type())) {
							bad("another name is looked up than the one asked for")
							return
						}
						if e.Block {
							e.Result = ts.Sym("cfg.child", val.Type())
						}
						s.D["looked"] = "1"
					}
				case "index":
					if e.Args[0].Op == "assert" && e.Args[0].Args[0] == x {
						if len(f.Params) < 2 || !s.Same(e.Args[1], ts.Sym("arg:"+f.Params[1].Name()+":"+f.Name(), f.Params[1].Type())) {
							bad("another position is read than the one asked for")
							return
						}
						if !s.Must(ts.Le(ts.Int(0), e.Args[1])) || !s.Must(ts.Le(ts.AddI(e.Args[1], 1), in.Len(e.Args[0]))) {
							bad("a position outside the list makes the accessor panic")
							return
						}
						s.D["looked"] = "1"
					}
				case "exit":
					now := s.Load(ep, errT, "rule.err")
					isnil, known := s.IsNil(now)
					oldnil, oldKnown := s.IsNil(old)
					if !(oldKnown && oldnil) {
						if !s.Same(now, old) && !(known && !isnil) {
							bad("an earlier error is lost")
							return
						}
						if oldKnown && !oldnil {
							return
						}
					}
					failed := known && !isnil
					xnil, xKnown := s.IsNil(x)
					r := e.Args[0]
					if child {
						base := r
						if !s.Same(s.Load(ts.FieldAddr(base, errp), errp.Type(), "rule.errp"), ep) {
							bad("what is looked up no longer shares its errors")
							return
						}
						if failed || xKnown && xnil {
							return
						}
						if s.D["looked"] == "" {
							bad("nothing is looked up in a value that is present, and no error is recorded")
							return
						}
						v := s.Load(ts.FieldAddr(base, val), val.Type(), "rule.val")
						if vn, k := s.IsNil(v); k && vn {
							return // nothing there
						}
						if !(v.Op == "sym" && v.Name == "cfg.child") && !(v.Op == "load" && termHas(v, func(t *flow.Term) bool { return t == x })) {
							bad("something else is handed on than what was looked up")
						}
						return
					}
					if s.D["wrong"] != "" && !failed {
						bad("a value of another type is taken for a missing one")
						return
					}
					if failed || xKnown && xnil {
						return
					}
					if !(oldKnown && oldnil) {
						return
					}
					if s.D["right"] == "" {
						bad("a value that is present is passed over")
						return
					}
					if !termHas(r, func(t *flow.Term) bool { return t.Op == "assert" && t.Args[0] == x }) || !(r.Op == "assert" || r.Op == "conv") {
						bad("something else is returned than the value")
					}
				}
			}
			c.Explore(in, f, append([]*flow.Term{recv}, symArgs(c, f)[1:]...), func(s *flow.State) {
				s.Store(ts.FieldAddr(recv, val), x, val.Type())
				s.Store(ts.FieldAddr(recv, errp), ep, errp.Type())
				s.Store(ep, old, errT)
			})
		}
	}
}

// symArgs are the arguments the engine would make up.
func symArgs(c *Ctx, f *ssa.Function) []*flow.Term {
	var out []*flow.Term
	for _, p := range f.Params {
		out = append(out, c.P.TS.Sym("arg:"+p.Name()+":"+f.Name(), p.Type()))
	}
	return out
}

// tomlName is the key a field is read from, and whether it is a leaf.
func tomlName(st *types.Struct, i int) string {
	tag := st.Tag(i)
	if j := strings.Index(tag, `toml:"`); j >= 0 {
		rest := tag[j+6:]
		if k := strings.IndexAny(rest, `",`); k > 0 {
			return rest[:k]
		}
	}
	return strings.ToLower(st.Field(i).Name())
}

// isText: the type reads itself from a text.
func isText(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "UnmarshalText" {
			return true
		}
	}
	return false
}

// tomlLeaves visits what the document is parsed into.
func tomlLeaves(t types.Type, path string, at func(visit *types.Var) bool, leaf func(path string, t types.Type)) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isText(t) {
		leaf(path, t)
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && st.Tag(i) == "" {
			tomlLeaves(st.Field(i).Type(), path, at, leaf)
			continue
		}
		p := tomlName(st, i)
		if path != "" {
			p = path + "." + p
		}
		tomlLeaves(st.Field(i).Type(), p, at, leaf)
	}
}

// isParse: the call parses a configuration document.
func isParse(e *flow.Event) bool {
	return e.Callee != nil && strings.Contains(flow.PkgOf(e.Callee), "/toml") && errResult(e.Callee.Signature) >= 0
}

// loader is the exported function that makes the configuration from bytes.
func loader(c *Ctx) (*ssa.Function, types.Type) {
	for _, f := range sortFns(c.P.RepoFuncs()) {
		if !inPkg(f, "config") || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.Results().Len() != 2 || errResult(f.Signature) != 1 {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				return f, p.Elem()
			}
		}
	}
	return nil, nil
}

// exploreLoad runs the loader with a document of which every value has a name.
func exploreLoad(c *Ctx, f *ssa.Function, leaf func(path string, t types.Type), hook func(in *flow.Interp, s *flow.State, e *flow.Event)) {
	ts := c.P.TS
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, "config") }
	var fill func(s *flow.State, addr *flow.Term, t types.Type, path string)
	fill = func(s *flow.State, addr *flow.Term, t types.Type, path string) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			s.Store(addr, ts.Sym("toml:"+path, t), t)
			leaf(path, t)
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			p := path
			if !isText(t) && !(st.Field(i).Embedded() && st.Tag(i) == "") {
				p = strings.TrimPrefix(path+"."+tomlName(st, i), ".")
			}
			fill(s, ts.FieldAddr(addr, st.Field(i)), st.Field(i).Type(), p)
		}
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			if isParse(e) {
				for _, a := range e.Args {
					x := stripIface(a)
					if a.Op != "iface" || a.T == nil {
						continue
					}
					p, ok := a.T.Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
						continue
					}
					e.Handled = true
					err := freshErr(in, s, e, "parse")
					rs := e.Callee.Signature.Results()
					mk := func(v *flow.Term) *flow.Term {
						if rs.Len() == 1 {
							return v
						}
						xs := []*flow.Term{}
						for i := 0; i < rs.Len()-1; i++ {
							xs = append(xs, in.Fresh(s, e, "r", rs.At(i).Type()))
						}
						return ts.Mk("tuple", "", rs, append(xs, v)...)
					}
					e.Fork(
						flow.Alt{Result: mk(ts.Nil()), Note: "the document is parsed", Do: func(s *flow.State) {
							s.D["parsed"] = "ok"
							fill(s, x, p.Elem(), "")
						}},
						flow.Alt{Result: mk(err), Note: "the document is not valid", Do: func(s *flow.State) {
							s.D["parsed"] = "failed"
							fill(s, x, p.Elem(), "") // as far as it was read
							s.Assume(ts.IsNil(err), false)
						}})
					return
				}
			}
		case "next":
			if src := e.Args[0]; src.Op == "sym" && strings.HasPrefix(src.Name, "toml:") {
				p := strings.TrimPrefix(src.Name, "toml:")
				mt := src.T.Underlying().(*types.Map)
				ok := e.Args[1]
				one := s.Must(ts.Eq(in.Len(src), ts.Int(1), types.Typ[types.Int]))
				first := s.D["ranged:"+p] == ""
				s.D["ranged:"+p] = "1"
				if one {
					ok = ts.Bool(first)
				}
				k, v := ts.Sym("key:"+p, mt.Key()), ts.Sym("val:"+p, mt.Elem())
				in.Keep(k)
				in.Keep(v)
				e.Result = ts.Mk("tuple", "", e.Instr.(ssa.Value).Type(), ok, k, v)
			}
		}
		hook(in, s, e)
	}
	c.Explore(in, f, nil, nil)
}

// isEntity: a kind and its settings.
func isEntity(t types.Type) (kind, conf *types.Var) {
	for _, v := range fields(t) {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			kind = v
		}
		if i, ok := v.Type().Underlying().(*types.Interface); ok && i.Empty() {
			conf = v
		}
	}
	if kind == nil || conf == nil || len(fields(t)) != 2 {
		return nil, nil
	}
	return
}

func p05load(c *Ctx) {
	ts := c.P.TS
	f, cfg := loader(c)
	if f == nil {
		c.Fail("anchor:load", "config/load.go", "the function that loads the configuration was not found")
		return
	}
	c.Oblige("load:parse", c.P.Pos(f.Pos()), "a document that cannot be parsed is refused", true)
	c.Oblige("load:one", c.P.Pos(f.Pos()), "exactly one database and one distribution are named", true)
	c.Oblige("load:same", c.P.Pos(f.Pos()), "the configuration is what was parsed", true)
	leaves := map[string]types.Type{}
	exploreLoad(c, f, func(p string, t types.Type) { leaves[p] = t }, func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "index", "next", "exit":
			if s.D["pending"] != "" && !(e.Kind == "index" && !(e.Args[0].Op == "sym" && strings.HasPrefix(e.Args[0].Name, "val:"))) {
				if n, known := s.IsNil(e.Args[len(e.Args)-1]); !(e.Kind == "exit" && known && !n) {
					in.ReportAt(s, "load:same", e.Instr, "an entry of a list is passed over")
					s.Kill()
					return
				}
			}
			if e.Kind == "index" && e.Args[0].Op == "sym" && strings.HasPrefix(e.Args[0].Name, "val:") {
				s.D["pending"] = "1"
			}
		case "append":
			sl, ok := e.Typ.(*types.Slice)
			if !ok {
				sl, ok = e.Typ.Underlying().(*types.Slice)
			}
			if !ok || len(e.Args) < 2 {
				return
			}
			kind, conf := isEntity(sl.Elem())
			if kind == nil {
				return
			}
			el := in.ElemAt(s, e.Args[1], 0, sl.Elem())
			st := sl.Elem().Underlying().(*types.Struct)
			var k, v *flow.Term
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i) {
				case kind:
					k = ts.Field(el, i, st)
				case conf:
					v = stripIface(ts.Field(el, i, st))
				}
			}
			p := ""
			if k.Op == "sym" && strings.HasPrefix(k.Name, "key:") {
				p = strings.TrimPrefix(k.Name, "key:")
			}
			if p == "" || !termHas(v, func(t *flow.Term) bool { return t.Op == "sym" && t.Name == "val:"+p }) {
				in.ReportAt(s, "load:same", e.Instr, "an entry of a list is not what the document says: %v %v", k, v)
				s.Kill()
				return
			}
			s.D["pending"] = ""
			c.Count("list entries", 1)
			return
		}
		if e.Kind != "exit" {
			return
		}
		err := e.Args[1]
		if n, known := s.IsNil(err); known && !n {
			c.Count("refused documents", 1)
			return
		}
		if s.D["parsed"] != "ok" {
			in.ReportAt(s, "load:parse", e.Instr, "a configuration is returned although the document was not parsed")
			s.Kill()
			return
		}
		c.Count("accepted documents", 1)
		var check func(addr *flow.Term, t types.Type, path string) bool
		check = func(addr *flow.Term, t types.Type, path string) bool {
			for _, v := range fields(t) {
				if !v.Exported() {
					continue
				}
				p := strings.TrimPrefix(path+"."+strings.ToLower(v.Name()), ".")
				a := ts.FieldAddr(addr, v)
				if kind, conf := isEntity(v.Type()); kind != nil {
					lt := leaves[p]
					if lt == nil {
						in.ReportAt(s, "load:same", e.Instr, "%s is never read from the document", p)
						s.Kill()
						return false
					}
					m := ts.Sym("toml:"+p, lt)
					if !s.Must(ts.Eq(in.Len(m), ts.Int(1), types.Typ[types.Int])) {
						in.ReportAt(s, "load:one", e.Instr, "a document may name none or several under %s", p)
						s.Kill()
						return false
					}
					c.Count("entities", 1)
					k := s.Load(ts.FieldAddr(a, kind), kind.Type(), "rule.kind")
					cv := s.Load(ts.FieldAddr(a, conf), conf.Type(), "rule.conf")
					if x := stripIface(cv); k.Op != "sym" || k.Name != "key:"+p || x.Op != "sym" || x.Name != "val:"+p {
						in.ReportAt(s, "load:same", e.Instr, "%s is not what the document says: %v %v", p, k, cv)
						s.Kill()
						return false
					}
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Struct); ok {
					if !check(a, v.Type(), p) {
						return false
					}
					continue
				}
				if sl, ok := v.Type().Underlying().(*types.Slice); ok {
					if kind, _ := isEntity(sl.Elem()); kind != nil {
						continue
					}
				}
				lt := leaves[p]
				x := s.Load(a, v.Type(), "rule.leaf")
				if lt == nil || !termHas(x, func(t *flow.Term) bool { return t.Op == "sym" && t.Name == "toml:"+p }) || x.Op != "sym" && x.Op != "conv" {
					in.ReportAt(s, "load:same", e.Instr, "%s is not what the document says", p)
					s.Kill()
					return false
				}
				c.Count("settings returned", 1)
			}
			return true
		}
		check(e.Args[0], cfg, "")
	})
	if c.Counts["accepted documents"] == 0 || c.Counts["refused documents"] < 3 || c.Counts["entities"] < 2 || c.Counts["list entries"] == 0 || c.Counts["settings returned"] < 4 {
		c.Fail("anchor:load", c.P.Pos(f.Pos()), "the loading of the configuration was not recognised")
	}
	n := c.errorFlow(errOpt{
		scope: func(f *ssa.Function) bool { return flow.PkgOf(f) == flow.RepoPath+"/config" },
	})
	if n < 2 {
		c.Fail("sites:few", "config", "only %d fallible calls were found in the configuration", n)
	}
}
