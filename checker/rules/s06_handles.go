package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID:        "S06",
		Technique: "typestate (ownership) analysis of file handles over virtually inlined SSA",
		Explain:   "Every path of every function that touches storage handles is abstractly interpreted; a handle obtained from open, create, the cache or an eviction must be given back (stored in the cache or closed) exactly once on every exit, error exits included, and must not be used afterwards.",
		Min:       6,
		Run:       runS06,
	})
}

func runS06(c *Ctx) {
	w := newFilesWorld(c)
	if !w.ok {
		return
	}
	isPrim := callsAny(w.open, w.create, w.take, w.put, w.closeF)
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		if isPrim(i) {
			return true
		}
		call, ok := i.(ssa.CallInstruction)
		return ok && call.Common().StaticCallee() != nil && w.isMethodOfFile(call.Common().StaticCallee())
	})
	w.exploreAll(rel, func(root *ssa.Function) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.Hook = w.handleHook(c)
		in.UseRelevance(rel)
		c.Oblige("handles:"+fname(root), c.P.Pos(root.Pos()), "every handle taken in "+fname(root)+" is given back exactly once on every path", true)
		return in
	})
	s06maps(c, w)
	c.Include("S16", func(key, where, msg string) bool { return strings.HasPrefix(key, "op:") || key == "lock" })
	c.Include("P11", func(key, where, msg string) bool {
		return strings.HasPrefix(key, "release:") && strings.Contains(where, filesPkg+"/") && strings.Contains(msg, "mapping") || strings.HasPrefix(key, "release:"+filesPkg) && strings.Contains(msg, "releases")
	})
	c.Include("S17", func(key, where, msg string) bool { return strings.Contains(msg, "handles") })
}

// s06maps checks that a mapping is given back as a whole: with the length it was
// made with, and whenever a handle that has one is closed.
func s06maps(c *Ctx, w *filesWorld) {
	ts := c.P.TS
	isMap := func(n string) bool { return strings.HasSuffix(n, "/system.Mmap") }
	isUnmap := func(n string) bool { return strings.HasSuffix(n, "/system.Munmap") }
	uses := func(f *ssa.Function, is func(string) bool) bool {
		hit := false
		instrsOf(f, func(i ssa.Instruction) {
			if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil {
				hit = hit || is(call.Common().StaticCallee().String())
			}
		})
		return hit
	}
	// the fields of a handle that have the address and the length of its mapping
	var addrF, lenF map[int]bool
	narrow := func(m map[int]bool, got map[int]bool) map[int]bool {
		if m == nil {
			return got
		}
		for i := range m {
			if !got[i] {
				delete(m, i)
			}
		}
		return m
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && call.Common().StaticCallee() != nil && (isMap(call.Common().StaticCallee().String()) || isUnmap(call.Common().StaticCallee().String()))
	})
	inline := func(s *flow.State, g *ssa.Function, _ []*flow.Term) bool {
		return inPkg(g, filesPkg) && rel[g]
	}
	maps := 0
	for _, f := range []*ssa.Function{w.open, w.create} {
		f := f
		key := "mapped:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" gives a mapping back with the length it was made with", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = inline
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch {
			case e.Kind == "call" && isMap(e.Name):
				maps++
				rs := e.Callee.Signature.Results()
				d := in.Fresh(s, e, "mapping", rs.At(0).Type())
				n := e.Args[1]
				e.Handled = true
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, d, ts.Nil()), Note: "the file is mapped", Do: func(s *flow.State) { s.R["data"], s.R["len"] = d, n }},
					flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Zero(rs.At(0).Type()), freshErr(in, s, e, "err")), Note: "the file cannot be mapped"})
			case e.Kind == "call" && isUnmap(e.Name):
				if s.R["data"] == nil || !s.EqInt(e.Args[0], s.R["data"]) || !s.EqInt(e.Args[1], s.R["len"]) {
					in.ReportAt(s, key, e.Instr, "a mapping is not given back with the address and length it was made with: part of it stays")
					s.Kill()
				}
			case e.Kind == "exit" && s.R["data"] != nil:
				if n, known := s.IsNil(e.Args[len(e.Args)-1]); !known || !n {
					return
				}
				st, ok := e.Args[0].T.Underlying().(*types.Struct)
				if !ok {
					return
				}
				as, ls := map[int]bool{}, map[int]bool{}
				for i := 0; i < st.NumFields(); i++ {
					t := ts.Field(e.Args[0], i, st)
					if b, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
						continue
					}
					as[i] = s.EqInt(t, s.R["data"])
					ls[i] = s.EqInt(t, s.R["len"])
				}
				for i := range as {
					if !as[i] {
						delete(as, i)
					}
					if !ls[i] {
						delete(ls, i)
					}
				}
				addrF, lenF = narrow(addrF, as), narrow(lenF, ls)
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if maps == 0 || len(addrF) == 0 || len(lenF) == 0 {
		c.Fail("anchor:mapping", filesPkg+"/file.go", "a handle does not have the address and the length of its mapping")
		return
	}
	for _, f := range sortFns(c.P.RepoFuncs()) {
		f := f
		if !inPkg(f, filesPkg) || f != w.closeF && (!uses(f, isUnmap) || uses(f, isMap)) {
			continue
		}
		if f != w.closeF && (reaches(w.closeF, f) || reaches(w.open, f) || reaches(w.create, f)) {
			continue // looked at as part of it
		}
		key := "unmapped:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" gives the whole mapping back", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = inline
		args := symArgs(c, f)
		of := func(s *flow.State, fs map[int]bool, t *flow.Term) bool {
			for _, a := range args {
				v := a
				tt := a.T
				if p, ok := tt.Underlying().(*types.Pointer); ok {
					tt = p.Elem()
				}
				st, ok := tt.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := range fs {
					var x *flow.Term
					if tt != a.T {
						x = s.Load(ts.FieldAddr(a, st.Field(i)), st.Field(i).Type(), "rule.map")
					} else {
						x = ts.Field(v, i, st)
					}
					if s.EqInt(t, x) {
						return true
					}
				}
			}
			return false
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch {
			case e.Kind == "call" && isUnmap(e.Name):
				if !of(s, addrF, e.Args[0]) || !of(s, lenF, e.Args[1]) {
					in.ReportAt(s, key, e.Instr, "a mapping is not given back with the address and length it was made with: part of it stays")
					s.Kill()
					return
				}
				if s.D["unmapped"] != "" {
					in.ReportAt(s, key, e.Instr, "a mapping is given back twice")
					s.Kill()
				}
				s.D["unmapped"] = "1"
			case e.Kind == "exit" && f == w.closeF:
				if s.D["unmapped"] == "" && !of(s, addrF, ts.Int(0)) {
					in.ReportAt(s, key, e.Instr, "a handle is closed and its mapping stays")
				}
			}
		}
		c.Explore(in, f, args, nil)
	}
}

const maxHandles = 6

func held(s *flow.State, f *flow.Term) string {
	for i := 0; i < maxHandles; i++ {
		n := regName("h", i)
		if s.R[n] != nil && s.R[n] == f {
			return n
		}
	}
	return ""
}

func takeHandle(s *flow.State, f *flow.Term, how string) {
	for i := 0; i < maxHandles; i++ {
		n := regName("h", i)
		if s.R[n] == nil {
			s.R[n] = f
			s.D[n] = how
			return
		}
	}
	s.D["overflow"] = "1"
}

func dropHandle(s *flow.State, n string) {
	delete(s.R, n)
	delete(s.D, n)
}

func (w *filesWorld) handleHook(c *Ctx) flow.Hook {
	isZero := func(f *flow.Term) bool {
		if f == nil {
			return true
		}
		if f.Op == "struct" {
			for _, a := range f.Args {
				if n, ok := a.IntVal(); ok && n == 0 {
					continue
				}
				if a.Op == "zero" || a.Op == "struct" {
					continue
				}
				return false
			}
			return true
		}
		return f.Op == "zero"
	}
	return func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			f := e.Callee
			if f == nil {
				return
			}
			where := fname(e.Fn)
			switch {
			case !e.Opaque && f.Parent() != nil && w.inCache(e.Fn):
				// the cache hands an entry to a visitor
				if arg := w.fileArg(e); arg != nil && held(s, arg) == "" && !isZero(arg) {
					takeHandle(s, arg, "visit in "+where)
				}
			case w.acquires(f):
				file := in.Fresh(s, e, "file", w.file)
				bad := freshErr(in, s, e, "err")
				ts := in.TS
				e.Fork(
					flow.Alt{Result: w.result(in, f, file, ts.Nil(), ts.Bool(true)), Note: f.Name() + " returns a handle", Do: func(s *flow.State) { takeHandle(s, file, f.Name()+" in "+where) }},
					flow.Alt{Result: w.result(in, f, nil, bad, ts.Bool(false)), Note: f.Name() + " returns no handle"},
				)
			case f == w.put || f == w.closeF:
				arg := w.fileArg(e)
				n := held(s, arg)
				if n == "" {
					if isZero(arg) {
						e.Handled = true
						return
					}
					in.ReportAt(s, "release:"+f.Name()+":"+where, e.Instr, "%s is given a handle that is not held here (released twice, or never acquired)", f.Name())
					s.Kill()
					return
				}
				dropHandle(s, n)
				if f == w.closeF {
					e.Handled = true
					return
				}
				ts := in.TS
				ev := in.Fresh(s, e, "evicted", w.file)
				e.Fork(
					flow.Alt{Result: w.result(in, f, nil, ts.Nil(), ts.Bool(false)), Note: "stored in the cache"},
					flow.Alt{Result: w.result(in, f, ev, ts.Nil(), ts.Bool(true)), Note: "stored in the cache, another handle evicted", Do: func(s *flow.State) { takeHandle(s, ev, "evicted by "+f.Name()+" in "+where) }},
				)
			case w.isMethodOfFile(f):
				arg := w.fileArg(e)
				c.Count("handle uses on paths", 1)
				if held(s, arg) == "" {
					in.ReportAt(s, "use:"+f.Name()+":"+where, e.Instr, "%s is used on a handle that is not held here (used after it was given back)", f.Name())
					s.Kill()
				}
			}
		case "exit", "panicexit":
			if e.Kind == "panicexit" {
				return
			}
			if s.D["overflow"] != "" {
				in.ReportAt(s, "leak:many:"+fname(e.Callee), e.Instr, "more than %d handles held at once", maxHandles)
			}
			for i := 0; i < maxHandles; i++ {
				n := regName("h", i)
				if s.R[n] != nil {
					in.ReportAt(s, "leak:"+s.D[n]+":"+fname(e.Callee), e.Instr, "the handle obtained by %s is still held when %s returns: it is never closed or cached", s.D[n], fname(e.Callee))
				}
			}
		}
	}
}
