package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// maker checks that a new database has a set and a lock for every worker.
func (x *s11) maker(root *ssa.Function, rel map[*ssa.Function]bool) {
	c, ts := x.c, x.c.P.TS
	key := "new:" + fname(root)
	at := c.P.Pos(root.Pos())
	c.Oblige(key, at, "a new database has a pending set and its lock for every worker", true)
	in := flow.NewInterp(c.P, nil)
	in.KeepOrder = true
	pend, mu := one(x.pend), one(x.pendMu)
	exits := 0
	lens := func(s *flow.State, e *flow.Event) (p, m *flow.Term) {
		for i, a := range e.Args {
			if pt, ok := root.Signature.Results().At(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), x.db) {
				return s.Load(ts.FieldAddr(a, pend), pend.Type(), "rule.pend"), s.Load(ts.FieldAddr(a, mu), mu.Type(), "rule.mu")
			}
		}
		return nil, nil
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			if isSetOp(e.Callee) && e.Callee.Name() == "New" {
				e.Handled = true
				e.Result = ts.Mk("pure", "newset", x.set, in.Fresh(s, e, "set", x.set))
				s.Assume(ts.IsNil(e.Result), false)
			}
		case "make":
			if sl, ok := e.Typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), x.set) && len(e.Args) > 0 {
				s.R["!n"], s.R["filled"] = e.Args[0], ts.Int(0)
			}
		case "store":
			if e.Addr != nil && e.Addr.Op == "iaddr" && isNewSet(e.Val) {
				base, i := e.Addr.Args[0], e.Addr.Args[1]
				s.R["sets"] = base
				if s.R["filled"] != nil && s.EqInt(i, s.R["filled"]) {
					s.R["filled"] = ts.AddI(i, 1)
				}
			}
		case "exit":
			p, m := lens(s, e)
			if p == nil {
				return
			}
			exits++
			if !s.EqInt(in.Len(p), in.Len(m)) {
				in.ReportAt(s, key, e.Instr, "the pending sets and their locks are not known to be equally many")
				return
			}
			if v, ok := in.Len(p).IntVal(); ok && v == 0 {
				return
			}
			n := s.R["filled"]
			if n == nil {
				n = ts.Int(0)
			}
			if !s.EqInt(n, in.Len(p)) || s.R["sets"] != nil && !s.Same(s.R["sets"], p) {
				in.ReportAt(s, key, e.Instr, "a worker may have no pending set")
			}
		}
	}
	c.Explore(in, root, nil, nil)
	if exits == 0 {
		c.Fail(key, at, "no path on which a database is made was found")
	}
}

// s11set checks that the set type does what the rest relies on.
func s11set(c *Ctx, set types.Type) {
	ts := c.P.TS
	var mapF, ordF *types.Var
	for _, f := range fields(deref(set)) {
		switch f.Type().Underlying().(type) {
		case *types.Map:
			mapF = f
		case *types.Slice:
			ordF = f
		}
	}
	if mapF == nil || ordF == nil {
		c.Fail("anchor:set", ssetPkg, "a set is not a map and a list")
		return
	}
	what := map[string]string{
		"Add":   "a name that is added is in the set and nothing else leaves it",
		"Has":   "a name is in the set if and only if it was added",
		"Len":   "the length of a set is its number of names",
		"Copy":  "a copy has every name and shares nothing",
		"Merge": "a merge adds every name of the other set",
		"Iter":  "an iteration hands out every name until it is told to stop",
	}
	seen := 0
	for _, f := range sortFns(c.P.RepoFuncs()) {
		if !isSetOp(f) || f.Parent() != nil || what[f.Name()] == "" || f.Signature.Recv() == nil {
			continue
		}
		seen++
		f := f
		key := "set:" + f.Name()
		at := c.P.Pos(f.Pos())
		c.Oblige(key, at, what[f.Name()], true)
		args := symArgs(c, f)
		recv := args[0]
		src := recv // what is gone through
		if f.Name() == "Merge" {
			src = args[1]
		}
		in := flow.NewInterp(c.P, nil)
		in.KeepOrder = true
		in.InlineCall = func(s *flow.State, g *ssa.Function, _ []*flow.Term) bool {
			return isSetOp(g) && (what[g.Name()] == "" || f.Name() == "Has")
		}
		ord := func(s *flow.State, x *flow.Term) *flow.Term {
			return s.Load(ts.FieldAddr(x, ordF), ordF.Type(), "rule.order")
		}
		mp := func(s *flow.State, x *flow.Term) *flow.Term {
			return s.Load(ts.FieldAddr(x, mapF), mapF.Type(), "rule.map")
		}
		exits := 0
		var order0, map0 *flow.Term
		el := func(t *flow.Term) *flow.Term { // the index of an element
			if t != nil && t.Op == "pure" && t.Name == "el" {
				return t.Args[0]
			}
			return nil
		}
		next := func(s *flow.State, r string, i *flow.Term) bool {
			n := s.R[r]
			if n == nil {
				n = ts.Int(0)
			}
			if i == nil || !s.EqInt(i, n) {
				return false
			}
			s.R[r] = ts.AddI(i, 1)
			return true
		}
		all := func(s *flow.State, r string) bool {
			if s.D["all "+r] != "" {
				return true
			}
			n := s.R[r]
			if n == nil {
				n = ts.Int(0)
			}
			return s.EqInt(n, in.Len(order0))
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			if order0 == nil {
				order0, map0 = ord(s, src), mp(s, src)
			}
			for _, r := range []string{"o", "m"} {
				if s.D["init"] == "" {
					s.R[r] = ts.Int(0)
				}
				if s.R[r] != nil && s.D["all "+r] == "" && s.EqInt(s.R[r], in.Len(order0)) {
					s.D["all "+r] = "1"
				}
			}
			s.D["init"] = "1"
			s.R["!n"] = in.Len(order0)
			own := func(m *flow.Term) bool { return s.Same(m, map0) }
			switch e.Kind {
			case "mapget":
				if !own(e.Args[0]) {
					return
				}
				if (f.Name() == "Add" || f.Name() == "Has") && s.Same(e.Args[1], args[1]) && s.D["inmap"] == "" {
					z := ts.Zero(mapF.Type().Underlying().(*types.Map).Elem())
					yes := flow.Alt{Result: ts.Mk("tuple", "", types.NewTuple(), z, ts.Bool(true)), Note: "it is in the set", Do: func(s *flow.State) { s.D["in"] = "yes" }}
					no := flow.Alt{Result: ts.Mk("tuple", "", types.NewTuple(), z, ts.Bool(false)), Note: "it is not in the set", Do: func(s *flow.State) { s.D["in"] = "no" }}
					switch s.D["in"] {
					case "yes":
						e.Fork(yes)
					case "no":
						e.Fork(no)
					default:
						e.Fork(yes, no)
					}
				}
			case "load":
				if e.Addr == nil || e.Addr.Op != "iaddr" || f.Name() == "Add" {
					return
				}
				b := e.Addr.Args[0]
				if s.Same(b, order0) || b.Op == "append" && s.Same(b.Args[1], order0) && s.EqInt(in.Len(b.Args[0]), ts.Int(0)) {
					e.Result = ts.Mk("pure", "el", e.Typ, e.Addr.Args[1])
				}
			case "next":
				if f.Name() == "Copy" && own(e.Args[0]) {
					switch s.D["keys"] {
					case "", "taken":
						s.D["keys"] = "look"
					default:
						s.D["keys"] = "left"
					}
					s.R["keyok"], s.R["key"] = e.Args[1], e.Args[2]
				}
			case "mapdel", "clear":
				bad("names are removed from a set")
			case "mapset":
				switch f.Name() {
				case "Add":
					if !own(e.Args[0]) || !s.Same(e.Args[1], args[1]) {
						bad("another name is put into the map than the one added")
						return
					}
					s.D["inmap"] = "1"
				case "Copy":
					if own(e.Args[0]) {
						bad("the set that is copied is changed")
						return
					}
					if s.R["newmap"] == nil {
						s.R["newmap"] = e.Args[0]
					}
					if s.D["keys"] == "look" && s.R["key"] != nil && s.Same(e.Args[1], s.R["key"]) {
						s.D["keys"] = "taken"
					}
					next(s, "m", el(e.Args[1]))
				default:
					bad("the map is changed alone")
				}
			case "append":
				if f.Name() == "Copy" && len(e.Args) == 2 {
					if s.Same(e.Args[0], order0) {
						bad("the set that is copied is changed")
						return
					}
					if s.Same(e.Args[1], order0) {
						s.D["all o"] = "1"
						return
					}
					if e.Args[1].Op == "alloc" || e.Args[1].Op == "slice" {
						next(s, "o", el(in.ElemAt(s, e.Args[1], 0, types.Typ[types.String])))
					}
				}
			case "copy":
				if f.Name() == "Copy" {
					if s.Same(e.Args[1], order0) && s.EqInt(in.Len(e.Args[0]), in.Len(order0)) {
						s.D["all o"] = "1"
					}
					return
				}
				if f.Name() != "Add" {
					bad("the order of a set is changed alone")
					return
				}
				dst, d := e.Args[0], ts.Int(0)
				sr, o := e.Args[1], ts.Int(0)
				if dst.Op == "slice" {
					dst, d = dst.Args[0], dst.Args[1]
				}
				if sr.Op == "slice" {
					sr, o = sr.Args[0], sr.Args[1]
				}
				if !s.Same(dst, sr) || !s.EqInt(d, ts.AddI(o, 1)) || !s.EqInt(in.Len(dst), ts.AddI(in.Len(order0), 1)) {
					bad("names in the order are overwritten")
					return
				}
				s.R["gap"] = o
			case "store":
				if e.Addr != nil && e.Addr.Op == "iaddr" && f.Name() == "Add" {
					if !types.Identical(e.Addr.T, types.Typ[types.String]) {
						return
					}
					b, i := e.Addr.Args[0], e.Addr.Args[1]
					if b.Op == "alloc" { // the arguments of append
						return
					}
					if !s.Same(e.Val, args[1]) {
						bad("another name is put into the order than the one added")
						return
					}
					g := s.R["gap"]
					if g == nil {
						g = in.Len(order0)
					}
					if !s.EqInt(i, g) {
						bad("a name in the order is overwritten by the one added")
						return
					}
					s.D["put"] = "1"
				} else if e.Addr != nil && e.Addr.Op == "iaddr" && (f.Name() == "Merge" || f.Name() == "Iter" || f.Name() == "Has" || f.Name() == "Len") {
					if s.Same(e.Addr.Args[0], order0) {
						bad("the order of a set is changed alone")
					}
				}
			case "call":
				if e.Callee != nil && isSetOp(e.Callee) && e.Callee.Name() == "Add" && e.Callee != f {
					e.Handled = true
					e.Result = ts.Mk("tuple", "", types.NewTuple())
					switch f.Name() {
					case "Merge":
						if !s.Same(e.Args[0], recv) {
							bad("the other set is changed")
							return
						}
					case "Copy":
						if s.Same(e.Args[0], recv) {
							bad("the set that is copied is changed")
							return
						}
						s.R["newset"] = e.Args[0]
					}
					next(s, "o", el(e.Args[1]))
					next(s, "m", el(e.Args[1]))
					return
				}
				if e.Callee != nil && isSetOp(e.Callee) && e.Callee.Name() == "Has" && (f.Name() == "Merge" || f.Name() == "Copy") {
					i := el(e.Args[1])
					mine := !s.Same(e.Args[0], src)
					e.Handled = true
					e.Fork(
						flow.Alt{Result: ts.Bool(true), Note: "it is in the set", Do: func(s *flow.State) {
							if mine {
								next(s, "o", i)
								next(s, "m", i)
							}
						}},
						flow.Alt{Result: ts.Bool(false)})
					return
				}
				if f.Name() == "Add" && e.Callee != nil && isSetOp(e.Callee) && e.Callee.Name() == "Has" {
					e.Handled = true
					if !s.Same(e.Args[0], recv) || !s.Same(e.Args[1], args[1]) || s.D["inmap"] != "" {
						e.Result = in.Fresh(s, e, "has", types.Typ[types.Bool])
						return
					}
					yes := flow.Alt{Result: ts.Bool(true), Note: "it is in the set", Do: func(s *flow.State) { s.D["in"] = "yes" }}
					no := flow.Alt{Result: ts.Bool(false), Note: "it is not in the set", Do: func(s *flow.State) { s.D["in"] = "no" }}
					switch s.D["in"] {
					case "yes":
						e.Fork(yes)
					case "no":
						e.Fork(no)
					default:
						e.Fork(yes, no)
					}
					return
				}
				if e.Callee != nil && e.Callee.Name() == "New" && isSetOp(e.Callee) {
					return
				}
				if f.Name() == "Iter" && e.Callee == nil && e.FnVal != nil && s.Same(e.FnVal, args[1]) {
					if !next(s, "o", el(e.Args[0])) {
						bad("a name is skipped, or handed out twice")
						return
					}
					e.Handled = true
					e.Fork(
						flow.Alt{Result: ts.Bool(true)},
						flow.Alt{Result: ts.Bool(false), Note: "told to stop", Do: func(s *flow.State) { s.D["stop"] = "1" }})
				}
			case "exit":
				exits++
				switch f.Name() {
				case "Add":
					o1 := ord(s, recv)
					if s.D["in"] == "yes" {
						if !s.Same(o1, order0) || s.D["inmap"] != "" && s.D["put"] != "" {
							bad("a name that is in the set is added again")
						}
						return
					}
					if s.D["in"] == "" {
						bad("a name is added without looking whether it is in the set")
						return
					}
					if s.D["inmap"] == "" {
						bad("the name added is not in the map of the set")
						return
					}
					if !s.EqInt(in.Len(o1), ts.AddI(in.Len(order0), 1)) || s.R["gap"] != nil && s.D["put"] == "" || !(s.D["put"] != "" || appends(s, in, o1, order0, args[1])) {
						bad("the name added is not in the order of the set")
					}
				case "Has":
					b, k := s.Decide(e.Args[0])
					if !k || b != (s.D["in"] == "yes") || s.D["in"] == "" {
						bad("a name is said to be in the set, or not, without it being so")
					}
				case "Len":
					n := e.Args[0]
					if !s.EqInt(n, in.Len(order0)) && !s.EqInt(n, in.Len(map0)) {
						bad("the length is not the number of names")
					}
				case "Copy":
					if s.Same(e.Args[0], recv) || e.Args[0].Op == "sym" {
						bad("the copy is the set itself")
						return
					}
					if s.Same(mp(s, e.Args[0]), map0) || s.Same(ord(s, e.Args[0]), order0) && !s.EqInt(in.Len(order0), ts.Int(0)) {
						bad("the copy shares its names with the set")
						return
					}
					if s.D["keys"] == "look" { // every key was gone through
						if more, k := s.Decide(s.R["keyok"]); k && !more {
							s.D["all m"] = "1"
						}
					}
					if !all(s, "o") || !all(s, "m") {
						bad("the copy may not have every name")
					}
				case "Merge":
					if !all(s, "o") {
						bad("the merge may not add every name")
					}
				case "Iter":
					if s.D["stop"] == "" && !all(s, "o") {
						bad("the iteration ends although it was not told to stop")
					}
				}
			}
		}
		c.Explore(in, f, args, nil)
		if exits == 0 {
			c.Fail(key, at, "no path through %s was found", fname(f))
		}
	}
	if seen < 6 {
		c.Fail("anchor:setops", ssetPkg, "%d of the 6 operations on sets were found", seen)
	}
}

// appends reports that a list is another with an element after it.
func appends(s *flow.State, in *flow.Interp, list, before, x *flow.Term) bool {
	v := s.Load(s.Interp().TS.IndexAddr(list, in.Len(before)), types.Typ[types.String], "rule.last")
	if s.Same(v, x) {
		return true
	}
	if list.Op == "append" && len(list.Args) >= 2 && s.Same(list.Args[0], before) {
		return s.Same(in.ElemAt(s, list.Args[1], 0, types.Typ[types.String]), x) || s.Same(list.Args[1], x)
	}
	return false
}

// walk checks that reading the directories skips nothing.
func (x *s11) walk() {
	c, ts := x.c, x.c.P.TS
	for _, f := range sortFns(c.P.RepoFuncs()) {
		direct := false
		instrsOf(f, func(i ssa.Instruction) { direct = direct || isCallTo(i, "syscall.ReadDirent") })
		if !direct || !x.walkers[f] {
			continue
		}
		f := f
		key := "walk:" + fname(f)
		at := c.P.Pos(f.Pos())
		c.Oblige(key, at, "a walk that succeeds has looked at every entry: it went into every directory and added every directory with data files", true)
		dec := c.Fn(filesPkg, "dirToMetric")
		if dec == nil {
			return
		}
		args := symArgs(c, f)
		in := flow.NewInterp(c.P, nil)
		in.KeepLens = true
		// the directory walked: what the decoder is given
		var dirF *types.Var
		for _, g := range sortFns(c.P.RepoFuncs()) {
			if g != f && !reaches(f, g) {
				continue
			}
			instrsOf(g, func(i ssa.Instruction) {
				call, ok := i.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != dec {
					return
				}
				if u, ok := call.Call.Args[1].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						dirF = fieldOf(fa)
					}
				}
			})
		}
		// entries that were read may not have been looked at
		left := func(s *flow.State) bool { return s.D["left"] != "" }
		entries, dirs, adds := 0, 0, 0
		var len0 *flow.Term
		dir := func(s *flow.State) *flow.Term {
			return s.Load(ts.FieldAddr(args[0], dirF), dirF.Type(), "rule.dir")
		}
		in.InlineCall = func(s *flow.State, g *ssa.Function, _ []*flow.Term) bool {
			return inPkg(g, filesPkg) && !isSetOp(g) && g != dec && !x.walkers[g]
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			if dirF == nil {
				return
			}
			if s.D["dir"] == "" {
				s.D["dir"] = "own"
				len0 = in.Len(ts.Sym("rule.dir", dirF.Type()))
				s.Store(ts.FieldAddr(args[0], dirF), ts.Sym("rule.dir", dirF.Type()), dirF.Type())
			}
			isDir := func(a *flow.Term) bool {
				return a != nil && a.Op == "faddr" && a.Obj == types.Object(dirF) && s.Same(a.Args[0], args[0])
			}
			done := func() bool {
				if s.D["entry"] != "" && s.D["entry"] != "done" {
					bad("an entry is skipped: it is neither known to be a data file nor gone into")
					return false
				}
				return true
			}
			switch e.Kind {
			case "load":
				if isDir(e.Addr) && s.D["dir"] == "own" {
					s.Assume(ts.Eq(in.Len(dir(s)), len0, types.Typ[types.Int]), true)
				}
			case "store":
				if isDir(e.Addr) {
					s.D["dir"] = "other"
					if s.EqInt(in.Len(e.Val), len0) {
						s.D["dir"] = "own"
					}
				}
			case "call":
				switch {
				case e.Name == "syscall.ReadDirent":
					if !done() {
						return
					}
					if left(s) {
						bad("the next entries are read before those read are looked at")
						return
					}
					n := in.Fresh(s, e, "n", types.Typ[types.Int])
					rs := e.Callee.Signature.Results()
					err := freshErr(in, s, e, "err")
					e.Handled = true
					delete(s.D, "entry")
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", rs, n, ts.Nil()), Note: "entries are read", Do: func(s *flow.State) {
							s.Assume(ts.Le(ts.Int(1), n), true)
							s.Assume(ts.Le(n, ts.Int(1<<40)), true)
							s.D["left"], s.D["read"] = "1", "1"
						}},
						flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Int(0), ts.Nil()), Note: "there are no more entries", Do: func(s *flow.State) { s.D["end"] = "1" }},
						flow.Alt{Result: ts.Mk("tuple", "", rs, n, err), Note: "the directory cannot be read", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["end"] = "1"
						}})
				case e.Callee != nil && e.Callee.Name() == "NextDirent" && inPkg(e.Callee, filesPkg+"/internal/system"):
					if !done() {
						return
					}
					entries++
					if s.D["read"] == "" {
						bad("entries are looked at that were not read")
						return
					}
					if s.D["dir"] != "own" {
						bad("the next entry is taken for one of another directory")
						return
					}
					e.Handled = true
					rs := e.Callee.Signature.Results()
					nm := in.Fresh(s, e, "name", rs.At(1).Type())
					rest := in.Fresh(s, e, "rest", rs.At(0).Type())
					for k := 0; k < 4; k++ {
						ok, more := k&1 == 0, k&2 == 0
						e.Fork(flow.Alt{Result: ts.Mk("tuple", "", rs, rest, nm, ts.Bool(ok)), Do: func(s *flow.State) {
							s.R["name"] = nm
							delete(s.D, "left")
							if more {
								s.D["left"] = "1"
								s.Assume(ts.Le(ts.Int(1), in.Len(rest)), true)
							} else {
								s.Assume(ts.Eq(in.Len(rest), ts.Int(0), types.Typ[types.Int]), true)
							}
							s.D["entry"] = "done"
							if ok {
								s.D["entry"] = "new"
							}
						}})
					}
				case (e.Name == "bytes.HasSuffix" || e.Name == "strings.HasSuffix") && s.R["name"] != nil:
					a := bare(e.Args[0])
					suf := bare(e.Args[1])
					str, ok := suf.StrVal()
					if !s.Same(a, s.R["name"]) || !ok || str != ".data" {
						return
					}
					e.Handled = true
					e.Fork(
						flow.Alt{Result: ts.Bool(true), Note: "it is a data file", Do: func(s *flow.State) {
							if s.D["entry"] == "new" {
								s.D["entry"] = "file"
								if s.D["added"] != "" {
									s.D["entry"] = "done"
								}
							}
						}},
						flow.Alt{Result: ts.Bool(false), Note: "it is no data file"})
				case e.Callee != nil && x.walkers[e.Callee]:
					e.Handled = true
					dirs++
					e.Result = freshErr(in, s, e, "err")
					if s.R["name"] == nil || s.D["entry"] == "" {
						return
					}
					if dirF != nil && s.Same(e.Args[0], args[0]) {
						d := dir(s)
						if d.Op != "append" || !s.Same(d.Args[len(d.Args)-1], s.R["name"]) {
							bad("the walk goes into another directory than the entry's")
							return
						}
						rest := d.Args[0]
						sep := false
						if !s.EqInt(in.Len(rest), len0) {
							sep = true
							if !s.EqInt(in.Len(rest), ts.AddI(len0, 1)) {
								bad("the walk goes into another directory than the entry's")
								return
							}
						}
						if sep && !s.Le(ts.Int(1), len0) || !sep && !s.EqInt(len0, ts.Int(0)) {
							bad("the entry's directory is not made of the directory walked, a separator and its name")
							return
						}
					}
					err := e.Result
					s.Store(ts.FieldAddr(args[0], dirF), in.Fresh(s, e, "dir", dirF.Type()), dirF.Type())
					s.D["dir"] = "other"
					e.Fork(
						flow.Alt{Result: ts.Nil(), Do: func(s *flow.State) {
							if s.D["entry"] == "new" {
								s.D["entry"] = "done"
							}
						}},
						flow.Alt{Result: err, Note: "the directory cannot be walked", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["failed"] = "1"
						}})
				case e.Callee == dec:
					if s.D["dir"] != "own" || !s.Same(e.Args[1], dir(s)) && !s.EqInt(in.Len(e.Args[1]), len0) {
						bad("the metric that is added is not that of the directory walked")
						return
					}
					err := freshErr(in, s, e, "err")
					rs := dec.Signature.Results()
					e.Handled = true
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", rs, in.Fresh(s, e, "decoded", rs.At(0).Type()), ts.Nil())},
						flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Nil(), err), Note: "the directory is no metric's", Do: func(s *flow.State) { s.D["failed"] = "1" }})
				case isSetOp(e.Callee):
					e.Handled = true
					if e.Callee.Name() != "Add" {
						bad("names are listed in a way that is not known")
						return
					}
					adds++
					s.D["added"] = "1"
					if s.D["entry"] == "file" {
						s.D["entry"] = "done"
					}
					e.Result = ts.Mk("tuple", "", types.NewTuple())
				case e.Name == "github.com/zeebo/errs.Unwrap":
					if isNil, k := s.IsNil(e.Args[0]); k && isNil {
						e.Handled, e.Result = true, ts.Nil()
					}
				case strings.HasSuffix(e.Name, "/system.Open"):
					e.Handled = true
					rs := e.Callee.Signature.Results()
					fd := in.Fresh(s, e, "fd", rs.At(0).Type())
					err := freshErr(in, s, e, "oerr")
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", rs, fd, ts.Nil()), Do: func(s *flow.State) { s.D["opened"] = "1" }},
						flow.Alt{Result: ts.Mk("tuple", "", rs, fd, err), Note: "the directory cannot be opened", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["end"] = "1"
						}})
				}
			case "exit":
				n := errResult(f.Signature)
				isNil, k := s.IsNil(e.Args[n])
				if k && !isNil {
					return
				}
				if s.D["failed"] != "" {
					bad("the walk may succeed although a part of it failed")
					return
				}
				if s.D["stopped"] != "" {
					return
				}
				if !done() {
					return
				}
				if s.D["opened"] == "" && s.D["end"] == "" {
					// a walk that is told to stop reports the context's error
					if !k {
						return
					}
				}
				if s.D["end"] == "" || left(s) {
					bad("the walk ends although there may be entries left")
				}
			}
		}
		c.Explore(in, f, args, nil)
		c.Count("walked entries", entries)
		if entries == 0 || dirs == 0 || adds == 0 {
			c.Fail(key, at, "the walk was not understood (%d entries, %d directories, %d names)", entries, dirs, adds)
		}
	}
}
