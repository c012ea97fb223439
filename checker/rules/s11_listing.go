package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S11", Technique: "lock-set and prefix-counter typestate of the published and pending name sets over inlined SSA, with an arbitrary name followed through every iteration",
		Explain: "A written name is added to a pending set under its lock, or seen in the published set, before the write is reported. Pending sets are emptied only after a set with the published and the pending names was published while their locks were held; every set is published under one lock and made from what was published before. A listing iterates a set that was loaded after no pending set had names left, hands every name to its caller, and nothing published is ever changed. The set type keeps its map and its order in step.",
		Min:     10,
		Run:     runS11,
	})
}

const ssetPkg = filesPkg + "/internal/sset"

type s11 struct {
	c       *Ctx
	set     types.Type // *sset.Set
	db      types.Type
	pub     map[*types.Var]bool // atomic values that hold a published set
	pend    map[*types.Var]bool // lists of sets
	pendMu  map[*types.Var]bool // their locks
	mu      map[*types.Var]bool // locks of the database itself
	walkers map[*ssa.Function]bool
	open    *ssa.Function
	hits    map[string]int
}

func isSetOp(f *ssa.Function) bool { return f != nil && inPkg(f, ssetPkg) }

func runS11(c *Ctx) {
	x := &s11{c: c, pub: map[*types.Var]bool{}, pend: map[*types.Var]bool{}, pendMu: map[*types.Var]bool{}, mu: map[*types.Var]bool{}, walkers: map[*ssa.Function]bool{}, hits: map[string]int{}}
	nw := c.Fn(ssetPkg, "New")
	x.open = c.Fn(filesPkg, "newMetric")
	run := c.Fn(filesPkg, "DB.Run")
	if nw == nil || x.open == nil || run == nil {
		return
	}
	x.set = nw.Signature.Results().At(0).Type()
	x.db = deref(run.Signature.Recv().Type())
	for _, f := range fields(x.db) {
		switch t := f.Type().Underlying().(type) {
		case *types.Slice:
			if types.Identical(t.Elem(), x.set) {
				x.pend[f] = true
			}
			if t.Elem().String() == "sync.Mutex" {
				x.pendMu[f] = true
			}
		}
		if f.Type().String() == "sync.Mutex" {
			x.mu[f] = true
		}
	}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		if !isCallTo(i, "(*sync/atomic.Value).Store") {
			return
		}
		args := i.(ssa.CallInstruction).Common().Args
		fa, ok := args[0].(*ssa.FieldAddr)
		mi, ok2 := args[1].(*ssa.MakeInterface)
		if ok && ok2 && types.Identical(mi.X.Type(), x.set) {
			x.pub[fieldOf(fa)] = true
		}
	})
	if len(x.pub) != 1 || len(x.pend) != 1 || len(x.pendMu) != 1 {
		c.Fail("anchor:names", filesPkg, "the published and pending sets of names were not found (%d published, %d pending, %d lists of locks)", len(x.pub), len(x.pend), len(x.pendMu))
		return
	}
	touches := func(i ssa.Instruction) bool {
		if isCallTo(i, "(*sync/atomic.Value).Store", "(*sync/atomic.Value).Load", "(*sync/atomic.Value).Swap", "(*sync/atomic.Value).CompareAndSwap") {
			fa, ok := i.(ssa.CallInstruction).Common().Args[0].(*ssa.FieldAddr)
			return ok && x.pub[fieldOf(fa)]
		}
		if fa, ok := i.(*ssa.FieldAddr); ok {
			v := fieldOf(fa)
			return x.pend[v] || x.pendMu[v]
		}
		return false
	}
	names := c.P.Relevant(touches)
	dirs := c.P.Relevant(func(i ssa.Instruction) bool { return isCallTo(i, "syscall.ReadDirent") })
	for f := range dirs {
		if !names[f] && inPkg(f, filesPkg) {
			x.walkers[f] = true
		}
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		if touches(i) {
			return true
		}
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := call.Common().StaticCallee()
		return isSetOp(g) || x.isWrite(g) || g != nil && g == x.open || inPkg(i.Parent(), filesPkg) && i.Parent().Parent() != nil && lockOp(calleeName(call.Common())) != 0
	})
	writes := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && x.isWrite(call.Common().StaticCallee())
	})
	listers := 0
	c.drive(rel, func(f *ssa.Function) bool {
		return inPkg(f, filesPkg) && !inPkg(f, ssetPkg) && !x.walkers[f] && !x.isMetric(f) && f.Name() != "init" &&
			(f.Parent() == nil || !x.iterated(f))
	}, func(root *ssa.Function) *flow.Interp {
		if x.isMaker(root) {
			x.maker(root, rel)
			return nil
		}
		if !names[root] && !writes[root] {
			return nil
		}
		if listParam(root) != nil {
			listers++
		}
		return x.interp(root, rel)
	})
	for _, n := range []string{"names added", "sets published", "pending sets emptied", "listings", "walks", "writes"} {
		c.Count(n, x.hits[n])
		if x.hits[n] == 0 {
			c.Fail("none:"+n, filesPkg, "no %s were found", n)
		}
	}
	if listers == 0 {
		c.Fail("anchor:list", filesPkg, "nothing lists the metrics")
	}
	s11set(c, x.set)
	x.walk()
}

// iterated: a closure only handed to an iteration.
func (x *s11) iterated(f *ssa.Function) bool {
	ps, rs := f.Signature.Params(), f.Signature.Results()
	return ps.Len() == 1 && rs.Len() == 1 && basicKind(ps.At(0).Type(), types.String) && basicKind(rs.At(0).Type(), types.Bool)
}

func (x *s11) isMetric(f *ssa.Function) bool {
	r := f.Signature.Recv()
	pt := x.open.Signature.Results().At(0).Type()
	return f == x.open || r != nil && types.Identical(r.Type(), pt)
}

func (x *s11) isWrite(f *ssa.Function) bool {
	return f != nil && x.open != nil && x.isMetric(f) && f.Name() == "Write"
}

func (x *s11) isMaker(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if p, ok := f.Signature.Results().At(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), x.db) && f.Signature.Recv() == nil {
			return true
		}
	}
	return false
}

func listParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		sg, ok := p.Type().Underlying().(*types.Signature)
		if ok && sg.Params().Len() == 1 && basicKind(sg.Params().At(0).Type(), types.String) &&
			sg.Results().Len() == 2 && basicKind(sg.Results().At(0).Type(), types.Bool) && sg.Results().At(1).Type().String() == "error" {
			return p
		}
	}
	return nil
}

func (x *s11) inField(t *flow.Term, of map[*types.Var]bool) bool {
	if t == nil {
		return false
	}
	v, ok := t.Obj.(*types.Var)
	return ok && of[v]
}

// list stands for one of the lists of a database.
func (x *s11) list(of map[*types.Var]bool) *flow.Term {
	f := one(of)
	return x.c.P.TS.Sym("rule.list:"+f.Name(), f.Type())
}

// elem is the index of an element of one of the lists.
func (x *s11) elem(a *flow.Term, of map[*types.Var]bool) *flow.Term {
	if a == nil || a.Op != "iaddr" || a.Args[0] != x.list(of) {
		return nil
	}
	return a.Args[1]
}

func isNewSet(t *flow.Term) bool { return t != nil && t.Op == "pure" && t.Name == "newset" }

func (x *s11) interp(root *ssa.Function, rel map[*ssa.Function]bool) *flow.Interp {
	c, ts := x.c, x.c.P.TS
	name := fname(root)
	key := "names:" + name
	c.Oblige(key, c.P.Pos(root.Pos()), "what "+name+" does to the sets of names loses no written name and changes no published set", true)
	lp := listParam(root)
	var user *flow.Term
	if lp != nil {
		c.Oblige("list:"+name, c.P.Pos(root.Pos()), name+" lists every name that was written before it was called", true)
		user = ts.Sym("arg:"+lp.Name()+":"+root.Name(), lp.Type())
	}
	in := flow.NewInterp(c.P, nil)
	in.KeepOrder = true
	in.UseRelevance(rel)
	inl := in.InlineCall
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return inPkg(g, filesPkg) && !isSetOp(g) && !x.isMetric(g) && !x.walkers[g] && (inl == nil || inl(s, g, args))
	}
	sk := ts.Sym("rule.name:"+root.Name(), types.Typ[types.String])
	var listlen *flow.Term // the number of workers, once it is known
	counters := []string{"L", "U", "M", "P", "E", "Q"}
	cnt := func(s *flow.State, r string) *flow.Term {
		if s.R[r] == nil {
			return ts.Int(0)
		}
		return s.R[r]
	}
	// a pass over all workers is complete
	settle := func(s *flow.State) {
		if listlen == nil {
			return
		}
		for _, r := range counters {
			if s.R[r] != nil && s.D["all "+r] == "" && s.EqInt(s.R[r], listlen) {
				s.D["all "+r] = "1"
				s.R[r] = ts.Int(0)
				if r == "E" || r == "P" || r == "Q" {
					s.D["complete"] = "1"
				}
			}
		}
		if s.D["all L"] != "" && s.D["all U"] != "" || s.D["all L"] == "" && s.D["all U"] == "" && s.EqInt(cnt(s, "L"), cnt(s, "U")) {
			for _, r := range []string{"L", "U", "M", "P"} {
				delete(s.D, "all "+r)
				s.R[r] = ts.Int(0)
			}
		}
	}
	below := func(s *flow.State, i *flow.Term, r string) bool { // i < counter
		return s.D["all "+r] != "" || s.R[r] != nil && s.Lt(i, s.R[r])
	}
	single := func(s *flow.State, i *flow.Term) bool { return s.R["one"] != nil && s.Same(s.R["one"], i) }
	held := func(s *flow.State, i *flow.Term) bool {
		return single(s, i) || below(s, i, "L") && s.D["all U"] == "" && s.Le(cnt(s, "U"), i)
	}
	anyHeld := func(s *flow.State) bool {
		if s.R["one"] != nil {
			return true
		}
		return s.D["all L"] != "" || !s.EqInt(cnt(s, "L"), cnt(s, "U"))
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		badList := func(format string, a ...interface{}) {
			in.ReportAt(s, "list:"+name, e.Instr, format, a...)
			s.Kill()
		}
		if s.D["init"] == "" {
			s.D["init"] = "1"
			for _, r := range counters {
				s.R[r] = ts.Int(0)
			}
			listlen = in.Len(x.list(x.pend))
			s.R["!n"] = listlen
			s.Assume(ts.IsNil(in.ErrConst("context", "Canceled")), false)
		}
		settle(s)
		switch e.Kind {
		case "load":
			if x.inField(e.Addr, x.pend) || x.inField(e.Addr, x.pendMu) {
				if e.Addr.Op != "faddr" {
					return
				}
				// made with the database and never replaced
				listlen = in.Len(x.list(x.pend))
				s.Assume(ts.Eq(in.Len(x.list(x.pendMu)), listlen, types.Typ[types.Int]), true)
				if x.inField(e.Addr, x.pend) {
					e.Result = x.list(x.pend)
				} else {
					e.Result = x.list(x.pendMu)
				}
				settle(s)
				return
			}
			if i := x.elem(e.Addr, x.pend); i != nil {
				if !held(s, i) {
					bad("a pending set is read without its lock")
					return
				}
				e.Result = ts.Mk("pure", "pend", x.set, i)
				s.Assume(ts.IsNil(e.Result), false)
			}
		case "store":
			if x.inField(e.Addr, x.pend) && e.Addr.Op == "faddr" {
				if e.Addr.Args[0].Op == "alloc" {
					return
				}
				bad("the pending sets are replaced as a whole")
				return
			}
			if i := x.elem(e.Addr, x.pend); i != nil {
				if !held(s, i) {
					bad("a pending set is replaced without its lock")
					return
				}
				if !isNewSet(e.Val) || s.R["stored"] != nil && s.Same(s.R["stored"], e.Val) || s.R["filled"] != nil && s.Same(s.R["filled"], e.Val) {
					bad("a pending set is replaced by one that others may use")
					return
				}
				if !(single(s, i) && s.D["one pub"] != "") && !(s.R["one"] == nil && below(s, i, "P")) {
					bad("a pending set is emptied before its names were published")
					return
				}
				x.hits["pending sets emptied"]++
				if s.D["all Q"] == "" && s.EqInt(i, cnt(s, "Q")) {
					s.R["Q"] = ts.AddI(i, 1)
				}
			}
		case "clear", "mapdel":
			// only inside the set type
		case "call", "go":
			x.call(in, s, e, bad, badList, callEnv{user: user, sk: sk, cnt: cnt, held: held, single: single, below: below, anyHeld: anyHeld, settle: settle, n: func() *flow.Term { return listlen }})
		case "ret":
			if e.Callee == nil || s.D["iter"] == "" || e.Callee.String() != s.D["iter"] {
				return
			}
			kind := s.D["iter kind"]
			delete(s.D, "iter")
			delete(s.D, "iter kind")
			goOn, k := s.Decide(e.Args[0])
			if s.D["asked"] != "" { // handed to the caller
				x.hits["listings"]++
				if s.D["asked"] == "go on" && !(k && goOn) {
					badList("the listing may stop although its caller wants more names")
					return
				}
				if s.D["asked"] != "go on" && !(k && !goOn) {
					badList("the listing goes on although its caller wants no more names, or an error is lost")
				}
				s.D["iterated"] = "1"
				delete(s.D, "asked")
				return
			}
			if kind == "now" && s.D["kept"] != "" && k && goOn {
				s.R["base"] = s.R["kept"]
			}
			delete(s.D, "kept")
			if user != nil && kind != "now" {
				badList("a name is not handed to the caller of the listing")
			}
		case "exit", "panicexit":
			if e.Kind == "panicexit" {
				return
			}
			if s.D["mu"] != "" {
				bad("the lock for publishing names is not given back")
				return
			}
			if anyHeld(s) {
				bad("the lock of a pending set is not given back")
				return
			}
			if s.D["wrote"] != "" {
				bad("a value was written and its name is neither published nor pending")
				return
			}
			if s.D["walked"] == "1" && s.D["walk published"] == "" {
				n := errResult(root.Signature)
				if n >= 0 {
					if isNil, k := s.IsNil(e.Args[n]); k && !isNil {
						return
					}
				}
				bad("the names found in the directory are not published")
				return
			}
			if user != nil {
				n := errResult(root.Signature)
				if r := s.R["cberr"]; r != nil {
					if !carries(e.Args[n], r) {
						badList("the error of the listing's caller is not returned")
					}
					return
				}
				if isNil, k := s.IsNil(e.Args[n]); k && !isNil {
					return
				}
				if s.D["iterated"] == "" && s.D["nothing"] == "" {
					badList("the listing ends without having looked at the names")
				}
			}
		}
	}
	return in
}

func one(m map[*types.Var]bool) *types.Var {
	for v := range m {
		return v
	}
	return nil
}

type callEnv struct {
	user, sk *flow.Term
	cnt      func(*flow.State, string) *flow.Term
	held     func(*flow.State, *flow.Term) bool
	single   func(*flow.State, *flow.Term) bool
	below    func(*flow.State, *flow.Term, string) bool
	anyHeld  func(*flow.State) bool
	settle   func(*flow.State)
	n        func() *flow.Term
}

func (x *s11) call(in *flow.Interp, s *flow.State, e *flow.Event, bad, badList func(string, ...interface{}), v callEnv) {
	ts := in.TS
	f := e.Callee
	if e.Kind == "go" {
		if f != nil && (isSetOp(f) || x.isWrite(f)) {
			bad("names are handled in another goroutine")
		}
		return
	}
	none := ts.Mk("tuple", "", types.NewTuple())
	switch {
	case e.Name == muLock || e.Name == muUnlock:
		a := e.Args[0]
		if a.Op == "faddr" && x.inField(a, x.mu) {
			e.Handled, e.Result = true, none
			if e.Name == muLock {
				if s.D["mu"] != "" {
					bad("the lock for publishing names is taken twice")
					return
				}
				if v.anyHeld(s) {
					bad("the lock for publishing names is waited for with the lock of a pending set held: a deadlock with a listing")
					return
				}
				s.D["mu"] = a.Obj.Name()
			} else {
				if s.D["mu"] != a.Obj.Name() {
					bad("the lock for publishing names is given back without being held")
					return
				}
				delete(s.D, "mu")
			}
			delete(s.R, "pub")
			delete(s.D, "unset")
			delete(s.R, "base")
			return
		}
		i := x.elem(a, x.pendMu)
		if i == nil {
			return
		}
		e.Handled, e.Result = true, none
		if e.Name == muLock {
			switch n, ok := i.IntVal(); {
			case v.anyHeld(s) && s.R["one"] == nil && s.D["all L"] == "" && s.EqInt(i, v.cnt(s, "L")):
				s.R["L"] = ts.AddI(i, 1)
			case v.anyHeld(s):
				bad("the locks of two pending sets are taken in no particular order")
			case ok && n == 0:
				s.R["L"] = ts.Int(1)
			default:
				s.R["one"] = i
			}
			return
		}
		if v.single(s, i) {
			delete(s.R, "one")
			delete(s.D, "one merged")
			delete(s.D, "one pub")
			return
		}
		if !v.held(s, i) {
			bad("the lock of a pending set is given back without being held")
			return
		}
		if s.EqInt(i, v.cnt(s, "U")) {
			s.R["U"] = ts.AddI(i, 1)
			v.settle(s)
			return
		}
		bad("the locks of the pending sets are given back in an order that is not known")
	case strings.HasPrefix(e.Name, "(*sync/atomic.Value).") && x.inField(e.Args[0], x.pub):
		op := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
		e.Handled = true
		switch op {
		case "Load":
			if s.D["mu"] != "" && s.R["pub"] != nil {
				e.Result = ts.Iface(x.set, s.R["pub"])
				return
			}
			flags := ""
			if s.D["complete"] != "" {
				flags += "C"
			}
			if s.D["walked"] == "" {
				flags += "B"
			}
			p := ts.Mk("pure", "pub:"+flags, x.set, in.Fresh(s, e, "pub", x.set))
			got := flow.Alt{Result: ts.Iface(x.set, p), Note: "names are published", Do: func(s *flow.State) {
				s.Assume(ts.IsNil(p), false)
				if s.D["mu"] != "" {
					s.R["pub"] = p
				}
				s.D["set"] = "1"
			}}
			unset := flow.Alt{Result: ts.Nil(), Note: "no names are published yet", Do: func(s *flow.State) {
				if s.D["mu"] != "" {
					s.D["unset"] = "1"
				}
				if s.D["complete"] != "" {
					s.D["nothing"] = "1"
				}
			}}
			switch {
			case s.D["set"] != "":
				e.Fork(got)
			case s.D["mu"] != "" && s.D["unset"] != "":
				e.Fork(unset)
			default:
				e.Fork(got, unset)
			}
		case "Store":
			e.Result = none
			set := e.Args[1]
			for set.Op == "iface" || set.Op == "conv" {
				set = set.Args[0]
			}
			if s.D["mu"] == "" {
				bad("names are published without the lock for publishing: others published at the same time are lost")
				return
			}
			if !isNewSet(set) {
				bad("a set is published that is not known to be new")
				return
			}
			if s.D["unset"] == "" && (s.R["base"] == nil || !s.Same(s.R["base"], set)) {
				bad("a set is published that is not known to have every name published before")
				return
			}
			x.hits["sets published"]++
			if s.R["mset"] != nil && s.Same(s.R["mset"], set) {
				if s.D["all M"] != "" {
					s.D["all P"] = "1"
					s.D["complete"] = "1"
				} else if s.R["M"] != nil {
					s.R["P"] = s.R["M"]
				}
				if s.D["one merged"] != "" {
					s.D["one pub"] = "1"
				}
				v.settle(s)
			}
			if w := s.R["walk"]; w != nil && (s.Same(w, set) || s.R["joined"] != nil && s.Same(s.R["joined"], set)) {
				s.D["walk published"] = "1"
			}
			s.R["pub"], s.R["stored"], s.R["base"] = set, set, set
			delete(s.D, "unset")
			s.D["set"] = "1"
		default:
			bad("the published names are changed in a way that is not known")
		}
	case isSetOp(f):
		x.setOp(in, s, e, bad, badList, v)
	case f == x.open:
		if s.D["wrote"] != "" {
			bad("a value was written and its name is neither published nor pending")
			return
		}
		rs := f.Signature.Results()
		m := in.Fresh(s, e, "metric", rs.At(0).Type())
		if n := metricName(ts, e.Args); n != nil {
			s.R["metric"] = n
		}
		delete(s.D, "named")
		err := freshErr(in, s, e, "err")
		e.Handled = true
		e.Fork(
			flow.Alt{Result: ts.Mk("tuple", "", rs, m, ts.Nil()), Do: func(s *flow.State) { s.Assume(ts.IsNil(m), false) }},
			flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Nil(), err), Note: "the metric cannot be opened", Do: func(s *flow.State) { s.Assume(ts.IsNil(err), false) }})
	case x.isWrite(f):
		x.hits["writes"]++
		rs := f.Signature.Results()
		b := in.Fresh(s, e, "ok", rs.At(0).Type())
		err := freshErr(in, s, e, "werr")
		e.Handled = true
		e.Fork(
			flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Bool(true), ts.Nil()), Note: "the value is written", Do: func(s *flow.State) {
				if s.D["named"] == "" {
					s.D["wrote"] = "1"
				}
			}},
			flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Bool(false), ts.Nil()), Note: "the value is refused"},
			flow.Alt{Result: ts.Mk("tuple", "", rs, b, err), Note: "the write fails", Do: func(s *flow.State) { s.Assume(ts.IsNil(err), false) }})
	case f != nil && x.walkers[f]:
		x.hits["walks"]++
		w := x.walkSet(s, e.Args)
		if w == nil || !isNewSet(w) || s.R["stored"] != nil && s.Same(w, s.R["stored"]) {
			bad("the directory is read into a set that others may use")
			return
		}
		e.Handled = true
		err := freshErr(in, s, e, "err")
		e.Fork(
			flow.Alt{Result: ts.Nil(), Note: "the directory was read", Do: func(s *flow.State) {
				s.D["walked"] = "1"
				s.R["walk"] = w
			}},
			flow.Alt{Result: err, Note: "the directory cannot be read", Do: func(s *flow.State) {
				s.Assume(ts.IsNil(err), false)
				s.D["walked"] = "failed"
			}})
	case v.user != nil && f == nil && e.FnVal != nil && s.Same(e.FnVal, v.user):
		if s.D["iter"] == "" || !s.Same(e.Args[0], v.sk) {
			badList("the caller of the listing is handed something else than a listed name")
			return
		}
		rs := v.user.T.Underlying().(*types.Signature).Results()
		err := in.Fresh(s, e, "cberr", rs.At(1).Type())
		b := in.Fresh(s, e, "more", rs.At(0).Type())
		e.Handled = true
		if s.D["asked"] != "" {
			badList("a name is handed out twice")
			return
		}
		e.Fork(
			flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Bool(true), ts.Nil()), Do: func(s *flow.State) { s.D["asked"] = "go on" }},
			flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Bool(false), ts.Nil()), Note: "the caller wants no more names", Do: func(s *flow.State) { s.D["asked"] = "stop" }},
			flow.Alt{Result: ts.Mk("tuple", "", rs, b, err), Note: "the caller reports an error", Do: func(s *flow.State) {
				s.Assume(ts.IsNil(err), false)
				s.D["asked"] = "stop"
				s.R["cberr"] = err
			}})
	case isDoneCall(e) && f == nil:
		if s.D["wrote"] != "" {
			bad("a value is reported as written before its name is published or pending")
		}
	}
}

// walkSet is the set a walk fills: the one its arguments hold.
func (x *s11) walkSet(s *flow.State, args []*flow.Term) *flow.Term {
	ts := s.Interp().TS
	for _, a := range args {
		if a == nil || a.T == nil {
			continue
		}
		if types.Identical(a.T, x.set) || isNewSet(a) {
			return a
		}
		p, ok := a.T.Underlying().(*types.Pointer)
		var st types.Type = a.T
		if ok {
			st = p.Elem()
		} else if a.Op != "alloc" {
			continue
		}
		for _, f := range fields(st) {
			if types.Identical(f.Type(), x.set) {
				return s.Load(ts.FieldAddr(a, f), f.Type(), "rule.walkset")
			}
		}
	}
	return nil
}

func (x *s11) setOp(in *flow.Interp, s *flow.State, e *flow.Event, bad, badList func(string, ...interface{}), v callEnv) {
	ts := in.TS
	f := e.Callee
	none := ts.Mk("tuple", "", types.NewTuple())
	fresh := func() *flow.Term {
		t := ts.Mk("pure", "newset", x.set, in.Fresh(s, e, "set", x.set))
		s.Assume(ts.IsNil(t), false)
		return t
	}
	isPub := func(t *flow.Term) bool { return t.Op == "pure" && strings.HasPrefix(t.Name, "pub:") }
	isPend := func(t *flow.Term) bool { return t.Op == "pure" && t.Name == "pend" }
	current := func(t *flow.Term) bool {
		return s.D["mu"] != "" && s.R["pub"] != nil && s.Same(t, s.R["pub"])
	}
	e.Handled = true
	var recv *flow.Term
	if f.Signature.Recv() != nil {
		recv = e.Args[0]
	}
	if recv != nil && isPend(recv) && !v.held(s, recv.Args[0]) {
		bad("a pending set is used without its lock")
		return
	}
	change := func() bool {
		if isPub(recv) || s.R["stored"] != nil && s.Same(s.R["stored"], recv) {
			bad("a published set is changed: it may be in use by a listing")
			return false
		}
		if !isNewSet(recv) && !isPend(recv) {
			bad("%s is changed, which is not known to be private", clipTerm(recv))
			return false
		}
		if isNewSet(recv) {
			s.R["filled"] = recv
		}
		return true
	}
	switch f.Name() {
	case "New":
		e.Result = fresh()
	case "Copy":
		e.Result = fresh()
		if current(recv) || s.D["mu"] != "" && s.R["base"] != nil && s.Same(recv, s.R["base"]) {
			s.R["base"] = e.Result
		}
		if isPend(recv) {
			x.merge(s, e.Result, recv.Args[0], v)
		}
		if s.R["walk"] != nil && s.Same(s.R["walk"], recv) {
			s.R["joined"] = e.Result
		}
	case "Add":
		e.Result = none
		if !change() {
			return
		}
		if s.D["iter"] != "" && s.Same(e.Args[1], v.sk) {
			s.D["kept"], s.R["kept"] = "1", recv
		}
		if isPend(recv) && s.R["metric"] != nil && s.Same(e.Args[1], s.R["metric"]) {
			x.hits["names added"]++
			delete(s.D, "wrote")
			s.D["named"] = "1"
		}
	case "Merge":
		e.Result = none
		if !change() {
			return
		}
		o := e.Args[1]
		if isPend(o) {
			if !v.held(s, o.Args[0]) {
				bad("a pending set is read without its lock")
				return
			}
			x.merge(s, recv, o.Args[0], v)
		}
		if current(o) || s.D["mu"] != "" && s.R["base"] != nil && s.Same(o, s.R["base"]) {
			s.R["base"] = recv
		}
		if s.R["walk"] != nil && s.Same(s.R["walk"], o) {
			s.R["joined"] = recv
		}
	case "Has":
		b := in.Fresh(s, e, "has", types.Typ[types.Bool])
		arg := e.Args[1]
		e.Fork(
			flow.Alt{Result: ts.Bool(true), Do: func(s *flow.State) {
				if isPub(recv) && s.R["metric"] != nil && s.Same(arg, s.R["metric"]) {
					delete(s.D, "wrote")
					s.D["named"] = "1"
				}
				if isPend(recv) && s.R["metric"] != nil && s.Same(arg, s.R["metric"]) {
					delete(s.D, "wrote")
					s.D["named"] = "1"
				}
				if s.D["iter"] != "" && s.Same(arg, v.sk) && s.R["walk"] != nil {
					if isPub(recv) && strings.Contains(recv.Name, "B") {
						s.D["kept"], s.R["kept"] = "1", s.R["walk"] // the walk began when it was there
					} else if s.Same(recv, s.R["walk"]) {
						s.D["kept"], s.R["kept"] = "1", s.R["walk"]
					}
				}
			}},
			flow.Alt{Result: ts.Bool(false)})
		_ = b
	case "Len":
		n := in.Fresh(s, e, "len", types.Typ[types.Int])
		if isPend(recv) {
			i := recv.Args[0]
			e.Fork(
				flow.Alt{Result: ts.Int(0), Note: "a pending set is empty", Do: func(s *flow.State) {
					if s.D["all E"] == "" && s.D["some"] == "" && s.EqInt(i, v.cnt(s, "E")) {
						s.R["E"] = ts.AddI(i, 1)
					}
				}},
				flow.Alt{Result: n, Note: "a pending set has names", Do: func(s *flow.State) {
					s.Assume(ts.Le(ts.Int(1), n), true)
					delete(s.R, "E")
					s.D["some"] = "1"
				}})
			return
		}
		s.Assume(ts.Le(ts.Int(0), n), true)
		e.Result = n
	case "Iter":
		cb := bare(e.Args[1])
		if cb.Fn == nil {
			bad("the names are handed to a function that is not known")
			return
		}
		if s.D["iter"] != "" {
			bad("an iteration inside another is not understood")
			return
		}
		kind := "list"
		if current(recv) {
			kind = "now"
		}
		userCb := v.user != nil && kind == "list"
		if userCb {
			ok := isPub(recv) && strings.Contains(recv.Name, "C") ||
				s.D["complete"] != "" && s.R["stored"] != nil && s.Same(s.R["stored"], recv) ||
				isNewSet(recv) && s.D["nothing"] != ""
			if !ok {
				badList("the names listed were published before it was known that no written name was pending")
				return
			}
		}
		e.Fork(
			flow.Alt{Result: none, Do: func(s *flow.State) {
				if userCb {
					s.D["iterated"] = "1"
				} else if kind == "now" && s.R["walk"] != nil {
					s.R["base"] = s.R["walk"]
				}
			}},
			flow.Alt{Result: none, Note: "a name is iterated", Enter: cb, Args: []*flow.Term{v.sk}, Do: func(s *flow.State) {
				s.D["iter"] = cb.Fn.String()
				s.D["iter kind"] = kind
				delete(s.D, "kept")
			}})
	default:
		if s11changes(f) {
			bad("%s changes a set of names in a way that is not known", f.Name())
			return
		}
		e.Handled = false
	}
}

// merge notes that a set holds the names of pending set i.
func (x *s11) merge(s *flow.State, set, i *flow.Term, v callEnv) {
	ts := s.Interp().TS
	if s.R["mset"] == nil || !s.Same(s.R["mset"], set) {
		s.R["mset"] = set
		s.R["M"] = ts.Int(0)
		delete(s.D, "all M")
		delete(s.D, "one merged")
	}
	if v.single(s, i) {
		s.D["one merged"] = "1"
		return
	}
	if s.D["all M"] == "" && s.EqInt(i, v.cnt(s, "M")) {
		s.R["M"] = ts.AddI(i, 1)
	}
}

// s11changes: the function changes the receiver's fields.
func s11changes(f *ssa.Function) bool {
	hit := false
	instrsOf(f, func(i ssa.Instruction) {
		switch i := i.(type) {
		case *ssa.MapUpdate:
			hit = true
		case *ssa.Store:
			if _, ok := i.Addr.(*ssa.Alloc); !ok {
				hit = true
			}
		case ssa.CallInstruction:
			if b, ok := i.Common().Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "delete") {
				hit = true
			}
			if g := i.Common().StaticCallee(); g != nil && g != f && isSetOp(g) && s11changes(g) {
				hit = true
			}
		}
	})
	return hit
}
