package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S10", Technique: "lock typestate over virtually inlined SSA: per-metric lock around every operation, and the counting protocol of the lock pool",
		Explain: "On every path a metric is opened, read or written only while the lock of exactly that metric is held, and the lock is given back on every exit. In the lock pool the entry of a key is counted under the pool's lock before it is waited for, is waited for without the pool's lock, and is removed only when nobody counts on it.",
		Min:     8,
		Run:     runS10,
	})
}

const (
	muLock   = "(*sync.Mutex).Lock"
	muUnlock = "(*sync.Mutex).Unlock"
)

// lockPoolFns finds the methods that take and give back the lock of a key.
func lockPoolFns(c *Ctx) (lock, unlock *ssa.Function) {
	return c.Fn(filesPkg, "(*lockPool).Lock"), c.Fn(filesPkg, "(*lockPool).Unlock")
}

func runS10(c *Ctx) {
	lock, unlock := lockPoolFns(c)
	open := c.Fn(filesPkg, "newMetric")
	if lock == nil || unlock == nil || open == nil {
		return
	}
	pt, _ := open.Signature.Results().At(0).Type().(*types.Pointer)
	if pt == nil {
		c.Fail("anchor:newMetric", filesPkg, "opening a metric does not yield a pointer to it")
		return
	}
	isOp := func(f *ssa.Function) bool {
		if f == nil {
			return false
		}
		if f == open {
			return true
		}
		r := f.Signature.Recv()
		if r == nil || !types.Identical(r.Type(), pt) {
			return false
		}
		switch f.Name() {
		case "Write", "Read", "ReadLast":
			return true
		}
		return false
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := call.Common().StaticCallee()
		return g == lock || g == unlock || isOp(g)
	})
	used := map[string]bool{}
	c.drive(rel, func(f *ssa.Function) bool {
		if isOp(f) || f == lock || f == unlock {
			return false
		}
		if r := f.Signature.Recv(); r != nil && types.Identical(r.Type(), pt) {
			return false
		}
		return inPkg(f, filesPkg)
	}, func(root *ssa.Function) *flow.Interp {
		name := fname(root)
		c.Oblige("locked:"+name, c.P.Pos(root.Pos()), "every metric operation in "+name+" runs under the lock of that metric, which is given back on every path", true)
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		ts := in.TS
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "go":
				if e.Callee != nil && (isOp(e.Callee) || e.Callee == lock || e.Callee == unlock) {
					in.ReportAt(s, "locked:"+name, e.Instr, "%s runs in another goroutine, outside the lock", e.Callee.Name())
				}
			case "call":
				f := e.Callee
				switch {
				case f == nil:
				case f == lock:
					e.Handled = true
					if s.R["key"] != nil {
						in.ReportAt(s, "locked:"+name, e.Instr, "a metric's lock is taken while one is already held")
						s.Kill()
						return
					}
					s.R["key"] = e.Args[len(e.Args)-1]
				case f == unlock:
					e.Handled = true
					k := s.R["key"]
					if k == nil || !s.Same(k, e.Args[len(e.Args)-1]) {
						in.ReportAt(s, "locked:"+name, e.Instr, "a metric's lock is given back that is not held")
						s.Kill()
						return
					}
					delete(s.R, "key")
					delete(s.R, "metric")
				case f == open:
					k := s.R["key"]
					used["open"] = true
					nm := metricName(ts, e.Args)
					if k == nil || nm == nil || !s.Same(k, nm) {
						in.ReportAt(s, "locked:"+name, e.Instr, "a metric is opened without holding its lock")
						s.Kill()
						return
					}
					v := in.Fresh(s, e, "metric", open.Signature.Results().At(0).Type())
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", f.Signature.Results(), v, ts.Nil()), Note: "the metric is opened", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(v), false)
							s.R["metric"] = v
						}},
						flow.Alt{Result: ts.Mk("tuple", "", f.Signature.Results(), ts.Nil(), freshErr(in, s, e, "err")), Note: "opening the metric fails"},
					)
				case isOp(f):
					used[f.Name()] = true
					if s.R["key"] == nil || s.R["metric"] == nil || !s.Same(s.R["metric"], e.Args[0]) {
						in.ReportAt(s, "locked:"+name, e.Instr, "%s runs on a metric whose lock is not held", f.Name())
						s.Kill()
					}
				}
			case "exit", "panicexit":
				if s.R["key"] != nil {
					in.ReportAt(s, "locked:"+name, e.Instr, "the metric's lock is still held when %s ends", name)
				}
			}
		}
		return in
	})
	for _, op := range []string{"open", "Write", "Read", "ReadLast"} {
		c.Oblige("used:"+op, filesPkg, op+" is called by the database", used[op])
	}
	s10pool(c, lock, unlock)
}

// metricName is the name in the options a metric is opened with.
func metricName(ts *flow.Terms, args []*flow.Term) *flow.Term {
	for _, a := range args {
		if a.T == nil {
			continue
		}
		st, ok := a.T.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "name" {
				return ts.Field(a, i, st)
			}
		}
	}
	return nil
}

// s10pool checks the two methods of the lock pool.
func s10pool(c *Ctx, lock, unlock *ssa.Function) {
	ts := c.P.TS
	// the counter of an entry: the integer beside the entry's lock
	var counter *types.Var
	for _, pf := range fields(lock.Signature.Recv().Type()) {
		mt, ok := pf.Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		for _, ef := range fields(mt.Elem()) {
			if isInt(ef.Type()) {
				counter = ef
			}
		}
	}
	for _, f := range []*ssa.Function{lock, unlock} {
		f := f
		key := "pool:" + f.Name()
		what := "the pool counts a key's entry before waiting for it, and waits without holding the pool"
		if f == unlock {
			what = "the pool gives the key's lock back and forgets the entry only when nobody counts on it"
		}
		c.Oblige(key, c.P.Pos(f.Pos()), what, true)
		self := ts.Sym("arg:"+f.Params[0].Name()+":"+f.Name(), f.Params[0].Type())
		keyA := ts.Sym("arg:"+f.Params[1].Name()+":"+f.Name(), f.Params[1].Type())
		in := flow.NewInterp(c.P, nil)
		bad := func(in *flow.Interp, s *flow.State, e *flow.Event, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		ownMutex := func(a *flow.Term) bool { // the pool's own mutex
			return a != nil && a.Op == "faddr" && a.Args[0] == self
		}
		isCount := func(a *flow.Term) bool { // the counter of an entry
			return a != nil && a.Op == "faddr" && a.Args[0] != self && isInt(a.Obj.Type())
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "mapgot", "mapget":
				if e.Kind == "mapgot" && e.Block && e.Val != nil && len(e.Args) > 1 && s.Same(e.Args[1], keyA) {
					s.R["got"] = e.Val
				}
			case "call":
				switch e.Name {
				case muLock:
					e.Handled = true
					a := e.Args[0]
					if ownMutex(a) {
						if s.D["pool"] != "" {
							bad(in, s, e, "the pool is locked twice")
						}
						s.D["pool"] = "1"
						return
					}
					if f == unlock {
						bad(in, s, e, "giving back a key waits for another lock")
						return
					}
					if s.D["pool"] != "" {
						bad(in, s, e, "the pool waits for a key's lock while holding the pool: all other keys wait too")
						return
					}
					if s.R["entry"] == nil || a.Op != "faddr" || !s.Same(a.Args[0], s.R["entry"]) {
						bad(in, s, e, "the lock that is waited for is not that of the entry counted for the key")
						return
					}
					s.D["held"] = "1"
				case muUnlock:
					e.Handled = true
					a := e.Args[0]
					if ownMutex(a) {
						if s.D["pool"] == "" {
							bad(in, s, e, "the pool is unlocked although it is not locked")
						}
						delete(s.D, "pool")
						return
					}
					if f == lock {
						bad(in, s, e, "taking a key gives a lock back")
						return
					}
					if s.R["found"] == nil || a.Op != "faddr" || !s.Same(a.Args[0], s.R["found"]) || s.D["gave"] != "" {
						bad(in, s, e, "the lock given back is not that of the key's entry")
						return
					}
					s.D["gave"] = "1"
				}
			case "store":
				if !isCount(e.Addr) {
					return
				}
				old := s.Load(e.Addr, e.Addr.Obj.Type(), "rule.count")
				ent := e.Addr.Args[0]
				d, ok := ts.ConstDiff(e.Val, old)
				if ent.Op == "alloc" && !ok {
					if n, isK := e.Val.IntVal(); isK {
						if n == 0 {
							return // the initial count
						}
						d, ok = n, true
					}
				}
				if s.D["pool"] == "" {
					bad(in, s, e, "the count of an entry changes without holding the pool")
					return
				}
				if f == lock {
					if !ok || d != 1 || s.R["entry"] != nil {
						bad(in, s, e, "taking a key does not count its entry up by one")
						return
					}
					s.R["entry"] = ent
				} else {
					if !ok || d != -1 || s.R["found"] != nil {
						bad(in, s, e, "giving back a key does not count its entry down by one")
						return
					}
					s.R["found"], s.R["count"] = ent, e.Val
				}
			case "mapset":
				if f == lock && s.D["pool"] != "" && s.Same(e.Args[1], keyA) {
					s.R["new"] = e.Val
				} else {
					bad(in, s, e, "an entry is stored without holding the pool, or under another key")
				}
			case "mapdel":
				last := s.R["count"] != nil && s.Le(s.R["count"], ts.Int(0))
				if got := s.R["got"]; s.R["count"] == nil && got != nil && counter != nil {
					// the last one to count on it may skip the counting
					n := s.Load(ts.FieldAddr(got, counter), counter.Type(), "rule.count")
					if last = s.Le(n, ts.Int(1)); last {
						s.R["found"], s.R["count"] = got, ts.Int(0)
					}
				}
				if f == lock || s.D["pool"] == "" || !s.Same(e.Args[1], keyA) || !last {
					bad(in, s, e, "the entry of a key is removed although it may still be counted on")
				}
			case "exit":
				if s.D["pool"] != "" {
					bad(in, s, e, "the pool is still locked when the method returns")
					return
				}
				if f == lock {
					ent := s.R["entry"]
					if s.D["held"] == "" || ent == nil {
						bad(in, s, e, "the method returns without holding the key's lock")
						return
					}
					if ent.Op == "alloc" && !s.Same(s.R["new"], ent) {
						bad(in, s, e, "a new entry is used that is not stored in the pool")
						return
					}
					if ent.Op != "alloc" && !entryOf(ent, keyA) {
						bad(in, s, e, "the locked entry is not that of the key")
					}
				} else {
					if s.D["gave"] == "" {
						bad(in, s, e, "the method returns without giving the key's lock back")
						return
					}
					if !entryOf(s.R["found"], keyA) {
						bad(in, s, e, "the released entry is not that of the key")
					}
				}
				c.Count("lock pool exits", 1)
			}
		}
		base := in.InlineCall
		in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
			if inPkg(fn, filesPkg) {
				return true
			}
			return base != nil && base(s, fn, args)
		}
		c.Explore(in, f, nil, nil)
	}
	if c.Counts["lock pool exits"] < 2 {
		c.Fail("pool:none", filesPkg, "no completed path through the lock pool was found")
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// entryOf reports a value found in a map under the key.
func entryOf(t, key *flow.Term) bool {
	return termHas(t, func(x *flow.Term) bool { return x == key })
}
