package rules

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	assume := []string{
		"all pieces of a value carry the same start and end (the writer's side is checked under S03)",
		"only one operation runs on a metric at a time (S10)",
		"the handle under a path is a handle of the data file at that path",
	}
	register(&Rule{
		ID: "S01", Technique: "path-sensitive typestate dataflow over SSA (terms and intervals)",
		Explain: "The read loop is abstractly interpreted with the stored records as unknowns. It must start at the newest file and move to exactly the next older one, only when the current file has no further slots or its header says that no value in it ends before the requested end, and stop without an error only after the oldest file or when the callback asked to. In a file it starts right behind the head and examines every slot in order, a slot twice only when it interrupted a value. A complete value that ends before the requested end is delivered before the next slot is examined, with the times of its record; a value that does not is never delivered; after the callback failed or asked to stop nothing is examined any more and its error is returned. The latest-value read returns the first delivered value. The query methods pass their own arguments through. Opening a metric yields the smallest and largest data file index.",
		Assume:  assume, Min: 12,
		Run: func(c *Ctx) { runRead(c, "S01"); includeRecords(c) },
	})
	register(&Rule{
		ID: "S04", Technique: "path-sensitive typestate dataflow over SSA (terms and intervals)",
		Explain: "On every path of a write the header is stored only after the last piece of the value, each piece goes to its own slot in the free part of a file (the slots right before the newest value, in order), and nothing is stored after the header. On every path of the read loop the delivered bytes are exactly those of one complete record, or of a begin record followed by continue records and one end record in adjacent slots; a run broken by any other record or by a failure is never delivered.",
		Assume:  assume, Min: 6,
		Run: func(c *Ctx) {
			runWrite(c, "S04")
			runRead(c, "S04")
			includeRecords(c)
		},
	})
}

// isCallback is the callback parameter of the read.
func callbackParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return p
		}
	}
	return nil
}

type readWorld struct {
	*writeWorld
	id       string
	endA     *flow.Term
	root     *ssa.Function
	cb       *flow.Term // the unknown callback
	cbSig    *types.Signature
	capFacts bool
}

func runRead(c *Ctx, id string) {
	w := newWriteWorld(c)
	if !w.ok {
		return
	}
	if w.readLast == nil {
		c.Fail("anchor:ReadLast", filesPkg, "the latest-value read was not found")
		return
	}
	rel := w.relevant()
	where := c.P.Pos(w.read.Pos())
	o := func(prop, key, what string) {
		if prop == id {
			c.Oblige(key, where, what, true)
		}
	}
	o("S01", "range", "only values that end before the requested end are delivered")
	o("S01", "fields", "values are delivered with the times of their record")
	o("S01", "stop", "nothing is examined after the callback stopped or failed")
	o("S01", "error", "the callback's error is returned")
	o("S01", "slots", "every slot from the newest value on is examined in order")
	o("S01", "deliver", "a stored value that ends before the requested end is delivered")
	o("S01", "files", "the files are examined from the newest to the oldest, without a gap")
	o("S01", "finished", "a file is left only when no further value in it can be delivered")
	o("S01", "end", "the read ends without an error only after the oldest file or when asked to stop")
	o("S04", "whole", "only whole values are delivered")
	o("S04", "bytes", "the delivered bytes are those of the value's pieces, in order")

	r := &readWorld{writeWorld: w, id: id}
	r.explore(rel, w.read)
	if id == "S01" {
		c.Oblige("latest", c.P.Pos(w.readLast.Pos()), "the latest-value read returns the first delivered value", true)
		r.explore(rel, w.readLast)
		r.checkQueries()
		r.checkBounds(rel)
		runWrite(c, "S03") // what is read back is what was stored
	}
}

func (r *readWorld) bad(in *flow.Interp, s *flow.State, e *flow.Event, prop, key, format string, a ...interface{}) {
	if prop == r.id {
		in.ReportAt(s, key, e.Instr, format, a...)
	}
	s.Kill()
}

// exhausted reports that the file being examined cannot hold a further value.
func (r *readWorld) exhausted(in *flow.Interp, s *flow.State, f *flow.Term) bool {
	if s.D["skip"] != "" {
		return true
	}
	x := s.R["rslot"]
	return x != nil && s.Le(r.cap(in, f), in.TS.AddI(x, 1))
}

// release notes how far a file was examined when its handle is given back.
func (r *readWorld) release(in *flow.Interp, s *flow.State, f *flow.Term) {
	i := handleIndex(f)
	if i == nil || s.R["ridx"] == nil || s.D["left"] != "" || !s.EqInt(i, s.R["ridx"]) {
		return
	}
	switch {
	case s.D["owed"] != "":
		s.D["left"] = "owed"
	case r.exhausted(in, s, f):
		s.D["left"] = "done"
	default:
		s.D["left"] = "early"
	}
	for _, n := range []string{"rslot", "rec", "buf", "vstart", "vend"} {
		delete(s.R, n)
	}
	for _, n := range []string{"skip", "run", "again", "owed", "unread", "!kind"} {
		delete(s.D, n)
	}
}

// enter tracks the file an operation touches.
func (r *readWorld) enter(in *flow.Interp, s *flow.State, e *flow.Event, f *flow.Term) {
	ts := in.TS
	if s.D["stop"] != "" {
		r.bad(in, s, e, "S01", "stop", "a file is examined after the callback stopped or failed")
		return
	}
	i := handleIndex(f)
	if i == nil {
		r.bad(in, s, e, "S01", "files", "the examined file is not known to be a data file of the metric")
		return
	}
	if s.R["ridx"] == nil {
		if !s.EqInt(i, s.Load(ts.FieldAddr(s.R["m"], r.last), r.last.Type(), "rule.last")) {
			r.bad(in, s, e, "S01", "files", "the first examined file is not the newest one")
			return
		}
	} else if s.D["left"] == "" && s.EqInt(i, s.R["ridx"]) {
		return
	} else {
		if !s.EqInt(ts.AddI(i, 1), s.R["ridx"]) {
			r.bad(in, s, e, "S01", "files", "the next examined file is not the next older one")
			return
		}
		r.leave(in, s, e)
		delete(s.D, "left")
	}
	s.R["ridx"] = i
}

func (r *readWorld) leave(in *flow.Interp, s *flow.State, e *flow.Event) {
	switch s.D["left"] {
	case "done":
	case "owed":
		r.bad(in, s, e, "S01", "deliver", "a stored value that ends before the requested end is not delivered")
	default:
		r.bad(in, s, e, "S01", "finished", "a file is left although it may hold further values that end before the requested end")
	}
}

// deliver checks a call of the callback.
func (r *readWorld) deliver(in *flow.Interp, s *flow.State, e *flow.Event) {
	if s.D["stop"] != "" {
		r.bad(in, s, e, "S01", "stop", "the callback is called again after it stopped or failed")
		return
	}
	var start, end, data *flow.Term
	for i := 0; i < r.cbSig.Params().Len() && i < len(e.Args); i++ {
		t := r.cbSig.Params().At(i).Type()
		switch {
		case basicKind(t, types.Int64) && start == nil:
			start = e.Args[i]
		case basicKind(t, types.Int64):
			end = e.Args[i]
		case t.String() == "[]byte":
			data = e.Args[i]
		}
	}
	if start == nil || end == nil || data == nil {
		r.bad(in, s, e, "S01", "fields", "the callback does not get a start, an end and the data")
		return
	}
	if r.id == "S01" && !s.Lt(end, r.endA) {
		r.bad(in, s, e, "S01", "range", "a value may be delivered that does not end before the requested end")
		return
	}
	rec := s.R["rec"]
	if s.D["owed"] == "" || rec == nil {
		if r.id == "S04" {
			r.bad(in, s, e, "S04", "whole", "the callback is called although the examined slots do not form a whole value")
		} else {
			r.bad(in, s, e, "S01", "fields", "the callback is called although no whole undelivered value that ends before the requested end was just read")
		}
		return
	}
	if !s.EqInt(start, s.R["vstart"]) || !s.EqInt(end, s.R["vend"]) {
		r.bad(in, s, e, "S01", "fields", "the callback does not get the start and end of the value's record")
		return
	}
	if r.id == "S04" {
		if s.R["buf"] == nil || !s.Same(data, s.R["buf"]) || s.D["unread"] != "" {
			r.bad(in, s, e, "S04", "bytes", "the delivered bytes are not those of the value's pieces in order")
			return
		}
	}
	if s.R["first start"] == nil && r.root != r.read {
		s.R["first start"], s.R["first end"], s.R["first data"] = start, end, data
	}
	delete(s.D, "owed")
	delete(s.D, "run")
	delete(s.D, "again")
	for _, n := range []string{"rec", "buf", "vstart", "vend"} {
		delete(s.R, n)
	}
}

func (r *readWorld) explore(rel map[*ssa.Function]bool, root *ssa.Function) {
	c := r.c
	ts := c.P.TS
	p := callbackParam(r.read)
	if p == nil {
		c.Fail("anchor:Read callback", c.P.Pos(r.read.Pos()), "the read takes no callback")
		return
	}
	r.root = root
	r.cbSig = p.Type().Underlying().(*types.Signature)
	r.cb = ts.Sym("arg:"+p.Name()+":"+root.Name(), p.Type())
	r.endA = ts.Int(math.MaxInt64)
	if root == r.read {
		for _, q := range root.Params {
			if basicKind(q.Type(), types.Int64) {
				r.endA = ts.Sym("arg:"+q.Name()+":"+root.Name(), q.Type())
			}
		}
	}
	m := ts.Sym("arg:"+root.Params[0].Name()+":"+root.Name(), root.Params[0].Type())
	r.m = nil
	kinds := []string{"recordKind_complete", "recordKind_begin", "recordKind_continue", "recordKind_end"}
	isCB := func(s *flow.State, e *flow.Event) bool {
		if e.Callee == nil {
			return e.FnVal == r.cb
		}
		return root != r.read && e.Callee.Parent() == root && types.Identical(e.Callee.Signature.Params(), r.cbSig.Params()) && types.Identical(e.Callee.Signature.Results(), r.cbSig.Results())
	}
	in := r.interp(rel, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
		delete(s.R, "ev")
		delete(s.D, "!take")
		switch e.Kind {
		case "recv":
			if e.Addr != nil && e.Addr.Op == "pure" && e.Addr.Name == "(context.Context).Done" {
				s.D["done"] = "1"
			}
		case "call":
			f := e.Callee
			switch {
			case e.Name == "(context.Context).Err":
				if s.D["done"] != "" {
					e.Fork(flow.Alt{Result: freshErr(in, s, e, "err")})
					return true
				}
				return false
			case f == r.put || f == r.closeF:
				r.release(in, s, r.fileArg(e))
				e.Handled = true
				if f == r.closeF {
					return true
				}
				e.Result = r.result(in, f, nil, ts.Nil(), ts.Bool(false))
				return true
			case isCB(s, e):
				r.deliver(in, s, e)
				if f != nil {
					return true // inlined; its result is seen when it returns
				}
				bt := r.cbSig.Results().At(0).Type()
				bad := freshErr(in, s, e, "cberr")
				tup := func(ok, err *flow.Term) *flow.Term { return ts.Mk("tuple", "", r.cbSig.Results(), ok, err) }
				e.Fork(
					flow.Alt{Result: tup(ts.Bool(true), ts.Nil()), Note: "the callback wants more"},
					flow.Alt{Result: tup(ts.Bool(false), ts.Nil()), Note: "the callback stops", Do: func(s *flow.State) { s.D["stop"] = "stopped" }},
					flow.Alt{Result: tup(in.Fresh(s, e, "cbok", bt), bad), Note: "the callback fails", Do: func(s *flow.State) { s.D["stop"], s.R["cberr"] = "failed", bad }},
				)
				return true
			case f == nil:
				return false
			case f == r.meta:
				arg := r.fileArg(e)
				r.enter(in, s, e, arg)
				mt := in.Fresh(s, e, "meta", r.metaT)
				se := r.metaTerm(in, mt, "SmallestEnd")
				e.Fork(
					flow.Alt{Result: r.tuple(in, f, mt, ts.Nil()), Note: "the header is read; a value may end early enough", Do: func(s *flow.State) { s.Assume(ts.Le(ts.AddI(se, 1), r.endA), true) }},
					flow.Alt{Result: r.tuple(in, f, mt, ts.Nil()), Note: "the header is read; no value ends early enough", Do: func(s *flow.State) {
						s.D["skip"] = "1"
						s.Assume(ts.Le(r.endA, se), true)
					}},
					flow.Alt{Result: r.tuple(in, f, ts.Zero(r.metaT), freshErr(in, s, e, "err")), Note: "the header cannot be read", Do: func(s *flow.State) { fail(s, f.Name()) }},
				)
				return true
			case r.isHead(f):
				arg := r.fileArg(e)
				r.enter(in, s, e, arg)
				h := in.Fresh(s, e, "head", types.Typ[types.Int])
				e.Fork(
					flow.Alt{Result: r.tuple(in, f, h, ts.Nil()), Note: f.Name() + " finds the head", Do: func(s *flow.State) {
						s.R["rslot"] = h
						s.Assume(ts.Le(ts.Int(-1), h), true)
						s.Assume(ts.Le(ts.AddI(h, 1), r.cap(in, arg)), true)
					}},
					flow.Alt{Result: r.tuple(in, f, ts.Int(0), freshErr(in, s, e, "err")), Note: f.Name() + " fails"},
				)
				return true
			case f == r.rec:
				r.readRecord(in, s, e, kinds)
				return true
			}
		case "store":
			if e.Addr.Op == "iaddr" && s.R["buf"] != nil && unsliced(e.Addr.Args[0]) == unsliced(s.R["buf"]) {
				delete(s.R, "buf")
			}
		case "copy":
			dst := e.Args[0]
			switch {
			case s.R["rec"] != nil && s.D["run"] != "more" && s.Same(e.Args[1], r.recordTerm(in, s.R["rec"], "data")) && s.EqInt(in.Len(dst), in.Len(e.Args[1])):
				s.R["buf"] = dst
				delete(s.D, "unread")
			case s.R["buf"] != nil && unsliced(dst) == unsliced(s.R["buf"]):
				delete(s.R, "buf")
			}
		case "append":
			if len(e.Args) != 2 || s.R["rec"] == nil || !s.Same(e.Args[1], r.recordTerm(in, s.R["rec"], "data")) {
				return false
			}
			dst := e.Args[0]
			empty := dst.Op == "nil" || dst.Op == "slice" && dst.Args[2] != nil && isZeroInt(dst.Args[2]) || s.EqInt(in.Len(dst), ts.Int(0))
			firstPiece := s.D["run"] != "more"
			if firstPiece && !empty || !firstPiece && (s.R["buf"] == nil || !s.Same(dst, s.R["buf"])) {
				delete(s.R, "buf")
				return false
			}
			b := in.Fresh(s, e, "buf", e.Typ)
			e.Result = b
			s.R["buf"] = b
			delete(s.D, "unread")
			return true
		case "ret":
			if e.Callee != nil && !e.Opaque && root != r.read && isCB(s, e) {
				if isNil, k := s.IsNil(e.Args[1]); !k || !isNil {
					s.D["stop"] = "failed"
					s.R["cberr"] = e.Args[1]
				} else if v, k := s.Decide(e.Args[0]); !k || !v {
					s.D["stop"] = "stopped"
				}
				return false
			}
			if e.Callee == r.read && root != r.read && !e.Opaque {
				r.exit(in, s, e)
			}
		case "exit":
			if root == r.read {
				r.exit(in, s, e)
			} else if r.id == "S01" {
				err := e.Args[len(e.Args)-1]
				if isNil, k := s.IsNil(err); k && !isNil {
					return true
				}
				if s.R["first start"] != nil {
					if !s.Same(e.Args[0], s.R["first start"]) || !s.Same(e.Args[1], s.R["first end"]) || !s.Same(e.Args[2], s.R["first data"]) {
						r.bad(in, s, e, "S01", "latest", "the latest-value read does not return the first delivered value")
					}
				}
			}
			return true
		}
		return false
	})
	in.JoinLimit = 300
	setup := func(s *flow.State) {
		s.R["m"] = m
	}
	base := in.InlineCall
	in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
		return base(s, fn, args) || r.passesBytes(fn)
	}
	if root != r.read {
		base := in.InlineCall
		in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
			return fn == r.read || fn.Parent() == root || base(s, fn, args)
		}
	}
	c.Explore(in, root, nil, setup)
}

// unsliced is what a part was taken of.
func unsliced(t *flow.Term) *flow.Term {
	for t != nil && t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

// passesBytes: a helper that is given a record, its bytes, or what to do with
// them.
func (r *readWorld) passesBytes(fn *ssa.Function) bool {
	if !inPkg(fn, filesPkg) || len(fn.Blocks) == 0 || r.isMethodOfFile(fn) || r.inCache(fn) || r.isPrim(fn) {
		return false
	}
	bytes := func(t types.Type) bool { return isBytes(t) || types.Identical(deref(t), r.recT) }
	for _, p := range fn.Params {
		if bytes(p.Type()) {
			return true
		}
		if sg, ok := p.Type().Underlying().(*types.Signature); ok {
			for i := 0; i < sg.Params().Len(); i++ {
				if bytes(sg.Params().At(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

// readRecord forks over what is stored in a slot.
func (r *readWorld) readRecord(in *flow.Interp, s *flow.State, e *flow.Event, kinds []string) {
	ts := in.TS
	f, n := r.fileArg(e), e.Args[len(e.Args)-1]
	r.enter(in, s, e, f)
	again := s.D["again"] != "" && s.R["rslot"] != nil && s.EqInt(n, s.R["rslot"])
	switch {
	case again:
		delete(s.D, "owed")
		delete(s.D, "run")
	case s.R["rslot"] == nil:
		r.bad(in, s, e, "S01", "slots", "the position of the newest value in the file was not looked up first")
	case !s.EqInt(n, ts.AddI(s.R["rslot"], 1)):
		r.bad(in, s, e, "S01", "slots", "the next examined slot is not the one behind the previous slot")
	}
	if s.D["owed"] != "" {
		r.bad(in, s, e, "S01", "deliver", "a stored value that ends before the requested end is not delivered")
	}
	s.R["rslot"] = n
	delete(s.D, "again")
	delete(s.D, "unread")
	delete(s.D, "!kind")
	run := s.D["run"]
	delete(s.D, "run")
	rec := in.Fresh(s, e, "rec", r.recT)
	kind, end := r.recordTerm(in, rec, "kind"), r.recordTerm(in, rec, "end")
	start := r.recordTerm(in, rec, "start")
	if run == "" {
		delete(s.R, "buf")
	}
	drop := func(f func(s *flow.State)) func(s *flow.State) {
		return func(s *flow.State) {
			for _, n := range []string{"rec", "buf", "vstart", "vend"} {
				delete(s.R, n)
			}
			if f != nil {
				f(s)
			}
		}
	}
	alts := []flow.Alt{{Result: r.tuple(in, r.rec, ts.Zero(r.recT), freshErr(in, s, e, "err")), Note: "the slot holds no valid record", Do: func(s *flow.State) {
		drop(nil)(s)
	}}}
	ok := r.tuple(in, r.rec, rec, ts.Nil())
	inside := func(s *flow.State) {
		s.Assume(ts.Le(ts.Int(0), n), true)
		s.Assume(ts.Le(ts.AddI(n, 1), r.cap(in, f)), true)
	}
	codes := make([]*flow.Term, len(kinds))
	for i, name := range kinds {
		k := r.c.P.ConstInt(filesPkg, name)
		if k == nil {
			r.c.Fail("anchor:"+name, filesPkg, "the record kind is not a constant")
			s.Kill()
			return
		}
		codes[i] = ts.Int(*k)
	}
	alt := func(note string, early int, is []int, not []int, do func(s *flow.State)) {
		alts = append(alts, flow.Alt{Result: ok, Note: "the slot holds " + note, Do: func(s *flow.State) {
			inside(s)
			for _, i := range is {
				s.Assume(ts.Eq(kind, codes[i], kind.T), true)
			}
			for _, i := range not {
				s.Assume(ts.Eq(kind, codes[i], kind.T), false)
			}
			if early != 0 {
				s.Assume(ts.Le(ts.AddI(end, 1), r.endA), early > 0)
			}
			s.R["rec"] = rec
			if early > 0 {
				s.R["vstart"], s.R["vend"] = start, end
			}
			s.D["!kind"] = note
			if do != nil {
				do(s)
			}
		}})
	}
	const complete, begin, cont, last = 0, 1, 2, 3
	set := func(run, owed, again string) func(s *flow.State) {
		return func(s *flow.State) {
			for n, v := range map[string]string{"run": run, "owed": owed, "again": again, "unread": "1"} {
				if v != "" {
					s.D[n] = v
				}
			}
			if run == "" && owed == "" {
				delete(s.D, "unread")
			}
		}
	}
	same := func(f func(s *flow.State)) func(s *flow.State) {
		return func(s *flow.State) {
			// the pieces of a value carry the same times
			s.Assume(ts.Eq(start, s.R["vstart"], start.T), true)
			s.Assume(ts.Eq(end, s.R["vend"], end.T), true)
			f(s)
		}
	}
	if run == "" {
		alt("a value that does not end before the requested end", -1, nil, nil, drop(nil))
		alt("a complete value", 1, []int{complete}, nil, set("", "1", ""))
		alt("the beginning of a value", 1, []int{begin}, nil, set("first", "", ""))
		alt("a stray piece", 1, nil, []int{complete, begin}, drop(nil))
	} else {
		alt("a further piece", 0, []int{cont}, nil, same(set("more", "", "")))
		alt("the last piece", 0, []int{last}, nil, same(set("more", "1", "")))
		alt("another complete value", 1, []int{complete}, nil, set("", "1", "1"))
		alt("the beginning of another value", 1, []int{begin}, nil, set("first", "", "1"))
		alt("something else", 0, nil, []int{complete, begin, cont, last}, drop(set("", "", "1")))
		alt("another value that does not end before the requested end", -1, nil, []int{cont, last}, drop(set("", "", "1")))
	}
	e.Fork(alts...)
}

// exit checks the end of the read.
func (r *readWorld) exit(in *flow.Interp, s *flow.State, e *flow.Event) {
	ts := in.TS
	err := e.Args[len(e.Args)-1]
	isNil, k := s.IsNil(err)
	if s.D["stop"] == "failed" {
		if !k && !s.Same(err, s.R["cberr"]) || k && isNil {
			r.bad(in, s, e, "S01", "error", "the callback failed but the read may return no error")
		}
		return
	}
	if k && !isNil || s.D["stop"] != "" {
		return
	}
	first := s.Load(ts.FieldAddr(s.R["m"], r.first), r.first.Type(), "rule.first")
	last := s.Load(ts.FieldAddr(s.R["m"], r.last), r.last.Type(), "rule.last")
	if s.R["ridx"] == nil {
		if !s.Lt(last, first) {
			r.bad(in, s, e, "S01", "end", "the read ends without an error although no file was examined")
		}
		return
	}
	if !s.Le(s.R["ridx"], first) {
		r.bad(in, s, e, "S01", "end", "the read may end without an error before the oldest file was examined")
		return
	}
	r.leave(in, s, e)
}

// checkQueries: the exported methods that read pass their arguments through
// and return what the read returned.
func (r *readWorld) checkQueries() {
	c := r.c
	ts := c.P.TS
	n := 0
	rel := c.P.Relevant(callsAny(r.read, r.readLast, r.newMet))
	reads := c.P.Relevant(callsAny(r.read, r.readLast))
	{
		for _, f := range sortFns(append([]*ssa.Function(nil), c.P.RepoFuncs()...)) {
			f := f
			if f.Parent() != nil || !inPkg(f, filesPkg) || f == r.read || f == r.readLast || f.Signature.Recv() == nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			if !reads[f] {
				continue
			}
			n++
			key := "query:" + f.Name()
			c.Oblige(key, c.P.Pos(f.Pos()), f.Name()+" reads the named metric with the requested end, buffer and callback, and returns the outcome", true)
			in := flow.NewInterp(c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
				switch e.Kind {
				case "call":
					switch e.Callee {
					case r.newMet:
						m := in.Fresh(s, e, "metric", r.metric)
						s.Assume(ts.IsNil(m), false)
						var opts *flow.Term
						for _, a := range e.Args {
							if a.T != nil && field(a.T, "name") != nil {
								opts = a
							}
						}
						if opts != nil {
							st := opts.T.Underlying().(*types.Struct)
							for i := 0; i < st.NumFields(); i++ {
								if st.Field(i).Name() == "name" {
									s.R["name"] = in.TS.Field(opts, i, st)
								}
							}
						}
						e.Fork(
							flow.Alt{Result: r.tuple(in, r.newMet, m, ts.Nil()), Note: "the metric is opened", Do: func(s *flow.State) { s.R["m"] = m }},
							flow.Alt{Result: r.tuple(in, r.newMet, ts.Zero(r.newMet.Signature.Results().At(0).Type()), freshErr(in, s, e, "err")), Note: "the metric cannot be opened", Do: func(s *flow.State) { s.D["failed"] = "1" }},
						)
					case r.read, r.readLast:
						target := e.Callee
						for i, p := range target.Params[1:] {
							var want *flow.Term
							for _, q := range f.Params[1:] {
								if types.Identical(q.Type().Underlying(), p.Type().Underlying()) && !basicKind(q.Type(), types.String) {
									want = ts.Sym("arg:"+q.Name()+":"+f.Name(), q.Type())
								}
							}
							if want != nil && p.Type().String() != "context.Context" && !s.Same(e.Args[i+1], want) {
								in.ReportAt(s, key, e.Instr, "the %s given to %s is not the caller's", p.Name(), target.Name())
							}
						}
						if s.R["m"] == nil || !s.Same(e.Args[0], s.R["m"]) {
							in.ReportAt(s, key, e.Instr, "the metric read is not the one that was opened")
						}
						named := false
						for _, q := range f.Params {
							named = named || s.R["name"] != nil && s.R["name"] == ts.Sym("arg:"+q.Name()+":"+f.Name(), q.Type())
						}
						if !named {
							in.ReportAt(s, key, e.Instr, "the metric read is not the requested one")
						}
						rs := target.Signature.Results()
						var out []*flow.Term
						for i := 0; i < rs.Len(); i++ {
							t := in.Fresh(s, e, regName("res", i), rs.At(i).Type())
							s.R[regName("res", i)] = t
							out = append(out, t)
						}
						e.Handled = true
						e.Result = out[0]
						if len(out) > 1 {
							e.Result = r.tuple(in, target, out...)
						}
					}
				case "exit":
					err := e.Args[len(e.Args)-1]
					if isNil, k := s.IsNil(err); k && !isNil && s.R["res0"] == nil {
						return
					}
					if s.R["res0"] == nil {
						in.ReportAt(s, key, e.Instr, "it may return no error without reading")
						return
					}
					if isNil, k := s.IsNil(s.R[regName("res", len(e.Args)-1)]); k && !isNil {
						if n, k := s.IsNil(err); !k || n {
							in.ReportAt(s, key, e.Instr, "the error of the read is not returned")
						}
						return
					}
					for i, a := range e.Args {
						if s.R[regName("res", i)] == nil || !s.Same(a, s.R[regName("res", i)]) {
							if i == len(e.Args)-1 {
								x, k := s.IsNil(s.R[regName("res", i)])
								y, l := s.IsNil(a)
								if k && l && x == y {
									continue
								}
							}
							in.ReportAt(s, key, e.Instr, "it does not return what the read returned")
							return
						}
					}
				}
			})
			in.UseRelevance(rel)
			base := in.InlineCall
			in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
				return fn != r.read && fn != r.readLast && fn != r.newMet && (rel[fn] || base(s, fn, args))
			}
			c.Explore(in, f, nil, nil)
		}
	}
	c.Count("query methods", n)
	if n < 2 {
		c.Fail("query:none", filesPkg, "the exported query methods were not recognised")
	}
}

// checkBounds: opening a metric finds the smallest and the largest index.
func (r *readWorld) checkBounds(rel map[*ssa.Function]bool) {
	c := r.c
	ts := c.P.TS
	key := "bounds"
	c.Oblige(key, c.P.Pos(r.newMet.Pos()), "the files of an opened metric reach from the smallest to the largest index found", true)
	in := r.interp(rel, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
		switch e.Kind {
		case "call":
			switch e.Name {
			case "strconv.ParseInt", "strconv.Atoi":
				rs := e.Callee.Signature.Results()
				n := in.Fresh(s, e, "n", rs.At(0).Type())
				bad := flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Int(0), freshErr(in, s, e, "err")), Note: "not a number"}
				ok := flow.Alt{Result: ts.Mk("tuple", "", rs, n, ts.Nil()), Note: "a data file is found"}
				if s.R["!iv"] != nil {
					s.D["seen"] = "before"
					e.Fork(ok, bad)
					return true
				}
				one := ts.Sym("witness", rs.At(0).Type())
				w := flow.Alt{Result: ts.Mk("tuple", "", rs, one, ts.Nil())}
				w.Note = "the data file in question is found"
				w.Do = func(s *flow.State) {
					s.R["!iv"] = one
					s.D["seen"] = "now"
					s.Assume(ts.Le(ts.Int(1), one), true)
				}
				e.Fork(ok, w, bad)
				return true
			}
		case "store":
			if e.Addr == nil || e.Addr.Op != "faddr" || s.R["!iv"] == nil {
				return false
			}
			if e.Addr.Obj == types.Object(r.first) && !s.Le(e.Val, s.R["!iv"]) {
				in.ReportAt(s, key, e.Instr, "a data file may lie before the first file of the metric")
			}
			if e.Addr.Obj == types.Object(r.last) && !s.Le(s.R["!iv"], e.Val) {
				in.ReportAt(s, key, e.Instr, "a data file may lie behind the last file of the metric")
			}
			if e.Addr.Obj == types.Object(r.first) || e.Addr.Obj == types.Object(r.last) {
				c.Count("bounds stored", 1)
			}
		}
		return false
	})
	in.KeepOrder = true
	c.Explore(in, r.newMet, nil, nil)
	if c.Counts["bounds stored"] < 2 {
		c.Fail("bounds:none", c.P.Pos(r.newMet.Pos()), "no stores of the metric's first and last file were seen")
	}
}

// includeRecords: a record that is read is the one that was stored.
func includeRecords(c *Ctx) {
	c.Include("S13", func(key, where, msg string) bool { return true })
}
