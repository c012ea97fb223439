package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	assume := []string{
		"the number of pieces the splitting of a value yields is the one computed by the function that counts them (both derive it from the same chunk size; compared by the existing tests)",
		"only one operation runs on a metric at a time (S10)",
	}
	register(&Rule{
		ID: "S02", Technique: "path-sensitive typestate dataflow over SSA (terms and intervals)",
		Explain: "On every path of a write, before the first call that changes stored data (a stored piece, a header, a created file, the removal of the oldest file), either the slot right behind the head of the newest file was found free, or the value read from exactly that slot ends before the new one. A write that returns false without an error has changed nothing and has seen a stored value that does not end earlier. The function that finds the head returns a position with nothing stored at it and a stored value, or the end of the file, right behind it.",
		Assume:  assume, Min: 6,
		Run: func(c *Ctx) { runWrite(c, "S02"); includeRecords(c) },
	})
	register(&Rule{
		ID: "S03", Technique: "path-sensitive typestate dataflow over SSA (terms and intervals)",
		Explain: "On every path of a write that returns true without an error, the pieces handed to the file tile the whole value (each piece is the next part of what is left, the last one all that is left), every store succeeded, and after them the header was stored successfully with the newest position right before the first piece, the value's end, and start and smallest end updated from the stored header. Whenever a store or read fails, the write returns an error.",
		Assume:  assume, Min: 6,
		Run: func(c *Ctx) { runWrite(c, "S03"); includeRecords(c) },
	})
	register(&Rule{
		ID: "S05", Technique: "path-sensitive typestate dataflow over SSA (terms and intervals)",
		Explain: "Every removal of a file reachable from the storage API removes either the oldest file, while the metric holds at least its configured number of files beyond it and the value has been found to fit a new file, or the newest file after its header was found to describe no values while an older file exists. Files are only ever created (and thereby truncated) at the position after the newest one, or as the first file of a metric that has none. Before a removal the handle of that path is taken out of the cache, and nothing puts it back. Creating a file at the limit requires the removal of the oldest.",
		Assume:  assume, Min: 4,
		Run: func(c *Ctx) { runWrite(c, "S05") },
	})
}

// writeWorld knows the functions of the storage package by role.
type writeWorld struct {
	*filesWorld
	c                              *Ctx
	setRec, rec, hasRec, meta, set *ssa.Function
	metaT                          types.Type
	recT                           types.Type
	capField, sizeField            int
	fileSt                         *types.Struct
	metric                         types.Type
	first, last, max, opts         *types.Var
	iter                           *ssa.Function
	m                              *flow.Term // the metric being written
}

func newWriteWorld(c *Ctx) *writeWorld {
	w := &writeWorld{filesWorld: newFilesWorld(c), c: c}
	w.setRec = c.Fn(filesPkg, "file.SetRecord")
	w.rec = c.Fn(filesPkg, "file.Record")
	w.hasRec = c.Fn(filesPkg, "file.HasRecord")
	w.meta = c.Fn(filesPkg, "file.Metadata")
	w.set = c.Fn(filesPkg, "file.SetMetadata")
	capF := c.Fn(filesPkg, "file.Capacity")
	sizeF := c.Fn(filesPkg, "file.Size")
	w.iter = c.Fn(filesPkg, "iterateRecords")
	if !w.filesWorld.ok || w.setRec == nil || w.rec == nil || w.hasRec == nil || w.meta == nil || w.set == nil || capF == nil || sizeF == nil || w.iter == nil {
		w.ok = false
		return w
	}
	w.metaT = w.meta.Signature.Results().At(0).Type()
	w.recT = w.rec.Signature.Results().At(0).Type()
	w.capField, w.sizeField = getter(capF), getter(sizeF)
	w.fileSt = w.file.Underlying().(*types.Struct)
	w.metric = w.write.Signature.Recv().Type()
	w.first, w.last, w.opts = field(w.metric, "first"), field(w.metric, "last"), field(w.metric, "opts")
	if w.opts != nil {
		w.max = field(w.opts.Type(), "max")
	}
	if w.capField < 0 || w.sizeField < 0 || w.first == nil || w.last == nil || w.max == nil {
		c.Fail("anchor:metric fields", filesPkg, "the file and metric structures do not have the expected shape (capacity and size getters; first, last and opts.max)")
		w.ok = false
	}
	return w
}

// getter finds the field a trivial getter returns.
func getter(f *ssa.Function) int {
	n := -1
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Field:
				n = i.Field
			case *ssa.FieldAddr:
				n = i.Field
			}
		}
	}
	return n
}

func (w *writeWorld) cap(in *flow.Interp, f *flow.Term) *flow.Term {
	return in.TS.Field(f, w.capField, w.fileSt)
}
func (w *writeWorld) size(in *flow.Interp, f *flow.Term) *flow.Term {
	return in.TS.Field(f, w.sizeField, w.fileSt)
}

func basicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// isPath is a function that computes the path of the data file with an index.
func (w *writeWorld) isPath(f *ssa.Function) (idx int, ok bool) {
	if f == nil || !inPkg(f, filesPkg) || f.Signature.Results().Len() != 1 || !basicKind(f.Signature.Results().At(0).Type(), types.String) {
		return 0, false
	}
	n := 0
	if f.Signature.Recv() != nil {
		n = 1
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		switch {
		case basicKind(t, types.Int):
			if ok {
				return 0, false
			}
			idx, ok = n+i, true
		case basicKind(t, types.String):
		default:
			return 0, false
		}
	}
	return idx, ok
}

// isHead is the function that finds the position before the newest value.
func (w *writeWorld) isHead(f *ssa.Function) bool {
	if f == nil || !inPkg(f, filesPkg) || f.Signature.Results().Len() != 2 || f.Parent() != nil {
		return false
	}
	if !basicKind(f.Signature.Results().At(0).Type(), types.Int) || !isErrorType(f.Signature.Results().At(1).Type()) {
		return false
	}
	n := 0
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		if w.isFile(t) {
			n++
		} else if t.String() != "context.Context" {
			return false
		}
	}
	if r := f.Signature.Recv(); r != nil && w.isFile(r.Type()) {
		n++
	}
	return n == 1
}

// isCount is the function that counts the pieces of a value.
func (w *writeWorld) isCount(f *ssa.Function) bool {
	if f == nil || !inPkg(f, filesPkg) || f.Signature.Recv() != nil || f.Parent() != nil {
		return false
	}
	s := f.Signature
	return s.Results().Len() == 1 && s.Params().Len() == 2 && basicKind(s.Results().At(0).Type(), types.Int) && basicKind(s.Params().At(0).Type(), types.Int) && basicKind(s.Params().At(1).Type(), types.Int)
}

func (w *writeWorld) isTokenMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && basicKind(m.Key(), types.String) && w.take.Signature.Params().Len() > 0 && types.Identical(m.Elem(), w.take.Signature.Params().At(0).Type())
}

// pathIndex is the index in a path made by the path function.
func pathIndex(p *flow.Term) *flow.Term {
	if p != nil && p.Op == "pure" && p.Name == "datafile" {
		return p.Args[0]
	}
	return nil
}

// handleIndex is the index of the data file a handle belongs to.
func handleIndex(f *flow.Term) *flow.Term {
	if f != nil && f.Op == "pure" && f.Name == "handle" {
		return pathIndex(f.Args[0])
	}
	return nil
}

func (w *writeWorld) relevant() map[*ssa.Function]bool {
	prim := callsAny(w.open, w.create, w.take, w.put, w.setRec, w.rec, w.hasRec, w.meta, w.set)
	return w.c.P.Relevant(func(i ssa.Instruction) bool {
		if prim(i) || isCallTo(i, "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate") {
			return true
		}
		switch i := i.(type) {
		case *ssa.MapUpdate:
			return w.isTokenMap(i.Map.Type())
		case ssa.CallInstruction:
			if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return w.isTokenMap(i.Common().Args[0].Type())
			}
		case *ssa.Store:
			if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
				v := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field)
				return v == w.first || v == w.last
			}
		}
		return false
	})
}

// interp prepares an interpreter with the shared boundary of the storage
// package: what opens, stores and finds; hook sees the events first.
func (w *writeWorld) interp(rel map[*ssa.Function]bool, hook func(in *flow.Interp, s *flow.State, e *flow.Event) bool) *flow.Interp {
	in := flow.NewInterp(w.c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if hook(in, s, e) {
			return
		}
		w.boundary(in, s, e)
	})
	in.UseRelevance(rel)
	inline := in.InlineCall
	in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool {
		if _, ok := w.isPath(fn); ok || w.isHead(fn) || w.isCount(fn) || w.isPrim(fn) || w.inCache(fn) {
			return false
		}
		if fn == w.setRec || fn == w.rec || fn == w.hasRec || fn == w.meta || fn == w.set {
			return false
		}
		if w.isMethodOfFile(fn) && getter(fn) >= 0 && len(fn.Blocks) == 1 && len(fn.Blocks[0].Instrs) < 6 {
			return true
		}
		return inline(s, fn, args) || rel[fn] || fn == w.iter
	}
	in.MaxStates = 200000
	return in
}

// forget drops what the property at hand does not ask about.
func (w *writeWorld) forget(id string, s *flow.State, e *flow.Event) {
	switch id {
	case "S02":
		delete(s.R, "ev")
	case "S03", "S04":
		for _, n := range []string{"ev", "newest"} {
			delete(s.R, n)
		}
		for _, n := range []string{"newest file", "only", "changed", "removed"} {
			delete(s.D, n)
		}
		if e.Kind == "call" && (w.isHead(e.Callee) || e.Callee == w.create || e.Callee == w.setRec && s.D["pieces"] == "") {
			s.HavocFields(map[types.Object]bool{w.first: true})
			s.DropFacts(func(q *flow.Term) bool {
				keep := true
				q.Walk(func(x *flow.Term) bool {
					if x.Op == "mhas" || x.Op == "load" && x.Args[0].Op == "faddr" && (x.Args[0].Obj == w.first || x.Args[0].Obj == w.last || x.Args[0].Obj == w.max) {
						keep = false
					}
					return x.Op != "pure"
				})
				return keep
			})
		}
	case "S05":
		delete(s.R, "newest")
	}
}

func (w *writeWorld) recordTerm(in *flow.Interp, r *flow.Term, name string) *flow.Term {
	st := w.recT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.TS.Field(r, i, st)
		}
	}
	return nil
}

func (w *writeWorld) metaTerm(in *flow.Interp, m *flow.Term, name string) *flow.Term {
	st := w.metaT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.TS.Field(m, i, st)
		}
	}
	return nil
}

func fail(s *flow.State, what string) {
	s.D["failed"] = what
}

// boundary models the primitives: what may happen, and what is then known.
func (w *writeWorld) boundary(in *flow.Interp, s *flow.State, e *flow.Event) {
	ts := in.TS
	switch e.Kind {
	case "mapgot":
		if !w.isTokenMap(e.Typ) {
			return
		}
		if e.Block {
			s.R["tok"], s.R["tokpath"] = e.Val, e.Args[1]
		} else {
			s.D["!take"] = "no entry"
			w.evicted(s, e.Args[1])
		}
	case "mapset":
		if w.isTokenMap(e.Typ) {
			w.cached(s, e.Args[1])
		}
	case "mapdel":
		if w.isTokenMap(e.Typ) {
			w.evicted(s, e.Args[1])
		}
	case "call":
		f := e.Callee
		if f == nil {
			return
		}
		if i, ok := w.isPath(f); ok && e.Opaque {
			e.Handled = true
			e.Result = ts.Mk("pure", "datafile", types.Typ[types.String], e.Args[i])
			return
		}
		switch {
		case w.isCount(f):
			e.Handled = true
			e.Result = ts.Mk("pure", "pieces", types.Typ[types.Int], e.Args...)
		case w.isHead(f):
			arg := w.fileArg(e)
			h := in.Fresh(s, e, "head", types.Typ[types.Int])
			e.Fork(
				flow.Alt{Result: w.tuple(in, f, h, ts.Nil()), Note: f.Name() + " finds the head", Do: func(s *flow.State) {
					s.R["head"], s.R["headfile"] = h, arg
					delete(s.R, "headidx")
					if i := handleIndex(arg); i != nil {
						s.R["headidx"] = i
					}
					s.Assume(ts.Le(ts.Int(-1), h), true)
					s.Assume(ts.Le(ts.Add(h, ts.Int(1)), w.cap(in, arg)), true)
				}},
				flow.Alt{Result: w.tuple(in, f, ts.Int(0), freshErr(in, s, e, "err")), Note: f.Name() + " fails", Do: func(s *flow.State) { fail(s, f.Name()) }},
			)
		case f == w.take, f == w.open, f == w.create:
			bad := freshErr(in, s, e, "err")
			path := stringArg(e)
			if f == w.take {
				path = nil
				if s.R["tok"] != nil && len(e.Args) > 1 && s.Same(s.R["tok"], e.Args[1]) {
					path = s.R["tokpath"]
				}
				delete(s.R, "tok")
				delete(s.R, "tokpath")
				if path != nil {
					w.evicted(s, path)
				}
			}
			// a handle is as good as any other one of the same file
			var file *flow.Term
			if path != nil {
				file = ts.Mk("pure", "handle", w.file, path)
			} else {
				file = in.Fresh(s, e, "file", w.file)
			}
			e.Fork(
				flow.Alt{Result: w.result(in, f, file, ts.Nil(), ts.Bool(true)), Note: f.Name() + " returns a handle", Do: func(s *flow.State) {
					// keeps the outcomes apart
					if f == w.take {
						s.D["!take"] = "handle"
					}
					if i := handleIndex(file); i != nil && s.R["headidx"] != nil && s.EqInt(i, ts.AddI(s.R["headidx"], 1)) {
						s.D["!next file"] = "1"
					}
					s.Assume(ts.Le(ts.Int(0), w.cap(in, file)), true)
				}},
				flow.Alt{Result: w.result(in, f, nil, bad, ts.Bool(false)), Note: f.Name() + " returns no handle", Do: func(s *flow.State) {
					if f != w.take {
						fail(s, f.Name())
					} else {
						s.D["!take"] = "no handle"
					}
				}},
			)
		case f == w.put:
			e.Fork(
				flow.Alt{Result: w.result(in, f, nil, ts.Nil(), ts.Bool(false))},
				flow.Alt{Result: w.result(in, f, in.Fresh(s, e, "evicted", w.file), ts.Nil(), ts.Bool(true)), Note: "another handle is evicted"},
			)
		case f == w.closeF:
			e.Handled = true
		case f == w.hasRec:
			arg, n := w.fileArg(e), e.Args[len(e.Args)-1]
			yes, no := flow.Alt{Result: ts.Bool(true), Note: "the slot is taken"}, flow.Alt{Result: ts.Bool(false), Note: "the slot is free"}
			at := s.R["head"] != nil && s.R["headfile"] == arg && s.EqInt(n, ts.AddI(s.R["head"], 1))
			no.Do = func(s *flow.State) {
				if at { // the head's contract: nothing behind it but the end
					s.Assume(ts.Eq(ts.AddI(s.R["head"], 1), w.cap(in, arg), types.Typ[types.Int]), true)
					w.decideEmpty(s)
				}
			}
			// nothing is stored outside of the file
			yes.Do = func(s *flow.State) {
				s.Assume(ts.Le(ts.Int(0), n), true)
				s.Assume(ts.Le(ts.AddI(n, 1), w.cap(in, arg)), true)
			}
			e.Fork(yes, no)
		case f == w.rec:
			arg, n := w.fileArg(e), e.Args[len(e.Args)-1]
			r := in.Fresh(s, e, "rec", w.recT)
			at := s.R["head"] != nil && s.R["headfile"] == arg && s.EqInt(n, ts.AddI(s.R["head"], 1))
			e.Fork(
				flow.Alt{Result: w.tuple(in, f, r, ts.Nil()), Note: "the record is read", Do: func(s *flow.State) {
					if at {
						s.R["newest"] = r
					}
				}},
				flow.Alt{Result: w.tuple(in, f, ts.Zero(w.recT), freshErr(in, s, e, "err")), Note: "the record cannot be read", Do: func(s *flow.State) { fail(s, f.Name()) }},
			)
		case f == w.meta:
			arg := w.fileArg(e)
			m := in.Fresh(s, e, "meta", w.metaT)
			e.Fork(
				flow.Alt{Result: w.tuple(in, f, m, ts.Nil()), Note: "the header is read", Do: func(s *flow.State) { s.R["meta"], s.R["metafile"] = m, arg }},
				flow.Alt{Result: w.tuple(in, f, ts.Zero(w.metaT), freshErr(in, s, e, "err")), Note: "the header cannot be read", Do: func(s *flow.State) { fail(s, f.Name()) }},
			)
		case f == w.setRec || f == w.set:
			e.Fork(
				flow.Alt{Result: ts.Nil(), Note: f.Name() + " stores"},
				flow.Alt{Result: freshErr(in, s, e, "err"), Note: f.Name() + " fails", Do: func(s *flow.State) { fail(s, f.Name()) }},
			)
		}
	}
}

// decideEmpty: a file without values tells that the metric has none only if
// there is no older file.
func (w *writeWorld) decideEmpty(s *flow.State) {
	if w.m == nil || s.R["headidx"] == nil {
		return
	}
	first := s.Load(w.c.P.TS.FieldAddr(w.m, w.first), w.first.Type(), "rule.first")
	if s.Le(s.R["headidx"], first) {
		s.D["only"] = "1"
	}
}

func (w *writeWorld) tuple(in *flow.Interp, f *ssa.Function, args ...*flow.Term) *flow.Term {
	return in.TS.Mk("tuple", "", f.Signature.Results(), args...)
}

func (w *writeWorld) evicted(s *flow.State, p *flow.Term) { s.R["ev"] = p }

func (w *writeWorld) cached(s *flow.State, p *flow.Term) {
	if s.R["ev"] != nil && !w.differ(s, s.R["ev"], p) {
		delete(s.R, "ev")
	}
}

// differ reports two paths that cannot be equal.
func (w *writeWorld) differ(s *flow.State, a, b *flow.Term) bool {
	x, y := pathIndex(a), pathIndex(b)
	if x == nil || y == nil {
		return false
	}
	v, ok := s.Decide(s.Interp().TS.Eq(x, y, types.Typ[types.Int]))
	return ok && !v
}

func (w *writeWorld) isEvicted(s *flow.State, p *flow.Term) bool {
	return s.R["ev"] != nil && s.Same(s.R["ev"], p)
}

func runWrite(c *Ctx, id string) {
	w := newWriteWorld(c)
	if !w.ok {
		return
	}
	rel := w.relevant()
	where := c.P.Pos(w.write.Pos())
	ts := c.P.TS
	m := ts.Sym("arg:"+w.write.Params[0].Name()+":"+w.write.Name(), w.write.Params[0].Type())
	w.m = m
	loadF := func(s *flow.State, v *types.Var) *flow.Term {
		return s.Load(ts.FieldAddr(m, v), v.Type(), "rule."+v.Name())
	}
	maxOf := func(s *flow.State) *flow.Term {
		return s.Load(ts.FieldAddr(ts.FieldAddr(m, w.opts), w.max), w.max.Type(), "rule.max")
	}
	var startA, endA, dataA *flow.Term
	for _, p := range w.write.Params[1:] {
		t := ts.Sym("arg:"+p.Name()+":"+w.write.Name(), p.Type())
		switch {
		case basicKind(p.Type(), types.Int64) && startA == nil:
			startA = t
		case basicKind(p.Type(), types.Int64):
			endA = t
		case p.Type().String() == "[]byte":
			dataA = t
		}
	}
	if startA == nil || endA == nil || dataA == nil {
		c.Fail("anchor:write parameters", where, "the write does not take a start, an end and the data")
		return
	}
	o := func(prop, key, what string) bool {
		if prop != id {
			return false
		}
		c.Oblige(key, where, what, true)
		return true
	}
	o("S02", "order:SetRecord", "no piece is stored before the newest stored value was found to end earlier")
	o("S02", "order:SetMetadata", "no header is stored before the newest stored value was found to end earlier")
	o("S02", "order:create", "no file is created before the newest stored value was found to end earlier")
	o("S02", "order:remove", "no oldest file is removed before the newest stored value was found to end earlier")
	o("S02", "refused", "a refusal changes nothing and follows from a stored value that does not end earlier")
	o("S03", "pieces", "each stored piece is the next part of the value")
	o("S03", "piece fields", "each piece carries the value's times and the kind of its position")
	o("S03", "slots", "the pieces go to consecutive slots right before the newest value")
	o("S03", "header", "the header describes the stored value")
	o("S03", "complete", "success is reported only after all pieces and then the header were stored")
	o("S03", "errors", "a failed read or store makes the write return an error")
	o("S04", "header last", "the header is stored after all pieces of the value, and no piece after it")
	o("S04", "slots", "the pieces go to the free slots right before the newest value")
	o("S04", "pieces", "each stored piece is the next part of the value")
	o("S04", "piece fields", "each piece carries the value's times and the kind of its position")
	o("S05", "removed", "only the oldest file at the limit, or an empty newest file, is removed")
	o("S05", "evicted", "a file's handle leaves the cache before the file is removed")
	o("S05", "created", "files are created only behind the newest one")
	o("S05", "limit", "at the limit the oldest file makes room for a new one")

	ordered := func(s *flow.State) bool {
		h, f, i := s.R["head"], s.R["headfile"], s.R["headidx"]
		if h == nil || f == nil || i == nil || s.D["newest file"] == "" {
			return false
		}
		if r := s.R["newest"]; r != nil {
			return s.Lt(w.recordTerm(s.Interp(), r, "end"), endA)
		}
		if s.D["only"] != "" {
			return true
		}
		// an empty file that is the only one
		return s.Le(w.cap(s.Interp(), f), ts.AddI(h, 1)) && s.Le(i, loadF(s, w.first))
	}
	changed := func(in *flow.Interp, s *flow.State, e *flow.Event, what string) {
		s.D["changed"] = "1"
		if id == "S02" && !ordered(s) {
			in.ReportAt(s, "order:"+what, e.Instr, "stored data is changed (%s) although the newest stored value was not found to end before the new one", what)
			s.Kill()
		}
	}
	in := w.interp(rel, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
		w.forget(id, s, e)
		switch e.Kind {
		case "call":
			f := e.Callee
			switch {
			case e.Name == "os.Remove" || e.Name == "os.RemoveAll" || e.Name == "os.Truncate" || e.Name == "os.Rename":
				w.checkRemove(in, s, e, id, loadF, maxOf, changed)
				e.Handled = true
				return true
			case f == nil:
				return false
			case w.isHead(f):
				// only the newest file tells what the newest value is
				delete(s.D, "newest file")
				delete(s.D, "only")
				delete(s.R, "newest")
				if i := handleIndex(w.fileArg(e)); i != nil && s.EqInt(i, loadF(s, w.last)) {
					s.D["newest file"] = "1"
				}
			case f == w.create:
				changed(in, s, e, "create")
				if id == "S05" {
					w.checkCreate(in, s, e, loadF, maxOf)
				}
			case f == w.setRec:
				changed(in, s, e, "SetRecord")
				if id == "S04" && s.D["header"] != "" {
					in.ReportAt(s, "header last", e.Instr, "a piece is stored after the header that makes the value visible")
				}
				if id == "S03" || id == "S04" {
					w.checkPiece(in, s, e, startA, endA, dataA)
				}
				s.D["stored"] = "1"
			case f == w.meta && id == "S03":
				// tell the cases apart that the header's update depends on
				arg, m := w.fileArg(e), in.Fresh(s, e, "meta", w.metaT)
				i64 := types.Typ[types.Int64]
				alts := []flow.Alt{{Result: w.tuple(in, f, ts.Zero(w.metaT), freshErr(in, s, e, "err")), Note: "the header cannot be read", Do: func(s *flow.State) { fail(s, f.Name()) }}}
				st, se := w.metaTerm(in, m, "Start"), w.metaTerm(in, m, "SmallestEnd")
				for _, zs := range []bool{true, false} {
					for k, name := range []string{"no smallest end", "a smallest end above the value's", "a smallest end at or below the value's"} {
						zs, k, name := zs, k, name
						if !zs {
							name += " and a start"
						}
						alts = append(alts, flow.Alt{Result: w.tuple(in, f, m, ts.Nil()), Note: "the header is read, with " + name, Do: func(s *flow.State) {
							s.R["meta"], s.R["metafile"] = m, arg
							s.D["!header"] = name
							s.Assume(ts.Eq(st, ts.Int(0), i64), zs)
							s.Assume(ts.Eq(se, ts.Int(0), i64), k == 0)
							switch k {
							case 1:
								s.Assume(ts.Le(ts.AddI(endA, 1), se), true)
							case 2:
								s.Assume(ts.Le(se, endA), true)
							}
						}})
					}
				}
				e.Fork(alts...)
				return true
			case f == w.set:
				changed(in, s, e, "SetMetadata")
				if id == "S04" {
					if s.R["rest"] != nil || s.D["pieces"] == "" || s.R["recfile"] != w.fileArg(e) {
						in.ReportAt(s, "header last", e.Instr, "the header that makes the value visible is stored before all of its pieces are in the file")
					} else if s.R["slot0"] != nil && !s.EqInt(ts.AddI(w.metaTerm(in, e.Args[len(e.Args)-1], "Head"), 1), s.R["slot0"]) {
						in.ReportAt(s, "header last", e.Instr, "the header's newest position is not right before the first piece of the value")
					}
				}
				if id == "S03" {
					w.checkHeader(in, s, e, startA, endA)
				}
				ok := ts.Nil()
				e.Fork(
					flow.Alt{Result: ok, Note: "the header is stored", Do: func(s *flow.State) { s.D["header"] = "1" }},
					flow.Alt{Result: freshErr(in, s, e, "err"), Note: "storing the header fails", Do: func(s *flow.State) { fail(s, f.Name()) }},
				)
				return true
			}
		case "load":
			// the configured shape of new files
			if e.Addr != nil && e.Addr.Op == "faddr" && id == "S05" {
				if v, ok := e.Addr.Obj.(*types.Var); ok && v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), filesPkg) && basicKind(v.Type(), types.Int) {
					if v.Name() == "Cap" || v.Name() == "Size" {
						e.Result = s.Load(e.Addr, e.Typ, e.Instr.(ssa.Value).Name())
						s.R["cfg"+strings.ToLower(v.Name())] = e.Result
					}
				}
			}
			return true
		case "exit":
			if e.Callee != w.write {
				return true
			}
			okv, okKnown := s.Decide(e.Args[0])
			errNil, errKnown := s.IsNil(e.Args[1])
			if id == "S03" && s.D["failed"] != "" && !(errKnown && !errNil) {
				in.ReportAt(s, "errors", e.Instr, "%s failed but the write may return no error", s.D["failed"])
			}
			if errKnown && !errNil {
				return true
			}
			if id == "S03" && !(okKnown && !okv) && (s.D["header"] == "" || s.R["rest"] != nil || s.D["pieces"] == "") {
				in.ReportAt(s, "complete", e.Instr, "success may be reported although not all pieces and the header have been stored")
			}
			if id == "S02" && !(okKnown && okv) {
				switch {
				case s.D["changed"] != "":
					in.ReportAt(s, "refused", e.Instr, "the value may be reported as refused although stored data was changed")
				case s.R["newest"] == nil || !s.Le(endA, w.recordTerm(in, s.R["newest"], "end")):
					in.ReportAt(s, "refused", e.Instr, "the value may be refused although no stored value ends at or after it")
				}
			}
			return true
		}
		return false
	})
	if id == "S03" {
		in.JoinLimit = 100
	}
	c.Explore(in, w.write, nil, func(s *flow.State) {
		if id == "S03" || id == "S04" {
			s.R["rest"] = dataA
		}
	})
	if id == "S02" {
		w.checkHead(rel)
	}
	if id == "S03" {
		w.checkCount()
	}
	if id == "S05" {
		w.checkNewMetric(rel)
		w.checkOtherRemovals(rel, in)
	}
}

// checkRemove decides whether a removal is one of the allowed ones.
func (w *writeWorld) checkRemove(in *flow.Interp, s *flow.State, e *flow.Event, id string, loadF func(*flow.State, *types.Var) *flow.Term, maxOf func(*flow.State) *flow.Term, changed func(*flow.Interp, *flow.State, *flow.Event, string)) {
	ts := in.TS
	p := e.Args[0]
	i := pathIndex(p)
	first, last, max := loadF(s, w.first), loadF(s, w.last), maxOf(s)
	if i == nil || e.Name != "os.Remove" {
		if id == "S05" {
			in.ReportAt(s, "removed", e.Instr, "something other than a data file of the metric is removed or changed (%s)", e.Name)
		}
		return
	}
	oldest := s.EqInt(i, first)
	// the counter may already have been moved past it
	oldestMoved := s.D["removed"] == "" && s.R["first0"] == nil && s.EqInt(ts.AddI(i, 1), first)
	empty := s.R["head"] != nil && s.R["headidx"] != nil && s.EqInt(s.R["headidx"], i) &&
		s.EqInt(ts.AddI(s.R["head"], 1), w.cap(in, s.R["headfile"])) && s.Lt(first, i)
	if empty && (s.EqInt(i, last) || s.EqInt(i, ts.AddI(last, 1))) {
		if id == "S05" && !w.isEvicted(s, p) {
			in.ReportAt(s, "evicted", e.Instr, "the file is removed while its handle may still be in the cache")
		}
		return
	}
	changed(in, s, e, "remove")
	if id != "S05" {
		return
	}
	f0 := first
	if oldestMoved && !oldest {
		f0 = i
	}
	if !oldest && !oldestMoved {
		in.ReportAt(s, "removed", e.Instr, "the removed file is neither the oldest one nor an empty newest one")
		return
	}
	l0 := last
	if x := s.R["headidx"]; x != nil {
		l0 = x
	}
	if !(s.Le(ts.Int(1), max) && s.Le(max, ts.Sub(l0, f0))) {
		in.ReportAt(s, "removed", e.Instr, "the oldest file may be removed although the metric does not hold its configured number of files")
	}
	if !w.fits(s) {
		in.ReportAt(s, "removed", e.Instr, "the oldest file is removed before the value was found to fit a new file")
	}
	if !w.isEvicted(s, p) {
		in.ReportAt(s, "evicted", e.Instr, "the file is removed while its handle may still be in the cache")
	}
	if s.D["removed"] != "" {
		in.ReportAt(s, "removed", e.Instr, "more than one file is removed for a value")
	}
	s.D["removed"] = "1"
}

// fits reports that the number of pieces was compared with the configured
// capacity of a new file.
func (w *writeWorld) fits(s *flow.State) bool {
	ok := false
	lim, size := s.R["cfgcap"], s.R["cfgsize"]
	if lim == nil || size == nil {
		return false
	}
	s.EachInt(func(q *flow.Term, _ flow.Ival) {
		termHas(q, func(x *flow.Term) bool {
			if x.Op == "pure" && x.Name == "pieces" && s.Same(x.Args[1], size) && s.Le(x, lim) {
				ok = true
			}
			return false
		})
	})
	return ok
}

func (w *writeWorld) checkCreate(in *flow.Interp, s *flow.State, e *flow.Event, loadF func(*flow.State, *types.Var) *flow.Term, maxOf func(*flow.State) *flow.Term) {
	ts := in.TS
	i := pathIndex(e.Args[1])
	l0 := s.R["headidx"]
	if i == nil || l0 == nil || !s.EqInt(i, ts.AddI(l0, 1)) {
		in.ReportAt(s, "created", e.Instr, "a file may be created (and an existing one emptied) that is not the one right behind the newest file")
		return
	}
	max, first := maxOf(s), loadF(s, w.first)
	if s.D["removed"] != "" {
		return
	}
	if v, ok := s.Decide(ts.Le(ts.Int(1), max)); ok && !v {
		return
	}
	if v, ok := s.Decide(ts.Le(max, ts.Sub(l0, first))); ok && !v {
		return
	}
	in.ReportAt(s, "limit", e.Instr, "a file may be created although the metric is at its limit and the oldest file was not removed")
}

func (w *writeWorld) checkPiece(in *flow.Interp, s *flow.State, e *flow.Event, startA, endA, dataA *flow.Term) {
	ts := in.TS
	f := w.fileArg(e)
	slot, rec := e.Args[len(e.Args)-2], e.Args[len(e.Args)-1]
	if w.c.P == nil {
		return
	}
	d := w.recordTerm(in, rec, "data")
	rest := s.R["rest"]
	last := false
	firstPiece := s.D["pieces"] == ""
	switch {
	case rest == nil:
		in.ReportAt(s, "pieces", e.Instr, "a piece is stored after the last one")
		s.Kill()
		return
	case d == rest || s.Same(d, rest):
		last = true
		delete(s.R, "rest")
	case d.Op == "slice" && d.Args[0] == rest && isZeroInt(d.Args[1]):
		s.R["rest"] = in.Slice(s, rest.T, rest.T, rest, d.Args[2], nil)
	case d.Op == "slice" && rest.Op == "slice" && d.Args[0] == rest.Args[0] && s.EqInt(d.Args[1], rest.Args[1]):
		if s.EqInt(d.Args[2], rest.Args[2]) {
			last = true
			delete(s.R, "rest")
		} else {
			s.R["rest"] = ts.Mk("slice", "", rest.T, rest.Args[0], d.Args[2], rest.Args[2])
		}
	default:
		in.ReportAt(s, "pieces", e.Instr, "the stored piece is not the next part of the value")
		s.Kill()
		return
	}
	s.D["pieces"] = "1"
	// the kind says where in the value the piece belongs
	want := "recordKind_continue"
	switch {
	case firstPiece && last:
		want = "recordKind_complete"
	case firstPiece:
		want = "recordKind_begin"
	case last:
		want = "recordKind_end"
	}
	k := w.c.P.ConstInt(filesPkg, want)
	if k == nil || !s.EqInt(w.recordTerm(in, rec, "kind"), ts.Int(*k)) {
		in.ReportAt(s, "piece fields", e.Instr, "the piece is not marked as %s", want)
	}
	if !s.Same(w.recordTerm(in, rec, "start"), startA) || !s.Same(w.recordTerm(in, rec, "end"), endA) {
		in.ReportAt(s, "piece fields", e.Instr, "the piece does not carry the value's start and end")
	}
	// slots
	if firstPiece {
		x := w.cap(in, f)
		if s.R["headfile"] == f {
			x = ts.AddI(s.R["head"], 1)
		} else if i := handleIndex(f); i == nil || s.R["headidx"] == nil || !s.EqInt(i, ts.AddI(s.R["headidx"], 1)) {
			in.ReportAt(s, "slots", e.Instr, "the piece goes to a file whose newest position is not known")
		}
		n := ts.Mk("pure", "pieces", types.Typ[types.Int], in.Len(dataA), w.size(in, f))
		if !s.EqInt(ts.Add(slot, n), x) || !s.Le(ts.Int(0), slot) {
			in.ReportAt(s, "slots", e.Instr, "the first piece does not go to the slot that leaves exactly as many free slots as there are pieces")
		}
		s.R["slot0"] = slot
		s.R["recfile"] = f
	} else {
		if s.R["slot"] == nil || !s.EqInt(slot, ts.AddI(s.R["slot"], 1)) || s.R["recfile"] != f {
			in.ReportAt(s, "slots", e.Instr, "the piece does not go to the slot behind the previous piece")
		}
	}
	s.R["slot"] = slot
}

// stringArg is the path among a call's arguments.
func stringArg(e *flow.Event) *flow.Term {
	n := 0
	sig := e.Callee.Signature
	if sig.Recv() != nil {
		n = 1
	}
	for i := 0; i < sig.Params().Len() && n+i < len(e.Args); i++ {
		if basicKind(sig.Params().At(i).Type(), types.String) {
			return e.Args[n+i]
		}
	}
	return nil
}

func isZeroInt(t *flow.Term) bool {
	n, ok := t.IntVal()
	return ok && n == 0
}

func (w *writeWorld) checkHeader(in *flow.Interp, s *flow.State, e *flow.Event, startA, endA *flow.Term) {
	ts := in.TS
	f, m := w.fileArg(e), e.Args[len(e.Args)-1]
	bad := func(what string) { in.ReportAt(s, "header", e.Instr, "%s", what) }
	if s.R["rest"] != nil || s.R["slot0"] == nil || s.R["recfile"] != f {
		bad("the header is stored before all pieces of the value")
		return
	}
	old := s.R["meta"]
	if old == nil || s.R["metafile"] != f {
		bad("the header is not based on the stored one")
		return
	}
	i64 := types.Typ[types.Int64]
	if !s.EqInt(ts.AddI(w.metaTerm(in, m, "Head"), 1), s.R["slot0"]) {
		bad("the header's newest position is not right before the first piece")
	}
	if !s.Same(w.metaTerm(in, m, "End"), endA) {
		bad("the header's end is not the value's end")
	}
	st, ost := w.metaTerm(in, m, "Start"), w.metaTerm(in, old, "Start")
	zero := ts.Eq(ost, ts.Int(0), i64)
	z, zk := s.Decide(zero)
	if !(s.EqInt(st, startA) && zk && z || s.EqInt(st, ost) && (zk && !z || s.EqInt(startA, ost))) {
		bad("the header's start is not the start of the file's first value")
	}
	se, ose := w.metaTerm(in, m, "SmallestEnd"), w.metaTerm(in, old, "SmallestEnd")
	z, zk = s.Decide(ts.Eq(ose, ts.Int(0), i64))
	if !(s.EqInt(se, endA) && (zk && z || s.Le(endA, ose)) || s.EqInt(se, ose) && zk && !z && s.Le(ose, endA)) {
		bad("the header's smallest end is not the smallest end of the stored values")
	}
	if sz := w.metaTerm(in, m, "Size_"); sz != nil && !s.EqInt(sz, w.metaTerm(in, old, "Size_")) {
		bad("the header's record size changes")
	}
}

// checkHead analyses the function that finds the head: nothing is stored at
// the returned position, and a value or the end of the file is right behind it.
func (w *writeWorld) checkHead(rel map[*ssa.Function]bool) {
	ts := w.c.P.TS
	n := 0
	for _, f := range w.c.P.RepoFuncs() {
		if !w.isHead(f) {
			continue
		}
		f := f
		n++
		key := "head:" + f.Name()
		w.c.Oblige(key, w.c.P.Pos(f.Pos()), f.Name()+" returns the free position before the newest value", true)
		in := w.interp(rel, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
			switch e.Kind {
			case "call":
				if e.Callee != w.hasRec {
					return false
				}
				slot := e.Args[len(e.Args)-1]
				arg := w.fileArg(e)
				e.Fork(
					flow.Alt{Result: ts.Bool(true), Note: "the slot is taken", Do: func(s *flow.State) {
						s.R["taken"] = slot
						s.D["looked"] = "1"
						s.Assume(ts.Le(ts.Int(0), slot), true)
						s.Assume(ts.Le(ts.AddI(slot, 1), w.cap(in, arg)), true)
					}},
					flow.Alt{Result: ts.Bool(false), Note: "the slot is free", Do: func(s *flow.State) { s.R["free"], s.D["looked"] = slot, "1" }},
				)
				return true
			case "exit":
				if isNil, ok := s.IsNil(e.Args[1]); ok && !isNil {
					return true
				}
				h := e.Args[0]
				file := w.paramFile(f)
				next := ts.AddI(h, 1)
				minusOne := s.EqInt(h, ts.Int(-1))
				before := minusOne || s.R["free"] != nil && s.EqInt(s.R["free"], h)
				behind := s.R["taken"] != nil && s.EqInt(s.R["taken"], next) || s.EqInt(next, w.cap(in, file)) || minusOne && s.D["looked"] == ""
				if !before {
					in.ReportAt(s, key, e.Instr, "the returned position was not found free")
				}
				if !behind {
					in.ReportAt(s, key, e.Instr, "no stored value was found right behind the returned position")
				}
				return true
			}
			return false
		})
		base := in.InlineCall
		in.InlineCall = func(s *flow.State, fn *ssa.Function, args []*flow.Term) bool { return fn == f || base(s, fn, args) }
		w.c.Explore(in, f, nil, func(s *flow.State) {
			size := w.cap(in, w.paramFile(f))
			s.Assume(ts.Le(ts.Int(0), size), true)
			s.R["!capacity"] = size
		})
	}
	if n == 0 {
		w.c.Fail("head:none", filesPkg, "no function that finds the newest value in a file was recognised")
	}
}

func (w *writeWorld) paramFile(f *ssa.Function) *flow.Term {
	for _, p := range f.Params {
		if w.isFile(p.Type()) {
			return w.c.P.TS.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
		}
	}
	return nil
}

// checkCount analyses the function that counts pieces.
func (w *writeWorld) checkCount() {
	ts := w.c.P.TS
	for _, f := range w.c.P.RepoFuncs() {
		if !w.isCount(f) {
			continue
		}
		f := f
		n, size := ts.Sym("arg:"+f.Params[0].Name()+":"+f.Name(), f.Params[0].Type()), ts.Sym("arg:"+f.Params[1].Name()+":"+f.Name(), f.Params[1].Type())
		key := "count:" + f.Name()
		w.c.Oblige(key, w.c.P.Pos(f.Pos()), f.Name()+" counts the full pieces of the value and the remainder", true)
		hdr := w.c.P.ConstInt(filesPkg, "recordHeaderSize")
		if hdr == nil {
			w.c.Fail("anchor:recordHeaderSize", filesPkg, "the size of a record header is not a constant")
			return
		}
		chunk := ts.AddI(size, -*hdr)
		in := flow.NewInterp(w.c.P, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind != "exit" {
				return
			}
			r := e.Args[0]
			if b := s.Bounds(r); b.Hi <= 0 {
				return // not stored at all
			}
			if s.EqInt(r, ts.Int(1)) && s.Le(n, chunk) {
				return
			}
			ok := false
			termHas(r, func(q *flow.Term) bool {
				if q.Op != "quo" || !s.EqInt(q.Args[1], chunk) {
					return false
				}
				d, isK := ts.ConstDiff(r, q)
				switch {
				case isK && d == 0 && s.EqInt(q.Args[0], ts.AddI(ts.Add(n, chunk), -1)):
					ok = true
				case isK && d == 1 && s.EqInt(q.Args[0], ts.AddI(n, -1)):
					ok = true
				case isK && s.EqInt(q.Args[0], n):
					// with or without a remainder
					rem := ts.Mk("rem", "", q.T, q.Args[0], q.Args[1])
					zero, known := s.Decide(ts.Eq(rem, ts.Int(0), q.T))
					if !known {
						pos, k := s.Decide(ts.Le(rem, ts.Int(0)))
						zero, known = pos, k
					}
					ok = ok || known && (d == 0) == zero
				}
				return false
			})
			if !ok {
				in.ReportAt(s, key, e.Instr, "the returned count is not the number of pieces of the value")
			}
		})
		w.c.Explore(in, f, nil, func(s *flow.State) { s.Assume(ts.Le(ts.Int(0), n), true) })
	}
}

// checkNewMetric: opening a metric creates a file only if it has none.
func (w *writeWorld) checkNewMetric(rel map[*ssa.Function]bool) {
	c := w.c
	c.Oblige("created:open", c.P.Pos(w.newMet.Pos()), "opening a metric creates a file only if none was found", true)
	ts := c.P.TS
	in := w.interp(rel, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
		if e.Kind != "call" {
			return false
		}
		if strings.HasPrefix(e.Name, "os.Remove") || e.Name == "os.Rename" || e.Name == "os.Truncate" {
			in.ReportAt(s, "removed", e.Instr, "opening a metric removes or changes files (%s)", e.Name)
		}
		switch e.Name {
		case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
			rs := e.Callee.Signature.Results()
			n := in.Fresh(s, e, "n", rs.At(0).Type())
			e.Fork(
				flow.Alt{Result: ts.Mk("tuple", "", rs, n, ts.Nil()), Note: "a data file is found", Do: func(s *flow.State) { s.D["found"] = "1" }},
				flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Int(0), freshErr(in, s, e, "err")), Note: "not a number"},
			)
			return true
		}
		if e.Callee == w.create && s.D["found"] != "" {
			in.ReportAt(s, "created:open", e.Instr, "a file may be created (and an existing one emptied) although the metric has data files")
		}
		return false
	})
	c.Explore(in, w.newMet, nil, nil)
}

// checkOtherRemovals: no other storage code removes files or creates them.
func (w *writeWorld) checkOtherRemovals(rel map[*ssa.Function]bool, write *flow.Interp) {
	c := w.c
	reach := map[*ssa.Function]bool{w.newMet: true, w.write: true, w.create: true, w.open: true}
	for f := range write.Seen {
		reach[f] = true
	}
	isRemoval := func(i ssa.Instruction) bool {
		return isCallTo(i, "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate")
	}
	n := 0
	for _, f := range c.P.AllRepoFuncs() {
		if !strings.HasPrefix(flow.PkgOf(f), flow.RepoPath+"/"+filesPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !isRemoval(i) {
					continue
				}
				n++
				c.Oblige("removal:"+fname(f), c.P.PosOf(i), "files are removed only by a write", reach[f] && f != w.newMet)
			}
		}
	}
	c.Count("removals", n)
	// reading must not create files
	for _, root := range []*ssa.Function{w.read, w.readLast} {
		if root == nil {
			continue
		}
		key := "created:" + root.Name()
		c.Oblige(key, c.P.Pos(root.Pos()), root.Name()+" never creates or removes a file", true)
		in := w.interp(rel, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
			if e.Kind == "call" && (e.Callee == w.create || e.Name == "os.Remove") {
				in.ReportAt(s, key, e.Instr, "%s may call %s, which empties or removes a file", root.Name(), e.Name)
				s.Kill()
				return true
			}
			return false
		})
		c.Explore(in, root, nil, nil)
	}
}
