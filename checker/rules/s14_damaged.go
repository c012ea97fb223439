package rules

import (
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S14", Technique: "bounds analysis of the mapped bytes by abstract interpretation of SSA: invariants of an opened file established by the opening and assumed by its methods, intervals and linear facts at every slice, index and division",
		Explain: "On every successful path that opens or creates a file the mapping is no longer than the file, records are at least as large as their header, and all of the capacity lies within the mapping. Every function that is given a file is explored from that state with arbitrary bytes in the mapping: what is sliced, indexed, read or written lies within the mapping, no divisor is zero, and the walks over the records look only at positions that exist. The decoder of the metadata indexes within its bytes.",
		Assume:  []string{"the file is not truncated by another program while it is mapped", "integers do not overflow"},
		Min:     14,
		Run:     runS14,
	})
}

// fileShape are the fields of an opened file by role.
type fileShape struct {
	t                    types.Type
	st                   *types.Struct
	data, len, cap, size int
}

func fileShapeOf(c *Ctx) *fileShape {
	f := c.Fn(filesPkg, "openFile")
	if f == nil || f.Signature.Results().Len() == 0 {
		return nil
	}
	sh := &fileShape{t: f.Signature.Results().At(0).Type(), data: -1, len: -1, cap: -1, size: -1}
	sh.st, _ = sh.t.Underlying().(*types.Struct)
	if sh.st == nil {
		return nil
	}
	for i := 0; i < sh.st.NumFields(); i++ {
		switch v := sh.st.Field(i); v.Name() {
		case "data":
			sh.data = i
		case "len":
			sh.len = i
		case "cap":
			sh.cap = i
		case "size":
			sh.size = i
		}
	}
	if sh.data < 0 || sh.len < 0 || sh.cap < 0 || sh.size < 0 {
		c.Fail("anchor:file", c.P.Pos(f.Pos()), "an opened file does not keep its address, length, capacity and record size")
		return nil
	}
	return sh
}

func (sh *fileShape) get(ts *flow.Terms, f *flow.Term, i int) *flow.Term {
	return ts.Field(f, i, sh.st)
}

// assume states the invariants of an opened file.
func (sh *fileShape) assume(s *flow.State, f *flow.Term, header int64) {
	ts := s.Interp().TS
	size, ln, cp := sh.get(ts, f, sh.size), sh.get(ts, f, sh.len), sh.get(ts, f, sh.cap)
	s.Assume(ts.Le(ts.Int(header), size), true)
	s.Assume(ts.Le(size, ln), true)
	s.Assume(ts.Le(ts.Int(0), cp), true)
}

// lemma: positions below the capacity lie within the mapping.
func (sh *fileShape) lemma(s *flow.State, f, t *flow.Term) {
	ts := s.Interp().TS
	size, ln, cp := sh.get(ts, f, sh.size), sh.get(ts, f, sh.len), sh.get(ts, f, sh.cap)
	t.Walk(func(x *flow.Term) bool {
		if x.Op == "mul" && len(x.Args) == 2 {
			for i, y := range x.Args {
				if y != size {
					continue
				}
				o := x.Args[1-i]
				if s.Le(ts.Int(0), o) {
					s.Assume(ts.Le(ts.Int(0), x), true)
				}
				if s.Le(ts.Int(1), o) {
					s.Assume(ts.Le(size, x), true)
				}
				if s.Le(o, cp) {
					s.Assume(ts.Le(ts.Add(x, size), ln), true)
				}
			}
		}
		return true
	})
}

// mulLemma: a product of positive numbers is at least as large as each.
func mulLemma(s *flow.State, t *flow.Term) {
	if t == nil {
		return
	}
	ts := s.Interp().TS
	t.Walk(func(x *flow.Term) bool {
		if x.Op == "mul" && len(x.Args) == 2 && s.Le(ts.Int(1), x.Args[0]) && s.Le(ts.Int(1), x.Args[1]) {
			s.Assume(ts.Le(x.Args[0], x), true)
			s.Assume(ts.Le(x.Args[1], x), true)
		}
		return true
	})
}

func runS14(c *Ctx) {
	ts := c.P.TS
	sh := fileShapeOf(c)
	if sh == nil {
		return
	}
	hp := c.P.ConstInt(filesPkg, "recordHeaderSize")
	header := int64(24)
	if hp != nil {
		header = *hp
	}
	isMap := func(t *flow.Term) bool { return t != nil && t.Op == "sym" && strings.HasPrefix(t.Name, "map") }
	mapBase := func(t *flow.Term) bool {
		return t != nil && (isMap(t) || t.Op == "slice" && isMap(t.Args[0]))
	}
	bounds := 0
	// access checks one use of mapped (or, with all, any byte) memory.
	access := func(in *flow.Interp, s *flow.State, e *flow.Event, key string, isBase func(*flow.Term) bool, f *flow.Term) bool {
		bad := func(format string, a ...interface{}) bool {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
			return false
		}
		switch e.Kind {
		case "slice", "index", "call", "quo":
		default:
			return true
		}
		mulLemma(s, s.R["maplen"])
		if f != nil {
			for _, a := range e.Args {
				if a != nil {
					sh.lemma(s, f, a)
				}
			}
		}
		switch e.Kind {
		case "slice":
			x := e.Args[0]
			if !isBase(x) {
				return true
			}
			bounds++
			hi := e.Args[2]
			if hi == nil {
				hi = in.Len(x)
			}
			if !s.Le(ts.Int(0), e.Args[1]) || !s.Le(e.Args[1], hi) {
				return bad("the bytes from %s to %s are taken", clipTerm(e.Args[1]), clipTerm(hi))
			}
			if !s.Le(hi, in.Cap(x)) && !s.Le(hi, in.Len(x)) {
				return bad("bytes may be taken beyond the end of the mapping, to %s", clipTerm(hi))
			}
		case "index":
			if !isBase(e.Args[0]) {
				return true
			}
			bounds++
			if !s.Le(ts.Int(0), e.Args[1]) || !s.Le(ts.AddI(e.Args[1], 1), in.Len(e.Args[0])) {
				return bad("a byte may be used that is outside of what there is, at %s", clipTerm(e.Args[1]))
			}
		case "quo":
			bounds++
			d := e.Args[1]
			if b := s.Bounds(d); !(b.Lo > 0 || b.Hi < 0 || s.Must(ts.Not(ts.Eq(d, ts.Int(0), types.Typ[types.Int])))) {
				return bad("a divisor may be zero")
			}
		case "call":
			if e.Callee == nil || !strings.HasPrefix(e.Callee.String(), "(encoding/binary.") || len(e.Args) < 2 || !isBase(e.Args[1]) || strings.HasPrefix(e.Callee.Name(), "Append") {
				return true
			}
			bounds++
			w := map[string]int64{"16": 2, "32": 4, "64": 8}[e.Callee.Name()[len(e.Callee.Name())-2:]]
			if !s.Le(ts.Int(w), in.Len(e.Args[1])) {
				return bad("%d bytes may be used that are not all there", w)
			}
		}
		return true
	}
	// mapping checks that bytes are made of what is mapped
	mapping := func(in *flow.Interp, s *flow.State, e *flow.Event, key string, data, ln *flow.Term) {
		r := ts.Sym("map", e.Callee.Signature.Results().At(0).Type())
		in.Keep(r)
		n := ln
		for i, p := range e.Callee.Params {
			if isIntType(p.Type()) {
				a := e.Args[i]
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if !s.Same(a, data) {
						in.ReportAt(s, key, e.Instr, "bytes are made of another address than the one that is mapped")
					}
					continue
				}
				n = a
				if !s.Le(a, ln) {
					in.ReportAt(s, key, e.Instr, "the bytes are longer than the mapping")
				}
			}
		}
		s.Assume(ts.Eq(in.Len(r), n, types.Typ[types.Int]), true)
		s.Assume(ts.Eq(in.Cap(r), n, types.Typ[types.Int]), true)
		e.Result, e.Handled = r, true
	}
	sysCall := func(e *flow.Event, name string) bool {
		return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == name && strings.HasSuffix(flow.PkgOf(e.Callee), "/internal/system")
	}
	takesFile := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if types.Identical(p.Type(), sh.t) {
				return true
			}
		}
		return false
	}
	inlineBytes := func(in *flow.Interp, h *ssa.Function) bool {
		return inPkg(h, filesPkg) && !isMapping(h) && !h.Signature.Variadic()
	}

	// opening and creating
	opened := 0
	for _, f := range c.P.RepoFuncs() {
		f := f
		if !inPkg(f, filesPkg) || f.Parent() != nil || !usesMmap(c, f) {
			continue
		}
		opened++
		key := "open:" + short(f.String())
		c.Oblige(key, c.P.Pos(f.Pos()), "what "+f.Name()+" returns can be used within the mapping", true)
		m := &s13model{c: c, key: key, pkg: filesPkg, max: 60}
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inlineBytes(in, h) }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "call" && e.Callee != nil && isMapping(e.Callee) {
				if s.R["mapped"] == nil {
					in.ReportAt(s, key, e.Instr, "bytes are made of an address before anything is mapped")
					s.Kill()
					return
				}
				mapping(in, s, e, key, s.R["mapped"], s.R["maplen"])
				return
			}
			if !access(in, s, e, key, mapBase, nil) {
				return
			}
			switch {
			case sysCall(e, "Allocate"):
				r := freshErr(in, s, e, "err")
				n := e.Args[len(e.Args)-1]
				e.Fork(flow.Alt{Result: ts.Nil(), Do: func(s *flow.State) { s.R["filelen"] = n }}, flow.Alt{Result: r})
				e.Handled = true
				return
			case sysCall(e, "Mmap"):
				n := e.Args[1]
				if s.R["filelen"] == nil || !s.Le(n, s.R["filelen"]) {
					in.ReportAt(s, key, e.Instr, "more is mapped than the file has")
					s.Kill()
					return
				}
				rs := e.Callee.Signature.Results()
				d := in.Fresh(s, e, "rule.data", rs.At(0).Type())
				in.Keep(d)
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, d, ts.Nil()), Do: func(s *flow.State) { s.R["mapped"], s.R["maplen"] = d, n }},
					flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Int(0), freshErr(in, s, e, "err"))},
				)
				e.Handled = true
				return
			case sysCall(e, "Munmap"):
				if s.R["mapped"] == nil || !s.Same(e.Args[0], s.R["mapped"]) || !s.EqInt(e.Args[1], s.R["maplen"]) {
					in.ReportAt(s, key, e.Instr, "something else is unmapped than what was mapped")
				}
				e.Handled = true
				e.Result = freshErr(in, s, e, "err")
				return
			case e.Kind == "call" && strings.HasSuffix(e.Name, ".Size") && len(e.Args) == 1 && (strings.Contains(e.Name, "FileInfo") || strings.Contains(e.Name, "os.")):
				r := in.Fresh(s, e, "rule.filelen", types.Typ[types.Int64])
				in.Keep(r)
				s.Assume(ts.Le(ts.Int(0), r), true)
				s.R["filelen"] = r
				e.Result, e.Handled = r, true
				return
			}
			m.hook(in, s, e)
			if s.Dead() || e.Kind != "exit" {
				return
			}
			if n, known := s.IsNil(e.Args[len(e.Args)-1]); known && !n {
				return
			}
			mulLemma(s, s.R["maplen"])
			out := e.Args[0]
			if !types.Identical(f.Signature.Results().At(0).Type(), sh.t) {
				in.ReportAt(s, key, e.Instr, "a mapping is made that is not kept in a file")
				return
			}
			size, ln, cp, data := sh.get(ts, out, sh.size), sh.get(ts, out, sh.len), sh.get(ts, out, sh.cap), sh.get(ts, out, sh.data)
			bad := ""
			switch {
			case s.R["mapped"] == nil || !s.Same(data, s.R["mapped"]):
				bad = "the file does not keep the address that was mapped"
			case !s.EqInt(ln, s.R["maplen"]):
				bad = "the file keeps another length than the one that was mapped"
			case !s.Le(ts.Int(header), size):
				bad = "the file may have records smaller than their header"
			case !s.Le(size, ln):
				bad = "the file may have records larger than the mapping"
			case !s.Le(ts.Int(0), cp) && !sh.roomFor(s, cp, size, ln):
				bad = "the capacity of the file may be negative"
			case !sh.roomFor(s, cp, size, ln):
				bad = "the capacity of the file, " + clipTerm(cp) + ", may be more than what fits into the mapping"
			}
			if bad != "" {
				in.ReportAt(s, key, e.Instr, "%s", bad)
				return
			}
			c.Count("ways to open", 1)
		}
		c.Explore(in, f, symArgs(c, f), func(s *flow.State) {})
	}
	if opened < 2 {
		c.Fail("anchor:open", filesPkg, "only %d functions that map files were found", opened)
	}

	// using
	rec := ts.Sym("rule.file", sh.t)
	used := 0
	explore := func(f *ssa.Function, key string, inline func(h *ssa.Function) bool, hook func(in *flow.Interp, s *flow.State, e *flow.Event) bool) {
		m := &s13model{c: c, key: key, pkg: filesPkg, max: 60}
		in := flow.NewInterp(c.P, nil)
		in.Keep(rec)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inline(h) }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if hook != nil && hook(in, s, e) || s.Dead() {
				return
			}
			if e.Kind == "call" && e.Callee != nil && isMapping(e.Callee) {
				mapping(in, s, e, key, sh.get(ts, rec, sh.data), sh.get(ts, rec, sh.len))
				return
			}
			if !access(in, s, e, key, mapBase, rec) {
				return
			}
			if sysCall(e, "Munmap") || sysCall(e, "Msync") {
				d, n := sh.get(ts, rec, sh.data), sh.get(ts, rec, sh.len)
				if !s.Same(e.Args[0], d) || !s.EqInt(e.Args[1], n) {
					in.ReportAt(s, key, e.Instr, "something else is released or synced than what is mapped")
				}
				return
			}
			m.hook(in, s, e)
			if e.Kind == "load" && e.Result != nil && e.Result.Op == "rd" {
				e.Result = in.Fresh(s, e, "rule.byte", e.Result.T) // any byte, at any time
			}
		}
		args := symArgs(c, f)
		for i, p := range f.Params {
			if types.Identical(p.Type(), sh.t) {
				args[i] = rec
			}
		}
		c.Explore(in, f, args, func(s *flow.State) { sh.assume(s, rec, header) })
	}
	for _, f := range c.P.RepoFuncs() {
		f := f
		if !inPkg(f, filesPkg) || f.Parent() != nil || len(f.Blocks) == 0 || isMapping(f) || usesMmap(c, f) || f.Synthetic != "" {
			continue
		}
		if !takesFile(f) || !usesBytes(c, f) {
			continue
		}
		used++
		key := "use:" + short(f.String())
		c.Oblige(key, c.P.Pos(f.Pos()), f.Name()+" stays within the mapping whatever the file contains", true)
		explore(f, key, func(h *ssa.Function) bool { return inlineBytes(nil, h) }, nil)
	}
	c.Count("functions using a file", used)

	// the walks over the records
	pos := func(f *ssa.Function) int {
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				return i
			}
		}
		return -1
	}
	getters := map[*ssa.Function]int64{} // how far beyond the last position they may be asked
	if f := c.Fn(filesPkg, "file.HasRecord"); f != nil {
		getters[f] = 0
	}
	if f := c.Fn(filesPkg, "file.Record"); f != nil {
		getters[f] = 1
	}
	metaF := c.Fn(filesPkg, "file.Metadata")
	if len(getters) < 2 || metaF == nil {
		return
	}
	var walkers []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		if !inPkg(f, filesPkg) || len(f.Blocks) == 0 {
			continue
		}
		loops := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if h := call.Common().StaticCallee(); h != nil && getters[h] >= 0 {
						if _, is := getters[h]; is && inLoop(b) {
							loops = true
						}
					}
				}
			}
		}
		if loops {
			walkers = append(walkers, f)
		}
	}
	// a walk that another one relies on comes first, so that what it may
	// return is known by then
	sort.SliceStable(walkers, func(i, j int) bool {
		return calls(walkers[j], walkers[i]) && !calls(walkers[i], walkers[j])
	})
	walks := 0
	returns := map[*ssa.Function]*flow.Ival{}
	for _, f := range walkers {
		f := f
		walks++
		key := "walk:" + short(f.String())
		var gives *flow.Ival
		intErr := f.Signature.Results().Len() == 2 && isIntType(f.Signature.Results().At(0).Type()) && errResult(f.Signature) == 1
		c.Oblige(key, c.P.Pos(f.Pos()), "the walk of "+f.Name()+" looks only at positions there are", true)
		seen := 0
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
			if _, is := getters[h]; is || h == metaF || isMapping(h) || !inPkg(h, filesPkg) {
				return false
			}
			return takesFile(h) || h.Parent() == f
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "load" || e.Kind == "call" || e.Kind == "exit" {
				// whatever file comes in, it was opened
				for _, a := range e.Args {
					if a != nil && a.T != nil && types.Identical(a.T, sh.t) {
						sh.assume(s, a, header)
					}
				}
			}
			if e.Kind == "exit" && e.Callee == f && intErr {
				if isNil, known := s.IsNil(e.Args[1]); !known || isNil {
					b := s.Bounds(e.Args[0])
					if gives == nil {
						gives = &b
					} else {
						gives.Lo, gives.Hi = min(gives.Lo, b.Lo), max(gives.Hi, b.Hi)
					}
				}
				return
			}
			if e.Kind != "call" || e.Callee == nil {
				return
			}
			if g := returns[e.Callee]; g != nil {
				rs := e.Callee.Signature.Results()
				v := in.Fresh(s, e, "rule.walked", rs.At(0).Type())
				e.Handled = true
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, v, ts.Nil()), Do: func(s *flow.State) {
						if g.Lo > math.MinInt64 {
							s.Assume(ts.Le(ts.Int(g.Lo), v), true)
						}
						if g.Hi < math.MaxInt64 {
							s.Assume(ts.Le(v, ts.Int(g.Hi)), true)
						}
					}},
					flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Zero(rs.At(0).Type()), freshErr(in, s, e, "err"))},
				)
				return
			}
			if e.Callee == metaF {
				rs := e.Callee.Signature.Results()
				e.Result, e.Handled = ts.Mk("tuple", "", rs, in.Fresh(s, e, "rule.meta", rs.At(0).Type()), freshErr(in, s, e, "err")), true
				e.Result = nil
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, in.Fresh(s, e, "rule.meta", rs.At(0).Type()), ts.Nil())},
					flow.Alt{Result: ts.Mk("tuple", "", rs, in.Fresh(s, e, "rule.nometa", rs.At(0).Type()), freshErr(in, s, e, "err"))},
				)
				return
			}
			over, is := getters[e.Callee]
			if !is {
				return
			}
			p := pos(e.Callee)
			file, n := e.Args[0], e.Args[p]
			cp := sh.get(ts, file, sh.cap)
			sh.assume(s, file, header)
			if e.Fn == f || inLoop(e.Instr.Block()) {
				if inLoop(e.Instr.Block()) {
					seen++
					if !s.Le(ts.Int(0), n) || !s.Le(n, ts.AddI(cp, over-1)) {
						in.ReportAt(s, key, e.Instr, "the walk may look at the position %s, which does not exist, and never find an end", clipTerm(n))
						s.Kill()
						return
					}
				}
			}
			rs := e.Callee.Signature.Results()
			e.Handled = true
			if over == 0 {
				r := in.Fresh(s, e, "rule.has", rs.At(0).Type())
				e.Fork(
					flow.Alt{Result: ts.Bool(true), Do: func(s *flow.State) {
						s.Assume(ts.Le(ts.Int(0), n), true)
						s.Assume(ts.Le(ts.AddI(n, 1), cp), true)
					}},
					flow.Alt{Result: ts.Bool(false)},
				)
				_ = r
				return
			}
			e.Fork(
				flow.Alt{Result: ts.Mk("tuple", "", rs, in.Fresh(s, e, "rule.rec", rs.At(0).Type()), ts.Nil()), Do: func(s *flow.State) {
					s.Assume(ts.Le(ts.Int(0), n), true)
					s.Assume(ts.Le(ts.AddI(n, 1), cp), true)
				}},
				flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Zero(rs.At(0).Type()), freshErr(in, s, e, "err"))},
			)
		}
		args := symArgs(c, f)
		c.Explore(in, f, args, func(s *flow.State) {})
		if c.Obl[key].OK && gives != nil {
			returns[f] = gives
		}
		if seen == 0 && c.Obl[key].OK {
			c.Fail(key, c.P.Pos(f.Pos()), "the walk of %s was not reached", f.Name())
		}
	}
	c.Count("walks over records", walks)
	if walks == 0 {
		c.Fail("anchor:walk", filesPkg, "no walk over the records was found")
	}

	// splitting a value into records, with whatever size the file has
	for _, name := range []string{"iterateRecords", "parse"} {
		f := c.Fn(filesPkg, name)
		if f == nil {
			continue
		}
		key := "bytes:" + name
		c.Oblige(key, c.P.Pos(f.Pos()), name+" stays within the bytes it is given", true)
		explore(f, key, func(h *ssa.Function) bool { return inlineBytes(nil, h) }, func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
			arg := func(t *flow.Term) bool {
				if t != nil && t.Op == "slice" {
					t = t.Args[0]
				}
				return t != nil && t.Op == "sym" && (strings.HasPrefix(t.Name, "arg:") || strings.HasPrefix(t.Name, "slot:"))
			}
			if e.Kind == "slice" && arg(e.Args[0]) {
				s.Assume(ts.Le(in.Len(e.Args[0]), in.Cap(e.Args[0])), true)
			}
			return !access(in, s, e, key, arg, nil)
		})
	}
	sizes := 0
	for _, f := range c.P.RepoFuncs() {
		if !inPkg(f, filesPkg) || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		div := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if bo, ok := i.(*ssa.BinOp); ok && (bo.Op.String() == "/" || bo.Op.String() == "%") && isIntType(bo.Type()) {
					if _, k := bo.Y.(*ssa.Const); !k {
						div = true
					}
				}
			}
		}
		if !div || usesMmap(c, f) || takesFile(f) {
			continue
		}
		sizes++
		key := "divides:" + short(f.String())
		c.Oblige(key, c.P.Pos(f.Pos()), f.Name()+" does not divide by zero", true)
		explore(f, key, func(h *ssa.Function) bool { return false }, nil)
	}
	c.Count("functions that divide", sizes)

	// the metadata
	var decoders []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		if inPkg(f, filesPkg+"/internal/meta") && len(f.Blocks) > 0 && f.Synthetic == "" && (f.Name() == "Unmarshal" || strings.HasPrefix(f.Name(), "skip")) {
			decoders = append(decoders, f)
		}
	}
	for _, f := range decoders {
		f := f
		key := "metadata:" + f.Name()
		c.Oblige(key, c.P.Pos(f.Pos()), f.Name()+" stays within the bytes it is given", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return false }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "call" && e.Callee != nil && inPkg(e.Callee, filesPkg+"/internal/meta") && e.Callee.Signature.Results().Len() == 2 && errResult(e.Callee.Signature) == 1 {
				rs := e.Callee.Signature.Results()
				n := in.Fresh(s, e, "rule.n", rs.At(0).Type())
				s.Assume(ts.Le(ts.Int(0), n), true)
				e.Handled = true
				e.Fork(flow.Alt{Result: ts.Mk("tuple", "", rs, n, ts.Nil())}, flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Int(0), freshErr(in, s, e, "err"))})
				return
			}
			if !access(in, s, e, key, func(t *flow.Term) bool {
				if t != nil && t.Op == "slice" {
					t = t.Args[0]
				}
				return t != nil && t.Op == "sym" && isBytes(t.T)
			}, nil) {
				return
			}
			if e.Kind == "exit" && len(e.Args) == 2 {
				if n, known := s.IsNil(e.Args[1]); (!known || n) && !s.Le(ts.Int(0), e.Args[0]) {
					in.ReportAt(s, key, e.Instr, "a negative number of bytes may be skipped")
				}
			}
		}
		c.Explore(in, f, symArgs(c, f), func(s *flow.State) {})
	}
	if len(decoders) == 0 {
		c.Fail("anchor:metadata", filesPkg, "the decoder of the metadata was not found")
	}
	c.Count("accesses checked", bounds)
}

// roomFor: (cap+1) records fit into len bytes.
func (sh *fileShape) roomFor(s *flow.State, cp, size, ln *flow.Term) bool {
	ts := s.Interp().TS
	ok := false
	visit := func(t *flow.Term) {
		if t == nil {
			return
		}
		t.Walk(func(x *flow.Term) bool {
			if len(x.Args) != 2 {
				return true
			}
			switch x.Op {
			case "quo":
				if !s.EqInt(x.Args[1], size) {
					return true
				}
				if k, is := ts.ConstDiff(x, cp); is && (k == 0 || k == 1) {
					n := x.Args[0]
					if k == 0 {
						n = ts.Add(n, size)
					}
					if s.Le(n, ln) && s.Le(size, n) {
						ok = true
					}
				}
			case "mul":
				for i, y := range x.Args {
					if s.EqInt(y, size) && s.Le(ts.Int(0), cp) {
						if k, is := ts.ConstDiff(x.Args[1-i], cp); is && (k == 1 && s.Le(x, ln) || k == 0 && s.Le(ts.Add(x, size), ln)) {
							ok = true
						}
					}
				}
			}
			return true
		})
	}
	visit(cp)
	visit(ln)
	visit(s.R["maplen"])
	s.EachInt(func(t *flow.Term, _ flow.Ival) { visit(t) })
	return ok
}

// usesMmap: the function maps a file itself.
func usesMmap(c *Ctx, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if h := call.Common().StaticCallee(); h != nil && h.Name() == "Mmap" && strings.HasSuffix(flow.PkgOf(h), "/internal/system") {
					return true
				}
			}
		}
	}
	return false
}

// usesBytes: the function makes bytes of a mapping, or releases it.
func usesBytes(c *Ctx, f *ssa.Function) bool {
	hit := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if h := call.Common().StaticCallee(); h != nil && (isMapping(h) || strings.HasSuffix(flow.PkgOf(h), "/internal/system")) {
					hit = true
				}
			}
		}
	}
	return hit
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, n := range x.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if visit(n) {
					return true
				}
			}
		}
		return false
	}
	return visit(b)
}
