package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "H08", Technique: "path-sensitive typestate, alias and effect analysis of the bundle over SSA, and a type query for text exempt from escaping",
		Explain: "Loading a bundle fails when any part of it fails to load and keeps info and content of every entry together; opening a page changes nothing that existed before and hands out info and content of one bundled file; the start page stands in only for a name that was not found; exactly the files whose name ends in .html are rendered, from their own content, with an escaping template, for the request at hand, and the size reported is that of the rendered page; no text is exempted from escaping anywhere.",
		Min:     14,
		Run:     runH08,
	})
}

const (
	bundlePkg = "internal/tgzfs"
	pagesPkg  = "internal/tmplfs"
)

// h08bundle is what the rule knows about the types of the bundle.
type h08bundle struct {
	fsT, fileT              types.Type
	info, data, kids        *types.Var // of a file
	files                   []*types.Var
	def                     *types.Var // the start page
	hInfo, hReader, hListed *types.Var // of an open file
	open                    *ssa.Function
	handleT                 types.Type
}

func isFileInfo(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "FileInfo" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "os" || n.Obj().Pkg().Path() == "io/fs")
}

func isReaderT(t types.Type) bool {
	return t.String() == "*bytes.Reader"
}

func h08types(c *Ctx) *h08bundle {
	b := &h08bundle{open: c.Fn(bundlePkg, "(*FS).Open")}
	if b.open == nil {
		return nil
	}
	b.fsT = b.open.Signature.Recv().Type()
	for _, f := range fields(b.fsT) {
		if p, ok := f.Type().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				b.files = append(b.files, f)
				b.fileT = f.Type()
			}
		}
	}
	if b.fileT == nil {
		c.Fail("anchor:bundle", bundlePkg, "the files of a bundle were not found")
		return nil
	}
	for _, f := range fields(b.fileT) {
		switch {
		case isFileInfo(f.Type()):
			b.info = f
		case isBytes(f.Type()):
			b.data = f
		default:
			if m, ok := f.Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), b.fileT) {
				b.kids = f
			}
		}
	}
	if b.info == nil || b.data == nil || b.kids == nil {
		c.Fail("anchor:bundle", bundlePkg, "info, content and children of a bundled file were not found")
		return nil
	}
	for _, m := range c.P.ByPkg[flow.RepoPath+"/"+bundlePkg].Types.Scope().Names() {
		tn, ok := c.P.ByPkg[flow.RepoPath+"/"+bundlePkg].Types.Scope().Lookup(m).(*types.TypeName)
		if !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if method(c, pt, "Readdir") == nil || method(c, pt, "Read") == nil {
			continue
		}
		b.handleT = pt
		for _, f := range fields(pt) {
			switch {
			case isFileInfo(f.Type()):
				b.hInfo = f
			case isReaderT(f.Type()):
				b.hReader = f
			default:
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && isFileInfo(sl.Elem()) {
					b.hListed = f
				}
			}
		}
	}
	if b.hInfo == nil || b.hReader == nil || b.hListed == nil {
		c.Fail("anchor:handle", bundlePkg, "info, content and listing of an open file were not found")
		return nil
	}
	return b
}

func runH08(c *Ctx) {
	b := h08types(c)
	if b == nil {
		return
	}
	h08load(c, b)
	h08open(c, b)
	h08readdir(c, b)
	for _, pkg := range []string{bundlePkg, pagesPkg} {
		h08delegates(c, pkg)
	}
	h08pages(c)
	h08escape(c)
}

// h08load: a bundle that cannot be read to its end is not served.
func h08load(c *Ctx, b *h08bundle) {
	ts := c.P.TS
	mk := c.Fn(bundlePkg, "New")
	if mk == nil {
		return
	}
	c.Oblige("load", c.P.Pos(mk.Pos()), "a bundle that fails to load in any part is an error, and so is one that is not read to its end", true)
	c.Oblige("entry", c.P.Pos(mk.Pos()), "every entry of the bundle keeps its own info and its own content", true)
	never := map[*types.Var]bool{}
	for _, f := range b.files {
		never[f] = true
	}
	errT := types.Universe.Lookup("error").Type()
	in := flow.NewInterp(c.P, nil)
	in.ErrKeys = true
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, bundlePkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		// a file that was put into the bundle without any info so far
		named := func() bool {
			if s.R["bare"] != nil {
				bad("entry", "a file is kept in the bundle without any info")
				return false
			}
			return true
		}
		hasInfo := func(v *flow.Term) bool {
			n, k := nilErr(s, v)
			return k && !n
		}
		entryDone := func() bool {
			if !named() {
				return false
			}
			if s.D["entry"] == "" || s.D["info"] != "" && s.D["data"] != "" {
				return true
			}
			bad("entry", "the next entry is read before info and content of this one are kept")
			return false
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "(*archive/tar.Reader).Next":
				if s.D["fail"] != "" {
					bad("load", "the bundle is read on after %s failed", s.D["fail"])
					return
				}
				if !entryDone() {
					return
				}
				h := in.Fresh(s, e, "header", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				s.Assume(ts.IsNil(h), false)
				reset := func(s *flow.State) {
					delete(s.D, "info")
					delete(s.D, "data")
					delete(s.R, "entry")
					delete(s.R, "entryinfo")
					delete(s.R, "content")
				}
				broken := freshErr(in, s, e, "err")
				s.Assume(ts.Eq(broken, in.ErrConst("io", "EOF"), errT), false)
				tup := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", tup, h, ts.Nil()), Note: "another entry", Do: func(s *flow.State) {
						reset(s)
						s.D["entry"] = "1"
						s.R["header"] = h
					}},
					flow.Alt{Result: ts.Mk("tuple", "", tup, ts.Nil(), in.ErrConst("io", "EOF")), Note: "the end of the bundle", Do: func(s *flow.State) {
						reset(s)
						delete(s.D, "entry")
						s.D["end"] = "1"
					}},
					flow.Alt{Result: ts.Mk("tuple", "", tup, ts.Nil(), broken), Note: "the bundle is damaged", Do: func(s *flow.State) {
						reset(s)
						delete(s.D, "entry")
						s.D["fail"] = "reading the next entry"
					}})
			case e.Name == "(*archive/tar.Header).FileInfo":
				r := in.Fresh(s, e, "info", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				s.Assume(ts.IsNil(r), false)
				e.Result = r
				if s.R["header"] != nil && s.Same(e.Args[0], s.R["header"]) {
					s.R["entryinfo"] = r
				}
			case strings.HasSuffix(e.Name, ".Close"):
			case e.Name == "io/ioutil.ReadAll" || e.Name == "io.ReadAll" || strings.HasPrefix(e.Name, "(*bytes.Buffer).ReadFrom"):
				forkErr(in, s, e, "fail")
			default:
				if ci, ok := e.Instr.(ssa.CallInstruction); ok && (e.Callee == nil || !inPkg(e.Callee, bundlePkg)) && !wrapsError(e) {
					if rs := ci.Common().Signature().Results(); rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errT) {
						forkErr(in, s, e, "fail")
					}
				}
			}
		case "mapset":
			if e.Typ == nil || e.Val == nil || !types.Identical(e.Typ.Underlying(), b.kids.Type().Underlying()) {
				return
			}
			c.Count("files put into the bundle", 1)
			if named() && !hasInfo(s.Load(ts.FieldAddr(e.Val, b.info), b.info.Type(), "rule.info")) {
				s.R["bare"] = e.Val
			}
		case "store":
			if e.Addr == nil || e.Addr.Op != "faddr" {
				return
			}
			at := e.Addr.Args[0]
			same := func() {
				if s.R["entry"] != nil && !s.Same(s.R["entry"], at) {
					bad("entry", "info and content of an entry are kept at different files")
				}
				s.R["entry"] = at
			}
			switch e.Addr.Obj {
			case b.info:
				if s.R["bare"] != nil && s.Same(s.R["bare"], at) && hasInfo(e.Val) {
					delete(s.R, "bare")
				}
				if s.R["entryinfo"] != nil && s.Same(e.Val, s.R["entryinfo"]) {
					s.D["info"] = "1"
					same()
				}
			case b.data:
				if s.D["entry"] == "" || s.D["fail"] != "" {
					bad("entry", "content is kept although no entry is being read")
					return
				}
				s.D["data"] = "1"
				same()
			}
		case "exit":
			isnil, known := nilErr(s, e.Args[1])
			if known && !isnil {
				c.Count("failed loads", 1)
				return
			}
			c.Count("loads", 1)
			if s.D["fail"] != "" || s.D["end"] == "" {
				what := s.D["fail"]
				if what == "" {
					what = "reading to the end"
				}
				bad("load", "a bundle is served although %s failed", what)
				return
			}
			if !known {
				bad("load", "it is undecided whether the bundle failed to load")
				return
			}
			if !entryDone() {
				return
			}
			for _, f := range b.files {
				v := s.Load(ts.FieldAddr(e.Args[0], f), f.Type(), "rule.file")
				if n, k := s.IsNil(v); !k || n {
					delete(never, f)
				}
			}
		}
	}
	c.Explore(in, mk, nil, func(s *flow.State) { s.Assume(ts.IsNil(in.ErrConst("io", "EOF")), false) })
	for _, f := range b.files {
		if !never[f] {
			if b.def != nil {
				c.Fail("anchor:start", bundlePkg, "more than one file of a bundle may be missing")
			}
			b.def = f
		}
	}
}

// nilErr: the error variables of libraries are never nil.
func nilErr(s *flow.State, t *flow.Term) (isnil, known bool) {
	if t != nil && t.Op == "errconst" {
		return false, true
	}
	return s.IsNil(t)
}

// wrapsError: the call only puts an error into another one.
func wrapsError(e *flow.Event) bool {
	for _, p := range []string{"github.com/zeebo/errs.", "(*github.com/zeebo/errs.", "errors.", "fmt.Errorf"} {
		if strings.HasPrefix(e.Name, p) {
			return true
		}
	}
	return false
}

// h08open: opening a file changes nothing and hands out one bundled file.
func h08open(c *Ctx, b *h08bundle) {
	ts := c.P.TS
	at := c.P.Pos(b.open.Pos())
	c.Oblige("unchanged:"+bundlePkg, at, "opening a file changes nothing that existed before", true)
	c.Oblige("own", at, "an open file has info and content of one bundled file and a position of its own", true)
	c.Oblige("missing", at, "the start page stands in only for a name that is not in the bundle; a name that is found is no error", true)
	in := flow.NewInterp(c.P, nil)
	in.ErrKeys = true
	self := ts.Sym("arg:"+b.open.Params[0].Name()+":"+b.open.Name(), b.open.Params[0].Type())
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, bundlePkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		h08unchanged(in, s, e, bundlePkg, nil)
		if s.Dead() {
			return
		}
		switch e.Kind {
		case "mapget":
			if e.Addr == nil || e.Typ == nil || !types.Identical(e.Typ, b.kids.Type()) && !types.Identical(e.Typ.Underlying(), b.kids.Type().Underlying()) {
				return
			}
			f := in.Fresh(s, e, "child", b.fileT)
			s.Assume(ts.IsNil(f), false)
			e.Handled = true
			e.Fork(
				flow.Alt{Result: ts.Mk("tuple", "", nil, f, ts.Bool(true)), Note: "the name is in the bundle", Do: func(s *flow.State) { s.D["looked"] = "1" }},
				flow.Alt{Result: ts.Mk("tuple", "", nil, ts.Nil(), ts.Bool(false)), Note: "the name is not in the bundle", Do: func(s *flow.State) { s.D["miss"], s.D["looked"] = "1", "1" }})
		case "load":
			if e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Obj == b.info && s.D["opening"] == "" {
				s.R["file"] = e.Addr.Args[0]
			}
			if e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Obj == b.data {
				s.R["file"] = e.Addr.Args[0]
				s.D["opening"] = "1"
			}
		case "call":
			if e.Name == "bytes.NewReader" {
				r := in.Fresh(s, e, "reader", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				s.Assume(ts.IsNil(r), false)
				s.R["reader"], s.R["content"] = r, e.Args[0]
				e.Result = r
			}
		case "exit":
			isnil, known := nilErr(s, e.Args[1])
			if !known {
				bad("missing", "it is undecided whether opening the file failed")
				return
			}
			if !isnil {
				c.Count("files not found", 1)
				if s.D["miss"] == "" {
					bad("missing", "opening a file fails although no name was missing from the bundle")
				}
				return
			}
			c.Count("files opened", 1)
			h := stripIface(e.Args[0])
			if h == nil || h.Op != "alloc" {
				bad("own", "an open file is not made for the one who opens it")
				return
			}
			f := s.R["file"]
			if f == nil || s.R["reader"] == nil {
				bad("own", "an open file has no bundled content")
				return
			}
			hi := s.Load(ts.FieldAddr(h, b.hInfo), b.hInfo.Type(), "rule.hinfo")
			hr := s.Load(ts.FieldAddr(h, b.hReader), b.hReader.Type(), "rule.hreader")
			fi := s.Load(ts.FieldAddr(f, b.info), b.info.Type(), "rule.finfo")
			fd := s.Load(ts.FieldAddr(f, b.data), b.data.Type(), "rule.fdata")
			switch {
			case !s.Same(hr, s.R["reader"]) || !s.Same(s.R["content"], fd):
				bad("own", "an open file does not read the content of the bundled file")
			case !s.Same(hi, fi):
				bad("own", "an open file does not have the info of the bundled file its content is from")
			}
			if s.Dead() || b.def == nil {
				return
			}
			def := s.Load(ts.FieldAddr(self, b.def), b.def.Type(), "rule.def")
			switch {
			case s.D["miss"] == "" && s.Same(f, def):
				bad("missing", "the start page is served although the name was found")
			case s.D["miss"] != "" && !s.Same(f, def):
				bad("missing", "a name that is not in the bundle is answered with something else than the start page")
			}
		}
	}
	c.Explore(in, b.open, nil, func(s *flow.State) {
		for _, f := range b.files {
			if f != b.def {
				s.Assume(ts.IsNil(s.Load(ts.FieldAddr(self, f), f.Type(), "rule.root")), false)
			}
		}
	})
	c.Oblige("anchor:lookup", at, "names are looked up in the bundle", c.Counts["files not found"] > 0 && c.Counts["files opened"] > 0)
}

// h08unchanged reports stores into anything that was not made on this path,
// unless a lock is held.
func h08unchanged(in *flow.Interp, s *flow.State, e *flow.Event, pkg string, own *flow.Term) {
	fresh := func(t *flow.Term) bool {
		for t != nil {
			switch t.Op {
			case "alloc", "make", "closure":
				return true
			case "faddr", "iaddr", "slice":
				t = t.Args[0]
			default:
				return t == own && own != nil
			}
		}
		return false
	}
	bad := func() {
		if s.D["locked"] != "" {
			return
		}
		in.ReportAt(s, "unchanged:"+pkg, e.Instr, "something that existed before the request is changed without a lock")
		s.Kill()
	}
	switch e.Kind {
	case "call":
		switch lockOp(e.Name) {
		case 1:
			if !strings.HasSuffix(e.Name, "RLock") {
				s.D["locked"] = "1"
			}
		case -1:
			if !strings.HasSuffix(e.Name, "RUnlock") {
				delete(s.D, "locked")
			}
		}
	case "store":
		if e.Addr != nil && !fresh(e.Addr) {
			bad()
		}
	case "mapset", "mapdel", "clear":
		if e.Addr != nil && !fresh(e.Addr) {
			bad()
		}
	}
}

// h08readdir: listing a directory hands out every entry once.
func h08readdir(c *Ctx, b *h08bundle) {
	ts := c.P.TS
	fn := method(c, b.handleT, "Readdir")
	if fn == nil {
		return
	}
	c.Oblige("listing", c.P.Pos(fn.Pos()), "a directory is listed entry by entry, never more than asked for, and ends with EOF", true)
	self := ts.Sym("arg:"+fn.Params[0].Name()+":"+fn.Name(), fn.Params[0].Type())
	n := ts.Sym("arg:"+fn.Params[1].Name()+":"+fn.Name(), fn.Params[1].Type())
	addr := ts.FieldAddr(self, b.hListed)
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, bundlePkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, "listing", e.Instr, format, a...)
			s.Kill()
		}
		if e.Kind == "slice" && len(e.Args) == 3 {
			lo, hi := e.Args[1], e.Args[2]
			if lo == nil {
				lo = ts.Int(0)
			}
			if hi == nil {
				hi = in.Len(e.Args[0])
			}
			if !s.Le(ts.Int(0), lo) || !s.Le(lo, hi) || !s.Le(hi, in.Len(e.Args[0])) && !s.Le(hi, in.Cap(e.Args[0])) {
				bad("the listing is cut outside its bounds")
			}
			return
		}
		if e.Kind != "exit" || s.Dead() {
			return
		}
		c.Count("listings", 1)
		had := in.Len(s.R["!list"])
		left := in.Len(s.Load(addr, b.hListed.Type(), "rule.left"))
		got := in.Len(e.Args[0])
		isnil, known := nilErr(s, e.Args[1])
		if !known {
			bad("it is undecided whether the listing ended")
			return
		}
		if !s.EqInt(left, ts.Sub(had, got)) {
			bad("entries are passed over or handed out twice")
			return
		}
		if some := s.Clone(); some.Assume(ts.Le(ts.Int(1), n), true) {
			switch {
			case !some.Le(got, n):
				bad("more entries are handed out than were asked for")
			case isnil && !some.Lt(ts.Int(0), got):
				bad("no entry is handed out, and no end reported")
			case !isnil && !(some.EqInt(had, ts.Int(0)) && some.Same(e.Args[1], in.ErrConst("io", "EOF"))):
				bad("the listing fails other than with EOF at its end")
			}
		}
		if s.Dead() {
			return
		}
		if all := s.Clone(); all.Assume(ts.Le(n, ts.Int(0)), true) {
			if !isnil || !all.EqInt(got, had) {
				bad("not the whole listing is handed out when all of it is asked for")
			}
		}
	}
	c.Explore(in, fn, nil, func(s *flow.State) {
		l := s.Load(addr, b.hListed.Type(), "rule.list")
		s.R["!list"] = l
		in.Keep(l)
	})
}

// h08delegates: open files read and seek in their own content, and their
// info has the size of what is read.
func h08delegates(c *Ctx, pkg string) {
	ts := c.P.TS
	scope := c.P.ByPkg[flow.RepoPath+"/"+pkg].Types.Scope()
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		var reader *types.Var
		for _, f := range fields(pt) {
			if isReaderT(f.Type()) {
				reader = f
			}
		}
		if reader == nil {
			continue
		}
		for _, m := range []string{"Read", "Seek"} {
			fn := method(c, pt, m)
			key := "reads:" + pkg + "." + name + "." + m
			if fn == nil {
				// it would be the one of the wrapped file
				if sel := types.NewMethodSet(pt).Lookup(scopePkg(tn), m); sel == nil || len(sel.Index()) < 2 || !isReaderT(fields(pt)[sel.Index()[0]].Type()) {
					c.Oblige(key, pkg, m+" acts on the content of the open file", false)
				} else {
					c.Oblige(key, pkg, m+" acts on the content of the open file", true)
				}
				continue
			}
			c.Oblige(key, c.P.Pos(fn.Pos()), m+" acts on the content of the open file", true)
			self := ts.Sym("arg:"+fn.Params[0].Name()+":"+fn.Name(), fn.Params[0].Type())
			in := flow.NewInterp(c.P, nil)
			in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, pkg) }
			in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
				bad := func(format string, a ...interface{}) {
					in.ReportAt(s, key, e.Instr, format, a...)
					s.Kill()
				}
				switch e.Kind {
				case "call":
					if e.Name != "(*bytes.Reader)."+m {
						return
					}
					if s.D["did"] != "" {
						bad("the content is acted on twice")
						return
					}
					if !s.Same(e.Args[0], s.Load(ts.FieldAddr(self, reader), reader.Type(), "rule.reader")) {
						bad("another content than that of the open file is acted on")
						return
					}
					for i, p := range fn.Params[1:] {
						if !s.Same(e.Args[i+1], ts.Sym("arg:"+p.Name()+":"+fn.Name(), p.Type())) {
							bad("the content is not acted on as asked for")
							return
						}
					}
					rs := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
					a, er := in.Fresh(s, e, "n", rs.At(0).Type()), in.Fresh(s, e, "err", rs.At(1).Type())
					s.R["n"], s.R["err"] = a, er
					s.D["did"] = "1"
					e.Result = ts.Mk("tuple", "", rs, a, er)
					e.Handled = true
				case "store":
					if e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Args[0] == self {
						bad("the open file is changed")
					}
				case "exit":
					c.Count("reads and seeks", 1)
					if s.D["did"] == "" || !s.Same(e.Args[0], s.R["n"]) || !s.Same(e.Args[1], s.R["err"]) {
						bad("the result is not that of acting on the content")
					}
				}
			}
			c.Explore(in, fn, nil, nil)
		}
		h08stat(c, pkg, pt, name)
	}
}

func scopePkg(tn *types.TypeName) *types.Package { return tn.Pkg() }

// h08stat: the info of an open file is its own, with its own size.
func h08stat(c *Ctx, pkg string, pt types.Type, name string) {
	ts := c.P.TS
	key := "info:" + pkg + "." + name
	fn := method(c, pt, "Stat")
	if fn == nil {
		c.Oblige(key, pkg, "an open file tells about itself", false)
		return
	}
	c.Oblige(key, c.P.Pos(fn.Pos()), "an open file tells about itself, with the size of what is read", true)
	self := ts.Sym("arg:"+fn.Params[0].Name()+":"+fn.Name(), fn.Params[0].Type())
	var info, size, inner *types.Var
	for _, f := range fields(pt) {
		switch {
		case isFileInfo(f.Type()):
			info = f
		case f.Embedded() && types.IsInterface(f.Type()):
			inner = f
		case isInt(f.Type()):
			size = f
		}
	}
	in := flow.NewInterp(c.P, nil)
	in.ErrKeys = true
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, pkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		switch e.Kind {
		case "call":
			if inner != nil && e.Method != nil && e.Method.Name() == "Stat" {
				if len(e.Args) == 0 || !s.Same(e.Args[0], s.Load(ts.FieldAddr(self, inner), inner.Type(), "rule.inner")) {
					bad("another file is asked about")
					return
				}
				forkErr(in, s, e, "fail")
			}
		case "exit":
			isnil, known := nilErr(s, e.Args[1])
			if !known {
				bad("it is undecided whether asking about the file failed")
				return
			}
			if (s.D["fail"] != "") == isnil {
				bad("asking about the file fails or succeeds other than asking the file it was made from")
				return
			}
			c.Count("infos", 1)
			if !isnil {
				return
			}
			if info != nil {
				if !s.Same(e.Args[0], s.Load(ts.FieldAddr(self, info), info.Type(), "rule.info")) {
					bad("the info is not that of the open file")
				}
				return
			}
			// what the info says when it is asked for the size
			t := e.Args[0]
			v := stripIface(t)
			if size == nil || v == nil || v.T == nil {
				bad("the size of the open file is not reported")
				return
			}
			g := method(c, v.T, "Size")
			if g == nil {
				bad("the size reported is that of the file the page was rendered from")
				return
			}
			want := s.Load(ts.FieldAddr(self, size), size.Type(), "rule.size")
			got := h08size(c, in, s, g, v)
			if got == nil || !s.Same(got, want) {
				bad("the size reported is not that of the content")
			}
		}
	}
	c.Explore(in, fn, nil, nil)
}

// h08size follows a method that only returns a field of its receiver.
func h08size(c *Ctx, in *flow.Interp, s *flow.State, g *ssa.Function, v *flow.Term) *flow.Term {
	ts := c.P.TS
	var got *flow.Term
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			r, ok := i.(*ssa.Return)
			if !ok {
				continue
			}
			x := r.Results[0]
			if got != nil {
				return nil
			}
			switch x := x.(type) {
			case *ssa.Field:
				got = ts.Field(v, x.Field, deref(x.X.Type()).Underlying().(*types.Struct))
			case *ssa.UnOp:
				fa, ok := x.X.(*ssa.FieldAddr)
				if !ok || x.Op != token.MUL {
					return nil
				}
				st := deref(fa.X.Type()).Underlying().(*types.Struct)
				f := st.Field(fa.Field)
				if v.Op == "alloc" {
					got = s.Load(ts.FieldAddr(v, f), f.Type(), "rule.size")
				} else {
					got = ts.Field(v, fa.Field, st)
				}
			default:
				return nil
			}
		}
	}
	return got
}

// h08pages: pages are rendered for the request at hand.
func h08pages(c *Ctx) {
	ts := c.P.TS
	serve := c.Fn(pagesPkg, "(*FS).ServeHTTP")
	if serve == nil {
		return
	}
	// the file system that serves one request
	var open *ssa.Function
	var reqF, fsF *types.Var
	scope := c.P.ByPkg[flow.RepoPath+"/"+pagesPkg].Types.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type())} {
			g := method(c, t, "Open")
			if g == nil {
				continue
			}
			open = g
			for _, f := range fields(t) {
				if f.Type().String() == "*net/http.Request" {
					reqF = f
				} else if types.IsInterface(f.Type()) {
					fsF = f
				}
			}
		}
	}
	if open == nil || reqF == nil || fsF == nil {
		c.Fail("anchor:pages", pagesPkg, "the file system that serves a request was not found")
		return
	}
	c.Oblige("request", c.P.Pos(serve.Pos()), "every request is served with a file system of its own", true)
	c.Oblige("unchanged:"+pagesPkg, c.P.Pos(serve.Pos()), "serving a page changes nothing that existed before", true)
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, pagesPkg) }
	arg := func(fn *ssa.Function, i int) *flow.Term {
		return ts.Sym("arg:"+fn.Params[i].Name()+":"+fn.Name(), fn.Params[i].Type())
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(format string, a ...interface{}) {
			in.ReportAt(s, "request", e.Instr, format, a...)
			s.Kill()
		}
		h08unchanged(in, s, e, pagesPkg, nil)
		if s.Dead() {
			return
		}
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "net/http.FileServer":
				w := stripIface(e.Args[0])
				if w == nil || w.Op != "alloc" {
					bad("requests share what they are served with")
					return
				}
				if !s.Same(s.Load(ts.FieldAddr(w, reqF), reqF.Type(), "rule.req"), arg(serve, 2)) {
					bad("a page is rendered for another request")
					return
				}
				under := s.Load(ts.FieldAddr(w, fsF), fsF.Type(), "rule.fs")
				if !termHas(under, func(x *flow.Term) bool { return x == arg(serve, 0) || strings.HasPrefix(x.Name, "rule.under") }) {
					own := false
					for _, f := range fields(serve.Params[0].Type()) {
						own = own || types.Identical(f.Type(), fsF.Type()) && s.Same(under, s.Load(ts.FieldAddr(arg(serve, 0), f), f.Type(), "rule.under"))
					}
					if !own {
						bad("the pages of another file system are served")
						return
					}
				}
				r := in.Fresh(s, e, "server", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				s.Assume(ts.IsNil(r), false)
				s.R["server"], e.Result = r, r
			case strings.HasSuffix(e.Name, ".ServeHTTP"):
				if s.R["server"] == nil || !s.Same(e.Args[0], s.R["server"]) || !s.Same(e.Args[1], arg(serve, 1)) || !s.Same(e.Args[2], arg(serve, 2)) {
					bad("something else than the pages answers the request")
					return
				}
				s.D["served"] = "1"
			case e.Method != nil && e.Method.Pkg() != nil && e.Method.Pkg().Path() == "net/http" && (e.Method.Name() == "Write" || e.Method.Name() == "WriteHeader"):
				bad("the response is written other than by serving the pages")
			}
		case "exit":
			c.Count("requests served", 1)
			if s.D["served"] == "" {
				bad("a request is not served")
			}
		}
	}
	c.Explore(in, serve, nil, nil)

	h08render(c, open, reqF, fsF)
}

// h08render: exactly the html files are rendered.
func h08render(c *Ctx, open *ssa.Function, reqF, fsF *types.Var) {
	ts := c.P.TS
	at := c.P.Pos(open.Pos())
	c.Oblige("render", at, "exactly the files whose name ends in .html are rendered, from their own content", true)
	c.Oblige("whole", at, "a file is handed out exactly when nothing failed", true)
	c.Oblige("size", at, "the page handed out is what was rendered, with its size", true)
	arg := func(i int) *flow.Term {
		return ts.Sym("arg:"+open.Params[i].Name()+":"+open.Name(), open.Params[i].Type())
	}
	in := flow.NewInterp(c.P, nil)
	in.ErrKeys = true
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, pagesPkg) }
	strT := types.Typ[types.String]
	is := func(s *flow.State, t, u *flow.Term) bool { return t != nil && u != nil && s.Same(t, u) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		bad := func(key, format string, a ...interface{}) {
			in.ReportAt(s, key, e.Instr, format, a...)
			s.Kill()
		}
		h08unchanged(in, s, e, pagesPkg, nil)
		if s.Dead() {
			return
		}
		res := func(i int) types.Type {
			return e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(i).Type()
		}
		// an operation with a result and an error
		op := func(note string, reg string, do func(s *flow.State)) {
			rs := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
			ok := make([]*flow.Term, 0, 2)
			no := make([]*flow.Term, 0, 2)
			if rs.Len() == 2 {
				v := in.Fresh(s, e, reg, rs.At(0).Type())
				ok = append(ok, v)
				no = append(no, in.Fresh(s, e, "no", rs.At(0).Type()))
			}
			ok = append(ok, ts.Nil())
			no = append(no, freshErr(in, s, e, "err"))
			mk := func(a []*flow.Term) *flow.Term {
				if len(a) == 1 {
					return a[0]
				}
				return ts.Mk("tuple", "", rs, a...)
			}
			e.Handled = true
			e.Fork(
				flow.Alt{Result: mk(ok), Note: note + " succeeds", Do: func(s *flow.State) {
					if len(ok) == 2 {
						s.Assume(ts.IsNil(ok[0]), false)
						s.R[reg] = ok[0]
					}
					if do != nil {
						do(s)
					}
				}},
				flow.Alt{Result: mk(no), Note: note + " fails", Do: func(s *flow.State) { s.D["fail"] = note }})
		}
		switch e.Kind {
		case "call":
			mname := ""
			if e.Method != nil {
				mname = e.Method.Name()
			}
			switch {
			case mname == "Open" && len(e.Args) == 2:
				if !s.Same(e.Args[0], s.Load(ts.FieldAddr(arg(0), fsF), fsF.Type(), "rule.fs")) || !s.Same(e.Args[1], arg(1)) {
					bad("render", "another file is opened than the one asked for")
					return
				}
				op("opening the file", "file", nil)
			case mname == "Close":
				s.D["closed"] = "1"
			case mname == "Stat" && is(s, e.Args[0], s.R["file"]):
				op("asking about the file", "info", nil)
			case mname == "Name" && is(s, e.Args[0], s.R["info"]):
				if s.R["name"] == nil {
					s.R["name"] = in.Fresh(s, e, "name", strT)
				}
				e.Result, e.Handled = s.R["name"], true
			case mname == "IsDir" && is(s, e.Args[0], s.R["info"]):
				e.Handled = true
				e.Fork(flow.Alt{Result: ts.Bool(true), Note: "a directory", Do: func(s *flow.State) { s.D["dir"] = "1" }},
					flow.Alt{Result: ts.Bool(false), Note: "not a directory"})
			case e.Name == "strings.HasSuffix":
				if suf, ok := e.Args[1].StrVal(); ok && suf == ".html" && is(s, e.Args[0], s.R["name"]) {
					e.Handled = true
					switch s.D["html"] {
					case "yes", "no":
						e.Result = ts.Bool(s.D["html"] == "yes")
					default:
						e.Fork(flow.Alt{Result: ts.Bool(true), Note: "html", Do: func(s *flow.State) { s.D["html"] = "yes" }},
							flow.Alt{Result: ts.Bool(false), Note: "not html", Do: func(s *flow.State) { s.D["html"] = "no" }})
					}
				}
			case e.Name == "path.Ext" || e.Name == "path/filepath.Ext":
				if is(s, e.Args[0], s.R["name"]) {
					if s.R["ext"] == nil {
						s.R["ext"] = in.Fresh(s, e, "ext", strT)
					}
					e.Result, e.Handled = s.R["ext"], true
				}
			case e.Name == "io/ioutil.ReadAll" || e.Name == "io.ReadAll":
				if !is(s, stripIface(e.Args[0]), s.R["file"]) && !is(s, e.Args[0], s.R["file"]) {
					bad("render", "another file is read than the one that was opened")
					return
				}
				op("reading the file", "data", nil)
			case strings.HasSuffix(e.Name, "/template.Template).Parse"):
				if !strings.Contains(e.Name, "html/template") {
					bad("render", "a page is rendered by a template that does not escape")
					return
				}
				if s.R["data"] == nil || !s.Same(bare(e.Args[1]), bare(s.R["data"])) {
					bad("render", "a template is made from something else than the content of the file")
					return
				}
				op("parsing the page", "tmpl", nil)
			case strings.HasSuffix(e.Name, "/template.Template).Execute"):
				if !is(s, e.Args[0], s.R["tmpl"]) {
					bad("render", "another page is rendered than the one that was opened")
					return
				}
				if s.R["out"] != nil {
					bad("size", "the page is rendered twice")
					return
				}
				s.R["out"] = stripIface(e.Args[1])
				if o := s.R["out"]; o == nil || o.Op != "alloc" {
					bad("size", "a page is rendered into something that other requests may use")
					return
				}
				op("rendering the page", "page", func(s *flow.State) { s.D["rendered"] = "1" })
			case strings.HasPrefix(e.Name, "html/template.Must"):
				bad("whole", "a page that does not parse ends the process")
			case e.Name == "(*bytes.Buffer).Bytes" || e.Name == "(*bytes.Buffer).Len" || e.Name == "(*bytes.Buffer).String":
				if !is(s, e.Args[0], s.R["out"]) || s.D["rendered"] == "" {
					return
				}
				if s.R["bytes"] == nil {
					s.R["bytes"] = in.Fresh(s, e, "rendered", types.NewSlice(types.Typ[types.Byte]))
				}
				e.Handled = true
				switch {
				case strings.HasSuffix(e.Name, "Bytes"):
					e.Result = s.R["bytes"]
				case strings.HasSuffix(e.Name, "Len"):
					e.Result = in.Len(s.R["bytes"])
				}
			case e.Name == "bytes.NewReader":
				r := in.Fresh(s, e, "reader", res(0))
				s.Assume(ts.IsNil(r), false)
				s.R["reader"], s.R["content"] = r, e.Args[0]
				e.Result = r
			case (e.Name == "(*bytes.Reader).Size" || e.Name == "(*bytes.Reader).Len") && is(s, e.Args[0], s.R["reader"]):
				e.Result, e.Handled = in.Len(s.R["content"]), true
			case e.Name == "(*net/http.Request).FormValue" || e.Name == "(net/url.Values).Get":
				if e.Name == "(*net/http.Request).FormValue" && !s.Same(e.Args[0], s.Load(ts.FieldAddr(arg(0), reqF), reqF.Type(), "rule.req")) {
					bad("render", "a page is rendered with text of another request")
				}
			case e.Callee == nil || !inPkg(e.Callee, pagesPkg):
				if ci, ok := e.Instr.(ssa.CallInstruction); ok && !wrapsError(e) {
					if rs := ci.Common().Signature().Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
						forkErr(in, s, e, "fail")
					}
				}
			}
		case "exit":
			isnil, known := nilErr(s, e.Args[1])
			if !known {
				bad("whole", "it is undecided whether opening the page failed")
				return
			}
			if isnil != (s.D["fail"] == "") {
				if isnil {
					bad("whole", "a page is handed out although %s failed", s.D["fail"])
				} else {
					bad("whole", "opening a page fails although nothing failed")
				}
				return
			}
			if !isnil {
				c.Count("pages that fail", 1)
				return
			}
			html := s.D["html"]
			if s.R["ext"] != nil {
				if v, known := s.Decide(ts.Eq(s.R["ext"], ts.Str(".html"), strT)); known {
					html = map[bool]string{true: "yes", false: "no"}[v]
				}
			}
			if s.D["closed"] != "" {
				bad("whole", "a closed file is handed out")
				return
			}
			if is(s, e.Args[0], s.R["file"]) {
				c.Count("files handed out", 1)
				if html != "no" && s.D["dir"] == "" {
					bad("render", "a file is handed out as it is although its name may end in .html")
				} else if s.R["data"] != nil {
					bad("render", "a file is handed out after it was read")
				}
				return
			}
			c.Count("pages rendered", 1)
			if html != "yes" {
				bad("render", "a file is rendered although its name may not end in .html")
				return
			}
			p := stripIface(e.Args[0])
			if p == nil || p.Op != "alloc" || s.D["rendered"] == "" {
				bad("size", "something else than the rendered page is handed out")
				return
			}
			for _, f := range fields(p.T) {
				v := s.Load(ts.FieldAddr(p, f), f.Type(), "rule.page")
				switch {
				case isReaderT(f.Type()):
					if !is(s, v, s.R["reader"]) || !is(s, s.R["content"], s.R["bytes"]) {
						bad("size", "the page handed out is not what was rendered")
						return
					}
				case isInt(f.Type()):
					if s.R["bytes"] == nil || !s.EqInt(bare(v), in.Len(s.R["bytes"])) {
						bad("size", "the size of the page is not that of what was rendered")
						return
					}
				case types.IsInterface(f.Type()):
					if !is(s, v, s.R["file"]) {
						bad("size", "the page does not stand for the file it was rendered from")
						return
					}
				}
			}
		}
	}
	c.Explore(in, open, nil, nil)
	c.Oblige("anchor:render", at, "some files are rendered and some are not", c.Counts["pages rendered"] > 0 && c.Counts["files handed out"] > 0)
}

// h08escape: no text is exempt from escaping.
func h08escape(c *Ctx) {
	c.Oblige("escape", "every package", "no text is marked as safe for a page, and no template is used that does not escape", true)
	exempt := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "html/template" {
			return false
		}
		switch n.Obj().Name() {
		case "HTML", "HTMLAttr", "CSS", "JS", "JSStr", "URL", "Srcset":
			return true
		}
		return false
	}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		if _, ok := i.(ssa.CallInstruction); ok {
			c.Count("calls searched", 1)
		}
		switch x := i.(type) {
		case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.Phi, *ssa.UnOp, *ssa.Field, *ssa.Extract:
			var ops [1]*ssa.Value
			for _, o := range append(x.(ssa.Instruction).Operands(ops[:0]), nil) {
				if o == nil || *o == nil {
					continue
				}
				if k, ok := (*o).(*ssa.Const); ok && exempt(k.Type()) && (k.Value == nil || k.Value.Kind() == constant.String) {
					return // a text that is part of the program
				}
			}
			if v := i.(ssa.Value); exempt(v.Type()) {
				c.Fail("escape:"+fname(f), c.P.PosOf(i), "%s", "text is exempted from escaping in "+fname(f))
			} else if m, ok := i.(*ssa.MakeInterface); ok && exempt(m.X.Type()) {
				c.Fail("escape:"+fname(f), c.P.PosOf(i), "%s", "text is exempted from escaping in "+fname(f))
			}
		case ssa.CallInstruction:
			if n := calleeName(x.Common()); strings.Contains(n, "text/template.") {
				c.Fail("escape:"+fname(f), c.P.PosOf(i), "%s", "a template that does not escape is used in "+fname(f))
			}
		}
	})
}
