package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S07", Technique: "whole-module memory-sharing (points-to style value-flow) analysis over SSA from every mapping and every buffer the database keeps to what its callers are handed",
		Explain: "Memory that belongs to a mapping, to a pool or to the database itself is followed through variables, fields, slices, unsafe conversions, closures, calls and results; only copies end it. None of it reaches an argument of a caller's callback, a result of the database's methods, a global, a channel, or a field of an object that lives as long as the database.",
		Assume:  []string{"callers' callbacks are the functions called through function values in the database's package", "generated protocol buffer code is followed like all other code"},
		Min:     4,
		Run:     runS07,
	})
}

func runS07(c *Ctx) {
	v := newVflow(c, true)
	v.only = func(f *ssa.Function) bool { return strings.HasPrefix(flow.PkgOf(f), flow.RepoPath+"/"+filesPkg) }

	// objects that live as long as the database
	long := map[*types.Struct]*types.Named{}
	var live func(t types.Type, name *types.Named)
	live = func(t types.Type, name *types.Named) {
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), flow.RepoPath+"/"+filesPkg) {
				return
			}
			name = n
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			live(u.Elem(), name)
		case *types.Slice:
			live(u.Elem(), name)
		case *types.Array:
			live(u.Elem(), name)
		case *types.Map:
			live(u.Elem(), name)
			live(u.Key(), name)
		case *types.Chan:
			live(u.Elem(), name)
		case *types.Struct:
			if long[u] != nil {
				return
			}
			long[u] = name
			for i := 0; i < u.NumFields(); i++ {
				live(u.Field(i).Type(), name)
			}
		}
	}
	pkg := c.P.ByPkg[flow.RepoPath+"/"+filesPkg]
	var db *types.TypeName
	if pkg != nil && pkg.Types != nil {
		db, _ = pkg.Types.Scope().Lookup("DB").(*types.TypeName)
	}
	if db == nil {
		c.Fail("anchor:db", filesPkg, "the database was not found")
		return
	}
	live(db.Type(), nil)
	owner := map[*types.Var]string{}
	for st, n := range long {
		for i := 0; i < st.NumFields(); i++ {
			if n != nil {
				owner[st.Field(i)] = n.Obj().Name() + "." + st.Field(i).Name()
			}
		}
	}

	// mappings, and the buffers the database keeps
	maps, kept := 0, 0
	for _, f := range v.fns {
		if !v.only(f) {
			continue
		}
		instrsOf(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Call:
				name := calleeName(&x.Call)
				switch {
				case strings.HasSuffix(name, ".Mmap") && len(x.Call.Args) > 0 && (x.Call.StaticCallee() == nil || !c.P.InRepo(x.Call.StaticCallee())):
					maps++
					v.source(vpart{x, 0}, c.P.PosOf(i)+": the file is mapped")
				case strings.Contains(name, "yscall.Syscall") || strings.Contains(name, "unix.Syscall") || strings.Contains(name, "yscall.RawSyscall"):
					if n := sysMmap(c); n != nil && len(x.Call.Args) > 0 {
						if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Uint64() == uint64(*n) {
							maps++
							v.source(vpart{x, 0}, c.P.PosOf(i)+": the file is mapped")
						}
					}
				case name == "(*sync.Map).Load" || name == "(*sync.Map).LoadOrStore" || name == "(*sync.Map).LoadAndDelete":
					kept++
					v.source(vpart{x, 0}, c.P.PosOf(i)+": the value is kept in a map")
				case name == "(*sync.Pool).Get":
					kept++
					v.source(x, c.P.PosOf(i)+": the buffer is from a pool")
				}
			case *ssa.UnOp:
				if !holdsBytes(x.Type()) {
					return
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					if o, ok := owner[fieldOf(fa)]; ok && !chanElemOf(long, db.Type(), fieldOf(fa)) {
						kept++
						v.source(x, c.P.PosOf(i)+": the buffer is the database's ("+o+")")
					}
				}
				if g, ok := x.X.(*ssa.Global); ok {
					kept++
					v.source(x, c.P.PosOf(i)+": the buffer is a global ("+g.Name()+")")
				}
			}
		})
	}
	if maps == 0 {
		c.Fail("anchor:mmap", filesPkg, "no mapping of a file was found")
		return
	}
	v.run()

	// the functions that callers of the database supplied
	cbs := newVflow(c, true)
	cbs.only = v.only
	for _, f := range v.fns {
		if rt := recvType(f); rt != nil && f.Parent() == nil && types.Identical(deref(rt), db.Type()) && f.Object() != nil && f.Object().Exported() {
			for _, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Signature); ok {
					cbs.source(p, c.P.Pos(p.Pos())+": the caller's function "+p.Name())
				}
			}
		}
	}
	cbs.run()

	views, copies, calls, results := 0, 0, 0, 0
	for _, f := range v.fns {
		if !v.only(f) {
			continue
		}
		instrsOf(f, func(i ssa.Instruction) {
			if x, ok := i.(ssa.Value); ok && v.has(x) && isBytes(x.Type()) {
				views++
				c.Funcs[f.String()] = true
			}
			switch x := i.(type) {
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && v.has(x.Val) {
					c.Violate(Violation{Key: "global:" + g.Name(), Where: c.P.PosOf(i), Msg: "stored bytes are kept in a global", Trace: v.path(x.Val)})
				}
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !v.has(x.Val) || !isBytes(x.Val.Type()) && !isStringLike(x.Val.Type()) {
					return
				}
				fv := fieldOf(fa)
				if o, ok := owner[fv]; ok && !poolOwned(v, x.Val) {
					c.Violate(Violation{Key: "field:" + o, Where: c.P.PosOf(i), Msg: "stored bytes are kept in " + o, Trace: v.path(x.Val)})
				}
			case ssa.CallInstruction:
				call := x.Common()
				if b, ok := call.Value.(*ssa.Builtin); ok {
					if (b.Name() == "append" || b.Name() == "copy") && len(call.Args) == 2 && v.has(call.Args[1]) && isBytes(call.Args[1].Type()) {
						copies++
					}
					return
				}
				if call.IsInvoke() || call.StaticCallee() != nil || !cbs.has(call.Value) {
					return
				}
				bytes := false
				for _, a := range call.Args {
					bytes = bytes || isBytes(a.Type()) || isStringLike(a.Type())
				}
				if !bytes {
					return
				}
				calls++
				key := "callback:" + fname(f)
				c.Oblige(key, c.P.PosOf(i), "the bytes handed to a callback are its caller's own", true)
				for _, a := range call.Args {
					if v.has(a) && (isBytes(a.Type()) || isStringLike(a.Type())) {
						c.Obl[key].OK = false
						c.Violate(Violation{Key: key, Where: c.P.PosOf(i), Msg: "a callback is handed memory that is not its caller's own", Trace: v.path(a)})
					}
				}
			}
		})
		// results of the database's methods
		if rt := recvType(f); rt != nil && f.Parent() == nil && types.Identical(deref(rt), db.Type()) && f.Object() != nil && f.Object().Exported() {
			rs := f.Signature.Results()
			for k := 0; k < rs.Len(); k++ {
				if !isBytes(rs.At(k).Type()) && !isStringLike(rs.At(k).Type()) {
					continue
				}
				results++
				key := "result:" + fname(f)
				c.Oblige(key, c.P.Pos(f.Pos()), "the bytes returned are the caller's own", true)
				if v.has(vret{f, k}) {
					c.Obl[key].OK = false
					c.Violate(Violation{Key: key, Where: c.P.Pos(f.Pos()), Msg: "memory that is not the caller's own is returned", Trace: v.path(vret{f, k})})
				}
			}
		}
	}
	c.Oblige("kept", filesPkg, "stored bytes are kept in no global and in no field of an object that lives as long as the database", true)
	c.Oblige("views", filesPkg, "mapped memory is followed from the mapping to the records read", views > 0 && copies > 0)
	if views == 0 || copies == 0 {
		c.Fail("views", filesPkg, "what is read of a mapped file was not found (%d views, %d copies)", views, copies)
	}
	if calls == 0 || results == 0 {
		c.Fail("anchor:handed", filesPkg, "what callers are handed was not found (%d callbacks, %d results)", calls, results)
	}
	c.Count("mappings", maps)
	c.Count("kept buffers", kept)
	c.Count("views of mapped or kept memory", views)
	c.Count("copies that end a view", copies)
	c.Count("callbacks", calls)
	c.Count("results", results)
}

// poolOwned reports bytes that only come from a pool: those may be handed
// around until they are put back.
func poolOwned(v *vflow, x ssa.Value) bool {
	p := v.path(x)
	return len(p) > 0 && strings.HasSuffix(p[0], "from a pool")
}

// chanElemOf reports fields of the values that are queued.
func chanElemOf(long map[*types.Struct]*types.Named, db types.Type, f *types.Var) bool {
	for st, n := range long {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f && n != nil && strings.HasPrefix(strings.ToLower(n.Obj().Name()), "queued") {
				return true
			}
		}
	}
	return false
}

// sysMmap is the number of the system call that maps files.
func sysMmap(c *Ctx) *int64 {
	pk := c.P.SSA.ImportedPackage("syscall")
	if pk == nil {
		return nil
	}
	k, ok := pk.Pkg.Scope().Lookup("SYS_MMAP").(*types.Const)
	if !ok {
		return nil
	}
	n, ok := constant.Int64Val(constant.ToInt(k.Val()))
	if !ok {
		return nil
	}
	return &n
}

// holdsBytes reports byte slices and collections of them.
func holdsBytes(t types.Type) bool {
	if isBytes(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		return holdsBytes(u.Elem())
	case *types.Slice:
		return holdsBytes(u.Elem())
	}
	return false
}
