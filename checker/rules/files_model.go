package rules

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

const filesPkg = "database/files"

// filesWorld knows the roles of the storage package: which functions produce,
// store and consume mapped file handles.
type filesWorld struct {
	c        *Ctx
	file     types.Type
	open     *ssa.Function
	create   *ssa.Function
	take     *ssa.Function
	put      *ssa.Function
	closeF   *ssa.Function
	fchClose *ssa.Function
	newMet   *ssa.Function
	write    *ssa.Function
	read     *ssa.Function
	readLast *ssa.Function
	ok       bool
}

func newFilesWorld(c *Ctx) *filesWorld {
	w := &filesWorld{c: c}
	w.open = c.Fn(filesPkg, "openFile")
	w.create = c.Fn(filesPkg, "createFile")
	w.take = c.Fn(filesPkg, "(*cache).Take")
	w.put = c.Fn(filesPkg, "(*cache).Put")
	w.closeF = c.Fn(filesPkg, "file.Close")
	w.fchClose = c.Fn(filesPkg, "(*fileCache).Close")
	w.newMet = c.Fn(filesPkg, "newMetric")
	w.write = c.Fn(filesPkg, "(*metric).Write")
	w.read = c.Fn(filesPkg, "(*metric).Read")
	w.readLast = c.Fn(filesPkg, "(*metric).ReadLast")
	w.ok = w.open != nil && w.create != nil && w.take != nil && w.put != nil && w.closeF != nil && w.newMet != nil && w.write != nil && w.read != nil
	if !w.ok {
		return w
	}
	rs := w.open.Signature.Results()
	if rs.Len() == 0 {
		w.ok = false
		c.Fail("anchor:openFile", filesPkg, "openFile returns nothing")
		return w
	}
	w.file = rs.At(0).Type()
	return w
}

func (w *filesWorld) isFile(t types.Type) bool { return t != nil && types.Identical(t, w.file) }

// acquires reports whether the callee hands out a file handle.
func (w *filesWorld) acquires(f *ssa.Function) bool {
	return f != nil && (f == w.open || f == w.create || f == w.take)
}

// result builds a result tuple of fn with the given values by kind.
func (w *filesWorld) result(in *flow.Interp, fn *ssa.Function, file *flow.Term, err, ok *flow.Term) *flow.Term {
	ts := in.TS
	rs := fn.Signature.Results()
	args := make([]*flow.Term, rs.Len())
	for i := range args {
		t := rs.At(i).Type()
		switch {
		case w.isFile(t):
			args[i] = file
		case isErrorType(t):
			args[i] = err
		case isBool(t):
			args[i] = ok
		}
		if args[i] == nil {
			args[i] = ts.Zero(t)
		}
	}
	if len(args) == 1 {
		return args[0]
	}
	return ts.Mk("tuple", "", rs, args...)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// fileArg finds the argument of the event that is a file.
func (w *filesWorld) fileArg(e *flow.Event) *flow.Term {
	var sig *types.Signature
	if e.Callee != nil {
		sig = e.Callee.Signature
	}
	if sig == nil {
		return nil
	}
	n := 0
	if sig.Recv() != nil {
		if w.isFile(sig.Recv().Type()) && len(e.Args) > 0 {
			return e.Args[0]
		}
		n = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if w.isFile(sig.Params().At(i).Type()) && n+i < len(e.Args) {
			return e.Args[n+i]
		}
	}
	return nil
}

// isMethodOfFile reports a method with the file as its receiver.
func (w *filesWorld) isMethodOfFile(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && w.isFile(f.Signature.Recv().Type())
}

// touches reports instructions that call one of the given functions.
func callsAny(fs ...*ssa.Function) func(ssa.Instruction) bool {
	set := map[*ssa.Function]bool{}
	for _, f := range fs {
		if f != nil {
			set[f] = true
		}
	}
	return func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		return set[c.Common().StaticCallee()]
	}
}

// inCache reports whether the function is a method of the handle cache.
func (w *filesWorld) inCache(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	r := f.Signature.Recv()
	return r != nil && types.Identical(r.Type(), w.take.Signature.Recv().Type())
}

func (w *filesWorld) isPrim(f *ssa.Function) bool {
	return f == w.open || f == w.create || f == w.take || f == w.put || f == w.closeF
}

// exploreAll analyses every relevant function of the package: the API methods
// first, then whatever they did not reach.
func (w *filesWorld) exploreAll(rel map[*ssa.Function]bool, mk func(*ssa.Function) *flow.Interp) {
	seen := map[*ssa.Function]bool{}
	run := func(f *ssa.Function) {
		if f == nil || seen[f] || w.isPrim(f) {
			return
		}
		in := mk(f)
		if in == nil {
			return
		}
		w.c.Explore(in, f, nil, nil)
		for g := range in.Seen {
			seen[g] = true
		}
	}
	run(w.newMet)
	run(w.write)
	run(w.read)
	run(w.fchClose)
	rest := func(closures bool) {
		for _, f := range w.c.P.RepoFuncs() {
			if flow.PkgOf(f) == flow.RepoPath+"/"+filesPkg && rel[f] && (f.Parent() != nil) == closures && !w.inCache(f) {
				run(f)
			}
		}
	}
	rest(false)
	rest(true)
}

func freshErr(in *flow.Interp, s *flow.State, e *flow.Event, name string) *flow.Term {
	t := in.Fresh(s, e, name, types.Universe.Lookup("error").Type())
	s.Assume(in.TS.IsNil(t), false)
	return t
}

func regName(prefix string, n int) string { return fmt.Sprintf("%s%d", prefix, n) }
