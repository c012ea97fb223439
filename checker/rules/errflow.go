package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// errOpt says where errors have to be passed on.
type errOpt struct {
	scope  func(*ssa.Function) bool                        // the functions that pass errors on
	ignore func(callee string) bool                        // errors that may be dropped
	log    func(callee string) bool                        // errors that may be logged instead
	okIf   func(callee string, t, failure *flow.Term) bool // a condition that makes it no failure
	source func(callee string) bool                        // nil: every call with an error
	inline func(f *ssa.Function) bool                      // callees followed in addition to closures
}

// errResult is the index of the error among the results, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	switch sig.Results().At(n - 1).Type().String() {
	case "error", "syscall.Errno":
		return n - 1
	}
	return -1
}

// errUsed reports whether the error of a call goes anywhere.
func errUsed(call ssa.CallInstruction) bool {
	v, ok := call.(*ssa.Call)
	if !ok {
		return false // go, defer
	}
	n := v.Call.Signature().Results().Len()
	if n == 1 {
		return len(*v.Referrers()) > 0
	}
	for _, r := range *v.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok {
			return true // the whole tuple is passed on
		}
		if ex.Index == n-1 && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// errSite names the callee of a call that yields an error.
func errSite(i ssa.Instruction) (ssa.CallInstruction, string) {
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil, ""
	}
	c := call.Common()
	if _, ok := c.Value.(*ssa.Builtin); ok || errResult(c.Signature()) < 0 {
		return nil, ""
	}
	name := calleeName(c)
	if name == "" {
		name = "a callback"
	}
	if strings.HasPrefix(name, "(*github.com/zeebo/errs.Class)") || strings.HasPrefix(name, "(github.com/zeebo/errs.Class)") ||
		strings.HasPrefix(name, "github.com/zeebo/errs.") || name == "fmt.Errorf" || name == "errors.New" || name == "(context.Context).Err" || name == "context.Context.Err" {
		return nil, "" // makes errors
	}
	return call, name
}

// errorFlow checks that every failure a function meets makes it fail.
func (c *Ctx) errorFlow(opt errOpt) (sites int) {
	if opt.ignore == nil {
		opt.ignore = func(string) bool { return false }
	}
	ts := c.P.TS
	errT := types.Universe.Lookup("error").Type()
	var fs []*ssa.Function
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if opt.scope(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		f := f
		n := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, name := errSite(i)
				if call == nil || opt.ignore(name) || opt.source != nil && !opt.source(name) {
					continue
				}
				n++
				if !errUsed(call) {
					c.Fail("dropped:"+fname(f)+":"+short(name), c.P.PosOf(i), "the error of %s is dropped", short(name))
				}
			}
		}
		if n == 0 {
			continue
		}
		sites += n
		c.Count("fallible calls", n)
		key := "fails:" + fname(f)
		ri := errResult(f.Signature)
		if ri < 0 {
			c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" drops no error", true)
			continue
		}
		c.Oblige(key, c.P.Pos(f.Pos()), "every failure met by "+fname(f)+" makes it return an error", true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			if s.D["deep"] != "" && g.Parent() == nil && (opt.inline == nil || !opt.inline(g)) {
				return false
			}
			if opt.inline != nil && opt.inline(g) || g.Parent() == f {
				return true
			}
			if !c.P.InRepo(g) || !opt.scope(g) {
				return false
			}
			for _, a := range args {
				if a.Op == "closure" {
					return true
				}
			}
			return false
		}
		excused := func(s *flow.State) bool {
			okay := false
			if opt.okIf != nil && s.R["failure"] != nil {
				s.EachTrue(func(t *flow.Term) { okay = okay || opt.okIf(s.D["failed"], t, s.R["failure"]) })
			}
			return okay
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "call":
				if s.D["failed"] != "" && opt.log != nil && s.R["failure"] != nil && opt.log(s.D["failed"]) && isLog(e.Name) && logs(in, s, e, s.R["failure"]) {
					delete(s.D, "failed")
					delete(s.R, "failure")
					return
				}
				if s.D["failed"] != "" && e.Opaque && excused(s) {
					delete(s.D, "failed")
					delete(s.R, "failure")
				}
				if e.Defer || !e.Opaque || s.D["failed"] != "" {
					return
				}
				call, name := errSite(e.Instr)
				if call == nil || opt.ignore(name) || opt.source != nil && !opt.source(name) || !errUsed(call) {
					return
				}
				res := call.Common().Signature().Results()
				n := res.Len()
				mk := func(s *flow.State, err *flow.Term) *flow.Term {
					if n == 1 {
						return err
					}
					var xs []*flow.Term
					for k := 0; k < n-1; k++ {
						xs = append(xs, in.Fresh(s, e, "res", res.At(k).Type()))
					}
					return ts.Mk("tuple", "", res, append(xs, err)...)
				}
				et := res.At(n - 1).Type()
				if et.String() == "syscall.Errno" {
					no := in.Fresh(s, e, "errno", et)
					e.Fork(
						flow.Alt{Result: mk(s, ts.Int(0)), Note: short(name) + " succeeds"},
						flow.Alt{Result: mk(s, no), Note: short(name) + " fails", Do: func(s *flow.State) {
							s.Assume(ts.Eq(no, ts.Int(0), et), false)
							s.D["failed"], s.R["failure"] = name, no
						}})
					return
				}
				err := in.Fresh(s, e, "failure", errT)
				in.Keep(err)
				e.Fork(
					flow.Alt{Result: mk(s, ts.Nil()), Note: short(name) + " succeeds"},
					flow.Alt{Result: mk(s, err), Note: short(name) + " fails", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["failed"], s.R["failure"] = name, err
					}})
			case "exit":
				if s.D["failed"] == "" {
					return
				}
				c.Count("failing paths", 1)
				r := e.Args[ri]
				if isnil, known := s.IsNil(r); known && !isnil {
					return
				}
				if excused(s) {
					return
				}
				if r.Op == "const" && ri >= 0 && f.Signature.Results().At(ri).Type().String() == "syscall.Errno" {
					return
				}
				in.ReportAt(s, key, e.Instr, "%s succeeds although %s failed", f.Name(), short(s.D["failed"]))
			}
		}
		c.Explore(in, f, nil, nil)
	}
	return sites
}

func isLog(name string) bool {
	return strings.HasPrefix(name, flow.RepoPath+"/external.Error")
}

// logs reports a call that is given the failure, as it is or as text.
func logs(in *flow.Interp, s *flow.State, e *flow.Event, failure *flow.Term) bool {
	for _, a := range e.Args {
		if termHas(a, func(x *flow.Term) bool { return x == failure }) {
			return true
		}
		if a.T == nil {
			continue
		}
		sl, ok := a.T.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		for k := int64(0); k < 12; k++ {
			if !s.Lt(in.TS.Int(k), in.Len(a)) {
				break
			}
			v := in.ElemAt(s, a, k, sl.Elem())
			if termHas(v, func(x *flow.Term) bool { return x == failure }) {
				return true
			}
		}
	}
	return false
}
