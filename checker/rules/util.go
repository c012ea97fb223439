package rules

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// field finds a field of a struct type by name.
func field(t types.Type, name string) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

func fields(t types.Type) []*types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i))
	}
	return out
}

// inPkg reports whether the function (or the function it is nested in) lives
// in the module package with the relative path.
func inPkg(f *ssa.Function, rel string) bool {
	return flow.PkgOf(f) == flow.RepoPath+"/"+rel || rel == "" && flow.PkgOf(f) == flow.RepoPath
}

// hasCallers computes the functions called statically by other module code.
func hasCallers(p *flow.Program, within func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.AllRepoFuncs() {
		if within != nil && !within(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g != f {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

func sortFns(fs []*ssa.Function) []*ssa.Function {
	sort.Slice(fs, func(i, j int) bool {
		a, b := fs[i], fs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return fs
}

// eachInstr visits every instruction of the module's functions.
func eachInstr(p *flow.Program, f func(*ssa.Function, ssa.Instruction)) {
	for _, fn := range p.AllRepoFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				f(fn, i)
			}
		}
	}
}

// drive explores the relevant functions of the packages: first those nobody
// in the module calls statically, then any that were not reached.
func (c *Ctx) drive(rel map[*ssa.Function]bool, keep func(*ssa.Function) bool, mk func(*ssa.Function) *flow.Interp) {
	callers := hasCallers(c.P, nil)
	seen := map[*ssa.Function]bool{}
	run := func(f *ssa.Function) {
		if seen[f] {
			return
		}
		in := mk(f)
		if in == nil {
			return
		}
		c.Explore(in, f, nil, nil)
		for g := range in.Seen {
			seen[g] = true
		}
	}
	var fs []*ssa.Function
	for _, f := range c.P.RepoFuncs() {
		if rel[f] && keep(f) && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	sortFns(fs)
	inner := hasCallers(c.P, func(f *ssa.Function) bool { return rel[f] && keep(f) && f.Parent() == nil })
	for pass := 0; pass < 4; pass++ {
		for _, f := range fs {
			switch pass {
			case 0:
				if f.Parent() != nil || callers[f] {
					continue
				}
			case 1:
				if f.Parent() != nil || inner[f] {
					continue
				}
			case 2:
				if f.Parent() != nil {
					continue
				}
			}
			run(f)
		}
	}
}

func isCallTo(i ssa.Instruction, names ...string) bool {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := calleeName(c.Common())
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

// constStr is the constant string a value has, if any.
func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// termHas reports a subterm that satisfies the predicate.
func termHas(t *flow.Term, pred func(*flow.Term) bool) bool {
	hit := false
	if t == nil {
		return false
	}
	t.Walk(func(x *flow.Term) bool {
		if pred(x) {
			hit = true
		}
		return !hit
	})
	return hit
}

func hasSuffixAny(s string, xs ...string) bool {
	for _, x := range xs {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// repoPkgs lists the module's non-test packages.
func repoPkgs(p *flow.Program) []string {
	var out []string
	for path := range p.ByPkg {
		if path == flow.RepoPath || strings.HasPrefix(path, flow.RepoPath+"/") {
			out = append(out, path)
		}
	}
	sort.Strings(out)
	return out
}

// runCallbacks makes a call that is not followed run the relevant functions it
// is handed, each once or not at all.
func runCallbacks(in *flow.Interp, s *flow.State, e *flow.Event, rel map[*ssa.Function]bool) {
	if e.Kind != "call" || !e.Opaque {
		return
	}
	call, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return
	}
	var alts []flow.Alt
	for _, a := range e.Args {
		a := a
		for a.Op == "iface" || a.Op == "conv" {
			a = a.Args[0]
		}
		if (a.Op == "closure" || a.Op == "func") && a.Fn != nil && rel[a.Fn] {
			var args []*flow.Term
			for i, p := range a.Fn.Params {
				args = append(args, in.Fresh(s, e, "cb"+itoa(i), p.Type()))
			}
			alts = append(alts, flow.Alt{Note: "the function handed over is run", Enter: a, Args: args})
		}
	}
	if len(alts) == 0 {
		return
	}
	alts = append(alts, flow.Alt{})
	rs := call.Common().Signature().Results()
	if rs.Len() > 0 {
		var t *flow.Term
		if rs.Len() == 1 {
			t = in.Fresh(s, e, "cbres", rs.At(0).Type())
		} else {
			var xs []*flow.Term
			for i := 0; i < rs.Len(); i++ {
				xs = append(xs, in.Fresh(s, e, "cbres"+itoa(i), rs.At(i).Type()))
			}
			t = in.TS.Mk("tuple", "", rs, xs...)
		}
		for i := range alts {
			alts[i].Result = t
		}
	}
	e.Fork(alts...)
}

func itoa(i int) string { return strconv.Itoa(i) }
