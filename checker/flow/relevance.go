package flow

import (
	"golang.org/x/tools/go/ssa"
)

// Relevant computes the module functions that can reach an instruction the
// rule cares about: through static calls, closures they create, and functions
// they pass on.
func (p *Program) Relevant(isRel func(ssa.Instruction) bool) map[*ssa.Function]bool {
	rel := map[*ssa.Function]bool{}
	refs := map[*ssa.Function][]*ssa.Function{} // callee -> callers
	var todo []*ssa.Function
	for _, f := range p.AllRepoFuncs() {
		hit := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if !hit && isRel(ins) {
					hit = true
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						refs[g] = append(refs[g], f)
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range p.Implementations(c.Common()) {
						refs[g] = append(refs[g], f)
					}
				}
			}
		}
		if hit {
			rel[f] = true
			todo = append(todo, f)
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, g := range refs[f] {
			if !rel[g] {
				rel[g] = true
				todo = append(todo, g)
			}
		}
	}
	return rel
}

// AllRepoFuncs are all module functions with a body, wrappers included.
func (p *Program) AllRepoFuncs() []*ssa.Function {
	if p.allRepo == nil {
		for f := range p.all {
			if p.InRepo(f) && len(f.Blocks) > 0 {
				p.allRepo = append(p.allRepo, f)
			}
		}
	}
	return p.allRepo
}

// Implementations lists the module methods an interface call may reach.
func (p *Program) Implementations(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() || !p.repoPkg(c.Method.Pkg()) {
		return nil
	}
	if r, ok := p.impls[c.Method]; ok {
		return r
	}
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil || f.Name() != c.Method.Name() {
			continue
		}
		m := p.SSA.LookupMethod(f.Signature.Recv().Type(), c.Method.Pkg(), c.Method.Name())
		if m == f && implements(f.Signature.Recv().Type(), c.Value.Type()) {
			out = append(out, f)
		}
	}
	if p.impls == nil {
		p.impls = map[interface{}][]*ssa.Function{}
	}
	p.impls[c.Method] = out
	return out
}

// UseRelevance inlines exactly the relevant functions, and functions that are
// handed a relevant closure.
func (in *Interp) UseRelevance(rel map[*ssa.Function]bool) {
	in.InlineCall = func(s *State, fn *ssa.Function, args []*Term) bool {
		if !in.Prog.DefaultInline(fn) {
			return false
		}
		if rel[fn] {
			return true
		}
		for _, a := range args {
			if s.holdsRelevant(a, rel, 0) {
				return true
			}
		}
		return false
	}
}

func (s *State) holdsRelevant(a *Term, rel map[*ssa.Function]bool, depth int) bool {
	if a == nil || depth > 3 {
		return false
	}
	hit := false
	a.Walk(func(t *Term) bool {
		if (t.Op == "closure" || t.Op == "func") && rel[t.Fn] {
			hit = true
		}
		return !hit
	})
	return hit
}
