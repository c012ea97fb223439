package rules

import (
	"go/types"
	"strings"

	"rothkocheck/flow"
)

// guard is the rule that some fields of a type are used only while the lock
// in the same value is held.
type guard struct {
	key    string // obligation
	what   string // "the registry"
	mu     map[*types.Var]bool
	fields map[*types.Var]bool
}

// newGuard finds the lock of a type; the guarded fields are those given.
func newGuard(key, what string, t types.Type, guarded func(*types.Var) bool) *guard {
	g := &guard{key: key, what: what, mu: map[*types.Var]bool{}, fields: map[*types.Var]bool{}}
	for _, f := range fields(t) {
		switch strings.TrimPrefix(f.Type().String(), "*") {
		case "sync.Mutex", "sync.RWMutex":
			g.mu[f] = true
			continue
		}
		if guarded(f) {
			g.fields[f] = true
		}
	}
	return g
}

// base is the value the address is in, if the address is in a guarded field.
func (g *guard) base(a *flow.Term) (*flow.Term, *types.Var) {
	for a != nil && len(a.Args) > 0 {
		if a.Op == "faddr" {
			if v, ok := a.Obj.(*types.Var); ok && g.fields[v] {
				return a.Args[0], v
			}
			a = a.Args[0]
			continue
		}
		if a.Op == "iaddr" {
			a = a.Args[0]
			continue
		}
		break
	}
	return nil, nil
}

func (g *guard) lockOf(a *flow.Term) *flow.Term {
	if a == nil {
		return nil
	}
	if a.Op == "faddr" {
		if v, ok := a.Obj.(*types.Var); ok && g.mu[v] {
			return a.Args[0]
		}
	}
	// a lock kept by pointer
	if (a.Op == "load" || a.Op == "sym") && a.Obj != nil {
		if v, ok := a.Obj.(*types.Var); ok && g.mu[v] {
			return a
		}
	}
	return nil
}

// hook follows the lock and checks the uses. It reports whether it took care
// of the event.
func (g *guard) hook(in *flow.Interp, s *flow.State, e *flow.Event) bool {
	bad := func(format string, a ...interface{}) {
		in.ReportAt(s, g.key, e.Instr, format, a...)
		s.Kill()
	}
	held := func(b *flow.Term, write bool) bool {
		mode := s.D["held:"+g.key]
		if mode == "" || write && mode == "r" {
			return false
		}
		return b == nil || s.R["held:"+g.key] != nil && s.Same(s.R["held:"+g.key], b)
	}
	use := func(a *flow.Term, write bool) bool {
		b, v := g.base(a)
		if b == nil || b.Op == "alloc" {
			return true // nobody else has it yet
		}
		if !held(b, write) {
			verb := "read"
			if write {
				verb = "changed"
			}
			bad("%s of %s is %s without holding its lock", v.Name(), g.what, verb)
			return false
		}
		return true
	}
	switch e.Kind {
	case "call":
		switch e.Name {
		case muLock, "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			b := g.lockOf(e.Args[0])
			if b == nil {
				return false
			}
			if s.D["held:"+g.key] != "" && s.Same(s.R["held:"+g.key], b) {
				bad("the lock of %s is taken while it is held", g.what)
				return true
			}
			s.D["held:"+g.key] = "w"
			if strings.HasSuffix(e.Name, "RLock") {
				s.D["held:"+g.key] = "r"
			}
			s.R["held:"+g.key] = b
			e.Handled = true
			// others may have changed what is guarded until now
			set := map[types.Object]bool{}
			for f := range g.fields {
				set[f] = true
			}
			s.HavocFields(set)
			return true
		case muUnlock, "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			b := g.lockOf(e.Args[0])
			if b == nil {
				return false
			}
			e.Handled = true
			if !held(b, false) || strings.HasSuffix(e.Name, "RUnlock") != (s.D["held:"+g.key] == "r") {
				bad("the lock of %s is given back although it is not held", g.what)
				return true
			}
			delete(s.D, "held:"+g.key)
			delete(s.R, "held:"+g.key)
			return true
		}
		for _, a := range e.Args {
			if b, _ := g.base(a); b != nil && e.Opaque && !use(a, true) {
				return true
			}
		}
	case "load":
		use(e.Addr, false)
	case "store":
		use(e.Addr, true)
	case "mapget", "next":
		if g.guardedMap(e.Typ) && !held(nil, false) {
			bad("a map of %s is read without holding its lock", g.what)
		}
	case "mapset", "mapdel":
		if g.guardedMap(e.Typ) && !held(nil, true) {
			bad("a map of %s is changed without holding its lock", g.what)
		}
	case "exit", "panicexit":
		if s.D["held:"+g.key] != "" {
			bad("the lock of %s is still held when the operation is over", g.what)
		}
	}
	return false
}

// guardedMap: the map is one of the guarded fields.
func (g *guard) guardedMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return false
	}
	for f := range g.fields {
		if types.Identical(f.Type(), t) {
			return true
		}
	}
	return false
}

// touches reports that the field address selects a guarded field or the lock.
func (g *guard) touches(v *types.Var) bool { return g.fields[v] || g.mu[v] }
