package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P10", Technique: "lock typestate over inlined SSA of every operation that locks, and cycle search in the order in which locks are taken together",
		Explain: "Every operation of the module that takes a lock is followed, with what it calls inlined, along all paths: it has released every lock when it ends, never takes a lock it holds, never releases one it does not hold, and takes several locks of one list in ascending order. While it holds a lock it does not send, receive or wait for goroutines. Locks that are held together are taken in an order without cycles over all operations.",
		Min:     8,
		Run:     runP10,
	})
}

// lockOp classifies calls on locks: +1 takes, -1 releases.
func lockOp(name string) int {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		return 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		return -1
	}
	return 0
}

// ssaLock names where the lock of an operation lives by the operand of the
// operation; it is empty if the operand was handed in.
func ssaLock(i ssa.Instruction) (class string, list bool) {
	call, ok := i.(ssa.CallInstruction)
	if !ok || call.Common().IsInvoke() || len(call.Common().Args) == 0 {
		return "", false
	}
	v := call.Common().Args[0]
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			n := strings.TrimPrefix(deref(x.X.Type()).String(), flow.RepoPath+"/")
			st, ok := deref(x.X.Type()).Underlying().(*types.Struct)
			if !ok {
				return "", false
			}
			return n + "." + st.Field(x.Field).Name(), list
		case *ssa.IndexAddr:
			list = true
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Global:
			return x.Name(), list
		default:
			return "", false
		}
	}
}

// lockClass names where a lock lives: a field of a type, an element of such a
// field, or a variable.
func lockClass(t *flow.Term) (class string, list bool) {
	for t != nil {
		switch t.Op {
		case "faddr":
			owner := ""
			if t.Obj != nil && t.Obj.Pkg() != nil {
				owner = strings.TrimPrefix(t.Obj.Pkg().Path(), flow.RepoPath+"/")
			}
			if v, ok := t.Obj.(*types.Var); ok {
				owner = fieldOwner(v, owner)
			}
			return owner + "." + t.Name, list
		case "iaddr":
			list = true
			t = t.Args[0]
		case "load", "conv", "iface":
			t = t.Args[0]
		case "sym":
			if i := strings.Index(t.Name, "ld:"); i >= 0 {
				return t.Name[i:], list
			}
			return t.Name, list
		default:
			return t.Name, list
		}
	}
	return "?", list
}

var owners = map[*types.Var]string{}

// fieldOwner is the name of the type a field belongs to.
func fieldOwner(v *types.Var, pkg string) string {
	if v.Pkg() == nil {
		return pkg
	}
	if o, ok := owners[v]; ok {
		return o
	}
	for _, n := range v.Pkg().Scope().Names() {
		tn, ok := v.Pkg().Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if st, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == v {
					owners[v] = pkg + "." + n
					return owners[v]
				}
			}
		}
	}
	owners[v] = pkg
	return pkg
}

func runP10(c *Ctx) {
	ts := c.P.TS
	isLock := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && lockOp(calleeName(call.Common())) != 0
	}
	rel := c.P.Relevant(isLock)
	waits := c.P.Relevant(func(i ssa.Instruction) bool {
		switch x := i.(type) {
		case *ssa.Send:
			return true
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			return x.Blocking
		case ssa.CallInstruction:
			return isWait(calleeName(x.Common()))
		}
		return false
	})
	// every lock operation of the source is followed
	sites := map[ssa.Instruction]bool{}
	for _, f := range c.P.RepoFuncs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if isLock(i) {
					sites[i] = false
				}
			}
		}
	}
	edges := map[string]map[string]string{}
	held := func(s *flow.State) []string {
		if s.D["held"] == "" {
			return nil
		}
		return strings.Split(s.D["held"], " ")
	}
	drop := func(s *flow.State, class string) {
		var rest []string
		for _, h := range held(s) {
			if h != class {
				rest = append(rest, h)
			}
		}
		s.D["held"] = strings.Join(rest, " ")
		if len(rest) == 0 {
			delete(s.D, "held")
		}
		delete(s.R, "lo:"+class)
		delete(s.R, "hi:"+class)
		delete(s.R, "a:"+class)
	}
	// settle forgets the lists of which nothing is held any more
	settle := func(s *flow.State, e *flow.Event) {
		for _, h := range held(s) {
			if lo, hi := s.R["lo:"+h], s.R["hi:"+h]; lo != nil && hi != nil && s.EqInt(lo, hi) {
				drop(s, h)
				s.D["done:"+h] = c.P.PosOf(e.Instr) // apart from the paths that took none
			}
		}
	}
	c.drive(rel, func(f *ssa.Function) bool { return true }, func(f *ssa.Function) *flow.Interp {
		key := "locks:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" releases what it locks, waits for nobody while it holds a lock, and locks nothing twice", true)
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return rel[g] }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "call":
				op := lockOp(e.Name)
				if op == 0 {
					if len(held(s)) > 0 && isWait(e.Name) {
						bad("%s is waited for while %s is locked", e.Name, s.D["held"])
						return
					}
					if len(held(s)) > 0 && e.Callee != nil && !rel[e.Callee] && waits[e.Callee] {
						if _, isGo := e.Instr.(*ssa.Go); !isGo {
							bad("%s waits while %s is locked", fname(e.Callee), s.D["held"])
							return
						}
					}
					runCallbacks(in, s, e, rel)
					return
				}
				e.Handled = true
				if _, ok := sites[e.Instr]; ok {
					sites[e.Instr] = true
				}
				addr := e.Args[0]
				class, list := ssaLock(e.Instr)
				if class == "" {
					class, list = lockClass(addr)
				}
				class = strings.ReplaceAll(class, " ", "_")
				var idx *flow.Term
				if list {
					for t := addr; t != nil; {
						if t.Op == "iaddr" {
							idx = t.Args[1]
							break
						}
						if len(t.Args) == 0 {
							break
						}
						t = t.Args[0]
					}
				}
				settle(s, e)
				hs := held(s)
				has := false
				for _, h := range hs {
					has = has || h == class
				}
				lo, hi := "lo:"+class, "hi:"+class
				if op > 0 {
					c.Count("lock operations on paths", 1)
					for _, h := range hs {
						if h == class {
							continue
						}
						if edges[h] == nil {
							edges[h] = map[string]string{}
						}
						if edges[h][class] == "" {
							edges[h][class] = c.P.PosOf(e.Instr) + " (" + fname(f) + ")"
						}
					}
					switch {
					case has && s.R["a:"+class] != nil && s.Same(addr, s.R["a:"+class]):
						bad("%s is locked while it is held: it waits for itself", class)
						return
					case has && idx == nil:
						bad("two locks of the kind %s are taken in no particular order", class)
						return
					case has && (s.R[hi] == nil || !s.EqInt(s.R[hi], idx)):
						bad("several of %s are not locked one after the other in ascending order", class)
						return
					case !has:
						delete(s.D, "done:"+class)
						s.D["held"] = strings.Join(append(hs, class), " ")
						if idx != nil {
							s.R[lo] = idx
						}
					}
					if idx != nil {
						s.R[hi] = ts.AddI(idx, 1)
					} else {
						s.R["a:"+class] = addr
					}
					return
				}
				if !has {
					bad("%s is released without being held", class)
					return
				}
				switch {
				case idx == nil:
					drop(s, class)
				case s.R[lo] != nil && s.EqInt(s.R[lo], idx):
					s.R[lo] = ts.AddI(idx, 1)
				case s.R[hi] != nil && s.EqInt(s.R[hi], ts.AddI(idx, 1)):
					s.R[hi] = idx
				default:
					bad("a lock of %s is released that is not known to be held", class)
					return
				}
				settle(s, e)
			case "send", "recv":
				if len(held(s)) > 0 && e.Instr != nil {
					if _, sel := e.Instr.(*ssa.Select); !sel {
						bad("a channel is waited for while %s is locked", s.D["held"])
					}
				}
			case "select":
				if sel, ok := e.Instr.(*ssa.Select); ok && sel.Blocking && len(held(s)) > 0 {
					bad("a channel is waited for while %s is locked", s.D["held"])
				}
			case "exit":
				c.Count("ends of operations", 1)
				settle(s, e)
				for _, h := range held(s) {
					// that a loop over a list releases as many as were taken is
					// counted exactly where the list is guarded (S11); here the
					// list counts as held if something of it surely is
					if lo, hi := s.R["lo:"+h], s.R["hi:"+h]; lo != nil && hi != nil && !s.Lt(lo, hi) {
						continue
					}
					bad("%s ends with %s locked", fname(f), h)
					return
				}
			}
		}
		return in
	})
	var missed []string
	for i, ok := range sites {
		if !ok {
			missed = append(missed, c.P.PosOf(i))
		}
	}
	sort.Strings(missed)
	for _, m := range missed {
		c.Fail("followed:"+m, m, "no path to this operation on a lock was followed")
	}
	// the order
	c.Oblige("order", "", "locks that are held together are taken in one order", true)
	var from []string
	for a := range edges {
		from = append(from, a)
	}
	sort.Strings(from)
	for _, a := range from {
		c.Count("locks held while another is taken", 1)
		seen := map[string]bool{}
		var path []string
		var walk func(x string) bool
		walk = func(x string) bool {
			var to []string
			for y := range edges[x] {
				to = append(to, y)
			}
			sort.Strings(to)
			for _, y := range to {
				path = append(path, y+" at "+edges[x][y])
				if y == a {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if walk(y) {
						return true
					}
				}
				path = path[:len(path)-1]
			}
			return false
		}
		if walk(a) {
			c.Fail("order:"+a, edges[a][firstKey(edges[a])], "locks are taken in a circle: while %s is held %s", a, strings.Join(path, ", while that is held "))
		}
	}
}

func firstKey(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return ""
	}
	return ks[0]
}

// isWait reports calls that wait for other goroutines.
func isWait(name string) bool {
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep":
		return true
	}
	return false
}
