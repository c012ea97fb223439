package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P11", Technique: "resource typestate over inlined SSA of every operation that acquires something, with a summary of what each started goroutine releases",
		Explain: "Every call that acquires a file, directory, mapping, listener, connection, timer, signal subscription or cancellable context is followed, with what is called inlined, along all paths of the operation: what was acquired is released, handed to the caller, kept in a structure, or taken over by a goroutine that releases it on all of its paths; and it is not acquired again while it is still owed.",
		Min:     10,
		Run:     runP11,
	})
}

const systemPkg = "database/files/internal/system"

// acquires says what a call acquires and which result holds it.
func acquires(i ssa.Instruction) (kind string, res int) {
	call, ok := i.(*ssa.Call)
	if !ok {
		return "", 0
	}
	n := calleeName(call.Common())
	switch n {
	case "os.Open", "os.OpenFile", "os.Create", "io/ioutil.TempFile", "os.CreateTemp":
		return "file", 0
	case "net.Listen", "net.ListenTCP", "(*net.ListenConfig).Listen", "crypto/tls.Listen":
		return "listener", 0
	case "(net.Listener).Accept", "(*net.TCPListener).Accept", "(*net.TCPListener).AcceptTCP", "net.Dial", "net.DialTimeout":
		return "connection", 0
	case "(net/http.FileSystem).Open":
		return "file", 0
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
		return "context", 1
	case "time.NewTicker":
		return "timer", 0
	case "os/signal.Notify":
		return "signals", -1
	case "syscall.Open":
		return "directory", 0
	case "syscall.Mmap":
		return "mapping", 0
	}
	if f := call.Common().StaticCallee(); f != nil && inPkg(f, systemPkg) && f.Signature.Results().Len() == 2 {
		switch f.Name() {
		case "Open":
			return "directory", 0
		case "Mmap":
			return "mapping", 0
		}
	}
	return "", 0
}

// gives says what kinds of things a call releases and which operand it is
// given (-2: the called value itself).
func gives(e *flow.Event) (kinds []string, arg int) {
	n := e.Name
	switch {
	case e.Callee != nil && inPkg(e.Callee, systemPkg) && e.Callee.Name() == "Close", n == "syscall.Close":
		return []string{"directory"}, 0
	case e.Callee != nil && inPkg(e.Callee, systemPkg) && e.Callee.Name() == "Munmap", n == "syscall.Munmap":
		return []string{"mapping"}, 0
	case strings.HasSuffix(n, ").Close"):
		return []string{"file", "listener", "connection"}, 0
	case n == "(*time.Ticker).Stop" || n == "(*time.Timer).Stop":
		return []string{"timer"}, 0
	case n == "os/signal.Stop":
		return []string{"signals"}, 0
	case n == "(*net/http.Server).Serve": // it closes what it accepts on
		return []string{"listener"}, 1
	case e.Callee == nil && e.FnVal != nil && e.FnVal.T != nil && isCancel(e.FnVal.T):
		return []string{"context"}, -2
	}
	return nil, 0
}

func isCancel(t types.Type) bool {
	sg, ok := t.Underlying().(*types.Signature)
	return ok && sg.Params().Len() == 0 && sg.Results().Len() == 0
}

// releasesSomething: a call that may release something, for choosing what is
// followed.
func releasesSomething(i ssa.Instruction) bool {
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := calleeName(call.Common())
	if f := call.Common().StaticCallee(); f != nil && inPkg(f, systemPkg) && (f.Name() == "Close" || f.Name() == "Munmap") {
		return true
	}
	if strings.HasSuffix(n, ").Close") || strings.HasSuffix(n, ").Stop") && strings.HasPrefix(n, "(*time.") || n == "os/signal.Stop" || n == "syscall.Close" || n == "syscall.Munmap" {
		return true
	}
	cm := call.Common()
	return !cm.IsInvoke() && cm.StaticCallee() == nil && isCancel(cm.Value.Type())
}

// nilTests say no about an error that is nil.
var nilTests = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.IsTimeout": true, "errors.Is": true, "errors.As": true,
	"errors.Unwrap": true, "github.com/zeebo/errs.Unwrap": true,
}

type p11 struct {
	c    *Ctx
	rel  map[*ssa.Function]bool
	done map[*ssa.Function]map[string]bool
}

// releasedBy are the kinds of things a goroutine releases on all of its paths.
func (p *p11) releasedBy(g *ssa.Function) map[string]bool {
	if m, ok := p.done[g]; ok {
		return m
	}
	p.done[g] = map[string]bool{}
	var all map[string]bool
	in := flow.NewInterp(p.c.P, nil)
	in.UseRelevance(p.rel)
	in.InlineCall = func(s *flow.State, f *ssa.Function, args []*flow.Term) bool { return p.rel[f] && !inPkg(f, systemPkg) }
	mark := func(s *flow.State, ks ...string) {
		for _, k := range ks {
			s.D["gave "+k] = "1"
		}
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			ks, _ := gives(e)
			mark(s, ks...)
			if len(ks) > 0 {
				e.Handled = true
			} else {
				runCallbacks(in, s, e, p.rel)
			}
		case "go":
			if e.Callee != nil {
				for k := range p.releasedBy(e.Callee) {
					mark(s, k)
				}
			}
		case "exit":
			here := map[string]bool{}
			for k := range s.D {
				if strings.HasPrefix(k, "gave ") && (all == nil || all[k[5:]]) {
					here[k[5:]] = true
				}
			}
			all = here
		}
	}
	in.Run(g, nil, nil)
	if len(in.Unknown) > 0 {
		all = nil
	}
	p.done[g] = all
	return all
}

func runP11(c *Ctx) {
	// the mappings behind the handles of the database
	c.Include("S06", func(key, where, msg string) bool { return true })
	ts := c.P.TS
	sites := map[ssa.Instruction]bool{}
	for _, f := range c.P.RepoFuncs() {
		if inPkg(f, systemPkg) {
			continue // the primitives themselves
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if k, _ := acquires(i); k != "" {
					sites[i] = false
				}
			}
		}
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		k, _ := acquires(i)
		return k != "" || releasesSomething(i)
	})
	p := &p11{c: c, rel: rel, done: map[*ssa.Function]map[string]bool{}}
	acq := c.P.Relevant(func(i ssa.Instruction) bool { _, ok := sites[i]; return ok })
	// operations that hand what they acquire to their caller
	owing := map[*ssa.Function]bool{}
	explore := func(f *ssa.Function) {
		key := "release:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), fname(f)+" releases or hands on what it acquires", true)
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return rel[g] && !inPkg(g, systemPkg) && (!acq[g] || owing[g] || g.Parent() != nil)
		}
		in.GoInline = func(s *flow.State, e *flow.Event) bool { return false }
		owed := func(s *flow.State) []string {
			var out []string
			for k, v := range s.R {
				if strings.HasPrefix(k, "res ") && v != nil {
					out = append(out, k)
				}
			}
			sort.Strings(out)
			return out
		}
		kindOf := func(k string) string { return strings.Split(k, " ")[1] }
		where := func(k string) string { return strings.SplitN(k, " ", 3)[2] }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			hand := func(v *flow.Term) {
				if v == nil {
					return
				}
				for _, k := range owed(s) {
					if s.Refers(v, s.R[k]) {
						delete(s.R, k)
					}
				}
			}
			switch e.Kind {
			case "call":
				if ks, n := gives(e); len(ks) > 0 {
					var x *flow.Term
					if n == -2 {
						x = e.FnVal
					} else if n < len(e.Args) {
						x = e.Args[n]
					}
					for _, k := range owed(s) {
						for _, kind := range ks {
							if x != nil && kindOf(k) == kind && s.Refers(x, s.R[k]) {
								delete(s.R, k)
								c.Count("releases on paths", 1)
							}
						}
					}
					return
				}
				if len(e.Args) > 0 && nilTests[e.Name] {
					if isNil, known := s.IsNil(e.Args[0]); known && isNil {
						e.Handled = true
						if e.Result = ts.Bool(false); strings.HasSuffix(e.Name, "Unwrap") {
							e.Result = ts.Nil()
						}
						return
					}
				}
				kind, n := acquires(e.Instr)
				if _, mine := sites[e.Instr]; kind == "" || !mine {
					// a function that is passed on can be called by whoever gets it
					if e.Callee == nil || !rel[e.Callee] {
						for _, a := range e.Args {
							for _, k := range owed(s) {
								if kindOf(k) == "context" && s.Refers(a, s.R[k]) {
									delete(s.R, k)
								}
							}
						}
					}
					runCallbacks(in, s, e, rel)
					return
				}
				sites[e.Instr] = true
				c.Count("acquisitions on paths", 1)
				k := "res " + kind + " " + c.P.PosOf(e.Instr)
				if s.R[k] != nil {
					in.ReportAt(s, key, e.Instr, "the %s is acquired again while the one from before is not released", kind)
					s.Kill()
					return
				}
				e.Handled = true
				if n < 0 {
					s.R[k] = e.Args[0]
					return
				}
				res := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
				at := func(i int) types.Type { return res.At(i).Type() }
				got := in.Fresh(s, e, kind, at(n))
				take := func(s *flow.State) {
					if kind != "directory" && kind != "mapping" {
						s.Assume(ts.IsNil(got), false)
					}
					s.R[k] = got
				}
				switch {
				case res.Len() == 1:
					e.Result = got
					take(s)
				case !isErrorType(at(res.Len() - 1)):
					parts := make([]*flow.Term, res.Len())
					for i := range parts {
						parts[i] = got
						if i != n {
							parts[i] = in.Fresh(s, e, fmt.Sprint("part", i), at(i))
						}
					}
					e.Result = ts.Mk("tuple", "", res, parts...)
					take(s)
				default:
					none := ts.Zero(at(0))
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", res, got, ts.Nil()), Note: "a " + kind + " is acquired", Do: take},
						flow.Alt{Result: ts.Mk("tuple", "", res, none, freshErr(in, s, e, "err")), Note: "no " + kind + " is acquired"},
					)
				}
			case "store":
				if !localTo(e.Addr) {
					hand(e.Val)
				}
			case "send", "mapset", "append":
				for _, a := range append([]*flow.Term{e.Val}, e.Args...) {
					hand(a)
				}
			case "go":
				if e.Callee == nil || len(e.Callee.Blocks) == 0 {
					return
				}
				gone := p.releasedBy(e.Callee)
				for _, k := range owed(s) {
					if !gone[kindOf(k)] {
						continue
					}
					has := e.FnVal != nil && s.Refers(e.FnVal, s.R[k])
					for _, a := range e.Args {
						has = has || s.Refers(a, s.R[k])
					}
					if has {
						delete(s.R, k)
						c.Count("taken over by goroutines", 1)
					}
				}
			case "ret":
				if e.Callee == nil || e.Opaque {
					return
				}
				for _, a := range e.Args {
					for _, k := range owed(s) {
						if kindOf(k) == "mapping" && keptIn(a.T) && s.Refers(a, s.R[k]) {
							delete(s.R, k)
						}
					}
				}
			case "exit":
				c.Count("ends of operations", 1)
				failed := false
				if n := len(e.Args); n > 1 && e.Args[n-1].T != nil && isErrorType(e.Args[n-1].T) || n > 1 && errResult(f.Signature) == n-1 {
					isNil, known := s.IsNil(e.Args[n-1])
					failed = known && !isNil
				}
				for _, k := range owed(s) {
					kept, part := false, false
					for _, a := range e.Args {
						if s.Refers(a, s.R[k]) {
							kept = true
							part = part || keptIn(a.T)
						}
					}
					if kept && !failed && !(kindOf(k) == "mapping" && part) {
						owing[f] = true
					}
					switch {
					case !kept:
						in.ReportAt(s, key, e.Instr, "the %s acquired at %s is not released", kindOf(k), where(k))
						s.Kill()
						return
					case failed:
						in.ReportAt(s, key, e.Instr, "the %s acquired at %s is not released although the operation failed", kindOf(k), where(k))
						s.Kill()
						return
					}
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	var todo []*ssa.Function
	for f := range funcsOf(sites) {
		todo = append(todo, f)
	}
	explored := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		before := len(owing)
		for _, f := range sortFns(todo) {
			explored[f] = true
			explore(f)
		}
		todo = nil
		if len(owing) == before {
			break
		}
		for _, f := range c.P.RepoFuncs() {
			if acq[f] && !inPkg(f, systemPkg) && callsOne(f, owing) {
				todo = append(todo, f)
			}
		}
	}
	var missed []string
	for i, ok := range sites {
		if !ok {
			missed = append(missed, c.P.PosOf(i))
		}
	}
	sort.Strings(missed)
	for _, m := range missed {
		c.Fail("followed:"+m, m, "no path to this acquisition was followed")
	}
}

// keptIn: a structure that keeps what it refers to.
func keptIn(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := deref(t).Underlying().(*types.Struct)
	return ok
}

// funcsOf are the functions the instructions are in.
func funcsOf(sites map[ssa.Instruction]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for i := range sites {
		out[i.Parent()] = true
	}
	return out
}

// callsOne: f itself calls one of the functions.
func callsOne(f *ssa.Function, fs map[*ssa.Function]bool) bool {
	found := false
	eachOf(f, func(i ssa.Instruction) {
		if call, ok := i.(ssa.CallInstruction); ok {
			found = found || fs[call.Common().StaticCallee()]
		}
	})
	return found
}

// localTo: an address in memory the operation made itself.
func localTo(a *flow.Term) bool {
	for a != nil {
		switch a.Op {
		case "faddr", "iaddr":
			a = a.Args[0]
		case "alloc", "make":
			return true
		default:
			return false
		}
	}
	return false
}
