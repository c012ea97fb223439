package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S08", Technique: "memory-sharing (value-flow) analysis over SSA from every buffer that is only lent to where it could be kept; path-sensitive typestate of pooled buffers",
		Explain: "Memory that a function is only lent (byte arguments of the database's and the writer's methods, bytes and records handed to callbacks, lines of a scanner) is followed through variables, closures, calls and results; only copies end it. None of it is sent, stored in an object, map or variable that outlives the call, put in a pool or handed to a goroutine. No path uses a buffer after putting it back in its pool, puts it back twice, or puts back what it sent to somebody else.",
		Assume:  []string{"libraries keep what they are handed only if they are collections, pools or atomics", "the dist implementations are followed like all other code"},
		Min:     8,
		Run:     runS08,
	})
}

func isRecord(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "Record" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == flow.RepoPath+"/"+dataPkg
}

func runS08(c *Ctx) {
	base := newVflow(c, true)
	entries, bufs := 0, 0
	check := func(key, at, what string, home *ssa.Function, src func(v *vflow)) {
		v := newVflow(c, true)
		v.entry[home] = true
		v.home = home
		c.Oblige(key, at, what, true)
		done := map[ssa.Instruction]bool{}
		v.keep = func(i ssa.Instruction, how string, from interface{}) {
			if done[i] {
				return
			}
			done[i] = true
			c.Obl[key].OK = false
			c.Violate(Violation{Key: key, Where: c.P.PosOf(i), Msg: "lent memory is kept: " + how, Trace: v.path(from)})
		}
		v.stop = func(f *ssa.Function) bool { return inPkg(f, "external") }
		src(v)
		v.run()
		for f := range v.reached {
			c.Funcs[f.String()] = true
		}
		c.Funcs[home.String()] = true
		entries++
	}
	for _, f := range base.fns {
		if f.Synthetic != "" || strings.HasSuffix(strings.SplitN(c.P.Pos(f.Pos()), ":", 2)[0], ".pb.go") {
			continue
		}
		f := f
		api := false
		if rt := recvType(f); rt != nil && f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			if n, ok := deref(rt).(*types.Named); ok && n.Obj().Exported() {
				api = inPkg(f, filesPkg) || inPkg(f, dataPkg) || inPkg(f, "dump") || inPkg(f, "database")
			}
		}
		cb := f.Parent() != nil && !inPkg(f, filesPkg)
		for k, p := range f.Params {
			if !(api && isBytes(p.Type()) || cb && (isBytes(p.Type()) || isRecord(p.Type()))) {
				continue
			}
			if api && k == 0 {
				continue
			}
			p := p
			check("lent:"+fname(f)+":"+p.Name(), c.P.Pos(f.Pos()), "the argument is not kept", f, func(v *vflow) {
				v.source(p, c.P.Pos(p.Pos())+": lent to "+fname(f))
			})
		}
		instrsOf(f, func(i ssa.Instruction) {
			call, ok := i.(*ssa.Call)
			if !ok {
				return
			}
			switch n := calleeName(&call.Call); n {
			case "(*bufio.Scanner).Bytes", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine", "(*bufio.Reader).Peek":
				bufs++
				check("line:"+fname(f), c.P.PosOf(i), "what was read is not kept", f, func(v *vflow) {
					if call.Call.Signature().Results().Len() > 1 {
						v.source(vpart{call, 0}, c.P.PosOf(i)+": the buffer of the reader")
						return
					}
					v.source(call, c.P.PosOf(i)+": the buffer of the reader")
				})
			}
		})
	}
	c.Count("lent arguments and buffers", entries)
	if c.Fn(filesPkg, "newMetric") == nil {
		return
	}
	q := false
	for k := range c.Obl {
		q = q || strings.HasPrefix(k, "lent:(*database/files.DB).Queue:")
	}
	if !q {
		c.Fail("anchor:queue", filesPkg, "the bytes that are queued were not found")
	}

	// pooled buffers
	rel := c.P.Relevant(func(i ssa.Instruction) bool { return isCallTo(i, "(*sync.Pool).Put", "(*sync.Pool).Get") })
	puts := 0
	c.drive(rel, func(f *ssa.Function) bool { return true }, func(f *ssa.Function) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			key := "pool:" + fname(f)
			uses := func(t *flow.Term) bool {
				put := s.R["put"]
				return put != nil && t != nil && holdsTerm(t, put)
			}
			switch e.Kind {
			case "call", "defer", "go":
				if e.Name == "(*sync.Pool).Put" && e.Kind == "call" {
					puts++
					c.Oblige(key, c.P.PosOf(e.Instr), "a pooled buffer is not used after it was put back", true)
					t := e.Args[1]
					for t.Op == "iface" || t.Op == "conv" || t.Op == "slice" {
						t = t.Args[0]
					}
					if t.Op == "const" || t.Op == "nil" {
						return
					}
					if uses(t) {
						in.ReportAt(s, key, e.Instr, "a buffer is put back twice")
						s.Kill()
						return
					}
					if sent := s.R["sent"]; sent != nil && holdsTerm(sent, t) {
						in.ReportAt(s, key, e.Instr, "a buffer is put back although it was sent to somebody else")
						s.Kill()
						return
					}
					s.R["put"] = t
					return
				}
				if e.Name == "(*sync.Pool).Get" {
					delete(s.R, "put")
					delete(s.R, "sent")
					return
				}
				if s.R["put"] == nil {
					return
				}
				for _, a := range e.Args {
					if uses(a) || logs(in, s, e, s.R["put"]) {
						in.ReportAt(s, key, e.Instr, "a buffer is used after it was put back")
						s.Kill()
						return
					}
				}
			case "send":
				if uses(e.Val) {
					in.ReportAt(s, key, e.Instr, "a buffer is sent after it was put back")
					s.Kill()
					return
				}
				if e.Val != nil {
					s.R["sent"] = e.Val
				}
			case "copy", "append":
				for _, a := range e.Args {
					if uses(a) {
						in.ReportAt(s, key, e.Instr, "a buffer is used after it was put back")
						s.Kill()
						return
					}
				}
			case "recv", "next":
				delete(s.R, "put")
				delete(s.R, "sent")
			}
		}
		return in
	})
	c.Count("buffers put back", puts)
}

// holdsTerm reports that a value contains another, or the struct it is part
// of as a whole.
func holdsTerm(t, x *flow.Term) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	if x.Op == "field" {
		if t == x.Args[0] {
			return true
		}
		if t.Op == "field" && t.Args[0] == x.Args[0] {
			return false
		}
	}
	for _, a := range t.Args {
		if holdsTerm(a, x) {
			return true
		}
	}
	return false
}
