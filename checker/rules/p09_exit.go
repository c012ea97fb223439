package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P09", Technique: "error-propagation dataflow through the commands, and typestate of the program's exit",
		Explain: "In the command package a failed call makes the function that made it return an error on every path, down to the function the program starts with, which then prints the error (unless it is one that was printed where it was made) and exits with a non-zero status; without an error it exits with zero.",
		Min:     10,
		Run:     runP09,
	})
}

func runP09(c *Ctx) {
	// the failures of what was started, and the ways to end without one
	c.Include("P01", func(key, where, msg string) bool {
		return key == "first" || key == "report" || strings.HasPrefix(key, "queue:")
	})
	c.Include("P02", func(key, where, msg string) bool {
		return key == "server" || key == "periodic" || strings.HasPrefix(key, "stopped:") || strings.HasPrefix(key, "signal:")
	})
	n := c.errorFlow(errOpt{
		scope: func(f *ssa.Function) bool { return flow.PkgOf(f) == flow.RepoPath && f.Name() != "Main" },
		ignore: func(n string) bool {
			return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || hasSuffixAny(n, ").Close", ".Close", ".Shutdown", "cli.ShowCommandHelp", "io.WriteString",
				".SetKeepAlive", ".SetKeepAlivePeriod")
		},
		okIf: func(callee string, t, failure *flow.Term) bool {
			// only serving yields this error
			if t.Op != "eq" || len(t.Args) != 2 {
				return false
			}
			a, b := t.Args[0], t.Args[1]
			if a != failure {
				a, b = b, a
			}
			return a == failure && strings.Contains(b.Name, "ErrServerClosed")
		},
	})
	if n < 15 {
		c.Fail("sites:few", "run.go", "only %d fallible calls were found in the commands", n)
	}
	p09main(c)
	p09handled(c)
}

// p09handled: an error that is marked as already printed was printed.
func p09handled(c *Ctx) {
	class := ""
	isMark := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && hasSuffixAny(calleeName(call.Common()), "errs.Class).New", "errs.Class).Wrap")
	}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		call, ok := i.(ssa.CallInstruction)
		if ok && flow.PkgOf(f) == flow.RepoPath && strings.HasSuffix(calleeName(call.Common()), "errs.Class).Has") && len(call.Common().Args) > 0 {
			if g, ok := call.Common().Args[0].(*ssa.Global); ok {
				class = g.Name()
			}
			if u, ok := call.Common().Args[0].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					class = g.Name()
				}
			}
		}
	})
	if class == "" {
		return // every error is printed at the end
	}
	rel := c.P.Relevant(isMark)
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		f := f
		if flow.PkgOf(f) != flow.RepoPath || !rel[f] || errResult(f.Signature) < 0 || len(f.Blocks) == 0 {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				direct = direct || isMark(i)
			}
		}
		if !direct {
			continue
		}
		key := "printed:" + fname(f)
		c.Oblige(key, c.P.Pos(f.Pos()), "an error marked as printed was printed by "+fname(f), true)
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return false }
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "call":
				if strings.HasPrefix(e.Name, "fmt.Print") || strings.HasPrefix(e.Name, "fmt.Fprint") {
					s.D["printed"] = "1"
				}
			case "exit":
				r := e.Args[len(e.Args)-1]
				marked := (r.Op == "newerr" || r.Op == "wrap") && termHas(r, func(x *flow.Term) bool {
					return x.Name == class || x.Op == "global" && strings.HasSuffix(x.Name, class) || strings.HasSuffix(x.Name, "."+class)
				})
				if marked {
					c.Count("errors marked as printed", 1)
				}
				if marked && s.D["printed"] == "" {
					in.ReportAt(s, key, e.Instr, "an error is marked as printed that was not printed")
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	if c.Counts["errors marked as printed"] == 0 {
		c.Fail("printed:none", "main.go", "no error marked as printed was found")
	}
}

func p09main(c *Ctx) {
	main := c.Fn("", "Main")
	if main == nil {
		return
	}
	ts := c.P.TS
	at := c.P.Pos(main.Pos())
	c.Oblige("exit:failure", at, "when a command fails the process prints the error and exits with a non-zero status", true)
	c.Oblige("exit:success", at, "when the command succeeds the process exits with status zero", true)
	in := flow.NewInterp(c.P, nil)
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "(*github.com/urfave/cli.App).Run":
				c.Count("command runs", 1)
				err := in.Fresh(s, e, "cmderr", e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type())
				in.Keep(err)
				e.Fork(
					flow.Alt{Result: ts.Nil(), Note: "the command succeeds", Do: func(s *flow.State) { s.D["ran"] = "ok" }},
					flow.Alt{Result: err, Note: "the command fails", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["ran"], s.R["err"] = "failed", err
					}})
			case strings.HasSuffix(e.Name, "errs.Class).Has"):
				e.Fork(
					flow.Alt{Result: ts.Bool(true), Note: "the error was printed where it was made", Do: func(s *flow.State) {
						s.D["printed"] = "1"
					}},
					flow.Alt{Result: ts.Bool(false), Note: "the error was not printed yet"})
			case strings.HasPrefix(e.Name, "fmt.Print") || strings.HasPrefix(e.Name, "fmt.Fprint") || strings.HasPrefix(e.Name, "log.Print"):
				if s.R["err"] != nil && logs(in, s, e, s.R["err"]) {
					s.D["printed"] = "1"
				}
			case e.Name == "os.Exit":
				e.Handled = true
				code, known := e.Args[0].IntVal()
				p09end(c, in, s, e, known && code == 0, known && code != 0)
				s.Kill()
			}
		case "exit":
			p09end(c, in, s, e, true, false)
		}
	}
	c.Explore(in, main, nil, nil)
	if c.Counts["command runs"] == 0 || c.Counts["process ends"] < 2 {
		c.Fail("exit:none", at, "the program's start does not run a command and then end")
	}
}

func p09end(c *Ctx, in *flow.Interp, s *flow.State, e *flow.Event, zero, nonzero bool) {
	c.Count("process ends", 1)
	switch s.D["ran"] {
	case "failed":
		if !nonzero {
			in.ReportAt(s, "exit:failure", e.Instr, "the process does not end with a non-zero status although the command failed")
		} else if s.D["printed"] == "" {
			in.ReportAt(s, "exit:failure", e.Instr, "the process ends without printing the error of the command")
		}
	case "ok":
		if !zero {
			in.ReportAt(s, "exit:success", e.Instr, "the process does not end with status zero although the command succeeded")
		}
	default:
		in.ReportAt(s, "exit:failure", e.Instr, "the process ends without running a command")
	}
}
