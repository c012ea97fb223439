package rules

import (
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P08", Technique: "typestate of the created file over inlined SSA, and a call-site rule for every file the commands write",
		Explain: "The commands open files for writing only with exclusive creation, and nothing renames, truncates or removes files; the file is opened, written with the whole sample configuration and closed before success is reported, and when it cannot be created the command fails without having written anything.",
		Min:     3,
		Run:     runP08,
	})
}

// openFlags are how a call opens a file, and whether the call can change one.
func writesFile(name string) bool {
	switch name {
	case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.Link", "os.Symlink", "(*os.File).Truncate":
		return true
	}
	return false
}

func runP08(c *Ctx) {
	ts := c.P.TS
	isOp := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && writesFile(calleeName(call.Common()))
	}
	// the commands, and what they are made of, but not the storage layer
	scope := func(f *ssa.Function) bool {
		p := flow.PkgOf(f)
		return p == flow.RepoPath || strings.HasPrefix(p, flow.RepoPath+"/config")
	}
	sites := 0
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if !scope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if isOp(i) {
					sites++
				}
			}
		}
	}
	c.Count("file creating calls", sites)
	if sites == 0 {
		c.Fail("anchor:create", "init.go", "no command creates a file")
		return
	}
	rel := map[*ssa.Function]bool{}
	for f := range c.P.Relevant(func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return isOp(i) || ok && strings.HasPrefix(calleeName(call.Common()), "(*os.File).")
	}) {
		if scope(f) {
			rel[f] = true
		}
	}
	c.Oblige("exclusive", "init.go", "a file is created only if it did not exist, in one step", true)
	c.Oblige("content", "init.go", "success is reported only when the whole sample configuration is in the created file", true)
	c.Oblige("refused", "init.go", "a command that cannot create the file fails and writes nothing", true)
	c.drive(rel, scope, func(root *ssa.Function) *flow.Interp {
		if errResult(root.Signature) < 0 && root.Parent() == nil && len(root.Params) == 0 {
			return nil
		}
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(key, format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "call":
				call, _ := e.Instr.(ssa.CallInstruction)
				switch {
				case e.Name == "os.OpenFile":
					fl, ok := e.Args[1].IntVal()
					if !ok {
						bad("exclusive", "a file is opened in a way that is not known")
						return
					}
					if fl&int64(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
						return // only read
					}
					if fl&int64(os.O_EXCL) == 0 || fl&int64(os.O_CREATE) == 0 {
						bad("exclusive", "a file is opened for writing although it may exist already")
						return
					}
					if fl&int64(os.O_WRONLY|os.O_RDWR) == 0 {
						bad("content", "the created file is not open for writing")
						return
					}
					res := call.Common().Signature().Results()
					fh := in.Fresh(s, e, "file", res.At(0).Type())
					err := in.Fresh(s, e, "err", res.At(1).Type())
					e.Fork(
						flow.Alt{Result: ts.Mk("tuple", "", res, fh, ts.Nil()), Note: "the file is created", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(fh), false)
							s.D["file"], s.R["file"] = "open", fh
						}},
						flow.Alt{Result: ts.Mk("tuple", "", res, ts.Nil(), err), Note: "the file exists already, or cannot be created", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["file"] = "failed"
						}})
				case writesFile(e.Name):
					bad("exclusive", "%s may change a file that exists already", short(e.Name))
				case s.R["file"] != nil && len(e.Args) > 0 && s.Same(e.Args[0], s.R["file"]) && strings.HasPrefix(e.Name, "(*os.File)."):
					res := call.Common().Signature().Results()
					if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
						return
					}
					what := strings.TrimPrefix(e.Name, "(*os.File).")
					var ok, fail *flow.Term
					err := in.Fresh(s, e, "err", res.At(res.Len()-1).Type())
					if res.Len() == 1 {
						ok, fail = ts.Nil(), err
					} else {
						n := in.Fresh(s, e, "n", res.At(0).Type())
						ok, fail = ts.Mk("tuple", "", res, n, ts.Nil()), ts.Mk("tuple", "", res, n, err)
					}
					arg := e.Args
					e.Fork(
						flow.Alt{Result: ok, Note: what + " succeeds", Do: func(s *flow.State) {
							switch what {
							case "WriteString", "Write":
								if s.D["file"] == "open" && len(arg) > 1 && isSample(c, arg[1]) {
									s.D["file"] = "written"
								} else {
									s.D["file"] = "garbled"
								}
							case "Close":
								if s.D["file"] == "written" {
									s.D["file"] = "closed"
								}
							}
						}},
						flow.Alt{Result: fail, Note: what + " fails", Do: func(s *flow.State) {
							s.Assume(ts.IsNil(err), false)
							s.D["bad"] = what
						}})
				}
			case "exit":
				if s.D["file"] == "" || len(e.Args) == 0 {
					return
				}
				c.Count("file creating paths", 1)
				r := e.Args[len(e.Args)-1]
				isnil, known := s.IsNil(r)
				failed := known && !isnil
				switch {
				case s.D["file"] == "failed" && !failed:
					bad("refused", "the command succeeds although the file could not be created")
				case s.D["bad"] != "" && !failed:
					bad("content", "the command succeeds although %s of the created file failed", s.D["bad"])
				case s.D["file"] != "failed" && s.D["file"] != "closed" && s.D["bad"] == "" && !failed:
					bad("content", "the command succeeds although the sample configuration is not completely in the file")
				}
			}
		}
		return in
	})
	if c.Counts["file creating paths"] < 2 {
		c.Fail("anchor:paths", "init.go", "no complete path that creates a file was found")
	}
}

// isSample reports the value of the sample configuration, as text or bytes.
func isSample(c *Ctx, t *flow.Term) bool {
	want := ""
	if p := c.P.ByPkg[flow.RepoPath+"/config"]; p != nil && p.Types != nil {
		if k, ok := p.Types.Scope().Lookup("InitialConfig").(*types.Const); ok && k.Val().Kind() == constant.String {
			want = constant.StringVal(k.Val())
		}
	}
	hit := false
	termHas(t, func(x *flow.Term) bool {
		if str, ok := x.StrVal(); ok && want != "" && str == want {
			hit = true
		}
		if x.Op == "global" && strings.HasSuffix(x.Name, "InitialConfig") {
			hit = true
		}
		return hit
	})
	return hit && t.Op != "slice"
}
