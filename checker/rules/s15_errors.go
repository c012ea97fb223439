package rules

import (
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S15", Technique: "error-propagation dataflow: every fallible call is followed with success and with failure to the function's exits",
		Explain: "In the storage layer and its system-call wrappers, a failed call (of the operating system, the encoding layer, another storage function or a callback) makes the function that made it return a non-nil error on every path; no error result is dropped. Closing, unmapping and removing are exempt, a damaged record met by a read may be logged and skipped, and a directory that vanished or is none is skipped when names are listed.",
		Min:     20,
		Run:     runS15,
	})
}

func runS15(c *Ctx) {
	n := c.errorFlow(errOpt{
		scope: func(f *ssa.Function) bool {
			p := flow.PkgOf(f)
			return p == flow.RepoPath+"/"+filesPkg || p == flow.RepoPath+"/"+filesPkg+"/internal/system"
		},
		ignore: func(n string) bool {
			return hasSuffixAny(n, ").Close", ".Close", "system.Munmap", "os.Remove", "strconv.ParseInt", "strconv.Atoi", "fmt.Fprintln", "fmt.Fprintf")
		},
		log: func(n string) bool {
			return strings.HasSuffix(n, ".Record") || strings.HasSuffix(n, ".PopulateMetrics")
		},
		okIf: func(callee string, t, failure *flow.Term) bool { return s15classified(c, callee, t, failure) },
	})
	if n < 30 {
		c.Fail("sites:few", filesPkg, "only %d fallible calls were found in the storage layer", n)
	}
}

// s15classified: the error says that there is nothing to list or to open yet,
// or that the caller gave up.
func s15classified(c *Ctx, callee string, t, failure *flow.Term) bool {
	about := func(x *flow.Term) bool { return termHas(x, func(y *flow.Term) bool { return y == failure }) }
	if t.Op == "pure" && t.Name == "os.IsNotExist" && about(t) {
		return c.via(callee, "os.Open")
	}
	if t.Op != "eq" || len(t.Args) != 2 {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	if !about(a) {
		a, b = b, a
	}
	if !about(a) {
		return false
	}
	if b.Op == "errconst" {
		return b.Name == "context.Canceled" && c.via(callee, "syscall.ReadDirent")
	}
	if b.Op == "iface" && len(b.Args) == 1 {
		b = b.Args[0]
	}
	no, ok := b.IntVal()
	switch {
	case !ok:
		return false
	case no == int64(syscall.ENOENT):
		return c.via(callee, "system.Open")
	case no == int64(syscall.ENOTDIR) || no == int64(syscall.EINVAL):
		return c.via(callee, "syscall.ReadDirent")
	}
	return false
}

// via reports that the callee is the named function or a function of the
// module that comes to call it.
func (c *Ctx) via(callee, target string) bool {
	if strings.HasSuffix(callee, target) {
		return true
	}
	for _, f := range c.P.AllRepoFuncs() {
		if f.String() != callee {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			if seen[g] {
				return false
			}
			seen[g] = true
			found := false
			eachOf(g, func(i ssa.Instruction) {
				call, ok := i.(ssa.CallInstruction)
				if !ok || found {
					return
				}
				if strings.HasSuffix(calleeName(call.Common()), target) {
					found = true
				} else if h := call.Common().StaticCallee(); h != nil && c.P.InRepo(h) {
					found = walk(h)
				}
			})
			return found
		}
		if walk(f) {
			return true
		}
	}
	return false
}
