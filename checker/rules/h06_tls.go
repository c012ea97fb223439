package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "H06", Technique: "path-sensitive typestate over inlined SSA from the configuration to every call that serves HTTP",
		Explain: "On every path to a call that serves without TLS both the configured certificate and the configured key are known to be empty; every call that serves with TLS uses exactly the configured certificate and key.",
		Min:     2,
		Run:     runH06,
	})
}

// serves classifies calls that answer HTTP requests: "" is none of them.
func serves(name string) string {
	for _, p := range []string{"(*net/http.Server).", "net/http.", "net/http/fcgi."} {
		if strings.HasPrefix(name, p) {
			m := strings.TrimPrefix(name, p)
			switch m {
			case "Serve", "ListenAndServe":
				return "plain"
			case "ServeTLS", "ListenAndServeTLS":
				return "tls"
			}
		}
	}
	return ""
}

func runH06(c *Ctx) {
	pkg := c.P.ByPkg[flow.RepoPath+"/config"]
	if pkg == nil || pkg.Types == nil {
		c.Fail("anchor:config", "config", "the configuration package was not found")
		return
	}
	cfg, _ := pkg.Types.Scope().Lookup("Config").(*types.TypeName)
	if cfg == nil {
		c.Fail("anchor:config", "config", "the configuration type was not found")
		return
	}
	tlsFields := map[types.Object]string{}
	var dig func(t types.Type, under bool, depth int)
	dig = func(t types.Type, under bool, depth int) {
		if depth > 6 {
			return
		}
		for _, f := range fields(t) {
			in := under || strings.EqualFold(f.Name(), "tls")
			if b, ok := f.Type().Underlying().(*types.Basic); ok && in && b.Kind() == types.String {
				switch n := strings.ToLower(f.Name()); {
				case strings.Contains(n, "cert"):
					tlsFields[f] = "cert"
				case strings.Contains(n, "key"):
					tlsFields[f] = "key"
				}
			}
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				dig(f.Type(), in, depth+1)
			}
		}
	}
	dig(cfg.Type(), false, 0)
	if len(tlsFields) != 2 {
		c.Fail("anchor:tls", "config/config.go", "the configured certificate and key were not found")
		return
	}
	isServe := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		return ok && serves(calleeName(call.Common())) != ""
	}
	rel := c.P.Relevant(isServe)
	sites := map[ssa.Instruction]bool{}
	for _, f := range c.P.AllRepoFuncs() {
		if p := flow.PkgOf(f); p != flow.RepoPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if isServe(i) {
					sites[i] = false
				}
			}
		}
	}
	c.Oblige("plain", "run.go", "plain HTTP is served only when neither certificate nor key is configured", true)
	c.Oblige("tls", "run.go", "TLS is served with the configured certificate and key", true)
	callers := hasCallers(c.P, nil)
	for _, f := range sortFns(c.P.AllRepoFuncs()) {
		if flow.PkgOf(f) != flow.RepoPath || !rel[f] || callers[f] || len(f.Blocks) == 0 || f.Name() == "init" {
			continue
		}
		if p := f.Parent(); p != nil && p.Name() != "init" {
			continue
		}
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			return c.P.InRepo(g) && (rel[g] || flow.PkgOf(g) == flow.RepoPath || g.Signature.Recv() != nil && inPkg(g, "config"))
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "load":
				if e.Addr != nil && e.Addr.Op == "faddr" {
					if n := tlsFields[e.Addr.Obj]; n != "" {
						v := s.Load(e.Addr, types.Typ[types.String], "rule.tls."+n)
						if _, konst := v.StrVal(); !konst {
							s.R[n] = v
						}
					}
				}
			case "call":
				if strings.HasPrefix(e.Name, "crypto/tls.NewListener") || e.Name == "crypto/tls.Listen" {
					v := in.Fresh(s, e, "tlslistener", e.Instr.(ssa.CallInstruction).Common().Signature().Results())
					s.R["listener"], e.Result = v, v
					return
				}
				kind := serves(e.Name)
				if kind == "" {
					runCallbacks(in, s, e, rel)
					return
				}
				sites[e.Instr] = true
				if l := s.R["listener"]; l != nil {
					for _, a := range e.Args {
						if termHas(a, func(x *flow.Term) bool { return x == l }) {
							return
						}
					}
				}
				str := func(i int, n string) bool {
					return i >= 0 && s.R[n] != nil && (s.Same(e.Args[i], s.R[n]) || emptyStr(s, e.Args[i]) && emptyStr(s, s.R[n]))
				}
				if kind == "plain" {
					for _, n := range []string{"cert", "key"} {
						if s.R[n] == nil || !emptyStr(s, s.R[n]) {
							in.ReportAt(s, "plain", e.Instr, "plain HTTP is served although a TLS %s may be configured", n)
							s.Kill()
							return
						}
					}
					return
				}
				n := len(e.Args)
				ci, ki := n-2, n-1
				if strings.HasPrefix(e.Name, "net/http.ListenAndServeTLS") {
					ci, ki = 1, 2
				} else if strings.HasPrefix(e.Name, "net/http.ServeTLS") {
					ci, ki = 2, 3
				}
				if !str(ci, "cert") || !str(ki, "key") {
					in.ReportAt(s, "tls", e.Instr, "TLS is served with something else than the configured certificate and key")
					s.Kill()
				}
			}
		}
		c.Explore(in, f, nil, nil)
	}
	for i, seen := range sites {
		c.Count("serving calls", 1)
		if !seen {
			c.Fail("unseen:"+fname(i.Parent()), c.P.PosOf(i), "a call that serves HTTP was not reached from the configuration")
		}
	}
	if len(sites) == 0 {
		c.Fail("anchor:serve", "run.go", "no call that serves HTTP was found")
	}
}

// emptyStr reports that the text is known to be empty.
func emptyStr(s *flow.State, t *flow.Term) bool {
	ts := s.Interp().TS
	if x, ok := t.StrVal(); ok {
		return x == ""
	}
	return s.Must(ts.Eq(t, ts.Str(""), types.Typ[types.String])) || s.EqInt(s.Interp().Len(t), ts.Int(0))
}
