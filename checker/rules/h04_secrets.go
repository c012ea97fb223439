package rules

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "H04", Technique: "whole-module value-flow (taint) analysis over SSA from the configured secrets and the credentials of requests to everything that leaves the process; path-sensitive dataflow for redaction",
		Explain: "Nothing computed from a configured password, a TLS key setting, the configuration's text or the credentials of a request is an argument of a call that logs, makes an error, answers a request or leaves the module otherwise than to be compared, hashed or used as a key. A value of a type that contains a secret is formatted, logged or encoded into an answer only where every secret in it is known to be overwritten.",
		Assume:  []string{"libraries outside of the module do not log what they are handed", "errors of libraries do not repeat the secrets they were handed"},
		Min:     6,
		Run:     runH04,
	})
}

// secretField recognises the settings that are secrets.
func secretField(st *types.Struct, i int) bool {
	f := st.Field(i)
	if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		if !isBytes(f.Type()) {
			return false
		}
	}
	name := strings.ToLower(f.Name())
	if tag := reflect.StructTag(st.Tag(i)).Get("toml"); tag != "" {
		name = strings.ToLower(strings.Split(tag, ",")[0])
	}
	switch {
	case strings.Contains(name, "password"), strings.Contains(name, "passwd"), strings.Contains(name, "secret"):
		return true
	case name == "key" || strings.HasSuffix(name, "privatekey"):
		for k := 0; k < st.NumFields(); k++ {
			if strings.HasPrefix(strings.ToLower(st.Field(k).Name()), "cert") {
				return true
			}
		}
	}
	return false
}

// secretOK are the calls outside of the module that may be handed a secret.
func secretOK(name string) bool {
	for _, p := range []string{
		"crypto/", "(*crypto/", "golang.org/x/crypto/",
		"net/http.ListenAndServeTLS", "(*net/http.Server).ServeTLS", "(*net/http.Server).ListenAndServeTLS", "net/http.ServeTLS",
		"(*net/http.Request).SetBasicAuth",
		"io/ioutil.ReadFile", "os.ReadFile", "os.Open", "os.Stat", "os.Lstat",
		"github.com/BurntSushi/toml.Unmarshal", "github.com/BurntSushi/toml.Decode",
		"sync.", "(*sync.", "(*sync/atomic.", "sync/atomic.", "builtin.",
		"os.Getenv", "context.WithValue",
	} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// leaves are the calls that format or hand out whatever they are given.
func leaves(name string, c *ssa.CallCommon) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	for _, p := range []string{"fmt.", "log.", "log/", "errors.", "github.com/zeebo/errs.", "go.uber.org/zap", "io.WriteString", "encoding/json.", "encoding/xml.", "encoding/gob.", "text/template.", "html/template.", "net/http.Error"} {
		if strings.HasPrefix(n, p) {
			return !strings.HasSuffix(n, "nmarshal") && !strings.HasSuffix(n, ".Decode") && !strings.HasPrefix(n, "fmt.Sscan") && !strings.HasPrefix(n, "fmt.Fscan")
		}
	}
	return false
}

func runH04(c *Ctx) {
	ts := c.P.TS
	v := newVflow(c, false)
	isLog := func(f *ssa.Function) bool {
		return inPkg(f, "external") && f.Signature.Variadic()
	}
	v.stop = isLog

	// the secrets
	seen := map[types.Type]bool{}
	secrets := 0
	pw, key := false, false
	var dig func(t types.Type)
	dig = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			dig(u.Elem())
		case *types.Slice:
			dig(u.Elem())
		case *types.Map:
			dig(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if f.Pkg() == nil || f.Pkg().Path() != flow.RepoPath && !strings.HasPrefix(f.Pkg().Path(), flow.RepoPath+"/") {
					continue
				}
				if secretField(u, i) {
					if !v.has(f) {
						secrets++
					}
					v.source(f, c.P.Pos(f.Pos())+": the setting "+f.Name())
					if strings.HasPrefix(strings.ToLower(f.Name()), "p") {
						pw = true
					} else {
						key = true
					}
				}
				dig(f.Type())
			}
		}
	}
	for _, f := range v.fns {
		instrsOf(f, func(i ssa.Instruction) {
			if x, ok := i.(ssa.Value); ok {
				dig(x.Type())
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			call := ci.Common()
			name := calleeName(call)
			pos := c.P.PosOf(i)
			switch {
			case name == "(*net/http.Request).BasicAuth":
				if r, ok := i.(*ssa.Call); ok {
					v.source(vpart{r, 1}, pos+": the password of the request")
					secrets++
				}
			case name == "(net/http.Header).Get" && len(call.Args) == 2:
				if s, ok := constStr(call.Args[1]); ok && strings.EqualFold(s, "Authorization") {
					if r, ok := i.(*ssa.Call); ok {
						v.source(r, pos+": the credentials of the request")
						secrets++
					}
				}
			case strings.HasPrefix(name, "github.com/BurntSushi/toml.Unmarshal"), name == "github.com/BurntSushi/toml.Decode":
				// the text of the configuration
				v.source(call.Args[0], pos+": the text of the configuration")
				secrets++
				p, ok := call.Args[0].(*ssa.Parameter)
				if !ok {
					return
				}
				for _, g := range v.fns {
					instrsOf(g, func(j ssa.Instruction) {
						cj, ok := j.(ssa.CallInstruction)
						if !ok || cj.Common().StaticCallee() != p.Parent() {
							return
						}
						for k, q := range p.Parent().Params {
							if q == p {
								switch a := cj.Common().Args[k].(type) {
								case *ssa.Call, *ssa.Extract, *ssa.Parameter, *ssa.Phi:
									v.source(a, c.P.PosOf(j)+": the text of the configuration")
								}
							}
						}
					})
				}
			}
		})
	}
	if pkg := c.P.ByPkg[flow.RepoPath+"/config"]; pkg != nil && pkg.Types != nil {
		for _, n := range pkg.Types.Scope().Names() {
			if tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName); ok {
				dig(tn.Type())
			}
		}
	}
	if !pw || !key {
		c.Fail("anchor:secrets", "config", "the settings that are secrets were not found")
		return
	}
	v.run()
	c.Count("secrets", secrets)
	c.Count("values that carry a secret", len(v.why))
	for f := range v.reached {
		c.Funcs[f.String()] = true
	}

	// types that contain a secret
	bearing := map[types.Type]int{}
	var bears func(t types.Type) bool
	bears = func(t types.Type) bool {
		if b, ok := bearing[t]; ok {
			return b == 1
		}
		bearing[t] = 0
		r := false
		switch t.String() {
		case "net/http.Request", "net/http.Header":
			r = true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			r = r || bears(u.Elem())
		case *types.Slice:
			r = r || bears(u.Elem())
		case *types.Array:
			r = r || bears(u.Elem())
		case *types.Map:
			r = r || bears(u.Elem()) || bears(u.Key())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if v.has(u.Field(i)) || bears(u.Field(i).Type()) {
					r = true
				}
			}
		}
		bearing[t] = 0
		if r {
			bearing[t] = 1
		}
		return r
	}

	// values that carry a secret
	for _, f := range v.fns {
		if isLog(f) {
			continue
		}
		instrsOf(f, func(i ssa.Instruction) {
			if p, ok := i.(*ssa.Panic); ok && v.has(p.X) {
				c.Violate(Violation{Key: "panic:" + fname(f), Where: c.P.PosOf(i), Msg: "a secret is the value of a panic", Trace: v.path(p.X)})
				return
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			call := ci.Common()
			name := calleeName(call)
			if _, ok := call.Value.(*ssa.Builtin); ok {
				return
			}
			fs, _ := v.callees(call)
			out := len(fs) == 0
			for _, g := range fs {
				out = out || isLog(g)
			}
			if !out || name == "dyn" && len(fs) > 0 {
				return
			}
			if secretOK(name) {
				return
			}
			n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
			if carriesContent(name) && !strings.HasPrefix(n, "io.WriteString") && !strings.HasPrefix(n, "encoding/json.") {
				return
			}
			if strings.HasPrefix(n, "encoding/json.Marshal") {
				return // followed into its result
			}
			if strings.HasPrefix(n, "hash.") {
				return
			}
			key := "leaves:" + fname(f) + ":" + short(name)
			var hit ssa.Value
			for _, a := range call.Args {
				if v.has(a) {
					hit = a
				}
			}
			if hit == nil {
				if leaves(name, call) || name != "dyn" && !v.p.InRepo(f) {
					c.Oblige(key, c.P.PosOf(i), "no secret leaves through "+short(name), true)
				} else if len(fs) > 0 {
					c.Oblige(key, c.P.PosOf(i), "no secret is logged", true)
				}
				return
			}
			c.Oblige(key, c.P.PosOf(i), "no secret leaves through "+short(name), true)
			c.Obl[key].OK = false
			c.Violate(Violation{Key: key, Where: c.P.PosOf(i), Msg: "a secret is handed to " + short(name), Trace: v.path(hit)})
		})
	}

	// values of types that contain a secret
	outCall := func(call *ssa.CallCommon) (string, bool) {
		name := calleeName(call)
		if g := call.StaticCallee(); g != nil && isLog(g) {
			return name, true
		}
		if call.IsInvoke() && call.Method.Pkg() != nil && call.Method.Pkg().Path() == flow.RepoPath+"/external" {
			return name, true
		}
		return name, leaves(name, call)
	}
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		if m, ok := i.(*ssa.MakeInterface); ok {
			return bears(m.X.Type())
		}
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		_, out := outCall(ci.Common())
		if !out {
			return false
		}
		// something whose type is not known here
		for _, a := range ci.Common().Args {
			if sl, ok := a.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, st := range *ia.Referrers() {
								if s, ok := st.(*ssa.Store); ok && s.Addr == ia {
									if isEmptyIface(s.Val.Type()) && !madeHere(s.Val) {
										return true
									}
								}
							}
						}
					}
				}
			} else if isEmptyIface(a.Type()) {
				if !madeHere(a) {
					return true
				}
			}
		}
		return false
	})
	checked := 0
	c.Oblige("redacted", "", "what is logged, formatted or answered has every secret in it overwritten", true)
	c.drive(rel, func(f *ssa.Function) bool {
		return !inPkg(f, "external") && !strings.HasSuffix(c.P.Pos(f.Pos()), ".pb.go")
	}, func(f *ssa.Function) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
			if inPkg(g, "external") || !c.P.DefaultInline(g) {
				return false
			}
			if rel[g] {
				return true
			}
			for k := 0; k < g.Signature.Results().Len(); k++ {
				t := g.Signature.Results().At(k).Type()
				if _, ok := t.Underlying().(*types.Struct); ok && bears(t) {
					return true
				}
			}
			for _, p := range g.Params {
				if isPtr(p.Type()) && bears(p.Type()) && !c.P.HasLoop(g) && len(g.Blocks) < 12 && strings.HasPrefix(flow.PkgOf(g), flow.RepoPath+"/config") {
					return true
				}
			}
			return false
		}
		// dirty names a secret in the value that is not known to be gone
		var dirty func(s *flow.State, x *flow.Term, t types.Type, depth int) string
		dirtyLeaf := func(s *flow.State, x *flow.Term, name string) string {
			x = bare(x)
			switch x.Op {
			case "const", "nil", "zero":
				return ""
			}
			if x.Op == "call" || x.Op == "ext" || x.Op == "pure" {
				return "" // followed into the call, if it is the module's
			}
			if emptyStr(s, x) {
				return ""
			}
			fixed := false
			s.EachTrue(func(b *flow.Term) {
				if b.Op == "eq" && len(b.Args) == 2 && (b.Args[0].Op == "const" && b.Args[1] == x || b.Args[1].Op == "const" && b.Args[0] == x) {
					fixed = true // known to be a text of the program
				}
			})
			if fixed {
				return ""
			}
			return name
		}
		dirty = func(s *flow.State, x *flow.Term, t types.Type, depth int) string {
			if x == nil || depth > 6 || !bears(t) {
				return ""
			}
			if x.Op == "nil" || x.Op == "zero" {
				return ""
			}
			switch t.String() {
			case "net/http.Request", "net/http.Header":
				return t.String()
			}
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i)
					y := ts.Field(x, i, u)
					if v.has(f) {
						if n := dirtyLeaf(s, y, f.Name()); n != "" {
							return n
						}
					} else if n := dirty(s, y, f.Type(), depth+1); n != "" {
						return n
					}
				}
				return ""
			case *types.Pointer:
				st, ok := u.Elem().Underlying().(*types.Struct)
				if !ok || u.Elem().String() == "net/http.Request" {
					return u.Elem().String()
				}
				if k, isNil := s.IsNil(x); isNil && k {
					return ""
				}
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if !v.has(f) && !bears(f.Type()) {
						continue
					}
					y := s.Load(ts.FieldAddr(x, f), f.Type(), "rule.secret")
					if v.has(f) {
						if n := dirtyLeaf(s, y, f.Name()); n != "" {
							return n
						}
					} else if n := dirty(s, y, f.Type(), depth+1); n != "" {
						return n
					}
				}
				return ""
			}
			return t.String()
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			// what was overwritten is kept apart
			if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Obj != nil && v.has(e.Addr.Obj) {
				k := "overwritten " + e.Addr.Obj.Name()
				delete(s.D, k)
				if e.Val != nil && bare(e.Val).Op == "const" {
					s.D[k] = "1"
				}
				return
			}
			if e.Kind != "call" && e.Kind != "go" && e.Kind != "defer" {
				return
			}
			ci, ok := e.Instr.(ssa.CallInstruction)
			if !ok {
				return
			}
			name, out := outCall(ci.Common())
			if !out {
				runCallbacks(in, s, e, rel)
				return
			}
			check := func(a *flow.Term) {
				for a != nil && a.Op == "conv" {
					a = a.Args[0]
				}
				if a == nil || a.Op != "iface" || a.Args[0].T == nil {
					return
				}
				t := a.Args[0].T
				if a.T != nil && !types.IsInterface(a.T) {
					t = a.T
				}
				if !bears(t) {
					return
				}
				checked++
				if n := dirty(s, a.Args[0], t, 0); n != "" {
					in.ReportAt(s, "redacted:"+fname(ci.Parent())+":"+short(name), e.Instr, "what is handed to %s contains a secret that is not overwritten (%s)", short(name), n)
				}
			}
			for _, a := range e.Args {
				check(a)
				if a == nil || a.T == nil {
					continue
				}
				if sl, ok := a.T.Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
					for k := int64(0); k < 16; k++ {
						if !s.Lt(ts.Int(k), in.Len(a)) {
							break
						}
						check(in.ElemAt(s, a, k, sl.Elem()))
					}
				}
			}
		}
		return in
	})
	c.Count("values with secrets that are logged", checked)
	_ = key
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// madeHere reports an interface that no caller can have handed over.
func madeHere(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return false
	case *ssa.UnOp:
		_, alloc := x.X.(*ssa.Alloc)
		_, free := x.X.(*ssa.FreeVar)
		return !alloc && !free
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Parameter); ok {
				return false
			}
		}
	}
	return true
}
