package rules

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "P07", Technique: "comparison of the sample's settings with the fields the document is parsed into and the settings the inlined constructors look up, plus value-flow of each setting to the option of its name",
		Explain: "Every section and key of the sample, commented out ones included, is one the loader parses or the registered constructor of that section looks up with the type the sample shows, and every such setting is in the sample; a parsed setting is used by the program, each entity is constructed from its own section, and a setting never ends up in an option named like another one.",
		Min:     10,
		Run:     runP07,
	})
}

var (
	sampleSection = regexp.MustCompile(`^\s*#?\s*(\[+)([a-z0-9_.]+)\]+\s*$`)
	sampleKey     = regexp.MustCompile(`^\s*#?\s*([a-z0-9_]+)\s*=\s*(\S.*)$`)
)

// sampleDoc is the text of the sample configuration.
func sampleDoc(c *Ctx) (string, token.Pos) {
	best, at := "", token.NoPos
	pkg := c.P.ByPkg[flow.RepoPath+"/config"]
	if pkg == nil {
		return "", 0
	}
	for _, f := range pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			x, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			tv := pkg.TypesInfo.Types[x]
			if tv.Value != nil && tv.Value.Kind() == constant.String {
				if s := constant.StringVal(tv.Value); len(s) > len(best) && strings.Contains(s, "[") {
					best, at = s, x.Pos()
				}
				return false
			}
			return true
		})
	}
	return best, at
}

// sampleKind is the kind of a value written in the sample.
func sampleKind(v string) string {
	switch {
	case strings.HasPrefix(v, `"`), strings.HasPrefix(v, "'"):
		return "string"
	case strings.HasPrefix(v, "["):
		return "list"
	case strings.HasPrefix(v, "true"), strings.HasPrefix(v, "false"):
		return "bool"
	case regexp.MustCompile(`^[+-]?[0-9_]+\s*(#.*)?$`).MatchString(v):
		return "int"
	case regexp.MustCompile(`^[+-]?[0-9_.eE+-]+\s*(#.*)?$`).MatchString(v):
		return "float"
	}
	return "?"
}

func tomlKind(t types.Type) string {
	if isText(t) {
		return "string"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "float"
		}
	case *types.Slice, *types.Array:
		return "list"
	}
	return "?"
}

func runP07(c *Ctx) {
	doc, at := sampleDoc(c)
	if doc == "" {
		c.Fail("anchor:sample", "config/initial.go", "the sample configuration was not found")
		return
	}
	type entry struct{ kind, where string }
	sample := map[string]entry{}
	lists := map[string]bool{}
	section, line := "", c.P.Fset.Position(at).Line
	for i, l := range strings.Split(doc, "\n") {
		where := c.P.Pos(at)
		if j := strings.LastIndex(where, ":"); j > 0 {
			where = where[:j+1] + itoa(line+i)
		}
		if m := sampleSection.FindStringSubmatch(l); m != nil {
			section = m[2]
			lists[section] = len(m[1]) == 2
			continue
		}
		if m := sampleKey.FindStringSubmatch(l); m != nil && section != "" {
			k := section + "." + m[1]
			if _, ok := sample[k]; !ok {
				sample[k] = entry{sampleKind(m[2]), where}
			}
		}
	}
	c.Count("settings in the sample", len(sample))
	// what the loader reads
	f, cfg := loader(c)
	if f == nil {
		c.Fail("anchor:load", "config/load.go", "the function that loads the configuration was not found")
		return
	}
	read := map[string]string{}
	sections := map[string]bool{} // section of entities
	isList := map[string]bool{}
	exploreLoad(c, f, func(p string, t types.Type) {
		if m, ok := t.Underlying().(*types.Map); ok {
			sections[p] = true
			_, isList[p] = m.Elem().Underlying().(*types.Slice)
			return
		}
		k := tomlKind(t)
		if old := read[p]; old == "string" && k != "string" {
			k = old // a text that is parsed further
		}
		read[p] = k
	}, func(*flow.Interp, *flow.State, *flow.Event) {})
	// texts are strings in the document
	eachInstr(c.P, func(fn *ssa.Function, i ssa.Instruction) {
		if !inPkg(fn, "config") {
			return
		}
		if a, ok := i.(*ssa.Alloc); ok {
			if st, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && fn == f {
				for j := 0; j < st.NumFields(); j++ {
					if strings.Contains(st.Tag(j), "toml:") {
						tomlLeaves(st, "", nil, func(p string, t types.Type) {
							if isText(t) {
								read[p] = "string"
							}
						})
						return
					}
				}
			}
		}
	})
	// what the constructors read
	made := map[string]types.Type{} // section → what is constructed
	takes := map[string]bool{}      // setting and kind a constructor takes
	for _, m := range makersOf(c) {
		m := m
		sec := ""
		for k := range sample {
			for s := range sections {
				if strings.HasPrefix(k, s+"."+m.name+".") {
					sec = s
				}
			}
		}
		if sec == "" {
			c.Fail("sample:"+m.name, c.P.Pos(m.fn.Pos()), "the sample has no section for %s", m.name)
			continue
		}
		made[sec] = m.made
		if m.conf == nil {
			continue
		}
		key := "options:" + m.name
		c.Oblige(key, c.P.Pos(m.fn.Pos()), "each setting of "+m.name+" is used as what it is called", true)
		m.explore(c, key, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "asserted":
				if p, ok := cfgPath(e.Args[0]); ok && e.Block {
					if k := tomlKind(e.Typ); k != "?" {
						full := sec + "." + m.name + "." + p
						read[full] = k
						takes[full+" "+k] = true
					}
				}
			case "store":
				crossing(c, in, s, e, key, func(t *flow.Term) (string, bool) {
					p, ok := cfgPath(t)
					return p[strings.LastIndex(p, ".")+1:], ok
				})
			}
		})
	}
	for _, k := range sortedKeys(sample) {
		e := sample[k]
		got, ok := read[k]
		okey := "sample:" + k
		c.Oblige(okey, e.where, "the setting "+k+" of the sample is read", true)
		switch {
		case !ok:
			c.Fail(okey, e.where, "nothing reads the setting %s of the sample", k)
		case got != e.kind && !takes[k+" "+e.kind]:
			c.Fail(okey, e.where, "the setting %s is read as a %s, the sample shows a %s", k, got, e.kind)
		}
	}
	for _, k := range sortedKeys(read) {
		if _, ok := sample[k]; !ok {
			c.Fail("read:"+k, c.P.Pos(f.Pos()), "the setting %s that is read is not in the sample", k)
		}
	}
	for s, l := range lists {
		for p := range sections {
			if strings.HasPrefix(s, p+".") && strings.Count(s, ".") == 1 && l != isList[p] {
				c.Fail("sample:"+s, c.P.Pos(at), "the sample and the loader disagree whether there may be several %s", s)
			}
		}
	}
	if len(sample) < 10 || len(read) < 10 || len(made) < 3 {
		c.Fail("anchor:settings", c.P.Pos(at), "only %d settings in the sample and %d read were found", len(sample), len(read))
	}
	p07uses(c, cfg, made)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// crossing reports a setting that is stored in an option named like another.
func crossing(c *Ctx, in *flow.Interp, s *flow.State, e *flow.Event, key string, leaf func(t *flow.Term) (string, bool)) {
	v, ok := e.Addr.Obj.(*types.Var)
	if e.Addr.Op != "faddr" || !ok || !v.IsField() || v.Pkg() == nil || !strings.HasPrefix(v.Pkg().Path(), flow.RepoPath) {
		return
	}
	val := stripIface(e.Val)
	for val != nil && (val.Op == "assert" || val.Op == "conv") {
		val = stripIface(val.Args[0])
	}
	if val == nil {
		return
	}
	name, ok := leaf(val)
	if !ok || name == "" || strings.EqualFold(name, v.Name()) {
		return
	}
	for _, o := range siblings(c, v) {
		if strings.EqualFold(o.Name(), name) {
			in.ReportAt(s, key, e.Instr, "the setting %s is used as %s", name, v.Name())
			s.Kill()
			return
		}
	}
}

// siblings are the fields of the struct a field is declared in.
func siblings(c *Ctx, v *types.Var) []*types.Var {
	pkg := c.P.ByPkg[v.Pkg().Path()]
	if pkg == nil {
		return nil
	}
	for _, n := range pkg.Types.Scope().Names() {
		if tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName); ok {
			fs := fields(tn.Type())
			for _, f := range fs {
				if f == v {
					return fs
				}
			}
		}
	}
	return nil
}

// p07uses: each part of the configuration is used, and as what it is.
func p07uses(c *Ctx, cfg types.Type, made map[string]types.Type) {
	ts := c.P.TS
	leaves := map[*types.Var]string{}
	entities := map[string]*types.Var{}
	var dig func(t types.Type, path string)
	dig = func(t types.Type, path string) {
		for _, v := range fields(t) {
			if !v.Exported() {
				continue
			}
			p := strings.TrimPrefix(path+"."+strings.ToLower(v.Name()), ".")
			if kind, _ := isEntity(v.Type()); kind != nil {
				entities[p] = v
				continue
			}
			if sl, ok := v.Type().Underlying().(*types.Slice); ok {
				if kind, _ := isEntity(sl.Elem()); kind != nil {
					entities[p] = v
					continue
				}
			}
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				dig(v.Type(), p)
				continue
			}
			leaves[v] = p
		}
	}
	dig(cfg, "")
	used := map[*types.Var]bool{}
	wholly := map[types.Type]bool{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		if inPkg(f, "config") {
			return
		}
		switch i := i.(type) {
		case *ssa.FieldAddr:
			used[fieldOf(i)] = true
		case *ssa.Field:
			used[fields(i.X.Type())[i.Field]] = true
		case *ssa.UnOp:
			// a struct that is passed on as a whole
			if _, ok := i.Type().Underlying().(*types.Struct); ok && i.Op == token.MUL {
				wholly[i.Type()] = true
			}
		}
	})
	for v, p := range leaves {
		c.Oblige("used:"+p, c.P.Pos(v.Pos()), "the setting "+p+" takes effect", true)
		if !used[v] {
			c.Fail("used:"+p, c.P.Pos(v.Pos()), "nothing uses the setting %s", p)
		}
	}
	// the constructions, followed from every function that makes one
	isNew := func(f *ssa.Function) string {
		if f == nil || !inPkg(f, "registry") || f.Signature.Results().Len() != 2 {
			return ""
		}
		for s, t := range made {
			if types.Identical(f.Signature.Results().At(0).Type(), t) {
				return s
			}
		}
		return ""
	}
	behind := func(v ssa.Value) map[*types.Var]bool {
		out := map[*types.Var]bool{}
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value, depth int)
		walk = func(v ssa.Value, depth int) {
			if v == nil || seen[v] || depth > 40 {
				return
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.FieldAddr:
				out[fieldOf(v)] = true
				walk(v.X, depth+1)
			case *ssa.Field:
				out[fields(v.X.Type())[v.Field]] = true
				walk(v.X, depth+1)
			case *ssa.UnOp:
				walk(v.X, depth+1)
			case *ssa.IndexAddr:
				walk(v.X, depth+1)
			case *ssa.Extract:
				walk(v.Tuple, depth+1)
			case *ssa.Phi:
				for _, e := range v.Edges {
					walk(e, depth+1)
				}
			case *ssa.ChangeInterface:
				walk(v.X, depth+1)
			case *ssa.MakeInterface:
				walk(v.X, depth+1)
			case *ssa.Alloc:
				for _, r := range *v.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == v {
						walk(st.Val, depth+1)
					}
				}
			case *ssa.FreeVar:
				f := v.Parent()
				for i, fv := range f.FreeVars {
					if fv != v || f.Parent() == nil {
						continue
					}
					for _, b := range f.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
								walk(mc.Bindings[i], depth+1)
							}
						}
					}
				}
			case *ssa.Parameter:
				f := v.Parent()
				for i, p := range f.Params {
					if p != v {
						continue
					}
					eachInstr(c.P, func(g *ssa.Function, in ssa.Instruction) {
						call, ok := in.(ssa.CallInstruction)
						if ok && call.Common().StaticCallee() == f && i < len(call.Common().Args) {
							walk(call.Common().Args[i], depth+1)
						}
					})
				}
			}
		}
		walk(v, 0)
		return out
	}
	sites := map[string]int{}
	eachInstr(c.P, func(f *ssa.Function, i ssa.Instruction) {
		call, ok := i.(ssa.CallInstruction)
		if !ok || !inPkg(f, "") {
			return
		}
		sec := isNew(call.Common().StaticCallee())
		if sec == "" {
			return
		}
		key := "entity:" + sec
		c.Oblige(key, c.P.PosOf(i), "what the section "+sec+" names is constructed from its settings", true)
		ent := entities[sec]
		if ent == nil {
			c.Fail(key, c.P.PosOf(i), "the configuration has no part for the section %s", sec)
			return
		}
		et := ent.Type()
		if sl, ok := et.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		kind, conf := isEntity(et)
		for _, a := range call.Common().Args {
			want := (*types.Var)(nil)
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				want = kind
			} else if it, ok := a.Type().Underlying().(*types.Interface); ok && it.Empty() {
				want = conf
			}
			if want == nil {
				continue
			}
			bs := behind(a)
			other := ""
			for p, o := range entities {
				if o != ent && bs[o] {
					other = p
				}
			}
			switch {
			case other != "":
				c.Fail(key, c.P.PosOf(i), "what the section %s names is constructed from the section %s", sec, other)
			case !bs[want] || !bs[ent]:
				c.Fail(key, c.P.PosOf(i), "what the section %s names is constructed from something else than its %s", sec, want.Name())
			default:
				sites[sec]++
			}
		}
	})
	for sec := range made {
		if sites[sec] < 2 {
			c.Fail("entity:"+sec, "run.go", "what the section %s names is never constructed", sec)
		}
	}
	// settings that end up in the option of another name
	key := "uses"
	c.Oblige(key, "run.go", "each setting is used as what it is called", true)
	leafName := func(t *flow.Term) (string, bool) {
		if t.Op == "sym" && strings.HasPrefix(t.Name, "setting:") {
			return strings.TrimPrefix(t.Name, "setting:"), true
		}
		if t.Op == "field" && t.Args[0].T != nil {
			for _, v := range fields(t.Args[0].T) {
				if v.Name() == t.Name && leaves[v] != "" {
					return v.Name(), true
				}
			}
		}
		return "", false
	}
	stores := 0
	rel := c.P.Relevant(func(i ssa.Instruction) bool {
		fa, ok := i.(*ssa.FieldAddr)
		return ok && leaves[fieldOf(fa)] != ""
	})
	c.drive(rel, func(f *ssa.Function) bool { return !inPkg(f, "config") }, func(f *ssa.Function) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.UseRelevance(rel)
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			switch e.Kind {
			case "load":
				if v, ok := e.Addr.Obj.(*types.Var); ok && e.Addr.Op == "faddr" && leaves[v] != "" {
					e.Result = ts.Sym("setting:"+v.Name(), v.Type())
				}
			case "store":
				if _, ok := leafName(e.Val); ok {
					stores++
				}
				crossing(c, in, s, e, key, leafName)
			case "call":
				if e.Callee == nil || !c.P.InRepo(e.Callee) {
					return
				}
				for i, a := range e.Args {
					n, ok := leafName(a)
					if !ok || i >= len(e.Callee.Params) || strings.EqualFold(e.Callee.Params[i].Name(), n) {
						continue
					}
					for _, p := range e.Callee.Params {
						if strings.EqualFold(p.Name(), n) {
							in.ReportAt(s, key, e.Instr, "the setting %s is passed as %s", n, e.Callee.Params[i].Name())
							s.Kill()
							return
						}
					}
				}
			}
		}
		return in
	})
	c.Count("settings stored in options", stores)
	if stores == 0 {
		c.Fail("anchor:uses", "run.go", "the program's use of the settings was not recognised")
	}
}
