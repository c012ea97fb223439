package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// RepoPath is the import path prefix of the analysed module.
const RepoPath = "github.com/vivint/rothko"

// Program is the loaded, type-checked program in SSA form.
type Program struct {
	SSA   *ssa.Program
	Pkgs  []*packages.Package
	Fset  *token.FileSet
	TS    *Terms
	Dir   string
	ByPkg map[string]*packages.Package

	live    map[*ssa.Function]*liveInfo
	loops   map[*ssa.Function]*loopInfo
	mods    map[*ssa.Function]*ModInfo
	consts  map[types.Object]bool
	all     map[*ssa.Function]bool
	funcs   []*ssa.Function
	roFree  map[*ssa.FreeVar]bool
	allRepo []*ssa.Function
	rpos    map[*ssa.Function]map[*ssa.BasicBlock]int
	impls   map[interface{}][]*ssa.Function
	keep    map[*ssa.Function]map[ssa.Value]bool
}

// LoadProgram loads every package of the module.
func LoadProgram(dir string, tags string, goos string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	if goos != "" {
		env = append(env, "GOOS="+goos, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir, Env: env,
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	var errsOut []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, RepoPath) {
			return
		}
		for _, e := range p.Errors {
			errsOut = append(errsOut, e.Error())
		}
	})
	if len(errsOut) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errsOut, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{
		SSA: prog, Pkgs: ps, Fset: prog.Fset, TS: NewTerms(), Dir: dir,
		ByPkg: map[string]*packages.Package{},
		live:  map[*ssa.Function]*liveInfo{}, loops: map[*ssa.Function]*loopInfo{},
		mods: map[*ssa.Function]*ModInfo{}, keep: map[*ssa.Function]map[ssa.Value]bool{},
	}
	packages.Visit(ps, nil, func(q *packages.Package) { p.ByPkg[q.PkgPath] = q })
	p.all = ssautil.AllFunctions(prog)
	for f := range p.all {
		if p.InRepo(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return p.Fset.Position(a.Pos()).String() < p.Fset.Position(b.Pos()).String()
		}
		return a.String() < b.String()
	})
	p.findConsts()
	return p, nil
}

// RepoFuncs are the source functions of the module, closures included.
func (p *Program) RepoFuncs() []*ssa.Function { return p.funcs }

func (p *Program) repoPkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == RepoPath || strings.HasPrefix(pk.Path(), RepoPath+"/"))
}

// PkgOf is the package path of a function, through closures and instances.
func PkgOf(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
			continue
		}
		f = f.Parent()
	}
	return ""
}

// InRepo reports whether the function is part of the module.
func (p *Program) InRepo(f *ssa.Function) bool {
	pp := PkgOf(f)
	return pp == RepoPath || strings.HasPrefix(pp, RepoPath+"/")
}

// PosOf renders the position of an instruction relative to the module.
func (p *Program) PosOf(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	pos := i.Pos()
	if !pos.IsValid() {
		// fall back to a neighbouring instruction, then to the function
		if b := i.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
				}
				if x == i && pos.IsValid() {
					break
				}
			}
		}
		if !pos.IsValid() && i.Parent() != nil {
			pos = i.Parent().Pos()
		}
	}
	return p.Pos(pos)
}

// Pos renders a position relative to the module.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	return strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Dir), "/") + fmt.Sprintf(":%d", q.Line)
}

// Lookup finds a package-level function or method: "F", "(*T).M" or "T.M".
func (p *Program) Lookup(pkg, name string) *ssa.Function {
	path := RepoPath
	if pkg != "" {
		path += "/" + pkg
	}
	q := p.ByPkg[path]
	if q == nil {
		return nil
	}
	sp := p.SSA.Package(q.Types)
	if sp == nil {
		return nil
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "(*)")
		ty, ok := sp.Members[tn].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(ty.Type()), ty.Type()} {
			ms := p.SSA.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				sel := ms.At(k)
				if sel.Obj().Name() == name[i+1:] {
					f := sel.Obj().(*types.Func)
					if sf := p.SSA.FuncValue(f); sf != nil {
						return sf
					}
				}
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

// Pkg finds a module package by its relative path.
func (p *Program) Pkg(rel string) *ssa.Package {
	path := RepoPath
	if rel != "" {
		path += "/" + rel
	}
	q := p.ByPkg[path]
	if q == nil {
		return nil
	}
	return p.SSA.Package(q.Types)
}

// Type finds a named type in a module package.
func (p *Program) Type(rel, name string) *types.Named {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	ty, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := ty.Type().(*types.Named)
	return n
}

// --- liveness ---

type liveInfo struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	at  map[[2]int]map[ssa.Value]bool
	fn  *ssa.Function
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func isLocalValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (in *Interp) liveAt(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	li := in.Prog.liveness(b.Parent())
	k := [2]int{b.Index, idx}
	if m, ok := li.at[k]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	for v := range li.out[b] {
		m[v] = true
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		if v, ok := b.Instrs[i].(ssa.Value); ok {
			delete(m, v)
		}
		if _, ok := b.Instrs[i].(*ssa.Phi); ok {
			continue
		}
		for _, op := range b.Instrs[i].Operands(nil) {
			if *op != nil && isLocalValue(*op) {
				m[*op] = true
			}
		}
	}
	// a recover block can be entered from anywhere
	if r := b.Parent().Recover; r != nil {
		for v := range li.in[r] {
			m[v] = true
		}
	}
	li.at[k] = m
	return m
}

func (p *Program) liveness(fn *ssa.Function) *liveInfo {
	if li, ok := p.live[fn]; ok {
		return li
	}
	li := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, at: map[[2]int]map[ssa.Value]bool{}, fn: fn}
	for _, b := range fn.Blocks {
		li.in[b] = map[ssa.Value]bool{}
		li.out[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for n := len(fn.Blocks) - 1; n >= 0; n-- {
			b := fn.Blocks[n]
			out := li.out[b]
			for _, sc := range b.Succs {
				for v := range li.in[sc] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for pi, pr := range sc.Preds {
					if pr != b {
						continue
					}
					for _, ins := range sc.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if v := phi.Edges[pi]; isLocalValue(v) && !out[v] {
							out[v] = true
							changed = true
						}
					}
				}
			}
			inn := map[ssa.Value]bool{}
			for v := range out {
				inn[v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				if v, ok := b.Instrs[i].(ssa.Value); ok {
					delete(inn, v)
				}
				if _, ok := b.Instrs[i].(*ssa.Phi); ok {
					continue
				}
				for _, op := range b.Instrs[i].Operands(nil) {
					if *op != nil && isLocalValue(*op) {
						inn[*op] = true
					}
				}
			}
			if len(inn) != len(li.in[b]) {
				li.in[b] = inn
				changed = true
			}
		}
	}
	p.live[fn] = li
	return li
}

func (in *Interp) keepAlloc(fn *ssa.Function, v ssa.Value) bool { return false }

// --- loops ---

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := l.headers[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				l.headers[h] = body
			}
			todo := []*ssa.BasicBlock{b}
			for len(todo) > 0 {
				x := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if body[x] {
					continue
				}
				body[x] = true
				todo = append(todo, x.Preds...)
			}
		}
	}
	p.loops[fn] = l
	return l
}

// HasLoop reports whether the function contains a loop.
func (p *Program) HasLoop(fn *ssa.Function) bool { return len(p.loopsOf(fn).headers) > 0 }

func (in *Interp) isHeader(b *ssa.BasicBlock) bool {
	return in.Prog.loopsOf(b.Parent()).headers[b] != nil
}

func (in *Interp) inLoop(h, b *ssa.BasicBlock) bool {
	return in.Prog.loopsOf(b.Parent()).headers[h][b]
}

// --- modification summaries ---

// ModInfo is what a function may modify, transitively.
type ModInfo struct {
	Fields  map[types.Object]bool
	Unknown bool // calls code that cannot be resolved
}

// ModSet computes the transitive modification summary of a function.
func (p *Program) ModSet(fn *ssa.Function) *ModInfo {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := &ModInfo{Fields: map[types.Object]bool{}}
	p.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.InRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					a := i.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
							m.Fields[st.Field(fa.Field)] = true
							addFieldsOf(m.Fields, st.Field(fa.Field).Type())
							break
						}
						if _, ok := a.(*ssa.IndexAddr); ok {
							break
						}
						break
					}
					if pt, ok := i.Addr.Type().Underlying().(*types.Pointer); ok {
						addFieldsOf(m.Fields, pt.Elem())
					}
				case *ssa.MakeClosure:
					visit(i.Fn.(*ssa.Function))
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						if p.repoPkg(cc.Method.Pkg()) {
							m.Unknown = true
						}
						continue
					}
					if sc := cc.StaticCallee(); sc != nil {
						visit(sc)
					} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
						m.Unknown = true
					}
				}
			}
		}
	}
	visit(fn)
	return m
}

func addFieldsOf(out map[types.Object]bool, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out[st.Field(i)] = true
			addFieldsOf(out, st.Field(i).Type())
		}
	}
}

// --- constants ---

// findConsts finds package-level variables that are only assigned by their
// initialiser (error values and the like).
func (p *Program) findConsts() {
	p.consts = map[types.Object]bool{}
	assigned := map[types.Object]int{}
	outside := map[types.Object]bool{}
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && g.Object() != nil {
					assigned[g.Object()]++
					if f.Name() != "init" {
						outside[g.Object()] = true
					}
				}
			}
		}
	}
	for _, pk := range p.SSA.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Object() != nil {
				if !outside[g.Object()] && assigned[g.Object()] <= 1 {
					p.consts[g.Object()] = true
				}
			}
		}
	}
}

func (p *Program) constGlobal(o types.Object) bool { return o != nil && p.consts[o] }

// --- library effects ---

var purePkgs = []string{"strings.", "strconv.", "math.", "path.", "path/filepath.", "unicode", "math/bits.", "html.", "fmt.Sprint", "os.IsNotExist", "os.IsExist",
	"bytes.HasSuffix", "bytes.HasPrefix", "bytes.Split", "bytes.Index", "bytes.Equal", "bytes.Compare", "bytes.Contains", "bytes.Fields", "bytes.Trim", "bytes.Count", "bytes.ToLower",
	"errors.Is", "errors.Unwrap", "github.com/zeebo/errs.Unwrap", "(github.com/zeebo/errs.Class).Has", "(*github.com/zeebo/errs.Class).Has", "github.com/zeebo/errs.Is",
	"(time.Duration).", "(time.Time).UnixNano", "(time.Time).Sub", "(time.Time).In", "(time.Time).UTC", "(time.Time).Add", "(time.Time).Before", "(time.Time).After", "(time.Time).Truncate", "(time.Time).Unix", "time.Unix", "time.ParseDuration",
	"(error).Error", "crypto/sha256.Sum256", "crypto/subtle.", "hash/crc32.Update", "hash/crc32.Checksum", "(encoding/binary.bigEndian).Uint", "(encoding/binary.littleEndian).Uint",
	"(os.FileInfo).", "(io/fs.FileInfo).", "(*os.File).Fd", "(*os.File).Name", "(reflect.", "(context.Context).Done", "(context.Context).Value", "(github.com/urfave/cli.Args).", "(*github.com/urfave/cli.Context).Args",
	"encoding/hex.EncodeToString", "net/http.StatusText"}

var impureNames = map[string]bool{"math/rand.": true}

func (p *Program) pure(name string) bool {
	for _, pre := range purePkgs {
		if strings.HasPrefix(name, pre) {
			if strings.HasPrefix(name, "strings.New") || strings.HasPrefix(name, "(*strings.") {
				return false
			}
			return true
		}
	}
	return false
}

// NoEffect marks opaque calls that change no memory of the program.
func (p *Program) NoEffect(e *Event) bool {
	switch {
	case strings.HasPrefix(e.Name, "time."), strings.HasPrefix(e.Name, "(time."), strings.HasPrefix(e.Name, "(context."),
		strings.HasPrefix(e.Name, "os."), strings.HasPrefix(e.Name, "(*os.File)"), strings.HasPrefix(e.Name, "syscall."), strings.HasPrefix(e.Name, "runtime."),
		strings.HasPrefix(e.Name, "context."), strings.HasPrefix(e.Name, "net."), strings.HasPrefix(e.Name, "(net."),
		strings.HasPrefix(e.Name, "fmt.Print"), strings.HasPrefix(e.Name, "(*sync.Pool)"),
		strings.HasPrefix(e.Name, RepoPath+"/external."):
		return true
	}
	return false
}

// DefaultInline is the usual inlining policy: the module's own functions,
// except logging and generated code.
func (p *Program) DefaultInline(fn *ssa.Function) bool {
	if !p.InRepo(fn) || PkgOf(fn) == RepoPath+"/external" {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, ".pb.go") {
		return false
	}
	return true
}

func implements(t types.Type, iface types.Type) bool {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return types.Implements(t, it) || types.Implements(types.NewPointer(t), it)
}

// ConstInt is the value of an integer constant of a module package.
func (p *Program) ConstInt(pkg, name string) *int64 {
	pk := p.Pkg(pkg)
	if pk == nil {
		return nil
	}
	c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Val()))
	if !ok {
		return nil
	}
	return &n
}
