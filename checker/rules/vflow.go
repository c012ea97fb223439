package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// vflow follows values through the whole module, without regard to the order
// of statements: from its sources through variables, fields, closures, calls
// and results. It follows either contents or shared memory.
type vflow struct {
	c *Ctx
	p *flow.Program
	// alias follows memory: copies end the flow. Otherwise contents are
	// followed: what is computed from them carries them as well.
	alias bool
	// keep reports where followed memory is kept past the call that handed
	// it over; fields are then followed per local variable only.
	keep func(pos ssa.Instruction, what string, from interface{})
	// at is shown every instruction once the flow is complete.
	// stop names functions whose bodies are not followed into.
	stop func(f *ssa.Function) bool
	// only limits the functions that are followed.
	only func(f *ssa.Function) bool

	// home is the closure whose captured variables outlive what is followed.
	home *ssa.Function

	why     map[interface{}]vstep
	entry   map[*ssa.Function]bool
	binds   map[*ssa.FreeVar]ssa.Value
	taken   []*ssa.Function
	fns     []*ssa.Function
	bySig   map[*types.Signature][]*ssa.Function
	changed bool
	reached map[*ssa.Function]bool
}

type vstep struct {
	from interface{}
	at   ssa.Instruction
	note string
}

// keys besides values and fields
type (
	vret struct {
		f *ssa.Function
		i int
	}
	vpart struct {
		v ssa.Value
		i int
	}
	vout struct {
		f *ssa.Function
		i int
	}
)

func newVflow(c *Ctx, alias bool) *vflow {
	v := &vflow{c: c, p: c.P, alias: alias, why: map[interface{}]vstep{}, bySig: map[*types.Signature][]*ssa.Function{}, entry: map[*ssa.Function]bool{}, binds: map[*ssa.FreeVar]ssa.Value{}, reached: map[*ssa.Function]bool{}}
	v.fns = append(v.fns, c.P.AllRepoFuncs()...)
	sortFns(v.fns)
	used := map[*ssa.Function]bool{}
	for _, f := range v.fns {
		instrsOf(f, func(i ssa.Instruction) {
			if m, ok := i.(*ssa.MakeClosure); ok {
				g := m.Fn.(*ssa.Function)
				used[g] = true
				for k, b := range m.Bindings {
					v.binds[g.FreeVars[k]] = b
				}
			}
			var call *ssa.CallCommon
			if ci, ok := i.(ssa.CallInstruction); ok {
				call = ci.Common()
			}
			for _, op := range i.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && (call == nil || op != &call.Value) {
					used[g] = true
				}
			}
		})
	}
	for _, f := range v.fns {
		if used[f] {
			v.taken = append(v.taken, f)
		}
	}
	return v
}

func (v *vflow) has(k interface{}) bool { _, ok := v.why[k]; return ok }

func (v *vflow) source(k interface{}, note string) {
	if v.holdsKey(k) && !v.has(k) {
		v.why[k] = vstep{note: note}
		v.changed = true
	}
}

func (v *vflow) holdsKey(k interface{}) bool {
	x, ok := k.(ssa.Value)
	return !ok || v.holds(x.Type())
}

func (v *vflow) mark(k, from interface{}, pos ssa.Instruction) {
	if k == nil || v.has(k) {
		return
	}
	if x, ok := k.(ssa.Value); ok {
		if !v.holds(x.Type()) {
			return
		}
		if _, ok := x.(*ssa.Const); ok {
			return
		}
	}
	v.why[k] = vstep{from: from, at: pos}
	v.changed = true
}

// holds reports whether values of the type can carry what is followed.
func (v *vflow) holds(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String, u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedString:
			return true
		case u.Kind() == types.Uintptr:
			return v.alias
		case u.Kind() == types.Byte, u.Kind() == types.Rune:
			return !v.alias
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if v.holds(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return v.holds(u.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

// path explains how something came to carry what is followed.
func (v *vflow) path(k interface{}) []string {
	var out []string
	for n := 0; n < 40 && k != nil; n++ {
		s, ok := v.why[k]
		if !ok {
			break
		}
		at := s.note
		if at == "" && s.at != nil {
			at = v.p.PosOf(s.at)
		}
		if at != "" && (len(out) == 0 || out[len(out)-1] != at) {
			out = append(out, at)
		}
		k = s.from
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// root follows an address to the variable it is part of; the part is the
// first field on the way, or -1.
func (v *vflow) root(a ssa.Value) (ssa.Value, int) {
	part := -1
	for n := 0; n < 60; n++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			part = x.Field
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				part = -1
				a = x.X
				continue
			}
			return v.base(x.X), -1
		case *ssa.FreeVar:
			b := v.binds[x]
			if b == nil || v.home != nil && x.Parent() == v.home {
				return a, part
			}
			a = b
		case *ssa.ChangeType:
			a = x.X
		case *ssa.MakeInterface:
			a = x.X
		default:
			return a, part
		}
	}
	return a, part
}

// base is the variable whose memory a slice or map shares, if it is known.
func (v *vflow) base(a ssa.Value) ssa.Value {
	for n := 0; n < 60; n++ {
		switch x := a.(type) {
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				r, _ := v.root(x.X)
				return r
			}
			a = x.X
		case *ssa.FreeVar:
			b := v.binds[x]
			if b == nil {
				return a
			}
			a = b
		default:
			return a
		}
	}
	return a
}

// loaded reports whether what is at the address carries what is followed.
func (v *vflow) loaded(a ssa.Value) interface{} {
	r, part := v.root(a)
	if v.keep == nil {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			if f := fieldOf(fa); f != nil && v.has(f) {
				return f
			}
		}
		if ia, ok := a.(*ssa.IndexAddr); ok {
			if v.has(ia.X) {
				return ia.X
			}
			// an array that is a field
			if fa, ok := ia.X.(*ssa.FieldAddr); ok {
				if f := fieldOf(fa); f != nil && v.has(f) {
					return f
				}
			}
		}
	}
	if v.has(r) {
		return r
	}
	if part >= 0 {
		if v.has(vpart{r, part}) {
			return vpart{r, part}
		}
		return nil
	}
	if v.keep != nil {
		if pt, ok := r.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if v.has(vpart{r, i}) {
						return vpart{r, i}
					}
				}
			}
		}
	}
	return nil
}

// fresh reports an object made by the call and known to nobody else.
func (v *vflow) freshResult(call *ssa.Call) bool {
	g := call.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return true // made outside of the module
	}
	ok := true
	instrsOf(g, func(i ssa.Instruction) {
		if r, isRet := i.(*ssa.Return); isRet {
			for _, x := range r.Results {
				switch x.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map:
				default:
					continue
				}
				b, _ := v.root(v.base(x))
				switch b.(type) {
				case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const:
				default:
					ok = false
				}
			}
		}
	})
	return ok
}

// store records that what is at the address carries what from carries.
func (v *vflow) store(i ssa.Instruction, a ssa.Value, from interface{}) {
	pos := ssa.Instruction(i)
	r, part := v.root(a)
	if v.keep == nil {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			if f := fieldOf(fa); f != nil {
				if v.holds(f.Type()) {
					v.mark(f, from, pos)
				}
				return
			}
		}
		if ia, ok := a.(*ssa.IndexAddr); ok {
			if fa, ok := ia.X.(*ssa.FieldAddr); ok {
				if f := fieldOf(fa); f != nil && v.holds(f.Type()) {
					v.mark(f, from, pos)
					return
				}
			}
			v.mark(ia.X, from, pos)
		}
		v.mark(r, from, pos)
		return
	}
	local := false
	switch x := r.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		local = true
	case *ssa.Call:
		local = v.freshResult(x)
	case *ssa.Parameter:
		f := x.Parent()
		if !v.entry[f] {
			for k, p := range f.Params {
				if p == x {
					v.mark(vout{f, k}, from, pos)
				}
			}
			return
		}
	}
	if !local {
		v.keep(i, "it is stored where it outlives the call", from)
		return
	}
	if part >= 0 {
		v.mark(vpart{r, part}, from, pos)
		return
	}
	v.mark(r, from, pos)
}

func (v *vflow) isTaken(sig *types.Signature) []*ssa.Function {
	if r, ok := v.bySig[sig]; ok {
		return r
	}
	var out []*ssa.Function
	for _, f := range v.taken {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, sig) {
			out = append(out, f)
		}
	}
	v.bySig[sig] = out
	return out
}

// callees lists the module functions a call may run, and the values handed
// to their parameters. exact is false for calls through function values.
func (v *vflow) callees(c *ssa.CallCommon) (fs []*ssa.Function, args []ssa.Value) {
	args = c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
		return v.p.Implementations(c), args
	}
	if g := c.StaticCallee(); g != nil {
		if v.p.InRepo(g) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}, args
		}
		return nil, args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	if sig, ok := c.Value.Type().Underlying().(*types.Signature); ok {
		return v.isTaken(sig), args
	}
	return nil, args
}

// carriers are the external packages whose results are computed from their
// arguments.
func carriesContent(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	for _, p := range []string{"strings.", "bytes.", "strconv.", "encoding/", "crypto/", "hash.", "hash/", "net/url.", "html.", "path.", "path/", "fmt.Sprint", "fmt.Append", "unicode/", "bufio.", "regexp.", "io.", "io/ioutil.Read", "os.Read", "golang.org/x/crypto/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// sharesMemory are the external functions whose results share memory with
// their arguments.
func sharesMemory(name string) bool {
	for _, p := range []string{"bytes.Trim", "bytes.Split", "bytes.Fields", "bytes.Cut", "bytes.NewReader", "bytes.NewBuffer", "strings.Trim", "strings.Split", "strings.Fields", "strings.Cut", "strings.NewReader", "strings.SplitN"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// keeps are the external functions that keep what they are handed.
func keepsArgs(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "container/")
}

func (v *vflow) call(f *ssa.Function, i ssa.CallInstruction) {
	c := i.Common()
	pos := ssa.Instruction(i)
	name := calleeName(c)
	res, _ := i.(*ssa.Call)
	var any interface{}
	for _, a := range c.Args {
		if v.has(a) {
			any = a
		}
	}
	if c.IsInvoke() && v.has(c.Value) {
		any = c.Value
	}
	if _, isGo := i.(*ssa.Go); isGo && v.keep != nil {
		if any == nil && v.has(c.Value) {
			any = c.Value
		}
		if any != nil {
			v.keep(i, "it is handed to a goroutine", any)
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			el := false
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				el = v.holds(sl.Elem())
			}
			for k, a := range c.Args {
				if v.has(a) && (k == 0 || el) && res != nil {
					v.mark(res, a, pos)
				}
			}
			if el && len(c.Args) > 1 && v.has(c.Args[1]) {
				if v.keep == nil {
					v.mark(v.base(c.Args[0]), c.Args[1], pos)
				}
			}
		case "copy":
			el := false
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				el = v.holds(sl.Elem())
			}
			if el && v.has(c.Args[1]) {
				r := v.base(c.Args[0])
				v.mark(c.Args[0], c.Args[1], pos)
				v.mark(r, c.Args[1], pos)
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					v.store(i, u.X, c.Args[1])
				}
			}
		case "recover":
		}
		return
	}
	fs, args := v.callees(c)
	if v.stop != nil {
		n := fs[:0:0]
		for _, g := range fs {
			if !v.stop(g) {
				n = append(n, g)
			}
		}
		if len(n) == 0 && len(fs) > 0 {
			return
		}
		fs = n
	}
	for _, g := range fs {
		if len(g.Params) != len(args) {
			continue
		}
		into := false
		for k, p := range g.Params {
			if v.has(args[k]) {
				into = true
				v.mark(p, args[k], pos)
			}
		}
		if _, isClosure := c.Value.(*ssa.MakeClosure); isClosure {
			into = true
		}
		if v.has(c.Value) && !c.IsInvoke() {
			into = true
		}
		if v.keep != nil && !into {
			continue
		}
		if into {
			v.reached[g] = true
		}
		// what the callee stores through its parameters
		for k := range g.Params {
			if v.has(vout{g, k}) {
				v.store(i, args[k], vout{g, k})
				v.mark(args[k], vout{g, k}, pos)
			}
			if v.keep == nil && v.has(g.Params[k]) && v.why[g.Params[k]].at != pos {
				switch g.Params[k].Type().Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map:
					if v.has(vout{g, k}) {
						v.mark(args[k], g.Params[k], pos)
					}
				}
			}
		}
		if res == nil {
			continue
		}
		n := g.Signature.Results().Len()
		for k := 0; k < n; k++ {
			if !v.has(vret{g, k}) {
				continue
			}
			if n == 1 {
				v.mark(res, vret{g, k}, pos)
			} else {
				v.mark(vpart{res, k}, vret{g, k}, pos)
			}
		}
	}
	if len(fs) > 0 || any == nil {
		return
	}
	if v.keep != nil && keepsArgs(name) {
		v.keep(i, "it is kept by "+short(name), any)
		return
	}
	follows := carriesContent(name)
	if v.alias {
		follows = sharesMemory(name)
	}
	if !follows {
		return
	}
	if strings.Contains(name, "crypto/subtle") {
		return
	}
	if res != nil {
		rs := c.Signature().Results()
		for k := 0; k < rs.Len(); k++ {
			if isErrType(rs.At(k).Type()) || !v.holds(rs.At(k).Type()) {
				continue
			}
			if rs.Len() == 1 {
				v.mark(res, any, pos)
			} else {
				v.mark(vpart{res, k}, any, pos)
			}
		}
	}
	// what a method is given may be in its receiver afterwards
	if recv := c.Signature().Recv(); recv != nil && !v.alias {
		to := c.Value
		if !c.IsInvoke() {
			to = c.Args[0]
		}
		r, _ := v.root(to)
		v.mark(to, any, pos)
		v.mark(r, any, pos)
	} else if !v.alias && len(c.Args) > 1 && !v.has(c.Args[0]) && (strings.HasPrefix(name, "encoding/") || strings.HasPrefix(name, "fmt.Append")) {
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			v.mark(v.base(c.Args[0]), any, pos)
			v.mark(c.Args[0], any, pos)
		}
	}
}

func isErrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (v *vflow) step(f *ssa.Function, i ssa.Instruction) {
	pos := ssa.Instruction(i)
	one := func(to ssa.Value, xs ...ssa.Value) {
		for _, x := range xs {
			if v.has(x) {
				v.mark(to, x, pos)
				return
			}
		}
	}
	switch x := i.(type) {
	case *ssa.Phi:
		one(x, x.Edges...)
	case *ssa.Convert:
		if v.alias {
			a, b := x.X.Type().Underlying(), x.Type().Underlying()
			_, as := a.(*types.Slice)
			_, bs := b.(*types.Slice)
			ab, aok := a.(*types.Basic)
			bb, bok := b.(*types.Basic)
			if as && bok && bb.Info()&types.IsString != 0 || bs && aok && ab.Info()&types.IsString != 0 {
				return
			}
			// the address of a variable stands for what it holds
			if k := v.loaded(x.X); k != nil {
				if _, ok := a.(*types.Pointer); ok {
					v.mark(x, k, pos)
				}
			}
			if pt, ok := a.(*types.Pointer); ok {
				for _, f := range fields(pt.Elem()) {
					if v.has(f) {
						v.mark(x, f, pos)
					}
				}
			}
		}
		one(x, x.X)
	case *ssa.ChangeType:
		one(x, x.X)
		if v.keep == nil {
			v.linkFields(x.X.Type(), x.Type(), pos)
		}
	case *ssa.MultiConvert:
		one(x, x.X)
	case *ssa.ChangeInterface:
		one(x, x.X)
	case *ssa.MakeInterface:
		one(x, x.X)
	case *ssa.TypeAssert:
		if x.CommaOk {
			if v.has(x.X) {
				v.mark(vpart{x, 0}, x.X, pos)
			}
			return
		}
		one(x, x.X)
	case *ssa.SliceToArrayPointer:
		one(x, x.X)
	case *ssa.Slice:
		one(x, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if k := v.loaded(x.X); k != nil {
				v.mark(x, k, pos)
			}
		}
	case *ssa.Extract:
		if v.has(vpart{x.Tuple, x.Index}) {
			v.mark(x, vpart{x.Tuple, x.Index}, pos)
		} else if v.has(x.Tuple) {
			v.mark(x, x.Tuple, pos)
		}
	case *ssa.Field:
		if v.keep == nil {
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok && v.has(st.Field(x.Field)) {
				v.mark(x, st.Field(x.Field), pos)
			}
		}
		one(x, x.X)
	case *ssa.Index:
		one(x, x.X)
	case *ssa.Lookup:
		if x.CommaOk {
			if v.has(x.X) {
				v.mark(vpart{x, 0}, x.X, pos)
			}
			return
		}
		one(x, x.X)
	case *ssa.Range:
		one(x, x.X)
	case *ssa.Next:
		if v.has(x.Iter) {
			v.mark(vpart{x, 1}, x.Iter, pos)
			v.mark(vpart{x, 2}, x.Iter, pos)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || !v.alias && (x.Op == token.XOR || x.Op == token.OR || x.Op == token.AND) || v.alias && x.Op == token.SUB {
			one(x, x.X, x.Y)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if k := v.loaded(x.X); k != nil {
				v.mark(x, k, pos)
			} else if v.has(x.X) {
				v.mark(x, x.X, pos)
			}
		case token.ARROW:
			if v.has(x.X) {
				if x.CommaOk {
					v.mark(vpart{x, 0}, x.X, pos)
				} else {
					v.mark(x, x.X, pos)
				}
			}
		}
	case *ssa.FieldAddr:
		// the address of a field of something that carries it as a whole
		one(x, x.X)
	case *ssa.IndexAddr:
		one(x, x.X)
	case *ssa.Store:
		if v.has(x.Val) {
			v.store(x, x.Addr, x.Val)
		}
	case *ssa.MapUpdate:
		for _, y := range []ssa.Value{x.Key, x.Value} {
			if !v.has(y) {
				continue
			}
			if v.keep == nil {
				v.mark(x.Map, y, pos)
				if u, ok := x.Map.(*ssa.UnOp); ok && u.Op == token.MUL {
					v.store(x, u.X, y)
				}
				continue
			}
			switch b := v.base(x.Map).(type) {
			case *ssa.MakeMap:
				v.mark(b, y, pos)
			default:
				v.keep(x, "it is kept in a map", y)
			}
		}
	case *ssa.Send:
		if v.has(x.X) {
			if v.keep != nil {
				v.keep(x, "it is sent to somebody else", x.X)
				return
			}
			v.mark(x.Chan, x.X, pos)
		}
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.SendOnly && v.has(st.Send) {
				if v.keep != nil {
					v.keep(x, "it is sent to somebody else", st.Send)
					continue
				}
				v.mark(st.Chan, st.Send, pos)
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for k, b := range x.Bindings {
			if v.has(b) || v.loaded(b) != nil && isPtr(b.Type()) {
				from := interface{}(b)
				if !v.has(b) {
					from = v.loaded(b)
				}
				v.mark(g.FreeVars[k], from, pos)
				if v.keep != nil {
					v.mark(x, from, pos)
				}
			} else if v.has(g.FreeVars[k]) {
				v.mark(b, g.FreeVars[k], pos)
			}
		}
	case *ssa.Return:
		for k, r := range x.Results {
			if v.has(r) {
				v.mark(vret{f, k}, r, pos)
			}
		}
	case ssa.CallInstruction:
		v.call(f, x)
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (v *vflow) linkFields(a, b types.Type, pos ssa.Instruction) {
	sa, ok := a.Underlying().(*types.Struct)
	sb, ok2 := b.Underlying().(*types.Struct)
	if !ok || !ok2 || sa.NumFields() != sb.NumFields() {
		return
	}
	for i := 0; i < sa.NumFields(); i++ {
		x, y := sa.Field(i), sb.Field(i)
		if v.has(x) {
			v.mark(y, x, pos)
		}
		if v.has(y) {
			v.mark(x, y, pos)
		}
		v.linkFields(x.Type(), y.Type(), pos)
	}
}

// run follows everything to where it ends.
func (v *vflow) run() {
	for n := 0; ; n++ {
		v.changed = false
		for _, f := range v.fns {
			if v.only != nil && !v.only(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					v.step(f, i)
				}
			}
		}
		if !v.changed {
			return
		}
		if n > 200 {
			v.c.Fail("flow:rounds", "", "the flow of values did not settle")
			return
		}
	}
}

func (v *vflow) String() string { return fmt.Sprint(len(v.why)) }
