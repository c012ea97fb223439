// Package flow is a path-sensitive dataflow engine over virtually inlined SSA.
//
// Facts are attached to symbolic value names (terms). Branch conditions refine
// the facts, loops are widened at their headers until the set of abstract
// states at every program point is stable, and a rule observes the events of
// every abstract path (calls, stores, sends, returns) through an automaton
// whose registers are part of the abstract state.
//
// No code of the analysed program is run and no input is ever enumerated.
package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic name for a value.
type Term struct {
	Op   string
	Name string
	C    constant.Value
	T    types.Type
	Args []*Term
	K    []int64 // coefficients of Args for "lin"
	K0   int64
	Fn   *ssa.Function
	Obj  types.Object
	ID   int
	deep int
	// the symbols (redefinable identities) mentioned in the term, sorted ids
	syms map[*Term]bool
}

// Terms interns terms.
type Terms struct {
	tab  map[string]*Term
	next int
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (ts *Terms) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.C != nil {
		b.WriteString(t.C.ExactString())
	}
	b.WriteByte('|')
	switch t.Op {
	case "const", "nil", "zero", "conv", "iface", "load":
		if t.T != nil {
			b.WriteString(t.T.String())
		}
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "|%p", t.Fn)
	}
	if t.Obj != nil {
		fmt.Fprintf(&b, "|%p", t.Obj)
	}
	b.WriteByte('(')
	for i, a := range t.Args {
		if t.K != nil {
			b.WriteString(strconv.FormatInt(t.K[i], 10))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.ID))
		b.WriteByte(',')
	}
	b.WriteString(strconv.FormatInt(t.K0, 10))
	key := b.String()
	if old, ok := ts.tab[key]; ok {
		return old
	}
	ts.next++
	t.ID = ts.next
	for _, a := range t.Args {
		if a.deep >= t.deep {
			t.deep = a.deep + 1
		}
		for s := range a.syms {
			if t.syms == nil {
				t.syms = map[*Term]bool{}
			}
			t.syms[s] = true
		}
	}
	if t.Op == "sym" || t.Op == "call" || t.Op == "alloc" {
		if t.syms == nil {
			t.syms = map[*Term]bool{}
		}
		t.syms[t] = true
	}
	ts.tab[key] = t
	return t
}

// Mentions reports whether t mentions the symbol s.
func (t *Term) Mentions(s *Term) bool { return t != nil && t.syms[s] }

// Depth returns the nesting depth of the term.
func (t *Term) Depth() int { return t.deep }

// String renders the term for people; deep terms are abbreviated.
func (t *Term) String() string { return t.str(7) }

func (t *Term) str(depth int) string {
	if t == nil {
		return "<none>"
	}
	if depth == 0 && len(t.Args) > 0 {
		return fmt.Sprintf("%s#%d", t.Op, t.ID)
	}
	args := make([]string, len(t.Args))
	for i, a := range t.Args {
		args[i] = a.str(depth - 1)
	}
	switch t.Op {
	case "const":
		return t.C.String()
	case "nil":
		return "nil"
	case "sym":
		return "$" + t.Name
	case "alloc":
		return "&" + t.Name
	case "lin":
		var parts []string
		for i, a := range args {
			switch t.K[i] {
			case 1:
				parts = append(parts, "+"+a)
			case -1:
				parts = append(parts, "-"+a)
			default:
				parts = append(parts, fmt.Sprintf("%+d*%s", t.K[i], a))
			}
		}
		if t.K0 != 0 {
			parts = append(parts, fmt.Sprintf("%+d", t.K0))
		}
		return "(" + strings.Join(parts, "") + ")"
	case "field":
		return args[0] + "." + t.Name
	case "faddr":
		return args[0] + "->" + t.Name
	case "load":
		return "*" + args[0]
	case "global":
		return t.Name
	case "func":
		return t.Name
	}
	if t.Name != "" {
		i := strings.LastIndex(t.Name, "@")
		n := t.Name
		if t.Op == "call" && i > 0 {
			n = n[:i]
		}
		return t.Op + ":" + n + "(" + strings.Join(args, ", ") + ")"
	}
	return t.Op + "(" + strings.Join(args, ", ") + ")"
}

// --- constructors ---

func (ts *Terms) Sym(name string, t types.Type) *Term {
	return ts.intern(&Term{Op: "sym", Name: name, T: t})
}

func (ts *Terms) Int(n int64) *Term {
	return ts.intern(&Term{Op: "const", C: constant.MakeInt64(n)})
}

func (ts *Terms) Bool(b bool) *Term {
	return ts.intern(&Term{Op: "const", C: constant.MakeBool(b)})
}

func (ts *Terms) Str(s string) *Term {
	return ts.intern(&Term{Op: "const", C: constant.MakeString(s)})
}

func (ts *Terms) Nil() *Term { return ts.intern(&Term{Op: "nil"}) }

func (ts *Terms) Const(c *ssa.Const) *Term {
	if c.Value == nil {
		return ts.Zero(c.Type())
	}
	v := c.Value
	if isFloat(c.Type()) {
		v = constant.ToFloat(v)
		return ts.intern(&Term{Op: "const", Name: "f", C: v})
	}
	if v.Kind() == constant.Float && isInteger(c.Type()) {
		v = constant.ToInt(v)
	}
	return ts.intern(&Term{Op: "const", C: v})
}

// Float is a floating point constant.
func (ts *Terms) Float(f float64) *Term {
	return ts.intern(&Term{Op: "const", Name: "f", C: constant.ToFloat(constant.MakeFloat64(f))})
}

// Zero returns the zero value of a type.
func (ts *Terms) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return ts.Int(0)
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		case u.Info()&types.IsFloat != 0:
			return ts.intern(&Term{Op: "const", Name: "f", C: constant.MakeFloat64(0)})
		}
		return ts.Nil()
	case *types.Struct, *types.Array, *types.Tuple:
		return ts.intern(&Term{Op: "zero", T: t})
	}
	return ts.Nil()
}

func (ts *Terms) Global(g *ssa.Global) *Term {
	return ts.intern(&Term{Op: "global", Name: g.String(), Obj: g.Object()})
}

func (ts *Terms) Func(f *ssa.Function) *Term {
	return ts.intern(&Term{Op: "func", Name: f.String(), Fn: f})
}

func (ts *Terms) Closure(f *ssa.Function, binds []*Term) *Term {
	return ts.intern(&Term{Op: "closure", Name: f.String(), Fn: f, Args: binds})
}

// Mk builds an uninterpreted term.
func (ts *Terms) Mk(op, name string, t types.Type, args ...*Term) *Term {
	return ts.intern(&Term{Op: op, Name: name, T: t, Args: args})
}

func (ts *Terms) Iface(conc types.Type, x *Term) *Term {
	return ts.intern(&Term{Op: "iface", T: conc, Args: []*Term{x}})
}

func (ts *Terms) FieldAddr(base *Term, fld *types.Var) *Term {
	return ts.intern(&Term{Op: "faddr", Name: fld.Name(), Obj: fld, T: fld.Type(), Args: []*Term{base}})
}

func (ts *Terms) IndexAddr(base, idx *Term) *Term {
	return ts.intern(&Term{Op: "iaddr", Args: []*Term{base, idx}})
}

func (ts *Terms) Field(x *Term, i int, st *types.Struct) *Term {
	fld := st.Field(i)
	switch x.Op {
	case "struct":
		if i < len(x.Args) {
			return x.Args[i]
		}
	case "zero":
		return ts.Zero(fld.Type())
	}
	return ts.intern(&Term{Op: "field", Name: fld.Name(), Obj: fld, T: fld.Type(), Args: []*Term{x}})
}

// Struct builds a struct value; eta-reduces when all fields project one value.
func (ts *Terms) Struct(t types.Type, fields []*Term) *Term {
	st := t.Underlying().(*types.Struct)
	var base *Term
	ok := true
	for i, f := range fields {
		if zst, isz := st.Field(i).Type().Underlying().(*types.Struct); isz && zst.NumFields() == 0 {
			continue
		}
		if f.Op != "field" || f.Obj != types.Object(st.Field(i)) || base != nil && f.Args[0] != base {
			ok = false
			break
		}
		base = f.Args[0]
	}
	if ok && base != nil && base.T != nil && types.Identical(base.T, t) {
		return base
	}
	return ts.intern(&Term{Op: "struct", Name: t.String(), T: t, Args: fields})
}

// --- linear integer arithmetic ---

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// IntVal returns the constant integer value of the term.
func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.Name == "" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

// BoolVal returns the constant boolean value of the term.
func (t *Term) BoolVal() (val, ok bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// StrVal returns the constant string value of the term.
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (ts *Terms) toLin(t *Term) (map[*Term]int64, int64) {
	if n, ok := t.IntVal(); ok {
		return nil, n
	}
	if t.Op == "lin" {
		m := make(map[*Term]int64, len(t.Args))
		for i, a := range t.Args {
			m[a] = t.K[i]
		}
		return m, t.K0
	}
	return map[*Term]int64{t: 1}, 0
}

func (ts *Terms) fromLin(m map[*Term]int64, k0 int64) *Term {
	var atoms []*Term
	for a, k := range m {
		if k != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return ts.Int(k0)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	if len(atoms) == 1 && k0 == 0 && m[atoms[0]] == 1 {
		return atoms[0]
	}
	ks := make([]int64, len(atoms))
	for i, a := range atoms {
		ks[i] = m[a]
	}
	return ts.intern(&Term{Op: "lin", Args: atoms, K: ks, K0: k0})
}

// AddK returns a + k*b.
func (ts *Terms) AddK(a *Term, k int64, b *Term) *Term {
	ma, ka := ts.toLin(a)
	mb, kb := ts.toLin(b)
	m := make(map[*Term]int64, len(ma)+len(mb))
	for t, c := range ma {
		m[t] = c
	}
	for t, c := range mb {
		m[t] += k * c
	}
	return ts.fromLin(m, ka+k*kb)
}

func (ts *Terms) Add(a, b *Term) *Term        { return ts.AddK(a, 1, b) }
func (ts *Terms) Sub(a, b *Term) *Term        { return ts.AddK(a, -1, b) }
func (ts *Terms) AddI(a *Term, n int64) *Term { return ts.AddK(a, n, ts.Int(1)) }

// Scale returns k*a.
func (ts *Terms) Scale(k int64, a *Term) *Term { return ts.AddK(ts.Int(0), k, a) }

// ConstDiff returns a-b if it is a constant.
func (ts *Terms) ConstDiff(a, b *Term) (int64, bool) {
	return ts.Sub(a, b).IntVal()
}

func (ts *Terms) le0(l *Term) *Term {
	if n, ok := l.IntVal(); ok {
		return ts.Bool(n <= 0)
	}
	return ts.intern(&Term{Op: "le0", Args: []*Term{l}})
}

func (ts *Terms) eq0(l *Term) *Term {
	if n, ok := l.IntVal(); ok {
		return ts.Bool(n == 0)
	}
	m, k := ts.toLin(l)
	// normalise the sign: the atom with the lowest id is positive
	var first *Term
	for a := range m {
		if first == nil || a.ID < first.ID {
			first = a
		}
	}
	if m[first] < 0 {
		for a := range m {
			m[a] = -m[a]
		}
		k = -k
	}
	return ts.intern(&Term{Op: "eq0", Args: []*Term{ts.fromLin(m, k)}})
}

// Not negates a boolean term.
func (ts *Terms) Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return ts.Bool(!b)
	}
	switch t.Op {
	case "not":
		return t.Args[0]
	case "le0": // !(l<=0) == 1-l <= 0
		return ts.le0(ts.AddK(ts.Int(1), -1, t.Args[0]))
	}
	return ts.intern(&Term{Op: "not", Args: []*Term{t}})
}

// NonNil reports whether the term is structurally known to not be nil.
func (t *Term) NonNil() bool {
	switch t.Op {
	case "alloc", "closure", "func", "iface", "global", "faddr", "iaddr", "make", "newerr", "struct":
		return true
	case "wrap":
		return t.Args[0].NonNil()
	case "conv":
		return t.Args[0].NonNil()
	}
	return false
}

// IsNil builds the boolean x == nil.
func (ts *Terms) IsNil(x *Term) *Term {
	for {
		switch x.Op {
		case "nil":
			return ts.Bool(true)
		case "wrap", "conv":
			x = x.Args[0]
			continue
		}
		break
	}
	if x.NonNil() {
		return ts.Bool(false)
	}
	return ts.intern(&Term{Op: "isnil", Args: []*Term{x}})
}

// Eq builds a == b.
func (ts *Terms) Eq(a, b *Term, typ types.Type) *Term {
	if typ != nil && isInteger(typ) {
		return ts.eq0(ts.Sub(a, b))
	}
	if typ != nil && types.IsInterface(typ) || a.Op == "nil" || b.Op == "nil" {
		if a.Op == "nil" {
			return ts.IsNil(b)
		}
		if b.Op == "nil" {
			return ts.IsNil(a)
		}
	}
	if a == b && (typ == nil || !isFloat(typ)) {
		return ts.Bool(true)
	}
	if ab, ok := a.BoolVal(); ok {
		if ab {
			return b
		}
		return ts.Not(b)
	}
	if bb, ok := b.BoolVal(); ok {
		if bb {
			return a
		}
		return ts.Not(a)
	}
	if a.Op == "const" && b.Op == "const" {
		return ts.Bool(constant.Compare(a.C, 39, b.C)) // token.EQL
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return ts.Bool(a == b)
	}
	return ts.intern(&Term{Op: "eq", Args: []*Term{a, b}})
}

// Subst replaces symbols in t. A nil replacement marks the term as lost and
// makes Subst return nil.
func (ts *Terms) Subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	hit := false
	for s := range m {
		if t.syms[s] {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	return ts.subst(t, m, map[*Term]*Term{})
}

func (ts *Terms) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 || len(t.syms) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		n := ts.subst(a, m, memo)
		if n == nil {
			memo[t] = nil
			return nil
		}
		args[i] = n
		if n != a {
			same = false
		}
	}
	if same {
		memo[t] = t
		return t
	}
	r := ts.rebuild(t, args)
	memo[t] = r
	return r
}

// rebuild makes a term like t from other parts.
func (ts *Terms) rebuild(t *Term, args []*Term) *Term {
	var r *Term
	switch {
	case t.Op == "lin":
		acc := ts.Int(t.K0)
		for i, a := range args {
			acc = ts.AddK(acc, t.K[i], a)
		}
		r = acc
	case t.Op == "le0":
		r = ts.le0(args[0])
	case t.Op == "eq0":
		r = ts.eq0(args[0])
	case t.Op == "not":
		r = ts.Not(args[0])
	case t.Op == "isnil":
		r = ts.IsNil(args[0])
	case t.Op == "struct":
		r = ts.Struct(t.T, args)
	default:
		cp := *t
		cp.Args = args
		cp.syms = nil
		cp.deep = 0
		r = ts.intern(&cp)
	}
	return r
}

// Walk calls f on every subterm, outermost first, until f returns false for a
// subtree.
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// Le is the condition a <= b.
func (ts *Terms) Le(a, b *Term) *Term { return ts.le0(ts.Sub(a, b)) }
