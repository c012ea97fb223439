package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Ival is a set of integers: an interval minus a few points.
type Ival struct {
	Lo, Hi int64 // math.MinInt64 / math.MaxInt64 mean unbounded
	Ne     []int64
}

var top = Ival{Lo: math.MinInt64, Hi: math.MaxInt64}

func (iv Ival) isTop() bool {
	return iv.Lo == math.MinInt64 && iv.Hi == math.MaxInt64 && len(iv.Ne) == 0
}

func satAdd(a, b int64) int64 {
	if a == math.MinInt64 || b == math.MinInt64 {
		return math.MinInt64
	}
	if a == math.MaxInt64 || b == math.MaxInt64 {
		return math.MaxInt64
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64
	}
	return s
}

func satMul(a, k int64) int64 {
	if k == 0 {
		return 0
	}
	if a == math.MinInt64 || a == math.MaxInt64 {
		if (a > 0) == (k > 0) {
			return math.MaxInt64
		}
		return math.MinInt64
	}
	p := a * k
	if a != 0 && (p/a != k) {
		if (a > 0) == (k > 0) {
			return math.MaxInt64
		}
		return math.MinInt64
	}
	return p
}

func (iv Ival) scale(k int64) Ival {
	if k >= 0 {
		return Ival{Lo: satMul(iv.Lo, k), Hi: satMul(iv.Hi, k)}
	}
	return Ival{Lo: satMul(iv.Hi, k), Hi: satMul(iv.Lo, k)}
}

func (iv Ival) plus(o Ival) Ival {
	lo, hi := satAdd(iv.Lo, o.Lo), satAdd(iv.Hi, o.Hi)
	if iv.Lo == math.MinInt64 || o.Lo == math.MinInt64 {
		lo = math.MinInt64
	}
	if iv.Hi == math.MaxInt64 || o.Hi == math.MaxInt64 {
		hi = math.MaxInt64
	}
	return Ival{Lo: lo, Hi: hi}
}

func (iv Ival) meet(o Ival) Ival {
	r := Ival{Lo: iv.Lo, Hi: iv.Hi, Ne: iv.Ne}
	if o.Lo > r.Lo {
		r.Lo = o.Lo
	}
	if o.Hi < r.Hi {
		r.Hi = o.Hi
	}
	for _, n := range o.Ne {
		r = r.without(n)
	}
	return r.norm()
}

func (iv Ival) without(n int64) Ival {
	for _, m := range iv.Ne {
		if m == n {
			return iv
		}
	}
	ne := append(append([]int64{}, iv.Ne...), n)
	sort.Slice(ne, func(i, j int) bool { return ne[i] < ne[j] })
	return Ival{Lo: iv.Lo, Hi: iv.Hi, Ne: ne}.norm()
}

func (iv Ival) norm() Ival {
	for changed := true; changed; {
		changed = false
		var ne []int64
		for _, n := range iv.Ne {
			switch {
			case n == iv.Lo && iv.Lo != math.MinInt64:
				iv.Lo++
				changed = true
			case n == iv.Hi && iv.Hi != math.MaxInt64:
				iv.Hi--
				changed = true
			case n < iv.Lo || n > iv.Hi:
			default:
				ne = append(ne, n)
			}
		}
		iv.Ne = ne
	}
	return iv
}

func (iv Ival) empty() bool { return iv.Lo > iv.Hi }

// implies reports whether every member of iv is in o.
func (iv Ival) implies(o Ival) bool {
	if iv.Lo < o.Lo || iv.Hi > o.Hi {
		return false
	}
	for _, n := range o.Ne {
		ok := n < iv.Lo || n > iv.Hi
		for _, m := range iv.Ne {
			ok = ok || m == n
		}
		if !ok {
			return false
		}
	}
	return true
}

func (iv Ival) String() string {
	s := "["
	if iv.Lo == math.MinInt64 {
		s += "-inf"
	} else {
		s += fmt.Sprint(iv.Lo)
	}
	s += ","
	if iv.Hi == math.MaxInt64 {
		s += "inf"
	} else {
		s += fmt.Sprint(iv.Hi)
	}
	s += "]"
	if len(iv.Ne) > 0 {
		s += fmt.Sprintf("\\%v", iv.Ne)
	}
	return s
}

// Facts is what is known about terms on a path.
type Facts struct {
	ints  map[*Term]Ival
	bools map[*Term]bool
}

func newFacts() *Facts {
	return &Facts{ints: map[*Term]Ival{}, bools: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{ints: make(map[*Term]Ival, len(f.ints)), bools: make(map[*Term]bool, len(f.bools))}
	for k, v := range f.ints {
		n.ints[k] = v
	}
	for k, v := range f.bools {
		n.bools[k] = v
	}
	return n
}

// poly splits a linear term into (normalised polynomial, sign, constant).
func (ts *Terms) poly(l *Term) (p *Term, sign, k0 int64) {
	m, k := ts.toLin(l)
	if len(m) == 0 {
		return nil, 1, k
	}
	var first *Term
	for a := range m {
		if first == nil || a.ID < first.ID {
			first = a
		}
	}
	sign = 1
	mm := make(map[*Term]int64, len(m))
	if m[first] < 0 {
		sign = -1
	}
	for a, c := range m {
		mm[a] = c * sign
	}
	return ts.fromLin(mm, 0), sign, k
}

// baseIval is what the type or operator alone says about an atom.
func (ts *Terms) baseIval(f *Facts, a *Term, depth int) Ival {
	switch a.Op {
	case "len", "cap":
		return Ival{Lo: 0, Hi: math.MaxInt64}
	case "rem":
		if n, ok := a.Args[1].IntVal(); ok && n > 0 {
			iv := Ival{Lo: -(n - 1), Hi: n - 1}
			if depth > 0 && ts.ival(f, a.Args[0], depth-1).Lo >= 0 {
				iv.Lo = 0
			}
			return iv
		}
	case "quo":
		if n, ok := a.Args[1].IntVal(); ok && n > 0 && depth > 0 {
			x := ts.ival(f, a.Args[0], depth-1)
			r := top
			if x.Lo != math.MinInt64 {
				r.Lo = x.Lo / n
			}
			if x.Hi != math.MaxInt64 {
				r.Hi = x.Hi / n
			}
			return r
		}
		if depth > 0 {
			x, y := ts.ival(f, a.Args[0], depth-1), ts.ival(f, a.Args[1], depth-1)
			if x.Lo >= 0 && y.Lo >= 1 {
				r := Ival{Lo: 0, Hi: x.Hi}
				// x >= y gives a quotient of at least one
				if depth > 1 && ts.ival(f, ts.Sub(a.Args[0], a.Args[1]), depth-2).Lo >= 0 {
					r.Lo = 1
				}
				return r
			}
		}
	case "mul":
		if depth > 0 {
			x, y := ts.ival(f, a.Args[0], depth-1), ts.ival(f, a.Args[1], depth-1)
			if x.Lo >= 0 && y.Lo >= 0 {
				r := Ival{Lo: satMul(x.Lo, y.Lo), Hi: math.MaxInt64}
				return r
			}
		}
	case "b2i":
		return Ival{Lo: 0, Hi: 1}
	case "shr":
		if depth > 0 {
			x := ts.ival(f, a.Args[0], depth-1)
			if x.Lo >= 0 {
				return Ival{Lo: 0, Hi: x.Hi}
			}
		}
	case "and":
		for i := 0; i < 2; i++ {
			if n, ok := a.Args[i].IntVal(); ok && n >= 0 {
				return Ival{Lo: 0, Hi: n}
			}
		}
	}
	if a.T != nil {
		if iv, ok := typeIval(a.T); ok {
			return iv
		}
	}
	return top
}

func typeIval(t types.Type) (Ival, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return top, false
	}
	switch b.Kind() {
	case types.Uint8:
		return Ival{Lo: 0, Hi: math.MaxUint8}, true
	case types.Uint16:
		return Ival{Lo: 0, Hi: math.MaxUint16}, true
	case types.Uint32:
		return Ival{Lo: 0, Hi: math.MaxUint32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return Ival{Lo: 0, Hi: math.MaxInt64}, true
	case types.Int8:
		return Ival{Lo: math.MinInt8, Hi: math.MaxInt8}, true
	case types.Int16:
		return Ival{Lo: math.MinInt16, Hi: math.MaxInt16}, true
	case types.Int32:
		return Ival{Lo: math.MinInt32, Hi: math.MaxInt32}, true
	}
	return top, false
}

// ival bounds a linear term.
func (ts *Terms) ival(f *Facts, l *Term, depth int) Ival {
	m, k := ts.toLin(l)
	if len(m) == 0 {
		return Ival{Lo: k, Hi: k}
	}
	p, sign, k0 := ts.poly(l)
	res := top
	apply := func(iv Ival) {
		x := iv.scale(sign).plus(Ival{Lo: k0, Hi: k0})
		if sign == 1 {
			for _, n := range iv.Ne {
				x.Ne = append(x.Ne, n+k0)
			}
		} else {
			for _, n := range iv.Ne {
				x.Ne = append(x.Ne, -n+k0)
			}
		}
		sort.Slice(x.Ne, func(i, j int) bool { return x.Ne[i] < x.Ne[j] })
		res = res.meet(x)
	}
	if iv, ok := f.ints[p]; ok {
		apply(iv)
	}
	// sum of the atoms
	sum := Ival{}
	for a, c := range m {
		iv := ts.baseIval(f, a, depth)
		if fa, ok := f.ints[a]; ok {
			iv = iv.meet(fa)
		}
		sum = sum.plus(iv.scale(c))
	}
	sum = sum.plus(Ival{Lo: k, Hi: k})
	res = res.meet(sum)
	if depth > 0 {
		// P = c*Q + rest for a known fact Q sharing an atom with P
		for q, qi := range f.ints {
			if q == p {
				continue
			}
			qm, _ := ts.toLin(q)
			for a, qc := range qm {
				pc, ok := m[a]
				if !ok || pc%qc != 0 {
					continue
				}
				c := pc / qc
				rest := ts.AddK(l, -c, q)
				rm, _ := ts.toLin(rest)
				if len(rm) >= len(m)+len(qm)-1 && len(qm) > 1 && len(m) > 0 && len(rm) > len(m) {
					continue
				}
				ri := ts.ival(f, rest, depth-1)
				r := Ival{Lo: ri.Lo, Hi: ri.Hi}.plus(Ival{Lo: qi.Lo, Hi: qi.Hi}.scale(c))
				res = res.meet(r)
				break
			}
		}
	}
	return res
}

// Decide evaluates a boolean term.
func (ts *Terms) decide(f *Facts, c *Term) (val, known bool) {
	if b, ok := c.BoolVal(); ok {
		return b, true
	}
	if v, ok := f.bools[c]; ok {
		return v, true
	}
	switch c.Op {
	case "not":
		v, k := ts.decide(f, c.Args[0])
		return !v, k
	case "le0":
		iv := ts.ival(f, c.Args[0], 3)
		if iv.empty() {
			return true, true
		}
		if iv.Hi <= 0 {
			return true, true
		}
		if iv.Lo > 0 {
			return false, true
		}
	case "eq0":
		iv := ts.ival(f, c.Args[0], 3)
		if iv.Lo == 0 && iv.Hi == 0 {
			return true, true
		}
		if iv.Lo > 0 || iv.Hi < 0 {
			return false, true
		}
		for _, n := range iv.Ne {
			if n == 0 {
				return false, true
			}
		}
	case "and2":
		a, ka := ts.decide(f, c.Args[0])
		b, kb := ts.decide(f, c.Args[1])
		if ka && !a || kb && !b {
			return false, true
		}
		if ka && kb {
			return true, true
		}
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if a == b && !(a.T != nil && isFloat(a.T)) { // NaN is not equal to itself
			return true, true
		}
		if b.Op == "const" {
			a, b = b, a
		}
		if a.Op == "const" {
			for t, v := range f.bools {
				if !v || t.Op != "eq" {
					continue
				}
				var o *Term
				if t.Args[0] == b {
					o = t.Args[1]
				} else if t.Args[1] == b {
					o = t.Args[0]
				}
				if o != nil && o.Op == "const" && o != a && a.C.Kind() == o.C.Kind() {
					if !constant.Compare(a.C, 39, o.C) {
						return false, true
					}
				}
			}
		}
	case "isnil":
		x := c.Args[0]
		for t, v := range f.bools {
			// x equal to a non-nil value
			if v && t.Op == "eq" {
				if t.Args[0] == x && t.Args[1].NonNil() || t.Args[1] == x && t.Args[0].NonNil() {
					return false, true
				}
				// x equal to a value whose nilness is known
				var o *Term
				if t.Args[0] == x {
					o = t.Args[1]
				} else if t.Args[1] == x {
					o = t.Args[0]
				}
				if o != nil {
					if o.Op == "global" || o.Op == "errconst" {
						return false, true
					}
				}
			}
			if v && t.Op == "typeis" && t.Args[0] == x {
				return false, true
			}
		}
	case "typeis":
		x := c.Args[0]
		if v, ok := f.bools[ts.IsNil(x)]; ok && v {
			return false, true
		}
		for t, v := range f.bools {
			if v && t.Op == "typeis" && t.Args[0] == x && t.Name != c.Name &&
				t.T != nil && c.T != nil && !types.IsInterface(t.T) && !types.IsInterface(c.T) {
				return false, true
			}
		}
	}
	return false, false
}

// assume adds a fact; false means the path is infeasible.
func (ts *Terms) assume(f *Facts, c *Term, val bool) bool {
	if !val {
		if c.Op == "le0" {
			return ts.assume(f, ts.Not(c), true)
		}
	}
	if v, known := ts.decide(f, c); known {
		return v == val
	}
	switch c.Op {
	case "not":
		return ts.assume(f, c.Args[0], !val)
	case "and2":
		if val {
			return ts.assume(f, c.Args[0], true) && ts.assume(f, c.Args[1], true)
		}
		f.bools[c] = false
		return true
	case "le0": // val is true
		p, sign, k := ts.poly(c.Args[0])
		iv := Ival{Lo: math.MinInt64, Hi: math.MaxInt64}
		if sign > 0 {
			iv.Hi = -k
		} else {
			iv.Lo = k
		}
		return ts.meetFact(f, p, iv)
	case "eq0":
		p, sign, k := ts.poly(c.Args[0])
		n := -k * sign
		if val {
			return ts.meetFact(f, p, Ival{Lo: n, Hi: n})
		}
		old, ok := f.ints[p]
		if !ok {
			old = top
		}
		r := old.without(n)
		// use what else is known to turn a disequality into a bound
		iv := ts.ival(f, p, 3)
		if n == iv.Lo && iv.Lo != math.MinInt64 {
			r.Lo = maxi(r.Lo, n+1)
		}
		if n == iv.Hi && iv.Hi != math.MaxInt64 {
			r.Hi = mini(r.Hi, n-1)
		}
		r = r.norm()
		if r.empty() {
			return false
		}
		f.ints[p] = r
		return true
	}
	f.bools[c] = val
	return true
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (ts *Terms) meetFact(f *Facts, p *Term, iv Ival) bool {
	if old, ok := f.ints[p]; ok {
		iv = old.meet(iv)
	}
	if iv.empty() {
		return false
	}
	// a whole-state consistency check against what else bounds p
	cur := ts.ival(f, p, 3)
	if cur.meet(iv).empty() {
		return false
	}
	f.ints[p] = iv
	return true
}

func (f *Facts) key(b *strings.Builder) {
	var ks []*Term
	for k := range f.ints {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		fmt.Fprintf(b, "%d%s;", k.ID, f.ints[k])
	}
	b.WriteByte('|')
	ks = ks[:0]
	for k := range f.bools {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		fmt.Fprintf(b, "%d=%v;", k.ID, f.bools[k])
	}
}

func (f *Facts) String() string {
	var out []string
	for k, v := range f.ints {
		out = append(out, k.String()+" in "+v.String())
	}
	for k, v := range f.bools {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// subst applies a renaming; lost terms drop their facts. It returns false if
// the facts became contradictory.
func (ts *Terms) substFacts(f *Facts, sub func(*Term) *Term) (*Facts, bool) {
	n := newFacts()
	ok := true
	// deterministic order
	var ks []*Term
	for k := range f.ints {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		v := f.ints[k]
		r := sub(k)
		if r == nil {
			continue
		}
		if r == k {
			if old, has := n.ints[k]; has {
				v = old.meet(v)
			}
			n.ints[k] = v
			continue
		}
		p, sign, k0 := ts.poly(r)
		if p == nil {
			if k0 < v.Lo || k0 > v.Hi {
				ok = false
			}
			continue
		}
		// v bounds sign*p + k0
		x := v.plus(Ival{Lo: -k0, Hi: -k0}).scale(sign)
		for _, m := range v.Ne {
			x.Ne = append(x.Ne, (m-k0)*sign)
		}
		sort.Slice(x.Ne, func(i, j int) bool { return x.Ne[i] < x.Ne[j] })
		if old, has := n.ints[p]; has {
			x = old.meet(x)
		}
		if x.empty() {
			ok = false
		}
		n.ints[p] = x
	}
	ks = ks[:0]
	for k := range f.bools {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		v := f.bools[k]
		r := sub(k)
		if r == nil {
			continue
		}
		if r == k {
			n.bools[k] = v
			continue
		}
		if b, isb := r.BoolVal(); isb {
			if b != v {
				ok = false
			}
			continue
		}
		if r.Op == "not" {
			n.bools[r.Args[0]] = !v
			continue
		}
		if r.Op == "le0" || r.Op == "eq0" {
			if !ts.assume(n, r, v) {
				ok = false
			}
			continue
		}
		n.bools[r] = v
	}
	return n, ok
}
