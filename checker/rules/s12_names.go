package rules

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// The encoder of names and their decoder are read as two transducers over
// bytes and composed: the encoder runs on an input that is not chosen until it
// looks at it, the decoder consumes what the encoder appends, and taking bytes
// off the end again takes the decoder back. What both know is kept relative to
// the last byte of the name that is no dot, which leaves finitely many
// states; all of them are visited.

// a position in the name (m), the directory (d) or the decoded name (o),
// relative to where the current window starts
type npos struct {
	sp  byte
	off int
}

// the end of the input in a space
type nend struct {
	sp  byte
	off int
}

// the input, from lo to hi (hi may be the end)
type nin struct {
	sp     byte
	lo     npos
	hi     npos
	bounds bool // hi is set
	from   bool // lo is set
}

// the buffer written, up to a position
type nbuf struct{ n npos }

type nopaque struct{}
type narr struct{ at *[]any }
type nelem struct {
	at *[]any
	i  int
}
type ntuple []any

type nframe struct {
	fn   *ssa.Function
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	i    int
	regs map[ssa.Value]any
	ret  ssa.Value
}

// machine is one of the two functions at some point of its run.
type machine struct {
	in, out byte
	frames  []*nframe
	done    bool
	result  []any
}

func (m *machine) clone() *machine {
	n := &machine{in: m.in, out: m.out, done: m.done, result: m.result}
	arrays := map[*[]any]*[]any{}
	copyOf := func(at *[]any) *[]any {
		if arrays[at] == nil {
			cp := append([]any(nil), *at...)
			arrays[at] = &cp
		}
		return arrays[at]
	}
	for _, f := range m.frames {
		g := *f
		g.regs = make(map[ssa.Value]any, len(f.regs))
		for k, v := range f.regs {
			switch e := v.(type) {
			case narr:
				v = narr{copyOf(e.at)}
			case nelem:
				v = nelem{copyOf(e.at), e.i}
			}
			g.regs[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

// nstop says why a machine cannot go on.
type nstop struct {
	need  bool // the next byte of the input, or its end
	why   string
	at    ssa.Instruction
	panic bool
}

// nspace is what is known of one of the three strings.
type nspace struct {
	b     []int // bytes from the window's start
	eof   bool
	exact bool // the window starts where the string does
}

// an entry is the decoder's side after some byte of the directory.
type nentry struct {
	dec  *machine
	out  []int // decoded, from the window's start
	comp int   // the path component so far: 0 empty, 1 ".", 2 "..", 3 other
	bad  string
}

type nstate struct {
	enc    *machine
	m      nspace
	d      []int // the directory, from the window's start
	dExact bool
	eExact bool // nothing is before the directory in the buffer
	stack  []*nentry
	path   string // for reports
}

type nrun struct {
	c        *Ctx
	live     map[*ssa.Function]map[ssa.Instruction]map[ssa.Value]bool
	class    map[*ssa.Function]map[ssa.Value]byte
	enc, dec *ssa.Function
	back     int
	seen     map[string]bool
	states   int
	steps    int
	pruned   int
	fns      map[*ssa.Function]bool
	fail     string
	failAt   token.Pos
	lookback bool
}

func init() {
	register(&Rule{
		ID: "S12", Technique: "composition of the name encoder and decoder as byte transducers read from the SSA, visited over all bytes to a fixpoint",
		Explain: "The encoder of names and the decoder of directories are read from the SSA as transducers and composed: the encoder chooses each byte of the name (all 256, or the end) when it looks at it, every byte it appends is consumed by the decoder, and taking bytes off again takes the decoder back. What is kept is relative to the last byte of the name that is no dot, which leaves finitely many states, all of which are visited: no path component is empty, \".\" or \"..\", the decoder accepts, and what it decodes is the name. The paths of newMetric, of the data files and of the listing are followed from there: a metric's directory is the data directory, a separator and the encoded name, its files are the numbers in it, and what is listed is what the directory decodes to.",
		Assume:  []string{"components longer than 255 bytes are refused by the file system, so runs of dots that need more are not followed", "the file system keeps names as bytes, and distinguishes all of them"},
		Min:     2,
		Run:     runS12,
	})
}

func has(b []int, x int) bool {
	for _, y := range b {
		if y == x {
			return true
		}
	}
	return false
}

func runS12(c *Ctx) {
	enc, dec := c.Fn(filesPkg, "metricToDir"), c.Fn(filesPkg, "dirToMetric")
	if enc == nil || dec == nil {
		return
	}
	var r *nrun
	for _, exact := range []bool{true, false} {
		key := "names:empty buffer"
		if !exact {
			key = "names:after the data directory"
		}
		c.Oblige(key, c.P.Pos(enc.Pos()), "every name is encoded as path components that are neither empty nor special, and decoded again", true)
		for back := 0; back <= 1; back++ {
			r = &nrun{c: c, enc: enc, dec: dec, back: back, seen: map[string]bool{}, fns: map[*ssa.Function]bool{},
				live: map[*ssa.Function]map[ssa.Instruction]map[ssa.Value]bool{}, class: map[*ssa.Function]map[ssa.Value]byte{}}
			r.explore(exact)
			if !r.lookback {
				break
			}
		}
		if r.fail != "" {
			pos := enc.Pos()
			if r.failAt.IsValid() {
				pos = r.failAt
			}
			c.Fail(key, c.P.Pos(pos), "%s", r.fail)
		}
		c.Count("states of encoder and decoder, "+strings.TrimPrefix(key, "names:"), r.states)
		c.Count("transitions, "+strings.TrimPrefix(key, "names:"), r.steps)
		if r.fail == "" && r.states < 20 {
			c.Fail(key, c.P.Pos(enc.Pos()), "only %d states were visited", r.states)
		}
	}
	c.Count("functions of the encoder and decoder", len(r.fns))
	runS12Paths(c, enc, dec)
}

func (r *nrun) start(f *ssa.Function, in, out byte) *machine {
	fr := &nframe{fn: f, b: f.Blocks[0], regs: map[ssa.Value]any{}}
	m := &machine{in: in, out: out, frames: []*nframe{fr}}
	seenBuf := false
	for _, p := range f.Params {
		switch {
		case !seenBuf && isBytes(p.Type()):
			fr.regs[p] = nbuf{npos{out, 0}}
			seenBuf = true
		case isBytes(p.Type()) || types.Identical(p.Type().Underlying(), types.Typ[types.String]):
			fr.regs[p] = nin{sp: in, lo: npos{in, 0}}
		default:
			fr.regs[p] = nopaque{}
		}
	}
	return m
}

func (r *nrun) stop(at ssa.Instruction, format string, args ...any) *nstop {
	return &nstop{why: fmt.Sprintf(format, args...), at: at}
}

func (r *nrun) explore(exact bool) {
	st := &nstate{enc: r.start(r.enc, 'm', 'd'), dExact: true, eExact: exact}
	st.m.exact = true
	e := &nentry{dec: r.start(r.dec, 'd', 'o')}
	st.stack = []*nentry{e}
	if s := r.feed(st, e); s != nil && !s.need {
		r.report(s, st)
		return
	}
	type item struct {
		from *nstate
		b    int // the next byte; -1 for none, 256 for the end
	}
	work := []item{{st, -1}}
	for len(work) > 0 && r.fail == "" {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.b > 0 {
			work = append(work, item{it.from, it.b - 1})
		}
		st := it.from
		if it.b >= 0 {
			r.steps++
			st = it.from.clone()
			if it.b == 256 {
				st.m.eof = true
			} else {
				st.m.b = append(st.m.b, it.b)
				st.path += string(rune(it.b))
				if len(st.path) > 60 {
					st.path = st.path[len(st.path)-60:]
				}
			}
		}
		s := r.runEnc(st)
		if r.lookback {
			return
		}
		if s != nil && !s.need {
			r.report(s, st)
			return
		}
		if s == nil {
			r.finish(st)
			continue
		}
		// it asks for the next byte
		if !r.rebase(st) {
			return
		}
		if n := len(st.d); n > 255 && !has(st.d[n-256:], '/') {
			r.pruned++ // no file system keeps such a component
			continue
		}
		if len(st.m.b) > 200 || len(st.d) > 900 {
			r.report(r.stop(nil, "the encoder or the decoder lag behind the name further than this check follows"), st)
			return
		}
		k := r.key(st)
		if r.seen[k] {
			continue
		}
		r.seen[k] = true
		r.states++
		if r.states > 5000 {
			r.report(r.stop(nil, "the encoder keeps more about the name than this check can follow, and may not forget it"), st)
			return
		}
		work = append(work, item{st, 256})
	}
}

func (r *nrun) report(s *nstop, st *nstate) {
	if r.fail != "" {
		return
	}
	r.fail = s.why + " (for a name that ends in " + strconv.Quote(st.path) + ")"
	if s.at != nil {
		r.failAt = s.at.Pos()
		if !r.failAt.IsValid() {
			r.failAt = s.at.Parent().Pos()
		}
	}
}

func (st *nstate) clone() *nstate {
	n := *st
	n.enc = st.enc.clone()
	n.m.b = append([]int(nil), st.m.b...)
	n.d = append([]int(nil), st.d...)
	n.stack = append([]*nentry(nil), st.stack...) // entries do not change
	return &n
}

// runEnc runs the encoder until it returns or needs a byte.
func (r *nrun) runEnc(st *nstate) *nstop {
	w := &nworld{r: r, in: &st.m, outLen: func() int { return len(st.d) }, outExact: st.eExact && st.dExact}
	w.put = func(b int) *nstop {
		st.d = append(st.d, b)
		top := st.stack[len(st.stack)-1]
		e := &nentry{dec: top.dec.clone(), out: append([]int(nil), top.out...), comp: top.comp, bad: top.bad}
		if e.bad == "" {
			switch {
			case b == '/':
				if e.comp != 3 {
					e.bad = []string{"an empty path component is written", "a path component is \".\"", "a path component is \"..\""}[e.comp]
				}
				e.comp = 0
			case b == '.' && e.comp < 2:
				e.comp++
			case b == 0:
				e.bad = ""
				e.comp = 3
			default:
				e.comp = 3
			}
			if s := r.feed(st, e); s != nil && !s.need {
				e.bad = s.why
			}
		}
		st.stack = append(st.stack, e)
		return nil
	}
	w.cut = func(n int, at ssa.Instruction) *nstop {
		if n < 0 || len(st.stack)-(len(st.d)-n) < 1 {
			return r.stop(at, "more may be taken off the directory than was written for the dots at its end")
		}
		st.stack = st.stack[:len(st.stack)-(len(st.d)-n)]
		st.d = st.d[:n]
		return nil
	}
	w.outAt = func(i int) (int, bool) {
		if i >= 0 && i < len(st.d) {
			return st.d[i], true
		}
		return 0, false
	}
	return w.run(st.enc)
}

// feed lets the decoder of an entry go on with what the directory has.
func (r *nrun) feed(st *nstate, e *nentry) *nstop {
	sp := &nspace{b: st.d, exact: st.dExact}
	return r.runDec(e, sp, st)
}

func (r *nrun) runDec(e *nentry, sp *nspace, st *nstate) *nstop {
	if e.dec.done {
		return nil
	}
	w := &nworld{r: r, in: sp, outLen: func() int { return len(e.out) }, outExact: st.m.exact}
	w.put = func(b int) *nstop { e.out = append(e.out, b); return nil }
	w.cut = func(n int, at ssa.Instruction) *nstop {
		if n < 0 || n > len(e.out) {
			return r.stop(at, "more may be taken off the decoded name than it has")
		}
		e.out = e.out[:n]
		return nil
	}
	w.outAt = func(i int) (int, bool) {
		if i >= 0 && i < len(e.out) {
			return e.out[i], true
		}
		return 0, false
	}
	s := w.run(e.dec)
	if s == nil && !sp.eof && r.fail == "" {
		// it is done before the end came: an error, or it ignores the rest
		if failed(e.dec) {
			return r.stop(nil, "the decoder refuses what the encoder wrote")
		}
		return r.stop(nil, "the decoder returns before the end of the directory")
	}
	return s
}

func failed(m *machine) bool {
	n := len(m.result)
	if n == 0 {
		return true
	}
	v := m.result[n-1]
	return v != nil
}

func (r *nrun) finish(st *nstate) {
	res, ok := st.enc.result[0].(nbuf)
	if !ok || len(st.enc.result) != 1 {
		r.report(r.stop(nil, "the encoder returns something else than the buffer it writes"), st)
		return
	}
	if cut := len(st.d) - res.n.off; cut != 0 {
		if cut < 0 || cut >= len(st.stack) {
			r.report(r.stop(nil, "the encoder returns another part of its buffer"), st)
			return
		}
		st.stack = st.stack[:len(st.stack)-cut]
		st.d = st.d[:res.n.off]
	}
	top := st.stack[len(st.stack)-1]
	e := &nentry{dec: top.dec.clone(), out: append([]int(nil), top.out...), comp: top.comp, bad: top.bad}
	if e.bad == "" && e.comp != 3 && !(st.dExact && len(st.d) == 0 && st.m.exact && len(st.m.b) == 0) {
		e.bad = []string{"the last path component is empty", "the last path component is \".\"", "the last path component is \"..\""}[e.comp]
	}
	if e.bad != "" {
		r.report(r.stop(nil, "%s", e.bad), st)
		return
	}
	sp := &nspace{b: st.d, exact: st.dExact, eof: true}
	if s := r.runDec(e, sp, st); s != nil {
		r.report(s, st)
		return
	}
	if failed(e.dec) {
		r.report(r.stop(nil, "the decoder refuses what the encoder wrote"), st)
		return
	}
	if b, ok := e.dec.result[0].(nbuf); !ok || b.n.off != len(e.out) {
		if !ok || b.n.off < 0 || b.n.off > len(e.out) {
			r.report(r.stop(nil, "the decoder returns something else than what it decoded"), st)
			return
		}
		e.out = e.out[:b.n.off]
	}
	same := len(e.out) == len(st.m.b)
	for i := 0; same && i < len(e.out); i++ {
		same = e.out[i] == st.m.b[i]
	}
	if !same {
		r.report(r.stop(nil, "the directory is decoded to another name: %s instead of %s", quoted(e.out), quoted(st.m.b)), st)
	}
}

func quoted(b []int) string {
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x)
	}
	return "..." + strconv.Quote(string(s))
}

// rebase moves the windows up to the last byte of the name that is no dot.
func (r *nrun) rebase(st *nstate) bool {
	if n := len(st.m.b); n == 0 || st.m.b[n-1] == '.' {
		return true
	}
	top := st.stack[len(st.stack)-1]
	if top.bad != "" {
		r.report(r.stop(nil, "%s", top.bad), st)
		return false
	}
	n := 0
	for n < len(top.out) && n < len(st.m.b) {
		if top.out[n] != st.m.b[n] {
			r.report(r.stop(nil, "the directory is decoded to another name: %s instead of %s", quoted(top.out), quoted(st.m.b)), st)
			return false
		}
		n++
	}
	r.trim(st.enc)
	top = &nentry{dec: top.dec.clone(), out: top.out, comp: top.comp}
	r.trim(top.dec)
	cutM := n - r.back
	if x := minPos(st.enc, 'm'); x < cutM {
		cutM = x
	}
	cutD := len(st.d)
	if x := minPos(top.dec, 'd'); x < cutD {
		cutD = x
	}
	cutD -= r.back
	if cutM > 0 {
		// the name and what is decoded move together
		dec := top.dec
		shift(st.enc, 'm', cutM)
		shift(dec, 'o', cutM)
		st.m.b = append([]int(nil), st.m.b[cutM:]...)
		top = &nentry{dec: dec, out: append([]int(nil), top.out[cutM:]...), comp: top.comp}
		st.m.exact = false
	}
	if cutD > 0 {
		dec := top.dec
		shift(st.enc, 'd', cutD)
		shift(dec, 'd', cutD)
		st.d = append([]int(nil), st.d[cutD:]...)
		top = &nentry{dec: dec, out: top.out, comp: top.comp}
		st.dExact = false
	}
	// what is before the last byte stays; one entry for each byte kept, of
	// which only the last can be gone back to
	st.stack = []*nentry{top}
	return true
}

// trim drops registers that are not used any more.
func (r *nrun) trim(m *machine) {
	for _, f := range m.frames {
		live := r.liveAt(f)
		for v := range f.regs {
			if !live[v] {
				delete(f.regs, v)
			}
		}
	}
}

func eachPos(m *machine, visit func(p npos) npos) {
	one := func(v any) any {
		switch x := v.(type) {
		case npos:
			return visit(x)
		case nin:
			// the whole input starts where it starts
			if x.from {
				x.lo = visit(x.lo)
			}
			if x.bounds {
				x.hi = visit(x.hi)
			}
			return x
		case nrem:
			x.lo = visit(x.lo)
			return x
		case nbuf:
			x.n = visit(x.n)
			return x
		}
		return v
	}
	for _, f := range m.frames {
		for k, v := range f.regs {
			f.regs[k] = one(v)
		}
	}
	for i, v := range m.result {
		m.result[i] = one(v)
	}
}

func minPos(m *machine, sp byte) int {
	least := 1 << 30
	eachPos(m, func(p npos) npos {
		if p.sp == sp && m.in == sp && p.off < least {
			least = p.off
		}
		return p
	})
	return least
}

func shift(m *machine, sp byte, by int) {
	eachPos(m, func(p npos) npos {
		if p.sp == sp {
			p.off -= by
		}
		return p
	})
}

func (r *nrun) key(st *nstate) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v%v%v|%v|%v|", st.m.exact, st.dExact, st.eExact, st.m.b, st.d)
	r.machineKey(&b, st.enc)
	for _, e := range st.stack {
		fmt.Fprintf(&b, "/%v %d %s ", e.out, e.comp, e.bad)
		r.machineKey(&b, e.dec)
	}
	return b.String()
}

func (r *nrun) machineKey(b *strings.Builder, m *machine) {
	if m.done {
		fmt.Fprintf(b, "done %v", m.result)
	}
	for _, f := range m.frames {
		live := r.liveAt(f)
		var parts []string
		for v, x := range f.regs {
			if live[v] {
				if a, ok := x.(narr); ok {
					parts = append(parts, fmt.Sprintf("%s=%v", v.Name(), *a.at))
					continue
				}
				parts = append(parts, fmt.Sprintf("%s=%T%v", v.Name(), x, x))
			}
		}
		sort.Strings(parts)
		fmt.Fprintf(b, "%s.%d.%d[%s]", f.fn.Name(), f.b.Index, f.i, strings.Join(parts, ","))
	}
}

// liveAt says which registers of a frame are still read.
func (r *nrun) liveAt(f *nframe) map[ssa.Value]bool {
	lv := r.live[f.fn]
	if lv == nil {
		lv = map[ssa.Instruction]map[ssa.Value]bool{}
		outs := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range f.fn.Blocks {
			outs[b] = map[ssa.Value]bool{}
		}
		ins := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for changed := true; changed; {
			changed = false
			for i := len(f.fn.Blocks) - 1; i >= 0; i-- {
				b := f.fn.Blocks[i]
				cur := map[ssa.Value]bool{}
				for _, s := range b.Succs {
					for v := range ins[s] {
						cur[v] = true
					}
					at := -1
					for k, p := range s.Preds {
						if p == b {
							at = k
						}
					}
					for _, x := range s.Instrs {
						if phi, ok := x.(*ssa.Phi); ok && at >= 0 {
							for k, p := range s.Preds {
								if p == b {
									cur[phi.Edges[k]] = true
								}
							}
						}
					}
				}
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					x := b.Instrs[j]
					if v, ok := x.(ssa.Value); ok {
						delete(cur, v)
					}
					if _, ok := x.(*ssa.Phi); !ok {
						for _, op := range x.Operands(nil) {
							if *op != nil {
								cur[*op] = true
							}
						}
					}
					cp := make(map[ssa.Value]bool, len(cur))
					for v := range cur {
						cp[v] = true
					}
					lv[x] = cp
				}
				if len(cur) != len(ins[b]) {
					ins[b] = cur
					changed = true
				}
			}
		}
		r.live[f.fn] = lv
	}
	if f.i >= len(f.b.Instrs) {
		return map[ssa.Value]bool{}
	}
	return lv[f.b.Instrs[f.i]]
}

// classOf says which integers are positions in the input, or lengths of what
// was written.
func (r *nrun) classOf(f *ssa.Function, in, out byte) map[ssa.Value]byte {
	if cl := r.class[f]; cl != nil {
		return cl
	}
	cl := map[ssa.Value]byte{}
	isInput := map[ssa.Value]bool{}
	first := true
	for _, p := range f.Params {
		if isBytes(p.Type()) && first {
			first = false
			continue
		}
		if isBytes(p.Type()) || types.Identical(p.Type().Underlying(), types.Typ[types.String]) {
			isInput[p] = true
		}
	}
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return v
			}
		}
	}
	mark := func(v ssa.Value) bool {
		if _, k := v.(*ssa.Const); k || cl[v] != 0 || !isIntType(v.Type()) {
			return false
		}
		cl[v] = in
		return true
	}
	for changed := true; changed; {
		changed = false
		instrsOf(f, func(i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if isInput[root(x.X)] && mark(x.Index) {
					changed = true
				}
			case *ssa.Index:
				if isInput[root(x.X)] && mark(x.Index) {
					changed = true
				}
			case *ssa.Lookup:
				if isInput[root(x.X)] && mark(x.Index) {
					changed = true
				}
			case *ssa.Slice:
				if isInput[root(x.X)] {
					for _, v := range []ssa.Value{x.Low, x.High} {
						if v != nil && mark(v) {
							changed = true
						}
					}
				}
			case *ssa.BinOp:
				lenOf := func(v ssa.Value) bool {
					call, ok := v.(*ssa.Call)
					if !ok {
						return false
					}
					b, ok := call.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "len" && isInput[root(call.Call.Args[0])]
				}
				switch x.Op {
				case token.ADD, token.SUB:
					if _, k := x.Y.(*ssa.Const); k {
						if cl[x] == in && mark(x.X) || cl[x.X] == in && mark(x) {
							changed = true
						}
					}
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if lenOf(x.Y) && mark(x.X) || lenOf(x.X) && mark(x.Y) {
						changed = true
					}
				}
			case *ssa.Phi:
				if !isIntType(x.Type()) {
					return
				}
				for _, e := range x.Edges {
					if cl[x] == in && mark(e) || cl[e] == in && mark(x) {
						changed = true
					}
				}
			}
		})
	}
	r.class[f] = cl
	return cl
}

// nworld is what a machine reads and writes.
type nworld struct {
	r        *nrun
	in       *nspace
	outLen   func() int
	outExact bool
	put      func(b int) *nstop
	cut      func(n int, at ssa.Instruction) *nstop
	outAt    func(i int) (int, bool)
}

func (w *nworld) run(m *machine) *nstop {
	steps := 0
	for !m.done {
		steps++
		if steps > 200000 {
			return w.r.stop(m.frames[0].fn.Blocks[0].Instrs[0], "%s may not come to an end", m.frames[0].fn.Name())
		}
		f := m.frames[len(m.frames)-1]
		w.r.fns[f.fn] = true
		if s := w.step(m, f); s != nil {
			return s
		}
	}
	return nil
}

func (w *nworld) val(m *machine, f *nframe, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isBytes(x.Type()) {
				return ""
			}
			return nil
		}
		switch x.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(x.Value)
			return int(n)
		case constant.Bool:
			return constant.BoolVal(x.Value)
		case constant.String:
			return constant.StringVal(x.Value)
		}
		return nopaque{}
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return x
	}
	return f.regs[v]
}

// absolute turns a number into a position, where the string starts.
func (w *nworld) asPos(m *machine, v any, sp byte) any {
	n, ok := v.(int)
	if !ok {
		return v
	}
	if sp == m.in && w.in.exact || sp == m.out && w.outExact {
		return npos{sp, n}
	}
	return v
}

func (w *nworld) exactly(m *machine, sp byte) bool {
	return sp == m.in && w.in.exact || sp == m.out && w.outExact
}

func (w *nworld) set(m *machine, f *nframe, v ssa.Value, x any) {
	if n, ok := x.(int); ok && isIntType(v.Type()) {
		if sp := w.r.classOf(f.fn, m.in, m.out)[v]; sp != 0 {
			x = w.asPos(m, n, sp)
		}
	}
	f.regs[v] = x
}

func (w *nworld) jump(m *machine, f *nframe, to *ssa.BasicBlock) {
	vals := map[ssa.Value]any{}
	at := -1
	for k, p := range to.Preds {
		if p == f.b {
			at = k
			break
		}
	}
	n := 0
	for _, i := range to.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = w.val(m, f, phi.Edges[at])
		n++
	}
	f.prev, f.b, f.i = f.b, to, n
	for v, x := range vals {
		w.set(m, f, v, x)
	}
}

// more says that position p of the input is looked at: it is there (true), it
// is beyond the end (false), or it is not known yet.
func (w *nworld) there(p npos, at ssa.Instruction) (bool, *nstop) {
	if p.off < len(w.in.b) {
		return true, nil
	}
	if w.in.eof {
		return false, nil
	}
	if p.off > len(w.in.b)+4 {
		return false, w.r.stop(at, "the input is looked at far ahead of what is known of it")
	}
	return false, &nstop{need: true, at: at}
}

func (w *nworld) byteAt(p npos, in nin, at ssa.Instruction) (any, *nstop) {
	if p.off < 0 {
		if w.in.exact {
			return nil, &nstop{why: "the input is indexed before its start", at: at, panic: true}
		}
		if w.r.back < 1 {
			w.r.lookback = true
		}
		return nil, w.r.stop(at, "the input is looked at further back than this check follows")
	}
	if in.bounds && p.off >= in.hi.off {
		return nil, w.r.stop(at, "the input is indexed beyond its end")
	}
	ok, s := w.there(p, at)
	if s != nil {
		return nil, s
	}
	if !ok {
		return nil, w.r.stop(at, "the input may be indexed beyond its end")
	}
	return w.in.b[p.off], nil
}

func (w *nworld) step(m *machine, f *nframe) *nstop {
	i := f.b.Instrs[f.i]
	val := func(v ssa.Value) any { return w.val(m, f, v) }
	unknown := func(what string) *nstop {
		return w.r.stop(i, "%s: %s", f.fn.Name(), what+" cannot be followed by this check")
	}
	switch x := i.(type) {
	case *ssa.DebugRef:
	case *ssa.Jump:
		w.jump(m, f, f.b.Succs[0])
		return nil
	case *ssa.If:
		b, ok := val(x.Cond).(bool)
		if !ok {
			return unknown("a branch")
		}
		if b {
			w.jump(m, f, f.b.Succs[0])
		} else {
			w.jump(m, f, f.b.Succs[1])
		}
		return nil
	case *ssa.Return:
		var rs []any
		for _, v := range x.Results {
			rs = append(rs, val(v))
		}
		m.frames = m.frames[:len(m.frames)-1]
		if len(m.frames) == 0 {
			m.done, m.result = true, rs
			return nil
		}
		up := m.frames[len(m.frames)-1]
		if f.ret != nil {
			if len(rs) == 1 {
				w.set(m, up, f.ret, rs[0])
			} else {
				up.regs[f.ret] = ntuple(rs)
			}
		}
		return nil
	case *ssa.Extract:
		t, ok := val(x.Tuple).(ntuple)
		if !ok {
			f.regs[x] = nopaque{}
			break
		}
		w.set(m, f, x, t[x.Index])
	case *ssa.BinOp:
		v, s := w.binop(m, f, x, val(x.X), val(x.Y))
		if s != nil {
			return s
		}
		w.set(m, f, x, v)
	case *ssa.UnOp:
		v := val(x.X)
		switch x.Op {
		case token.NOT:
			b, ok := v.(bool)
			if !ok {
				return unknown("a condition")
			}
			f.regs[x] = !b
		case token.MUL:
			switch p := v.(type) {
			case nelem:
				if p.at == nil {
					return unknown("a load")
				}
				f.regs[x] = (*p.at)[p.i]
			case int: // the address of an input byte stands for the byte
				f.regs[x] = p
			case narr:
				if len(*p.at) == 1 {
					w.set(m, f, x, (*p.at)[0])
				} else {
					f.regs[x] = p
				}
			case *ssa.Global:
				t, ok := w.r.table(p)
				if !ok {
					f.regs[x] = nopaque{}
				} else {
					f.regs[x] = t
				}
			default:
				f.regs[x] = nopaque{}
			}
		case token.SUB:
			n, ok := v.(int)
			if !ok {
				return unknown("a negation")
			}
			f.regs[x] = -n
		default:
			return unknown("an operation")
		}
	case *ssa.Convert, *ssa.ChangeType:
		var from ssa.Value
		if c, ok := x.(*ssa.Convert); ok {
			from = c.X
		} else {
			from = x.(*ssa.ChangeType).X
		}
		v := val(from)
		to := x.(ssa.Value)
		switch y := v.(type) {
		case int:
			if b, ok := to.Type().Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsString != 0:
					v = string(rune(y))
				case b.Kind() == types.Uint8:
					v = y & 0xff
				}
			}
		case nin, string, npos, narr:
		default:
			_ = y
		}
		f.regs[to] = v
	case *ssa.MakeInterface:
		f.regs[x] = nopaque{}
	case *ssa.MakeSlice:
		n, ok := val(x.Len).(int)
		if !ok || n != 0 {
			return unknown("a slice that is made")
		}
		f.regs[x] = ""
	case *ssa.Alloc:
		t := deref(x.Type())
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
			cells := make([]any, a.Len())
			for k := range cells {
				cells[k] = zeroOf(a.Elem())
			}
			f.regs[x] = narr{&cells}
			break
		}
		cells := []any{zeroOf(t)}
		f.regs[x] = narr{&cells}
	case *ssa.Store:
		switch p := val(x.Addr).(type) {
		case nelem:
			if p.at == nil {
				return unknown("a store")
			}
			(*p.at)[p.i] = val(x.Val)
		case narr:
			if len(*p.at) != 1 {
				return unknown("a store")
			}
			(*p.at)[0] = val(x.Val)
		default:
			return unknown("a store")
		}
	case *ssa.IndexAddr:
		v, s := w.index(m, f, x, val(x.X), val(x.Index), true)
		if s != nil {
			return s
		}
		f.regs[x] = v
	case *ssa.Index:
		v, s := w.index(m, f, x, val(x.X), val(x.Index), false)
		if s != nil {
			return s
		}
		f.regs[x] = v
	case *ssa.Lookup:
		if t, ok := val(x.X).(map[int]any); ok {
			k, isInt := val(x.Index).(int)
			if !isInt {
				return unknown("a lookup")
			}
			v, has := t[k]
			if !has {
				v = zeroOf(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				f.regs[x] = ntuple{v, has}
			} else {
				f.regs[x] = v
			}
			break
		}
		v, s := w.index(m, f, x, val(x.X), val(x.Index), false)
		if s != nil {
			return s
		}
		f.regs[x] = v
	case *ssa.Slice:
		v, s := w.slice(m, f, x)
		if s != nil {
			return s
		}
		f.regs[x] = v
	case *ssa.Call:
		pushed, s := w.call(m, f, x)
		if s != nil {
			return s
		}
		if pushed {
			return nil
		}
	default:
		return unknown(fmt.Sprintf("%T", i))
	}
	f.i++
	return nil
}

func zeroOf(t types.Type) any {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return 0
		case b.Info()&types.IsBoolean != 0:
			return false
		case b.Info()&types.IsString != 0:
			return ""
		}
	}
	if isBytes(t) {
		return ""
	}
	return nil
}

// table reads a package level variable that holds a table made of constants
// and that nothing else writes.
func (r *nrun) table(g *ssa.Global) (any, bool) {
	var stored ssa.Value
	n := 0
	for _, f := range r.c.P.RepoFuncs() {
		instrsOf(f, func(i ssa.Instruction) {
			if st, ok := i.(*ssa.Store); ok && st.Addr == g {
				n++
			}
		})
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	k := 0
	instrsOf(init, func(i ssa.Instruction) {
		if st, ok := i.(*ssa.Store); ok && st.Addr == g {
			k++
			stored = st.Val
		}
	})
	if k != 1 || n > k {
		return nil, false
	}
	cv := func(v ssa.Value) (any, bool) {
		for {
			if c, ok := v.(*ssa.Convert); ok {
				v = c.X
				continue
			}
			break
		}
		c, ok := v.(*ssa.Const)
		if !ok {
			return nil, false
		}
		if c.Value == nil {
			return zeroOf(c.Type()), true
		}
		switch c.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(c.Value)
			return int(n), true
		case constant.Bool:
			return constant.BoolVal(c.Value), true
		case constant.String:
			return constant.StringVal(c.Value), true
		}
		return nil, false
	}
	if v, ok := cv(stored); ok {
		return v, true
	}
	if mk, ok := stored.(*ssa.MakeMap); ok {
		t := map[int]any{}
		for _, ref := range *mk.Referrers() {
			switch u := ref.(type) {
			case *ssa.MapUpdate:
				a, ok1 := cv(u.Key)
				b, ok2 := cv(u.Value)
				ai, isInt := a.(int)
				if !ok1 || !ok2 || !isInt {
					return nil, false
				}
				t[ai] = b
			}
		}
		return t, true
	}
	return nil, false
}

// the rest of an input from a position on, as a length
type nrem struct{ lo npos }

func (w *nworld) binop(m *machine, f *nframe, x *ssa.BinOp, a, b any) (any, *nstop) {
	unknown := func() (any, *nstop) {
		return nil, w.r.stop(x, "%s: %s of %T and %T cannot be followed by this check", f.fn.Name(), x.Op, a, b)
	}
	switch p := a.(type) {
	case int:
		if q, ok := b.(int); ok {
			return intOp(x, p, q, unknown)
		}
	case bool:
		if q, ok := b.(bool); ok {
			switch x.Op {
			case token.EQL:
				return p == q, nil
			case token.NEQ, token.XOR:
				return p != q, nil
			case token.AND:
				return p && q, nil
			case token.OR:
				return p || q, nil
			}
		}
	case string:
		if q, ok := b.(string); ok {
			switch x.Op {
			case token.ADD:
				return p + q, nil
			case token.EQL:
				return p == q, nil
			case token.NEQ:
				return p != q, nil
			}
		}
	case nil:
		if b == nil {
			return x.Op == token.EQL, nil
		}
	}
	// the input compared with an empty string
	if in, ok := a.(nin); ok && b == "" {
		n, s := w.lenOf(in, x)
		if s != nil {
			return nil, s
		}
		return w.compare(m, x, n, 0, unknown)
	}
	if in, ok := b.(nin); ok && a == "" {
		n, s := w.lenOf(in, x)
		if s != nil {
			return nil, s
		}
		return w.compare(m, x, n, 0, unknown)
	}
	switch x.Op {
	case token.ADD, token.SUB:
		k, isInt := b.(int)
		if !isInt && x.Op == token.ADD {
			if j, ok := a.(int); ok {
				a, k, isInt = b, j, true
			}
		}
		if isInt {
			if x.Op == token.SUB {
				k = -k
			}
			switch p := a.(type) {
			case npos:
				return npos{p.sp, p.off + k}, nil
			case nend:
				return nend{p.sp, p.off + k}, nil
			}
			return unknown()
		}
		if x.Op == token.SUB {
			if e, ok := a.(nend); ok && w.in.eof {
				a = npos{e.sp, len(w.in.b) + e.off}
			}
			p, ok1 := a.(npos)
			q, ok2 := b.(npos)
			if ok1 && ok2 && p.sp == q.sp {
				return p.off - q.off, nil
			}
			if e, ok := a.(nend); ok && ok2 && e.sp == q.sp && e.off == 0 {
				return nrem{q}, nil
			}
		}
		return unknown()
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return w.compare(m, x, a, b, unknown)
	}
	return unknown()
}

func intOp(x *ssa.BinOp, p, q int, unknown func() (any, *nstop)) (any, *nstop) {
	wrap := func(n int) int {
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return n & 0xff
		}
		return n
	}
	switch x.Op {
	case token.ADD:
		return wrap(p + q), nil
	case token.SUB:
		return wrap(p - q), nil
	case token.MUL:
		return wrap(p * q), nil
	case token.QUO:
		if q != 0 {
			return p / q, nil
		}
	case token.REM:
		if q != 0 {
			return p % q, nil
		}
	case token.AND:
		return p & q, nil
	case token.OR:
		return p | q, nil
	case token.XOR:
		return wrap(p ^ q), nil
	case token.SHL:
		if q >= 0 && q < 32 {
			return wrap(p << q), nil
		}
	case token.SHR:
		if q >= 0 && q < 64 {
			return p >> q, nil
		}
	}
	if r, ok := order(x.Op, p, q); ok {
		return r, nil
	}
	return unknown()
}

func order(op token.Token, p, q int) (bool, bool) {
	switch op {
	case token.EQL:
		return p == q, true
	case token.NEQ:
		return p != q, true
	case token.LSS:
		return p < q, true
	case token.LEQ:
		return p <= q, true
	case token.GTR:
		return p > q, true
	case token.GEQ:
		return p >= q, true
	}
	return false, false
}

// compare orders positions; where the end of the input matters it may have to
// be known first.
func (w *nworld) compare(m *machine, x *ssa.BinOp, a, b any, unknown func() (any, *nstop)) (any, *nstop) {
	if rem, ok := a.(nrem); ok {
		if k, ok := b.(int); ok {
			return w.compare(m, x, nend{rem.lo.sp, 0}, npos{rem.lo.sp, rem.lo.off + k}, unknown)
		}
	}
	if rem, ok := b.(nrem); ok {
		if k, ok := a.(int); ok {
			return w.compare(m, x, npos{rem.lo.sp, rem.lo.off + k}, nend{rem.lo.sp, 0}, unknown)
		}
	}
	space := func(v any) byte {
		switch p := v.(type) {
		case npos:
			return p.sp
		case nend:
			return p.sp
		}
		return 0
	}
	if space(a) == 0 {
		a = w.asPos(m, a, space(b))
	}
	if space(b) == 0 {
		b = w.asPos(m, b, space(a))
	}
	if w.in.eof {
		if e, ok := a.(nend); ok {
			a = npos{e.sp, len(w.in.b) + e.off}
		}
		if e, ok := b.(nend); ok {
			b = npos{e.sp, len(w.in.b) + e.off}
		}
	}
	op := x.Op
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if _, ok := a.(nend); ok {
		a, b, op = b, a, flip[op]
	}
	if _, ok := a.(int); ok {
		a, b, op = b, a, flip[op]
	}
	switch p := a.(type) {
	case npos:
		switch q := b.(type) {
		case npos:
			if p.sp == q.sp {
				r, _ := order(op, p.off, q.off)
				return r, nil
			}
		case nend:
			if p.sp != q.sp {
				return unknown()
			}
			// the end is at least at what is known
			least := len(w.in.b) + q.off
			switch {
			case p.off < least:
				r, _ := order(op, 0, 1)
				return r, nil
			case p.off == least && (op == token.LEQ || op == token.GTR):
				return op == token.LEQ, nil
			}
			if p.off > least+4 {
				return unknown()
			}
			return nil, &nstop{need: true, at: x}
		case int:
			// the window does not start where the string does
			if p.off+1 > q {
				r, _ := order(op, 1, 0)
				return r, nil
			}
		}
	case nend:
		if k, ok := b.(int); ok {
			if len(w.in.b)+p.off+1 > k {
				r, _ := order(op, 1, 0)
				return r, nil
			}
		}
	}
	return unknown()
}

func (w *nworld) lenOf(v any, at ssa.Instruction) (any, *nstop) {
	switch x := v.(type) {
	case nin:
		switch {
		case x.bounds && x.from:
			return x.hi.off - x.lo.off, nil
		case x.bounds:
			return x.hi, nil
		case x.from:
			return nrem{x.lo}, nil
		}
		return nend{x.sp, 0}, nil
	case string:
		return len(x), nil
	case nbuf:
		return x.n, nil
	case narr:
		return len(*x.at), nil
	}
	return nil, w.r.stop(at, "the length of %T cannot be followed by this check", v)
}

func (w *nworld) index(m *machine, f *nframe, i ssa.Instruction, x, idx any, addr bool) (any, *nstop) {
	unknown := func() (any, *nstop) {
		return nil, w.r.stop(i, "%s: an index %T of %T cannot be followed by this check", f.fn.Name(), idx, x)
	}
	switch t := x.(type) {
	case nin:
		if t.from {
			k, ok := idx.(int)
			if !ok {
				return unknown()
			}
			return w.byteAt(npos{t.sp, t.lo.off + k}, t, i)
		}
		idx = w.asPos(m, idx, t.sp)
		if e, ok := idx.(nend); ok {
			if !w.in.eof {
				return nil, &nstop{need: true, at: i}
			}
			idx = npos{e.sp, len(w.in.b) + e.off}
		}
		if p, ok := idx.(npos); ok && p.sp == t.sp {
			return w.byteAt(p, t, i)
		}
	case string:
		if k, ok := idx.(int); ok {
			if k < 0 || k >= len(t) {
				return nil, w.r.stop(i, "a table is indexed beyond its end")
			}
			return int(t[k]), nil
		}
	case nbuf:
		idx = w.asPos(m, idx, m.out)
		if p, ok := idx.(npos); ok && p.sp == m.out && p.off < t.n.off {
			if b, ok := w.outAt(p.off); ok {
				return b, nil
			}
		}
	case narr:
		if k, ok := idx.(int); ok && k >= 0 && k < len(*t.at) {
			if addr {
				return nelem{t.at, k}, nil
			}
			return (*t.at)[k], nil
		}
	}
	return unknown()
}

func (w *nworld) slice(m *machine, f *nframe, x *ssa.Slice) (any, *nstop) {
	unknown := func() (any, *nstop) {
		return nil, w.r.stop(x, "%s: a slice cannot be followed by this check", f.fn.Name())
	}
	var lo, hi any
	if x.Low != nil {
		lo = w.val(m, f, x.Low)
	}
	if x.High != nil {
		hi = w.val(m, f, x.High)
	}
	switch t := w.val(m, f, x.X).(type) {
	case nbuf:
		if lo != nil && lo != 0 {
			return unknown()
		}
		if hi == nil {
			return t, nil
		}
		p, ok := w.asPos(m, hi, m.out).(npos)
		if !ok || p.sp != m.out || p.off > w.outLen() {
			return unknown()
		}
		if p.off < 0 && w.exactly(m, m.out) {
			return nil, w.r.stop(x, "the buffer is sliced to a negative length")
		}
		return nbuf{p}, nil
	case nin:
		pos := func(v any) (npos, *nstop, bool) {
			if k, ok := v.(int); ok && t.from {
				return npos{t.sp, t.lo.off + k}, nil, true
			}
			if e, ok := v.(nend); ok {
				if !w.in.eof {
					return npos{}, &nstop{need: true, at: x}, false
				}
				return npos{e.sp, len(w.in.b) + e.off}, nil, true
			}
			p, ok := w.asPos(m, v, t.sp).(npos)
			return p, nil, ok && p.sp == t.sp && !t.from
		}
		n := t
		if lo != nil && lo != 0 {
			p, s, ok := pos(lo)
			if s != nil {
				return nil, s
			}
			if !ok {
				return unknown()
			}
			// it must not be beyond the end
			if p.off > len(w.in.b) {
				if w.in.eof {
					return nil, w.r.stop(x, "the input is sliced beyond its end")
				}
				return nil, &nstop{need: true, at: x}
			}
			n.lo, n.from = p, true
		}
		if e, ok := hi.(nend); ok && e.off == 0 && !t.bounds {
			hi = nil
		}
		if hi != nil {
			p, s, ok := pos(hi)
			if s != nil {
				return nil, s
			}
			if !ok {
				return unknown()
			}
			if p.off > len(w.in.b) {
				if w.in.eof {
					return nil, w.r.stop(x, "the input is sliced beyond its end")
				}
				return nil, &nstop{need: true, at: x}
			}
			n.hi, n.bounds = p, true
		}
		return n, nil
	case string:
		a, b := 0, len(t)
		if lo != nil {
			k, ok := lo.(int)
			if !ok {
				return unknown()
			}
			a = k
		}
		if hi != nil {
			k, ok := hi.(int)
			if !ok {
				return unknown()
			}
			b = k
		}
		if a < 0 || b > len(t) || a > b {
			return nil, w.r.stop(x, "a slice is out of bounds")
		}
		return t[a:b], nil
	case narr:
		at, ok := deref(x.X.Type()).Underlying().(*types.Array)
		if !ok || !isByteType(at.Elem()) {
			return nopaque{}, nil
		}
		a, b := 0, len(*t.at)
		if lo != nil {
			k, ok := lo.(int)
			if !ok {
				return unknown()
			}
			a = k
		}
		if hi != nil {
			k, ok := hi.(int)
			if !ok {
				return unknown()
			}
			b = k
		}
		var s []byte
		for k := a; k < b && k >= 0 && k < len(*t.at); k++ {
			v, ok := (*t.at)[k].(int)
			if !ok {
				return unknown()
			}
			s = append(s, byte(v))
		}
		return string(s), nil
	}
	return unknown()
}

func (w *nworld) call(m *machine, f *nframe, x *ssa.Call) (bool, *nstop) {
	unknown := func() (bool, *nstop) {
		return false, w.r.stop(x, "%s: a call of %s cannot be followed by this check", f.fn.Name(), x.Call.Value.Name())
	}
	var args []any
	for _, a := range x.Call.Args {
		args = append(args, w.val(m, f, a))
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			n, s := w.lenOf(args[0], x)
			if s != nil {
				return false, s
			}
			w.set(m, f, x, n)
			return false, nil
		case "cap":
			f.regs[x] = nopaque{}
			return false, nil
		case "min", "max":
			v := args[0]
			for _, o := range args[1:] {
				p, ok1 := v.(int)
				q, ok2 := o.(int)
				if !ok1 || !ok2 {
					return unknown()
				}
				if (b.Name() == "min") == (q < p) {
					v = q
				}
			}
			w.set(m, f, x, v)
			return false, nil
		case "append":
			var add []int
			if len(args) > 1 {
				switch y := args[1].(type) {
				case string:
					for k := 0; k < len(y); k++ {
						add = append(add, int(y[k]))
					}
				case nin:
					if !y.bounds {
						if !w.in.eof {
							return false, &nstop{need: true, at: x}
						}
						y.hi, y.bounds = npos{y.sp, len(w.in.b)}, true
					}
					lo := y.lo
					if !y.from {
						if !w.in.exact {
							return unknown()
						}
						lo = npos{y.sp, 0}
					}
					if lo.off < 0 {
						return unknown()
					}
					for k := lo.off; k < y.hi.off; k++ {
						add = append(add, w.in.b[k])
					}
				case nil:
				default:
					return unknown()
				}
			}
			switch t := args[0].(type) {
			case nbuf:
				if t.n.off != w.outLen() {
					if s := w.cut(t.n.off, x); s != nil {
						return false, s
					}
				}
				for _, b := range add {
					if s := w.put(b); s != nil {
						return false, s
					}
				}
				f.regs[x] = nbuf{npos{m.out, w.outLen()}}
				return false, nil
			case string:
				s := []byte(t)
				for _, b := range add {
					s = append(s, byte(b))
				}
				f.regs[x] = string(s)
				return false, nil
			}
		}
		return unknown()
	}
	g := x.Call.StaticCallee()
	if g != nil && len(g.Blocks) > 0 && inPkg(g, filesPkg) {
		if len(m.frames) > 8 {
			return unknown()
		}
		fr := &nframe{fn: g, b: g.Blocks[0], regs: map[ssa.Value]any{}, ret: x}
		for k, p := range g.Params {
			v := args[k]
			fr.regs[p] = v
		}
		for _, p := range g.Params {
			w.set(m, fr, p, fr.regs[p])
		}
		f.i++
		m.frames = append(m.frames, fr)
		return true, nil
	}
	if g != nil {
		switch g.String() {
		case "strings.Repeat", "bytes.Repeat":
			s, ok1 := args[0].(string)
			n, ok2 := args[1].(int)
			if ok1 && ok2 {
				if n < 0 {
					return false, w.r.stop(x, "a string is repeated a negative number of times")
				}
				if n > 1000 {
					return unknown()
				}
				f.regs[x] = strings.Repeat(s, n)
				return false, nil
			}
		case "strings.IndexByte":
			s, ok1 := args[0].(string)
			n, ok2 := args[1].(int)
			if ok1 && ok2 {
				f.regs[x] = strings.IndexByte(s, byte(n))
				return false, nil
			}
		}
	}
	if t, ok := x.Type().(*types.Tuple); ok {
		out := ntuple{}
		for k := 0; k < t.Len(); k++ {
			out = append(out, nopaque{})
		}
		f.regs[x] = out
		return false, nil
	}
	f.regs[x] = nopaque{}
	return false, nil
}

// runS12Paths checks what is made of the encoded name: the directory of a
// metric is the data directory followed by it, its files are numbered, and what
// is listed is what the decoder gives.
func runS12Paths(c *Ctx, enc, dec *ssa.Function) {
	f := c.Fn(filesPkg, "newMetric")
	if f == nil {
		return
	}
	ts := c.P.TS
	var opts *types.Struct
	for _, p := range f.Params {
		if st, ok := p.Type().Underlying().(*types.Struct); ok {
			opts = st
		}
	}
	nameAt, dirAt := -1, -1
	if opts != nil {
		for i := 0; i < opts.NumFields(); i++ {
			switch opts.Field(i).Name() {
			case "name":
				nameAt = i
			case "dir":
				dirAt = i
			}
		}
	}
	if nameAt < 0 || dirAt < 0 {
		c.Fail("anchor:options", c.P.Pos(f.Pos()), "newMetric takes no directory and name")
		return
	}
	text := func(s *flow.State, t *flow.Term) (string, bool) { return t.StrVal() }
	// parts flattens what was appended or concatenated
	var parts func(in *flow.Interp, s *flow.State, t *flow.Term) []*flow.Term
	parts = func(in *flow.Interp, s *flow.State, t *flow.Term) []*flow.Term {
		switch t.Op {
		case "conv":
			return parts(in, s, t.Args[0])
		case "append", "op+", "numbered":
			var out []*flow.Term
			out = append(out, parts(in, s, t.Args[0])...)
			if t.Op == "numbered" {
				return append(out, ts.Mk("part:numbered", "", t.T, t.Args[1]))
			}
			for _, a := range t.Args[1:] {
				out = append(out, parts(in, s, a)...)
			}
			// texts next to one another are one
			var joined []*flow.Term
			for _, p := range out {
				if n := len(joined); n > 0 {
					if a, ok := text(s, joined[n-1]); ok {
						if b, ok := text(s, p); ok {
							joined[n-1] = ts.Str(a + b)
							continue
						}
					}
				}
				joined = append(joined, p)
			}
			return joined
		case "make", "nil", "zero":
			if n, ok := in.Len(t).IntVal(); t.Op != "make" || ok && n == 0 || s.Must(ts.Eq(in.Len(t), ts.Int(0), types.Typ[types.Int])) {
				return nil
			}
		case "slice":
			lo, ok1 := t.Args[1].IntVal()
			var n int64
			ok2 := false
			if d, ok := ts.ConstDiff(in.Len(t), ts.Int(0)); ok {
				n, ok2 = d, true
			}
			if ok1 && ok2 && n == 0 {
				return nil
			}
			if ok1 && ok2 && n > 0 && n <= 16 {
				_ = lo
				b := ""
				for k := int64(0); k < n; k++ {
					v, ok := in.ElemAt(s, t, k, types.Typ[types.Uint8]).IntVal()
					if !ok {
						return []*flow.Term{t}
					}
					b += string([]byte{byte(v)})
				}
				return []*flow.Term{ts.Str(b)}
			}
		}
		if v, ok := t.StrVal(); ok && v == "" {
			return nil
		}
		return []*flow.Term{t}
	}
	// separated says that something of the form base [/] rest has exactly one
	// separator between the two, or nothing before it
	separated := func(in *flow.Interp, s *flow.State, ps []*flow.Term, base *flow.Term) string {
		is := func(t *flow.Term) bool { return t == base || bare(t) == base }
		switch {
		case len(ps) == 3 && is(ps[0]):
			if sep, ok := text(s, ps[1]); ok && sep == "/" {
				return ""
			}
			return "something else than a separator is between the directory and what it contains"
		case len(ps) == 2 && is(ps[0]):
			if s.Must(ts.Eq(in.Len(base), ts.Int(0), types.Typ[types.Int])) {
				return ""
			}
			ends := false
			s.EachInt(func(t *flow.Term, iv flow.Ival) {
				if iv.Lo != '/' || iv.Hi != '/' {
					return
				}
				var of, at *flow.Term
				switch {
				case t.Op == "load" && t.Args[0].Op == "iaddr":
					of, at = t.Args[0].Args[0], t.Args[0].Args[1]
				case t.Op == "idx":
					of, at = t.Args[0], t.Args[1]
				default:
					return
				}
				d, ok := ts.ConstDiff(at, in.Len(of))
				if !ok {
					d, ok = ts.ConstDiff(at, in.Len(base))
				}
				if ps := parts(in, s, of); ok && d == -1 && len(ps) == 1 && is(ps[0]) {
					ends = true
				}
			})
			if ends {
				return ""
			}
			// it may be empty, as far as the lengths say
			if s.Le(in.Len(base), ts.Int(0)) {
				return ""
			}
			return "nothing may separate the directory from what it contains"
		case len(ps) == 1:
			if s.Must(ts.Eq(in.Len(base), ts.Int(0), types.Typ[types.Int])) || s.Le(in.Len(base), ts.Int(0)) {
				return ""
			}
		}
		return "the path is not made of the directory and what it contains"
	}
	model := func(in *flow.Interp, s *flow.State, e *flow.Event) bool {
		if e.Kind != "call" || e.Callee == nil {
			return false
		}
		switch {
		case e.Callee.String() == "strconv.AppendInt":
			if base, ok := e.Args[2].IntVal(); !ok || base != 10 {
				return false
			}
			e.Result, e.Handled = ts.Mk("numbered", "", e.Callee.Signature.Results().At(0).Type(), e.Args[0], bare(e.Args[1])), true
			return true
		case e.Callee.String() == "strconv.Itoa":
			e.Result, e.Handled = ts.Mk("numbered", "", types.Typ[types.String], ts.Str(""), e.Args[0]), true
			return true
		case e.Callee.String() == "strconv.FormatInt":
			if base, ok := e.Args[1].IntVal(); !ok || base != 10 {
				return false
			}
			e.Result, e.Handled = ts.Mk("numbered", "", types.Typ[types.String], ts.Str(""), bare(e.Args[0])), true
			return true
		}
		return false
	}
	describe := func(ps []*flow.Term) string {
		var out []string
		for _, p := range ps {
			out = append(out, clipTerm(p))
		}
		return strings.Join(out, " + ")
	}

	// the directory of a metric
	key := "dir:" + short(f.String())
	c.Oblige(key, c.P.Pos(f.Pos()), "the directory of a metric is the data directory, a separator and the encoded name", true)
	opened := 0
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool {
		return g != enc && inPkg(g, filesPkg) && (reaches(g, enc) || g.Parent() == f)
	}
	var conf *flow.Term
	check := func(in *flow.Interp, s *flow.State, e *flow.Event, path *flow.Term) bool {
		ps := parts(in, s, path)
		dir := ts.Field(conf, dirAt, opts)
		last := len(ps) - 1
		if last >= 0 && ps[last] == s.R["named"] && s.D["based"] == "yes" && last == 0 {
			return true
		}
		if last < 0 || ps[last] != s.R["named"] || s.D["based"] == "yes" {
			in.ReportAt(s, key, e.Instr, "the path %s does not end in the encoded name", describe(ps))
			s.Kill()
			return false
		}
		if why := separated(in, s, ps, dir); why != "" {
			in.ReportAt(s, key, e.Instr, "%s: %s", why, describe(ps))
			s.Kill()
			return false
		}
		return true
	}
	args := symArgs(c, f)
	for _, a := range args {
		if a.T != nil && types.Identical(a.T.Underlying(), opts) {
			conf = a
		}
	}
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if model(in, s, e) {
			return
		}
		if e.Kind == "call" && e.Callee == enc {
			if e.Args[1] != ts.Field(conf, nameAt, opts) {
				in.ReportAt(s, key, e.Instr, "%s is encoded, which is not the name of the metric", clipTerm(e.Args[1]))
				s.Kill()
				return
			}
			s.D["based"] = ""
			if ps := parts(in, s, e.Args[0]); len(ps) > 0 {
				s.D["based"] = "yes"
				if why := separated(in, s, append(ps, ts.Str("name")), ts.Field(conf, dirAt, opts)); why != "" {
					in.ReportAt(s, key, e.Instr, "%s: %s", why, describe(ps))
					s.Kill()
					return
				}
			} else if s.Le(in.Len(ts.Field(conf, dirAt, opts)), ts.Int(0)) {
				s.D["based"] = "yes"
			}
			v := in.Fresh(s, e, "rule.named", e.Callee.Signature.Results().At(0).Type())
			in.Keep(v)
			s.R["named"] = v
			e.Result, e.Handled = v, true
			return
		}
		if e.Kind == "call" && e.Callee != nil && inPkgPath(e.Callee, "os") && e.Callee.Signature.Recv() == nil {
			for _, a := range e.Args {
				if a.T != nil && types.Identical(a.T.Underlying(), types.Typ[types.String]) {
					opened++
					if !check(in, s, e, a) {
						return
					}
				}
			}
		}
		// the metric that is made lives in that directory
		if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "faddr" && e.Val != nil && e.Fn == f {
			if v, ok := e.Addr.Obj.(*types.Var); ok && types.Identical(v.Type().Underlying(), types.Typ[types.String]) && !v.Exported() && types.Identical(deref(typeOfAddr(e.Addr)), deref(f.Signature.Results().At(0).Type())) {
				opened++
				check(in, s, e, e.Val)
			}
		}
	}
	c.Explore(in, f, args, nil)
	if opened < 3 {
		c.Fail(key, c.P.Pos(f.Pos()), "only %d uses of the metric's directory were found", opened)
	}
	c.Count("uses of a metric's directory", opened)

	// the files in it
	files := 0
	for _, g := range c.P.RepoFuncs() {
		if !inPkg(g, filesPkg) || !isFilename(g) || reaches(g, enc) || g.Parent() != nil || g.Signature.Results().Len() != 1 {
			continue
		}
		if !types.Identical(g.Signature.Results().At(0).Type().Underlying(), types.Typ[types.String]) {
			continue
		}
		g := g
		files++
		key := "file:" + short(g.String())
		c.Oblige(key, c.P.Pos(g.Pos()), "the files of a metric are its directory, a separator and their number", true)
		var dir, num *flow.Term
		args := symArgs(c, g)
		for i, p := range g.Params {
			switch {
			case i == 0 && g.Signature.Recv() != nil:
			case types.Identical(p.Type().Underlying(), types.Typ[types.String]):
				dir = args[i]
			case isIntType(p.Type()):
				num = args[i]
			}
		}
		if dir == nil || num == nil {
			c.Fail(key, c.P.Pos(g.Pos()), "%s does not take a directory and a number", g.Name())
			continue
		}
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool { return inPkg(h, filesPkg) }
		exits := 0
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if model(in, s, e) {
				return
			}
			if e.Kind != "exit" || e.Callee != g {
				return
			}
			exits++
			ps := parts(in, s, e.Args[0])
			n := len(ps)
			if n >= 2 {
				if suffix, ok := ps[n-1].StrVal(); !ok || suffix != ".data" {
					in.ReportAt(s, key, e.Instr, "the name of a file does not end in .data: %s", describe(ps))
					return
				}
				if ps[n-2].Op != "part:numbered" || ps[n-2].Args[0] != num {
					in.ReportAt(s, key, e.Instr, "the name of a file is not its number: %s", describe(ps))
					return
				}
				ps = ps[:n-1]
			}
			if why := separated(in, s, ps, dir); why != "" {
				in.ReportAt(s, key, e.Instr, "%s: %s", why, describe(ps))
			}
		}
		c.Explore(in, g, args, nil)
		if exits == 0 {
			c.Fail(key, c.P.Pos(g.Pos()), "no file name was made")
		}
	}
	c.Count("makers of file names", files)
	if files == 0 {
		c.Fail("anchor:file", filesPkg, "nothing makes the names of data files")
	}
	runS12List(c, dec)
}

func typeOfAddr(a *flow.Term) types.Type {
	if len(a.Args) > 0 && a.Args[0].T != nil {
		return a.Args[0].T
	}
	return types.Typ[types.Invalid]
}

// runS12List checks that what is listed is what the decoder makes of the
// directory.
func runS12List(c *Ctx, dec *ssa.Function) {
	ts := c.P.TS
	adders := 0
	for _, g := range c.P.RepoFuncs() {
		if !inPkg(g, filesPkg) || len(g.Blocks) == 0 || g == dec || !calls(g, dec) {
			continue
		}
		g := g
		adders++
		key := "list:" + short(g.String())
		c.Oblige(key, c.P.Pos(g.Pos()), "what is listed is exactly what the directory decodes to", true)
		in := flow.NewInterp(c.P, nil)
		added := 0
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind != "call" || e.Callee == nil {
				return
			}
			if e.Callee == dec {
				rs := dec.Signature.Results()
				n := in.Len(e.Args[0])
				if v, ok := n.IntVal(); !ok || v != 0 {
					in.ReportAt(s, key, e.Instr, "the decoded name is appended to %s, which may have bytes in it", clipTerm(e.Args[0]))
					s.Kill()
					return
				}
				e.Fork(
					flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Mk("decoded", "", rs.At(0).Type(), e.Args[1]), ts.Nil())},
					flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Nil(), freshErr(in, s, e, "err"))},
				)
				e.Handled = true
				return
			}
			if strings.HasSuffix(e.Callee.String(), "sset.Set).Add") {
				added++
				v := bare(e.Args[len(e.Args)-1])
				for v.Op == "conv" {
					v = v.Args[0]
				}
				if v.Op != "decoded" {
					in.ReportAt(s, key, e.Instr, "%s is listed, which is not what the directory decodes to", clipTerm(v))
				}
			}
		}
		c.Explore(in, g, symArgs(c, g), nil)
		if added == 0 {
			c.Fail(key, c.P.Pos(g.Pos()), "nothing is listed")
		}
	}
	c.Count("listings", adders)
	if adders == 0 {
		c.Fail("anchor:list", filesPkg, "nothing lists the metrics")
	}
}

func isFilename(g *ssa.Function) bool {
	found := false
	instrsOf(g, func(i ssa.Instruction) {
		if call, ok := i.(ssa.CallInstruction); ok {
			if h := call.Common().StaticCallee(); h != nil {
				switch h.String() {
				case "strconv.AppendInt", "strconv.Itoa", "strconv.FormatInt":
					found = true
				}
			}
		}
	})
	return found
}

func inPkgPath(f *ssa.Function, path string) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == path
}

func instrsOf(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			visit(i)
		}
	}
}

// bare takes conversions off a term.
func bare(t *flow.Term) *flow.Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}
