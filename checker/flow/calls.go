package flow

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Alt is one possible outcome of a call as decided by a hook.
type Alt struct {
	Result *Term
	Do     func(*State)
	Note   string
	// Enter is a function value that runs at the call, with Args; what it
	// returns does not become the result of the call.
	Enter *Term
	Args  []*Term
}

// callee resolves the called value and evaluates the arguments. For interface
// calls the receiver is the first argument.
func (in *Interp) callee(s *State, f *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := in.eval(s, f, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, in.eval(s, f, a))
		}
		if recv.Op == "iface" {
			if m := in.Prog.SSA.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				args[0] = recv.Args[0]
				return in.TS.Func(m), args
			}
		}
		return in.TS.intern(&Term{Op: "method", Name: c.Method.FullName(), Obj: c.Method}), args
	}
	for _, a := range c.Args {
		args = append(args, in.eval(s, f, a))
	}
	return in.eval(s, f, c.Value), args
}

func (in *Interp) describe(fn *Term, c *ssa.CallCommon) (*ssa.Function, *types.Func, string) {
	switch fn.Op {
	case "func", "closure":
		m, _ := fn.Fn.Object().(*types.Func)
		return fn.Fn, m, FuncName(fn.Fn)
	case "method":
		m := fn.Obj.(*types.Func)
		return nil, m, MethodName(m)
	case "builtin":
		return nil, nil, "builtin." + fn.Name
	}
	return nil, nil, "dyn"
}

// FuncName prints a function in the form pkg/path.F or (*pkg/path.T).M.
func FuncName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok && f.Synthetic == "" {
		return MethodName(o)
	}
	if o, ok := f.Object().(*types.Func); ok {
		return MethodName(o)
	}
	return f.String()
}

func MethodName(m *types.Func) string { return m.FullName() }

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// call performs a call. For a plain call the frame index already points past
// the instruction; for a deferred one it points at RunDefers.
func (in *Interp) call(s *State, instr ssa.CallInstruction, c *ssa.CallCommon, fn *Term, args []*Term, def bool) bool {
	ts := in.TS
	bind := func(s *State, t *Term) {
		if def {
			return
		}
		if v, ok := instr.(*ssa.Call); ok {
			s.top().env[v] = t
		}
	}
	if fn.Op == "builtin" {
		return in.builtin(s, instr, c, fn.Name, args, def, bind)
	}
	e := &Event{Kind: "call", Instr: instr, FnVal: fn, Args: args, Defer: def}
	e.Callee, e.Method, e.Name = in.describe(fn, c)
	if fn.Op == "nil" {
		return in.startPanic(s, ts.Str("nil func"))
	}
	body := e.Callee
	if body != nil && len(body.Blocks) == 0 {
		body = nil
	}
	model := in.model(e)
	inline := body != nil && model == nil && in.canInline(s, body, args)
	e.Opaque = !inline
	alts := in.emitCall(s, e)
	if s.dead {
		return false
	}
	if len(alts) > 0 {
		for n, a := range alts {
			o := s
			if n < len(alts)-1 {
				o = s.Clone()
			}
			if a.Note != "" {
				o.note(instr, a.Note)
			}
			t := a.Result
			if t == nil {
				t = ts.Mk("tuple", "", nil)
			}
			bind(o, t)
			if a.Do != nil {
				a.Do(o)
			}
			if f := a.Enter; f != nil && f.Fn != nil && len(f.Fn.Blocks) > 0 && !o.dead {
				if !in.enters(o, f.Fn) {
					in.Unknown = append(in.Unknown, "callback calls itself: "+f.Fn.String())
					o.dead = true
				} else {
					in.enterCall(o, instr, f.Fn, f, a.Args, def)
					o.top().void = true
				}
			}
			if n < len(alts)-1 {
				in.push(o)
			}
		}
		return !s.dead
	}
	if e.Handled {
		t := e.Result
		if t == nil {
			t = in.opaqueResult(s, instr, c, e)
		}
		bind(s, t)
		return true
	}
	if model != nil {
		t, ok := model(in, s, e)
		if !ok {
			return false
		}
		if t == nil {
			t = in.opaqueResult(s, instr, c, e)
		}
		if e.Result != nil {
			t = e.Result
		}
		bind(s, t)
		return !s.dead
	}
	if inline {
		in.enterCall(s, instr, body, fn, args, def)
		return true
	}
	in.opaqueEffects(s, e, body)
	if s.dead {
		return false
	}
	t := e.Result
	if t == nil {
		t = in.opaqueResult(s, instr, c, e)
	}
	bind(s, t)
	in.emit(s, &Event{Kind: "ret", Instr: instr, FnVal: fn, Callee: e.Callee, Method: e.Method, Name: e.Name, Args: args, Val: t, Opaque: true})
	if s.dead {
		return false
	}
	return true
}

func (in *Interp) emitCall(s *State, e *Event) []Alt {
	e.alts = nil
	in.emit(s, e)
	return e.alts
}

// Fork makes a hook's alternatives the outcomes of the call.
func (e *Event) Fork(alts ...Alt) { e.alts = append(e.alts, alts...) }

func (in *Interp) enterCall(s *State, instr ssa.CallInstruction, body *ssa.Function, fn *Term, args []*Term, def bool) {
	p := s.top()
	extra := ""
	if def {
		extra = "d"
	}
	nf := in.newFrame(body, in.subCtx(p.ctx, instr, body, extra), instr)
	nf.deferRun = def
	for i, prm := range body.Params {
		if i < len(args) {
			nf.env[prm] = args[i]
		}
	}
	if fn.Op == "closure" {
		for i, fv := range body.FreeVars {
			nf.env[fv] = fn.Args[i]
		}
	}
	s.frames = append(s.frames, nf)
	if len(s.frames) > 200 {
		in.Unknown = append(in.Unknown, "stack too deep in "+body.String())
		s.dead = true
	}
}

// enters reports that the function is not running already.
func (in *Interp) enters(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return false
		}
	}
	return true
}

func (in *Interp) canInline(s *State, fn *ssa.Function, args []*Term) bool {
	if len(s.frames) >= in.MaxDepth {
		return false
	}
	for _, f := range s.frames {
		if f.fn == fn {
			return false // recursion is opaque
		}
	}
	if strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") {
		return true
	}
	if in.InlineCall != nil {
		return in.InlineCall(s, fn, args)
	}
	if in.Inline != nil {
		return in.Inline(fn)
	}
	return in.Prog.InRepo(fn)
}

func (in *Interp) opaqueResult(s *State, instr ssa.CallInstruction, c *ssa.CallCommon, e *Event) *Term {
	rt := resultType(c.Signature())
	f := s.top()
	name := fmt.Sprintf("d%d.%d", f.blk.Index, indexOf(instr))
	if v, ok := instr.(*ssa.Call); ok {
		name = v.Name()
	}
	if in.Prog.pure(e.Name) {
		return in.TS.intern(&Term{Op: "pure", Name: e.Name, T: rt, Args: e.Args})
	}
	t := in.TS.intern(&Term{Op: "call", Name: fmt.Sprintf("%s@c%d.%s.%s", e.Name, f.ctx, f.fn.Name(), name), T: rt})
	return in.define(s, t)
}

func (in *Interp) opaqueEffects(s *State, e *Event, body *ssa.Function) {
	if in.Prog.pure(e.Name) || in.Prog.NoEffect(e) {
		return
	}
	switch {
	case e.Callee != nil && in.Prog.InRepo(e.Callee):
		ms := in.Prog.ModSet(e.Callee)
		s.HavocFields(ms.Fields)
		s.HavocReach(e.Args...)
		if ms.Unknown {
			s.HavocShared()
		}
	case e.Callee != nil:
		s.HavocReach(e.Args...)
		for _, a := range e.Args {
			s.escape(a)
		}
	case e.Method != nil:
		s.HavocReach(e.Args...)
		for _, a := range e.Args {
			s.escape(a)
		}
		if in.Prog.repoPkg(e.Method.Pkg()) {
			s.HavocShared()
		}
	default:
		s.HavocReach(e.Args...)
		s.HavocReach(e.FnVal)
		for _, a := range e.Args {
			s.escape(a)
		}
		s.HavocShared()
	}
}

// ret leaves the top frame.
func (in *Interp) ret(s *State, instr ssa.Instruction, rs []*Term) bool {
	f := s.top()
	ts := in.TS
	var t *Term
	switch len(rs) {
	case 0:
		t = ts.Mk("tuple", "", nil)
	case 1:
		t = rs[0]
	default:
		t = ts.Mk("tuple", "", f.fn.Signature.Results(), rs...)
	}
	if len(s.frames) == 1 {
		in.Paths++
		in.emit(s, &Event{Kind: "exit", Instr: instr, Args: rs, Callee: f.fn})
		return false
	}
	e := &Event{Kind: "ret", Instr: instr, Callee: f.fn, Name: FuncName(f.fn), Args: rs, Val: t, Defer: f.deferRun}
	in.emit(s, e)
	if s.dead {
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	p := s.top()
	if f.deferRun {
		if p.unwind {
			return in.unwindStep(s)
		}
		return true
	}
	if v, ok := f.call.(*ssa.Call); ok && !f.void {
		p.env[v] = t
	}
	s.gc()
	in.admit(s)
	return false
}

func (in *Interp) runDefers(s *State, f *Frame) bool {
	if len(f.defers) == 0 {
		f.idx++
		return true
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	return in.call(s, d.call, &d.call.Call, d.fn, d.args, true)
}

// startPanic begins unwinding.
func (in *Interp) startPanic(s *State, v *Term) bool {
	s.panicking = true
	s.panicVal = v
	return in.unwindStep(s)
}

func (in *Interp) unwindStep(s *State) bool {
	for {
		f := s.top()
		f.unwind = true
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(s.frames)
			if !in.call(s, d.call, &d.call.Call, d.fn, d.args, true) {
				return false
			}
			if len(s.frames) > n {
				return true // the deferred call was inlined
			}
			continue
		}
		if !s.panicking {
			// recovered: resume at the function's recover block
			f.unwind = false
			if f.fn.Recover != nil {
				f.blk, f.idx = f.fn.Recover, 0
				return true
			}
			rs := make([]*Term, f.fn.Signature.Results().Len())
			for i := range rs {
				rs[i] = in.TS.Zero(f.fn.Signature.Results().At(i).Type())
			}
			return in.ret(s, f.blk.Instrs[len(f.blk.Instrs)-1], rs)
		}
		if len(s.frames) == 1 {
			in.Paths++
			in.emit(s, &Event{Kind: "panicexit", Instr: f.blk.Instrs[min(f.idx, len(f.blk.Instrs)-1)], Callee: f.fn, Args: []*Term{s.panicVal}})
			return false
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
}

// --- channels ---

func (in *Interp) recv(s *State, f *Frame, i *ssa.UnOp, ch *Term) bool {
	et := i.X.Type().Underlying().(*types.Chan).Elem()
	if i.CommaOk {
		// the channel may be closed and empty
		o := s.Clone()
		o.note(i, "the channel is closed and empty")
		in.emit(o, &Event{Kind: "recv", Instr: i, Addr: ch, Typ: et, Block: true, Closed: true})
		if !o.dead {
			o.top().env[i] = in.TS.Mk("tuple", "", i.Type(), in.TS.Zero(et), in.TS.Bool(false))
			o.top().idx++
			in.push(o)
		}
	}
	e := &Event{Kind: "recv", Instr: i, Addr: ch, Typ: et, Block: true}
	in.emit(s, e)
	if s.dead {
		return false
	}
	v := e.Result
	if v == nil {
		v = in.fresh(s, i.Name()+":v", et)
	}
	if i.CommaOk {
		v = in.TS.Mk("tuple", "", i.Type(), v, in.TS.Bool(true))
	}
	return in.cases(s, e, func(s *State) {
		f := s.top()
		f.env[i] = v
		f.idx++
	})
}

// cases continues a state in each of the alternatives an event was given.
func (in *Interp) cases(s *State, e *Event, step func(*State)) bool {
	alts := e.alts
	e.alts = nil
	for k, a := range alts {
		o := s
		if k < len(alts)-1 {
			o = s.Clone()
		}
		if a.Note != "" {
			o.note(e.Instr, a.Note)
		}
		if a.Do != nil {
			a.Do(o)
		}
		if k < len(alts)-1 && !o.dead {
			step(o)
			in.push(o)
		}
	}
	if s.dead {
		return false
	}
	step(s)
	return true
}

func (in *Interp) send(s *State, instr ssa.Instruction, ch, v *Term, block bool) bool {
	if in.SendPanics != nil && in.SendPanics(s, ch) {
		o := s.Clone()
		o.note(instr, "send on closed channel panics")
		if in.startPanic(o, in.TS.Str("send on closed channel")) {
			in.push(o)
		}
	}
	e := &Event{Kind: "send", Instr: instr, Addr: ch, Val: v, Block: block}
	in.emit(s, e)
	if s.dead {
		return false
	}
	s.escape(v)
	s.top().idx++
	return true
}

func (in *Interp) selectStmt(s *State, f *Frame, i *ssa.Select) bool {
	ts := in.TS
	type cs struct {
		n      int
		st     *ssa.SelectState
		closed bool
	}
	var cases []cs
	looks := false // does the code look at whether a channel is closed
	for _, r := range *i.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == 1 {
			looks = true
		}
	}
	for n, st := range i.States {
		cases = append(cases, cs{n, st, false})
		if looks && st.Dir == types.RecvOnly {
			cases = append(cases, cs{n, st, true})
		}
	}
	if !i.Blocking {
		cases = append(cases, cs{-1, nil, false})
	}
	tup := i.Type().(*types.Tuple)
	for k, c := range cases {
		o := s
		if k < len(cases)-1 {
			o = s.Clone()
		}
		of := o.top()
		ok := true
		var val *Term
		var recvd *Event
		switch {
		case c.st == nil:
			o.note(i, "select: default")
			in.emit(o, &Event{Kind: "select", Instr: i, Name: "default", Block: false})
		case c.st.Dir == types.SendOnly:
			ch, v := in.eval(o, of, c.st.Chan), in.eval(o, of, c.st.Send)
			if ch.Op == "nil" {
				ok = false
				break
			}
			o.note(i, "select: send")
			if in.SendPanics != nil && in.SendPanics(o, ch) {
				p := o.Clone()
				p.note(i, "send on closed channel panics")
				if in.startPanic(p, ts.Str("send on closed channel")) {
					in.push(p)
				}
			}
			in.emit(o, &Event{Kind: "send", Instr: i, Addr: ch, Val: v, Block: i.Blocking && len(i.States) == 1, Name: "select"})
			o.escape(v)
		default:
			ch := in.eval(o, of, c.st.Chan)
			if ch.Op == "nil" {
				ok = false
				break
			}
			o.note(i, "select: receive "+clip(ch.String()))
			et := c.st.Chan.Type().Underlying().(*types.Chan).Elem()
			e := &Event{Kind: "recv", Instr: i, Addr: ch, Typ: et, Block: i.Blocking && len(i.States) == 1, Name: "select", Closed: c.closed}
			in.emit(o, e)
			recvd = e
			val = e.Result
			if c.closed {
				val = ts.Zero(et)
			}
			if val == nil && !o.dead {
				val = in.fresh(o, fmt.Sprintf("%s:v%d", i.Name(), c.n), et)
			}
		}
		var ev *Event
		if c.st != nil && c.st.Dir != types.SendOnly {
			ev = recvd
		}
		if ok && !o.dead {
			rs := []*Term{ts.Int(int64(c.n)), recvOk(in, o, i, looks, c.closed)}
			r := 0
			for n, st := range i.States {
				if st.Dir != types.RecvOnly {
					continue
				}
				if n == c.n {
					rs = append(rs, val)
				} else {
					rs = append(rs, ts.Zero(tup.At(2+r).Type()))
				}
				r++
			}
			if ev == nil {
				ev = &Event{}
			}
			in.cases(o, ev, func(s *State) {
				s.top().env[i] = ts.Mk("tuple", "", tup, rs...)
				s.top().idx++
			})
		} else {
			o.dead = true
		}
		if k < len(cases)-1 {
			in.push(o)
		}
	}
	return !s.dead
}

func recvOk(in *Interp, s *State, i *ssa.Select, looks, closed bool) *Term {
	if looks {
		return in.TS.Bool(!closed)
	}
	return in.fresh(s, i.Name()+":ok", types.Typ[types.Bool])
}

// --- builtins ---

func (in *Interp) builtin(s *State, instr ssa.CallInstruction, c *ssa.CallCommon, name string, args []*Term, def bool, bind func(*State, *Term)) bool {
	ts := in.TS
	switch name {
	case "len":
		bind(s, in.Len(args[0]))
	case "cap":
		bind(s, in.Cap(args[0]))
	case "append":
		e := &Event{Kind: "append", Instr: instr, Args: args, Typ: c.Args[0].Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		if e.Result != nil {
			bind(s, e.Result)
			break
		}
		if len(args) == 1 || args[1].Op == "nil" {
			bind(s, args[0])
			break
		}
		t := ts.intern(&Term{Op: "append", T: c.Signature().Results().At(0).Type(), Args: []*Term{args[0], args[1]}})
		if t.Depth() > 30 {
			t = in.fresh(s, fmt.Sprintf("app%d.%d", instr.Block().Index, indexOf(instr)), t.T)
		} else if s.Le(in.Len(t), in.Cap(args[0])) {
			// appending in place
			s.Assume(ts.Eq(in.Cap(t), in.Cap(args[0]), types.Typ[types.Int]), true)
		}
		bind(s, t)
	case "copy":
		e := &Event{Kind: "copy", Instr: instr, Args: args}
		in.emit(s, e)
		if s.dead {
			return false
		}
		s.HavocReach(args[0])
		bind(s, in.fresh(s, fmt.Sprintf("copy%d.%d", instr.Block().Index, indexOf(instr)), types.Typ[types.Int]))
	case "delete":
		e := &Event{Kind: "mapdel", Instr: instr, Addr: args[0], Args: args, Typ: c.Args[0].Type()}
		in.emit(s, e)
		if s.dead {
			return false
		}
		in.mapDelete(s, args[0], args[1], c.Args[0].Type())
		bind(s, ts.Mk("tuple", "", nil))
	case "close":
		e := &Event{Kind: "close", Instr: instr, Addr: args[0], Args: args, Defer: def}
		in.emit(s, e)
		if s.dead {
			return false
		}
		bind(s, ts.Mk("tuple", "", nil))
	case "recover":
		if s.panicking && s.top().deferRun && len(s.frames) >= 2 && s.frames[len(s.frames)-2].unwind {
			s.panicking = false
			v := s.panicVal
			s.panicVal = nil
			bind(s, ts.intern(&Term{Op: "iface", T: types.Typ[types.String], Args: []*Term{v}}))
			in.emit(s, &Event{Kind: "recover", Instr: instr})
		} else {
			bind(s, ts.Nil())
		}
	case "print", "println":
		bind(s, ts.Mk("tuple", "", nil))
	case "min", "max":
		t := ts.Mk(name, "", c.Signature().Results().At(0).Type(), args...)
		bind(s, t)
		if isInteger(c.Signature().Results().At(0).Type()) {
			for _, a := range args {
				d := ts.Sub(t, a)
				if name == "max" {
					d = ts.Sub(a, t)
				}
				s.Assume(ts.le0(d), true)
			}
		}
	case "ssa:wrapnilchk":
		bind(s, args[0])
	case "ssa:deferstack":
		bind(s, ts.Nil())
	case "clear":
		in.emit(s, &Event{Kind: "clear", Instr: instr, Args: args})
		s.HavocReach(args[0])
		s.HavocBase(args[0])
		bind(s, ts.Mk("tuple", "", nil))
	default:
		bind(s, in.fresh(s, fmt.Sprintf("bi%d.%d", instr.Block().Index, indexOf(instr)), resultType(c.Signature())))
	}
	return !s.dead
}

// --- models of library functions ---

type modelFn func(in *Interp, s *State, e *Event) (*Term, bool)

func (in *Interp) model(e *Event) modelFn {
	n := e.Name
	if m, ok := models[n]; ok {
		return m
	}
	if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
		return modelAtomic
	}
	return nil
}

var models = map[string]modelFn{
	"(*sync.Mutex).Lock":      modelLock,
	"(*sync.Mutex).Unlock":    modelLock,
	"(*sync.RWMutex).Lock":    modelLock,
	"(*sync.RWMutex).Unlock":  modelLock,
	"(*sync.RWMutex).RLock":   modelLock,
	"(*sync.RWMutex).RUnlock": modelLock,
	"(sync.Locker).Lock":      modelLock,
	"(sync.Locker).Unlock":    modelLock,

	"(github.com/zeebo/errs.Class).Wrap":  modelWrap,
	"(*github.com/zeebo/errs.Class).Wrap": modelWrap,
	"github.com/zeebo/errs.Wrap":          modelWrap,
	"(github.com/zeebo/errs.Class).New":   modelNewErr,
	"(*github.com/zeebo/errs.Class).New":  modelNewErr,
	"github.com/zeebo/errs.New":           modelNewErr,
	"fmt.Errorf":                          modelNewErr,
	"errors.New":                          modelNewErr,

	"(time.Duration).Nanoseconds": func(in *Interp, s *State, e *Event) (*Term, bool) { return e.Args[0], true },
}

func modelWrap(in *Interp, s *State, e *Event) (*Term, bool) {
	x := e.Args[len(e.Args)-1]
	if x.Op == "nil" {
		return x, true
	}
	cls := ""
	if len(e.Args) > 1 && e.Args[0].Op == "global" {
		cls = e.Args[0].Name
	}
	return in.TS.Mk("wrap", cls, e.sig().Results().At(0).Type(), x), true
}

func modelNewErr(in *Interp, s *State, e *Event) (*Term, bool) {
	v, ok := e.Instr.(ssa.Value)
	name := "x"
	if ok {
		name = v.Name()
	}
	f := s.top()
	var cls []*Term
	if len(e.Args) > 0 && e.Args[0].Op == "global" {
		cls = append(cls, e.Args[0])
	}
	return in.TS.Mk("newerr", fmt.Sprintf("c%d.%s.%s", f.ctx, f.fn.Name(), name), e.sig().Results().At(0).Type(), cls...), true
}

func (e *Event) sig() *types.Signature {
	if c, ok := e.Instr.(ssa.CallInstruction); ok {
		return c.Common().Signature()
	}
	return nil
}

// modelLock forgets what the mutex guards: everything selected from the value
// that contains it.
func modelLock(in *Interp, s *State, e *Event) (*Term, bool) {
	b := GuardBase(e.Args[0])
	if b != nil && !(b.Op == "alloc" && !s.escaped[b]) && !in.owned[b] {
		s.HavocBase(b)
	}
	return in.TS.Mk("tuple", "", nil), true
}

// GuardBase is the value a mutex address belongs to.
func GuardBase(a *Term) *Term {
	for {
		switch a.Op {
		case "faddr":
			return guardUp(a.Args[0])
		case "iaddr":
			a = a.Args[0]
			for a.Op == "slice" {
				a = a.Args[0]
			}
			if a.Op == "load" {
				a = a.Args[0]
				continue
			}
			return a
		default:
			return a
		}
	}
}

func guardUp(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.Args[0]
	}
	return a
}

func modelAtomic(in *Interp, s *State, e *Event) (*Term, bool) {
	// the cell changes at any time
	if len(e.Args) > 0 {
		s.HavocBaseExact(e.Args[0])
		for _, a := range e.Args[1:] {
			s.escape(a)
		}
	}
	return nil, true
}

// HavocBaseExact forgets one cell.
func (s *State) HavocBaseExact(a *Term) {
	delete(s.mem, a)
	s.dirtyBase[a] = true
}
