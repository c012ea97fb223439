package rules

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// A context is a term that holds the context it was derived from, so that what
// cancels it is read off its structure.

// ctxEvent models the context package.
func ctxEvent(in *flow.Interp, s *flow.State, e *flow.Event) bool {
	ts := in.TS
	if e.Kind != "call" {
		return false
	}
	derive := func(kind string) *flow.Term {
		call := e.Instr.(ssa.CallInstruction).Common().Signature()
		t := call.Results().At(0).Type()
		id := in.Fresh(s, e, "ctx", t)
		return ts.Mk("pure", kind, t, e.Args[0], id)
	}
	switch e.Name {
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "os/signal.NotifyContext":
		kind := "ctx-cancel"
		if e.Name == "context.WithTimeout" || e.Name == "context.WithDeadline" {
			kind = "ctx-timeout"
		}
		tup := e.Instr.(ssa.CallInstruction).Common().Signature().Results()
		cx := derive(kind)
		cn := ts.Mk("pure", "cancelfn", tup.At(1).Type(), cx)
		s.Assume(ts.IsNil(cx), false)
		s.Assume(ts.IsNil(cn), false)
		e.Handled, e.Result = true, ts.Mk("tuple", "", tup, cx, cn)
		return true
	case "context.WithValue":
		e.Handled, e.Result = true, derive("ctx-value")
		return true
	case "context.Background", "context.TODO", "context.WithoutCancel":
		t := e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()
		e.Handled, e.Result = true, ts.Mk("pure", "ctx-background", t)
		s.Assume(ts.IsNil(e.Result), false)
		return true
	case "(context.Context).Done":
		t := e.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()
		e.Handled, e.Result = true, ts.Mk("pure", "done", t, e.Args[0])
		return true
	}
	if cx := cancels(e.FnVal); cx != nil && e.Callee == nil {
		e.Handled = true
		s.D["cancelled:"+ctxID(cx)] = "1"
		return true
	}
	return false
}

func ctxID(cx *flow.Term) string { return strconv.Itoa(int(cx.ID)) }

// cancels is the context a function value cancels.
func cancels(f *flow.Term) *flow.Term {
	if f != nil && f.Op == "pure" && f.Name == "cancelfn" {
		return f.Args[0]
	}
	return nil
}

// doneOf is the context whose end a channel signals.
func doneOf(ch *flow.Term) *flow.Term {
	if ch != nil && ch.Op == "pure" && ch.Name == "done" {
		return ch.Args[0]
	}
	return nil
}

// ctxParent is the context another was derived from.
func ctxParent(cx *flow.Term) *flow.Term {
	if cx != nil && cx.Op == "pure" && len(cx.Args) > 0 {
		switch cx.Name {
		case "ctx-cancel", "ctx-timeout", "ctx-value":
			return cx.Args[0]
		}
	}
	return nil
}

// endsWith reports that a context ends when the other one does.
func endsWith(s *flow.State, cx, other *flow.Term) bool {
	for x := cx; x != nil; x = ctxParent(x) {
		if s.Same(x, other) {
			return true
		}
	}
	return false
}

// isCancelled reports that a context, or one it was derived from, was cancelled.
func isCancelled(s *flow.State, cx *flow.Term) bool {
	for x := cx; x != nil; x = ctxParent(x) {
		if s.D["cancelled:"+ctxID(x)] != "" {
			return true
		}
	}
	return false
}

func isCtx(t types.Type) bool { return t != nil && t.String() == "context.Context" }
