// Package rules decides the properties of /verif/properties.jsonl from the
// type-checked source and its SSA form.
package rules

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

// Rule decides one property.
type Rule struct {
	ID        string
	Technique string
	Explain   string   // the rule applied, for the evidence
	Assume    []string // assumptions
	Min       int      // fewest obligations on a tree the rule understands
	Run       func(c *Ctx)
	// Variants lists extra builds (tags, GOOS) checked in the thorough tier.
	Variants []Variant
}

// Variant is a build configuration.
type Variant struct{ Tags, GOOS string }

// Violation is a broken obligation.
type Violation struct {
	Key   string   `json:"key"`
	Where string   `json:"where"`
	Msg   string   `json:"message"`
	Trace []string `json:"path,omitempty"`
	Facts string   `json:"facts,omitempty"`
	Build string   `json:"build,omitempty"`
}

// Obligation is something the rule had to show.
type Obligation struct {
	Key   string `json:"key"`
	Where string `json:"where"`
	What  string `json:"what"`
	OK    bool   `json:"ok"`
}

// Ctx collects the outcome of one rule run.
type Ctx struct {
	P     *flow.Program
	Tier  string
	Build string

	Viol   []Violation
	vkeys  map[string]bool
	Obl    map[string]*Obligation
	Funcs  map[string]bool
	States int
	Paths  int
	Counts map[string]int
	Notes  []string
	Start  time.Time
	part   bool // run as a part of another rule
}

func NewCtx(p *flow.Program, tier, build string) *Ctx {
	return &Ctx{P: p, Tier: tier, Build: build, vkeys: map[string]bool{}, Obl: map[string]*Obligation{}, Funcs: map[string]bool{}, Counts: map[string]int{}, Start: time.Now()}
}

// Registry holds the rules by property.
var Registry = map[string]*Rule{}

func register(r *Rule) { Registry[r.ID] = r }

// Oblige records an obligation; one with ok=false is a violation.
func (c *Ctx) Oblige(key, where, what string, ok bool) bool {
	o := c.Obl[key]
	if o == nil {
		o = &Obligation{Key: key, Where: where, What: what, OK: true}
		c.Obl[key] = o
	}
	if !ok {
		o.OK = false
		c.Violate(Violation{Key: key, Where: where, Msg: what})
	}
	return ok
}

// Fail records a violated obligation with an explanation.
func (c *Ctx) Fail(key, where, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if o := c.Obl[key]; o != nil {
		o.OK = false
	} else {
		c.Obl[key] = &Obligation{Key: key, Where: where, What: msg}
	}
	c.Violate(Violation{Key: key, Where: where, Msg: msg})
}

func (c *Ctx) Violate(v Violation) {
	v.Build = c.Build
	k := v.Key
	if c.vkeys[k] {
		return
	}
	c.vkeys[k] = true
	c.Viol = append(c.Viol, v)
}

// Include takes over the obligations of another rule that this property needs
// as well. The other rule reports what it cannot recognise; what it found broken
// is broken here too.
func (c *Ctx) Include(id string, want func(key, where, msg string) bool) {
	if c.part {
		return // a rule taken over brings only what is its own
	}
	sub := NewCtx(c.P, c.Tier, c.Build)
	sub.part = true
	Registry[id].Run(sub)
	var ks []string
	for k := range sub.Obl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	broken := map[string]bool{}
	for _, v := range sub.Viol {
		if want(v.Key, v.Where, v.Msg) {
			broken[v.Key] = true
			v.Key = id + " " + v.Key
			c.Violate(v)
		}
	}
	n := 0
	for _, k := range ks {
		o := sub.Obl[k]
		if !broken[k] && !(o.OK && want(o.Key, o.Where, o.What)) {
			continue
		}
		n++
		c.Obl[id+" "+k] = &Obligation{Key: id + " " + k, Where: o.Where, What: o.What, OK: !broken[k]}
	}
	if n == 0 && len(sub.Viol) == 0 {
		c.Fail("include:"+id, "", "nothing of what %s shows was found", id)
	}
	for f := range sub.Funcs {
		c.Funcs[f] = true
	}
	c.States += sub.States
	c.Paths += sub.Paths
}

// Count adds to an evidence counter.
func (c *Ctx) Count(name string, n int) { c.Counts[name] += n }

// Fn looks up an anchor function; a missing anchor is a violation, since the
// rule would otherwise silently check nothing.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	f := c.P.Lookup(pkg, name)
	if f == nil {
		c.Fail("anchor:"+pkg+"."+name, pkg, "anchor function %s.%s not found: the rule cannot be applied", pkg, name)
		return nil
	}
	c.Funcs[f.String()] = true
	return f
}

// Explore runs the flow engine on a root and folds its outcome in.
func (c *Ctx) Explore(in *flow.Interp, fn *ssa.Function, args []*flow.Term, setup func(*flow.State)) {
	if fn == nil {
		return
	}
	s0 := in.States
	p0 := in.Paths
	in.Run(fn, args, setup)
	c.States += in.States - s0
	c.Paths += in.Paths - p0
	for f := range in.Seen {
		c.Funcs[f.String()] = true
	}
	var ks []string
	for k := range in.Reports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := in.Reports[k]
		if o := c.Obl[k]; o != nil {
			o.OK = false
		} else {
			c.Obl[k] = &Obligation{Key: k, Where: r.Pos, What: r.Msg}
		}
		c.Violate(Violation{Key: k, Where: r.Pos, Msg: r.Msg, Trace: r.Trace, Facts: r.Facts})
	}
	for _, u := range in.Unknown {
		c.Fail("undecided:"+fn.Name()+":"+u, c.P.Pos(fn.Pos()), "the analysis of %s could not be completed: %s", fn.String(), u)
	}
}

// short strips the module path from a name.
func short(s string) string {
	return strings.ReplaceAll(s, flow.RepoPath+"/", "")
}

func fname(f *ssa.Function) string { return short(f.String()) }

// calleeName is the printable name of a statically known callee.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return flow.FuncName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dyn"
}
