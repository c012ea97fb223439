package flow

import (
	"fmt"
	"sort"
	"strings"
)

// DebugRoot and DebugMax restrict the engine to one root (debugging only).
var (
	DebugRoot string
	DebugMax  int
)

// dumpKey renders the parts of a state's key.
func (s *State) dumpKey() []string {
	var out []string
	for i, f := range s.frames {
		for v, t := range f.env {
			out = append(out, fmt.Sprintf("env %d %s.%s = %s", i, f.fn.Name(), v.Name(), clip(t.String())))
		}
	}
	for a, v := range s.mem {
		out = append(out, "mem "+clip(a.String())+" = "+clip(v.String()))
	}
	for t := range s.dirtyBase {
		out = append(out, "dirty "+t.String())
	}
	for t := range s.dirtyFld {
		out = append(out, "dirtyfld "+t.Name())
	}
	for t := range s.escaped {
		out = append(out, "esc "+t.String())
	}
	for k, v := range s.R {
		out = append(out, "R "+k+" = "+v.String())
	}
	for k, v := range s.D {
		out = append(out, "D "+k+" = "+v)
	}
	out = append(out, fmt.Sprint("dirtyAll ", s.dirtyAll))
	out = append(out, "facts "+s.facts.String())
	sort.Strings(out)
	return out
}

// reportHot prints how states at the most visited location differ.
func (in *Interp) reportHot() {
	type loc struct {
		k string
		n int
	}
	var ls []loc
	for k, v := range in.hot {
		ls = append(ls, loc{k, len(v)})
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].n > ls[j].n })
	for i, l := range ls {
		if i >= 4 {
			break
		}
		fmt.Println("HOT", l.n, l.k)
		st := in.hot[l.k]
		cnt := map[string]int{}
		for _, d := range st {
			for _, x := range d {
				cnt[x]++
			}
		}
		var xs []string
		for x, n := range cnt {
			if n != len(st) {
				xs = append(xs, fmt.Sprintf("   %5d %s", n, x))
			}
		}
		sort.Strings(xs)
		if len(xs) > 60 {
			xs = xs[len(xs)-60:]
		}
		fmt.Println(strings.Join(xs, "\n"))
	}
}

// Dump prints the live values of a state.
func (s *State) Dump() string {
	out := ""
	for i, f := range s.frames {
		for v, t := range f.env {
			out += fmt.Sprintf("\n   env %d %s.%s = %s", i, f.fn.Name(), v.Name(), clip(t.String()))
		}
	}
	return out
}
