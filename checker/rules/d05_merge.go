package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

const mergePkg = "merge"

func init() {
	register(&Rule{
		ID: "D05", Technique: "abstract interpretation over SSA with one arbitrary distinguished record against all others (projection for sums, order abstraction for extremes)",
		Explain: "For an arbitrary record of an arbitrary number of merged records: when the others hold no observations the result holds exactly its observations; when each other counts as one merged record the result counts all records, it included with its own count; when it is the smallest, largest, earliest or latest, the result has its value and, for extremes, its identifier; its distribution is merged exactly once into the one that is returned. Nothing is merged from no records.",
		Min:     6,
		Run:     runD05,
	})
}

func runD05(c *Ctx) {
	ts := c.P.TS
	f := c.Fn(mergePkg, "Merge")
	if f == nil {
		return
	}
	recT := c.P.ByPkg[flow.RepoPath+"/"+dataPkg].Types.Scope().Lookup("Record").Type()
	st := recT.Underlying().(*types.Struct)
	fieldNo := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		fieldNo[st.Field(i).Name()] = i
	}
	for _, n := range []string{"StartTime", "EndTime", "Observations", "Merged", "Min", "Max", "MinId", "MaxId", "Distribution", "Kind"} {
		if _, ok := fieldNo[n]; !ok {
			c.Fail("anchor:record", "data/record.pb.go", "records have no field %s", n)
			return
		}
	}
	// where the records are
	var recs *flow.Term
	for _, p := range f.Params {
		t := ts.Sym("arg:"+p.Name()+":"+f.Name(), p.Type())
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), recT) {
			recs = t
		}
		if os, ok := p.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < os.NumFields(); i++ {
				if sl, ok := os.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), recT) {
					recs = ts.Field(t, i, os)
				}
			}
		}
	}
	at := c.P.Pos(f.Pos())
	if recs == nil {
		c.Fail("anchor:records", at, "the records to merge are not an argument of Merge")
		return
	}
	sym := func(n string) *flow.Term { return ts.Sym("rec:"+n, st.Field(fieldNo[n]).Type()) }
	other := func(n, which string) *flow.Term { return ts.Sym("other:"+which+n, st.Field(fieldNo[n]).Type()) }
	k := ts.Sym("index:merged", types.Typ[types.Int])
	rel := func(x, y *flow.Term) *flow.Term { return ts.Mk("flt", "", types.Typ[types.Bool], x, y) }
	own := int64(0)
	place := map[string]*flow.Term{} // where the records are
	for _, w := range []string{"", "a", "b"} {
		place[w] = ts.Sym("place:"+w, types.NewPointer(recT))
	}
	record := func(which string) *flow.Term {
		var fs []*flow.Term
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			switch {
			case which == "" && n == "Merged":
				fs = append(fs, ts.Int(own))
			case which == "":
				fs = append(fs, sym(n))
			case n == "Observations" || n == "Merged":
				fs = append(fs, ts.Int(0))
			default:
				fs = append(fs, other(n, which))
			}
		}
		return ts.Struct(recT, fs)
	}
	c.Oblige("observations", at, "the observations of every record are counted exactly once", true)
	c.Oblige("merged", at, "every record counts as the records merged into it, at least one", true)
	c.Oblige("extremes", at, "the extremes are those of the record that has them, with its identifiers", true)
	c.Oblige("times", at, "the result covers from the earliest start to the latest end", true)
	c.Oblige("distribution", at, "the distribution of every record is merged once into the one returned", true)
	c.Oblige("empty", at, "merging no records is an error", true)

	for _, own = range []int64{0, 1000003} { // merged records of the one in question: not recorded, or many
		in := flow.NewInterp(c.P, nil)
		in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, mergePkg) }
		in.Keep(k)
		in.KeepOrder = true
		in.Finite = map[*flow.Term]bool{}
		for _, w := range []string{"a", "b"} {
			for i := 0; i < st.NumFields(); i++ {
				in.Keep(other(st.Field(i).Name(), w))
				in.Finite[other(st.Field(i).Name(), w)] = true
			}
		}
		for _, p := range place {
			in.Keep(p)
			in.Finite[p] = true
		}
		for i := 0; i < st.NumFields(); i++ {
			in.Keep(sym(st.Field(i).Name()))
			in.Finite[sym(st.Field(i).Name())] = true
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			bad := func(key, format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			switch e.Kind {
			case "index":
				x, n := e.Args[0], e.Args[1]
				if x.Op == "slice" {
					x, n = x.Args[0], ts.Add(x.Args[1], n)
				}
				if !s.Same(x, recs) {
					return
				}
				loop := "past:" + c.P.PosOf(e.Instr)
				next := ts.AddI(k, 1)
				e.Fork(
					flow.Alt{Result: place[""], Note: "the record in question", Do: func(s *flow.State) {
						if !s.Assume(ts.Eq(n, k, types.Typ[types.Int]), true) {
							s.Kill()
							return
						}
						s.D[loop], s.D["elem"] = "1", "k"
					}},
					flow.Alt{Result: place["b"], Note: "the record after it", Do: func(s *flow.State) {
						if !s.Assume(ts.Eq(n, next, types.Typ[types.Int]), true) {
							s.Kill()
						}
						s.D["elem"] = "b"
					}},
					flow.Alt{Result: place["a"], Note: "another record", Do: func(s *flow.State) {
						if !s.Assume(ts.Eq(n, k, types.Typ[types.Int]), false) || !s.Assume(ts.Eq(n, next, types.Typ[types.Int]), false) {
							s.Kill()
						}
						s.D["elem"] = "a"
					}})
			case "load":
				var path []*flow.Term
				a := e.Addr
				for a.Op == "faddr" {
					path = append(path, a)
					a = a.Args[0]
				}
				for which, at := range place {
					if a != at {
						continue
					}
					v := record(which)
					for i := len(path) - 1; i >= 0; i-- {
						for x := 0; x < st.NumFields(); x++ {
							if types.Object(st.Field(x)) == path[i].Obj {
								v = ts.Field(v, x, st)
							}
						}
					}
					e.Result = v
				}
			case "call":
				sig := func() *types.Signature { return e.Instr.(ssa.CallInstruction).Common().Signature() }
				switch {
				case e.Name == "math.Min" || e.Name == "math.Max" || e.Name == "builtin.min" || e.Name == "builtin.max":
					if len(e.Args) == 2 {
						x, y := e.Args[0], e.Args[1]
						if strings.HasSuffix(strings.ToLower(e.Name), "max") {
							x, y = y, x
						}
						if s.Must(rel(x, y)) || x == y {
							e.Handled, e.Result = true, x
						} else if s.Must(rel(y, x)) {
							e.Handled, e.Result = true, y
						}
					}
				case strings.HasSuffix(e.Name, "zeebo/tdigest.FromBytes"):
					rs := sig().Results()
					v := in.Fresh(s, e, "digest", rs.At(0).Type())
					err := in.Fresh(s, e, "digerr", rs.At(1).Type())
					of := ""
					if s.Same(e.Args[0], sym("Distribution")) {
						of = "1"
					}
					e.Fork(flow.Alt{Result: ts.Mk("tuple", "", rs, v, ts.Nil()), Do: func(s *flow.State) {
						s.Assume(ts.IsNil(v), false)
						delete(s.R, "digest")
						if of != "" {
							s.R["digest"] = v
						}
					}}, flow.Alt{Result: ts.Mk("tuple", "", rs, ts.Nil(), err), Note: "a distribution cannot be decoded", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["broken"] = "1"
					}})
				case strings.HasSuffix(e.Name, "zeebo/tdigest.TDigest).Merge"):
					if len(e.Args) < 2 {
						return
					}
					of := s.R["digest"] != nil && s.Same(e.Args[1], s.R["digest"])
					dst := e.Args[0]
					rs := sig().Results()
					if rs.Len() != 1 {
						return
					}
					err := in.Fresh(s, e, "mergerr", rs.At(0).Type())
					e.Fork(flow.Alt{Result: ts.Nil(), Do: func(s *flow.State) {
						if of {
							if s.D["sampled"] != "" {
								bad("distribution", "a distribution may be merged twice")
								s.Kill()
							}
							s.D["sampled"] = "1"
							s.R["into"] = dst
						}
					}}, flow.Alt{Result: err, Note: "a distribution cannot be merged", Do: func(s *flow.State) {
						s.Assume(ts.IsNil(err), false)
						s.D["broken"] = "1"
					}})
				case strings.HasSuffix(e.Name, "zeebo/tdigest.TDigest).Marshal"):
					v := in.Fresh(s, e, "bytes", sig().Results().At(0).Type())
					e.Handled, e.Result = true, v
					if s.D["sampled"] != "" && s.R["into"] != nil && (s.Same(e.Args[0], s.R["into"]) || termHas(e.Args[0], func(t *flow.Term) bool { return t == s.R["into"] })) {
						s.R["bytes"] = v
					}
				}
			case "exit":
				isnil, known := s.IsNil(e.Args[1])
				if known && !isnil {
					return
				}
				if s.D["broken"] != "" {
					bad("distribution", "a distribution that cannot be used is ignored")
					return
				}
				c.Count("successful merges", 1)
				get := func(n string) *flow.Term { return ts.Field(e.Args[0], fieldNo[n], st) }
				if !s.EqInt(get("Observations"), sym("Observations")) {
					bad("observations", "the observations of a record may not be counted exactly once")
				}
				m := own
				if m == 0 {
					m = 1
				}
				if !s.EqInt(get("Merged"), ts.AddI(in.Len(recs), -1+m)) {
					bad("merged", "a record may not count as the records merged into it")
				}
				for _, n := range []string{"Min", "Max", "MinId", "MaxId"} {
					if !s.Same(get(n), sym(n)) {
						bad("extremes", "%s may not be that of the record which has the extreme value", n)
					}
				}
				for _, n := range []string{"StartTime", "EndTime"} {
					if !s.EqInt(get(n), sym(n)) {
						bad("times", "%s may not be that of the record which has it earliest or latest", n)
					}
				}
				if s.R["bytes"] == nil || !s.Same(get("Distribution"), s.R["bytes"]) {
					bad("distribution", "the distribution of a record may not be in the one returned")
				}
			}
		}
		c.Explore(in, f, nil, func(s *flow.State) {
			for _, p := range place {
				s.Assume(ts.IsNil(p), false)
			}
			s.R["!k"], s.R["!len"] = k, in.Len(recs)
			s.Assume(ts.Le(ts.Int(0), k), true)
			s.Assume(ts.Le(ts.AddI(k, 1), in.Len(recs)), true)
			for _, o := range [][3]*flow.Term{
				{sym("Min"), other("Min", "a"), other("Min", "b")},
				{other("Max", "b"), other("Max", "a"), sym("Max")},
			} {
				for i := 0; i < 3; i++ {
					for j := 0; j < 3; j++ {
						s.Assume(rel(o[i], o[j]), i < j)
						s.Assume(ts.Mk("fle", "", types.Typ[types.Bool], o[i], o[j]), i <= j)
						if i != j {
							s.Assume(ts.Eq(o[i], o[j], o[i].T), false)
						}
					}
				}
			}
			for _, o := range [][2]*flow.Term{
				{sym("StartTime"), other("StartTime", "a")}, {other("StartTime", "a"), other("StartTime", "b")},
				{other("EndTime", "b"), other("EndTime", "a")}, {other("EndTime", "a"), sym("EndTime")},
			} {
				s.Assume(ts.Le(ts.AddI(o[0], 1), o[1]), true)
			}
		})
	}
	if c.Counts["successful merges"] == 0 {
		c.Fail("anchor:merged", at, "merging never succeeds")
	}

	// no records
	in := flow.NewInterp(c.P, nil)
	in.InlineCall = func(s *flow.State, g *ssa.Function, args []*flow.Term) bool { return inPkg(g, mergePkg) }
	in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if e.Kind == "exit" {
			if isnil, known := s.IsNil(e.Args[1]); !known || isnil {
				in.ReportAt(s, "empty", e.Instr, "merging no records may succeed")
			}
		}
	}
	c.Explore(in, f, nil, func(s *flow.State) {
		s.Assume(ts.Eq(in.Len(recs), ts.Int(0), types.Typ[types.Int]), true)
	})
}
