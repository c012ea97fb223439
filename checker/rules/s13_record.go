package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"rothkocheck/flow"
)

func init() {
	register(&Rule{
		ID: "S13", Technique: "layout extraction by abstract interpretation of SSA: the places, widths and byte orders at which the inlined encoder writes and the inlined decoder reads, and what each checksum covers, compared field by field",
		Explain: "Storing and reading a record (and the metadata of a file) are explored with the mapped bytes as symbolic memory. On every successful path of the store the fields' places, the data and the range the checksum covers are collected, and nothing covered is written afterwards; all of it lies within the slot. On every successful path of the read each field comes from the place, with the width and byte order, it was stored with, the version is the known one, the data ends within the slot, and the checksum over the same ranges equals the stored one.",
		Assume:  []string{"hash/crc32 and encoding/binary behave as documented; the protobuf code generated for the metadata is inverse to itself"},
		Min:     8,
		Run:     runS13,
	})
}

// seg is one thing that happened to a byte range.
type s13seg struct {
	kind     string // "w" a value, "d" a run of bytes, "crc" covered, "m" marshalled metadata
	base     *flow.Term
	off, len *flow.Term
	val      *flow.Term
	order    string
}

type s13place struct {
	off   int64
	width int
	order string
}

func (p s13place) String() string {
	return fmt.Sprintf("%d bytes (%s endian) at %d", p.width, p.order, p.off)
}

// s13layout is what one side says about the encoding.
type s13layout struct {
	fields map[string]s13place
	data   int64  // where the data begins
	crc    string // what the checksum covers
	crcAt  s13place
	where  string
}

// crcRanges is the list of ranges a checksum term was computed over.
func crcRanges(t *flow.Term) (init *flow.Term, rs []*flow.Term) {
	for t.Op == "pure" && t.Name == "crc" {
		rs = append([]*flow.Term{t}, rs...)
		t = t.Args[0]
	}
	return t, rs
}

// s13tables are the tables a checksum was computed with.
func s13tables(rs []*flow.Term) string {
	var out []string
	for _, r := range rs {
		if t := r.Args[1].String(); len(out) == 0 || out[len(out)-1] != t {
			out = append(out, t)
		}
	}
	return strings.Join(out, " then ")
}

// unconv removes conversions that keep at least width bytes.
func unconv(t *flow.Term, width int) *flow.Term {
	for t.Op == "conv" && t.Name == "" {
		if b, ok := t.T.Underlying().(*types.Basic); !ok || intWidth(b) < width {
			return t
		}
		t = t.Args[0]
	}
	return t
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

// s13model records what happens to bytes.
type s13model struct {
	c   *Ctx
	key string
	pkg string
	max int
}

func (m *s13model) rng(in *flow.Interp, x *flow.Term) (base, lo, n *flow.Term) {
	if x.Op == "slice" {
		return x.Args[0], x.Args[1], in.TS.Sub(x.Args[2], x.Args[1])
	}
	return x, in.TS.Int(0), in.Len(x)
}

func (m *s13model) add(in *flow.Interp, s *flow.State, e *flow.Event, kind, order string, base, off, n, val *flow.Term) {
	k := len(s.D["segs"])
	if k > m.max {
		in.ReportAt(s, m.key, e.Instr, "bytes are written piece by piece in a way that is not followed")
		s.Kill()
		return
	}
	s.D["segs"] += "x"
	if val == nil {
		val = in.TS.Int(0)
	}
	s.R[fmt.Sprintf("seg%02d", k)] = in.TS.Mk("seg", kind+":"+order, nil, base, off, n, val)
}

func (m *s13model) segs(s *flow.State) []s13seg {
	var out []s13seg
	for k := 0; k < len(s.D["segs"]); k++ {
		t := s.R[fmt.Sprintf("seg%02d", k)]
		if t == nil {
			continue
		}
		i := strings.IndexByte(t.Name, ':')
		out = append(out, s13seg{t.Name[:i], t.Args[0], t.Args[1], t.Args[2], t.Args[3], t.Name[i+1:]})
	}
	return out
}

// hook models the mapping, the byte order and checksum functions, and writes.
func (m *s13model) hook(in *flow.Interp, s *flow.State, e *flow.Event) {
	ts := in.TS
	switch e.Kind {
	case "load":
		if e.Addr.Op == "global" {
			e.Result = ts.Sym("global:"+e.Addr.String(), e.Typ)
			in.Keep(e.Result)
			return
		}
		if e.Addr.Op == "iaddr" && isByteType(e.Typ) && e.Addr.Args[0].Op == "sym" {
			e.Result = ts.Mk("rd", "one", e.Typ, e.Addr.Args[0], e.Addr.Args[1])
		}
	case "store":
		if e.Addr.Op == "iaddr" && isByteType(e.Typ) {
			m.add(in, s, e, "w", "one", e.Addr.Args[0], e.Addr.Args[1], ts.Int(1), e.Val)
		}
	case "slice":
		hi := e.Args[2]
		if hi != nil && e.Args[0].T != nil {
			if _, ok := e.Args[0].T.Underlying().(*types.Slice); ok {
				s.Assume(ts.Le(hi, in.Cap(e.Args[0])), true)
			}
		}
	case "append":
		a, b := e.Args[0], e.Args[1]
		if !isBytes(e.Typ) || b.Op == "nil" {
			return
		}
		n := in.Len(b)
		base, lo, ln := m.rng(in, a)
		for a.Op == "slice" && a.Args[0].Op == "nil" {
			a = a.Args[0]
		}
		if a.Op == "nil" || !s.Le(ts.Add(ln, n), in.Cap(a)) {
			// a new place
			nb := in.Fresh(s, e, "rule.bytes", e.Typ)
			in.Keep(nb)
			s.Assume(ts.Eq(in.Len(nb), ts.Add(ln, n), types.Typ[types.Int]), true)
			if a.Op != "nil" && !s.EqInt(ln, ts.Int(0)) {
				m.add(in, s, e, "d", "", nb, ts.Int(0), ln, a)
			}
			m.add(in, s, e, "d", "", nb, ln, n, b)
			e.Result = nb
			return
		}
		at := ts.Add(lo, ln)
		m.add(in, s, e, "d", "", base, at, n, b)
		e.Result = ts.Mk("slice", "", e.Typ, base, lo, ts.Add(at, n))
		e.Handled = true
	case "copy":
		a, b := e.Args[0], e.Args[1]
		base, lo, ln := m.rng(in, a)
		n := in.Len(b)
		if !s.Le(n, ln) {
			in.ReportAt(s, m.key, e.Instr, "fewer bytes may be copied than there are")
			s.Kill()
			return
		}
		m.add(in, s, e, "d", "", base, lo, n, b)
	case "call":
		if e.Callee == nil {
			return
		}
		name := e.Callee.String()
		switch {
		case name == "hash/crc32.Update" || name == "hash/crc32.Checksum":
			prev, tab, x := ts.Int(0), e.Args[0], e.Args[0]
			if strings.HasSuffix(name, "Update") {
				prev, tab, x = e.Args[0], e.Args[1], e.Args[2]
			} else {
				x, tab = e.Args[0], e.Args[1]
			}
			base, lo, n := m.rng(in, x)
			e.Result, e.Handled = ts.Mk("pure", "crc", types.Typ[types.Uint32], prev, tab, base, lo, n), true
			m.add(in, s, e, "crc", "", base, lo, n, e.Result)
		case strings.HasPrefix(name, "(encoding/binary."):
			order := "big"
			if strings.Contains(name, "littleEndian") {
				order = "little"
			} else if !strings.Contains(name, "bigEndian") {
				return
			}
			meth := e.Callee.Name()
			w := map[string]int64{"16": 2, "32": 4, "64": 8}[meth[max(0, len(meth)-2):]]
			x := e.Args[1]
			base, lo, n := m.rng(in, x)
			switch {
			case strings.HasPrefix(meth, "Put"):
				m.add(in, s, e, "w", order, base, lo, ts.Int(w), e.Args[2])
				e.Handled = true
			case strings.HasPrefix(meth, "AppendUint"):
				if s.Le(ts.Add(n, ts.Int(w)), in.Cap(x)) {
					at := ts.Add(lo, n)
					m.add(in, s, e, "w", order, base, at, ts.Int(w), e.Args[2])
					e.Result, e.Handled = ts.Mk("slice", "", e.Callee.Signature.Results().At(0).Type(), base, lo, ts.Add(at, ts.Int(w))), true
				}
			case strings.HasPrefix(meth, "Uint"):
				e.Result, e.Handled = ts.Mk("rd", order, e.Callee.Signature.Results().At(0).Type(), base, lo), true
			}
		case isMapping(e.Callee):
			m.mapping(in, s, e)
		}
	}
}

func (m *s13model) mapping(in *flow.Interp, s *flow.State, e *flow.Event) {
	e.Result = in.TS.Sym("map", e.Callee.Signature.Results().At(0).Type())
	in.Keep(e.Result)
	s.Assume(in.TS.Le(in.Len(e.Result), in.Cap(e.Result)), true)
	e.Handled = true
}

func isByteType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isMapping: the bytes of a mapped file, made out of its address.
func isMapping(f *ssa.Function) bool {
	if f == nil || !inPkg(f, filesPkg) {
		return false
	}
	sg := f.Signature
	if sg.Results().Len() != 1 || !isBytes(sg.Results().At(0).Type()) {
		return false
	}
	ps := append([]*ssa.Parameter{}, f.Params...)
	if len(ps) == 0 {
		return false
	}
	for _, p := range ps {
		if isIntType(p.Type()) {
			continue
		}
		st, ok := p.Type().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		addr := false
		for i := 0; i < st.NumFields(); i++ {
			b, ok := st.Field(i).Type().Underlying().(*types.Basic)
			addr = addr || ok && b.Kind() == types.Uintptr
		}
		if !addr {
			return false
		}
	}
	for _, p := range ps {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
			return true
		}
	}
	return len(ps) == 1
}

// expand replaces runs copied out of buffers by what was written into them.
func (m *s13model) expand(in *flow.Interp, s *flow.State, segs []s13seg) []s13seg {
	ts := in.TS
	var out []s13seg
	for _, g := range segs {
		if g.kind != "d" {
			out = append(out, g)
			continue
		}
		b, lo, n := m.rng(in, g.val)
		hit := false
		for _, h := range append([]s13seg{}, out...) {
			if h.base != b || h.kind == "crc" {
				continue
			}
			if s.Le(lo, h.off) && s.Le(ts.Add(h.off, h.len), ts.Add(lo, n)) {
				h2 := h
				h2.base = g.base
				h2.off = ts.Add(g.off, ts.Sub(h.off, lo))
				out = append(out, h2)
				hit = true
			}
		}
		if !hit {
			out = append(out, g)
		}
	}
	return out
}

func runS13(c *Ctx) {
	ts := c.P.TS
	names := map[string]string{"set": "file.SetRecord", "get": "file.Record", "has": "file.HasRecord", "setmeta": "file.SetMetadata", "getmeta": "file.Metadata"}
	fns := map[string]*ssa.Function{}
	for _, k := range sortedKeys(names) {
		fns[k] = c.Fn(filesPkg, names[k])
		if fns[k] == nil {
			return
		}
	}
	known := c.P.ConstInt(filesPkg, "recordVersion")
	if known == nil || *known == 0 {
		c.Fail("anchor:version", filesPkg, "the version of the records that are written was not found")
		return
	}
	version := *known
	recT := fns["get"].Signature.Results().At(0).Type()
	recS, _ := recT.Underlying().(*types.Struct)
	if recS == nil {
		c.Fail("anchor:record", filesPkg, "reading a record does not give a record")
		return
	}
	file := ts.Sym("rule.file", fns["get"].Params[0].Type())
	n := ts.Sym("rule.n", types.Typ[types.Int])
	rec := ts.Sym("rule.rec", recT)
	var dataField, sizeField *types.Var
	for i := 0; i < recS.NumFields(); i++ {
		if isBytes(recS.Field(i).Type()) {
			dataField = recS.Field(i)
		}
	}
	field := func(t *flow.Term, name string) *flow.Term {
		for i := 0; i < recS.NumFields(); i++ {
			if recS.Field(i).Name() == name {
				return ts.Field(t, i, recS)
			}
		}
		return nil
	}
	// the version is the field the decoder compares with the constant
	interp := func(m *s13model, hook func(in *flow.Interp, s *flow.State, e *flow.Event)) *flow.Interp {
		in := flow.NewInterp(c.P, nil)
		in.KeepOrder = true
		in.Keep(file)
		in.Keep(n)
		in.Keep(rec)
		in.InlineCall = func(s *flow.State, h *ssa.Function, args []*flow.Term) bool {
			return inPkg(h, filesPkg) && !isMapping(h)
		}
		in.Hook = func(in *flow.Interp, s *flow.State, e *flow.Event) {
			m.hook(in, s, e)
			if !s.Dead() {
				hook(in, s, e)
			}
		}
		return in
	}
	args := func(f *ssa.Function, rest ...*flow.Term) []*flow.Term {
		as := []*flow.Term{file}
		for _, p := range f.Params[1:] {
			if isCtx(p.Type()) {
				as = append(as, ts.Sym("rule.ctx", p.Type()))
			} else if len(rest) > 0 {
				as = append(as, rest[0])
				rest = rest[1:]
			} else {
				as = append(as, ts.Sym("arg:"+p.Name(), p.Type()))
			}
		}
		return as
	}
	okErr := func(s *flow.State, t *flow.Term) bool {
		nl, known := s.IsNil(t)
		return !known || nl
	}
	oblige := func(k string, f *ssa.Function, what string) string {
		c.Oblige(k, c.P.Pos(f.Pos()), what, true)
		return k
	}

	// slot gives the term f.size
	sizeOf := func(in *flow.Interp, s *flow.State, base *flow.Term) *flow.Term {
		st, _ := file.T.Underlying().(*types.Struct)
		var best *flow.Term
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == "size" {
				best = ts.Field(file, i, st)
			}
		}
		return best
	}
	_ = sizeOf

	var enc *s13layout
	var encBase *flow.Term
	encode := func(kind, key string, f *ssa.Function, as []*flow.Term) {
		oblige(key, f, "what "+f.Name()+" stores is laid out consistently, within its place, and covered by the checksum")
		m := &s13model{c: c, key: key, pkg: filesPkg, max: 40}
		paths := 0
		var marshalled *flow.Term
		in := interp(m, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "call" && e.Callee != nil && e.Callee.Signature.Recv() != nil && !inPkg(e.Callee, filesPkg) && strings.HasSuffix(flow.PkgOf(e.Callee), "/internal/meta") {
				switch e.Callee.Name() {
				case "Size":
					e.Result, e.Handled = ts.Sym("meta:size", types.Typ[types.Int]), true
					in.Keep(e.Result)
					s.Assume(ts.Le(ts.Int(0), e.Result), true)
				case "MarshalTo":
					base, lo, _ := m.rng(in, e.Args[1])
					marshalled = ts.Sym("meta:size", types.Typ[types.Int])
					m.add(in, s, e, "m", "", base, lo, marshalled, nil)
					e.Handled = true
				case "Marshal":
					r := e.Callee.Signature.Results()
					b := ts.Sym("meta:bytes", r.At(0).Type())
					in.Keep(b)
					s.Assume(ts.Eq(in.Len(b), ts.Sym("meta:size", types.Typ[types.Int]), types.Typ[types.Int]), true)
					e.Result, e.Handled = ts.Mk("tuple", "", r, b, in.Fresh(s, e, "rule.err", r.At(1).Type())), true
				}
				return
			}
			if e.Kind != "exit" || !okErr(s, e.Args[len(e.Args)-1]) {
				return
			}
			bad := func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			}
			segs := m.expand(in, s, m.segs(s))
			// where the slot begins
			var base *flow.Term
			isMap := func(t *flow.Term) bool { return t.Op == "sym" && t.Name == "map" }
			for _, g := range segs {
				if isMap(g.base) && g.kind != "crc" && (base == nil || s.Le(g.off, base)) {
					base = g.off
				}
			}
			if base == nil {
				bad("%s reports success although nothing was stored in the mapped file", f.Name())
				return
			}
			if kind == "record" {
				if encBase != nil && encBase != base {
					bad("the record is not always stored at the same place")
					return
				}
				encBase = base
			}
			l := &s13layout{fields: map[string]s13place{}, where: c.P.PosOf(e.Instr), data: -1}
			at := func(t *flow.Term) (int64, bool) { return ts.ConstDiff(t, base) }
			// later writes win; nothing covered may change afterwards
			type ent struct {
				seq int
				g   s13seg
			}
			var crcVal *flow.Term
			crcSeq := -1
			for i, g := range segs {
				if g.kind == "w" && isMap(g.base) {
					v := unconv(g.val, 4)
					if v.Op == "pure" && v.Name == "crc" {
						o, ok := at(g.off)
						w, _ := g.len.IntVal()
						if !ok {
							bad("the checksum is stored at a place that is not known")
							return
						}
						l.crcAt = s13place{o, int(w), g.order}
						crcVal, crcSeq = v, i
					}
				}
			}
			if crcVal == nil {
				bad("%s stores no checksum", f.Name())
				return
			}
			if l.crcAt.width != 4 {
				bad("the checksum is stored in %d bytes", l.crcAt.width)
				return
			}
			init, rs := crcRanges(crcVal)
			inCrc := func(t *flow.Term) bool {
				for _, r := range rs {
					if r == t {
						return true
					}
				}
				return false
			}
			var mapAt func(b, lo *flow.Term) (string, bool)
			mapAt = func(b, lo *flow.Term) (string, bool) {
				if isMap(b) {
					if o, ok := at(lo); ok {
						return fmt.Sprint(o), true
					}
				}
				// a buffer that was copied into the slot
				for _, g := range m.segs(s) {
					if g.kind != "d" {
						continue
					}
					if gb, glo, _ := m.rng(in, g.val); gb == b && g.base != b {
						if o, ok := mapAt(g.base, ts.Add(g.off, ts.Sub(lo, glo))); ok {
							return o, true
						}
					}
				}
				return "", false
			}
			// the size that is stored
			var size *flow.Term
			for i, g := range segs {
				if !isMap(g.base) || g.kind == "crc" {
					continue
				}
				o, ok := at(g.off)
				if !ok {
					bad("something is stored at a place that is not known")
					return
				}
				// within the slot
				if sz := sizeOf(in, s, base); sz != nil && !s.Le(ts.Add(ts.Sub(g.off, base), g.len), sz) {
					bad("%s may store beyond the end of its place", f.Name())
					return
				}
				// not covered already
				if i != crcSeq {
					for k, h := range segs[:i] {
						_ = k
						if h.kind == "crc" && h.base == g.base && inCrc(h.val) {
							if !(s.Le(ts.Add(g.off, g.len), h.off) || s.Le(ts.Add(h.off, h.len), g.off)) {
								// writing the very bytes that were covered is fine
								if g.kind == "d" {
									gb, glo, _ := m.rng(in, g.val)
									if gb == g.base && glo == g.off {
										continue
									}
								}
								bad("something the checksum covers is changed after it was computed")
								return
							}
						}
					}
				}
				switch g.kind {
				case "w":
					if i == crcSeq {
						continue
					}
					w, _ := g.len.IntVal()
					pl := s13place{o, int(w), g.order}
					if w == 1 {
						pl.order = "one"
					}
					v := unconv(g.val, 1)
					name := ""
					for k := 0; k < recS.NumFields(); k++ {
						ft := ts.Field(rec, k, recS)
						b, isB := recS.Field(k).Type().Underlying().(*types.Basic)
						if isB && unconv(g.val, intWidth(b)) == ft && int(w) >= intWidth(b) {
							name = recS.Field(k).Name()
						}
					}
					if kind == "meta" && enc != nil {
						for nm, p := range enc.fields {
							if p.off == pl.off {
								if p != pl {
									bad("the %s of the metadata is stored as %s, that of records as %s", nm, pl, p)
									return
								}
								name = nm
							}
						}
						if sizeField != nil && name == sizeField.Name() {
							size = unconv(g.val, 2)
						}
						if p := enc.fields["version"]; name == "version" && p.off == pl.off && !s.EqInt(v, ts.Int(version)) {
							bad("the metadata is stored with another version than records")
							return
						}
					}
					if name == "" {
						bad("what is stored in %s is not a field of the record", pl)
						return
					}
					if old, have := l.fields[name]; have && old != pl {
						bad("the %s is stored twice", name)
						return
					}
					l.fields[name] = pl
				case "d":
					gb, glo, _ := m.rng(in, g.val)
					if kind == "record" && gb == field(rec, dataField.Name()) && isZeroInt(glo) {
						if l.data = o; true {
							for k := 0; k < recS.NumFields(); k++ {
								if ft := ts.Field(rec, k, recS); isIntType(recS.Field(k).Type()) && s.EqInt(g.len, ft) {
									sizeField = recS.Field(k)
								}
							}
						}
					} else if isMap(gb) && glo == g.off {
						l.data = o
					} else if kind == "meta" && gb.Op == "sym" && gb.Name == "meta:bytes" {
						l.data = o
					} else {
						bad("bytes are stored that are not the data of the record")
						return
					}
				case "m":
					l.data = o
				}
			}
			if l.data < 0 {
				bad("the data of the record is not stored")
				return
			}
			if kind == "record" {
				if sizeField == nil {
					bad("the data is not stored to the length the record has")
					return
				}
				for k := 0; k < recS.NumFields(); k++ {
					if recS.Field(k) == dataField {
						continue
					}
					if _, ok := l.fields[recS.Field(k).Name()]; !ok {
						bad("the %s of the record is not stored", recS.Field(k).Name())
						return
					}
				}
				size = field(rec, sizeField.Name())
			} else if size == nil || !s.EqInt(size, ts.Sym("meta:size", types.Typ[types.Int])) {
				bad("the size of the metadata is not stored")
				return
			}
			// what the checksum covers
			var cov []string
			for _, r := range rs {
				o, ok := mapAt(r.Args[2], r.Args[3])
				if !ok && kind == "meta" && r.Args[2].Op == "sym" && r.Args[2].Name == "meta:bytes" {
					o, ok = fmt.Sprint(l.data), true
				}
				if !ok {
					bad("the checksum covers something that is not stored: %s", clipTerm(r))
					return
				}
				n := r.Args[4]
				if k, isC := n.IntVal(); isC {
					cov = append(cov, o+"+"+fmt.Sprint(k))
				} else if s.EqInt(n, size) {
					cov = append(cov, o+"+size")
				} else if k, ok := ts.ConstDiff(n, size); ok {
					cov = append(cov, fmt.Sprintf("%s+size+%d", o, k))
				} else {
					bad("the checksum covers more or less than the data")
					return
				}
			}
			l.crc = init.String() + " " + s13tables(rs) + ": " + strings.Join(cov, ", ")
			// all of the record is covered
			if msg := s13covered(l, cov); msg != "" {
				bad("%s", msg)
				return
			}
			paths++
			if enc == nil {
				enc = l
				return
			}
			if msg := s13same(enc, l); msg != "" {
				bad("%s", msg)
			}
		})
		c.Explore(in, f, as, func(s *flow.State) {})
		if paths == 0 && c.Obl[key].OK {
			c.Fail(key, c.P.Pos(f.Pos()), "no path of %s stores anything", f.Name())
		}
		c.Count("ways to store", paths)
	}
	encode("record", "store:record", fns["set"], args(fns["set"], n, rec))
	if enc == nil {
		return
	}
	encode("meta", "store:metadata", fns["setmeta"], args(fns["setmeta"]))
	for _, k := range sortedKeys(enc.fields) {
		c.Oblige("field:"+k, enc.where, "the "+k+" is read where it is stored", true)
		c.Count("fields compared", 1)
	}

	decode := func(kind, key string, f *ssa.Function, as []*flow.Term) {
		oblige(key, f, f.Name()+" reads what was stored, and only what the version, the size and the checksum confirm")
		m := &s13model{c: c, key: key, pkg: filesPkg, max: 40}
		paths := 0
		var base *flow.Term
		if kind == "record" {
			base = encBase
		} else {
			base = ts.Int(0)
		}
		read := func(pl s13place, t *flow.Term) bool { // is t what is read at pl?
			if t.Op != "rd" || t.Name != pl.order {
				return false
			}
			if b, ok := t.T.Underlying().(*types.Basic); !ok || intWidth(b) != pl.width {
				return false
			}
			o, ok := ts.ConstDiff(t.Args[1], base)
			return ok && o == pl.off && t.Args[0].Op == "sym" && t.Args[0].Name == "map"
		}
		check := func(in *flow.Interp, s *flow.State, e *flow.Event, out *flow.Term, report func(string, ...interface{})) {
			var size *flow.Term
			for k := 0; k < recS.NumFields(); k++ {
				v := recS.Field(k)
				if v == dataField {
					continue
				}
				pl := enc.fields[v.Name()]
				t := ts.Field(out, k, recS)
				b := v.Type().Underlying().(*types.Basic)
				r := unconv(t, min(pl.width, intWidth(b)))
				ok := read(pl, r)
				if v == sizeField {
					size = t
				}
				if kv, isC := t.IntVal(); !ok && isC {
					// known by comparison
					for _, rd := range s13reads(s, pl, read) {
						if s.EqInt(rd, ts.Int(kv)) || s.EqInt(ts.Mk("conv", "", v.Type(), rd), ts.Int(kv)) {
							ok = true
						}
					}
				}
				if !ok {
					report("the %s is stored as %s and read from %s", v.Name(), pl, clipTerm(r))
					return
				}
				if v.Name() == "version" && !s.EqInt(t, ts.Int(version)) {
					report("a record of an unknown version is accepted")
					return
				}
			}
			d := ts.Mk("none", "", nil)
			for k := 0; k < recS.NumFields(); k++ {
				if recS.Field(k) == dataField {
					d = ts.Field(out, k, recS)
				}
			}
			db, lo, ln := m.rng(in, d)
			if o, ok := ts.ConstDiff(lo, base); !ok || o != enc.data || db.Op != "sym" || db.Name != "map" {
				report("the data is stored at %d and read from %s", enc.data, clipTerm(d))
				return
			}
			if size == nil || !s.EqInt(ln, size) {
				report("the data that is read does not have the size that was stored")
				return
			}
			if sz := sizeOf(in, s, base); sz != nil && kind == "record" && !s.Le(ts.Add(ts.Int(enc.data), size), sz) {
				report("a record is accepted that is longer than its place")
				return
			}
			// the checksum
			for _, g := range m.segs(s) {
				if g.kind != "crc" {
					continue
				}
				init, rs := crcRanges(g.val)
				var cov []string
				for _, r := range rs {
					o, ok := ts.ConstDiff(r.Args[3], base)
					if !ok || r.Args[2].Op != "sym" || r.Args[2].Name != "map" {
						cov = append(cov, "?")
						continue
					}
					if k, isC := r.Args[4].IntVal(); isC {
						cov = append(cov, fmt.Sprintf("%d+%d", o, k))
					} else if s.EqInt(r.Args[4], size) {
						cov = append(cov, fmt.Sprintf("%d+size", o))
					} else if k, ok := ts.ConstDiff(r.Args[4], size); ok {
						cov = append(cov, fmt.Sprintf("%d+size+%d", o, k))
					} else {
						cov = append(cov, "?")
					}
				}
				if init.String()+" "+s13tables(rs)+": "+s13norm(cov) != s13normCrc(enc.crc) {
					continue
				}
				for _, rd := range s13reads(s, enc.crcAt, read) {
					if s.Same(rd, g.val) || s.EqInt(rd, g.val) {
						return
					}
				}
			}
			report("a record is accepted without its checksum, %s, being that of %s", enc.crcAt, enc.crc)
		}
		parsed := map[string]bool{}
		in := interp(m, func(in *flow.Interp, s *flow.State, e *flow.Event) {
			if e.Kind == "load" && e.Result != nil && e.Result.Op == "rd" || e.Kind == "call" && e.Result != nil && e.Result.Op == "rd" {
				in.Keep(e.Result)
				s.R["rd:"+e.Result.Name+":"+itoa(e.Result.ID)] = e.Result
			}
			if kind == "meta" {
				if e.Kind == "call" && e.Callee != nil && strings.HasSuffix(flow.PkgOf(e.Callee), "/internal/meta") && e.Callee.Name() == "Unmarshal" {
					d := e.Args[1]
					vs := make([]*flow.Term, recS.NumFields())
					for k := range vs {
						v := recS.Field(k)
						if v == dataField {
							vs[k] = d
							continue
						}
						vs[k] = ts.Int(0)
						for _, rd := range s13reads(s, enc.fields[v.Name()], read) {
							vs[k] = rd
						}
						if v.Name() == "version" {
							if s.EqInt(vs[k], ts.Int(version)) || s.EqInt(ts.Mk("conv", "", v.Type(), vs[k]), ts.Int(version)) {
								vs[k] = ts.Int(version)
							}
						} else if v == sizeField {
							if vs[k].Op != "rd" {
								vs[k] = in.Len(d)
							}
						}
					}
					dead := false
					checkMeta := func(format string, a ...interface{}) {
						if !dead {
							in.ReportAt(s, key, e.Instr, format, a...)
							dead = true
						}
					}
					// only the data, its size, the version and the checksum matter
					out := ts.Struct(recT, vs)
					for k := range vs {
						if v := recS.Field(k); v != dataField && v != sizeField && v.Name() != "version" && vs[k].Op != "rd" {
							vs[k] = in.TS.Mk("rd", enc.fields[v.Name()].order, widthType(enc.fields[v.Name()].width), ts.Sym("map", dataField.Type()), ts.AddI(base, enc.fields[v.Name()].off))
						}
					}
					out = ts.Struct(recT, vs)
					check(in, s, e, out, checkMeta)
					if dead {
						s.Kill()
						return
					}
					paths++
					s.D["parsed"] = "yes"
				}
				if e.Kind == "exit" && okErr(s, e.Args[len(e.Args)-1]) && s.D["parsed"] == "" {
					in.ReportAt(s, key, e.Instr, "metadata is returned that was not read from the file")
				}
				return
			}
			if e.Kind != "exit" || !okErr(s, e.Args[len(e.Args)-1]) {
				return
			}
			parsed["x"] = true
			paths++
			check(in, s, e, e.Args[0], func(format string, a ...interface{}) {
				in.ReportAt(s, key, e.Instr, format, a...)
				s.Kill()
			})
		})
		c.Explore(in, f, as, func(s *flow.State) {})
		if paths == 0 && c.Obl[key].OK {
			c.Fail(key, c.P.Pos(f.Pos()), "no path of %s reads anything", f.Name())
		}
		c.Count("ways to read", paths)
	}
	decode("record", "read:record", fns["get"], args(fns["get"], n))
	decode("meta", "read:metadata", fns["getmeta"], args(fns["getmeta"]))

	// whether there is a record
	hk := oblige("has", fns["has"], "a place holds a record only if its version is set")
	m := &s13model{c: c, key: hk, pkg: filesPkg, max: 40}
	paths := 0
	in := interp(m, func(in *flow.Interp, s *flow.State, e *flow.Event) {
		if e.Kind == "load" && e.Result != nil && e.Result.Op == "rd" {
			in.Keep(e.Result)
			s.R["rd:"+e.Result.Name+":"+itoa(e.Result.ID)] = e.Result
		}
		if e.Kind != "exit" {
			return
		}
		v, known := s.Decide(e.Args[0])
		if known && !v {
			return
		}
		paths++
		pl := enc.fields["version"]
		at := ts.AddI(encBase, pl.off)
		for _, rd := range s13reads(s, pl, func(pl s13place, t *flow.Term) bool { return t.Op == "rd" && t.Name == pl.order && t.Args[1] == at }) {
			if ne := ts.Not(ts.Eq(rd, ts.Int(0), types.Typ[types.Uint8])); e.Args[0] == ne || s.Must(ne) || s.Clone().Assume(e.Args[0], true) && s13implies(s, e.Args[0], ne) {
				return
			}
		}
		in.ReportAt(s, hk, e.Instr, "a place counts as used without its version, %s, being set", pl)
	})
	c.Explore(in, fns["has"], args(fns["has"], n), func(s *flow.State) {})
	if paths == 0 {
		c.Fail(hk, c.P.Pos(fns["has"].Pos()), "no place ever holds a record")
	}
}

func s13implies(s *flow.State, p, q *flow.Term) bool {
	x := s.Clone()
	if !x.Assume(p, true) || x.Dead() {
		return true
	}
	return x.Must(q)
}

func widthType(w int) types.Type {
	return types.Typ[map[int]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]]
}

// s13reads are the reads that happened at a place.
func s13reads(s *flow.State, pl s13place, read func(s13place, *flow.Term) bool) []*flow.Term {
	var out []*flow.Term
	for _, k := range sortedKeys(s.R) {
		if strings.HasPrefix(k, "rd:") && s.R[k] != nil && read(pl, s.R[k]) {
			out = append(out, s.R[k])
		}
	}
	return out
}

// s13norm joins neighbouring ranges.
func s13norm(cov []string) string { return strings.Join(joinRanges(cov), ", ") }

func s13normCrc(x string) string {
	i := strings.Index(x, ": ")
	return x[:i+2] + s13norm(strings.Split(x[i+2:], ", "))
}

func joinRanges(cov []string) []string {
	var out []string
	for _, x := range cov {
		if len(out) > 0 {
			var a, n, b, k int64
			if _, err := fmt.Sscanf(out[len(out)-1], "%d+%d", &a, &n); err == nil && !strings.Contains(out[len(out)-1], "size") {
				if _, err := fmt.Sscanf(x, "%d+size", &b); err == nil && b == a+n && strings.HasSuffix(x, "+size") {
					out[len(out)-1] = fmt.Sprintf("%d+size+%d", a, n)
					continue
				}
				if _, err := fmt.Sscanf(x, "%d+%d", &b, &k); err == nil && b == a+n {
					out[len(out)-1] = fmt.Sprintf("%d+%d", a, n+k)
					continue
				}
			}
		}
		out = append(out, x)
	}
	return out
}

// s13covered says which part of a layout the checksum leaves out.
func s13covered(l *s13layout, cov []string) string {
	covers := func(o, n int64) bool {
		for _, x := range cov {
			var a, k int64
			if strings.Contains(x, "size") {
				continue
			}
			if _, err := fmt.Sscanf(x, "%d+%d", &a, &k); err == nil && a <= o && o+n <= a+k {
				return true
			}
		}
		return false
	}
	type pl struct {
		o, n int64
		name string
	}
	var ps []pl
	for _, k := range sortedKeys(l.fields) {
		p := l.fields[k]
		if !covers(p.off, int64(p.width)) {
			return "the checksum does not cover the " + k
		}
		ps = append(ps, pl{p.off, int64(p.width), k})
	}
	ps = append(ps, pl{l.crcAt.off, int64(l.crcAt.width), "checksum"})
	sort.Slice(ps, func(i, j int) bool { return ps[i].o < ps[j].o })
	for i := 1; i < len(ps); i++ {
		if ps[i-1].o+ps[i-1].n > ps[i].o {
			return "the " + ps[i-1].name + " and the " + ps[i].name + " overlap"
		}
	}
	if last := ps[len(ps)-1]; last.o+last.n > l.data {
		return "the " + last.name + " and the data overlap"
	}
	for _, x := range cov {
		if x == fmt.Sprintf("%d+size", l.data) {
			return ""
		}
	}
	return "the checksum does not cover the data"
}

func s13same(a, b *s13layout) string {
	for _, k := range sortedKeys(b.fields) {
		if a.fields[k] != b.fields[k] {
			return fmt.Sprintf("the %s is stored as %s and elsewhere as %s", k, a.fields[k], b.fields[k])
		}
	}
	if a.data != b.data {
		return fmt.Sprintf("the data is stored at %d and elsewhere at %d", a.data, b.data)
	}
	if a.crcAt != b.crcAt || s13normCrc(a.crc) != s13normCrc(b.crc) {
		return fmt.Sprintf("the checksum is that of %s and elsewhere that of %s", a.crc, b.crc)
	}
	return ""
}
