package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "wire-layout inference of the record batch encoder for every compression code, compared with the v2 format; path analysis of the producer's batches and records", ruleC17)
}

// record: one record, with its own length in front
func (m *wmatch) record(ss []mstate, g place, name string) []mstate {
	var pre []mstate
	for _, x := range m.take(ss, name+" (length)", "sv", 0, false) {
		if d := vSub(x.v, itemsSize(x.items)); !m.always(d, x.env, 0) {
			m.fail(name, x.pos, "the record length written is not the size of the record: it differs by %s", short(m.sub(d, x.env)))
			continue
		}
		pre = append(pre, x.mstate)
	}
	return m.runFields(pre, kafkaSchema["rec1"].fields, g, name, false)
}

func short(v *V) string {
	s := v.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// batch: one v2 record batch; id is the stream it is encoded in, if known; k the compression code
func (m *wmatch) batch(ss []mstate, g place, k int64, id, name string) []mstate {
	defer func(b bool) { m.flex = b }(m.flex)
	m.flex = false // record batches are the same in all versions of the requests
	f := func(path, typ string) []*sfield { return []*sfield{{path: path, typ: typ, max: 1000}} }
	ss = m.runFields(ss, f("BaseOffset", "i64"), g, name, false)
	var pre []mstate
	for _, x := range m.take(ss, name+".BatchLength", "u", 4, false) {
		d := vSub(stripTrunc(x.v, 4), itemsSize(x.items))
		if !m.always(d, x.env, 0) {
			m.fail(name+".BatchLength", x.pos, "the batch length written is not the number of bytes after it: it differs by %s", short(m.sub(d, x.env)))
			continue
		}
		pre = append(pre, x.mstate)
	}
	ss = m.runFields(pre, f("PartitionLeaderEpoch", "i32"), g, name, false)
	ss = m.runFields(ss, f("Magic", "i8"), g, name, false)
	pre = nil
	for _, x := range m.take(ss, name+".CRC", "u", 4, false) {
		v := stripTrunc(x.v, 4)
		if why := m.crcOver(v, x, id); why != "" {
			m.fail(name+".CRC", x.pos, "%s", why)
			continue
		}
		pre = append(pre, x.mstate)
	}
	ss = m.runFields(pre, kafkaSchema["rec2"].fields, g, name, false)
	// number of records
	recs, ok := m.at(g, "Records")
	if !ok {
		m.fail(name+".Records", token.NoPos, "no Go field for the records")
		return nil
	}
	var out []mstate
	arr := &sfield{path: "Records", typ: "array", max: 1000, sub: []*sfield{{path: "@", typ: "record", max: 1000}}}
	for _, x := range m.take(ss, name+".Records (count)", "u", 4, false) {
		want := m.sub(m.w.length(m.st, recs.v), x.env)
		if got := m.sub(stripTrunc(x.v, 4), x.env); got != want {
			m.fail(name+".Records", x.pos, "the record count written is %s, the number of records is %s", got, want)
			continue
		}
		for _, s := range m.head(x.mstate) {
			if len(s.items) > 0 && s.items[0].op == "raw" {
				it := s.items[0]
				z, ok := m.w.comp[it.v.s]
				if it.v.k != vAtom || !ok {
					m.fail(name+".Records", it.pos, "the protocol has the records here, the code has %s", itemDesc(it))
					continue
				}
				codec := codecOf(z.fn)
				if codec != codecName(k) {
					m.fail(name+".Records", it.pos, "attributes with compression code %d, but the records are compressed by %s", k, fname(z.fn))
					continue
				}
				src := z.st.streams[z.arg.s]
				if z.arg.k != vSlice || src == nil || z.arg.a[0] != vInt(0) || !m.always(vSub(z.arg.a[1], src.end), s.env, 0) {
					m.fail(name+".Records", it.pos, "what is compressed (%s) is not the whole of the encoded records", short(z.arg))
					continue
				}
				in := mval{mstate{items: src.items, env: s.env}, want, it.pos}
				for _, e := range m.elements(in, arr, recs, name+".Records") {
					for _, r := range m.head(e) {
						if len(r.items) > 0 {
							m.fail(name+".Records", r.items[0].pos, "after the records, %s is compressed", itemDesc(r.items[0]))
						}
					}
				}
				n := s
				n.items = s.items[1:]
				out = append(out, n)
				continue
			}
			if k != 0 {
				m.fail(name+".Records", x.pos, "the records of a batch with compression code %d are not compressed", k)
				continue
			}
			y := x
			y.mstate, y.v = s, want
			out = append(out, m.elements(y, arr, recs, name+".Records")...)
		}
	}
	return out
}

func codecName(k int64) string {
	for _, c := range codecs {
		if c.code == k {
			return c.name
		}
	}
	return "?"
}

// codecOf: the codec package a compressor calls
func codecOf(fn *ssa.Function) string {
	seen := map[*ssa.Function]bool{}
	r := "none"
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		if seen[f] || d > 4 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if g := k.Common().StaticCallee(); g != nil {
						n := funcName(g)
						for _, c := range codecs {
							if c.pkg != "" && g.Pkg != f.Pkg && strings.Contains(n, c.pkg) {
								r = c.name
							}
						}
						if g.Pkg == f.Pkg && g.Blocks != nil {
							walk(g, d+1)
						}
					}
				}
			}
		}
	}
	walk(fn, 0)
	return r
}

// crcOver: v is the CRC-32C of everything after it
func (m *wmatch) crcOver(v *V, x mval, id string) string {
	if v.k != vAtom || v.op != "crc" {
		return fmt.Sprintf("the checksum written is %s", short(v))
	}
	if !m.w.p.castagnoli(v.s) {
		return fmt.Sprintf("the checksum is computed with table %s, not with the Castagnoli polynomial", v.s)
	}
	sl := v.a[0]
	if sl.k != vSlice {
		return fmt.Sprintf("the checksum is computed over %s", short(sl))
	}
	if id != "" && sl.s != id {
		return fmt.Sprintf("the checksum is computed over %s, not over the encoded batch", short(sl))
	}
	if !m.always(vSub(sl.a[0], vInt(21)), x.env, 0) {
		return fmt.Sprintf("the checksum starts at byte %s of the batch, not at its attributes (21)", sl.a[0])
	}
	if !m.always(vSub(sl.a[1], itemsSize(x.items)), x.env, 0) {
		return fmt.Sprintf("the checksum covers %s bytes, not all bytes after it", short(sl.a[1]))
	}
	return ""
}

// castagnoli: the table (a global variable or an inline MakeTable) is the one of CRC-32C
func (p *Prog) castagnoli(tab string) bool {
	const poly = 0x82f63b78
	if strings.HasPrefix(tab, "crctable:") {
		return strings.Contains(tab, fmt.Sprint(poly))
	}
	name := strings.TrimPrefix(tab, "global:")
	ok, n := true, 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, isS := in.(*ssa.Store)
				if !isS {
					continue
				}
				g, isG := s.Addr.(*ssa.Global)
				if !isG || g.String() != name {
					continue
				}
				n++
				ok = ok && isCastagnoliTable(s.Val)
			}
		}
	}
	for _, pk := range p.modPkgs() {
		if f := pk.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, isS := in.(*ssa.Store); isS {
						if g, isG := s.Addr.(*ssa.Global); isG && g.String() == name {
							n++
							ok = ok && isCastagnoliTable(s.Val)
						}
					}
				}
			}
		}
	}
	return ok && n > 0
}

func isCastagnoliTable(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || funcName(c.Call.StaticCallee()) != "hash/crc32.MakeTable" {
		return false
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok {
		return false
	}
	n, _ := constant.Uint64Val(constant.ToInt(k.Value))
	return n == 0x82f63b78
}

func ruleC17(c *Ctx) {
	p := c.p
	c.rule("layout", "for every compression code, the bytes of an encoded record batch are the v2 batch header and the records, in the protocol's order and widths, each from its own field")
	c.rule("length", "batch length and record lengths equal the symbolic number of bytes after them, the record count the number of records")
	c.rule("crc", "the checksum is the CRC-32C (Castagnoli) of all bytes from the attributes on")
	c.rule("compression", "the records are compressed as one whole by the codec the attributes name, and not at all for code 0")
	c.rule("carried", "a produce request carries, per partition, every record batch in this form and the size of all of them")
	c.rule("error", "an encoder that returns no bytes returns an error")
	named := p.typ("RecordBatch")
	fn := p.encodeMethod("RecordBatch")
	if named == nil || fn == nil {
		c.fail("layout", "RecordBatch", token.NoPos, nil, "no encoder of RecordBatch")
		return
	}
	for k := int64(0); k < 8; k++ {
		k := k
		w := newW(p)
		w.symf = func(loc string, t types.Type) *V {
			if strings.HasSuffix(loc, ".Attributes") {
				return vInt(k)
			}
			return nil
		}
		var recv *V
		st := newWst()
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			recv = vPtrTo("$r")
		} else {
			recv = w.load(st, "$r", fn.Params[0].Type())
		}
		args := []*V{recv}
		for _, q := range fn.Params[1:] {
			args = append(args, w.symAt("$"+q.Name(), q.Type()))
		}
		v, out := w.call(fn, args, nil, st, "e", 0)
		what := fmt.Sprintf("RecordBatch, compression code %d", k)
		if out == nil {
			c.fail("layout", what, fn.Pos(), nil, "%s: no encoded form can be derived", what)
			continue
		}
		c.wfuncs(w)
		m := &wmatch{pinned: map[*V]int{}, w: w, st: out}
		payload, err := v, vNilV
		if v.k == vTuple && len(v.a) == 2 {
			payload, err = v.a[0], v.a[1]
		}
		sent := false
		for _, r := range m.resolve(mstate{env: wenv{}}, payload) {
			for _, e := range m.resolve(r.mstate, err) {
				pv := m.sub(r.v, e.env)
				if !(e.v.k == vNil) && m.sub(vIsNil(e.v), e.env) == vBool(false) {
					continue // not sent
				}
				if pv.k == vNil {
					m.fail("error", fn.Pos(), "no bytes and no error are returned")
					continue
				}
				if e.v.k != vNil && m.sub(vIsNil(e.v), e.env).k != vConst {
					// an error value that may be nil: the bytes count only if it is
					e.env = assume(e.env, vIsNil(e.v), true)
				}
				if pv.k != vSlice || out.streams[pv.s] == nil || pv.a[0] != vInt(0) {
					m.fail("layout", fn.Pos(), "the encoder's result is %s", short(pv))
					continue
				}
				sent = true
				s := e.mstate
				str := out.streams[pv.s]
				if !m.always(vSub(pv.a[1], str.end), s.env, 0) {
					m.fail("layout", fn.Pos(), "the encoder returns %s bytes, %s were written", short(pv.a[1]), short(str.end))
				}
				s.items = str.items
				ss := m.batch([]mstate{s}, place{v: vPtrTo("$r"), t: types.NewPointer(named)}, k, pv.s, "RecordBatch")
				m.finish(ss, "RecordBatch")
			}
		}
		if k < 4 && !sent && len(m.fails) == 0 {
			m.fail("layout", fn.Pos(), "nothing is encoded")
		}
		if sent {
			c.count("layouts", 1)
		}
		for _, f := range m.fails {
			rule := "layout"
			switch {
			case strings.Contains(f.field, "CRC"):
				rule = "crc"
			case strings.Contains(f.msg, "length") || strings.Contains(f.msg, "count"):
				rule = "length"
			case strings.Contains(f.msg, "compress"):
				rule = "compression"
			case f.field == "error":
				rule = "error"
			}
			c.wireFail(rule, what, f)
		}
	}
	c.floor("layouts", 4)
	// the request carries the batches
	for _, wc := range p.wireCases() {
		sc := kafkaSchema[fmt.Sprintf("req%d", wc.api)]
		if wc.api != 0 || sc == nil {
			continue
		}
		what := fmt.Sprintf("%s v%d", wc.tn, wc.ver)
		w, v, st := p.encodeLayoutWith(wc.tn, wc.api, wc.ver, func(loc string, t types.Type) *V {
			if strings.HasSuffix(loc, ".Attributes") {
				return vInt(0)
			}
			return nil
		})
		if st == nil {
			c.fail("carried", what, token.NoPos, nil, "%s: no encoded form can be derived", what)
			continue
		}
		m := &wmatch{pinned: map[*V]int{}, w: w, st: st, ver: int(wc.ver), deep: true}
		for _, f := range m.request(p, v, sc, wc, sc.flexible(int(wc.ver))) {
			c.wireFail("carried", what, f)
		}
		c.count("produce request versions", 1)
	}
	c.floor("produce request versions", 1)
	c.producedBatches()
}
