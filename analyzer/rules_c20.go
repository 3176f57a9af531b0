package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "wire-layout inference of the encoders and decoders of the consumer protocol's payloads, compared with its schema; def-use analysis of the bytes put into join and sync requests", ruleC20)
}

// byteDecoders: functions from one byte slice to the type (and possibly an error)
func (p *Prog) byteDecoders(tn string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		sg := f.Signature
		if f.Parent() != nil || sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() == 0 || !isByteArr(sg.Params().At(0).Type()) {
			continue
		}
		if isNamed(deref(sg.Results().At(0).Type()), tn) {
			out = append(out, f)
		}
	}
	return out
}

func ruleC20(c *Ctx) {
	p := c.p
	c.rule("encoded", "the items an encoder writes are the consumer protocol's: version, topics (with their partitions), user data")
	c.rule("decoded", "the items a decoder reads are the same, and each Go field receives the value of its item")
	c.rule("fits", "everything the encoder writes fits into its buffer and the result is all of it")
	c.rule("carried", "the metadata of a group protocol and the assignment of a member in a sync request are results of these encoders")
	for _, k := range []struct{ tn, sc string }{{"ProtocolMetadata", "proto1"}, {"MemberAssignment", "proto2"}} {
		sc := kafkaSchema[k.sc]
		named := p.typ(k.tn)
		if named == nil {
			c.fail("encoded", k.tn, token.NoPos, nil, "no type %s", k.tn)
			continue
		}
		w, v, st := p.encodeLayout(k.tn, 0, 0)
		if st == nil {
			c.fail("encoded", k.tn, token.NoPos, nil, "%s: no encoded form can be derived", k.tn)
			continue
		}
		c.wfuncs(w)
		m := &wmatch{pinned: map[*V]int{}, w: w, st: st}
		ss := m.startEncode(v)
		g := place{v: vPtrTo("$r"), t: types.NewPointer(named)}
		ss = m.runFields(ss, sc.fields, g, sc.name, false)
		m.finish(ss, sc.name)
		for _, f := range m.fails {
			c.wireFail("encoded", k.tn, f)
		}
		c.count("encoders", 1)
		fm := &wmatch{pinned: map[*V]int{}, w: w, st: st}
		for _, r := range fm.resolve(mstate{env: wenv{}}, v) {
			if s := st.streams[r.v.s]; r.v.k == vSlice && s != nil {
				if d := fm.sub(vSub(r.v.a[1], s.end), r.env); !fm.always(d, r.env, 0) {
					fm.fail("-", token.NoPos, "the slice returned has %s bytes, %s were written", r.v.a[1], s.end)
				}
			}
		}
		fm.buffersFit(c)
		for _, f := range fm.fails {
			c.wireFail("fits", k.tn, f)
		}
		for _, fn := range p.byteDecoders(k.tn) {
			dw := newW(p)
			dw.framed = true
			dst := newWst()
			n := vMk("len", "$in", true)
			dst.streams["in"] = &wstream{input: true, end: vInt(0), size: n}
			dv, dout := dw.call(fn, []*V{vSl("in", vInt(0), n, false)}, nil, dst, "d", 0)
			c.wfuncs(dw)
			if dout == nil {
				c.fail("decoded", fname(fn), fn.Pos(), nil, "%s: no layout can be derived", fname(fn))
				continue
			}
			dm := &wmatch{pinned: map[*V]int{n: 1}, w: dw, st: dout, decode: true}
			if dv.k == vTuple && len(dv.a) > 0 {
				dv = dv.a[0]
			}
			dg := place{v: dv, t: fn.Signature.Results().At(0).Type()}
			six := int64(6) // a payload has a version and a number of topics
			ds := []mstate{{items: dout.streams["in"].items, env: wenv{}.with(n, fact{ge: &six})}}
			ds = dm.runFields(ds, sc.fields, dg, sc.name, false)
			dm.finish(ds, sc.name)
			for _, f := range dm.fails {
				c.wireFail("decoded", fname(fn), f)
			}
			c.count("decoders", 1)
		}
	}
	// where the payloads go
	encs := map[string]string{"ProtocolMetadata": "ProtocolMetadata", "MemberAssignment": "MemberAssignment"}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isByteArr(s.Val.Type()) {
					continue
				}
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}
				name := st.Field(fa.Field).Name()
				var want string
				switch {
				case isNamed(deref(fa.X.Type()), "GroupProtocol"):
					want = encs["ProtocolMetadata"]
				case name == "MemberAssignment" && st.NumFields() == 2 && !isNamed(deref(fa.X.Type()), "SyncGroupResponse"):
					want = encs["MemberAssignment"]
				default:
					continue
				}
				c.count("payload stores", 1)
				c.funcs[fname(f)] = true
				for _, call := range originCalls(s.Val, map[ssa.Value]bool{}) {
					if call == nil {
						c.fail("carried", fname(f)+" "+name, s.Pos(), nil, "%s: the %s of a group request is not the encoding of a %s", fname(f), name, want)
						continue
					}
					g := call.Call.StaticCallee()
					if g == nil || !isNamed(deref(recvOf(g)), want) {
						c.fail("carried", fname(f)+" "+name, s.Pos(), nil, "%s: the %s of a group request is the result of %s, not the encoding of a %s", fname(f), name, call.Call.String(), want)
					}
				}
			}
		}
	}
	c.floor("encoders", 2)
	c.floor("decoders", 2)
}

func recvOf(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// originCalls: the calls whose result v is; nil for an origin of another kind
func originCalls(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Call {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		return []*ssa.Call{x}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return []*ssa.Call{c}
		}
	case *ssa.Phi:
		var r []*ssa.Call
		for _, e := range x.Edges {
			r = append(r, originCalls(e, seen)...)
		}
		return r
	case *ssa.ChangeType:
		return originCalls(x.X, seen)
	case *ssa.Slice:
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && a.Len() == 0 {
			return nil // a placeholder
		}
	case *ssa.Const:
		return nil
	case *ssa.Parameter, *ssa.UnOp, *ssa.Field:
		return []*ssa.Call{} // passed in: judged where it is made
	}
	return []*ssa.Call{nil}
}
