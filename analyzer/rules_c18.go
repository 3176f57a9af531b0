package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C44", "wire-layout inference: abstract interpretation of the record decoder over a symbolic input, compared with the v2 record format", ruleC44)
}

// decodeFunc runs a module function of one byte slice on an input of unknown length.
func (p *Prog) decodeFunc(name string) (*W, *V, *wst) {
	fn := p.fn(name)
	if fn == nil {
		return nil, nil, nil
	}
	w := newW(p)
	st := newWst()
	n := vMk("frame", "", true)
	st.streams["in"] = &wstream{input: true, end: vInt(0), size: n}
	v, out := w.call(fn, []*V{vSl("in", vInt(0), n, false)}, nil, st, "d", 0)
	return w, v, out
}

func ruleC44(c *Ctx) {
	p := c.p
	c.rule("layout", "the decoder of a record takes its length, attributes, timestamp delta, offset delta, key, value and headers from the input in the format's order and widths and puts each in its own field; null and empty are kept apart")
	c.rule("complete", "a record is refused only if its length is 0 or larger than the rest of the input")
	c.rule("position", "the position returned is the end of the record")
	fn := c.anchor("DecodeToRecord")
	if fn == nil {
		return
	}
	if len(fn.Params) != 1 || fn.Signature.Results().Len() != 3 {
		c.fail("anchor", "DecodeToRecord", fn.Pos(), nil, "DecodeToRecord is not a function of the input to record, position and error any more")
		return
	}
	narrowVar = map[*V]int{}
	w, v, st := p.decodeFunc("DecodeToRecord")
	narrow := narrowVar
	narrowVar = nil
	if st == nil {
		c.fail("layout", "DecodeToRecord", fn.Pos(), nil, "no layout can be derived")
		return
	}
	c.wfuncs(w)
	m := &wmatch{pinned: map[*V]int{}, w: w, st: st, decode: true, strict: true}
	all := st.streams["in"].items
	if v.k != vTuple || len(v.a) != 3 {
		c.fail("layout", "DecodeToRecord", fn.Pos(), nil, "the decoder's result is %s", short(v))
		return
	}
	for _, r := range w.rejects {
		c.fail("complete", "DecodeToRecord/loop", fn.Pos(), nil, "decoding can end inside the headers, when %s", short(r))
	}
	var ok []mstate
	frame := vMk("frame", "", true)
	var length *V
	for _, x := range m.take([]mstate{{items: all, env: wenv{}}}, "record.length", "sv", 0, false) {
		length = x.v
		for _, e := range m.resolve(x.mstate, v.a[2]) {
			if e.v.k == vNil {
				if m.sub(vLt0(vSub(vSub(frame, itemsSize(all[:1])), x.v), e.env), e.env) != vBool(false) {
					c.fail("complete", "DecodeToRecord", fn.Pos(), nil, "a record whose length is larger than the rest of the input is not refused")
				}
				ok = append(ok, e.mstate)
				continue
			}
			if m.sub(vIsNil(e.v), e.env) != vBool(false) && !p.errorVar(e.v.String()) {
				m.fail("error", fn.Pos(), "whether the record is refused is not decided: %s", short(e.v))
				continue
			}
			rest := vSub(frame, itemsSize(all[:1]))
			zero := m.sub(vLt0(vSub(x.v, vInt(1)), e.env), e.env) == vBool(true) || m.sub(vEq(x.v, vInt(0), e.env), e.env) == vBool(true)
			if !zero && m.sub(vLt0(vSub(rest, x.v), e.env), e.env) != vBool(true) {
				c.fail("complete", "DecodeToRecord", fn.Pos(), nil, "a record is refused although its length is not 0 and not larger than the rest of the input")
			}
		}
	}
	c.count("outcomes", len(ok))
	for _, o := range ok {
		// what holds because the record is complete is put into the result before the fields are compared
		g := place{v: m.sub(v.a[0], o.env), t: fn.Signature.Results().At(0).Type()}
		for _, f := range []struct {
			name string
			bits int
		}{{"timestampDelta", 64}, {"offsetDelta", 32}} {
			if q, found := m.at(g, f.name); found {
				if n, isN := narrow[q.v]; isN && n < f.bits {
					c.fail("layout", "DecodeToRecord/"+f.name, fn.Pos(), nil, "%s is cut to %d bits", f.name, n)
				}
			}
		}
		end := m.sub(v.a[1], o.env)
		size := m.sub(itemsSize(all), o.env)
		ss := m.runFields([]mstate{o}, kafkaSchema["rec3"].fields, g, "record", false)
		m.finish(ss, "record")
		for _, s := range ss {
			c.count("layouts", 1)
			if !m.always(vSub(end, size), s.env, 0) && !m.always(vSub(end, vAdd(itemsSize(all[:1]), length)), s.env, 0) {
				c.fail("position", "DecodeToRecord", fn.Pos(), nil, "the position returned is not the end of the record: it differs by %s", short(m.sub(vSub(end, size), s.env)))
			}
		}
	}
	for v, n := range narrow {
		if n < 32 {
			c.fail("layout", "DecodeToRecord/narrow", fn.Pos(), nil, "a value of the record (%s) is cut to %d bits", v, n)
		}
	}
	for _, f := range m.fails {
		pos := f.pos
		if pos == token.NoPos {
			pos = fn.Pos()
		}
		c.fail("layout", "DecodeToRecord/"+f.field, pos, nil, "%s: %s", f.field, f.msg)
	}
	c.count("fields", m.fields)
	if len(m.fails) == 0 {
		c.floor("layouts", 1)
	}
}

// errorVar: v is a package variable of the module that is only ever set to a new error
func (p *Prog) errorVar(v string) bool {
	if !strings.HasPrefix(v, "global:") {
		return false
	}
	set, other := false, false
	look := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || "global:"+g.String() != v {
					continue
				}
				val := s.Val
				if mi, ok := val.(*ssa.MakeInterface); ok {
					val = mi.X
				}
				switch x := val.(type) {
				case *ssa.Alloc, *ssa.Global:
					set = true
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
						set = true
						continue
					}
					other = true
				default:
					other = true
				}
			}
		}
	}
	for _, f := range p.funcs {
		look(f)
	}
	if p.core != nil {
		if i := p.core.Func("init"); i != nil {
			look(i)
		}
	}
	return set && !other
}
