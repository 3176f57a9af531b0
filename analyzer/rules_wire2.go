package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constMap evaluates the package-level maps with constant integer keys: key -> constant values (slices flattened).
func (p *Prog) constMap(g *ssa.Global) (map[int64][]int64, bool) {
	res := map[int64][]int64{}
	ok := false
	isMap := func(v ssa.Value) bool {
		if u, o := v.(*ssa.UnOp); o && u.Op == token.MUL && u.X == g {
			return true
		}
		if m, o := v.(*ssa.MakeMap); o && m.Referrers() != nil {
			for _, r := range *m.Referrers() {
				if s, o := r.(*ssa.Store); o && s.Addr == g && s.Val == v {
					return true
				}
			}
		}
		return false
	}
	for _, m := range g.Pkg.Members {
		fn, o := m.(*ssa.Function)
		if !o || (fn.Name() != "init" && !isInitN(fn.Name())) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, o := in.(*ssa.MapUpdate)
				if !o || !isMap(mu.Map) {
					continue
				}
				ok = true
				k, kok := intConst(mu.Key)
				if !kok {
					return nil, false
				}
				vs, vok := constInts(mu.Value)
				if !vok {
					return nil, false
				}
				res[k] = vs
			}
		}
	}
	return res, ok
}

func isInitN(n string) bool { return len(n) > 5 && n[:5] == "init#" }

func intConst(v ssa.Value) (int64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Int {
				return 0, false
			}
			n, ok := constant.Int64Val(x.Value)
			return n, ok
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return 0, false
		}
	}
}

// constInts: a constant, or a slice literal of constants
func constInts(v ssa.Value) ([]int64, bool) {
	if n, ok := intConst(v); ok {
		return []int64{n}, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok || s.Low != nil || s.High != nil {
		return nil, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	res := make([]int64, at.Len())
	for _, r := range *al.Referrers() {
		ia, o := r.(*ssa.IndexAddr)
		if !o {
			continue
		}
		i, o := intConst(ia.Index)
		if !o {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if st, o := rr.(*ssa.Store); o && st.Addr == ia {
				n, o := intConst(st.Val)
				if !o {
					return nil, false
				}
				res[i] = n
			}
		}
	}
	return res, true
}

// versionTable finds the table of implemented versions: the package-level map from API key to versions.
func (p *Prog) versionTable() (*ssa.Global, map[int64][]int64) {
	for _, n := range sortedKeys(p.core.Members) {
		g, ok := p.core.Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		m, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || intKind(m.Key()) != types.Uint16 {
			continue
		}
		s, ok := m.Elem().Underlying().(*types.Slice)
		if !ok || intKind(s.Elem()) != types.Uint16 {
			continue
		}
		if t, ok := p.constMap(g); ok {
			return g, t
		}
	}
	return nil, nil
}

func intKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

type wireCase struct {
	tn       string
	api, ver int64
}

// wireCases: every request type with its API key and each version that can be negotiated for it
func (p *Prog) wireCases() []wireCase {
	_, tab := p.versionTable()
	var out []wireCase
	apis := p.requestAPIs()
	for _, tn := range sortedKeys(apis) {
		for _, k := range sortedKeys(apis[tn]) {
			a, _ := strconv.ParseInt(k, 10, 64)
			vs := tab[a]
			if vs == nil {
				vs = []int64{0}
			}
			for _, v := range vs {
				out = append(out, wireCase{tn, a, v})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].api != out[j].api {
			return out[i].api < out[j].api
		}
		return out[i].ver > out[j].ver
	})
	return out
}

func (c *Ctx) wfuncs(w *W) {
	for f := range w.funcs {
		c.funcs[fname(f)] = true
	}
}

func (c *Ctx) wireFail(rule, what string, f mfail) {
	c.fail(rule, what+" "+f.field, f.pos, nil, "%s, %s: %s", what, f.field, f.msg)
}

func init() {
	register("C13", "wire-layout inference: abstract interpretation of every encoder over symbolic field values, compared with the protocol's schema per API and version", ruleC13)
}

func ruleC13(c *Ctx) {
	p := c.p
	c.rule("layout", "the sequence of items (width, order, repetition, source field) each Encode writes equals the protocol's schema of its API and version")
	for _, wc := range p.wireCases() {
		what := fmt.Sprintf("%s v%d", wc.tn, wc.ver)
		sc := kafkaSchema[fmt.Sprintf("req%d", wc.api)]
		if sc == nil {
			c.fail("schema", what, token.NoPos, nil, "%s: API %d is not a known API of the protocol", what, wc.api)
			continue
		}
		w, v, st := p.encodeLayout(wc.tn, wc.api, wc.ver)
		if st == nil {
			c.fail("layout", what, token.NoPos, nil, "%s: no encoded form can be derived", what)
			continue
		}
		c.wfuncs(w)
		for _, f := range matchRequest(p, w, v, st, sc, wc) {
			c.wireFail("layout", what, f)
		}
		c.count("layouts", 1)
	}
}

var headerFields = []*sfield{
	{path: "RequestHeader.APIKey", typ: "i16", max: 1000},
	{path: "RequestHeader.APIVersion", typ: "i16", max: 1000},
	{path: "RequestHeader.CorrelationID", typ: "i32", max: 1000},
	{path: "RequestHeader.ClientID", typ: "string", null: true, max: 1000},
}

func matchRequest(p *Prog, w *W, v *V, st *wst, sc *smsg, wc wireCase) []mfail {
	return matchRequestH(p, w, v, st, sc, wc, sc.flexible(int(wc.ver)))
}

func matchRequestH(p *Prog, w *W, v *V, st *wst, sc *smsg, wc wireCase, htags bool) []mfail {
	return (&wmatch{pinned: map[*V]int{}, w: w, st: st, ver: int(wc.ver)}).request(p, v, sc, wc, htags)
}

func (m *wmatch) request(p *Prog, v *V, sc *smsg, wc wireCase, htags bool) []mfail {
	flex := sc.flexible(int(wc.ver))
	ss := m.startEncode(v)
	named := p.typ(wc.tn)
	g := place{v: vPtrTo("$r"), t: types.NewPointer(named)}
	// frame length
	ss = vals(m.take(ss, "length", "u", 4, false))
	ss = m.runFields(ss, headerFields, g, "header", false)
	m.flex = flex
	if htags {
		ss = m.tags(ss, "header.tags")
	}
	if len(m.fails) == 0 {
		ss = m.runFields(ss, sc.fields, g, sc.name, true)
	}
	m.finish(ss, sc.name)
	return m.fails
}

// startEncode: the states of an encoder's result
func (m *wmatch) startEncode(v *V) []mstate {
	var out []mstate
	if v.k == vTuple && len(v.a) > 0 {
		v = v.a[0]
	}
	for _, r := range m.resolve(mstate{env: wenv{}}, v) {
		if r.v.k != vSlice || m.st.streams[r.v.s] == nil {
			m.fail("-", token.NoPos, "the encoder's result is %s", r.v)
			continue
		}
		if r.v.a[0] != vInt(0) {
			m.fail("-", token.NoPos, "the encoder's result starts at offset %s of its buffer", r.v.a[0])
			continue
		}
		s := r.mstate
		s.items = m.st.streams[r.v.s].items
		out = append(out, s)
	}
	return out
}

func (m *wmatch) finish(ss []mstate, name string) {
	if len(m.fails) > 0 {
		return
	}
	for _, s := range ss {
		if s.done {
			continue
		}
		for _, r := range m.head(s) {
			if len(r.items) > 0 {
				m.fail(name, r.items[0].pos, "after the last field, %s is %s", itemDesc(r.items[0]), m.verb())
			}
		}
	}
}

func init() {
	register("C16", "wire-layout inference: symbolic size of every encoder's output compared with the length it writes and the buffers it allocates", ruleC16)
}

func ruleC16(c *Ctx) {
	p := c.p
	c.rule("prefix", "the value written into the first four bytes of a request equals the symbolic number of bytes after them, in every case")
	c.rule("whole", "the slice an encoder returns is exactly the bytes it wrote")
	c.rule("fits", "everything written into a fixed-size buffer fits into it, for every value of the fields")
	for _, wc := range p.wireCases() {
		what := fmt.Sprintf("%s v%d", wc.tn, wc.ver)
		w, v, st := p.encodeLayout(wc.tn, wc.api, wc.ver)
		if st == nil {
			c.fail("layout", what, token.NoPos, nil, "%s: no encoded form can be derived", what)
			continue
		}
		c.wfuncs(w)
		m := &wmatch{pinned: map[*V]int{}, w: w, st: st, ver: int(wc.ver)}
		if v.k == vTuple && len(v.a) > 0 {
			v = v.a[0]
		}
		for _, r := range m.resolve(mstate{env: wenv{}}, v) {
			if r.v.k == vNil {
				continue // not encodable
			}
			s := st.streams[r.v.s]
			if r.v.k != vSlice || s == nil || r.v.a[0] != vInt(0) {
				m.fail("-", token.NoPos, "the result is %s", r.v)
				continue
			}
			c.count("results", 1)
			pos := token.NoPos
			if fn := p.encodeMethod(wc.tn); fn != nil {
				pos = fn.Pos()
			}
			if d := m.sub(vSub(r.v.a[1], s.end), r.env); !m.always(d, r.env, 0) {
				m.fail("whole", pos, "the slice returned has %s bytes, %s were written", r.v.a[1], s.end)
			}
			if len(s.items) == 0 || s.items[0].op != "u" || s.items[0].w != 4 {
				m.fail("prefix", pos, "the request does not start with a 4-byte length")
				continue
			}
			if d := m.sub(vSub(vAdd(s.items[0].v, vInt(4)), s.end), r.env); !m.always(d, r.env, 0) {
				m.fail("prefix", s.items[0].pos, "the length written differs from the bytes that follow by %s", d)
			}
		}
		m.buffersFit(c)
		for _, f := range m.fails {
			c.wireFail(f.field, what, f)
		}
		c.count("layouts", 1)
	}
}

func (m *wmatch) buffersFit(c *Ctx) {
	st := m.st
	for _, id := range sortedKeys(st.streams) {
		s := st.streams[id]
		if s.input || s.size == nil {
			continue
		}
		c.count("buffers", 1)
		d := vSub(s.size, s.end)
		if !m.nonneg(d, wenv{}, 0) {
			pos := token.NoPos
			if len(s.items) > 0 {
				pos = s.items[len(s.items)-1].pos
			}
			m.fail("fits", pos, "%s bytes are written into a buffer of %s (buffer minus written: %s)", s.end, s.size, d)
		}
	}
}

// always: d is zero in every case
func (m *wmatch) always(d *V, env wenv, depth int) bool {
	d = m.sub(d, env)
	if d.k == vConst {
		return d.c == 0
	}
	x := m.undecided(d)
	if x == nil || depth > 14 {
		return false
	}
	return m.always(d, assume(env, x, true), depth+1) && m.always(d, assume(env, x, false), depth+1)
}

// nonneg: d is at least zero in every case
func (m *wmatch) nonneg(d *V, env wenv, depth int) bool {
	d = m.sub(d, env)
	if b := vBounds(relax(d, false), env); b.hasL && b.lo >= 0 {
		return true
	}
	x := m.undecided(d)
	if x == nil || depth > 14 {
		return false
	}
	return m.nonneg(d, assume(env, x, true), depth+1) && m.nonneg(d, assume(env, x, false), depth+1)
}

func (m *wmatch) undecided(d *V) *V {
	var c *V
	vAny(d, func(x *V) bool {
		if c == nil && x.k == vAlt {
			if f := firstCond(x); f.k == vAtom {
				c = f
			}
		}
		return c != nil
	})
	return c
}

// relax replaces what has constant bounds by its bound: an upper bound of v if up, a lower bound otherwise. Lengths of
// strings and counts of arrays take at most 3 bytes as varints (strings have at most 32767 bytes, arrays fewer than 2^21
// elements).
func relax(v *V, up bool) *V {
	switch v.k {
	case vLin:
		r := vInt(v.c)
		for i, a := range v.a {
			k := v.coef[i]
			r = vAddK(r, relax(a, up == (k > 0)), k)
		}
		return r
	case vAlt:
		a, b := relax(v.a[1], up), relax(v.a[2], up)
		d := vSub(a, b)
		bd := vBounds(d, nil)
		if bd.hasL && bd.lo >= 0 {
			if up {
				return a
			}
			return b
		}
		if bd.hasH && bd.hi <= 0 {
			if up {
				return b
			}
			return a
		}
		return mkAlt(v.a[0], a, b)
	case vAtom:
		switch v.op {
		case "uvlen":
			if !up {
				return vInt(1)
			}
			if _, as, _ := linParts(v.a[0]); len(as) == 1 && as[0].k == vAtom && as[0].op == "len" {
				return vInt(3)
			}
			return vInt(10)
		case "svlen":
			if up {
				return vInt(10)
			}
			return vInt(1)
		case "sum":
			if n := sumBound(v); n != nil {
				return vSum(v.a[0], n, relax(v.a[1], up))
			}
		}
	}
	return v
}

func init() {
	register("C14", "wire-layout inference: abstract interpretation of every response decoder over a symbolic input, compared with the protocol's schema per API and version", ruleC14)
}

func ruleC14(c *Ctx) {
	p := c.p
	c.rule("layout", "the sequence of items (width, order, repetition, null handling) a decoder reads equals the protocol's schema of its API and version, and each Go field receives the value of its item")
	c.assumef("responses whose error code is not zero may be decoded up to that code only")
	seen := map[string]bool{}
	for _, wc := range p.wireCases() {
		what := fmt.Sprintf("response to %s v%d", wc.tn, wc.ver)
		if seen[fmt.Sprint(wc.api, wc.ver)] {
			continue
		}
		seen[fmt.Sprint(wc.api, wc.ver)] = true
		sc := kafkaSchema[fmt.Sprintf("resp%d", wc.api)]
		if sc == nil {
			continue // fetch: decoded from the stream, see C18
		}
		w, v, st := p.decodeLayout(wc.api, wc.ver)
		if st == nil {
			c.fail("layout", what, token.NoPos, nil, "%s: no decoder can be derived", what)
			continue
		}
		for _, f := range matchResponse(p, w, v, st, sc, wc) {
			c.wireFail("layout", what, f)
		}
		c.wfuncs(w)
		c.count("layouts", 1)
	}
	c.floor("layouts", 30)
}

func matchResponse(p *Prog, w *W, v *V, st *wst, sc *smsg, wc wireCase) []mfail {
	return matchResponseH(p, w, v, st, sc, wc, sc.flexible(int(wc.ver)) && wc.api != 18)
}

func matchResponseH(p *Prog, w *W, v *V, st *wst, sc *smsg, wc wireCase, htags bool) []mfail {
	flex := sc.flexible(int(wc.ver))
	m := &wmatch{pinned: map[*V]int{}, w: w, st: st, ver: int(wc.ver), decode: true}
	if v.k != vTuple || len(v.a) != 2 {
		m.fail("-", token.NoPos, "the decoder's result is %s", v)
		return m.fails
	}
	g, ok := m.respPlace(v.a[0])
	if !ok {
		return m.fails
	}
	ss := []mstate{{items: st.streams["in"].items, env: wenv{}}}
	// the announced length is that of the frame
	ss = vals(m.take(ss, "length", "u", 4, true))
	cs := m.take(ss, "header.correlation_id", "u", 4, true)
	if cg, ok := m.fieldOf(g, "CorrelationID"); ok {
		for _, x := range cs {
			m.checkInt(x, cg, 4, "header.correlation_id")
		}
	}
	ss = vals(cs)
	m.flex = flex
	if htags {
		ss = m.tags(ss, "header.tags")
	}
	if len(m.fails) == 0 {
		ss = m.runFields(ss, sc.fields, g, sc.name, true)
	}
	m.finish(ss, sc.name)
	return m.fails
}

// respPlace: the response value, whose dynamic type must be one
func (m *wmatch) respPlace(v *V) (place, bool) {
	var t types.Type
	for _, d := range flatAlt(v) {
		switch {
		case d.k == vIface && d.t != nil:
			if t != nil && !types.Identical(t, d.t) {
				m.fail("-", token.NoPos, "the decoder returns both %s and %s", t, d.t)
				return place{}, false
			}
			t = d.t
		case d.k == vNil:
		default:
			m.fail("-", token.NoPos, "the decoder returns %s", d)
			return place{}, false
		}
	}
	if t == nil {
		m.fail("-", token.NoPos, "the decoder returns no response (%s)", v)
		return place{}, false
	}
	return place{v: v, t: t}, true
}

func init() {
	register("C15", "wire-layout inference of request and response headers, and constant evaluation of the header-version functions, compared with the protocol's table of flexible versions", ruleC15)
}

func ruleC15(c *Ctx) {
	p := c.p
	c.rule("request-header", "the header a request's encoder writes ends after the client id before the API's first flexible version and has a tagged-field section from it on")
	c.rule("response-header", "the header a response's decoder reads ends after the correlation id before the API's first flexible version, and for ApiVersions always, and has a tagged-field section from it on")
	c.rule("header-version", "the functions that compute header versions and flexibility give the protocol's value for the API and version")
	yes := map[bool]string{true: "with tagged fields", false: "without tagged fields"}
	judge := func(rule, what string, want bool, match func(bool) []mfail) {
		c.count("headers", 1)
		fs := match(want)
		if len(fs) == 0 {
			return
		}
		for _, f := range fs {
			if strings.HasPrefix(f.field, "header.") {
				c.wireFail(rule, what, f)
				return
			}
		}
		if len(match(!want)) == 0 {
			c.fail(rule, what, fs[0].pos, nil, "%s: the header is %s; the protocol has one %s in this version", what, yes[!want], yes[want])
		}
	}
	seen := map[string]bool{}
	for _, wc := range p.wireCases() {
		wc := wc
		what := fmt.Sprintf("%s v%d", wc.tn, wc.ver)
		sc := kafkaSchema[fmt.Sprintf("req%d", wc.api)]
		if sc == nil {
			continue // reported by C13
		}
		flex := sc.flexible(int(wc.ver))
		if w, v, st := p.encodeLayout(wc.tn, wc.api, wc.ver); st != nil {
			c.wfuncs(w)
			judge("request-header", what, flex, func(h bool) []mfail { return matchRequestH(p, w, v, st, sc, wc, h) })
		}
		if seen[fmt.Sprint(wc.api, wc.ver)] {
			continue
		}
		seen[fmt.Sprint(wc.api, wc.ver)] = true
		if sr := kafkaSchema[fmt.Sprintf("resp%d", wc.api)]; sr != nil {
			if w, v, st := p.decodeLayout(wc.api, wc.ver); st != nil {
				c.wfuncs(w)
				judge("response-header", "response to "+what, flex && wc.api != 18, func(h bool) []mfail { return matchResponseH(p, w, v, st, sr, wc, h) })
			}
		}
		// the functions themselves
		b2i := map[bool]int64{true: 1}
		expect := func(fn *ssa.Function, args func(w *W, st *wst) []*V, want int64) {
			if fn == nil || fn.Blocks == nil {
				return
			}
			w := newW(p)
			w.symf = func(loc string, t types.Type) *V {
				l := strings.ToLower(loc)
				switch {
				case strings.HasSuffix(l, ".apikey"):
					return vInt(wc.api)
				case strings.HasSuffix(l, ".apiversion"):
					return vInt(wc.ver)
				}
				return nil
			}
			st := newWst()
			v, _ := w.call(fn, args(w, st), nil, st, "h", 0)
			c.wfuncs(w)
			c.count("evaluations", 1)
			if v == nil || v.k != vConst {
				return // not decided by API and version alone: the layouts above decide
			}
			if v.c != want {
				c.fail("header-version", fmt.Sprintf("%s api %d v%d", fname(fn), wc.api, wc.ver), fn.Pos(), nil,
					"%s gives %d for API %d version %d; the protocol has %d", fname(fn), v.c, wc.api, wc.ver, want)
			}
		}
		recv := func(w *W, st *wst) []*V { return []*V{vPtrTo("$h")} }
		expect(p.method("RequestHeader", "headerVersion"), recv, 1+b2i[flex])
		expect(p.method("RequestHeader", "IsFlexible"), recv, b2i[flex])
		expect(p.method("ResponseHeader", "IsFlexible"), recv, b2i[flex && wc.api != 18])
		expect(p.fn("responseHeaderVersion"), func(*W, *wst) []*V { return []*V{vInt(wc.api), vInt(wc.ver)} }, b2i[flex && wc.api != 18])
	}
	c.floor("headers", 60)
}
