package main

// Matching of a wire layout (engine W) with the protocol's schema.

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

//go:embed kafka_schema.txt
var kafkaSchemaText string

type sfield struct {
	path string // Go path, "-" none, "@" the element itself, "#k" the key
	typ  string
	null bool
	lax  bool // a nil slice may also be written as an empty array
	arr  bool
	min  int
	max  int
	sub  []*sfield
}

type smsg struct {
	kind   string // req, resp
	api    int
	name   string
	flex   int // -1: never
	fields []*sfield
}

func (m *smsg) flexible(v int) bool { return m.flex >= 0 && v >= m.flex }

var kafkaSchema = parseSchema(kafkaSchemaText)

func parseSchema(text string) map[string]*smsg {
	res := map[string]*smsg{}
	var cur *smsg
	var stack []*[]*sfield
	for _, line := range strings.Split(text, "\n") {
		if i := strings.IndexByte(line, '#'); i == 0 {
			continue
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		d := 0
		for line[d] == ' ' {
			d++
		}
		f := strings.Fields(line)
		if d == 0 {
			cur = &smsg{kind: f[0], name: f[2], flex: -1}
			cur.api, _ = strconv.Atoi(f[1])
			if f[4] != "-" {
				cur.flex, _ = strconv.Atoi(f[4])
			}
			res[f[0]+f[1]] = cur
			stack = []*[]*sfield{&cur.fields}
			continue
		}
		x := &sfield{path: f[0], typ: f[1], max: 1000}
		if strings.HasPrefix(x.typ, "?") {
			x.null, x.typ = true, x.typ[1:]
		}
		if strings.HasPrefix(x.typ, "~") {
			x.null, x.lax, x.typ = true, true, x.typ[1:]
		}
		if strings.HasPrefix(x.typ, "[]") {
			x.arr = true
			if e := x.typ[2:]; e != "" {
				x.sub = []*sfield{{path: "@", typ: e, max: 1000}}
			}
			x.typ = "array"
		}
		if len(f) > 2 {
			v := f[2]
			switch {
			case strings.HasSuffix(v, "+"):
				x.min, _ = strconv.Atoi(v[:len(v)-1])
			case strings.Contains(v, "-"):
				p := strings.Split(v, "-")
				x.min, _ = strconv.Atoi(p[0])
				x.max, _ = strconv.Atoi(p[1])
			default:
				x.min, _ = strconv.Atoi(v)
				x.max = x.min
			}
		}
		stack = stack[:d]
		p := stack[d-1]
		*p = append(*p, x)
		stack = append(stack, &x.sub)
	}
	return res
}

// --- states ---

type mstate struct {
	items []*witem
	env   wenv
	err   bool // a non-zero error code has been read
	done  bool // ended early after an error code
}

type wmatch struct {
	w      *W
	st     *wst
	decode bool
	flex   bool
	ver    int
	fails  []mfail
	fields int
	cases  int
	what   string
	strict bool // null and empty are kept apart when decoding
	deep   bool // look into the record batches
	pinned map[*V]int
}

type mfail struct {
	field string
	pos   token.Pos
	msg   string
}

func (m *wmatch) fail(field string, pos token.Pos, format string, a ...any) {
	m.fails = append(m.fails, mfail{field, pos, fmt.Sprintf(format, a...)})
}

func twin(v *V) *V {
	if v.k != vAtom {
		return nil
	}
	switch v.op {
	case "rd":
		if !strings.HasSuffix(v.s, ":v") {
			return vMk("srd", v.s, true)
		}
	case "srd":
		return vMk("rd", v.s, true)
	}
	return nil
}

func widthOf(v *V) int {
	switch v.s[strings.LastIndexByte(v.s, ':')+1:] {
	case "1":
		return 1
	case "2":
		return 2
	case "4":
		return 4
	case "8":
		return 8
	}
	return 0
}

// setVal fixes atom x to the signed constant n
func setVal(env wenv, x *V, n int64) wenv {
	if x.k == vAtom && (x.op == "rd" || x.op == "srd") && widthOf(x) > 0 {
		u := n
		if n < 0 && widthOf(x) < 8 {
			u = n + 1<<uint(8*widthOf(x))
		}
		env = env.with(vMk("srd", x.s, true), fact{val: vInt(n)})
		return env.with(vMk("rd", x.s, true), fact{val: vInt(u)})
	}
	return env.with(x, fact{val: vInt(n)})
}

// setNonneg: the value read is not negative, so both readings of it agree
func setNonneg(env wenv, x *V, lo int64) wenv {
	if x.k == vAtom && (x.op == "rd" || x.op == "srd") && widthOf(x) > 0 {
		s := vMk("srd", x.s, true)
		env = env.with(s, fact{ge: &lo})
		return env.with(vMk("rd", x.s, true), fact{val: s})
	}
	return env.with(x, fact{ge: &lo})
}

func assume(env wenv, c *V, val bool) wenv {
	env = env.with(c, fact{val: vBool(val)})
	if c.k != vAtom {
		return env
	}
	single := func(d *V) (*V, int64, int64, bool) {
		c0, as, ks := linParts(d)
		if len(as) == 1 && (ks[0] == 1 || ks[0] == -1) {
			return as[0], ks[0], c0, true
		}
		return nil, 0, 0, false
	}
	switch c.op {
	case "nil":
		if val && len(c.a) == 0 {
			env = env.with(vMk("len", c.s, true), fact{val: vInt(0)})
		}
	case "lt0":
		x, k, c0, ok := single(c.a[0])
		if !ok {
			break
		}
		b := vBounds(x, env)
		switch {
		case k == 1 && !val: // x >= -c0
			lo := -c0
			env = env.with(x, fact{ge: &lo})
		case k == 1 && val: // x <= -c0-1
			if b.hasL && b.lo == -c0-1 {
				env = setVal(env, x, b.lo)
			}
		case k == -1 && val: // x > c0
			lo := c0 + 1
			env = env.with(x, fact{ge: &lo})
		case k == -1 && !val: // x <= c0
			if b.hasL && b.lo == c0 {
				env = setVal(env, x, c0)
			}
		}
	case "eq0":
		x, k, c0, ok := single(c.a[0])
		if !ok {
			break
		}
		n := -c0
		if k == -1 {
			n = c0
		}
		if val {
			env = setVal(env, x, n)
		} else {
			b := vBounds(x, env)
			if b.hasL && b.lo == n {
				lo := n + 1
				env = env.with(x, fact{ge: &lo})
			}
		}
	}
	return env
}

func (m *wmatch) sub(v *V, env wenv) *V {
	for i := 0; i < 4; i++ {
		n := vSubst(v, env, map[*V]*V{})
		if n == v {
			return n
		}
		v = n
	}
	return v
}

// head brings the next item of a state to the front: resolved alternatives are expanded, undecided ones split the state
func (m *wmatch) head(s mstate) []mstate {
	for n := 0; ; n++ {
		if n > 10000 || len(s.items) == 0 {
			return []mstate{s}
		}
		it := s.items[0]
		switch it.op {
		case "alt":
			c := m.sub(it.cond, s.env)
			if c.k == vConst {
				arm := it.b
				if c.c != 0 {
					arm = it.a
				}
				s.items = append(append([]*witem{}, arm...), s.items[1:]...)
				continue
			}
			if c.k == vUnk {
				m.fail("-", it.pos, "a choice that depends on %s", c)
				return nil
			}
			if c.k == vAtom && c.op == "not" {
				c = c.a[0]
			}
			if c.k == vAlt {
				c = firstCond(c)
			}
			return m.splitOn(s, c, m.head)
		case "rep":
			b := m.sub(it.bound, s.env)
			if b.k == vConst && b.c <= 0 {
				s.items = s.items[1:]
				continue
			}
		case "pad", "raw":
			z := m.sub(it.size, s.env)
			if z.k == vConst && z.c == 0 {
				s.items = s.items[1:]
				continue
			}
		case "bad":
			m.fail("-", it.pos, "%s", it.why)
			return nil
		}
		return []mstate{s}
	}
}

func firstCond(c *V) *V {
	for c.k == vAlt {
		c = c.a[0]
	}
	if c.k == vAtom && c.op == "not" {
		return firstCond(c.a[0])
	}
	return c
}

func (m *wmatch) splitOn(s mstate, c *V, next func(mstate) []mstate) []mstate {
	m.cases++
	if m.cases > 20000 {
		m.fail("-", token.NoPos, "too many cases")
		return nil
	}
	a, b := s, s
	a.env, b.env = assume(s.env, c, true), assume(s.env, c, false)
	return append(next(a), next(b)...)
}

type mval struct {
	mstate
	v   *V
	pos token.Pos
}

// resolve splits a state until v contains no undecided alternative
func (m *wmatch) resolve(s mstate, v *V) []mval {
	v = m.sub(v, s.env)
	var c *V
	vAny(v, func(x *V) bool {
		if c == nil && x.k == vAlt {
			c = firstCond(x)
		}
		return c != nil
	})
	if c == nil {
		return []mval{{s, v, token.NoPos}}
	}
	if c.k == vUnk {
		return []mval{{s, c, token.NoPos}}
	}
	var out []mval
	m.splitOn(s, c, func(n mstate) []mstate { out = append(out, m.resolve(n, v)...); return nil })
	return out
}

func (m *wmatch) skip(s mstate, size *V) (mstate, bool) {
	it := s.items[0]
	if it.op != "pad" {
		return s, false
	}
	d := m.sub(vSub(it.size, size), s.env)
	if d.k == vConst && d.c == 0 {
		s.items = s.items[1:]
		return s, true
	}
	if b := vBounds(d, s.env); b.hasL && b.lo >= 0 {
		n := *it
		n.size = d
		n.start = vAdd(it.start, size)
		s.items = append([]*witem{&n}, s.items[1:]...)
		return s, true
	}
	return s, false
}

func itemDesc(it *witem) string {
	switch it.op {
	case "u":
		return fmt.Sprintf("a %d-byte integer (%s)", it.w, it.v)
	case "le":
		return fmt.Sprintf("a %d-byte little-endian integer", it.w)
	case "uv":
		return fmt.Sprintf("an unsigned varint (%s)", it.v)
	case "sv":
		return fmt.Sprintf("a signed varint (%s)", it.v)
	case "raw":
		return fmt.Sprintf("%s bytes of %s", it.size, it.v)
	case "pad":
		return fmt.Sprintf("%s bytes left out", it.size)
	case "rep":
		return fmt.Sprintf("a sequence of %s elements", it.bound)
	}
	return it.op
}

// take consumes one integer item
func (m *wmatch) take(ss []mstate, field, op string, width int, skippable bool) []mval {
	var out []mval
	for _, s0 := range ss {
		if s0.done {
			continue
		}
		for _, s := range m.head(s0) {
			if len(s.items) == 0 {
				if s.err {
					continue // ended early, reported as an error
				}
				m.fail(field, token.NoPos, "nothing is %s for this field", m.verb())
				continue
			}
			it := s.items[0]
			if it.op == op && it.w == width {
				v := it.v
				n := s
				n.items = s.items[1:]
				if !m.decode {
					v = m.sub(v, s.env)
				}
				out = append(out, mval{n, v, it.pos})
				continue
			}
			if op == "uv" && it.op == "u" && it.w == 1 && !m.decode {
				if v := m.sub(it.v, s.env); v.k == vConst && v.c >= 0 && v.c < 128 {
					n := s
					n.items = s.items[1:]
					out = append(out, mval{n, v, it.pos})
					continue
				}
			}
			if skippable && width > 0 {
				if n, ok := m.skip(s, vInt(int64(width))); ok {
					out = append(out, mval{n, vMk("skipped", field, true), it.pos})
					continue
				}
			}
			m.fail(field, it.pos, "the protocol has %s here, the code has %s", opDesc(op, width), itemDesc(it))
		}
	}
	return out
}

func opDesc(op string, w int) string {
	switch op {
	case "uv":
		return "an unsigned varint"
	case "sv":
		return "a signed varint"
	}
	return fmt.Sprintf("a %d-byte integer", w)
}

func (m *wmatch) verb() string {
	if m.decode {
		return "read"
	}
	return "written"
}

// dedupe merges states with the same remaining items and the same relevant facts
func (m *wmatch) dedupe(ss []mstate) []mstate {
	seen := map[string]bool{}
	var out []mstate
	for _, s := range ss {
		if !s.done {
			s.env = m.prune(s)
		}
		k := fmt.Sprint(s.err, s.done)
		for _, it := range s.items {
			k += fmt.Sprintf(",%p", it)
		}
		var fs []string
		for v, f := range s.env {
			x := strconv.Itoa(v.id)
			if f.val != nil {
				x += "=" + strconv.Itoa(f.val.id)
			}
			if f.ge != nil {
				x += ">" + strconv.FormatInt(*f.ge, 10)
			}
			fs = append(fs, x)
		}
		sort.Strings(fs)
		k += "|" + strings.Join(fs, ";")
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

var atomSets = map[*witem]map[*V]bool{}

func atomsOf(it *witem) map[*V]bool {
	if r := atomSets[it]; r != nil {
		return r
	}
	r := map[*V]bool{}
	var add func(v *V)
	add = func(v *V) {
		if v == nil || r[v] {
			return
		}
		r[v] = true
		for _, x := range v.a {
			add(x)
		}
	}
	for _, v := range []*V{it.v, it.size, it.cond, it.bound, it.start} {
		add(v)
	}
	for _, xs := range [][]*witem{it.a, it.b} {
		for _, x := range xs {
			for v := range atomsOf(x) {
				r[v] = true
			}
		}
	}
	atomSets[it] = r
	return r
}

func (m *wmatch) prune(s mstate) wenv {
	out := wenv{}
	for v, f := range s.env {
		keep := m.pinned[v] > 0
		if v.k == vAtom && !keep {
			for _, x := range v.a {
				keep = keep || m.pinned[x] > 0
			}
		}
		for _, it := range s.items {
			at := atomsOf(it)
			if at[v] {
				keep = true
				break
			}
			if v.k == vAtom && v.op != "rd" && v.op != "srd" {
				for _, x := range v.a {
					if at[x] {
						keep = true
					}
				}
			}
			if t := twin(v); t != nil && at[t] {
				keep = true
				break
			}
			if v.k == vAtom && v.op == "nil" && at[vMk("len", v.s, true)] {
				keep = true
				break
			}
		}
		if keep {
			out[v] = f
		}
	}
	return out
}

// --- fields ---

// place is the Go side of a message part
type place struct {
	v   *V         // value (decode: the decoded value, encode: symbolic source)
	t   types.Type // its type
	key *V         // key of a map element
	kt  types.Type
	non bool // nothing on the Go side
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// at navigates to a field; ok is false if the Go type has no such field
func (m *wmatch) at(p place, path string) (place, bool) {
	if p.non || path == "-" {
		return place{non: true}, true
	}
	if path == "@" {
		return p, true
	}
	if path == "#k" {
		if p.kt == nil {
			return place{non: true}, true
		}
		return place{v: p.key, t: p.kt}, true
	}
	for _, f := range strings.Split(path, ".") {
		n, ok := m.fieldOf(p, f)
		if !ok {
			return place{}, false
		}
		p = n
	}
	return p, true
}

func (m *wmatch) fieldOf(p place, f string) (place, bool) {
	t := deref(p.t)
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return place{}, false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			return place{v: m.fieldVal(p.v, i, u), t: u.Field(i).Type()}, true
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			e := place{v: m.fieldVal(p.v, i, u), t: u.Field(i).Type()}
			if r, ok := m.fieldOf(e, f); ok {
				return r, true
			}
		}
	}
	return place{}, false
}

func (m *wmatch) fieldVal(v *V, i int, u *types.Struct) *V {
	switch v.k {
	case vIface:
		return m.fieldVal(v.a[0], i, u)
	case vPtr:
		return m.w.load(m.st, v.s+"."+u.Field(i).Name(), u.Field(i).Type())
	case vAlt:
		return mkAlt(v.a[0], m.fieldVal(v.a[1], i, u), m.fieldVal(v.a[2], i, u))
	case vStruct:
		if i < len(v.a) {
			return v.a[i]
		}
	case vNil:
		return zeroV(u.Field(i).Type())
	}
	return vUnknown("field " + u.Field(i).Name() + " of " + v.String())
}

func vals(ms []mval) []mstate {
	r := make([]mstate, len(ms))
	for i, x := range ms {
		r[i] = x.mstate
	}
	return r
}

func (m *wmatch) runFields(ss []mstate, fs []*sfield, p place, name string, tags bool) []mstate {
	// names of this struct, to resolve a renamed Go field
	for _, f := range fs {
		if m.ver < f.min || m.ver > f.max {
			continue
		}
		if len(ss) == 0 {
			return nil
		}
		m.fields++
		nm := name
		switch f.path {
		case "@", "-":
		case "#k":
			nm += ".key"
		default:
			nm += "." + f.path
		}
		g, ok := m.at(p, f.path)
		if !ok {
			g, ok = m.renamed(p, fs, f)
			if !ok {
				m.fail(nm, token.NoPos, "no Go field for this part of the message")
				continue
			}
		}
		if f.typ == "array" && f.path != "-" && g.non {
			g = place{non: true}
		}
		ss = m.dedupe(m.field(ss, f, g, nm))
		if len(m.fails) > 0 {
			return nil
		}
	}
	if tags && m.flex {
		ss = m.dedupe(m.tags(ss, name+".tags"))
	}
	return ss
}

// renamed: the Go field is not there under its name: the one field of a fitting type that the schema does not mention
func (m *wmatch) renamed(p place, fs []*sfield, f *sfield) (place, bool) {
	u, ok := deref(p.t).Underlying().(*types.Struct)
	if !ok {
		return place{}, false
	}
	known := map[string]bool{}
	for _, x := range fs {
		known[x.path] = true
	}
	var missing []*sfield
	for _, x := range fs {
		if _, ok := m.at(p, x.path); !ok {
			missing = append(missing, x)
		}
	}
	var free []int
	for i := 0; i < u.NumFields(); i++ {
		n := u.Field(i).Name()
		if !known[n] && !u.Field(i).Embedded() && namedName(u.Field(i).Type()) != "TaggedFields" && fits(f, u.Field(i).Type()) {
			free = append(free, i)
		}
	}
	pick := -1
	if len(free) == 1 {
		pick = free[0]
	} else {
		norm := func(s string) string {
			s = strings.ToLower(strings.ReplaceAll(s, "_", ""))
			return s
		}
		for _, i := range free {
			if norm(u.Field(i).Name()) == norm(f.path) {
				pick = i
			}
		}
		if pick < 0 {
			// the k-th missing field of this kind is the k-th free Go field
			k := 0
			for _, x := range missing {
				if x == f {
					break
				}
				if x.typ == f.typ {
					k++
				}
			}
			if k < len(free) && len(free) > 0 {
				pick = free[k]
			}
		}
	}
	if pick < 0 {
		return place{}, false
	}
	return place{v: m.fieldVal(p.v, pick, u), t: u.Field(pick).Type()}, true
}

func fits(f *sfield, t types.Type) bool {
	t = deref(t)
	switch f.typ {
	case "array":
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			return !isByteArr(t)
		}
		return false
	case "string":
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case "bytes", "records":
		return isByteArr(t)
	case "bool":
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	return isNumT(t)
}

func (m *wmatch) field(ss []mstate, f *sfield, g place, name string) []mstate {
	var out []mstate
	for _, s := range ss {
		if s.done {
			out = append(out, s)
		}
	}
	switch f.typ {
	case "i8", "i16", "i32", "i64", "err":
		width := map[string]int{"i8": 1, "i16": 2, "i32": 4, "i64": 8, "err": 2}[f.typ]
		for _, x := range m.take(ss, name, "u", width, g.non) {
			m.checkInt(x, g, width, name)
			if f.typ == "err" && m.decode && x.v.k == vAtom && x.v.op == "rd" {
				z, n := x.mstate, x.mstate
				z.env = setVal(z.env, x.v, 0)
				n.env = n.env.with(vEq(x.v, vInt(0), nil), fact{val: vBool(false)})
				n.env = n.env.with(vEq(vMk("srd", x.v.s, true), vInt(0), nil), fact{val: vBool(false)})
				n.err = true
				out = append(out, z, n)
				continue
			}
			out = append(out, x.mstate)
		}
	case "vi":
		for _, x := range m.take(ss, name, "sv", 0, false) {
			m.checkInt(x, g, 8, name)
			out = append(out, x.mstate)
		}
	case "bool":
		for _, x := range m.take(ss, name, "u", 1, g.non) {
			if !m.decode {
				if g.non {
					out = append(out, x.mstate)
					continue
				}
				src := g.v
				for _, val := range []bool{true, false} {
					env := assume(x.env, src, val)
					want := int64(0)
					if val {
						want = 1
					}
					v := m.sub(x.v, env)
					if !(v.k == vConst && v.c == want) {
						// contradicting path: the branch was decided the other way
						if o := m.sub(src, x.env); o.k == vConst && (o.c != 0) != val {
							continue
						}
						m.fail(name, x.pos, "%v is written as %s", val, v)
					}
				}
				out = append(out, x.mstate)
				continue
			}
			for _, n := range []int64{0, 1} {
				s := x.mstate
				if x.v.op == "rd" {
					s.env = setVal(s.env, x.v, n)
				}
				if !g.non {
					for _, d := range m.resolve(s, g.v) {
						if !(d.v.k == vConst && (d.v.c != 0) == (n != 0)) {
							m.fail(name, x.pos, "the byte %d is decoded as %s", n, d.v)
						}
					}
				}
				out = append(out, s)
			}
		}
	case "string", "bytes", "vbytes":
		out = append(out, m.blob(ss, f, g, name)...)
	case "record":
		out = append(out, m.record(ss, g, name)...)
	case "batch":
		out = append(out, m.batch(ss, g, 0, "", name)...)
	case "records":
		out = append(out, m.records(ss, g, name)...)
	case "array", "varray":
		out = append(out, m.array(ss, f, g, name)...)
	default:
		m.fail(name, token.NoPos, "unknown type %s in the schema", f.typ)
	}
	return out
}

func (m *wmatch) checkInt(x mval, g place, width int, name string) {
	if g.non {
		return
	}
	if m.decode {
		for _, d := range m.resolve(x.mstate, g.v) {
			v := d.v
			want := m.sub(x.v, d.env)
			ws := want
			if t := twin(x.v); t != nil {
				ws = m.sub(t, d.env)
			}
			if v != want && v != ws {
				if s := x.mstate; s.err && isZeroV(v) {
					continue
				}
				m.fail(name, x.pos, "the field is set to %s, not to the value read (%s)", v, x.v)
			}
		}
		return
	}
	for _, d := range m.resolve(x.mstate, g.v) {
		v := stripTrunc(m.sub(x.v, d.env), width)
		if v != stripTrunc(d.v, width) && !(v.k == vConst && d.v.k == vConst && sameMod(v.c, d.v.c, width)) {
			m.fail(name, x.pos, "%s is written, not the value of the field (%s)", v, d.v)
		}
	}
}

func sameMod(a, b int64, width int) bool {
	if width >= 8 {
		return a == b
	}
	k := int64(1)<<uint(8*width) - 1
	return a&k == b&k
}

func stripTrunc(v *V, width int) *V {
	for v.k == vAtom && v.op == "trunc" {
		n, _ := strconv.Atoi(v.s)
		if n < 8*width {
			return v
		}
		v = v.a[0]
	}
	return v
}

func isZeroV(v *V) bool {
	switch {
	case v.k == vConst && v.c == 0, v.k == vNil, v.k == vStrC && v.s == "":
		return true
	case v.k == vAtom && v.op == "zero":
		return true
	case v.k == vSlice && v.a[1] == vInt(0):
		return true
	case v.k == vAtom && v.op == "raw" && v.a[0] == vInt(0):
		return true
	}
	return false
}

// lengthPrefix consumes the length of a blob or the count of an array. It yields, per state, the length as a value; null
// is expressed by -1.
func (m *wmatch) lengthPrefix(ss []mstate, f *sfield, name string, width int, plus int64) []mval {
	op := "u"
	switch {
	case f.typ == "vbytes" || f.typ == "varray":
		op, width, plus = "sv", 0, 0
	case m.flex:
		op, width, plus = "uv", 0, 1
	default:
		plus = 0
	}
	return m.prefix(ss, f, name, op, width, plus)
}

func (m *wmatch) prefix(ss []mstate, f *sfield, name, op string, width int, plus int64) []mval {
	var out []mval
	for _, x := range m.take(ss, name+" (length)", op, width, false) {
		if !m.decode {
			v := x.v
			if v.k == vConst && op == "u" && width < 8 && v.c == 1<<uint(8*width)-1 {
				v = vInt(-1)
			}
			x.v = vSub(v, vInt(plus))
			out = append(out, x)
			continue
		}
		at := x.v
		n := x
		n.env = setNonneg(x.env, at, plus)
		l := at
		if op == "u" {
			l = vMk("srd", at.s, true)
		}
		n.v = vSub(l, vInt(plus))
		out = append(out, n)
		if f.null {
			z := x
			z.env = setVal(x.env, at, plus-1)
			z.v = vInt(-1)
			out = append(out, z)
		}
	}
	return out
}

func (m *wmatch) blob(ss []mstate, f *sfield, g place, name string) []mstate {
	width := 2
	if f.typ == "bytes" {
		width = 4
	}
	var out []mstate
	if m.decode {
		for _, x := range m.lengthPrefix(ss, f, name, width, 1) {
			if x.v.k == vConst && x.v.c == -1 {
				m.destNull(x, g, name)
				out = append(out, x.mstate)
				continue
			}
			out = append(out, m.rawAfter(x, g, name)...)
		}
		return out
	}
	// encode
	var pre []mstate
	_, isPtr := g.t, false
	if !g.non {
		_, isPtr = g.t.Underlying().(*types.Pointer)
	}
	content := g.v
	if isPtr && !g.non {
		content = m.load(g.v, deref(g.t))
	}
	for _, s := range ss {
		if f.null && !g.non && (isPtr || isByteArr(g.t)) {
			c := vIsNil(g.v)
			if c.k != vConst {
				m.splitOn(s, c, func(n mstate) []mstate { pre = append(pre, n); return nil })
				continue
			}
		}
		pre = append(pre, s)
	}
	for _, x := range m.lengthPrefix(pre, f, name, width, 1) {
		if g.non {
			out = append(out, m.rawAfter(x, g, name)...)
			continue
		}
		if f.null && (isPtr || isByteArr(g.t)) {
			if c := m.sub(vIsNil(g.v), x.env); c.k == vConst && c.c != 0 {
				if x.v != vInt(-1) && !(f.lax && m.sub(x.v, x.env) == vInt(0)) {
					m.fail(name, x.pos, "null is written with length %s", x.v)
				}
				out = append(out, x.mstate)
				continue
			}
		}
		want := m.sub(m.w.length(m.st, content), x.env)
		if got := m.sub(x.v, x.env); got != want {
			m.fail(name, x.pos, "the length written is %s, the length of the field is %s", got, want)
			continue
		}
		x.v = want
		out = append(out, m.rawAfter(x, place{v: content, t: g.t, non: g.non}, name)...)
	}
	return out
}

func (m *wmatch) load(p *V, t types.Type) *V {
	switch p.k {
	case vPtr:
		return m.w.load(m.st, p.s, t)
	case vAlt:
		return mkAlt(p.a[0], m.load(p.a[1], t), m.load(p.a[2], t))
	case vNil:
		return vNilV
	}
	return vUnknown("target of " + p.String())
}

// rawAfter consumes the bytes of a blob whose length is x.v
func (m *wmatch) rawAfter(x mval, g place, name string) []mstate {
	var out []mstate
	for _, s := range m.head(x.mstate) {
		l := m.sub(x.v, s.env)
		if l.k == vConst && l.c == 0 {
			m.destEmpty(mval{s, l, x.pos}, g, name)
			out = append(out, s)
			continue
		}
		if len(s.items) == 0 {
			if s.err {
				continue
			}
			m.fail(name, x.pos, "the bytes of this field are not %s", m.verb())
			continue
		}
		it := s.items[0]
		if it.op == "raw" && m.sub(it.size, s.env) == l {
			n := s
			n.items = s.items[1:]
			m.destRaw(mval{n, it.v, it.pos}, g, name)
			out = append(out, n)
			continue
		}
		if it.op == "raw" && !m.decode {
			if n, ok := m.rawParts(s, l, g, name); ok {
				out = append(out, n)
				continue
			}
		}
		if n, ok := m.skip(s, l); ok && m.decode {
			if !g.non {
				m.fail(name, it.pos, "the bytes of this field are skipped")
			}
			out = append(out, n)
			continue
		}
		if g.non && !m.decode {
			if n, ok := m.consume(s, l); ok {
				out = append(out, n)
				continue
			}
		}
		m.fail(name, it.pos, "the protocol has %s bytes of this field here, the code has %s", l, itemDesc(it))
	}
	return out
}

// rawParts: the content is written in pieces (a concatenation)
func (m *wmatch) rawParts(s mstate, l *V, g place, name string) (mstate, bool) {
	if g.non || g.v.k != vAtom || g.v.op != "cat" {
		return s, false
	}
	for _, part := range g.v.a {
		if len(s.items) == 0 || s.items[0].op != "raw" || s.items[0].v != part {
			return s, false
		}
		s.items = s.items[1:]
	}
	return s, true
}

// consume removes items of total size l
func (m *wmatch) consume(s mstate, l *V) (mstate, bool) {
	left := l
	for i := 0; i < 200; i++ {
		left = m.sub(left, s.env)
		if left.k == vConst && left.c == 0 {
			return s, true
		}
		if len(s.items) == 0 {
			return s, false
		}
		if s.items[0].op == "bad" {
			m.fail("-", s.items[0].pos, "%s", s.items[0].why)
			return s, false
		}
		left = vSub(left, s.items[0].size)
		s.items = s.items[1:]
	}
	return s, false
}

func (m *wmatch) records(ss []mstate, g place, name string) []mstate {
	f := &sfield{typ: "bytes", null: true}
	var out []mstate
	for _, x := range m.lengthPrefix(ss, f, name, 4, 1) {
		if m.deep {
			for _, s := range m.head(x.mstate) {
				if len(s.items) == 0 || !m.always(vSub(x.v, s.items[0].size), s.env, 0) {
					m.fail(name, x.pos, "the size written is not the size of the record batches that follow")
					continue
				}
				y := x
				y.mstate, y.v = s, m.sub(m.w.length(m.st, g.v), s.env)
				out = append(out, m.elements(y, &sfield{typ: "array", max: 1000, sub: []*sfield{{path: "@", typ: "batch", max: 1000}}}, g, name)...)
			}
			continue
		}
		n, ok := m.consume(x.mstate, x.v)
		if !ok {
			m.fail(name, x.pos, "the size written (%s) is not the size of the record batches that follow", x.v)
			continue
		}
		out = append(out, n)
	}
	return out
}

func (m *wmatch) destRaw(x mval, g place, name string) {
	if g.non {
		return
	}
	if !m.decode {
		for _, d := range m.resolve(x.mstate, g.v) {
			v := m.sub(x.v, d.env)
			if !sameBytes(v, d.v) {
				m.fail(name, x.pos, "the bytes of %s are written, not those of the field (%s)", v, d.v)
			}
		}
		return
	}
	for _, d := range m.resolve(x.mstate, g.v) {
		v := m.content(d.v, g.t, d.env)
		want := m.sub(x.v, d.env)
		if !sameBytes(v, want) {
			if x.err && isZeroV(v) {
				continue
			}
			m.fail(name, x.pos, "the field is set to %s, not to the bytes read", v)
		}
	}
}

func sameBytes(a, b *V) bool {
	if a == b {
		return true
	}
	f := func(v *V) string {
		if v.k == vSlice && v.a[0] == vInt(0) {
			return v.s + "/" + v.a[1].String()
		}
		if v.k == vAtom && v.op == "sym" {
			return v.s + "/len:" + v.s
		}
		return ""
	}
	return f(a) != "" && f(a) == f(b)
}

// content resolves pointers and buffers to the bytes they hold
func (m *wmatch) content(v *V, t types.Type, env wenv) *V {
	if v.k == vPtr {
		v = m.sub(m.load(v, deref(t)), env)
	}
	if v.k == vSlice {
		if s := m.st.streams[v.s]; s != nil && !s.input {
			// the buffer's own layout, under what is known here
			t := &wstream{size: s.size, end: m.sub(s.end, env)}
			for _, it := range s.items {
				c := *it
				if it.start != nil {
					c.start = m.sub(it.start, env)
				}
				c.size = m.sub(it.size, env)
				t.items = append(t.items, &c)
			}
			st := m.st.copy()
			st.streams[v.s] = t
			return m.sub(contentOf(m.w, st, v), env)
		}
	}
	return m.sub(contentOf(m.w, m.st, v), env)
}

func (m *wmatch) destNull(x mval, g place, name string) {
	if g.non || !m.decode {
		return
	}
	for _, d := range m.resolve(x.mstate, g.v) {
		if !isZeroV(d.v) {
			m.fail(name, x.pos, "null is decoded as %s", d.v)
		}
	}
}

func (m *wmatch) destEmpty(x mval, g place, name string) {
	if g.non || !m.decode {
		return
	}
	for _, d := range m.resolve(x.mstate, g.v) {
		if m.strict && d.v.k == vNil {
			m.fail(name, x.pos, "empty is decoded as null")
			continue
		}
		v := m.content(d.v, g.t, d.env)
		if !isZeroV(v) {
			m.fail(name, x.pos, "empty is decoded as %s", v)
		}
	}
}

func (m *wmatch) array(ss []mstate, f *sfield, g place, name string) []mstate {
	var out []mstate
	if m.decode {
		for _, x := range m.lengthPrefix(ss, f, name, 4, 1) {
			if x.v.k == vConst && x.v.c == -1 {
				m.destNull(x, g, name)
				out = append(out, x.mstate)
				continue
			}
			out = append(out, m.elements(x, f, g, name)...)
		}
		return out
	}
	var pre []mstate
	for _, s := range ss {
		if f.null && !g.non {
			if c := vIsNil(g.v); c.k != vConst {
				m.splitOn(s, c, func(n mstate) []mstate { pre = append(pre, n); return nil })
				continue
			}
		}
		pre = append(pre, s)
	}
	for _, x := range m.lengthPrefix(pre, f, name, 4, 1) {
		if g.non {
			out = append(out, m.elements(x, f, g, name)...)
			continue
		}
		if f.null {
			if c := m.sub(vIsNil(g.v), x.env); c.k == vConst && c.c != 0 {
				if x.v != vInt(-1) && !(f.lax && x.v == vInt(0)) {
					m.fail(name, x.pos, "a null array is written with count %s", x.v)
					continue
				}
				x.v = vInt(0)
				out = append(out, x.mstate)
				continue
			}
		}
		want := m.sub(m.w.length(m.st, g.v), x.env)
		got := m.sub(x.v, x.env)
		if got != want {
			m.fail(name, x.pos, "the count written is %s, the number of elements is %s", got, want)
			continue
		}
		x.v = want
		out = append(out, m.elements(x, f, g, name)...)
	}
	return out
}

func (m *wmatch) elements(x mval, f *sfield, g place, name string) []mstate {
	var out []mstate
	for _, s := range m.head(x.mstate) {
		n := m.sub(x.v, s.env)
		if n.k == vConst && n.c == 0 {
			m.destEmptyArr(mval{s, n, x.pos}, g, name)
			out = append(out, s)
			continue
		}
		if len(s.items) == 0 || s.items[0].op != "rep" {
			if len(s.items) == 0 && s.err {
				continue
			}
			what := "nothing"
			pos := x.pos
			if len(s.items) > 0 {
				what, pos = itemDesc(s.items[0]), s.items[0].pos
			}
			m.fail(name, pos, "the protocol has the elements of this array here, the code has %s", what)
			continue
		}
		it := s.items[0]
		for _, b := range m.resolve(s, it.bound) {
			nb := m.sub(x.v, b.env)
			if b.v.k == vConst && b.v.c <= 0 {
				// nothing in this case: the count must be zero, too
				if !(nb.k == vConst && nb.c == 0) {
					m.fail(name, it.pos, "no elements are %s for a count of %s", m.verb(), nb)
				}
				c := b.mstate
				c.items = s.items[1:]
				out = append(out, c)
				continue
			}
			if b.v != nb {
				m.fail(name, it.pos, "%s elements are %s for a count of %s", b.v, m.verb(), nb)
				continue
			}
			eg := place{non: true}
			if !g.non {
				var ok bool
				eg, ok = m.elem(b.mstate, g, it, nb, f, name)
				if !ok {
					continue
				}
			}
			body := mstate{items: it.a, env: b.env}
			// what is known about the count stays known in the elements
			var pins []*V
			vAny(x.v, func(a *V) bool {
				if a.k == vAtom {
					pins = append(pins, a)
					if t := twin(a); t != nil {
						pins = append(pins, t)
					}
				}
				return false
			})
			for _, a := range pins {
				m.pinned[a]++
			}
			flexTags := len(f.sub) != 1 || f.sub[0].path != "@" || f.sub[0].typ == "array"
			if len(f.sub) == 2 && f.sub[1].path == "@" {
				flexTags = true
			}
			for _, e := range m.runFields([]mstate{body}, f.sub, eg, name+"[]", flexTags) {
				for _, r := range m.head(e) {
					if len(r.items) > 0 && !r.done {
						m.fail(name+"[]", r.items[0].pos, "after the fields of an element, %s is %s", itemDesc(r.items[0]), m.verb())
					}
				}
			}
			for _, a := range pins {
				m.pinned[a]--
			}
			c := b.mstate
			c.items = s.items[1:]
			out = append(out, c)
		}
	}
	return out
}

func (m *wmatch) destEmptyArr(x mval, g place, name string) {
	if g.non || !m.decode {
		return
	}
	for _, d := range m.resolve(x.mstate, g.v) {
		if !isZeroV(d.v) && d.v.k != vMap {
			if d.v.k == vSlice {
				if n := m.sub(d.v.a[1], d.env); n.k == vConst && n.c == 0 {
					continue
				}
			}
			m.fail(name, x.pos, "an empty array is decoded as %s", d.v)
		}
	}
}

// elem is the Go element that corresponds to the loop variable of rep item it
func (m *wmatch) elem(s mstate, g place, it *witem, n *V, f *sfield, name string) (place, bool) {
	rs := m.resolve(s, g.v)
	if len(rs) > 1 {
		// cases that differ in nothing but already decided facts
		for _, r := range rs[1:] {
			if r.v != rs[0].v {
				rs = rs[:1]
				break
			}
		}
	}
	v := rs[0].v
	if v.k == vPtr {
		v = m.load(v, deref(g.t))
	}
	t := deref(g.t)
	key := "[" + it.idx.String() + "]"
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if v.k != vSlice || v.a[0] != vInt(0) {
			if !m.decode && v.k == vAtom && v.op == "sym" {
				return place{v: m.w.load(m.st, v.s+key, u.Elem()), t: u.Elem()}, true
			}
			m.fail(name, it.pos, "the elements are %s %s", map[bool]string{true: "stored in", false: "taken from"}[m.decode], v)
			return place{}, false
		}
		if m.decode {
			if l := m.sub(v.a[1], rs[0].env); l != n {
				m.fail(name, it.pos, "%s elements are kept of %s", l, n)
				return place{}, false
			}
		}
		if e, ok := m.st.mem[v.s+key]; ok && e.k == vStruct {
			return place{v: e, t: u.Elem()}, true
		}
		return place{v: m.w.load(m.st, v.s+key, u.Elem()), t: u.Elem()}, true
	case *types.Map:
		if !m.decode {
			if v.k != vAtom || v.op != "sym" {
				m.fail(name, it.pos, "the elements are taken from %s", v)
				return place{}, false
			}
			return place{v: m.w.load(m.st, v.s+key, u.Elem()), t: u.Elem(), key: m.w.load(m.st, v.s+key+"#k", u.Key()), kt: u.Key()}, true
		}
		if v.k != vMap {
			m.fail(name, it.pos, "the elements are stored in %s", v)
			return place{}, false
		}
		// the entry stored in this iteration
		pre := "m" + v.s + "{"
		var ks []string
		for k := range m.st.mem {
			if strings.HasPrefix(k, pre) && strings.HasSuffix(k, "}") {
				ks = append(ks, k)
			}
		}
		if len(ks) != 1 {
			m.fail(name, it.pos, "%d entries of the map are stored per element", len(ks))
			return place{}, false
		}
		return place{v: m.st.mem[ks[0]], t: u.Elem(), key: m.w.mapKeys[ks[0]], kt: u.Key()}, true
	}
	m.fail(name, it.pos, "no elements in %s", t)
	return place{}, false
}

func (m *wmatch) tags(ss []mstate, name string) []mstate {
	var out []mstate
	for _, s := range ss {
		if s.done {
			out = append(out, s)
		}
	}
	if m.decode && !strings.Contains(name, "[]") && name != "header.tags" {
		// the end of the message: nothing follows that could be misread
		var rest []mstate
		for _, s := range ss {
			if s.done {
				continue
			}
			for _, t := range m.head(s) {
				if len(t.items) == 0 {
					out = append(out, t)
				} else {
					rest = append(rest, t)
				}
			}
		}
		ss = rest
	}
	for _, x := range m.take(ss, name, "uv", 0, false) {
		if !m.decode {
			if x.v.k == vConst && x.v.c == 0 {
				out = append(out, x.mstate)
				continue
			}
			m.fail(name, x.pos, "%s tagged fields are written", x.v)
			continue
		}
		x.env = setNonneg(x.env, x.v, 0)
		for _, s := range m.head(x.mstate) {
			n := m.sub(x.v, s.env)
			if n.k == vConst && n.c == 0 {
				out = append(out, s)
				continue
			}
			if len(s.items) == 0 || s.items[0].op != "rep" || m.sub(s.items[0].bound, s.env) != n {
				m.fail(name, x.pos, "the tagged fields are not skipped")
				continue
			}
			bs := []mstate{{items: s.items[0].a, env: s.env}}
			bs = vals(m.take(bs, name, "uv", 0, false))
			var after []mstate
			for _, y := range m.take(bs, name, "uv", 0, false) {
				y.env = setNonneg(y.env, y.v, 0)
				after = append(after, m.rawAfter(y, place{non: true}, name)...)
			}
			for _, e := range after {
				for _, r := range m.head(e) {
					if len(r.items) > 0 {
						m.fail(name, r.items[0].pos, "after a tagged field, %s is read", itemDesc(r.items[0]))
					}
				}
			}
			c := s
			c.items = s.items[1:]
			out = append(out, c)
		}
	}
	return out
}
