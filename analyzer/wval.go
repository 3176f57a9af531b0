package main

// Values of the wire-layout interpreter (engine W): interned symbolic terms with a linear normal form for integers.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vkind int

const (
	vConst   vkind = iota // integer or boolean constant c
	vStrC                 // string constant s
	vNil                  // nil of any type
	vLin                  // c + sum coef[i]*a[i]
	vAtom                 // op(s, a...)
	vPtr                  // pointer to location s
	vSPtr                 // pointer to the byte a[0] of stream s
	vSlice                // slice of location/stream s: a[0]=offset a[1]=length (a[2], if any: explicit bound)
	vStruct               // a = fields
	vTuple                // a = components
	vIface                // dynamic type t, a[0]=value
	vClosure              // fn, a = bindings
	vAlt                  // a[0] ? a[1] : a[2]
	vTable                // a constant map string->int
	vMap                  // a map under construction, opaque
	vUnk                  // unknown: s says why
)

type V struct {
	k    vkind
	op   string
	s    string
	c    int64
	a    []*V
	coef []int64
	t    types.Type
	fn   *ssa.Function
	tab  map[string]int64
	num  bool
	key  string
	id   int
}

var vTab = map[string]*V{}

func vIntern(v *V) *V {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(v.k)))
	b.WriteByte('|')
	b.WriteString(v.op)
	b.WriteByte('|')
	b.WriteString(v.s)
	b.WriteByte('|')
	if v.c != 0 {
		b.WriteString(strconv.FormatInt(v.c, 10))
	}
	for i, x := range v.a {
		b.WriteByte(',')
		if v.coef != nil {
			b.WriteString(strconv.FormatInt(v.coef[i], 10))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(x.id))
	}
	if v.t != nil {
		b.WriteByte('#')
		b.WriteString(v.t.String())
	}
	if v.fn != nil {
		fmt.Fprintf(&b, "@%p", v.fn)
	}
	if v.tab != nil {
		for _, k := range sortedKeys(v.tab) {
			fmt.Fprintf(&b, ";%s=%d", k, v.tab[k])
		}
	}
	v.key = b.String()
	if o := vTab[v.key]; o != nil {
		return o
	}
	v.id = len(vTab) + 1
	vTab[v.key] = v
	return v
}

func vInt(n int64) *V       { return vIntern(&V{k: vConst, c: n, num: true}) }
func vStrConst(s string) *V { return vIntern(&V{k: vStrC, s: s}) }
func vBool(b bool) *V {
	if b {
		return vIntern(&V{k: vConst, c: 1, op: "b"})
	}
	return vIntern(&V{k: vConst, c: 0, op: "b"})
}

var vNilV = vIntern(&V{k: vNil})

func vUnknown(why string) *V { return vIntern(&V{k: vUnk, s: why}) }
func vMk(op, s string, num bool, a ...*V) *V {
	return vIntern(&V{k: vAtom, op: op, s: s, num: num, a: a})
}
func vPtrTo(loc string) *V { return vIntern(&V{k: vPtr, s: loc}) }
func vSl(base string, off, n *V, bounded bool) *V {
	a := []*V{off, n}
	if bounded {
		a = append(a, vBool(true))
	}
	return vIntern(&V{k: vSlice, s: base, a: a})
}
func vTup(a ...*V) *V { return vIntern(&V{k: vTuple, a: a}) }

func (v *V) isNum() bool { return v.num }

// --- linear forms ---

func linParts(v *V) (int64, []*V, []int64) {
	switch {
	case v.k == vConst:
		return v.c, nil, nil
	case v.k == vLin:
		return v.c, v.a, v.coef
	}
	return 0, []*V{v}, []int64{1}
}

func mkLin(c int64, m map[*V]int64) *V {
	var as []*V
	for a, k := range m {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return vInt(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if c == 0 && len(as) == 1 && m[as[0]] == 1 {
		return as[0]
	}
	co := make([]int64, len(as))
	for i, a := range as {
		co[i] = m[a]
	}
	return vIntern(&V{k: vLin, c: c, a: as, coef: co, num: true})
}

func vAddK(a, b *V, k int64) *V {
	if a.k == vUnk {
		return a
	}
	if b.k == vUnk {
		return b
	}
	c1, a1, k1 := linParts(a)
	c2, a2, k2 := linParts(b)
	m := map[*V]int64{}
	for i, x := range a1 {
		m[x] += k1[i]
	}
	for i, x := range a2 {
		m[x] += k * k2[i]
	}
	return mkLin(c1+k*c2, m)
}
func vAdd(a, b *V) *V { return vAddK(a, b, 1) }
func vSub(a, b *V) *V { return vAddK(a, b, -1) }
func vMulC(a *V, k int64) *V {
	return vAddK(vInt(0), a, k)
}
func vMul(a, b *V) *V {
	if a.k == vConst {
		return vMulC(b, a.c)
	}
	if b.k == vConst {
		return vMulC(a, b.c)
	}
	if a.k == vUnk {
		return a
	}
	if b.k == vUnk {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return vMk("mul", "", true, a, b)
}

// vContains reports whether atom x occurs anywhere in v.
func vContains(v, x *V) bool {
	if v == x {
		return true
	}
	for _, y := range v.a {
		if vContains(y, x) {
			return true
		}
	}
	return false
}
func vAny(v *V, f func(*V) bool) bool {
	if f(v) {
		return true
	}
	for _, y := range v.a {
		if vAny(y, f) {
			return true
		}
	}
	return false
}

var sumBounds = map[*V]*V{}

func sumBound(v *V) *V { return sumBounds[v.a[0]] }

// vSum is the sum of x over the iterations of loop variable i (0 <= i < bound).
func vSum(i, bound, x *V) *V {
	sumBounds[i] = bound
	c, as, ks := linParts(x)
	r := vMulC(bound, c)
	for j, a := range as {
		if a.k == vUnk {
			return a
		}
		var t *V
		if vContains(a, i) || vAny(a, func(y *V) bool { return y.s != "" && strings.Contains(y.s, "["+i.String()+"]") }) {
			t = vMk("sum", "", true, i, a)
		} else {
			t = vMul(bound, a)
		}
		r = vAddK(r, t, ks[j])
	}
	return r
}

// --- conditions ---

func vNot(c *V) *V {
	if c.k == vConst {
		return vBool(c.c == 0)
	}
	if c.k == vAtom && c.op == "not" {
		return c.a[0]
	}
	if c.k == vAlt {
		return mkAlt(c.a[0], vNot(c.a[1]), vNot(c.a[2]))
	}
	return vMk("not", "", false, c)
}

type bounds struct {
	lo, hi     int64
	hasL, hasH bool
}

// vBounds gives constant bounds of v; env may refine atoms.
func vBounds(v *V, env wenv) bounds {
	switch v.k {
	case vConst:
		return bounds{v.c, v.c, true, true}
	case vLin:
		r := bounds{v.c, v.c, true, true}
		for i, a := range v.a {
			b := vBounds(a, env)
			k := v.coef[i]
			if k < 0 {
				b.lo, b.hi, b.hasL, b.hasH = b.hi, b.lo, b.hasH, b.hasL
			}
			r.hasL = r.hasL && b.hasL
			r.hasH = r.hasH && b.hasH
			r.lo += k * b.lo
			r.hi += k * b.hi
		}
		return r
	case vAtom:
		r := bounds{}
		switch v.op {
		case "len", "idx":
			r = bounds{lo: 0, hasL: true}
		case "rd":
			r = bounds{lo: 0, hasL: true}
			switch v.s[strings.LastIndexByte(v.s, ':')+1:] {
			case "1":
				r.hi, r.hasH = 255, true
			case "2":
				r.hi, r.hasH = 65535, true
			case "v":
				r.hasL = false
			}
		case "uvlen", "svlen":
			r = bounds{1, 10, true, true}
		case "sum":
			if b := vBounds(v.a[1], env); b.hasL && b.lo >= 0 {
				r = bounds{lo: 0, hasL: true}
			}
		case "mul":
			b, c := vBounds(v.a[0], env), vBounds(v.a[1], env)
			if b.hasL && c.hasL && b.lo >= 0 && c.lo >= 0 {
				r = bounds{lo: 0, hasL: true}
			}
		}
		if env != nil {
			if f, ok := env[v]; ok && f.ge != nil {
				if !r.hasL || *f.ge > r.lo {
					r.lo, r.hasL = *f.ge, true
				}
			}
		}
		return r
	case vAlt:
		b, c := vBounds(v.a[1], env), vBounds(v.a[2], env)
		r := bounds{hasL: b.hasL && c.hasL, hasH: b.hasH && c.hasH}
		r.lo, r.hi = b.lo, b.hi
		if c.lo < r.lo {
			r.lo = c.lo
		}
		if c.hi > r.hi {
			r.hi = c.hi
		}
		return r
	}
	return bounds{}
}

// vLt0 is the condition d < 0.
func vLt0(d *V, env wenv) *V {
	if d.k == vUnk {
		return d
	}
	b := vBounds(d, env)
	if b.hasH && b.hi < 0 {
		return vBool(true)
	}
	if b.hasL && b.lo >= 0 {
		return vBool(false)
	}
	return vMk("lt0", "", false, d)
}

func vEq(a, b *V, env wenv) *V {
	if a == b {
		return vBool(true)
	}
	if a.k == vUnk {
		return a
	}
	if b.k == vUnk {
		return b
	}
	if a.isNum() && b.isNum() {
		d := vSub(a, b)
		if d.k == vUnk {
			return d
		}
		bd := vBounds(d, env)
		if d.k == vConst {
			return vBool(d.c == 0)
		}
		if bd.hasL && bd.lo > 0 || bd.hasH && bd.hi < 0 {
			return vBool(false)
		}
		_, _, ks := linParts(d)
		if ks[0] < 0 {
			d = vMulC(d, -1)
		}
		return vMk("eq0", "", false, d)
	}
	if a.k == vStrC && b.k == vStrC {
		return vBool(a.s == b.s)
	}
	if a.k == vConst && b.k == vConst {
		return vBool(a.c == b.c)
	}
	if a.k == vAlt {
		return mkAlt(a.a[0], vEq(a.a[1], b, env), vEq(a.a[2], b, env))
	}
	if b.k == vAlt {
		return mkAlt(b.a[0], vEq(a, b.a[1], env), vEq(a, b.a[2], env))
	}
	if a.k == vNil {
		a, b = b, a
	}
	if b.k == vNil {
		return vIsNil(a)
	}
	if a.op == "b" && a.k == vConst {
		a, b = b, a
	}
	if b.op == "b" && b.k == vConst {
		if b.c == 1 {
			return a
		}
		return vNot(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return vMk("same", "", false, a, b)
}

func vIsNil(v *V) *V {
	switch v.k {
	case vNil:
		return vBool(true)
	case vPtr:
		if strings.HasSuffix(v.s, "^") {
			return vMk("nil", strings.TrimSuffix(v.s, "^"), false)
		}
		return vBool(false)
	case vSPtr, vIface, vClosure, vTable, vMap:
		return vBool(false)
	case vSlice:
		if strings.HasPrefix(v.s, "$") {
			return vMk("nil", v.s, false)
		}
		return vBool(false)
	case vAlt:
		return mkAlt(v.a[0], vIsNil(v.a[1]), vIsNil(v.a[2]))
	case vAtom:
		if v.op == "sym" {
			return vMk("nil", v.s, false)
		}
		if v.op == "raw" || v.op == "cached" || v.op == "append" {
			return vBool(false)
		}
		return vMk("nil", "", false, v)
	case vUnk:
		return v
	}
	return vUnknown("nil of " + v.String())
}

// mkAlt is c ? a : b in normal form.
func mkAlt(c, a, b *V) *V {
	if c.k == vConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.k == vAtom && c.op == "not" {
		return mkAlt(c.a[0], b, a)
	}
	a = vAssume(a, c, true)
	b = vAssume(b, c, false)
	if a == b {
		return a
	}
	if a.k == vConst && b.k == vConst && a.op == "b" && b.op == "b" {
		if a.c == 1 {
			return c
		}
		return vNot(c)
	}
	if a.isNum() && b.isNum() {
		c1, a1, k1 := linParts(a)
		c2, a2, k2 := linParts(b)
		ma, mb := map[*V]int64{}, map[*V]int64{}
		for i, x := range a1 {
			ma[x] += k1[i]
		}
		for i, x := range a2 {
			mb[x] += k2[i]
		}
		com := map[*V]int64{}
		for x, k := range ma {
			if mb[x] == k {
				com[x] = k
			}
		}
		for x := range com {
			delete(ma, x)
			delete(mb, x)
		}
		cc := c1
		if c2 < cc {
			cc = c2
		}
		alt := vIntern(&V{k: vAlt, a: []*V{c, mkLin(c1-cc, ma), mkLin(c2-cc, mb)}, num: true})
		if len(com) == 0 && cc == 0 {
			return alt
		}
		com[alt]++
		return mkLin(cc, com)
	}
	if a.k == vTuple && b.k == vTuple && len(a.a) == len(b.a) {
		r := make([]*V, len(a.a))
		for i := range r {
			r[i] = mkAlt(c, a.a[i], b.a[i])
		}
		return vTup(r...)
	}
	if a.k == vStruct && b.k == vStruct && len(a.a) == len(b.a) {
		r := make([]*V, len(a.a))
		for i := range r {
			r[i] = mkAlt(c, a.a[i], b.a[i])
		}
		return vIntern(&V{k: vStruct, t: a.t, a: r})
	}
	return vIntern(&V{k: vAlt, a: []*V{c, a, b}})
}

// --- environments and substitution ---

type fact struct {
	val *V     // replace the atom or condition by this value
	ge  *int64 // lower bound
}
type wenv map[*V]fact

func (e wenv) with(v *V, f fact) wenv {
	n := wenv{}
	for k, x := range e {
		n[k] = x
	}
	n[v] = f
	return n
}

func vAssume(v, c *V, val bool) *V {
	if !vContains(v, c) {
		return v
	}
	return vSubst(v, wenv{c: fact{val: vBool(val)}}, map[*V]*V{})
}

// vSubst rebuilds v under env.
func vSubst(v *V, env wenv, memo map[*V]*V) *V {
	if len(env) == 0 {
		return v
	}
	if f, ok := env[v]; ok && f.val != nil {
		return f.val
	}
	if r := memo[v]; r != nil {
		return r
	}
	var r *V
	switch v.k {
	case vConst, vStrC, vNil, vUnk, vTable, vMap, vPtr:
		r = v
	case vLin:
		r = vInt(v.c)
		for i, a := range v.a {
			r = vAddK(r, vSubst(a, env, memo), v.coef[i])
		}
	case vAlt:
		c := vSubst(v.a[0], env, memo)
		if c.k == vConst {
			if c.c != 0 {
				r = vSubst(v.a[1], env, memo)
			} else {
				r = vSubst(v.a[2], env, memo)
			}
		} else {
			r = mkAlt(c, vSubst(v.a[1], env, memo), vSubst(v.a[2], env, memo))
		}
	case vAtom:
		as := make([]*V, len(v.a))
		same := true
		for i, a := range v.a {
			as[i] = vSubst(a, env, memo)
			if as[i] != a {
				same = false
			}
		}
		switch v.op {
		case "lt0":
			r = vLt0(as[0], env)
		case "eq0":
			r = vEq(as[0], vInt(0), env)
		case "not":
			r = vNot(as[0])
		case "same":
			r = vEq(as[0], as[1], env)
		case "sum":
			if same {
				r = v
			} else {
				r = vMk("sum", v.s, true, as...)
			}
		case "uvlen":
			r = vUvlen(as[0])
		case "mul":
			r = vMul(as[0], as[1])
		default:
			if same {
				r = v
			} else {
				r = vIntern(&V{k: vAtom, op: v.op, s: v.s, num: v.num, a: as, t: v.t})
			}
		}
		if f, ok := env[r]; ok && f.val != nil {
			r = f.val
		}
	default:
		as := make([]*V, len(v.a))
		same := true
		for i, a := range v.a {
			as[i] = vSubst(a, env, memo)
			if as[i] != a {
				same = false
			}
		}
		if same {
			r = v
		} else {
			n := *v
			n.a = as
			r = vIntern(&n)
		}
	}
	memo[v] = r
	return r
}

func vUvlen(x *V) *V {
	if x.k == vConst {
		n, u := int64(1), uint64(x.c)
		for u >= 0x80 {
			u >>= 7
			n++
		}
		return vInt(n)
	}
	if x.k == vUnk {
		return x
	}
	return vMk("uvlen", "", true, x)
}

func (v *V) String() string {
	switch v.k {
	case vConst:
		if v.op == "b" {
			return fmt.Sprint(v.c != 0)
		}
		return strconv.FormatInt(v.c, 10)
	case vStrC:
		return strconv.Quote(v.s)
	case vNil:
		return "nil"
	case vLin:
		var b strings.Builder
		for i, a := range v.a {
			if i > 0 {
				b.WriteString("+")
			}
			if v.coef[i] != 1 {
				fmt.Fprintf(&b, "%d*", v.coef[i])
			}
			b.WriteString(a.String())
		}
		if v.c != 0 {
			fmt.Fprintf(&b, "%+d", v.c)
		}
		return b.String()
	case vAlt:
		return fmt.Sprintf("(%s ? %s : %s)", v.a[0], v.a[1], v.a[2])
	case vPtr:
		return "&" + v.s
	case vAtom:
		if v.op == "sym" {
			return v.s
		}
		if v.op == "lt0" {
			return v.a[0].String() + " < 0"
		}
		if v.op == "eq0" {
			return v.a[0].String() + " == 0"
		}
		if v.op == "not" {
			return "!(" + v.a[0].String() + ")"
		}
		fallthrough
	default:
		var as []string
		for _, a := range v.a {
			as = append(as, a.String())
		}
		n := v.op
		switch v.k {
		case vSlice:
			n = "slice"
		case vStruct:
			n = "struct"
		case vTuple:
			n = ""
		case vIface:
			n = "iface"
		case vUnk:
			n = "unknown"
		}
		if v.s != "" {
			n += ":" + v.s
		}
		if len(as) == 0 {
			return n
		}
		return n + "(" + strings.Join(as, ",") + ")"
	}
}
