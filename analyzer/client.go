package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- reading values out of the abstract heap

// rd is a value of known Go type in an abstract state.
type rd struct {
	st  *State
	t   *Term
	typ types.Type
	loc *Term // where the value lives, if known
}

func readArg(st *State, t *Term) rd {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return rd{st: st, t: t, typ: t.Typ}
}

func (r rd) ok() bool { return r.t != nil && r.typ != nil }

func (r rd) structType() (types.Type, *types.Struct) {
	if !r.ok() {
		return nil, nil
	}
	t := r.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return t, s
}

// f reads a field (through a pointer if need be).
func (r rd) f(name string) rd {
	t, s := r.structType()
	if s == nil {
		return rd{}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return r.at(t, s, i)
		}
	}
	// promoted through embedded structs
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if x := r.at(t, s, i).f(name); x.ok() {
				return x
			}
		}
	}
	return rd{}
}

func (r rd) at(t types.Type, s *types.Struct, i int) rd {
	ft := s.Field(i).Type()
	key := typeShort(t) + "." + s.Field(i).Name()
	base := r.loc
	if _, ok := r.typ.Underlying().(*types.Pointer); ok {
		base = r.t
	}
	if base != nil {
		l := mkFld(base, types.NewPointer(ft), key)
		return rd{r.st, r.st.load(l, ft), ft, l}
	}
	if r.t.Op == "struct" && i < len(r.t.Args) {
		return rd{r.st, r.t.Args[i], ft, nil}
	}
	if r.t == zeroOf(r.typ) {
		return rd{r.st, zeroOf(ft), ft, nil}
	}
	return rd{r.st, mkFsel(r.t, ft, key, i), ft, nil}
}

// typed reads the only field of the given type (by predicate).
func (r rd) typed(pred func(types.Type) bool) rd {
	t, s := r.structType()
	if s == nil {
		return rd{}
	}
	n, at := 0, 0
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			n++
			at = i
		}
	}
	if n != 1 {
		return rd{}
	}
	return r.at(t, s, at)
}

// elems lists the elements of a slice whose elements are all known.
func (r rd) elems() ([]rd, bool) {
	if !r.ok() {
		return nil, false
	}
	s, ok := r.typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	et := s.Elem()
	var get func(t *Term) ([]rd, bool)
	cells := func(a *Term, lo, hi int64) []rd {
		var out []rd
		for i := lo; i < hi; i++ {
			l := mk("idx", "", a, tInt(i))
			out = append(out, rd{r.st, r.st.load(l, et), et, l})
		}
		return out
	}
	get = func(t *Term) ([]rd, bool) {
		switch {
		case t == tNil || t == zeroOf(r.typ):
			return nil, true
		case t.Op == "slice" && t.Args[0].Op == "alloc":
			lo, ok := t.Args[1].intVal()
			if !ok {
				return nil, false
			}
			hi, ok := t.Args[2].intVal()
			if !ok && t.Args[2].Str == "end" && t.Args[0].Typ != nil {
				if p, isP := t.Args[0].Typ.Underlying().(*types.Pointer); isP {
					if a, isA := p.Elem().Underlying().(*types.Array); isA {
						hi, ok = a.Len(), true
					}
				}
			}
			if !ok || hi-lo > 64 {
				return nil, false
			}
			return cells(t.Args[0], lo, hi), true
		case t.Op == "alloc" && strings.HasPrefix(t.Str, "slice@"):
			n, ok := r.st.mem[mk("fld", "#len", t)].intVal()
			if !ok || n > 64 {
				return nil, false
			}
			return cells(t, 0, n), true
		case t.Op == "app" && t.Str == "append":
			a, ok1 := get(t.Args[0])
			b, ok2 := get(t.Args[1])
			return append(append([]rd{}, a...), b...), ok1 && ok2
		}
		return nil, false
	}
	return get(r.t)
}

// only reads the single element of a one-element slice.
func (r rd) only() rd {
	el, ok := r.elems()
	if !ok || len(el) != 1 {
		return rd{}
	}
	return el[0]
}

func isBasic(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
}

func isSliceOf(pred func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && pred(s.Elem())
	}
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// fieldByTag: the field of a config struct by its documented (JSON) name, "Type.field".
func (p *Prog) fieldByTag(tn, tag string) string {
	n := p.typ(tn)
	if n == nil {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		v, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if v == tag {
			return tn + "." + s.Field(i).Name()
		}
	}
	return ""
}

// fieldOf: the only field of the type satisfying pred, "Type.field".
func (c *Ctx) fieldOf(tn string, pred func(types.Type) bool) string {
	fs := c.p.fieldsByType(tn, pred)
	if len(fs) != 1 {
		c.fail("anchor", tn, 0, nil, "%s must have exactly one field of the expected type, found %v", tn, fs)
		return tn + ".?"
	}
	return tn + "." + fs[0]
}

// ---------------------------------------------------------------- linear normal form of integer terms

// lin writes t as sum of coefficient*term plus a constant.
func lin(t *Term) (map[*Term]int64, int64) {
	m := map[*Term]int64{}
	var c int64
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		if v, ok := t.intVal(); ok {
			c += k * v
			return
		}
		if t.Op == "bin" {
			switch t.Str {
			case "+":
				add(t.Args[0], k)
				add(t.Args[1], k)
				return
			case "-":
				add(t.Args[0], k)
				add(t.Args[1], -k)
				return
			case "*":
				if v, ok := t.Args[0].intVal(); ok {
					add(t.Args[1], k*v)
					return
				}
				if v, ok := t.Args[1].intVal(); ok {
					add(t.Args[0], k*v)
					return
				}
			}
		}
		m[t] += k
	}
	add(t, 1)
	for k, v := range m {
		if v == 0 {
			delete(m, k)
		}
	}
	return m, c
}

// linIs: t == base + c
func linIs(t, base *Term, c int64) bool {
	a, ca := lin(t)
	b, cb := lin(base)
	if ca-cb != c || len(a) != len(b) {
		return false
	}
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

func lenOf(t *Term) *Term { return mkT(types.Typ[types.Int], "app", "len", t) }

// errResult: the error result of a return event (nil term if the function has none).
func errResult(fn *ssa.Function, res *Term) *Term {
	rs := fn.Signature.Results()
	n := rs.Len()
	if n == 0 || !isErrT(rs.At(n-1).Type()) || res == nil {
		return nil
	}
	if n == 1 {
		return res
	}
	if res.Op == "tuple" && len(res.Args) == n {
		return res.Args[n-1]
	}
	return mkT(errType, "res", itoa(n-1), res)
}
