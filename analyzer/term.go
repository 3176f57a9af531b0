package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value.
type Term struct {
	Op    string
	Str   string
	Args  []*Term
	ID    int
	Typ   types.Type // metadata only
	Fn    *ssa.Function
	depth int
	inst  bool // contains a site-instance term (alloc/call/phi)
}

var internTab = map[string]*Term{}

const maxDepth = 16

func mk(op, str string, args ...*Term) *Term { return mkT(nil, op, str, args...) }

func mkT(typ types.Type, op, str string, args ...*Term) *Term {
	switch op {
	case "tuple", "list", "deep", "not", "eq", "lt", "res":
	default:
		for i, a := range args {
			if a.depth >= maxDepth {
				na := append([]*Term(nil), args...)
				for j := i; j < len(na); j++ {
					if na[j].depth >= maxDepth {
						nn := ""
						if nonNilTerm(na[j]) {
							nn = "!"
						}
						na[j] = mkT(na[j].Typ, "deep", nn+na[j].Op+"#"+strconv.Itoa(na[j].ID))
					}
				}
				args = na
				break
			}
		}
	}
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(str)
	d := 0
	inst := op == "alloc" || op == "call" || op == "phi" || op == "vol"
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
		if a.depth >= d {
			d = a.depth + 1
		}
		inst = inst || a.inst
	}
	k := sb.String()
	if t, ok := internTab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{Op: op, Str: str, Args: args, ID: len(internTab) + 1, Typ: typ, depth: d, inst: inst}
	internTab[k] = t
	return t
}

var (
	tNil   = mk("const", "nil")
	tTrue  = mk("const", "true")
	tFalse = mk("const", "false")
)

func tInt(i int64) *Term  { return mk("const", strconv.FormatInt(i, 10)) }
func tStr(s string) *Term { return mk("const", strconv.Quote(s)) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t != nil && t.Op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Str, 10, 64)
	return v, err == nil
}
func (t *Term) strVal() (string, bool) {
	if t == nil || t.Op != "const" || !strings.HasPrefix(t.Str, "\"") {
		return "", false
	}
	s, err := strconv.Unquote(t.Str)
	return s, err == nil
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tStr(constant.StringVal(c.Value))
	case constant.Int:
		return mk("const", c.Value.ExactString())
	default:
		// float constants that are integral print as ints
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			return mk("const", i.ExactString())
		}
		return mk("const", c.Value.ExactString())
	}
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return tInt(0)
		case u.Info()&types.IsString != 0:
			return tStr("")
		}
		return tNil
	case *types.Struct, *types.Array:
		return mkT(t, "zero", types.TypeString(t, nil))
	case *types.Tuple:
		return mkT(t, "zero", "tuple")
	}
	return tNil
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case "const":
		return t.Str
	case "param", "global":
		return t.Str
	case "func":
		return "func " + t.Str
	case "fld":
		return "&" + t.Args[0].String() + "." + fieldOnly(t.Str)
	case "ld":
		s := t.Args[0].String()
		return strings.TrimPrefix(s, "&") + t.Str
	case "fsel":
		return t.Args[0].String() + "." + fieldOnly(t.Str)
	case "alloc":
		return "new(" + t.Str + ")"
	case "iface":
		return t.Str + "(" + t.Args[0].String() + ")"
	}
	var a []string
	for _, x := range t.Args {
		a = append(a, x.String())
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + t.Str
	}
	return s + "(" + strings.Join(a, ",") + ")"
}

func fieldOnly(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.any(f) {
			return true
		}
	}
	return false
}

func subst(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if !t.inst || len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.Op == "old" && t.Args[0] == from {
		memo[t] = t
		return t
	}
	changed := false
	na := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		na[i] = subst(a, from, to, memo)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = mkT(t.Typ, t.Op, t.Str, na...)
		if r.Fn == nil {
			r.Fn = t.Fn
		}
	}
	memo[t] = r
	return r
}

func mkOld(t *Term) *Term {
	if t.Op == "old" {
		return t
	}
	return mkT(t.Typ, "old", "", t)
}

func mkNot(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return mkNot(b)
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return tBool(x < y)
		}
	}
	return mk("lt", "", a, b)
}

func mkFld(base *Term, typ types.Type, key string) *Term {
	if base.Op == "old" {
		// keep
	}
	return mkT(typ, "fld", key, base)
}

func mkFsel(v *Term, typ types.Type, key string, idx int) *Term {
	switch v.Op {
	case "struct":
		return v.Args[idx]
	case "zero":
		return zeroOf(typ)
	case "ld":
		return mkT(typ, "ld", v.Str, mkFld(v.Args[0], nil, key))
	}
	return mkT(typ, "fsel", key, v)
}

// rootOf strips field/index/slice/load selectors.
func rootOf(t *Term) *Term {
	for {
		switch t.Op {
		case "fld", "idx", "ld", "fsel", "slice", "assert":
			t = t.Args[0]
		default:
			return t
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = fmt.Sprint
