package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation over the SSA of small table functions.  Inputs are drawn from a finite partition of the
// argument domain: the constants the program itself distinguishes, plus one symbol ("other") for everything else.
// Branches that constants do not decide are followed both ways; calls out of the module are symbols that are
// recorded on the path.

type ckind int

const (
	cUnk ckind = iota
	cInt
	cStr
	cBool
	cNil
	cOther // a value that equals no constant of the program
	cPtr
	cStruct
	cSlice
	cMap
	cFunc
	cIface
	cTuple
	cApp // result i of an external call
	cErr // a non-nil error made by the program
	cIter
)

type ccell struct{ v *cval }

type cval struct {
	k    ckind
	i    int64
	s    string
	t    types.Type
	a    []*cval
	cell *ccell
	sub  []*ccell // struct fields, array/slice elements
	m    *cmap
	fn   *ssa.Function
	idx  int
	id   string
}

type cmap struct {
	keys []*cval
	vals []*cval
	unk  bool
}

func (v *cval) String() string {
	if v == nil {
		return "?"
	}
	switch v.k {
	case cInt:
		return strconv.FormatInt(v.i, 10)
	case cStr:
		return strconv.Quote(v.s)
	case cBool:
		return strconv.FormatBool(v.i != 0)
	case cNil:
		return "nil"
	case cOther:
		return "<other>"
	case cPtr:
		return "&" + v.cell.v.String()
	case cStruct:
		var r []string
		for _, c := range v.sub {
			r = append(r, c.v.String())
		}
		return "{" + strings.Join(r, " ") + "}"
	case cSlice:
		return fmt.Sprintf("slice/%d", len(v.sub))
	case cIface:
		return typeShort(v.t) + "(" + v.a[0].String() + ")"
	case cTuple:
		var r []string
		for _, c := range v.a {
			r = append(r, c.String())
		}
		return "(" + strings.Join(r, ", ") + ")"
	case cApp:
		var r []string
		for _, c := range v.a {
			r = append(r, c.String())
		}
		return v.s + "(" + strings.Join(r, ", ") + ")#" + strconv.Itoa(v.idx)
	case cErr:
		return "error " + v.s
	case cFunc:
		return "func " + fname(v.fn)
	}
	return "?"
}

func ckInt(i int64, t types.Type) *cval { return &cval{k: cInt, i: i, t: t} }
func ckStr(s string) *cval              { return &cval{k: cStr, s: s} }
func ckBool(b bool) *cval {
	v := &cval{k: cBool}
	if b {
		v.i = 1
	}
	return v
}

var ckUnk = &cval{k: cUnk}

type cpath struct {
	ret   *cval
	calls []*cval // external calls made, in order
	args  []*cval
	panic string
}

type CEval struct {
	p       *Prog
	globals map[*ssa.Global]*ccell
	fuel    int
	depth   int
	dec     []bool
	pos     int
	calls   []*cval
	stuck   string
	funcs   map[string]bool
	inited  bool
	nilOf   map[string]bool
	ext     func(name string, args []*cval) *cval
}

func newCEval(p *Prog) *CEval {
	e := &CEval{p: p, globals: map[*ssa.Global]*ccell{}, funcs: map[string]bool{}, nilOf: map[string]bool{}}
	e.runInit()
	return e
}

// runInit propagates constants through the package initialisers.
func (e *CEval) runInit() {
	e.fuel = 400000
	for _, pk := range e.p.modPkgs() {
		if f, ok := pk.Members["init"].(*ssa.Function); ok {
			e.dec, e.pos = nil, 0
			e.call(f, nil, nil)
			e.stuck = ""
		}
	}
	e.calls = nil
	e.inited = true
}

func (p *Prog) modPkgs() []*ssa.Package {
	var r []*ssa.Package
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == modPath || strings.HasPrefix(pk.Pkg.Path(), modPath+"/") {
			r = append(r, pk)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}

// paths evaluates fn on the arguments along every path that constants leave open.
func (e *CEval) paths(fn *ssa.Function, mkArgs func() []*cval) ([]cpath, string) {
	var out []cpath
	var dec []bool
	for n := 0; ; n++ {
		if n > 3000 {
			return out, "too many undecided branches"
		}
		e.dec, e.pos, e.calls, e.stuck, e.fuel, e.depth = dec, 0, nil, "", 60000, 0
		e.nilOf = map[string]bool{}
		args := mkArgs()
		ret := e.call(fn, args, nil)
		if e.stuck != "" && !strings.HasPrefix(e.stuck, "panic") {
			return out, e.stuck
		}
		ret = e.known(ret)
		cp := cpath{ret: ret, calls: e.calls, args: args}
		if e.stuck != "" {
			cp.panic = e.stuck
		}
		out = append(out, cp)
		dec = append([]bool(nil), e.dec[:e.pos]...)
		for len(dec) > 0 && dec[len(dec)-1] {
			dec = dec[:len(dec)-1]
		}
		if len(dec) == 0 {
			return out, ""
		}
		dec[len(dec)-1] = true
	}
}

// known replaces results that are nil on this path
func (e *CEval) known(v *cval) *cval {
	if v == nil {
		return v
	}
	if v.k == cApp && e.nilOf[v.id] {
		return &cval{k: cNil, t: v.t}
	}
	if v.k == cTuple {
		n := &cval{k: cTuple}
		for _, a := range v.a {
			n.a = append(n.a, e.known(a))
		}
		return n
	}
	return v
}

func (e *CEval) choose() bool {
	if e.pos < len(e.dec) {
		e.pos++
		return e.dec[e.pos-1]
	}
	if len(e.dec) > 40 {
		e.stuck = "a loop that constants do not bound"
		return false
	}
	e.dec = append(e.dec, false)
	e.pos++
	return false
}

func czero(t types.Type) *cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return ckInt(0, t)
		case u.Info()&types.IsString != 0:
			return ckStr("")
		case u.Info()&types.IsBoolean != 0:
			return ckBool(false)
		}
		return ckUnk
	case *types.Struct:
		v := &cval{k: cStruct, t: t}
		for i := 0; i < u.NumFields(); i++ {
			v.sub = append(v.sub, &ccell{czero(u.Field(i).Type())})
		}
		return v
	case *types.Array:
		v := &cval{k: cStruct, t: t}
		if u.Len() > 4096 {
			return ckUnk
		}
		for i := int64(0); i < u.Len(); i++ {
			v.sub = append(v.sub, &ccell{czero(u.Elem())})
		}
		return v
	case *types.Slice:
		return &cval{k: cSlice, t: t, i: -1}
	}
	return &cval{k: cNil, t: t}
}

func ccopy(v *cval) *cval {
	if v != nil && v.k == cStruct {
		n := *v
		n.sub = nil
		for _, c := range v.sub {
			n.sub = append(n.sub, &ccell{ccopy(c.v)})
		}
		return &n
	}
	return v
}

func isErrT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

type cframe struct {
	e     *CEval
	env   map[ssa.Value]*cval
	binds []*cval
	defs  []func()
}

func (e *CEval) call(fn *ssa.Function, args, binds []*cval) *cval {
	if e.stuck != "" {
		return ckUnk
	}
	if e.depth > 30 {
		e.stuck = "recursion"
		return ckUnk
	}
	e.depth++
	defer func() { e.depth-- }()
	e.funcs[fname(fn)] = true
	f := &cframe{e: e, env: map[ssa.Value]*cval{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			f.env[p] = binds[i]
		}
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		phis := map[*ssa.Phi]*cval{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, pr := range b.Preds {
					if pr == prev {
						phis[ph] = f.val(ph.Edges[i])
					}
				}
			}
		}
		for ph, v := range phis {
			f.env[ph] = v
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			if e.fuel--; e.fuel < 0 {
				e.stuck = "fuel"
			}
			if e.stuck != "" {
				return ckUnk
			}
			switch i := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				c := f.val(i.Cond)
				var t bool
				if c.k == cBool {
					t = c.i != 0
				} else {
					t = !e.choose()
					if c.s == "isnil" && c.a[0].id != "" {
						e.nilOf[c.a[0].id] = t == (c.i == 1)
					}
				}
				if t {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(i.Results) {
				case 0:
					return &cval{k: cTuple}
				case 1:
					return ccopy(f.val(i.Results[0]))
				}
				r := &cval{k: cTuple}
				for _, x := range i.Results {
					r.a = append(r.a, ccopy(f.val(x)))
				}
				return r
			case *ssa.Panic:
				e.stuck = "panic"
				return ckUnk
			default:
				f.instr(in)
			}
		}
		if next == nil {
			return ckUnk
		}
		prev, b = b, next
	}
}

func (f *cframe) val(v ssa.Value) *cval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Basic); ok {
				return &cval{k: cNil}
			}
			if _, ok := x.Type().Underlying().(*types.Interface); ok {
				return &cval{k: cNil, t: x.Type()}
			}
			return czero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return ckInt(n, x.Type())
			}
		case constant.String:
			return ckStr(constant.StringVal(x.Value))
		case constant.Bool:
			return ckBool(constant.BoolVal(x.Value))
		}
		return ckUnk
	case *ssa.Global:
		c := f.e.globals[x]
		if c == nil {
			et := x.Type().Underlying().(*types.Pointer).Elem()
			iv := czero(et)
			if !strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) {
				iv = &cval{k: cApp, s: "global " + x.Pkg.Pkg.Path() + "." + x.Name(), t: et}
			}
			c = &ccell{iv}
			f.e.globals[x] = c
		}
		return &cval{k: cPtr, cell: c}
	case *ssa.Function:
		return &cval{k: cFunc, fn: x}
	case *ssa.Builtin:
		return ckUnk
	}
	if r, ok := f.env[v]; ok && r != nil {
		return r
	}
	return ckUnk
}

func (e *CEval) load(p *cval, t types.Type) *cval {
	switch p.k {
	case cPtr:
		return ccopy(p.cell.v)
	case cNil:
		e.stuck = "panic: nil dereference"
	case cApp:
		return &cval{k: cApp, s: "*" + p.s, a: p.a, idx: p.idx, t: t}
	}
	return ckUnk
}

func (f *cframe) set(v ssa.Value, c *cval) { f.env[v] = c }

func (f *cframe) instr(in ssa.Instruction) {
	e := f.e
	switch i := in.(type) {
	case *ssa.Alloc:
		f.set(i, &cval{k: cPtr, cell: &ccell{czero(i.Type().Underlying().(*types.Pointer).Elem())}})
	case *ssa.Store:
		a, v := f.val(i.Addr), ccopy(f.val(i.Val))
		if a.k == cPtr {
			if a.cell.v != nil && a.cell.v.k == cStruct && v.k == cStruct && len(a.cell.v.sub) == len(v.sub) {
				for k := range v.sub { // keep the identity of the field cells
					a.cell.v.sub[k].v = v.sub[k].v
				}
			} else {
				a.cell.v = v
			}
		} else if a.k == cNil {
			e.stuck = "panic: nil dereference"
		}
	case *ssa.UnOp:
		x := f.val(i.X)
		switch i.Op {
		case token.MUL:
			f.set(i, e.load(x, i.Type()))
		case token.NOT:
			if x.k == cBool {
				f.set(i, ckBool(x.i == 0))
			}
		case token.SUB:
			if x.k == cInt {
				f.set(i, cwrap(-x.i, i.Type()))
			}
		case token.XOR:
			if x.k == cInt {
				f.set(i, cwrap(^x.i, i.Type()))
			}
		}
	case *ssa.FieldAddr:
		x := f.val(i.X)
		if x.k == cPtr && x.cell.v != nil && x.cell.v.k == cStruct && i.Field < len(x.cell.v.sub) {
			f.set(i, &cval{k: cPtr, cell: x.cell.v.sub[i.Field]})
		} else if x.k == cNil {
			e.stuck = "panic: nil dereference"
		}
	case *ssa.Field:
		x := f.val(i.X)
		if x.k == cStruct && i.Field < len(x.sub) {
			f.set(i, ccopy(x.sub[i.Field].v))
		}
	case *ssa.IndexAddr:
		x, n := f.val(i.X), f.val(i.Index)
		if n.k != cInt {
			return
		}
		var sub []*ccell
		switch {
		case x.k == cPtr && x.cell.v != nil && x.cell.v.k == cStruct:
			sub = x.cell.v.sub
		case x.k == cSlice:
			sub = x.sub
		default:
			return
		}
		if n.i < 0 || n.i >= int64(len(sub)) {
			e.stuck = "panic: index out of range"
			return
		}
		f.set(i, &cval{k: cPtr, cell: sub[n.i]})
	case *ssa.Index:
		x, n := f.val(i.X), f.val(i.Index)
		if n.k == cInt && x.k == cStruct && n.i >= 0 && n.i < int64(len(x.sub)) {
			f.set(i, ccopy(x.sub[n.i].v))
		} else if n.k == cInt && x.k == cStr && n.i >= 0 && n.i < int64(len(x.s)) {
			f.set(i, ckInt(int64(x.s[n.i]), i.Type()))
		}
	case *ssa.Slice:
		x := f.val(i.X)
		lo, hi := int64(0), int64(-1)
		ok := true
		if i.Low != nil {
			if v := f.val(i.Low); v.k == cInt {
				lo = v.i
			} else {
				ok = false
			}
		}
		if i.High != nil {
			if v := f.val(i.High); v.k == cInt {
				hi = v.i
			} else {
				ok = false
			}
		}
		if x.k == cStr && ok {
			if hi < 0 {
				hi = int64(len(x.s))
			}
			if lo <= hi && hi <= int64(len(x.s)) {
				f.set(i, ckStr(x.s[lo:hi]))
			}
			return
		}
		if x.k == cOther && lo == 0 && hi < 0 {
			f.set(i, x)
			return
		}
		var sub []*ccell
		switch {
		case x.k == cPtr && x.cell.v != nil && x.cell.v.k == cStruct:
			sub = x.cell.v.sub
		case x.k == cSlice:
			if x.i >= 0 { // byte slice of a string
				f.set(i, x)
				return
			}
			sub = x.sub
		default:
			ok = false
		}
		if !ok {
			return
		}
		if hi < 0 {
			hi = int64(len(sub))
		}
		if lo > hi || hi > int64(len(sub)) {
			e.stuck = "panic: slice bounds out of range"
			return
		}
		f.set(i, &cval{k: cSlice, t: i.Type(), i: -1, sub: sub[lo:hi]})
	case *ssa.MakeMap:
		f.set(i, &cval{k: cMap, t: i.Type(), m: &cmap{}})
	case *ssa.MakeSlice:
		n := f.val(i.Len)
		if n.k == cInt && n.i >= 0 && n.i < 4096 {
			v := &cval{k: cSlice, t: i.Type(), i: -1}
			for k := int64(0); k < n.i; k++ {
				v.sub = append(v.sub, &ccell{czero(i.Type().Underlying().(*types.Slice).Elem())})
			}
			f.set(i, v)
		}
	case *ssa.MapUpdate:
		m, k, v := f.val(i.Map), f.val(i.Key), ccopy(f.val(i.Value))
		if m.k != cMap {
			return
		}
		if k.k == cUnk || k.k == cApp {
			m.m.unk = true
			return
		}
		for n := range m.m.keys {
			if eq, ok := ceq(m.m.keys[n], k); ok && eq {
				m.m.vals[n] = v
				return
			}
		}
		m.m.keys = append(m.m.keys, k)
		m.m.vals = append(m.m.vals, v)
	case *ssa.Lookup:
		m, k := f.val(i.X), f.val(i.Index)
		if m.k == cStr && k.k == cInt && k.i >= 0 && k.i < int64(len(m.s)) {
			f.set(i, ckInt(int64(m.s[k.i]), i.Type()))
			return
		}
		mt, isMap := i.X.Type().Underlying().(*types.Map)
		if !isMap {
			return
		}
		res, found, known := ckUnk, false, m.k == cMap && !m.m.unk || m.k == cNil
		if m.k == cMap {
			for n := range m.m.keys {
				eq, ok := ceq(m.m.keys[n], k)
				if !ok {
					known = false
				} else if eq {
					res, found = ccopy(m.m.vals[n]), true
				}
			}
		}
		if known && !found {
			res = czero(mt.Elem())
		}
		if !i.CommaOk {
			if found || known {
				f.set(i, res)
			}
			return
		}
		okv := ckUnk
		if found || known {
			okv = ckBool(found)
		}
		f.set(i, &cval{k: cTuple, a: []*cval{res, okv}})
	case *ssa.Range:
		x := f.val(i.X)
		f.set(i, &cval{k: cIter, a: []*cval{x}})
	case *ssa.Next:
		it := f.val(i.Iter)
		if it.k != cIter || it.a[0].k != cMap || it.a[0].m.unk {
			tup := i.Type().(*types.Tuple)
			r := &cval{k: cTuple}
			for k := 0; k < tup.Len(); k++ {
				r.a = append(r.a, ckUnk)
			}
			f.set(i, r)
			return
		}
		m := it.a[0].m
		if it.idx >= len(m.keys) {
			f.set(i, &cval{k: cTuple, a: []*cval{ckBool(false), ckUnk, ckUnk}})
			return
		}
		f.set(i, &cval{k: cTuple, a: []*cval{ckBool(true), m.keys[it.idx], ccopy(m.vals[it.idx])}})
		it.idx++
	case *ssa.Extract:
		x := f.val(i.Tuple)
		if x.k == cTuple && i.Index < len(x.a) {
			f.set(i, x.a[i.Index])
		} else if x.k == cApp {
			f.set(i, &cval{k: cApp, s: x.s, a: x.a, idx: i.Index, t: i.Type()})
		}
	case *ssa.BinOp:
		f.set(i, f.binop(i.Op, f.val(i.X), f.val(i.Y), i.Type(), i.X.Type()))
	case *ssa.Convert:
		f.set(i, f.convert(f.val(i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeType:
		v := *f.val(i.X)
		if v.k == cInt {
			v.t = i.Type()
		}
		f.set(i, &v)
	case *ssa.ChangeInterface:
		f.set(i, f.val(i.X))
	case *ssa.MakeInterface:
		x := ccopy(f.val(i.X))
		f.set(i, &cval{k: cIface, t: i.X.Type(), a: []*cval{x}})
	case *ssa.TypeAssert:
		x := f.val(i.X)
		if x.k == cIface {
			ok := false
			if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(x.t, it)
				if ok {
					if i.CommaOk {
						f.set(i, &cval{k: cTuple, a: []*cval{x, ckBool(true)}})
					} else {
						f.set(i, x)
					}
					return
				}
			} else {
				ok = types.Identical(x.t, i.AssertedType)
			}
			if i.CommaOk {
				v := x.a[0]
				if !ok {
					v = czero(i.AssertedType)
				}
				f.set(i, &cval{k: cTuple, a: []*cval{v, ckBool(ok)}})
			} else if ok {
				f.set(i, x.a[0])
			} else {
				e.stuck = "panic: type assertion"
			}
			return
		}
		if x.k == cNil || x.k == cErr {
			if i.CommaOk {
				f.set(i, &cval{k: cTuple, a: []*cval{czero(i.AssertedType), ckBool(false)}})
			} else {
				e.stuck = "panic: type assertion"
			}
			return
		}
		if i.CommaOk {
			f.set(i, &cval{k: cTuple, a: []*cval{ckUnk, ckUnk}})
		}
	case *ssa.MakeClosure:
		v := &cval{k: cFunc, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.a = append(v.a, f.val(b))
		}
		f.set(i, v)
	case *ssa.Call:
		f.set(i, f.docall(&i.Call))
	case *ssa.Defer, *ssa.RunDefers, *ssa.DebugRef, *ssa.Go, *ssa.Send, *ssa.Select:
	}
}

func cwrap(n int64, t types.Type) *cval {
	bits, signed := intWidth(t)
	switch {
	case bits == 8 && signed:
		n = int64(int8(n))
	case bits == 8:
		n = int64(uint8(n))
	case bits == 16 && signed:
		n = int64(int16(n))
	case bits == 16:
		n = int64(uint16(n))
	case bits == 32 && signed:
		n = int64(int32(n))
	case bits == 32:
		n = int64(uint32(n))
	}
	return ckInt(n, t)
}

// ceq: equality where constants decide it
func ceq(a, b *cval) (eq, known bool) {
	if a == b && a.k != cUnk {
		return true, true
	}
	if a.k == cOther && b.k == cOther {
		return true, true
	}
	if a.k == cOther || b.k == cOther {
		o := b
		if b.k == cOther {
			o = a
		}
		switch o.k {
		case cInt, cStr, cBool, cNil, cErr:
			return false, true
		}
		return false, false
	}
	nonnil := func(v *cval) bool {
		return v.k == cPtr || v.k == cIface || v.k == cErr || v.k == cFunc || v.k == cMap || v.k == cSlice && (len(v.sub) > 0 || v.i >= 0)
	}
	isnil := func(v *cval) bool { return v.k == cNil || v.k == cSlice && v.sub == nil && v.i < 0 }
	switch {
	case a.k == cInt && b.k == cInt, a.k == cBool && b.k == cBool:
		return a.i == b.i, true
	case a.k == cStr && b.k == cStr:
		return a.s == b.s, true
	case isnil(a) && isnil(b):
		return true, true
	case isnil(a) && nonnil(b), nonnil(a) && isnil(b):
		return false, true
	case a.k == cIface && b.k == cIface:
		if !types.Identical(a.t, b.t) {
			return false, true
		}
		return ceq(a.a[0], b.a[0])
	case a.k == cPtr && b.k == cPtr:
		return a.cell == b.cell, true
	}
	return false, false
}

func (f *cframe) binop(op token.Token, a, b *cval, t, xt types.Type) *cval {
	switch op {
	case token.EQL, token.NEQ:
		if eq, ok := ceq(a, b); ok {
			return ckBool(eq == (op == token.EQL))
		}
		if b.k == cApp && a.k == cNil {
			a, b = b, a
		}
		if a.k == cApp && b.k == cNil && a.id != "" {
			if n, ok := f.e.nilOf[a.id]; ok {
				return ckBool(n == (op == token.EQL))
			}
			r := &cval{k: cUnk, s: "isnil", a: []*cval{a}}
			if op == token.EQL {
				r.i = 1
			}
			return r
		}
		return ckUnk
	}
	if a.k == cStr && b.k == cStr {
		switch op {
		case token.ADD:
			return ckStr(a.s + b.s)
		case token.LSS:
			return ckBool(a.s < b.s)
		case token.GTR:
			return ckBool(a.s > b.s)
		}
		return ckUnk
	}
	if a.k == cInt && b.k == cInt {
		switch op {
		case token.LSS:
			return ckBool(a.i < b.i)
		case token.LEQ:
			return ckBool(a.i <= b.i)
		case token.GTR:
			return ckBool(a.i > b.i)
		case token.GEQ:
			return ckBool(a.i >= b.i)
		case token.ADD:
			return cwrap(a.i+b.i, t)
		case token.SUB:
			return cwrap(a.i-b.i, t)
		case token.MUL:
			return cwrap(a.i*b.i, t)
		case token.AND:
			return cwrap(a.i&b.i, t)
		case token.OR:
			return cwrap(a.i|b.i, t)
		case token.XOR:
			return cwrap(a.i^b.i, t)
		case token.AND_NOT:
			return cwrap(a.i&^b.i, t)
		case token.SHL:
			if b.i >= 0 && b.i < 63 {
				return cwrap(a.i<<uint(b.i), t)
			}
		case token.SHR:
			if b.i >= 0 && b.i < 63 {
				return cwrap(a.i>>uint(b.i), t)
			}
		case token.QUO:
			if b.i != 0 {
				return cwrap(a.i/b.i, t)
			}
			f.e.stuck = "panic: division by zero"
		case token.REM:
			if b.i != 0 {
				return cwrap(a.i%b.i, t)
			}
			f.e.stuck = "panic: division by zero"
		}
	}
	return ckUnk
}

func (f *cframe) convert(v *cval, from, to types.Type) *cval {
	if v.k == cInt {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return cwrap(v.i, to)
		}
		return ckUnk
	}
	// string <-> []byte keep the text
	if v.k == cStr || v.k == cOther {
		return v
	}
	return v
}

func (f *cframe) docall(c *ssa.CallCommon) *cval {
	e := f.e
	var args []*cval
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	if c.IsInvoke() {
		recv := f.val(c.Value)
		if recv.k == cNil {
			e.stuck = "panic: method call on nil interface"
			return ckUnk
		}
		if recv.k == cIface {
			m := e.p.ssa.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
			if m != nil && m.Blocks != nil && e.p.inModule(m) {
				return e.call(m, append([]*cval{recv.a[0]}, args...), nil)
			}
		}
		return e.app(ifaceName(c), append([]*cval{recv}, args...), c.Signature())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(b.Name(), args, c)
	}
	fv := f.val(c.Value)
	if fv.k == cFunc && fv.fn != nil {
		fn := fv.fn
		if fn.Name() == "init" && fn.Pkg != nil && fn.Pkg.Func("init") == fn && !e.inited {
			return &cval{k: cTuple} // initialisers of imported packages are run separately
		}
		if fn.Blocks != nil && e.p.inModule(fn) {
			return e.call(fn, args, fv.a)
		}
		return e.app(funcName(fn), args, c.Signature())
	}
	return e.app("dyn", append([]*cval{fv}, args...), c.Signature())
}

func ifaceName(c *ssa.CallCommon) string {
	return typeShort(c.Value.Type()) + "." + c.Method.Name()
}

func (e *CEval) app(name string, args []*cval, sig *types.Signature) *cval {
	if e.ext != nil {
		if r := e.ext(name, args); r != nil {
			return r
		}
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		s := ""
		if len(args) > 0 && args[0].k == cStr {
			s = args[0].s
		}
		r := &cval{k: cErr, s: s}
		if name == "fmt.Errorf" && len(args) > 1 && args[1].k == cSlice {
			for _, c := range args[1].sub {
				r.a = append(r.a, c.v)
			}
		}
		return r
	case "errors.Join":
		if len(args) == 1 && args[0].k == cSlice {
			r := &cval{k: cErr}
			for _, c := range args[0].sub {
				if c.v.k != cNil {
					r.a = append(r.a, c.v)
					r.s += "%w"
				}
			}
			if len(r.a) == 0 {
				return &cval{k: cNil}
			}
			return r
		}
	case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "bytes.ToUpper", "bytes.ToLower", "bytes.TrimSpace":
		if args[0].k == cOther {
			return args[0]
		}
		if args[0].k == cStr {
			switch name[strings.Index(name, ".")+1:] {
			case "ToUpper":
				return ckStr(strings.ToUpper(args[0].s))
			case "ToLower":
				return ckStr(strings.ToLower(args[0].s))
			}
			return ckStr(strings.TrimSpace(args[0].s))
		}
	case "strings.EqualFold":
		if args[0].k == cStr && args[1].k == cStr {
			return ckBool(strings.EqualFold(args[0].s, args[1].s))
		}
		if args[0].k == cOther || args[1].k == cOther {
			return ckBool(false)
		}
	case "strconv.Itoa":
		if args[0].k == cInt {
			return ckStr(strconv.FormatInt(args[0].i, 10))
		}
	case "fmt.Sprintf":
		if args[0].k == cStr && len(args) > 1 && args[1].k == cSlice {
			r := &cval{k: cApp, s: name, a: []*cval{args[0]}, t: sig.Results().At(0).Type()}
			for _, c := range args[1].sub {
				r.a = append(r.a, c.v)
			}
			return r
		}
	}
	r := &cval{k: cApp, s: name, a: args, id: fmt.Sprintf("%d#0", len(e.calls))}
	e.calls = append(e.calls, r)
	switch sig.Results().Len() {
	case 0:
		return &cval{k: cTuple}
	case 1:
		r2 := *r
		r2.t = sig.Results().At(0).Type()
		return &r2
	}
	t := &cval{k: cTuple}
	for i := 0; i < sig.Results().Len(); i++ {
		t.a = append(t.a, &cval{k: cApp, s: name, a: args, idx: i, t: sig.Results().At(i).Type(), id: fmt.Sprintf("%d#%d", len(e.calls)-1, i)})
	}
	return t
}

func (f *cframe) builtin(name string, args []*cval, c *ssa.CallCommon) *cval {
	switch name {
	case "len":
		switch args[0].k {
		case cStr:
			return ckInt(int64(len(args[0].s)), types.Typ[types.Int])
		case cSlice:
			return ckInt(int64(len(args[0].sub)), types.Typ[types.Int])
		case cMap:
			if !args[0].m.unk {
				return ckInt(int64(len(args[0].m.keys)), types.Typ[types.Int])
			}
		case cNil:
			return ckInt(0, types.Typ[types.Int])
		case cStruct:
			return ckInt(int64(len(args[0].sub)), types.Typ[types.Int])
		}
	case "append":
		if args[0].k == cSlice && (len(args) == 1 || args[1].k == cSlice) {
			r := &cval{k: cSlice, t: args[0].t, i: -1}
			r.sub = append(r.sub, args[0].sub...)
			if len(args) > 1 {
				for _, x := range args[1].sub {
					r.sub = append(r.sub, &ccell{ccopy(x.v)})
				}
			}
			return r
		}
	case "delete":
		if args[0].k == cMap {
			for n := range args[0].m.keys {
				if eq, ok := ceq(args[0].m.keys[n], args[1]); ok && eq {
					args[0].m.keys = append(args[0].m.keys[:n], args[0].m.keys[n+1:]...)
					args[0].m.vals = append(args[0].m.vals[:n], args[0].m.vals[n+1:]...)
					break
				}
			}
		}
	case "min", "max":
		if len(args) == 2 && args[0].k == cInt && args[1].k == cInt {
			if (args[0].i < args[1].i) == (name == "min") {
				return args[0]
			}
			return args[1]
		}
	}
	return ckUnk
}
