package main

// Calls of the wire-layout interpreter: callees of the module are inlined, the encoding primitives of the standard
// library are modelled, everything else yields an opaque result.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *W) inlineable(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	if w.p.inModule(fn) {
		return true
	}
	if fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Pkg == nil {
		// wrapper of a promoted method or bound method
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if s := c.Call.StaticCallee(); s != nil {
						return w.p.inModule(s) || w.inlineable(s)
					}
				}
			}
		}
	}
	return false
}

func vSvlen(x *V) *V {
	if x.k == vConst {
		u := uint64(x.c) << 1
		if x.c < 0 {
			u = ^u
		}
		n := int64(1)
		for u >= 0x80 {
			u >>= 7
			n++
		}
		return vInt(n)
	}
	if x.k == vUnk {
		return x
	}
	if x.k == vAlt {
		return mkAlt(x.a[0], vSvlen(x.a[1]), vSvlen(x.a[2]))
	}
	return vMk("svlen", "", true, x)
}

// streamOf strips interfaces and pointers down to the stream of a buffer
func streamOf(st *wst, v *V) string {
	for v.k == vIface {
		v = v.a[0]
	}
	if v.k == vPtr && st.streams[v.s] != nil {
		return v.s
	}
	return ""
}

func bufWrite(w *W, st *wst, id string, items []*witem, pos token.Pos) *V {
	s := st.streams[id]
	return w.writeAll(st, id, s.end, items, pos)
}

func (f *wframe) doCall(x ssa.Value, c *ssa.CallCommon, st *wst) (*V, *wst) {
	ctx := f.ctx + "/" + fmt.Sprintf("%p", x)
	args := make([]*V, len(c.Args))
	for i, a := range c.Args {
		args[i] = f.val(a)
	}
	if c.IsInvoke() {
		return f.invoke(x, c, f.val(c.Value), args, st, ctx)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(b.Name(), x, c, args, st, ctx), st
	}
	fv := f.val(c.Value)
	return f.callValue(x, c, fv, args, st, ctx)
}

func (f *wframe) callValue(x ssa.Value, c *ssa.CallCommon, fv *V, args []*V, st *wst, ctx string) (*V, *wst) {
	w := f.w
	if fv.k == vAlt {
		a, b := st.copy(), st.copy()
		va, sa := f.callValue(x, c, fv.a[1], args, a, ctx+"a")
		vb, sb := f.callValue(x, c, fv.a[2], args, b, ctx+"b")
		if sa == nil || sb == nil {
			return vUnknown("call"), st
		}
		return mkAlt(fv.a[0], va, vb), f.merge(fv.a[0], st, sa, sb)
	}
	if fv.k == vClosure && fv.fn != nil {
		fn := fv.fn
		if o := fn.Origin(); o != nil && fn.Blocks == nil {
			fn = o
		}
		if w.reflective(fn) && w.p.inModule(fn) {
			if len(args) > 0 && args[len(args)-1].k == vIface {
				t := args[len(args)-1].t
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				return tagTable(t), st
			}
		}
		if w.isCompress(fn) && len(args) == 2 {
			return f.compress(x, fn, args[1], st, ctx), st
		}
		if w.inlineable(fn) {
			return w.call(fn, args, fv.a, st, ctx, f.dep+1)
		}
		return f.external(fn, x, c, args, st, ctx)
	}
	return f.opaque(x, "call of "+fv.String(), ctx), st
}

func (f *wframe) invoke(x ssa.Value, c *ssa.CallCommon, recv *V, args []*V, st *wst, ctx string) (*V, *wst) {
	w := f.w
	switch recv.k {
	case vAlt:
		a, b := st.copy(), st.copy()
		va, sa := f.invoke(x, c, recv.a[1], args, a, ctx+"a")
		vb, sb := f.invoke(x, c, recv.a[2], args, b, ctx+"b")
		switch {
		case sa == nil && sb == nil:
			return nil, nil
		case sa == nil:
			return vb, sb
		case sb == nil:
			return va, sa
		}
		return mkAlt(recv.a[0], va, vb), f.merge(recv.a[0], st, sa, sb)
	case vIface:
		if id := streamOf(st, recv); id != "" {
			return f.buffer(id, c.Method.Name(), x, args, st), st
		}
		fn := w.p.ssa.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if w.isCompress(fn) {
			return f.compress(x, fn, args[0], st, ctx), st
		}
		if w.inlineable(fn) {
			return w.call(fn, append([]*V{recv.a[0]}, args...), nil, st, ctx, f.dep+1)
		}
	case vAtom:
		if recv.op == "global" && strings.HasSuffix(recv.s, "Endian") {
			if r, ok := f.endian(strings.HasPrefix(recv.s, "Little") || strings.HasPrefix(recv.s, "little"), c.Method.Name(), x, args, st, ctx); ok {
				return r, st
			}
		}
	}
	for _, a := range args {
		if id := streamOf(st, a); id != "" && !st.streams[id].input {
			w.bad(st.streams[id], "handed to "+c.Method.Name(), x.Pos())
		}
	}
	return f.opaque(x, c.Method.Name(), ctx), st
}

// isCompress: a method []byte -> ([]byte, error) of a Compressor
func (w *W) isCompress(fn *ssa.Function) bool {
	if fn == nil || fn.Name() != "Compress" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 2 {
		return false
	}
	n := w.p.typ("Compressor")
	if n == nil {
		return false
	}
	i, ok := n.Underlying().(*types.Interface)
	return ok && types.Implements(fn.Signature.Recv().Type(), i)
}

func (f *wframe) compress(x ssa.Value, fn *ssa.Function, arg *V, st *wst, ctx string) *V {
	v := f.opaque(x, "Compress", ctx)
	if v.k == vTuple && len(v.a) == 2 && v.a[0].k == vAtom {
		f.w.comp[v.a[0].s] = wcomp{fn, arg, st.copy()}
	}
	return v
}

// opaque: a result the interpreter knows nothing about, one symbol per call site
func (f *wframe) opaque(x ssa.Value, what, ctx string) *V {
	mk := func(t types.Type, i int) *V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return vUnknown(what)
		}
		loc := "$ext" + f.w.ctxOf(ctx) + ":" + what
		if i >= 0 {
			loc += fmt.Sprintf(":%d", i)
		}
		return f.w.symAt(loc, t)
	}
	switch t := x.Type().(type) {
	case *types.Tuple:
		as := make([]*V, t.Len())
		for i := range as {
			as[i] = mk(t.At(i).Type(), i)
		}
		return vTup(as...)
	}
	return mk(x.Type(), -1)
}

func (f *wframe) builtin(name string, x ssa.Value, c *ssa.CallCommon, args []*V, st *wst, ctx string) *V {
	w := f.w
	switch name {
	case "len", "cap":
		if b, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			if a, ok := b.Elem().Underlying().(*types.Array); ok {
				return vInt(a.Len())
			}
		}
		return w.length(st, args[0])
	case "copy":
		return f.copyB(args[0], args[1], st, x.Pos())
	case "append":
		return f.appendB(x, c, args, st, ctx)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			cnd := vLt0(vSub(a, r), nil)
			if name == "max" {
				cnd = vNot(cnd)
			}
			r = mkAlt(cnd, a, r)
		}
		return r
	}
	return vUnknown("builtin " + name)
}

func (f *wframe) copyB(dst, src *V, st *wst, pos token.Pos) *V {
	w := f.w
	if src.k == vAlt {
		// the source is decided by data: copy both
		items := w.itemsOf(st, src, pos)
		if dst.k == vSlice && st.streams[dst.s] != nil {
			w.writeAll(st, dst.s, dst.a[0], items, pos)
			return w.length(st, src)
		}
	}
	switch dst.k {
	case vNil:
		return vInt(0)
	case vSlice:
		s := st.streams[dst.s]
		if s == nil {
			break
		}
		n := w.length(st, src)
		if src.k == vSlice && st.streams[src.s] != nil && st.streams[src.s].input && len(src.a) == 2 {
			n = dst.a[1]
			src = vSl(src.s, src.a[0], n, true)
		}
		items := w.itemsOf(st, src, pos)
		if len(dst.a) == 3 || s.size != nil && dst.a[0] == vInt(0) && dst.a[1] == s.size && dst.a[1].k == vConst {
			// an explicit bound: it must be the length of what is copied
			if dst.a[1] != n {
				if b := vBounds(vSub(dst.a[1], n), nil); !b.hasL || b.lo < 0 {
					w.bad(s, fmt.Sprintf("copy of %s bytes into %s", n, dst.a[1]), pos)
				}
			}
		}
		w.writeAll(st, dst.s, dst.a[0], items, pos)
		return n
	case vAlt:
		n := w.length(st, src)
		for _, d := range dst.a[1:] {
			if d.k == vSlice && st.streams[d.s] != nil {
				f.copyB(d, src, st, pos)
			}
		}
		return n
	}
	// elements of another kind, or an unknown target
	if dst.k == vSlice {
		w.note("copy into %s", dst)
		return w.length(st, src)
	}
	return vUnknown("copy into " + dst.String())
}

func (f *wframe) appendItems(base *V, items []*witem, st *wst, loc string, pos token.Pos) *V {
	w := f.w
	switch base.k {
	case vAlt:
		return vUnknown("append to " + base.String())
	case vSlice:
		if s := st.streams[base.s]; s != nil && !s.input {
			at := vAdd(base.a[0], base.a[1])
			if at != s.end && base.a[1] == vInt(0) && at == vInt(0) {
				s.items, s.end = nil, vInt(0)
			}
			if at == s.end {
				s.size = nil
				n := w.writeAll(st, base.s, at, items, pos)
				return vSl(base.s, base.a[0], vAdd(base.a[1], n), false)
			}
			// a new buffer with the old content in front
			old := w.region(s, base.a[0], base.a[1], pos)
			w.clear(st, loc)
			st.mem["!"+loc] = vBool(true)
			st.streams[loc] = &wstream{end: vInt(0)}
			n := w.writeAll(st, loc, vInt(0), append(append([]*witem{}, old...), items...), pos)
			return vSl(loc, vInt(0), n, false)
		}
	}
	old := []*witem{}
	if !(base.k == vSlice && base.a[1] == vInt(0)) {
		old = w.itemsOf(st, base, pos)
	}
	w.clear(st, loc)
	st.mem["!"+loc] = vBool(true)
	st.streams[loc] = &wstream{end: vInt(0)}
	n := w.writeAll(st, loc, vInt(0), append(append([]*witem{}, old...), items...), pos)
	return vSl(loc, vInt(0), n, false)
}

func (f *wframe) appendB(x ssa.Value, c *ssa.CallCommon, args []*V, st *wst, ctx string) *V {
	w := f.w
	loc := "s" + w.ctxOf(ctx)
	if len(args) < 2 {
		return args[0]
	}
	if isByteArr(x.Type()) {
		return f.appendItems(args[0], w.itemsOf(st, args[1], x.Pos()), st, loc, x.Pos())
	}
	et := x.Type().Underlying().(*types.Slice).Elem()
	add := args[1]
	if add.k == vNil {
		return args[0]
	}
	if add.k == vSlice && add.a[1].k == vConst && add.a[1].c <= 8 {
		r := args[0]
		for i := int64(0); i < add.a[1].c; i++ {
			e := w.load(st, add.s+"["+vAdd(add.a[0], vInt(i)).String()+"]", et)
			r = vIntern(&V{k: vAtom, op: "append", a: []*V{r, e}})
		}
		return r
	}
	if args[0].k == vNil || args[0].k == vSlice && args[0].a[1] == vInt(0) {
		return add
	}
	return vIntern(&V{k: vAtom, op: "cat", a: []*V{args[0], add}})
}

func (f *wframe) endian(little bool, name string, x ssa.Value, args []*V, st *wst, ctx string) (*V, bool) {
	w := f.w
	op := "u"
	if little {
		op = "le"
	}
	width := 0
	switch {
	case strings.HasSuffix(name, "Uint16"):
		width = 2
	case strings.HasSuffix(name, "Uint32"):
		width = 4
	case strings.HasSuffix(name, "Uint64"):
		width = 8
	default:
		return nil, false
	}
	switch {
	case strings.HasPrefix(name, "Put"):
		f.putAt(args[0], &witem{op: op, w: width, v: args[1], size: vInt(int64(width)), pos: x.Pos()}, st)
		return vTup(), true
	case strings.HasPrefix(name, "Append"):
		it := &witem{op: op, w: width, v: args[1], size: vInt(int64(width)), pos: x.Pos()}
		return f.appendItems(args[0], []*witem{it}, st, "s"+w.ctxOf(ctx), x.Pos()), true
	case strings.HasPrefix(name, "Uint"):
		return w.readU(st, args[0], width, little, w.ctxOf(ctx), x.Pos()), true
	}
	return nil, false
}

func (f *wframe) putAt(dst *V, it *witem, st *wst) {
	w := f.w
	if dst.k == vSlice && st.streams[dst.s] != nil && !st.streams[dst.s].input {
		w.put(st, dst.s, dst.a[0], it)
		return
	}
	if dst.k == vNil {
		w.rejects = append(w.rejects, vBool(true))
	}
	if dst.k == vAlt {
		// typically a result that is nil on the failure path: the write goes to the slice
		var one *V
		for _, d := range flatAlt(dst) {
			if d.k == vSlice && st.streams[d.s] != nil && !st.streams[d.s].input {
				if one != nil && one != d {
					one = nil
					break
				}
				one = d
			} else if d.k == vNil {
				w.note("a write to a nil slice in %s", fname(f.fn))
				for _, s := range st.streams {
					if !s.input {
						w.bad(s, "a write to a slice that can be nil in "+fname(f.fn), it.pos)
						break
					}
				}
			}
		}
		if one != nil {
			w.put(st, one.s, one.a[0], it)
			return
		}
	}
	for _, s := range st.streams {
		if !s.input {
			w.bad(s, "a write to "+dst.String(), it.pos)
		}
	}
}

func flatAlt(v *V) []*V {
	if v.k == vAlt {
		return append(flatAlt(v.a[1]), flatAlt(v.a[2])...)
	}
	return []*V{v}
}

func (f *wframe) buffer(id, name string, x ssa.Value, args []*V, st *wst) *V {
	w := f.w
	s := st.streams[id]
	switch name {
	case "Write":
		n := w.length(st, args[0])
		bufWrite(w, st, id, w.itemsOf(st, args[0], x.Pos()), x.Pos())
		return vTup(n, vNilV)
	case "WriteString":
		n := w.length(st, args[0])
		bufWrite(w, st, id, w.itemsOf(st, args[0], x.Pos()), x.Pos())
		return vTup(n, vNilV)
	case "WriteByte":
		w.put(st, id, s.end, &witem{op: "u", w: 1, v: args[0], size: vInt(1), pos: x.Pos()})
		return vNilV
	case "Bytes":
		return vSl(id, vInt(0), s.end, false)
	case "String":
		return vSl(id, vInt(0), s.end, false)
	case "Len":
		return s.end
	case "Grow":
		return vTup()
	case "Reset":
		s.items, s.end = nil, vInt(0)
		return vTup()
	}
	w.bad(s, "buffer method "+name, x.Pos())
	return f.opaque(x, name, f.ctx+"/"+fmt.Sprintf("%p", x))
}

func fixedWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Bool:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int64, types.Uint64:
		return 8
	}
	return 0
}

// binWrite: the items encoding/binary writes for a value
func (f *wframe) binWrite(op string, v *V, t types.Type, st *wst, pos token.Pos) []*witem {
	w := f.w
	if n := fixedWidth(t); n > 0 {
		return []*witem{{op: op, w: n, v: v, size: vInt(int64(n)), pos: pos}}
	}
	if isByteArr(t) {
		return w.itemsOf(st, v, pos)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.k == vPtr {
			return f.binWrite(op, w.load(st, v.s, u.Elem()), u.Elem(), st, pos)
		}
	case *types.Struct:
		if v.k == vStruct {
			var r []*witem
			for i := 0; i < u.NumFields(); i++ {
				r = append(r, f.binWrite(op, v.a[i], u.Field(i).Type(), st, pos)...)
			}
			return r
		}
	case *types.Slice:
		if n := fixedWidth(u.Elem()); n > 0 && v.k == vSlice {
			idx := vMk("idx", v.a[1].String(), true)
			e := w.load(st, v.s+"["+vAdd(v.a[0], idx).String()+"]", u.Elem())
			it := &witem{op: op, w: n, v: e, size: vInt(int64(n)), pos: pos}
			return []*witem{{op: "rep", idx: idx, bound: v.a[1], a: []*witem{it}, size: vMulC(v.a[1], int64(n)), pos: pos}}
		}
	}
	return []*witem{{op: "bad", why: "binary.Write of " + t.String(), size: vUnknown("size of " + t.String()), pos: pos}}
}

func (f *wframe) external(fn *ssa.Function, x ssa.Value, c *ssa.CallCommon, args []*V, st *wst, ctx string) (*V, *wst) {
	w := f.w
	pkg, name := "", fn.Name()
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	recvT := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		recvT = namedName(t)
	}
	pos := x.Pos()
	switch pkg {
	case "encoding/binary":
		switch {
		case recvT == "bigEndian" || recvT == "littleEndian":
			if r, ok := f.endian(recvT == "littleEndian", name, x, args[1:], st, ctx); ok {
				return r, st
			}
		case name == "PutUvarint" || name == "PutVarint":
			it := &witem{op: "uv", v: args[1], pos: pos}
			it.size = vUvlen(args[1])
			if name == "PutVarint" {
				it.op, it.size = "sv", vSvlen(args[1])
			}
			f.putAt(args[0], it, st)
			return it.size, st
		case name == "AppendUvarint" || name == "AppendVarint":
			it := &witem{op: "uv", v: args[1], pos: pos}
			it.size = vUvlen(args[1])
			if name == "AppendVarint" {
				it.op, it.size = "sv", vSvlen(args[1])
			}
			return f.appendItems(args[0], []*witem{it}, st, "s"+w.ctxOf(ctx), pos), st
		case name == "Uvarint" || name == "Varint":
			return f.readVar(args[0], name == "Varint", st, w.ctxOf(ctx), pos), st
		case name == "Write":
			op := "u"
			order := args[1]
			for order.k == vIface {
				order = order.a[0]
			}
			if strings.HasPrefix(strings.ToLower(order.s), "little") {
				op = "le"
			}
			id := streamOf(st, args[0])
			if id != "" && args[2].k == vIface {
				bufWrite(w, st, id, f.binWrite(op, args[2].a[0], args[2].t, st, pos), pos)
				return vNilV, st
			}
		case name == "Size":
		}
	case "bytes":
		if recvT == "Buffer" {
			if id := streamOf(st, args[0]); id != "" {
				return f.buffer(id, name, x, args[1:], st), st
			}
		}
		switch name {
		case "NewBuffer", "NewBufferString":
			loc := "a" + w.ctxOf(ctx)
			items := []*witem(nil)
			if !(args[0].k == vSlice && args[0].a[1] == vInt(0)) {
				items = w.itemsOf(st, args[0], pos)
			}
			w.clear(st, loc)
			st.mem["!"+loc] = vBool(true)
			st.streams[loc] = &wstream{end: vInt(0)}
			w.writeAll(st, loc, vInt(0), items, pos)
			return vPtrTo(loc), st
		}
	case "io":
		switch name {
		case "WriteString":
			if id := streamOf(st, args[0]); id != "" {
				return f.buffer(id, "WriteString", x, args[1:], st), st
			}
		case "Copy":
			to, from := streamOf(st, args[0]), streamOf(st, args[1])
			if to != "" && from != "" {
				src := st.streams[from]
				n := src.end
				items := src.items
				st.streams[from] = &wstream{end: vInt(0), size: src.size}
				bufWrite(w, st, to, items, pos)
				return vTup(n, vNilV), st
			}
		}
	case "hash/crc32":
		switch name {
		case "MakeTable":
			return vMk("crctable", args[0].String(), false), st
		case "Checksum", "ChecksumIEEE":
			tab := "IEEE"
			if name == "Checksum" {
				tab = args[1].String()
			}
			return vMk("crc", tab, true, args[0]), st
		}
	case "fmt", "errors":
		if x.Type().String() == "error" {
			return vIntern(&V{k: vIface, s: "error", t: types.Universe.Lookup("error").Type(), a: []*V{vIntern(&V{k: vAtom, op: "err"})}}), st
		}
		if pkg == "fmt" && strings.HasPrefix(name, "Fprint") {
			if id := streamOf(st, args[0]); id != "" {
				w.bad(st.streams[id], name, pos)
			}
		}
		return f.opaque(x, name, ctx), st
	case "sync/atomic":
		if recvT == "Value" && args[0].k == vPtr && strings.HasPrefix(args[0].s, "g:") {
			switch name {
			case "Load":
				tab := w.cachedTable(args[0].s)
				return mkAlt(vMk("empty", args[0].s, false), vNilV, vIntern(&V{k: vAtom, op: "cached", a: []*V{tab}})), st
			case "Store":
				return vTup(), st
			}
		}
	case "strings", "strconv", "time", "sort", "math", "log", "os":
		return f.opaque(x, name, ctx), st
	}
	// any other function may write to the buffers it is given
	for i, a := range args {
		for _, v := range flatAlt(a) {
			id := streamOf(st, v)
			if v.k == vSlice {
				id = v.s
			}
			if s := st.streams[id]; s != nil && !s.input && i >= 0 && !strings.Contains(pkg, "klog") && !strings.Contains(pkg, "logr") && !strings.Contains(pkg, "glog") {
				w.bad(s, "handed to "+pkg+"."+name, pos)
			}
		}
	}
	return f.opaque(x, name, ctx), st
}

func (f *wframe) readVar(v *V, signed bool, st *wst, rid string, pos token.Pos) *V {
	w := f.w
	if v.k == vSlice {
		if s := st.streams[v.s]; s != nil && s.input {
			at := vMk("rd", rid+":v", true)
			it := &witem{op: "uv", v: at, pos: pos}
			it.size = vMk("uvlen", "", true, at)
			if signed {
				it.op = "sv"
				it.size = vMk("svlen", "", true, at)
			}
			it = w.put(st, v.s, v.a[0], it)
			return vTup(it.v, it.size)
		}
	}
	if v.k == vAlt {
		return mkAlt(v.a[0], f.readVar(v.a[1], signed, st, rid+"a", pos), f.readVar(v.a[2], signed, st, rid+"b", pos))
	}
	u := vUnknown("varint of " + v.String())
	return vTup(u, u)
}

// --- debugging ---

func dumpItems(xs []*witem, ind string, p *Prog) {
	for _, x := range xs {
		switch x.op {
		case "alt":
			fmt.Printf("%salt %s   [%s]\n", ind, x.cond, x.size)
			dumpItems(x.a, ind+"  + ", p)
			dumpItems(x.b, ind+"  - ", p)
		case "rep":
			fmt.Printf("%srep %s < %s  [%s]\n", ind, x.idx, x.bound, x.size)
			dumpItems(x.a, ind+"    ", p)
		case "bad":
			fmt.Printf("%sBAD %s  %s\n", ind, x.why, p.pos(x.pos))
		default:
			v := ""
			if x.v != nil {
				v = x.v.String()
			}
			sz := ""
			if x.op == "raw" || x.op == "pad" {
				sz = " [" + x.size.String() + "]"
			}
			fmt.Printf("%s%s%d %s%s\n", ind, x.op, x.w, v, sz)
		}
	}
}
