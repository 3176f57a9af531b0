package main

// Engine W: abstract interpretation of codecs. Constant propagation decides everything that depends on the API and its
// version only; branches on data are evaluated once per arm and joined (alt), loop bodies are evaluated once for a
// symbolic element and summarised (rep, sum). The result is the sequence of wire items a codec writes or reads.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type witem struct {
	op    string // u (big endian), le, uv, sv, raw, pad, alt, rep, bad
	w     int
	v     *V
	start *V
	size  *V
	cond  *V
	a, b  []*witem
	idx   *V // rep: loop variable
	bound *V // rep: number of iterations
	why   string
	pos   token.Pos
}

type wstream struct {
	size  *V // nil: grows
	items []*witem
	end   *V
	input bool
}

type wdefer struct {
	fr   int
	call *ssa.Defer
	args []*V
	fn   *V
}

type wst struct {
	mem     map[string]*V
	streams map[string]*wstream
	pend    map[*ssa.Phi]*V
	defers  []wdefer
	facts   wenv // conditions decided on the way here
}

func newWst() *wst { return &wst{mem: map[string]*V{}, streams: map[string]*wstream{}} }

func (s *wst) copy() *wst {
	n := &wst{mem: make(map[string]*V, len(s.mem)), streams: make(map[string]*wstream, len(s.streams))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.streams {
		c := *v
		c.items = v.items[:len(v.items):len(v.items)]
		n.streams[k] = &c
	}
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	n.facts = s.facts
	return n
}

type W struct {
	p       *Prog
	symf    func(loc string, t types.Type) *V // constants of the context
	framed  bool                              // the input starts with a frame length
	ctxIDs  map[string]int
	frames  int
	active  map[string]int // active loop bounds
	notes   []string
	phiBase map[*V]string // phi atom -> stream it was used as an offset of
	steps   int
	funcs   map[*ssa.Function]bool
	pdoms   map[*ssa.Function][]int
	loopsM  map[*ssa.Function]map[*ssa.BasicBlock]*wloop
	rejects []*V
	allocN  map[string]int
	mapKeys map[string]*V
	comp    map[string]wcomp // compressed bytes -> what was compressed, by what
}

type wcomp struct {
	fn  *ssa.Function
	arg *V
	st  *wst
}

func newW(p *Prog) *W {
	return &W{p: p, ctxIDs: map[string]int{}, active: map[string]int{}, phiBase: map[*V]string{}, funcs: map[*ssa.Function]bool{},
		pdoms: map[*ssa.Function][]int{}, loopsM: map[*ssa.Function]map[*ssa.BasicBlock]*wloop{}, allocN: map[string]int{}, mapKeys: map[string]*V{}, comp: map[string]wcomp{}}
}

func (w *W) note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range w.notes {
		if x == s {
			return
		}
	}
	w.notes = append(w.notes, s)
}

type wframe struct {
	w   *W
	fn  *ssa.Function
	env map[ssa.Value]*V
	ctx string
	id  int
	dep int
}

type wret struct {
	v    *V
	st   *wst
	cond *V // only for returns from inside a loop
}

type wout struct {
	fall *wst
	ret  *wret
}

func (w *W) ctxOf(s string) string {
	n, ok := w.ctxIDs[s]
	if !ok {
		n = len(w.ctxIDs) + 1
		w.ctxIDs[s] = n
	}
	return strconv.Itoa(n)
}

// --- memory ---

func isByteArr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func isBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (w *W) symAt(loc string, t types.Type) *V {
	if w.symf != nil {
		if v := w.symf(loc, t); v != nil {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return vPtrTo(loc + "^")
	case *types.Slice:
		if isByteArr(t) {
			return vIntern(&V{k: vAtom, op: "sym", s: loc})
		}
		return vSl(loc, vInt(0), vMk("len", loc, true), false)
	case *types.Basic:
		return vIntern(&V{k: vAtom, op: "sym", s: loc, num: u.Info()&types.IsInteger != 0})
	case *types.Map:
		return vIntern(&V{k: vAtom, op: "sym", s: loc, t: t})
	}
	return vIntern(&V{k: vAtom, op: "sym", s: loc})
}

func zeroV(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return vInt(0)
		case u.Info()&types.IsBoolean != 0:
			return vBool(false)
		case u.Info()&types.IsString != 0:
			return vStrConst("")
		}
		return vUnknown("zero of " + t.String())
	case *types.Struct:
		as := make([]*V, u.NumFields())
		for i := range as {
			as[i] = zeroV(u.Field(i).Type())
		}
		return vIntern(&V{k: vStruct, t: t, a: as})
	}
	return vNilV
}

func symRoot(loc string) bool { return strings.HasPrefix(loc, "$") }

func (w *W) load(st *wst, loc string, t types.Type) *V {
	if v, ok := st.mem[loc]; ok {
		return v
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !isBuffer(t) {
		as := make([]*V, u.NumFields())
		for i := range as {
			as[i] = w.load(st, loc+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return vIntern(&V{k: vStruct, t: t, a: as})
	}
	if symRoot(loc) {
		return w.symAt(loc, t)
	}
	return zeroV(t)
}

func (w *W) store(st *wst, loc string, v *V, t types.Type) {
	if u, ok := t.Underlying().(*types.Struct); ok {
		if v.k == vStruct {
			for i := 0; i < u.NumFields(); i++ {
				w.store(st, loc+"."+u.Field(i).Name(), v.a[i], u.Field(i).Type())
			}
			return
		}
		if v.k == vAlt {
			for i := 0; i < u.NumFields(); i++ {
				w.store(st, loc+"."+u.Field(i).Name(), w.field(st, v, i, u), u.Field(i).Type())
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			w.store(st, loc+"."+u.Field(i).Name(), vUnknown("field of "+v.String()), u.Field(i).Type())
		}
		return
	}
	st.mem[loc] = w.settle(st, v)
}

// settle turns a delimited piece of the input into the field read it is.
func (w *W) settle(st *wst, v *V) *V {
	switch v.k {
	case vSlice:
		if s := st.streams[v.s]; s != nil && s.input && len(v.a) == 3 {
			return w.readRaw(st, v, token.NoPos)
		}
	case vAlt:
		return mkAlt(v.a[0], w.settle(st, v.a[1]), w.settle(st, v.a[2]))
	}
	return v
}

func (w *W) field(st *wst, v *V, i int, u *types.Struct) *V {
	switch v.k {
	case vStruct:
		return v.a[i]
	case vAlt:
		return mkAlt(v.a[0], w.field(st, v.a[1], i, u), w.field(st, v.a[2], i, u))
	}
	return vUnknown("field " + u.Field(i).Name() + " of " + v.String())
}

func (w *W) clear(st *wst, loc string) {
	for k := range st.mem {
		if k == loc || strings.HasPrefix(k, loc+".") || strings.HasPrefix(k, loc+"[") || strings.HasPrefix(k, loc+"^") {
			delete(st.mem, k)
		}
	}
	delete(st.streams, loc)
}

// --- streams ---

func itemsSize(xs []*witem) *V {
	r := vInt(0)
	for _, x := range xs {
		r = vAdd(r, x.size)
	}
	return r
}

func (w *W) bad(s *wstream, why string, pos token.Pos) {
	if os.Getenv("WTRACE") != "" {
		fmt.Println("   bad:", why, w.p.pos(pos))
	}
	s.items = append(s.items, &witem{op: "bad", why: why, start: s.end, size: vInt(0), pos: pos})
}

// put places an item at offset off of stream id; for the input stream it is a read.
func (w *W) put(st *wst, id string, off *V, it *witem) *witem {
	s := st.streams[id]
	it.start = off
	d := vSub(off, s.end)
	if d.k == vConst && d.c == 0 {
		s.items = append(s.items, it)
		s.end = vAdd(s.end, it.size)
		return it
	}
	if d.k == vUnk {
		w.bad(s, "item at an unknown offset: "+d.s, it.pos)
		s.items = append(s.items, it)
		s.end = vAdd(off, it.size)
		return it
	}
	// an offset in terms of a loop-carried variable whose relation to the stream is not known yet
	_, as, ks := linParts(d)
	for i, a := range as {
		if a.k == vAtom && a.op == "phi" && ks[i] == 1 {
			w.phiBase[a] = id
		}
	}
	b := vBounds(d, nil)
	if b.hasL && b.lo >= 0 {
		s.items = append(s.items, &witem{op: "pad", start: s.end, size: d, pos: it.pos}, it)
		s.end = vAdd(off, it.size)
		return it
	}
	// inside what is there already
	for i, x := range s.items {
		if x.start == nil {
			continue
		}
		if x.start == off && x.size == it.size && (x.op == "pad" || x.op == it.op || x.op == "u" || x.op == "raw") {
			if s.input && x.op == it.op && x.op != "pad" {
				return x
			}
			n := append([]*witem{}, s.items...)
			n[i] = it
			s.items = n
			return it
		}
		if x.op == "pad" {
			lead := vSub(off, x.start)
			lb := vBounds(lead, nil)
			tail := vSub(vSub(x.size, lead), it.size)
			tb := vBounds(tail, nil)
			if lb.hasL && lb.lo >= 0 && tb.hasL && tb.lo >= 0 {
				n := append([]*witem{}, s.items[:i]...)
				if !(lead.k == vConst && lead.c == 0) {
					n = append(n, &witem{op: "pad", start: x.start, size: lead, pos: x.pos})
				}
				n = append(n, it)
				if !(tail.k == vConst && tail.c == 0) {
					n = append(n, &witem{op: "pad", start: vAdd(off, it.size), size: tail, pos: x.pos})
				}
				s.items = append(n, s.items[i+1:]...)
				return it
			}
		}
	}
	w.bad(s, fmt.Sprintf("an item at offset %s, but the items so far end at %s", off, s.end), it.pos)
	s.items = append(s.items, it)
	s.end = vAdd(off, it.size)
	return it
}

func (w *W) writeAll(st *wst, id string, off *V, items []*witem, pos token.Pos) *V {
	n := vInt(0)
	for _, x := range items {
		c := *x
		if !c.pos.IsValid() {
			c.pos = pos
		}
		w.put(st, id, vAdd(off, n), &c)
		n = vAdd(n, x.size)
	}
	return n
}

// content of a byte string: the items it consists of
func (w *W) itemsOf(st *wst, v *V, pos token.Pos) []*witem {
	switch v.k {
	case vNil:
		return nil
	case vStrC:
		if v.s == "" {
			return nil
		}
		return []*witem{{op: "raw", v: v, size: vInt(int64(len(v.s))), pos: pos}}
	case vAlt:
		return altItems(v.a[0], w.itemsOf(st, v.a[1], pos), w.itemsOf(st, v.a[2], pos), pos)
	case vSlice:
		if s := st.streams[v.s]; s != nil {
			if s.input {
				return []*witem{{op: "raw", v: w.readRaw(st, v, pos), size: v.a[1], pos: pos}}
			}
			return w.region(s, v.a[0], v.a[1], pos)
		}
		return []*witem{{op: "raw", v: v, size: v.a[1], pos: pos}}
	case vAtom:
		if v.op == "cat" {
			var r []*witem
			for _, x := range v.a {
				r = append(r, w.itemsOf(st, x, pos)...)
			}
			return r
		}
		return []*witem{{op: "raw", v: v, size: w.length(st, v), pos: pos}}
	}
	return []*witem{{op: "bad", why: "bytes of " + v.String(), size: vUnknown("length of " + v.String()), pos: pos}}
}

// region gives the items of s between off and off+n
func (w *W) region(s *wstream, off, n *V, pos token.Pos) []*witem {
	end := vAdd(off, n)
	if n.k == vConst && n.c == 0 {
		return nil
	}
	i := 0
	cur := vInt(0)
	for i < len(s.items) && cur != off {
		if s.items[i].start != nil {
			cur = vAdd(s.items[i].start, s.items[i].size)
		}
		i++
	}
	// zero-size bad items at the front stay
	if cur != off {
		return []*witem{{op: "bad", why: fmt.Sprintf("a part of a buffer that does not start at a field: %s", off), size: n, pos: pos}}
	}
	var r []*witem
	for i < len(s.items) && cur != end {
		r = append(r, s.items[i])
		cur = vAdd(s.items[i].start, s.items[i].size)
		i++
	}
	if cur == end {
		return r
	}
	d := vSub(end, cur)
	if b := vBounds(d, nil); i == len(s.items) && b.hasL && b.lo >= 0 {
		return append(r, &witem{op: "pad", size: d, pos: pos})
	}
	return []*witem{{op: "bad", why: fmt.Sprintf("a part of a buffer that does not end at a field: %s (the buffer ends at %s)", end, s.end), size: n, pos: pos}}
}

func altItems(c *V, a, b []*witem, pos token.Pos) []*witem {
	if c.k == vConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if len(a) == 0 && len(b) == 0 {
		return nil
	}
	return []*witem{{op: "alt", cond: c, a: a, b: b, size: mkAlt(c, itemsSize(a), itemsSize(b)), pos: pos}}
}

func (w *W) readU(st *wst, v *V, width int, le bool, rid string, pos token.Pos) *V {
	if v.k == vAlt {
		return mkAlt(v.a[0], w.readU(st, v.a[1], width, le, rid+"a", pos), w.readU(st, v.a[2], width, le, rid+"b", pos))
	}
	if v.k == vSlice {
		if s := st.streams[v.s]; s != nil && s.input {
			op := "u"
			if le {
				op = "le"
			}
			at := vMk("rd", fmt.Sprintf("%s:%d", rid, width), true)
			if w.framed && width == 4 && v.a[0].k == vConst && v.a[0].c == 0 {
				at = vMk("frame", "", true)
			}
			it := w.put(st, v.s, v.a[0], &witem{op: op, w: width, v: at, size: vInt(int64(width)), pos: pos})
			return it.v
		} else if s != nil {
			for _, x := range s.items {
				if x.start == v.a[0] && x.op == "u" && x.w == width {
					return x.v
				}
			}
		}
	}
	return vUnknown("bytes of " + v.String())
}

func (w *W) readRaw(st *wst, v *V, pos token.Pos) *V {
	rid := v.a[0].String() + "+" + v.a[1].String()
	at := vMk("raw", rid, false, v.a[1])
	if v.a[1].k == vConst && v.a[1].c == 0 {
		return at
	}
	it := w.put(st, v.s, v.a[0], &witem{op: "raw", v: at, size: v.a[1], pos: pos})
	return it.v
}

func (w *W) length(st *wst, v *V) *V {
	switch v.k {
	case vNil:
		return vInt(0)
	case vStrC:
		return vInt(int64(len(v.s)))
	case vSlice:
		return v.a[1]
	case vAlt:
		return mkAlt(v.a[0], w.length(st, v.a[1]), w.length(st, v.a[2]))
	case vAtom:
		switch v.op {
		case "sym":
			return vMk("len", v.s, true)
		case "raw":
			return v.a[0]
		case "cat":
			r := vInt(0)
			for _, x := range v.a {
				r = vAdd(r, w.length(st, x))
			}
			return r
		case "append":
			return vAdd(w.length(st, v.a[0]), vInt(1))
		}
		return vMk("len", "", true, v)
	case vUnk:
		return v
	}
	return vUnknown("length of " + v.String())
}

// --- control flow ---

func (w *W) pdom(fn *ssa.Function) []int {
	if r := w.pdoms[fn]; r != nil {
		return r
	}
	n := len(fn.Blocks)
	// iterative post-dominators, exit = n; blocks that end in panic are ignored
	type set map[int]bool
	pd := make([]map[int]bool, n+1)
	pd[n] = set{n: true}
	ends := make([]bool, n)
	dead := make([]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				ends[i] = true
			default:
				dead[i] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if dead[i] {
				continue
			}
			var cur map[int]bool
			if ends[i] {
				cur = set{n: true}
			}
			for _, s := range fn.Blocks[i].Succs {
				x := pd[s.Index]
				if x == nil {
					continue
				}
				if cur == nil {
					cur = set{}
					for k := range x {
						cur[k] = true
					}
				} else {
					for k := range cur {
						if !x[k] {
							delete(cur, k)
						}
					}
				}
			}
			if cur == nil {
				continue
			}
			cur[i] = true
			if pd[i] == nil || len(pd[i]) != len(cur) {
				pd[i] = cur
				ch = true
			}
		}
	}
	r := make([]int, n)
	for i := range r {
		r[i] = -1
		best := -1
		for k := range pd[i] {
			if k == i {
				continue
			}
			// the immediate one is post-dominated by all the others
			if best == -1 || pd[k] != nil && len(pd[k]) > len(pd[best]) {
				best = k
			}
		}
		if best >= 0 && best < n {
			r[i] = best
		}
	}
	w.pdoms[fn] = r
	return r
}

type wloop struct {
	h      *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	exit   *ssa.BasicBlock // successor of the header outside of the loop
}

func (w *W) loops(fn *ssa.Function) map[*ssa.BasicBlock]*wloop {
	if r, ok := w.loopsM[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]*wloop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := r[s]
			if l == nil {
				l = &wloop{h: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				r[s] = l
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	for _, l := range r {
		for _, s := range l.h.Succs {
			if !l.blocks[s] {
				l.exit = s
			}
		}
	}
	w.loopsM[fn] = r
	return r
}

func (w *W) call(fn *ssa.Function, args []*V, bind []*V, st *wst, ctx string, depth int) (*V, *wst) {
	if depth > 30 {
		return vUnknown("recursion in " + fname(fn)), st
	}
	w.funcs[fn] = true
	w.frames++
	f := &wframe{w: w, fn: fn, env: map[ssa.Value]*V{}, ctx: ctx, id: w.frames, dep: depth}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.env[p] = bind[i]
		}
	}
	out := f.run(fn.Blocks[0], nil, st, nil, nil)
	if out.ret == nil {
		return nil, nil // never returns
	}
	return out.ret.v, out.ret.st
}

func (f *wframe) phis(b, prev *ssa.BasicBlock, st *wst) {
	st.pend = map[*ssa.Phi]*V{}
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		st.pend[ph] = f.val(ph.Edges[k])
	}
}

func (f *wframe) takePhis(st *wst) {
	for p, v := range st.pend {
		f.env[p] = v
	}
	st.pend = nil
}

// run evaluates from block b (coming from prev) until stop (or the end of the function if nil)
func (f *wframe) run(b, prev *ssa.BasicBlock, st *wst, stop *ssa.BasicBlock, in *wloop) wout {
	w := f.w
	var pendRet *wret
	first := true
	for {
		w.steps++
		if w.steps > 3000000 {
			w.note("step limit")
			return wout{ret: pendRet}
		}
		if prev != nil {
			f.phis(b, prev, st)
		}
		if b == stop && !first {
			return wout{fall: st, ret: pendRet}
		}
		if b == stop && first && prev != nil {
			return wout{fall: st, ret: pendRet}
		}
		if in != nil && !in.blocks[b] {
			// leaving the loop from inside its body
			if b == in.exit {
				for _, s := range st.streams {
					w.bad(s, "the loop can be left early", f.fn.Pos())
				}
				return wout{ret: pendRet}
			}
			f.takePhis(st)
			o := f.runFrom(b, st, nil, nil)
			return wout{ret: f.joinRet(pendRet, o.ret)}
		}
		if l := w.loops(f.fn)[b]; l != nil && (in == nil || l != in) {
			nb, nst, ret := f.loop(l, st, in)
			if ret != nil {
				pendRet = f.joinRet(pendRet, ret)
			}
			if nst == nil {
				return wout{ret: pendRet}
			}
			prev, b, st = b, nb, nst
			first = false
			continue
		}
		f.takePhis(st)
		o := f.block(b, st, stop, in)
		first = false
		if o.done {
			o.out.ret = f.joinRet(pendRet, o.out.ret)
			return o.out
		}
		if o.out.ret != nil {
			pendRet = f.joinRet(pendRet, o.out.ret)
		}
		st = o.st
		prev, b = o.prev, o.next
		if prev == nil { // joined: phis are pending already
			if b == stop {
				return wout{fall: st, ret: pendRet}
			}
			// continue with pending phis
			o2 := f.runPending(b, st, stop, in)
			o2.ret = f.joinRet(pendRet, o2.ret)
			return o2
		}
	}
}

func (f *wframe) runFrom(b *ssa.BasicBlock, st *wst, stop *ssa.BasicBlock, in *wloop) wout {
	return f.run(b, nil, st, stop, in)
}

func (f *wframe) runPending(b *ssa.BasicBlock, st *wst, stop *ssa.BasicBlock, in *wloop) wout {
	if l := f.w.loops(f.fn)[b]; l != nil && l != in {
		nb, nst, ret := f.loop(l, st, in)
		if nst == nil {
			return wout{ret: ret}
		}
		o := f.run(nb, b, nst, stop, in)
		o.ret = f.joinRet(ret, o.ret)
		return o
	}
	f.takePhis(st)
	return f.run(b, nil, st, stop, in)
}

func (f *wframe) joinRet(a, b *wret) *wret {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	// a: an early return kept apart; only error returns may be dropped
	ea, eb := f.w.errNonNil(f.fn, a.v, a.st.facts), f.w.errNonNil(f.fn, b.v, b.st.facts)
	switch {
	case ea:
		f.w.rejects = append(f.w.rejects, orTrue(a.cond))
		return b
	case eb:
		f.w.rejects = append(f.w.rejects, orTrue(b.cond))
		return a
	}
	f.w.note("%s: return from inside a loop", fname(f.fn))
	for _, s := range b.st.streams {
		f.w.bad(s, "return from inside a loop in "+fname(f.fn), f.fn.Pos())
	}
	return b
}

func orTrue(c *V) *V {
	if c == nil {
		return vBool(true)
	}
	return c
}

// errNonNil: the returned value includes an error that is certainly not nil
func (w *W) errNonNil(fn *ssa.Function, v *V, facts wenv) bool {
	rs := fn.Signature.Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
		return false
	}
	e := v
	if rs.Len() > 1 {
		if v.k != vTuple {
			return false
		}
		e = v.a[len(v.a)-1]
	}
	budget := 300
	return neverTrue(vIsNil(e), facts, wenv{}, &budget)
}

// neverTrue: condition c is false in every case that agrees with the facts
func neverTrue(c *V, facts, env wenv, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	for k, f := range facts {
		if f.val == nil {
			continue
		}
		if v := vSubst(k, env, map[*V]*V{}); v.k == vConst && v.c != f.val.c {
			return true // cannot be
		}
	}
	v := vSubst(c, env, map[*V]*V{})
	if f, ok := facts[v]; ok && f.val != nil {
		v = f.val
	}
	if v.k == vConst {
		return v.c == 0
	}
	if v.k == vUnk {
		return false
	}
	x := firstCond(v)
	if x.k != vAtom {
		return false
	}
	if f, ok := facts[x]; ok && f.val != nil {
		return neverTrue(c, facts, env.with(x, f), budget)
	}
	if env[x].val != nil {
		return false
	}
	return neverTrue(c, facts, env.with(x, fact{val: vBool(true)}), budget) && neverTrue(c, facts, env.with(x, fact{val: vBool(false)}), budget)
}

type blockOut struct {
	done       bool
	out        wout
	st         *wst
	prev, next *ssa.BasicBlock
}

func (f *wframe) block(b *ssa.BasicBlock, st *wst, stop *ssa.BasicBlock, in *wloop) blockOut {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := vSubst(f.val(x.Cond), st.facts, map[*V]*V{})
			if c.k == vConst {
				i := 0
				if c.c == 0 {
					i = 1
				}
				return blockOut{st: st, prev: b, next: b.Succs[i]}
			}
			return f.branch(b, c, st, stop, in)
		case *ssa.Jump:
			return blockOut{st: st, prev: b, next: b.Succs[0]}
		case *ssa.Return:
			var v *V
			switch len(x.Results) {
			case 0:
				v = vTup()
			case 1:
				v = f.val(x.Results[0])
			default:
				as := make([]*V, len(x.Results))
				for i, r := range x.Results {
					as[i] = f.val(r)
				}
				v = vTup(as...)
			}
			return blockOut{done: true, out: wout{ret: &wret{v: v, st: st}}}
		case *ssa.Panic:
			return blockOut{done: true}
		default:
			var ok bool
			if st, ok = f.instr(ins, st); !ok {
				return blockOut{done: true}
			}
		}
	}
	return blockOut{done: true}
}

func (f *wframe) branch(b *ssa.BasicBlock, c *V, st *wst, stop *ssa.BasicBlock, in *wloop) blockOut {
	w := f.w
	var j *ssa.BasicBlock
	if k := w.pdom(f.fn)[b.Index]; k >= 0 {
		j = f.fn.Blocks[k]
	}
	if in != nil && (j == nil || !in.blocks[j] || j == in.h) {
		j = stop
	}
	if j == nil {
		j = stop
	}
	t, e := 0, 1
	if c.k == vAtom && c.op == "not" {
		c, t, e = c.a[0], 1, 0
	}
	sT, sE := st.copy(), st.copy()
	f.assume(sT, c, true)
	oT := f.run(b.Succs[t], b, sT, j, in)
	f.assume(sE, c, false)
	oE := f.run(b.Succs[e], b, sE, j, in)
	var ret *wret
	switch {
	case oT.ret != nil && oE.ret != nil:
		ret = &wret{v: mkAlt(c, oT.ret.v, oE.ret.v), st: f.merge(c, st, oT.ret.st, oE.ret.st)}
		if j != nil {
			ret.cond = mkAlt(c, orTrue(oT.ret.cond), orTrue(oE.ret.cond))
		}
	case oT.ret != nil:
		ret = oT.ret
		if j != nil {
			ret = &wret{v: ret.v, st: ret.st, cond: vAndC(c, orTrue(ret.cond))}
		}
	case oE.ret != nil:
		ret = oE.ret
		if j != nil {
			ret = &wret{v: ret.v, st: ret.st, cond: vAndC(vNot(c), orTrue(ret.cond))}
		}
	}
	var fall *wst
	switch {
	case oT.fall != nil && oE.fall != nil:
		fall = f.merge(c, st, oT.fall, oE.fall)
	case oT.fall != nil:
		fall = oT.fall
		if oE.ret == nil {
			w.rejects = append(w.rejects, vNot(c)) // the other arm panics
		}
	case oE.fall != nil:
		fall = oE.fall
		if oT.ret == nil {
			w.rejects = append(w.rejects, c)
		}
	}
	if fall == nil || j == stop {
		return blockOut{done: true, out: wout{fall: fall, ret: ret}}
	}
	return blockOut{st: fall, prev: nil, next: j, out: wout{ret: ret}}
}

func vAndC(a, b *V) *V { return mkAlt(a, b, vBool(false)) }

// assume simplifies the values known in st by the branch taken
func (f *wframe) assume(st *wst, c *V, val bool) {
	st.facts = st.facts.with(c, fact{val: vBool(val)})
	for k, v := range st.mem {
		if v.k == vAlt || v.k == vLin {
			st.mem[k] = vAssume(v, c, val)
		}
	}
	for k, v := range f.env {
		if v != nil && vContains(v, c) {
			// only values computed before the branch can be here; they are re-read after the join through phis or
			// directly, and alt normalisation removes the nesting again
			_ = k
		}
	}
}

func (f *wframe) merge(c *V, base, a, b *wst) *wst {
	w := f.w
	n := newWst()
	n.facts = base.facts
	for k, va := range a.mem {
		vb, ok := b.mem[k]
		if !ok {
			// a cell of an object that only one arm touched
			if f.rootKnown(k, b) {
				vb = w.dflt(k, va)
			} else {
				vb = va
			}
		}
		n.mem[k] = mkAlt(c, va, vb)
	}
	for k, vb := range b.mem {
		if _, ok := a.mem[k]; ok {
			continue
		}
		va := vb
		if f.rootKnown(k, a) {
			va = w.dflt(k, vb)
		}
		n.mem[k] = mkAlt(c, va, vb)
	}
	for id, sa := range a.streams {
		sb := b.streams[id]
		if sb == nil {
			n.streams[id] = sa
			continue
		}
		k := 0
		for k < len(sa.items) && k < len(sb.items) && sa.items[k] == sb.items[k] {
			k++
		}
		s := &wstream{input: sa.input, size: sa.size, end: sa.end, items: sa.items[:k:k]}
		if sa.size != sb.size && (sa.size == nil || sb.size == nil) {
			s.size = nil
		} else if sa.size != nil {
			s.size = mkAlt(c, sa.size, sb.size)
		}
		if k < len(sa.items) || k < len(sb.items) {
			it := altItems(c, sa.items[k:], sb.items[k:], token.NoPos)[0]
			st := vInt(0)
			if k > 0 {
				st = vAdd(sa.items[k-1].start, sa.items[k-1].size)
			} else if len(sa.items) > 0 {
				st = sa.items[0].start
			} else {
				st = sb.items[0].start
			}
			it.start = st
			s.end = mkAlt(c, sa.end, sb.end)
			it.size = vSub(s.end, st)
			s.items = append(s.items, it)
		}
		n.streams[id] = s
	}
	for id, sb := range b.streams {
		if a.streams[id] == nil {
			n.streams[id] = sb
		}
	}
	if a.pend != nil {
		n.pend = map[*ssa.Phi]*V{}
		for p, va := range a.pend {
			vb := b.pend[p]
			if vb == nil {
				vb = va
			}
			n.pend[p] = mkAlt(c, va, vb)
		}
	}
	n.defers = a.defers
	if len(b.defers) > len(a.defers) {
		n.defers = b.defers
	}
	return n
}

// rootKnown: the object of cell k exists in st (so that a missing cell has its default value there)
func (f *wframe) rootKnown(k string, st *wst) bool {
	if symRoot(k) {
		return true
	}
	r := k
	if i := strings.IndexAny(k, ".[^"); i >= 0 {
		r = k[:i]
	}
	_, ok := st.mem["!"+r]
	return ok
}

func (w *W) dflt(k string, like *V) *V {
	if symRoot(k) {
		return vIntern(&V{k: vAtom, op: "sym", s: k, num: like.num})
	}
	switch {
	case like.k == vConst && like.op == "b":
		return vBool(false)
	case like.num:
		return vInt(0)
	case like.k == vStrC || like.k == vAtom && (like.op == "raw" || like.op == "cat"):
		return vIntern(&V{k: vAtom, op: "zero"})
	case like.k == vPtr, like.k == vSlice, like.k == vIface, like.k == vNil:
		return vNilV
	case like.k == vAlt:
		return w.dflt(k, like.a[1])
	case like.k == vAtom && (like.op == "lt0" || like.op == "eq0" || like.op == "not"):
		return vBool(false)
	}
	return vUnknown("default of " + k)
}

// --- loops ---

func (f *wframe) loop(l *wloop, st *wst, outer *wloop) (*ssa.BasicBlock, *wst, *wret) {
	w := f.w
	h := l.h
	inits := map[*ssa.Phi]*V{}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		inits[p] = st.pend[p]
		if inits[p] == nil {
			inits[p] = f.env[p]
		}
	}
	st.pend = nil
	uid := f.ctx + "/L" + strconv.Itoa(h.Index)
	lid := w.ctxOf(uid)

	type hyp struct {
		kind   string // atom, inv, stream, slice
		stream string
	}
	ph := map[*ssa.Phi]hyp{}
	cells := map[string]hyp{}
	cellInit := map[string]*V{}
	touched := map[string]bool{}
	for _, p := range phis {
		ph[p] = hyp{kind: "atom"}
		if iv := inits[p]; iv != nil && iv.k == vSlice && st.streams[iv.s] != nil {
			ph[p] = hyp{kind: "slice", stream: iv.s}
		}
	}
	atomOf := func(name string, init *V) *V {
		return vIntern(&V{k: vAtom, op: "phi", s: lid + ":" + name, num: init != nil && init.isNum()})
	}
	endAtom := func(id string) *V { return vMk("end", lid+":"+id, true) }

	var idx, bound, induct *V
	var inductPhi *ssa.Phi
	var inductOff *V
	var idxName string
	cont := 0 // successor index that stays in the loop
	for i, s := range h.Succs {
		if l.blocks[s] {
			cont = i
		}
	}

	for pass := 0; pass < 12; pass++ {
		bs := st.copy()
		for id := range touched {
			s := bs.streams[id]
			if s == nil {
				continue
			}
			bs.streams[id] = &wstream{size: s.size, end: endAtom(id), input: s.input}
		}
		hv := func(name string, init *V, y hyp) *V {
			switch y.kind {
			case "inv":
				return init
			case "stream":
				if touched[y.stream] {
					return vAdd(endAtom(y.stream), vSub(init, st.streams[y.stream].end))
				}
				return atomOf(name, init)
			case "slice":
				if touched[y.stream] && !st.streams[y.stream].input {
					E := st.streams[y.stream].end
					return vSl(init.s, init.a[0], vAdd(vSub(endAtom(y.stream), E), init.a[1]), false)
				}
				return init
			}
			return atomOf(name, init)
		}
		for _, p := range phis {
			f.env[p] = hv(p.Name(), inits[p], ph[p])
		}
		for loc, y := range cells {
			bs.mem[loc] = hv("m"+loc, cellInit[loc], y)
		}
		// the header
		idx, bound, induct, inductPhi, inductOff = nil, nil, nil, nil, nil
		var cond *V
		var mapNext *ssa.Next
		bad := ""
		for _, ins := range h.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				cond = f.val(x.Cond)
				continue
			case *ssa.Jump:
				continue
			case *ssa.Next:
				mapNext = x
			}
			var ok bool
			if bs, ok = f.instr(ins, bs); !ok {
				bad = "header"
				break
			}
		}
		if bad != "" {
			return nil, nil, nil
		}
		if mapNext != nil {
			coll := f.env[mapNext.Iter]
			bound = vUnknown("range")
			if coll != nil && coll.k == vAtom && coll.op == "range" {
				bound = w.length(bs, coll.a[0])
			}
		} else if cond != nil {
			c := cond
			pos := cont == 0
			if c.k == vAtom && c.op == "not" {
				c, pos = c.a[0], !pos
			}
			if c.k == vConst && (c.c != 0) != pos {
				// zero iterations
				return l.exit, f.exitHeader(l, st, phis, inits, nil, cont), nil
			}
			if c.k == vAtom && (c.op == "lt0" && pos || c.op == "eq0" && !pos) {
				d := c.a[0]
				_, as, ks := linParts(d)
				for i, a := range as {
					if a.op != "phi" && !(a.op == "idx") || c.op == "lt0" && ks[i] != 1 {
						continue
					}
					if c.op == "eq0" && ks[i] == -1 {
						d = vMulC(d, -1)
					}
					for _, p := range phis {
						if f.env[p] == a {
							induct, inductPhi = a, p
							b := vSub(a, d) // a + k < b  <=>  a - (a-d) < 0
							if vAny(b, func(x *V) bool { return x.op == "phi" && strings.HasPrefix(x.s, lid+":") }) {
								induct, inductPhi = nil, nil
								continue
							}
							inductOff = inits[p] // start value
							// number of iterations
							bound = vSub(b, inits[p])
						}
					}
				}
			}
		}
		if bound == nil || bound.k == vUnk {
			why := "?"
			if cond != nil {
				why = cond.String()
			}
			bound = vMk("while", lid+":"+why, true)
		}
		if bound.k == vConst && bound.c <= 0 {
			return l.exit, f.exitHeader(l, st, phis, inits, nil, cont), nil
		}
		idxName = bound.String()
		for w.active[idxName] > 0 {
			idxName += "'"
		}
		idx = vMk("idx", idxName, true)
		if induct != nil {
			f.env[inductPhi] = vAdd(idx, inductOff)
		}
		w.active[idxName]++
		// run the header again with the loop variable in place, then the body
		bs = st.copy()
		for id := range touched {
			s := bs.streams[id]
			if s == nil {
				continue
			}
			bs.streams[id] = &wstream{size: s.size, end: endAtom(id), input: s.input}
		}
		for loc, y := range cells {
			bs.mem[loc] = hv("m"+loc, cellInit[loc], y)
		}
		for _, ins := range h.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.If, *ssa.Jump:
				continue
			case *ssa.Next:
				f.next(x, idx, bs)
				continue
			}
			bs, _ = f.instr(ins, bs)
		}
		entryMem := map[string]*V{}
		for k, v := range bs.mem {
			entryMem[k] = v
		}
		entryStreams := map[string]*wstream{}
		for k, v := range bs.streams {
			c := *v
			entryStreams[k] = &c
		}
		for k := range w.phiBase {
			if strings.HasPrefix(k.s, lid+":") {
				delete(w.phiBase, k)
			}
		}
		nrej := len(w.rejects)
		var o wout
		if l.blocks[h.Succs[cont]] && h.Succs[cont] != h {
			o = f.run(h.Succs[cont], h, bs, h, l)
		} else {
			f.phis(h, h, bs)
			o = wout{fall: bs}
		}
		w.active[idxName]--
		if o.fall == nil {
			// the body never completes: at most one iteration
			if o.ret != nil {
				w.note("%s: loop body always returns", fname(f.fn))
			}
			return nil, nil, o.ret
		}
		ns := o.fall
		redo := false
		// streams
		for id, s := range ns.streams {
			es := entryStreams[id]
			if es == nil || touched[id] {
				continue
			}
			if len(s.items) != len(es.items) || s.end != es.end {
				touched[id] = true
				redo = true
			}
		}
		// cells
		for k, v := range ns.mem {
			ev, ok := entryMem[k]
			if ok && ev == v {
				continue
			}
			if strings.Contains(k, "["+idx.String()) || strings.HasPrefix(k, "!") {
				continue
			}
			if !ok {
				if !f.rootKnown(k, st) {
					continue // allocated in the body
				}
				ev = w.dflt(k, v)
				if symRoot(k) {
					ev = vIntern(&V{k: vAtom, op: "sym", s: k, num: v.num})
				}
			} else if !f.rootKnown(k, st) {
				continue
			}
			if _, ok := cells[k]; !ok {
				cells[k] = hyp{kind: "atom"}
				if i0, ok := st.mem[k]; ok {
					cellInit[k] = i0
				} else {
					cellInit[k] = ev
				}
				if iv := cellInit[k]; iv.k == vSlice && st.streams[iv.s] != nil {
					cells[k] = hyp{kind: "slice", stream: iv.s}
				}
				redo = true
			}
		}
		// offsets
		for a, id := range w.phiBase {
			if !strings.HasPrefix(a.s, lid+":") {
				continue
			}
			for _, p := range phis {
				if p != inductPhi && ph[p].kind == "atom" && a == atomOf(p.Name(), inits[p]) && touched[id] && st.streams[id] != nil {
					ph[p] = hyp{kind: "stream", stream: id}
					redo = true
				}
			}
			for loc, y := range cells {
				if y.kind == "atom" && a == atomOf("m"+loc, cellInit[loc]) && touched[id] && st.streams[id] != nil {
					cells[loc] = hyp{kind: "stream", stream: id}
					redo = true
				}
			}
		}
		// unchanged phis
		newOf := func(p *ssa.Phi) *V { return ns.pend[p] }
		if !redo {
			for _, p := range phis {
				if ph[p].kind == "atom" && p != inductPhi && newOf(p) == atomOf(p.Name(), inits[p]) {
					ph[p] = hyp{kind: "inv"}
					redo = true
				}
				if ph[p].kind == "slice" && newOf(p) != nil && (newOf(p).k != vSlice || newOf(p).s != inits[p].s) {
					ph[p] = hyp{kind: "atom"}
					redo = true
				}
			}
		}
		if redo {
			w.rejects = w.rejects[:nrej]
			if pass == 11 {
				w.note("%s: loop does not stabilise", fname(f.fn))
			}
			continue
		}
		// classification
		isPhi := func(x *V) bool { return x.op == "phi" && strings.HasPrefix(x.s, lid+":") }
		gap := func(id string, n, init *V) {
			// the cursor may have been moved past the last item
			s := ns.streams[id]
			want := vAdd(s.end, vSub(init, st.streams[id].end))
			d := vSub(n, want)
			if d.k == vConst && d.c == 0 {
				return
			}
			if b := vBounds(d, nil); b.hasL && b.lo >= 0 {
				s.items = append(s.items, &witem{op: "pad", start: s.end, size: d, pos: h.Instrs[0].Pos()})
				s.end = vAdd(s.end, d)
				return
			}
			w.bad(s, fmt.Sprintf("the offset after an iteration is %s, but the items end at %s", n, s.end), f.fn.Pos())
		}
		exit := map[*ssa.Phi]*V{}
		final := func(name string, init, n *V, y hyp) *V {
			switch y.kind {
			case "inv":
				return init
			case "stream":
				return nil // below
			case "slice":
				return nil
			}
			if n == nil {
				return vUnknown("carried " + name)
			}
			a := atomOf(name, init)
			if n == a {
				return init
			}
			if a.isNum() && n.isNum() {
				d := vSub(n, a)
				if d.k != vUnk && !vAny(d, isPhi) {
					return vAdd(init, vSum(idx, bound, d))
				}
			}
			if n.k == vAtom && n.op == "append" && n.a[0] == a && (init.k == vNil || init.k == vSlice && init.a[1] == vInt(0)) && !vAny(n.a[1], isPhi) {
				loc := "al" + lid + w.ctxOf(name)
				ns.mem["!"+loc] = vBool(true)
				ns.mem[loc+"["+idx.String()+"]"] = n.a[1]
				return vSl(loc, vInt(0), bound, false)
			}
			if !vAny(n, isPhi) {
				return vIntern(&V{k: vAtom, op: "last", s: lid, a: []*V{n, init}, num: n.num})
			}
			return vUnknown("loop-carried " + name)
		}
		for _, p := range phis {
			if ph[p].kind == "stream" && ns.streams[ph[p].stream] != nil {
				gap(ph[p].stream, newOf(p), inits[p])
			}
		}
		for loc, y := range cells {
			if y.kind == "stream" && ns.streams[y.stream] != nil {
				gap(y.stream, ns.mem[loc], cellInit[loc])
			}
		}
		xs := st.copy()
		// element cells and objects allocated in the body stay
		for k, v := range ns.mem {
			if _, ok := cells[k]; ok {
				continue
			}
			xs.mem[k] = v
		}
		for id, s := range ns.streams {
			if st.streams[id] == nil {
				xs.streams[id] = s
				continue
			}
			if !touched[id] {
				continue
			}
			E := st.streams[id].end
			size := vSum(idx, bound, vSub(s.end, endAtom(id)))
			it := &witem{op: "rep", idx: idx, bound: bound, a: s.items, start: E, size: size, pos: h.Instrs[0].Pos()}
			if !it.pos.IsValid() {
				it.pos = f.fn.Pos()
			}
			ss := xs.streams[id]
			ss.size = s.size
			ss.items = append(ss.items, it)
			ss.end = vAdd(E, size)
		}
		for _, p := range phis {
			switch {
			case p == inductPhi:
				if d := vSub(newOf(p), vAdd(idx, inductOff)); d != vInt(1) {
					w.note("%s: loop variable does not advance by one", fname(f.fn))
					for id := range touched {
						if s := xs.streams[id]; s != nil {
							w.bad(s, fmt.Sprintf("the loop variable does not advance by one but by %s", d), f.fn.Pos())
						}
					}
				}
				exit[p] = vAdd(bound, inductOff)
			case ph[p].kind == "stream":
				exit[p] = vAdd(xs.streams[ph[p].stream].end, vSub(inits[p], st.streams[ph[p].stream].end))
			case ph[p].kind == "slice":
				exit[p] = f.sliceExit(inits[p], newOf(p), st, xs, ns, ph[p].stream, endAtom(ph[p].stream), touched[ph[p].stream])
			default:
				exit[p] = final(p.Name(), inits[p], newOf(p), ph[p])
			}
		}
		for loc, y := range cells {
			switch y.kind {
			case "stream":
				xs.mem[loc] = vAdd(xs.streams[y.stream].end, vSub(cellInit[loc], st.streams[y.stream].end))
			case "slice":
				xs.mem[loc] = f.sliceExit(cellInit[loc], ns.mem[loc], st, xs, ns, y.stream, endAtom(y.stream), touched[y.stream])
			default:
				xs.mem[loc] = final("m"+loc, cellInit[loc], ns.mem[loc], y)
			}
		}
		for k, v := range ns.mem { // lists built by final()
			if strings.HasPrefix(k, "al"+lid) || strings.HasPrefix(k, "!al"+lid) {
				xs.mem[k] = v
			}
		}
		if l.exit == nil {
			w.note("%s: loop without exit condition", fname(f.fn))
			return nil, nil, o.ret
		}
		return l.exit, f.exitHeader(l, xs, phis, exit, mapNext, cont), o.ret
	}
	for _, s := range st.streams {
		w.bad(s, "a loop that cannot be summarised in "+fname(f.fn), f.fn.Pos())
	}
	return l.exit, f.exitHeader(l, st, phis, inits, nil, cont), nil
}

func (f *wframe) sliceExit(init, n *V, st, xs, ns *wst, id string, end *V, touched bool) *V {
	if n == nil || n.k != vSlice || n.s != id {
		return vUnknown("slice carried by a loop")
	}
	if !touched {
		return init
	}
	if n.a[0] != init.a[0] {
		return vUnknown("slice moved by a loop")
	}
	// length in terms of the end of the stream
	if vAdd(n.a[0], n.a[1]) == ns.streams[id].end && vAdd(init.a[0], init.a[1]) == st.streams[id].end {
		return vSl(id, init.a[0], vSub(xs.streams[id].end, init.a[0]), false)
	}
	if n.a[1] == vAdd(vSub(end, st.streams[id].end), init.a[1]) {
		return init
	}
	return vUnknown("slice resized by a loop")
}

// exitHeader evaluates the header once more, when the loop ends
func (f *wframe) exitHeader(l *wloop, st *wst, phis []*ssa.Phi, vals map[*ssa.Phi]*V, mn *ssa.Next, cont int) *wst {
	for _, p := range phis {
		f.env[p] = vals[p]
	}
	for _, ins := range l.h.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump:
			continue
		case *ssa.Next:
			f.env[x] = vTup(vBool(false), vUnknown("key after range"), vUnknown("value after range"))
			continue
		}
		st, _ = f.instr(ins, st)
	}
	return st
}

func (f *wframe) next(x *ssa.Next, idx *V, st *wst) {
	it := f.env[x.Iter]
	tup := x.Type().(*types.Tuple)
	if it == nil || it.k != vAtom || it.op != "range" {
		f.env[x] = vTup(vBool(true), vUnknown("range key"), vUnknown("range value"))
		return
	}
	m := it.a[0]
	if m.k == vAtom && m.op == "sym" {
		base := m.s + "[" + idx.String() + "]"
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		k, v := vUnknown("key"), vUnknown("value")
		if b, ok := kt.(*types.Basic); !ok || b.Kind() != types.Invalid {
			k = f.w.load(st, base+"#k", kt)
		}
		if b, ok := vt.(*types.Basic); !ok || b.Kind() != types.Invalid {
			v = f.w.load(st, base, vt)
		}
		f.env[x] = vTup(vBool(true), k, v)
		return
	}
	f.env[x] = vTup(vBool(true), vUnknown("range key"), vUnknown("range value"))
}

// --- values ---

func (f *wframe) val(v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		return constV(x)
	case *ssa.Function:
		return vIntern(&V{k: vClosure, fn: x})
	case *ssa.Global:
		return vPtrTo("g:" + x.Name())
	case *ssa.Builtin:
		return vIntern(&V{k: vAtom, op: "builtin", s: x.Name()})
	}
	if r := f.env[v]; r != nil {
		return r
	}
	return vUnknown("value " + v.Name() + " of " + fname(f.fn))
}

func constV(x *ssa.Const) *V {
	if x.Value == nil {
		return zeroV(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return vBool(constant.BoolVal(x.Value))
	case constant.String:
		return vStrConst(constant.StringVal(x.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(x.Value); ok {
			return vInt(n)
		}
		if n, ok := constant.Uint64Val(x.Value); ok {
			return vInt(int64(n))
		}
	}
	return vUnknown("constant " + x.String())
}

func intWidth(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// convInt converts an integer value to type t
// narrowVar, if set, collects the fewest bits each varint read is converted to
var narrowVar map[*V]int

func convInt(v *V, t types.Type) *V {
	bits, signed := intWidth(t)
	if bits == 0 {
		return v
	}
	switch v.k {
	case vConst:
		n := v.c
		if bits < 64 {
			n &= 1<<uint(bits) - 1
			if signed && n&(1<<uint(bits-1)) != 0 {
				n -= 1 << uint(bits)
			}
		}
		return vInt(n)
	case vAlt:
		return mkAlt(v.a[0], convInt(v.a[1], t), convInt(v.a[2], t))
	case vAtom:
		if v.op == "rd" || v.op == "srd" {
			i := strings.LastIndexByte(v.s, ':')
			wd := map[string]int{"1": 8, "2": 16, "4": 32, "8": 64}[v.s[i+1:]]
			if wd == 0 { // varint
				if o, ok := narrowVar[v]; narrowVar != nil && bits < 64 && (!ok || bits < o) {
					narrowVar[v] = bits
				}
				return v
			}
			switch {
			case bits < wd:
				return vMk("trunc", strconv.Itoa(bits), true, v)
			case bits == wd && signed:
				return vMk("srd", v.s, true)
			case bits == wd:
				return vMk("rd", v.s, true)
			}
			return v
		}
	}
	return v
}

func (f *wframe) instr(ins ssa.Instruction, st *wst) (*wst, bool) {
	w := f.w
	set := func(v ssa.Value, x *V) { f.env[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef, *ssa.Go, *ssa.Send:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		loc := "a" + w.ctxOf(f.ctx+"/"+fmt.Sprintf("%p", x))
		w.clear(st, loc)
		st.mem["!"+loc] = vBool(true)
		if isBuffer(t) {
			st.streams[loc] = &wstream{end: vInt(0)}
		} else if a, ok := t.Underlying().(*types.Array); ok && isByteArr(t) {
			st.streams[loc] = &wstream{end: vInt(0), size: vInt(a.Len())}
		}
		set(x, vPtrTo(loc))
	case *ssa.MakeSlice:
		loc := "s" + w.ctxOf(f.ctx+"/"+fmt.Sprintf("%p", x))
		w.clear(st, loc)
		st.mem["!"+loc] = vBool(true)
		n := f.val(x.Len)
		if isByteArr(x.Type()) {
			st.streams[loc] = &wstream{end: vInt(0), size: n}
		}
		set(x, vSl(loc, vInt(0), n, false))
	case *ssa.MakeMap:
		set(x, vIntern(&V{k: vMap, s: w.ctxOf(f.ctx + "/" + fmt.Sprintf("%p", x))}))
	case *ssa.MakeChan:
		set(x, vUnknown("chan"))
	case *ssa.MapUpdate:
		if mv := f.val(x.Map); mv.k == vMap {
			k := w.settle(st, f.val(x.Key))
			loc := "m" + mv.s + "{" + k.String() + "}"
			w.mapKeys[loc] = k
			st.mem[loc] = w.settle(st, f.val(x.Value))
		}
	case *ssa.Store:
		f.storeTo(st, f.val(x.Addr), f.val(x.Val), x.Val.Type(), x.Pos())
	case *ssa.UnOp:
		a := f.val(x.X)
		switch x.Op {
		case token.MUL:
			set(x, f.loadFrom(st, a, x.Type(), x, x.X))
		case token.SUB:
			set(x, vMulC(a, -1))
		case token.NOT:
			set(x, vNot(a))
		default:
			set(x, vIntern(&V{k: vAtom, op: "un" + x.Op.String(), a: []*V{a}, num: isNumT(x.Type())}))
		}
	case *ssa.BinOp:
		set(x, f.binop(x.Op, f.val(x.X), f.val(x.Y), x.Type(), x.X.Type()))
	case *ssa.ChangeType:
		set(x, f.val(x.X))
	case *ssa.ChangeInterface:
		set(x, f.val(x.X))
	case *ssa.Convert:
		set(x, f.convert(st, f.val(x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MultiConvert:
		set(x, f.convert(st, f.val(x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MakeInterface:
		set(x, vIntern(&V{k: vIface, t: x.X.Type(), a: []*V{f.val(x.X)}}))
	case *ssa.TypeAssert:
		set(x, f.typeAssert(f.val(x.X), x))
	case *ssa.Extract:
		set(x, tupAt(f.val(x.Tuple), x.Index))
	case *ssa.FieldAddr:
		p := f.val(x.X)
		u := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(x, mapPtr(p, func(q *V) *V {
			if q.k == vPtr {
				return vPtrTo(q.s + "." + u.Field(x.Field).Name())
			}
			return vUnknown("field of " + q.String())
		}))
	case *ssa.Field:
		u := x.X.Type().Underlying().(*types.Struct)
		set(x, w.field(st, f.val(x.X), x.Field, u))
	case *ssa.IndexAddr:
		set(x, f.indexAddr(st, f.val(x.X), f.val(x.Index)))
	case *ssa.Index:
		set(x, f.index(st, f.val(x.X), f.val(x.Index), x))
	case *ssa.Lookup:
		set(x, f.lookup(st, f.val(x.X), f.val(x.Index), x))
	case *ssa.Slice:
		set(x, f.slice(st, x))
	case *ssa.SliceToArrayPointer:
		set(x, vUnknown("array pointer"))
	case *ssa.MakeClosure:
		as := make([]*V, len(x.Bindings))
		for i, b := range x.Bindings {
			as[i] = f.val(b)
		}
		set(x, vIntern(&V{k: vClosure, fn: x.Fn.(*ssa.Function), a: as}))
	case *ssa.Range:
		set(x, vIntern(&V{k: vAtom, op: "range", a: []*V{f.val(x.X)}}))
	case *ssa.Next:
		f.next(x, vMk("idx", "?", true), st)
	case *ssa.Defer:
		var as []*V
		for _, a := range x.Call.Args {
			as = append(as, f.val(a))
		}
		var fv *V
		if !x.Call.IsInvoke() {
			fv = f.val(x.Call.Value)
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], wdefer{f.id, x, as, fv})
	case *ssa.RunDefers:
		for len(st.defers) > 0 && st.defers[len(st.defers)-1].fr == f.id {
			d := st.defers[len(st.defers)-1]
			st.defers = st.defers[:len(st.defers)-1]
			if d.fn != nil && d.fn.k == vClosure && w.p.inModule(d.fn.fn) && d.fn.fn.Blocks != nil {
				_, n := w.call(d.fn.fn, d.args, d.fn.a, st, f.ctx+"/d"+fmt.Sprintf("%p", d.call), f.dep+1)
				if n == nil {
					return st, false
				}
				st = n
			}
		}
	case *ssa.Call:
		v, n := f.doCall(x, &x.Call, st)
		if n == nil {
			return st, false
		}
		st = n
		set(x, v)
	case *ssa.Select:
		set(x, vUnknown("select"))
	default:
		if v, ok := ins.(ssa.Value); ok {
			set(v, vUnknown(fmt.Sprintf("%T", ins)))
		}
	}
	return st, true
}

func tupAt(v *V, i int) *V {
	switch v.k {
	case vTuple:
		if i < len(v.a) {
			return v.a[i]
		}
	case vAlt:
		return mkAlt(v.a[0], tupAt(v.a[1], i), tupAt(v.a[2], i))
	}
	if v.k == vUnk {
		return v
	}
	return vUnknown("component of " + v.String())
}

func mapPtr(p *V, g func(*V) *V) *V {
	if p.k == vAlt {
		return mkAlt(p.a[0], mapPtr(p.a[1], g), mapPtr(p.a[2], g))
	}
	return g(p)
}

func (f *wframe) storeTo(st *wst, p, v *V, t types.Type, pos token.Pos) {
	w := f.w
	switch p.k {
	case vPtr:
		if strings.HasPrefix(p.s, "g:") {
			return
		}
		w.store(st, p.s, v, t)
	case vSPtr:
		w.put(st, p.s, p.a[0], &witem{op: "u", w: 1, v: v, size: vInt(1), pos: pos})
	case vAlt:
		// weak update on both targets
		c := p.a[0]
		for i, q := range []*V{p.a[1], p.a[2]} {
			if q.k == vPtr {
				old := w.load(st, q.s, t)
				if i == 0 {
					w.store(st, q.s, mkAlt(c, v, old), t)
				} else {
					w.store(st, q.s, mkAlt(c, old, v), t)
				}
			}
		}
	default:
		w.note("%s: store through %s", fname(f.fn), p)
	}
}

func (f *wframe) loadFrom(st *wst, p *V, t types.Type, at ssa.Instruction, src ssa.Value) *V {
	w := f.w
	if g, ok := src.(*ssa.Global); ok {
		return w.global(g, t)
	}
	switch p.k {
	case vPtr:
		return w.load(st, p.s, t)
	case vSPtr:
		return w.readU(st, vSl(p.s, p.a[0], vInt(1), false), 1, false, w.ctxOf(f.ctx+"/"+fmt.Sprintf("%p", at)), at.Pos())
	case vAlt:
		return mkAlt(p.a[0], f.loadFrom(st, p.a[1], t, at, nil), f.loadFrom(st, p.a[2], t, at, nil))
	}
	if p.k == vNil {
		return vUnknown("nil dereference")
	}
	return vUnknown("load through " + p.String())
}

// global: variables that are never assigned after initialisation keep their initial constant
func (w *W) global(g *ssa.Global, t types.Type) *V {
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
		return vIntern(&V{k: vAtom, op: "global", s: g.Name()})
	}
	return vIntern(&V{k: vAtom, op: "global", s: g.String(), num: isNumT(t)})
}

func (f *wframe) binop(op token.Token, a, b *V, t, xt types.Type) *V {
	if a.k == vUnk {
		return a
	}
	if b.k == vUnk {
		return b
	}
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && op == token.ADD {
		if a.k == vStrC && b.k == vStrC {
			return vStrConst(a.s + b.s)
		}
		var as []*V
		for _, x := range []*V{a, b} {
			if x.k == vAtom && x.op == "cat" {
				as = append(as, x.a...)
			} else {
				as = append(as, x)
			}
		}
		return vIntern(&V{k: vAtom, op: "cat", a: as})
	}
	num := a.isNum() && b.isNum()
	wrap := func(v *V) *V {
		if v.k == vConst {
			return convInt(v, t)
		}
		return v
	}
	switch op {
	case token.ADD:
		if num {
			return wrap(vAdd(a, b))
		}
	case token.SUB:
		if num {
			return wrap(vSub(a, b))
		}
	case token.MUL:
		if num {
			return wrap(vMul(a, b))
		}
	case token.EQL:
		return vEq(a, b, nil)
	case token.NEQ:
		return vNot(vEq(a, b, nil))
	case token.LSS:
		if num {
			return vLt0(vSub(a, b), nil)
		}
	case token.GTR:
		if num {
			return vLt0(vSub(b, a), nil)
		}
	case token.LEQ:
		if num {
			return vNot(vLt0(vSub(b, a), nil))
		}
	case token.GEQ:
		if num {
			return vNot(vLt0(vSub(a, b), nil))
		}
	}
	if a.k == vConst && b.k == vConst {
		switch op {
		case token.AND:
			return vInt(a.c & b.c)
		case token.OR:
			return vInt(a.c | b.c)
		case token.XOR:
			return vInt(a.c ^ b.c)
		case token.SHL:
			return convInt(vInt(a.c<<uint(b.c)), t)
		case token.SHR:
			return vInt(a.c >> uint(b.c))
		case token.QUO:
			if b.c != 0 {
				return vInt(a.c / b.c)
			}
		case token.REM:
			if b.c != 0 {
				return vInt(a.c % b.c)
			}
		case token.AND_NOT:
			return vInt(a.c &^ b.c)
		}
	}
	if op == token.OR && num {
		if a.k == vConst && a.c == 0 {
			return b
		}
		if b.k == vConst && b.c == 0 {
			return a
		}
	}
	if op == token.SHL && b.k == vConst && b.c < 32 {
		return vMulC(a, 1<<uint(b.c))
	}
	return vIntern(&V{k: vAtom, op: "op" + op.String(), a: []*V{a, b}, num: isNumT(t)})
}

func (f *wframe) convert(st *wst, v *V, from, to types.Type, pos token.Pos) *V {
	if v.k == vAlt && !v.num {
		return mkAlt(v.a[0], f.convert(st, v.a[1], from, to, pos), f.convert(st, v.a[2], from, to, pos))
	}
	if isNumT(from) && isNumT(to) {
		return convInt(v, to)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && isByteArr(from) {
		if v.k == vSlice {
			if s := st.streams[v.s]; s != nil {
				if s.input {
					return f.w.readRaw(st, v, pos)
				}
				return contentOf(f.w, st, v)
			}
		}
		return v
	}
	if isByteArr(to) {
		if v.k == vStrC && v.s == "" {
			return vSl("$empty", vInt(0), vInt(0), false)
		}
		return v
	}
	return v
}

// contentOf: the single value a buffer slice consists of, if it does
func contentOf(w *W, st *wst, v *V) *V {
	if v.k == vSlice {
		if s := st.streams[v.s]; s != nil && !s.input {
			r := w.region(s, v.a[0], v.a[1], token.NoPos)
			if len(r) == 1 && r[0].op == "raw" {
				return r[0].v
			}
			if len(r) == 0 {
				return vIntern(&V{k: vAtom, op: "zero"})
			}
			as := []*V{}
			for _, x := range r {
				if x.op != "raw" {
					return v
				}
				as = append(as, x.v)
			}
			return vIntern(&V{k: vAtom, op: "cat", a: as})
		}
	}
	if v.k == vAlt {
		return mkAlt(v.a[0], contentOf(w, st, v.a[1]), contentOf(w, st, v.a[2]))
	}
	return v
}

func (f *wframe) typeAssert(v *V, x *ssa.TypeAssert) *V {
	var r, ok *V
	switch v.k {
	case vIface:
		if types.Identical(v.t, x.AssertedType) {
			r, ok = v.a[0], vBool(true)
		} else if types.IsInterface(x.AssertedType) {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI && types.Implements(v.t, it) {
				r, ok = v, vBool(true)
			} else {
				r, ok = vNilV, vBool(false)
			}
		} else {
			r, ok = zeroV(x.AssertedType), vBool(false)
		}
	case vAlt:
		y, n := f.typeAssert(v.a[1], x), f.typeAssert(v.a[2], x)
		return mkAlt(v.a[0], y, n)
	case vAtom:
		if v.op == "cached" {
			r, ok = v.a[0], vBool(true)
			break
		}
		fallthrough
	default:
		r, ok = vUnknown("assertion on "+v.String()), vUnknown("assertion on "+v.String())
	}
	if x.CommaOk {
		return vTup(r, ok)
	}
	return r
}

func (f *wframe) indexAddr(st *wst, v, i *V) *V {
	switch v.k {
	case vSlice:
		if st.streams[v.s] != nil {
			return vIntern(&V{k: vSPtr, s: v.s, a: []*V{vAdd(v.a[0], i)}})
		}
		return vPtrTo(v.s + "[" + vAdd(v.a[0], i).String() + "]")
	case vPtr:
		if st.streams[v.s] != nil {
			return vIntern(&V{k: vSPtr, s: v.s, a: []*V{i}})
		}
		return vPtrTo(v.s + "[" + i.String() + "]")
	case vAlt:
		return mkAlt(v.a[0], f.indexAddr(st, v.a[1], i), f.indexAddr(st, v.a[2], i))
	case vAtom:
		if v.op == "sym" {
			return vPtrTo(v.s + "[" + i.String() + "]")
		}
	}
	return vUnknown("element of " + v.String())
}

func (f *wframe) index(st *wst, v, i *V, x *ssa.Index) *V {
	return vIntern(&V{k: vAtom, op: "index", a: []*V{v, i}, num: isNumT(x.Type())})
}

func (f *wframe) lookup(st *wst, m, k *V, x *ssa.Lookup) *V {
	pack := func(v *V, ok *V) *V {
		if x.CommaOk {
			return vTup(v, ok)
		}
		return v
	}
	switch m.k {
	case vMap:
		if v, ok := st.mem["m"+m.s+"{"+k.String()+"}"]; ok {
			return pack(v, vBool(true))
		}
	case vTable:
		if k.k == vStrC {
			n, ok := m.tab[k.s]
			return pack(vInt(n), vBool(ok))
		}
	case vAlt:
		return mkAlt(m.a[0], f.lookup(st, m.a[1], k, x), f.lookup(st, m.a[2], k, x))
	case vAtom:
		if m.op == "sym" {
			t := x.Type()
			if x.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
			}
			key := k.String()
			if k.k == vAtom && k.op == "sym" && strings.HasSuffix(k.s, "#k") && strings.HasPrefix(k.s, m.s+"[") {
				return pack(f.w.load(st, strings.TrimSuffix(k.s, "#k"), t), vBool(true))
			}
			return pack(f.w.symAt(m.s+"["+key+"]", t), vMk("has", m.s+"["+key+"]", false))
		}
	}
	u := vUnknown("lookup in " + m.String())
	return pack(u, u)
}

func (f *wframe) slice(st *wst, x *ssa.Slice) *V {
	base := f.val(x.X)
	lo := vInt(0)
	if x.Low != nil {
		lo = f.val(x.Low)
	}
	var hi *V
	if x.High != nil {
		hi = f.val(x.High)
	}
	return f.sliceOf(st, base, lo, hi, x)
}

func (f *wframe) sliceOf(st *wst, base, lo, hi *V, x *ssa.Slice) *V {
	w := f.w
	switch base.k {
	case vAlt:
		return mkAlt(base.a[0], f.sliceOf(st, base.a[1], lo, hi, x), f.sliceOf(st, base.a[2], lo, hi, x))
	case vNil:
		return vNilV
	case vSlice:
		n := base.a[1]
		bounded := len(base.a) == 3
		if hi != nil {
			n = hi
			bounded = true
			if s := st.streams[base.s]; s != nil && s.input && hi == vSub(w.length(st, base), vInt(0)) {
				bounded = len(base.a) == 3
			}
		}
		return vSl(base.s, vAdd(base.a[0], lo), vSub(n, lo), bounded)
	case vPtr: // array
		n := hi
		if n == nil {
			if a, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				n = vInt(a.Len())
			}
		}
		return vSl(base.s, lo, vSub(n, lo), false)
	case vStrC:
		if lo.k == vConst && (hi == nil || hi.k == vConst) {
			h := int64(len(base.s))
			if hi != nil {
				h = hi.c
			}
			if lo.c >= 0 && h <= int64(len(base.s)) && lo.c <= h {
				return vStrConst(base.s[lo.c:h])
			}
		}
	case vAtom:
		if lo.k == vConst && lo.c == 0 && (hi == nil || hi == w.length(st, base)) {
			return base
		}
		n := w.length(st, base)
		if hi != nil {
			n = hi
		}
		return vIntern(&V{k: vAtom, op: "sub", a: []*V{base, lo, vSub(n, lo)}})
	}
	return vUnknown("slice of " + base.String())
}

// --- struct tags ---

// tagTable is the table the healer struct tags of t describe
func tagTable(t types.Type) *V {
	tab := map[string]int64{}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			tg := reflect.StructTag(u.Tag(i)).Get("healer")
			parts := strings.Split(tg, ":")
			if len(parts) > 1 && parts[0] == "minVersion" {
				if n, err := strconv.Atoi(parts[1]); err == nil {
					tab[u.Field(i).Name()] = int64(n)
				}
			}
		}
	}
	return vIntern(&V{k: vTable, tab: tab})
}

// reflective: the function reads struct tags through reflection
func (w *W) reflective(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if s := c.Common().StaticCallee(); s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == "reflect" {
					return true
				}
			}
		}
	}
	return false
}

// cachedTable: what an atomic.Value global can hold: the table of the one struct type stored in it
func (w *W) cachedTable(g string) *V {
	var res *V
	for _, fn := range w.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := c.Common().StaticCallee()
				if s == nil || s.Pkg == nil || s.Pkg.Pkg.Path() != "sync/atomic" || s.Name() != "Store" && s.Name() != "Swap" && s.Name() != "CompareAndSwap" {
					continue
				}
				gl, ok := c.Common().Args[0].(*ssa.Global)
				if !ok || "g:"+gl.Name() != g {
					continue
				}
				a := c.Common().Args[len(c.Common().Args)-1]
				v := a
				for {
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
						continue
					}
					break
				}
				t := w.tagsOf(v, 0)
				if t == nil {
					return vUnknown("content of " + g)
				}
				if res != nil && res != t {
					return vUnknown("several tables are stored in " + g)
				}
				res = t
			}
		}
	}
	if res == nil {
		return vUnknown("nothing is stored in " + g)
	}
	return res
}

// tagsOf resolves an SSA value to the tag table it was computed from
func (w *W) tagsOf(v ssa.Value, d int) *V {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		s := x.Call.StaticCallee()
		if s != nil && w.reflective(s) && len(x.Call.Args) > 0 {
			if mi, ok := x.Call.Args[len(x.Call.Args)-1].(*ssa.MakeInterface); ok {
				t := mi.X.Type()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				return tagTable(t)
			}
		}
	case *ssa.UnOp:
		// a local cell: its only store
		if al, ok := x.X.(*ssa.Alloc); ok {
			var r *V
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
					t := w.tagsOf(s.Val, d+1)
					if t == nil || r != nil && r != t {
						return nil
					}
					r = t
				}
			}
			return r
		}
	case *ssa.Phi:
		var r *V
		for _, e := range x.Edges {
			t := w.tagsOf(e, d+1)
			if t == nil || r != nil && r != t {
				return nil
			}
			r = t
		}
		return r
	}
	return nil
}
