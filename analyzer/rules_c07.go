package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "structural proof of read loops (accumulator, bound, exits) plus path dataflow of incompletely read buffers", ruleC07)
}

// rawRead: a call of a Read([]byte) (int, error) method; returns the buffer value.
func rawRead(k ssa.CallInstruction) ssa.Value {
	cc := k.Common()
	sig := cc.Signature()
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		name = g.Name()
	}
	if name != "Read" || sig.Results().Len() != 2 || sig.Params().Len() != 1 {
		return nil
	}
	if s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); !ok || types.TypeString(s.Elem(), nil) != "byte" {
		return nil
	}
	return cc.Args[len(cc.Args)-1]
}

// adaptor: f is itself a Read(p) that passes its own buffer on.
func readAdaptor(f *ssa.Function) bool {
	s := f.Signature
	if f.Name() != "Read" || s.Recv() == nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	return types.TypeString(s.Params().At(0).Type(), nil) == "[]byte"
}

type exitEdge struct {
	blk *ssa.BasicBlock
	idx int
}

func instrBlocks(head *ssa.BasicBlock, tails []*ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{head: true}
	work := append([]*ssa.BasicBlock(nil), tails...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}

// innermostLoop containing b.
func innermostLoop(b *ssa.BasicBlock) (map[*ssa.BasicBlock]bool, *ssa.BasicBlock) {
	var best map[*ssa.BasicBlock]bool
	var bh *ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		var tails []*ssa.BasicBlock
		for _, p := range h.Preds {
			if isBackEdge(p, h) {
				tails = append(tails, p)
			}
		}
		if len(tails) == 0 {
			continue
		}
		l := instrBlocks(h, tails)
		if l[b] && (best == nil || len(l) < len(best)) {
			best, bh = l, h
		}
	}
	return best, bh
}

func stripConvV(v ssa.Value) ssa.Value {
	for {
		switch i := v.(type) {
		case *ssa.Convert:
			v = i.X
		case *ssa.ChangeType:
			v = i.X
		default:
			return v
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	if k, ok := stripConvV(v).(*ssa.Const); ok && k.Value != nil {
		return k.Int64(), true
	}
	return 0, false
}

// linear: v = base + const (base nil for a constant).
func linear(v ssa.Value) (ssa.Value, int64) {
	v = stripConvV(v)
	if c, ok := constInt(v); ok {
		return nil, c
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := constInt(b.Y); ok {
			x, d := linear(b.X)
			if b.Op == token.SUB {
				c = -c
			}
			return x, d + c
		}
		if c, ok := constInt(b.X); ok && b.Op == token.ADD {
			x, d := linear(b.Y)
			return x, d + c
		}
	}
	return v, 0
}

// bufLen: the length of a made buffer as base + const.
func bufLen(v ssa.Value) (ssa.Value, int64, bool) {
	switch i := v.(type) {
	case *ssa.MakeSlice:
		b, c := linear(i.Len)
		return b, c, true
	case *ssa.Slice:
		if i.Low != nil && i.High == nil {
			if lo, ok := constInt(i.Low); ok {
				if b, c, ok := bufLen(i.X); ok {
					return b, c - lo, true
				}
			}
		}
		if i.Low == nil {
			if a, ok := i.X.(*ssa.Alloc); ok {
				if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					if i.High != nil {
						b, c := linear(i.High)
						return b, c, true
					}
					return nil, at.Len(), true
				}
			}
		}
	}
	return nil, 0, false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = stripConvV(a), stripConvV(b)
	return a == b
}

// verifyLoop proves that the raw read in a loop fills its buffer: returns the loop exit edges on which the
// buffer is known to be complete, or a reason.
func verifyLoop(k ssa.CallInstruction) ([]exitEdge, string) {
	buf := rawRead(k)
	sl, ok := buf.(*ssa.Slice)
	if !ok || sl.Low == nil || sl.High != nil {
		return nil, "the buffer passed to Read is not the not yet filled rest of the buffer"
	}
	loop, head := innermostLoop(k.Block())
	if loop == nil {
		return nil, "a single Read may return fewer bytes than asked for"
	}
	base, off := linear(sl.Low)
	acc, ok := base.(*ssa.Phi)
	if !ok || acc.Block() != head {
		return nil, "the position in the buffer is not carried from one Read to the next"
	}
	callV, ok := k.(*ssa.Call)
	if !ok {
		return nil, "deferred read"
	}
	var n ssa.Value
	for _, r := range *callV.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
			n = e
		}
	}
	if n == nil {
		return nil, "the number of bytes read is ignored"
	}
	var next ssa.Value
	isNext := func(v ssa.Value) bool {
		b, ok := stripConvV(v).(*ssa.BinOp)
		return ok && b.Op == token.ADD && (sameValue(b.X, acc) && sameValue(b.Y, n) || sameValue(b.Y, acc) && sameValue(b.X, n))
	}
	for i, e := range acc.Edges {
		p := head.Preds[i]
		if loop[p] {
			if isNext(e) {
				next = e
				continue
			}
			if e == acc {
				continue
			}
			return nil, "the position in the buffer is not advanced by the number of bytes read"
		}
		if c, ok := constInt(e); !ok || c != 0 {
			return nil, "the position in the buffer does not start at 0"
		}
	}
	_ = next
	lb, lc, ok := bufLen(sl.X)
	known := ok
	// bytes wanted: len(buf) - off = lb + (lc-off)
	want := func(v ssa.Value) bool {
		if c, ok := stripConvV(v).(*ssa.Call); ok {
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && c.Common().Args[0] == sl.X {
				return off == 0
			}
		}
		b, c := linear(v)
		if (b == nil || lb == nil) && known {
			return b == nil && lb == nil && c == lc-off
		}
		if b == nil {
			return false
		}
		if call, ok := b.(*ssa.Call); ok {
			if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Common().Args[0] == sl.X {
				return c == -off
			}
		}
		return known && lb != nil && sameValue(b, lb) && c == lc-off
	}
	isAcc := func(v ssa.Value) bool { return sameValue(v, acc) || isNext(v) }
	var good []exitEdge
	for b := range loop {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for ix, s := range b.Succs {
			if loop[s] {
				continue
			}
			cond, truth := ifi.Cond, ix == 0
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, truth = u.X, !truth
			}
			bo, ok := cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op, x, y := bo.Op, bo.X, bo.Y
			if isAcc(y) && !isAcc(x) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if !isAcc(x) || !want(y) {
				continue
			}
			if truth && (op == token.EQL || op == token.GEQ) || !truth && (op == token.LSS || op == token.NEQ) {
				good = append(good, exitEdge{b, ix})
			}
		}
	}
	if len(good) == 0 {
		return nil, "no exit of the read loop establishes that the buffer is complete"
	}
	return good, ""
}

func ruleC07(c *Ctx) {
	c.rule("complete-before-use", "a buffer filled from a connection or response stream is used (indexed, decoded, converted, returned as success) only on paths where io.ReadFull succeeded or a verified read loop (position starts at 0, advances by the bytes read, slices the rest, exits when position = length) was left through its completeness test")
	c.rule("frame-length", "the body buffer of a response has the announced length plus the length of what precedes it, and a stream over the connection is limited to exactly the announced length")
	m := newConnModel(c)
	if m == nil {
		return
	}
	inPkg := func(f *ssa.Function) bool {
		return pkgOf(f) == "github.com/childe/healer" || strings.HasSuffix(pkgOf(f), "healer")
	}
	full := func(n string) bool { return n == "io.ReadFull" || n == "io.ReadAtLeast" }
	hasRaw := func(f *ssa.Function) (raw []ssa.CallInstruction, ful bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if rawRead(k) != nil {
						raw = append(raw, k)
					}
					if g := k.Common().StaticCallee(); g != nil && full(funcName(g)) {
						ful = true
					}
				}
			}
		}
		return
	}
	prim := map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		if readAdaptor(f) || !inPkg(f) {
			continue
		}
		raw, ful := hasRaw(f)
		if len(raw) > 0 || ful {
			prim[f] = true
		}
	}
	// functions using primitives of the same module that return the buffer
	callers := map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		for _, g := range c.p.callees(f, false) {
			if prim[g] && bufferReader(g) {
				callers[f] = true
			}
		}
	}
	verified := map[ssa.CallInstruction]map[exitEdge]bool{}
	reason := map[ssa.CallInstruction]string{}
	for f := range prim {
		raw, _ := hasRaw(f)
		for _, k := range raw {
			c.count("raw reads", 1)
			good, why := verifyLoop(k)
			if why != "" {
				reason[k] = why
				continue
			}
			c.count("read loops proved", 1)
			mm := map[exitEdge]bool{}
			for _, e := range good {
				mm[e] = true
			}
			verified[k] = mm
		}
	}
	base := func(t *Term) *Term {
		for t.Op == "slice" || t.Op == "conv" {
			t = t.Args[0]
		}
		return t
	}
	byEdge := map[*ssa.If]map[int][]string{}
	for k, mm := range verified {
		for e := range mm {
			ifi := e.blk.Instrs[len(e.blk.Instrs)-1].(*ssa.If)
			if byEdge[ifi] == nil {
				byEdge[ifi] = map[int][]string{}
			}
			byEdge[ifi][e.idx] = append(byEdge[ifi][e.idx], "site:"+c.p.pos(k.Pos()))
		}
	}
	var roots []*ssa.Function
	for _, f := range c.p.funcs {
		if prim[f] && !(bufferReader(f) && len(callersIn(c.p, f)) > 0) || callers[f] {
			roots = append(roots, f)
		}
	}
	short := func(st *State, t *Term) *Term { return st.get("short:" + itoa(base(t).ID)) }
	for _, f := range roots {
		f := f
		cfg := &Config{Merge: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return prim[g] && bufferReader(g) || g.Parent() == f }
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if full(name) {
				b := base(args[1])
				t := x.callTerm(st, site, name, args)
				n, e := mkT(types.Typ[types.Int], "res", "0", t), mkT(errType, "res", "1", t)
				st.mem[mk("fld", "#content", b)] = mkT(nil, "out", "1", t)
				return []Outcome{
					{Res: mk("tuple", "", n, tNil), Set: map[string]*Term{"short:" + itoa(b.ID): tFalse, "lasterr": tNil}, Tag: name + " read everything"},
					{Res: mk("tuple", "", n, e), Facts: []Fact{{mkEq(e, tNil), false}}, Set: map[string]*Term{"short:" + itoa(b.ID): tTrue, "lasterr": e}, Tag: name + " failed"},
				}, true
			}
			if buf := rawRead(site); buf != nil && (fn == nil || readAdaptor(fn) || !c.p.inModule(fn)) {
				b := base(args[len(args)-1])
				t := x.callTerm(st, site, name, args)
				n, e := mkT(types.Typ[types.Int], "res", "0", t), mkT(errType, "res", "1", t)
				st.mem[mk("fld", "#content", b)] = mkT(nil, "out", "1", t)
				key := "short:" + itoa(b.ID)
				set := map[string]*Term{key: tTrue, "lasterr": tNil, "site:" + c.p.pos(site.Pos()): b}
				return []Outcome{
					{Res: mk("tuple", "", n, tNil), Set: set, Tag: name + " read some bytes"},
					{Res: mk("tuple", "", n, e), Facts: []Fact{{mkEq(e, tNil), false}}, Set: map[string]*Term{key: tTrue, "lasterr": e}, Tag: name + " failed"},
				}, true
			}
			return nil, false
		}
		use := func(x *Exec, st *State, t *Term, site ssa.Instruction, what string) {
			s := short(st, t)
			if s == nil {
				return
			}
			c.count("buffer uses checked", 1)
			if s == tTrue {
				// single read whose count was compared with the length of the buffer
				if countChecked(st, t) {
					return
				}
				why := "the read may have returned fewer bytes, or failed"
				for k, r := range reason {
					if k.Parent() == site.Parent() {
						why = r
					}
				}
				c.fail("complete-before-use", fname(site.Parent())+"/"+what, instrPos(site), st.path(), "bytes read from the connection are used (%s) before all of them have arrived: %s", what, why)
			}
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case "branch":
				if ifi, ok := ev.Site.(*ssa.If); ok {
					for _, sk := range byEdge[ifi][1-ev.Idx] {
						if b := st.get(sk); b != nil {
							st.set("short:"+itoa(b.ID), tFalse)
						}
					}
				}
			case "call":
				if full(ev.Name) || strings.Contains(ev.Name, "logr.") || strings.HasPrefix(ev.Name, "fmt.") {
					return
				}
				if k, ok := ev.Site.(ssa.CallInstruction); ok && rawRead(k) != nil {
					return
				}
				for i, a := range ev.Args {
					if a.Op == "slice" || a.Op == "alloc" || a.Op == "conv" {
						if i == 0 && (strings.Contains(ev.Name, ".Put") || ev.Name == "builtin.copy" || ev.Name == "builtin.len" || ev.Name == "builtin.cap") || ev.Fn != nil && prim[ev.Fn] && bufferReader(ev.Fn) {
							continue
						}
						use(x, st, a, ev.Site, ev.Name)
					}
				}
			case "index":
				if _, isStore := ev.Site.(*ssa.Store); !isStore {
					use(x, st, ev.Loc, ev.Site, "index")
				}
			case "return":
				res := ev.Res
				if res == nil {
					return
				}
				var es *Term
				parts := []*Term{res}
				if res.Op == "tuple" {
					parts = res.Args
				}
				if len(parts) > 0 {
					es = parts[len(parts)-1]
				}
				for _, p := range parts {
					if short(st, p) == tTrue {
						if n, kn := st.nilness(es); kn && !n {
							continue
						}
						use(x, st, p, ev.Site, "return")
					}
				}
				// frame length
				for _, p := range parts {
					b := base(p)
					if s := short(st, p); s == tFalse && b.Op == "alloc" && strings.HasPrefix(b.Str, "slice@") {
						l := st.mem[mk("fld", "#len", b)]
						if l == nil || prim[ev.Site.Parent()] && bufferReader(ev.Site.Parent()) {
							continue
						}
						c.count("frames checked", 1)
						if !announced(l, 4) && !announced(l, 0) || p.Op == "slice" {
							c.fail("frame-length", fname(f), instrPos(ev.Site), st.path(), "the response body handed on has length %s, which is not the announced length (plus the 4 bytes of the length itself)", clip(l.String()))
						}
					}
				}
			case "store":
				if ev.Loc.Op == "fld" && strings.HasSuffix(ev.Loc.Str, "LimitedReader.N") {
					c.count("frames checked", 1)
					if !announced(ev.Val, 0) {
						c.fail("frame-length", fname(f)+"/limit", instrPos(ev.Site), st.path(), "the response stream is limited to %s bytes, not to the announced length", clip(ev.Val.String()))
					}
				}
			}
			if ev.Kind == "call" && ev.Name == "io.LimitReader" && m.owner(st, ev.Args[0]) != nil {
				c.count("frames checked", 1)
				if !announced(ev.Args[1], 0) {
					c.fail("frame-length", fname(f)+"/limit", instrPos(ev.Site), st.path(), "the response stream is limited to %s bytes, not to the announced length", clip(ev.Args[1].String()))
				}
			}
		}
		c.exec(f, cfg)
		c.sample("reader " + fname(f))
	}
	c.count("functions reading from connections or streams", len(roots))
	c.floor("functions reading from connections or streams", 5)
	c.floor("frames checked", 2)
	c.floor("buffer uses checked", 10)
}

func callersIn(p *Prog, f *ssa.Function) []*ssa.Function { return p.callersOf()[f] }

// bufferReader: a helper that hands its buffer (or fills the caller's) together with an error.
func bufferReader(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() < 1 || !types.Identical(r.At(r.Len()-1).Type(), errType) || readAdaptor(f) {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := types.TypeString(f.Signature.Params().At(i).Type(), nil)
		if strings.HasSuffix(f.Name(), "requestStreamingly") || typeShort(recvType(f)) == "Broker" {
			return false // its byte slice is the request
		}
		if t == "[]byte" || t == "int" && types.TypeString(r.At(0).Type(), nil) == "[]byte" {
			return true
		}
	}
	return false
}

// announced: t is the big-endian value of a completely read buffer plus k.
func announced(t *Term, k int64) bool {
	t = stripConv(t)
	if k != 0 {
		if t.Op != "bin" || t.Str != "+" {
			return false
		}
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].intVal(); ok && v == k {
				return announced(t.Args[1-i], 0)
			}
		}
		return false
	}
	for t.Op == "res" {
		t = t.Args[0]
	}
	return strings.Contains(t.Str, "Endian.Uint32")
}

// countChecked: facts say the number of bytes of the last read equals the length of the buffer.
func countChecked(st *State, buf *Term) bool {
	b := buf
	for b.Op == "slice" {
		b = b.Args[0]
	}
	l := st.mem[mk("fld", "#len", b)]
	for t, v := range st.facts {
		if t.Op == "eq" && v || t.Op == "lt" && !v {
			for i := 0; i < 2; i++ {
				n, w := t.Args[i], t.Args[1-i]
				if n.Op == "res" && n.Str == "0" && strings.Contains(n.Args[0].Str, "Read@") && n.Args[0].any(func(u *Term) bool { return u == b }) {
					if w == l || w.Op == "app" && w.Str == "len" && w.Args[0] == buf {
						return true
					}
				}
			}
		}
	}
	return false
}
