package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C26

// boundedLoop: the loop ends by itself: a range, or a counter that every iteration moves towards its bound.
func boundedLoop(h *ssa.BasicBlock) bool {
	in := loopBody(h)
	for b := range in {
		for _, i := range b.Instrs {
			if n, ok := i.(*ssa.Next); ok && b == h {
				_ = n
				return true
			}
		}
	}
	counts := map[ssa.Value]bool{}
	for _, i := range h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok || !isInteger(ph.Type()) {
			continue
		}
		up, n := true, 0
		for k, e := range ph.Edges {
			if !in[h.Preds[k]] {
				continue
			}
			n++
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ph {
				if k, ok := b.Y.(*ssa.Const); ok && k.Int64() != 0 {
					continue
				}
			}
			up = false
		}
		if up && n > 0 {
			counts[ph] = true
			for _, r := range *ph.Referrers() {
				if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ph {
					counts[b] = true
				}
			}
		}
	}
	for b := range in {
		ok := true
		for _, p := range h.Preds {
			if in[p] && !b.Dominates(p) {
				ok = false
			}
		}
		if !ok || len(b.Instrs) == 0 {
			continue
		}
		f, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isIf || in[b.Succs[0]] && in[b.Succs[1]] {
			continue
		}
		if k, ok := f.Cond.(*ssa.BinOp); ok {
			switch k.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if counts[k.X] || counts[k.Y] {
					return true
				}
			}
		}
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// loopBody: blocks of the natural loop with header h.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var q []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			q = append(q, p)
		}
	}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				q = append(q, p)
			}
		}
	}
	return in
}

// chanInfo resolves channel and context values at the SSA level.
type waitModel struct {
	p       *Prog
	ctxKey  string // the consumer's context
	callers map[*ssa.Function][]ssa.CallInstruction
	stores  map[string][]ssa.Value // field key -> values stored into it
	memo    map[string]int
}

func newWaitModel(p *Prog, ctxKey string) *waitModel {
	w := &waitModel{p: p, ctxKey: ctxKey, callers: map[*ssa.Function][]ssa.CallInstruction{}, stores: map[string][]ssa.Value{}, memo: map[string]int{}}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					if g := i.Common().StaticCallee(); g != nil {
						w.callers[g] = append(w.callers[g], i)
					}
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						w.stores[fieldKey(fa)] = append(w.stores[fieldKey(fa)], i.Val)
					}
				}
			}
		}
	}
	return w
}

// origins: the values v may stand for, through locals, captured variables, parameters and conversions.
func (w *waitModel) origins(v ssa.Value, seen map[ssa.Value]bool, out *[]ssa.Value) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			w.origins(e, seen, out)
		}
	case *ssa.ChangeType:
		w.origins(i.X, seen, out)
	case *ssa.MakeInterface:
		w.origins(i.X, seen, out)
	case *ssa.ChangeInterface:
		w.origins(i.X, seen, out)
	case *ssa.Parameter:
		f := i.Parent()
		k := -1
		for n, p := range f.Params {
			if p == i {
				k = n
			}
		}
		cs := w.callers[f]
		if len(cs) == 0 || k < 0 {
			*out = append(*out, v)
			return
		}
		for _, c := range cs {
			if k < len(c.Common().Args) {
				w.origins(c.Common().Args[k], seen, out)
			}
		}
	case *ssa.FreeVar:
		f := i.Parent()
		for n, fv := range f.FreeVars {
			if fv != i || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						w.origins(mc.Bindings[n], seen, out)
					}
				}
			}
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			*out = append(*out, v)
			return
		}
		if fa, ok := i.X.(*ssa.FieldAddr); ok {
			_ = fa
			*out = append(*out, v)
			return
		}
		// a local variable: everything stored into it
		var addrs []ssa.Value
		w.origins(i.X, map[ssa.Value]bool{}, &addrs)
		for _, a := range addrs {
			al, ok := a.(*ssa.Alloc)
			if !ok {
				*out = append(*out, v)
				continue
			}
			for _, s := range w.allocStores(al) {
				w.origins(s, seen, out)
			}
		}
	case *ssa.Call:
		if g := i.Call.StaticCallee(); g != nil && w.p.inModule(g) && g.Blocks != nil {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					w.origins(r.Results[0], seen, out)
				}
			}
			return
		}
		*out = append(*out, v)
	default:
		*out = append(*out, v)
	}
}

// allocStores: values stored into a local, also by the closures that capture it.
func (w *waitModel) allocStores(a ssa.Value) []ssa.Value {
	var r []ssa.Value
	for _, ref := range *a.Referrers() {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr == a {
				r = append(r, i.Val)
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for n, b := range i.Bindings {
				if b == a {
					r = append(r, w.allocStores(f.FreeVars[n])...)
				}
			}
		}
	}
	return r
}

// stopCtx: the context ends when the consumer is stopped.
func (w *waitModel) stopCtx(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	var os []ssa.Value
	w.origins(v, map[ssa.Value]bool{}, &os)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		switch i := o.(type) {
		case *ssa.UnOp:
			fa, ok := i.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			k := fieldKey(fa)
			if k == w.ctxKey {
				continue
			}
			if len(w.stores[k]) == 0 {
				return false
			}
			for _, s := range w.stores[k] {
				if !w.stopCtx(s, depth+1) {
					return false
				}
			}
		case *ssa.Extract:
			k, ok := i.Tuple.(*ssa.Call)
			if !ok || i.Index != 0 || !strings.HasPrefix(calleeName(&k.Call, k.Call.StaticCallee()), "context.With") {
				return false
			}
			if !w.stopCtx(k.Call.Args[0], depth+1) {
				return false
			}
		case *ssa.Call:
			if calleeName(&i.Call, i.Call.StaticCallee()) != "context.WithValue" || !w.stopCtx(i.Call.Args[0], depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// chanKind: "stop" (closed when the consumer is stopped), "timer" (fires by itself), "signal" (a local
// channel between the goroutines of one function, which carries no messages) or "".
func (w *waitModel) chanKind(v ssa.Value) string {
	var os []ssa.Value
	w.origins(v, map[ssa.Value]bool{}, &os)
	kind := ""
	for n, o := range os {
		k := ""
		switch i := o.(type) {
		case *ssa.Call:
			switch nm := calleeName(&i.Call, i.Call.StaticCallee()); {
			case i.Call.IsInvoke() && i.Call.Method.Name() == "Done" && isCtxT(i.Call.Value.Type()):
				if w.stopCtx(i.Call.Value, 0) {
					k = "stop"
				}
			case nm == "time.After" || nm == "time.Tick":
				k = "timer"
			}
		case *ssa.UnOp:
			if fa, ok := i.X.(*ssa.FieldAddr); ok {
				switch fieldKey(fa) {
				case "Ticker.C", "Timer.C", "time.Ticker.C", "time.Timer.C":
					k = "timer"
				}
			}
		case *ssa.MakeChan:
			if !isFullMsgChan(i.Type()) {
				k = "signal"
			}
		}
		if n > 0 && k != kind {
			return ""
		}
		kind = k
	}
	return kind
}

func ruleC26(c *Ctx) {
	m := newConsModel(c)
	p := c.p
	c.rule("wait", "every channel operation of the consumer and its fetch decoder that can block also waits for the consumer's context, or is a timer or an internal signal")
	c.rule("loop", "every iteration of a loop without bound looks for the stop, and once it is seen the loop ends")
	c.rule("stop", "Stop sets the stop flag and cancels, then waits for the consume loop, then closes the fetch connection and reports to the owner")
	c.rule("announce", "the consume loop is announced before it is started, and reports its end on every path")
	c.rule("context", "the context the waits watch is the one Stop cancels")
	cancel := c.fieldOf("SimpleConsumer", func(t types.Type) bool {
		return typeIs(t, "context.CancelFunc") || typeIs(t, "func()") || typeIs(t, "context.CancelCauseFunc")
	})
	// waits
	w := newWaitModel(p, m.ctx)
	set := map[*ssa.Function]bool{}
	var q []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || set[f] || brokerRecv(f) || p.front(f) {
			return
		}
		if f.Signature.Recv() != nil {
			switch typeShort(recvType(f)) {
			case "GroupConsumer":
				return
			}
		}
		set[f] = true
		q = append(q, f)
	}
	owner := func(t types.Type) string {
		for {
			pt, ok := t.(*types.Pointer)
			if !ok {
				break
			}
			t = pt.Elem()
		}
		return typeShort(t)
	}
	isOwner := func(f *ssa.Function) string {
		if f.Signature.Recv() != nil {
			return owner(recvType(f))
		}
		return ""
	}
	for _, f := range p.funcs {
		switch isOwner(f) {
		case "SimpleConsumer", "fetchResponseStreamDecoder":
			add(f)
		}
	}
	var ctors []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && f.Signature.Recv() == nil && f.Synthetic == "" {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if ptrTo(f.Signature.Results().At(i).Type(), modPath, "SimpleConsumer") {
					ctors = append(ctors, f)
					add(f)
				}
			}
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, g := range p.callees(f, true) {
			add(g)
		}
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	var fs []*ssa.Function
	for f := range set {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		c.funcs[fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ch ssa.Value
				what := ""
				switch i := in.(type) {
				case *ssa.Send:
					ch, what = i.Chan, "sends to a channel"
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						ch, what = i.X, "receives from a channel"
					}
				case *ssa.Select:
					if !i.Blocking {
						continue
					}
					c.count("blocking channel operations", 1)
					ok := false
					for _, s := range i.States {
						switch w.chanKind(s.Chan) {
						case "stop", "timer":
							ok = ok || s.Dir == types.RecvOnly
						}
						ok = ok || w.chanKind(s.Chan) == "stop"
					}
					if !ok {
						c.fail("wait", fname(f), instrPos(in), nil, "%s waits in a select that stopping the consumer does not end", fname(f))
					}
				}
				if ch == nil {
					continue
				}
				c.count("blocking channel operations", 1)
				if w.chanKind(ch) == "" {
					c.fail("wait", fname(f), instrPos(in), nil, "%s %s without waiting for the stop of the consumer as well", fname(f), what)
				}
			}
		}
	}
	c.floor("blocking channel operations", 5)
	// the context and its cancel function belong together
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != cancel {
					continue
				}
				c.count("cancel functions", 1)
				var os []ssa.Value
				w.origins(s.Val, map[ssa.Value]bool{}, &os)
				good := len(os) > 0
				for _, o := range os {
					e, ok := o.(*ssa.Extract)
					if !ok || e.Index != 1 {
						good = false
						continue
					}
					k, ok := e.Tuple.(*ssa.Call)
					if !ok || !strings.HasPrefix(calleeName(&k.Call, k.Call.StaticCallee()), "context.With") {
						good = false
						continue
					}
					// the last context stored by this function comes from the same call
					found := false
					for _, r := range *k.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
							for _, st := range w.stores[m.ctx] {
								var so []ssa.Value
								w.origins(st, map[ssa.Value]bool{}, &so)
								for _, y := range so {
									found = found || y == x
								}
							}
						}
					}
					good = good && found
				}
				if !good {
					c.fail("context", fname(f), instrPos(in), nil, "%s: the cancel function kept is not the one of the context the consumer watches", fname(f))
				}
			}
		}
	}
	c.floor("cancel functions", 1)
	m.loops(cancel, ctors)
	c.assumef("a select whose stop case is ready eventually takes it (Go picks at random among ready cases)")
	c.assumef("requests to brokers return within their timeouts (C01)")
	c.assumef("a fetch response is finite, so the loops of its decoder are")
}

// loops: the loop, stop and announce rules of C26.
func (m *consModel) loops(cancel string, ctors []*ssa.Function) {
	c := m.c
	p := c.p
	m.noInline["GroupConsumer.commitOffset"] = true
	done := p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok && calleeName(k.Common(), k.Common().StaticCallee()) == "sync.WaitGroup.Done" {
					return true
				}
			}
		}
		return false
	}, false)
	ctor := map[*ssa.Function]bool{}
	for _, f := range ctors {
		ctor[f] = true
	}
	stopRoot := c.anchor("SimpleConsumer.Stop")
	var rootFn *ssa.Function
	isStop := func(l *Term) bool { return m.isField(l, m.stop) || m.isField(l, "Consumer.closed") }
	looping := m.loopRule("loop", isStop, func() bool { return m.inRoot && ctor[rootFn] })
	m.event = func(x *Exec, st *State, ev *Event) {
		fn := fname(st.top().fn)
		looping(x, st, ev)
		if st.dead {
			return
		}
		switch ev.Kind {
		case "store":
			if m.inRoot && rootFn == stopRoot && m.isField(ev.Loc, m.stop) && ev.Val == tTrue {
				st.setFlag("S:flag", true)
			}
		case "call":
			self := len(ev.Args) > 0 && m.isField(ev.Args[0], m.loopWg)
			switch {
			case ev.Name == "sync.WaitGroup.Add" && self:
				st.setFlag("added", true)
			case ev.Name == "sync.WaitGroup.Done" && !m.inRoot:
				c.count("ends reported", 1)
				st.incr("wgdone", 2)
			}
			if !m.inRoot || rootFn != stopRoot {
				return
			}
			switch {
			case ev.Name == "dyn" && m.ofField(ev.Val, cancel):
				st.setFlag("S:cancel", true)
			case ev.Name == "sync.WaitGroup.Wait" && self:
				c.count("waits for the consume loop", 1)
				if !st.flag("S:flag") || !st.flag("S:cancel") {
					c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop waits for the consume loop before having told it to stop")
				}
				st.setFlag("S:waited", true)
			case ev.Name == "Broker.Close" && m.holdsField(st, ev.Args[0], m.leader):
				if !st.flag("S:waited") {
					c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop closes the fetch connection before the consume loop has ended")
				}
				st.setFlag("S:closed", true)
			case ev.Name == "sync.WaitGroup.Done" && m.holdsField(st, ev.Args[0], m.parentWg):
				if !st.flag("S:waited") {
					c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop reports to the owner before the consume loop has ended")
				}
				if st.flag("S:reported") {
					c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop reports to the owner twice")
				}
				st.setFlag("S:reported", true)
			}
		case "go":
			if ev.Fn == nil {
				return
			}
			if m.inRoot && m.reachesFetch(ev.Fn) && !ctor[rootFn] {
				c.count("consume loops started", 1)
				if !st.flag("added") {
					c.fail("announce", fn, instrPos(ev.Site), st.path(), "the consume loop is started without having been announced to the wait group Stop waits for")
				}
				st.setFlag("added", false)
			}
			if done[ev.Fn] {
				st.setFlag("^wg", true)
			}
		case "return":
			if !m.inRoot {
				if st.flag("@wg") && st.count("wgdone") != 1 {
					c.fail("announce", fname(x.root), instrPos(ev.Site), st.path(), "%s ends having reported its end to the wait group %d times instead of once", fname(x.root), st.count("wgdone"))
				}
				return
			}
			if rootFn != stopRoot {
				return
			}
			c.count("ends of Stop", 1)
			recv := st.frames[0].args[0]
			if !st.flag("S:waited") {
				c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop returns without having waited for the consume loop")
			}
			if b, ok := st.nilness(st.load(mkFld(recv, nil, m.leader), p.fieldType(m.leader))); !st.flag("S:closed") && !(ok && b) {
				c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop returns without having closed the fetch connection")
			}
			if b, ok := st.nilness(st.load(mkFld(recv, nil, m.parentWg), p.fieldType(m.parentWg))); !st.flag("S:reported") && !(ok && b) {
				c.fail("stop", fn, instrPos(ev.Site), st.path(), "Stop returns without having reported to the owner")
			}
		}
	}
	roots := append(m.apiRoots("SimpleConsumer"), ctors...)
	for _, r := range roots {
		rootFn = r
		m.run(r)
	}
	// the consumer of several partitions
	for _, f := range m.apiRoots("SimpleConsumer") {
		m.noInline[fname(f)] = true
	}
	for _, f := range ctors {
		m.noInline[fname(f)] = true
	}
	if r := c.anchor("Consumer.Consume"); r != nil {
		rootFn = r
		m.run(r)
	}
	c.floor("unbounded loops", 6)
	c.floor("ends of Stop", 1)
	c.floor("waits for the consume loop", 1)
	c.floor("consume loops started", 1)
	c.floor("ends reported", 2)
}

// fieldType: the type of the field "Type.field".
func (p *Prog) fieldType(key string) types.Type {
	i := strings.LastIndex(key, ".")
	if t := p.typ(key[:i]); t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == key[i+1:] {
					return s.Field(k).Type()
				}
			}
		}
	}
	return types.Typ[types.Int]
}

// loopRule: every iteration of an unbounded loop looks for the stop (a read of a field for which isStop, a
// context, or its error), and once the stop is seen the loop is left.
func (m *consModel) loopRule(rule string, isStop func(*Term) bool, exempt func() bool) func(x *Exec, st *State, ev *Event) {
	c := m.c
	bounded := map[*ssa.BasicBlock]bool{}
	checked := func(st *State, from, to string) {
		for k, v := range st.mon {
			if strings.HasPrefix(k, "lp:") {
				if s, _ := v.strVal(); from == "" || s == from {
					st.mon[k] = tStr(to)
				}
			}
		}
	}
	stopping := func(st *State) {
		st.setFlag("stopped", true)
		st.setFlag("done", true)
	}
	return func(x *Exec, st *State, ev *Event) {
		fn := fname(st.top().fn)
		switch ev.Kind {
		case "load":
			if isStop(ev.Loc) {
				checked(st, "no", "read")
				if st.flag("stopped") {
					if !st.assume(ev.Res, true) {
						st.dead = true
					}
				}
			}
		case "branch":
			ev.Val.any(func(u *Term) bool {
				if u.Op == "vol" && isStop(u.Args[0]) {
					checked(st, "read", "yes")
					if b, ok := st.evalBool(u); ok && b {
						stopping(st)
					}
				}
				if u.Op == "eq" && strings.Contains(u.String(), "context.Canceled") {
					if b, ok := st.evalBool(u); ok && b {
						stopping(st)
					}
				}
				if u.Op == "eq" && strings.Contains(u.String(), "context.Context.Err@") {
					checked(st, "", "yes")
					if b, ok := st.evalBool(u); ok && !b {
						stopping(st)
					}
				}
				return false
			})
		case "select":
			has := false
			for _, a := range ev.Args {
				has = has || isDone(a)
			}
			if !has {
				return
			}
			checked(st, "", "yes")
			switch {
			case ev.Name == "recv" && isDone(ev.Loc):
				stopping(st)
			case st.flag("stopped"):
				st.dead = true // the stop case is ready
			}
		case "recv":
			if isDone(ev.Loc) {
				stopping(st)
			}
		case "loop":
			b, ok := bounded[ev.Block]
			if !ok {
				b = boundedLoop(ev.Block)
				bounded[ev.Block] = b
				if b {
					c.count("bounded loops", 1)
				} else {
					c.count("unbounded loops", 1)
				}
			}
			if b || exempt() {
				return
			}
			k := ev.Name
			if ev.Idx == 0 {
				st.set("lp:"+k, tStr("no"))
				st.set("bk:"+k, nil)
				return
			}
			if s, _ := st.get("lp:" + k).strVal(); s != "yes" {
				c.fail(rule, fn, instrPos(ev.Site), st.path(), "%s: an iteration of a loop does not look whether the consumer was stopped", fn)
				st.dead = true
				return
			}
			st.set("lp:"+k, tStr("no"))
			if st.flag("stopped") {
				if st.count("bk:"+k) >= 1 {
					c.fail(rule, fn, instrPos(ev.Site), st.path(), "%s: a loop goes on although the consumer was seen to be stopped", fn)
					st.dead = true
					return
				}
				st.incr("bk:"+k, 1)
			}
		case "leave":
			for k := range st.mon {
				if strings.HasPrefix(k, "lp:") || strings.HasPrefix(k, "bk:") {
					if strings.Contains(k, "#"+st.top().fn.Name()+".") {
						delete(st.mon, k)
					}
				}
			}
		}
	}
}
