package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "ghost-state path analysis of the producer's critical sections: every batch taken out of the buffer is sent once before the lock is released, every failed send is returned", ruleC21)
	register("C22", "path-sensitive lockset and typestate analysis of the producers' buffer and closed flag; ownership (copy) analysis of the message bytes", ruleC22)
	register("C23", "symbolic dataflow of partition numbers, leader lookups and caches in the producer", ruleC23)

}

func isPtrNamed(name string) func(types.Type) bool {
	return func(t types.Type) bool { return ptrTo(t, modPath, name) }
}

// prodModel: the parts of SimpleProducer the producer rules talk about.
type prodModel struct {
	c                                          *Ctx
	buf, lock, closed, leader, topic, part     string
	comp, cfg, closeCh                         string
	maxCount, magic                            string
	senders, inl                               map[*ssa.Function]bool
	roots                                      []*ssa.Function
	spawned                                    map[*ssa.Function]bool
	onAppend                                   func(x *Exec, st *State, ev *Event, p, old *Term, recs []rd)
	onProduce                                  func(x *Exec, st *State, ev *Event, req, broker rd)
	onStore, onAccess, onUnlock, onReturn, any func(x *Exec, st *State, ev *Event)
}

func newProdModel(c *Ctx) *prodModel {
	p := c.p
	m := &prodModel{c: c}
	m.buf = c.fieldOf("SimpleProducer", isSliceOf(isPtrNamed("Record")))
	m.lock = c.fieldOf("SimpleProducer", isLockType)
	m.closed = c.fieldOf("SimpleProducer", isBasic(types.Bool))
	m.leader = c.fieldOf("SimpleProducer", isPtrNamed("Broker"))
	m.topic = c.fieldOf("SimpleProducer", isBasic(types.String))
	m.part = c.fieldOf("SimpleProducer", isBasic(types.Int32))
	m.comp = c.fieldOf("SimpleProducer", func(t types.Type) bool { return isNamed(t, "CompressType") })
	m.cfg = c.fieldOf("SimpleProducer", isPtrNamed("ProducerConfig"))
	m.closeCh = c.fieldOf("SimpleProducer", func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok })
	m.maxCount = p.fieldByTag("ProducerConfig", "message.max.count")
	m.magic = p.fieldByTag("ProducerConfig", "healer.magicbyte")
	// functions that can send a produce request
	m.senders = p.reaches(func(f *ssa.Function) bool {
		return p.mentions(f, "ProduceRequest") && p.callsName(f, "Broker.RequestAndGet")
	}, false)
	m.spawned = p.spawnedFuncs()
	m.inl = map[*ssa.Function]bool{}
	own := map[string]bool{m.buf: true, m.closed: true, m.closeCh: true}
	for _, f := range p.funcs {
		if p.front(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && own[fieldKey(fa)] {
					m.inl[f] = true
				}
			}
		}
	}
	for _, f := range p.funcs {
		if m.senders[f] && !p.front(f) {
			m.inl[f] = true
		}
	}
	callers := p.callersOf()
	for _, f := range p.funcs {
		if !m.inl[f] || p.front(f) || p.touchesType(f, "Producer") || typeShort(recvType(f)) == "Producer" {
			continue // a Producer uses simple producers through their methods only; see forwarding
		}
		if f.Parent() != nil && !m.spawned[f] {
			continue // closures run inside their parents
		}
		if f.Parent() == nil && !token.IsExported(f.Name()) && len(callers[f]) > 0 && !m.spawned[f] {
			continue
		}
		m.roots = append(m.roots, f)
	}
	return m
}

// mentions: f has a value of type *T (or T) of the module.
func (p *Prog) mentions(f *ssa.Function, tn string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && (ptrTo(v.Type(), modPath, tn) || isNamed(v.Type(), tn)) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) callsName(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && fname(g) == name {
					return true
				}
			}
		}
	}
	return false
}

// touchesType: f accesses a field of the struct.
func (p *Prog) touchesType(f *ssa.Function, tn string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.FieldAddr:
				if strings.HasPrefix(fieldKey(i), tn+".") {
					return true
				}
			case *ssa.Field:
				if typeShort(i.X.Type()) == tn {
					return true
				}
			}
		}
	}
	return false
}

// api: an exported method of SimpleProducer.
func (m *prodModel) api(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && f.Parent() == nil && token.IsExported(f.Name()) && typeShort(recvType(f)) == "SimpleProducer" && m.inl[f]
}

func (m *prodModel) fieldOf(loc *Term, key string) *Term {
	if loc != nil && loc.Op == "fld" && loc.Str == key {
		return loc.Args[0]
	}
	return nil
}

func (m *prodModel) load(st *State, p *Term, key string, typ types.Type) *Term {
	return st.load(mkFld(p, nil, key), typ)
}

func (m *prodModel) recT() types.Type {
	return types.NewSlice(types.NewPointer(m.c.p.typ("Record")))
}

// emptySlice: the slice certainly has no elements.
func emptySlice(st *State, t *Term) bool {
	if t == tNil {
		return true
	}
	if t.Op == "alloc" && strings.HasPrefix(t.Str, "slice@") {
		l, ok := st.mem[mk("fld", "#len", t)]
		return ok && l == tInt(0)
	}
	if t.Op == "slice" {
		lo, ok1 := t.Args[1].intVal()
		hi, ok2 := t.Args[2].intVal()
		if ok1 && ok2 && lo == hi {
			return true
		}
		if t.Args[0].Op == "alloc" && t.Args[0].Typ != nil {
			if p, ok := t.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
					return true
				}
			}
		}
	}
	l := lenOf(t)
	if iv := st.ival(l); iv.hi <= 0 && iv.lo <= iv.hi {
		return true
	}
	if v, ok := st.evalBool(mkLt(tInt(0), l)); ok && !v {
		return true
	}
	if v, ok := st.evalBool(mkEq(l, tInt(0))); ok && v {
		return true
	}
	return false
}

// run explores the producer's entry points.
func (m *prodModel) run() {
	c := m.c
	for _, root := range m.roots {
		cfg := &Config{Merge: false, MaxState: 60000}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			if isCodec(g) || strings.HasPrefix(fname(g), "Broker") || c.p.front(g) {
				return false
			}
			return m.inl[g] || g.Parent() != nil
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if m.api(fn) && len(st.frames) > 0 {
				// judged as an entry point of its own
				t := x.callTerm(st, site, name, nil)
				for _, k := range []string{m.buf, m.closed} {
					st.havocField(k, t)
				}
				if rs := fn.Signature.Results(); rs.Len() != 1 || !isErrT(rs.At(0).Type()) {
					return []Outcome{{Res: resTerm(t, fn.Signature)}}, true
				}
				e := mkT(errType, "res", "0", t)
				return []Outcome{{Res: tNil}, {Res: e, Facts: []Fact{{mkEq(e, tNil), false}}, Set: map[string]*Term{"failed": e}, Tag: name + " fails"}}, true
			}
			if name != "Broker.RequestAndGet" {
				return nil, false
			}
			t := x.callTerm(st, site, name, nil)
			resp := mkT(site.Common().Signature().Results().At(0).Type(), "res", "0", t)
			e := mkT(errType, "res", "1", t)
			return []Outcome{
				{Res: mk("tuple", "", resp, tNil), Facts: []Fact{{mkEq(resp, tNil), false}}},
				{Res: mk("tuple", "", tNil, e), Facts: []Fact{{mkEq(e, tNil), false}}, Set: map[string]*Term{"failed": e}, Tag: "the request fails"},
			}, true
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			op, l := lockOp(st, ev)
			if op == "Unlock" && l.Op == "fld" && l.Str == m.lock && m.onUnlock != nil {
				m.onUnlock(x, st, &Event{Kind: "unlock", Loc: l.Args[0], Site: ev.Site})
			}
			trackLocks(st, ev)
			if op == "Lock" && l.Op == "fld" && strings.HasPrefix(l.Str, "SimpleProducer.") && !freshObj(l) {
				// another goroutine may have changed what the lock guards
				h := mk("call", "locked@"+x.site(st.top(), ev.Site))
				x.kill(st, h)
				st.havocField(m.buf, h)
				st.havocField(m.closed, h)
			}
			switch ev.Kind {
			case "store":
				if p := m.fieldOf(ev.Loc, m.buf); p != nil && m.onStore != nil {
					m.onStore(x, st, ev)
				}
				fallthrough
			case "load":
				if ev.Loc.Op == "fld" && (ev.Loc.Str == m.buf || ev.Loc.Str == m.closed) && m.onAccess != nil {
					m.onAccess(x, st, ev)
				}
			case "call":
				if ev.Name == "Broker.RequestAndGet" && len(ev.Args) == 2 {
					r := readArg(st, ev.Args[1])
					if r.ok() && ptrTo(r.typ, modPath, "ProduceRequest") && m.onProduce != nil {
						m.onProduce(x, st, ev, r, rd{st, ev.Args[0], ev.Args[0].Typ, nil})
					}
				}
			case "return":
				if m.onReturn != nil {
					m.onReturn(x, st, ev)
				}
			}
			if m.any != nil && !st.dead {
				m.any(x, st, ev)
			}
		}
		c.exec(root, cfg)
		c.count("entry points", 1)
		c.sample("entry " + fname(root))
	}
	c.floor("entry points", 4)
}

// batchOf reads the single record batch of a produce request.
func (m *prodModel) batchOf(req rd) (topic, part, batch rd) {
	tb := req.f("TopicBlocks").only()
	topic = tb.f("TopicName")
	pb := tb.f("PartitonBlocks").only()
	part = pb.f("Partition")
	batch = pb.f("RecordBatches").only()
	return
}

// appended: the store adds records to the buffer it was read from; the records are returned.
func (m *prodModel) appended(st *State, old, v *Term) ([]rd, bool) {
	if v.Op != "app" || v.Str != "append" || v.Args[0] != old {
		return nil, false
	}
	return rd{st, v.Args[1], m.recT(), nil}.elems()
}

// ---------------------------------------------------------------- C21

func ruleC21(c *Ctx) {
	m := newProdModel(c)
	c.rule("taken-once", "under the lock, the buffer only grows by new records or is emptied; what is taken out of it is sent by exactly one produce request before the lock is released")
	c.rule("whole", "a produce request carries the whole content of the buffer, for the producer's own topic and partition, on the connection to its leader")
	c.rule("full", "after adding a message the lock is released only with fewer messages buffered than message.max.count, or after sending")
	c.rule("close", "the connection is closed, and close returns, only with an empty buffer")
	c.rule("reported", "a failing send makes the call that triggered it return an error")
	c.rule("forwarded", "a Producer hands each message to one SimpleProducer, again only if that one was closed, and reports its error")
	m.onStore = func(x *Exec, st *State, ev *Event) {
		p := m.fieldOf(ev.Loc, m.buf)
		if freshObj(p) {
			return
		}
		old := st.load(ev.Loc, m.recT())
		c.count("buffer updates", 1)
		if _, ok := m.appended(st, old, ev.Val); ok {
			st.setFlag("added", true)
			return
		}
		if !emptySlice(st, ev.Val) {
			c.fail("taken-once", fname(st.top().fn), instrPos(ev.Site), st.path(), "the buffer is replaced by something that is neither the buffer plus new records nor empty")
			return
		}
		if emptySlice(st, old) {
			return
		}
		if st.get("sent") == old {
			return
		}
		if st.get("taken") != nil {
			c.fail("taken-once", fname(st.top().fn), instrPos(ev.Site), st.path(), "a second batch is taken out of the buffer before the first one was sent")
		}
		st.set("taken", old)
	}
	m.onProduce = func(x *Exec, st *State, ev *Event, req, broker rd) {
		c.count("produce requests", 1)
		fn := fname(st.top().fn)
		if l := fieldLoc(broker.t); l == nil || l.Str != m.leader {
			c.fail("whole", fn, instrPos(ev.Site), st.path(), "the produce request is not sent on the connection to the producer's leader")
			return
		}
		p := fieldLoc(broker.t).Args[0]
		topic, part, batch := m.batchOf(req)
		if !batch.ok() || !topic.ok() || !part.ok() {
			c.fail("whole", fn, instrPos(ev.Site), st.path(), "the produce request does not hold exactly one topic, partition and record batch")
			return
		}
		if topic.t != m.load(st, p, m.topic, topic.typ) {
			c.fail("whole", fn, instrPos(ev.Site), st.path(), "the produce request is for topic %v, not the producer's", topic.t)
		}
		if part.t != m.load(st, p, m.part, part.typ) {
			c.fail("whole", fn, instrPos(ev.Site), st.path(), "the produce request is for partition %v, not the producer's", part.t)
		}
		recs := batch.f("Records")
		if !recs.ok() {
			c.fail("whole", fn, instrPos(ev.Site), st.path(), "the record batch has no records")
			return
		}
		held := false
		for _, l := range heldLocks(st) {
			if l.Op == "fld" && l.Str == m.lock && l.Args[0] == p {
				held = true
			}
		}
		if !held {
			c.fail("taken-once", fn, instrPos(ev.Site), st.path(), "the batch is sent outside the critical section in which it was taken, so that close or a flush can return before it was sent")
		}
		cur := m.load(st, p, m.buf, m.recT())
		switch {
		case st.get("sent") != nil && st.get("sent") == recs.t:
			c.fail("taken-once", fn, instrPos(ev.Site), st.path(), "the same batch is sent again")
		case recs.t == st.get("taken"):
			st.set("taken", nil)
		case recs.t == cur:
		default:
			c.fail("whole", fn, instrPos(ev.Site), st.path(), "the records sent are not the content of the buffer")
		}
		st.set("sent", recs.t)
	}
	m.onUnlock = func(x *Exec, st *State, ev *Event) {
		fn := fname(st.top().fn)
		cur := m.load(st, ev.Loc, m.buf, m.recT())
		if st.get("taken") != nil {
			c.fail("taken-once", fn, instrPos(ev.Site), st.path(), "records were taken out of the buffer but not sent")
		}
		if s := st.get("sent"); s != nil && s == cur {
			c.fail("taken-once", fn, instrPos(ev.Site), st.path(), "records were sent but left in the buffer, so that they are sent again")
		}
		if st.flag("added") && !emptySlice(st, cur) {
			max := m.load(st, m.load(st, ev.Loc, m.cfg, types.NewPointer(c.p.typ("ProducerConfig"))), m.maxCount, types.Typ[types.Int])
			if v, ok := st.evalBool(mkLt(lenOf(cur), max)); !ok || !v {
				c.fail("full", fn, instrPos(ev.Site), st.path(), "a message was added, and the buffer may be full without having been sent")
			} else {
				c.count("additions below the limit", 1)
			}
		}
		if v, ok := st.evalBool(m.load(st, ev.Loc, m.closed, types.Typ[types.Bool])); ok && v && fname(x.root) == "SimpleProducer.Close" && !emptySlice(st, cur) {
			c.fail("close", fn, instrPos(ev.Site), st.path(), "the producer is closed with messages left in its buffer")
		}
		st.set("taken", nil)
		st.set("sent", nil)
		st.setFlag("added", false)
		c.count("critical sections", 1)
	}
	m.any = func(x *Exec, st *State, ev *Event) {
		if ev.Kind == "call" && ev.Name == "Broker.Close" {
			if l := fieldLoc(ev.Args[0]); l != nil && l.Str == m.leader {
				p := l.Args[0]
				c.count("closes of the connection", 1)
				if !emptySlice(st, m.load(st, p, m.buf, m.recT())) || st.get("taken") != nil {
					c.fail("close", fname(st.top().fn), instrPos(ev.Site), st.path(), "the connection is closed before the messages left in the buffer are sent")
				}
			}
		}
	}
	m.onReturn = func(x *Exec, st *State, ev *Event) {
		if st.get("failed") == nil {
			return
		}
		c.count("returns after a failed send", 1)
		e := errResult(ev.Fn, ev.Res)
		if e == nil {
			what := fname(ev.Fn)
			if m.spawned[ev.Fn] {
				what = "background flush"
			}
			c.fail("reported", what, instrPos(ev.Site), st.path(), "%s: sending a batch failed and nobody is told (the batch is lost)", what)
			return
		}
		if n, ok := st.nilness(e); !ok || n {
			c.fail("reported", fname(ev.Fn), instrPos(ev.Site), st.path(), "sending a batch failed but the call may return success")
		}
	}
	m.run()
	c.floor("produce requests", 3)
	c.floor("critical sections", 4)
	c.floor("closes of the connection", 1)
	c.floor("additions below the limit", 1)
	// Producer
	c.forwarding(m)
}

// forwarding: Producer.AddMessage and Producer.Close.
func (c *Ctx) forwarding(m *prodModel) {
	p := c.p
	add := c.anchor("Producer.AddMessage")
	cls := c.anchor("Producer.Close")
	if add == nil || cls == nil {
		return
	}
	inProducer := func(g *ssa.Function) bool { return p.touchesType(g, "Producer") || g.Parent() != nil }
	cfg := &Config{MaxState: 60000}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return false }
	cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		switch name {
		case "SimpleProducer.AddMessage":
			t := x.callTerm(st, site, name, nil)
			e := mkT(errType, "res", "0", t)
			closed := p.errVar("ErrProducerClosed")
			return []Outcome{
				{Res: tNil, Set: map[string]*Term{"done": tTrue, "okay": tTrue}},
				{Res: closed, Facts: []Fact{{mkEq(closed, tNil), false}}, Set: map[string]*Term{"shut": tTrue}, Tag: "the simple producer is closed"},
				{Res: e, Facts: []Fact{{mkEq(e, tNil), false}, {mkEq(e, closed), false}}, Set: map[string]*Term{"done": tTrue, "failed": tTrue}, Tag: "the simple producer fails"},
			}, true
		}
		return nil, false
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		if ev.Kind == "call" && ev.Name == "SimpleProducer.AddMessage" {
			c.count("forwarded messages", 1)
			if st.flag("done") {
				c.fail("forwarded", fname(add), instrPos(ev.Site), st.path(), "a message that was accepted already, or whose sending failed, is added again")
			}
			for i := 1; i < 3; i++ {
				if len(ev.Args) == 3 && (ev.Args[i] != mkT(add.Params[i].Type(), "param", add.Params[i].Name())) {
					c.fail("forwarded", fname(add), instrPos(ev.Site), st.path(), "the simple producer gets %v instead of the caller's %s", ev.Args[i], add.Params[i].Name())
				}
			}
		}
		if ev.Kind == "return" {
			e := errResult(ev.Fn, ev.Res)
			if e == nil {
				return
			}
			n, known := st.nilness(e)
			if (!known || n) && !st.flag("okay") {
				c.fail("forwarded", fname(add), instrPos(ev.Site), st.path(), "success is reported though no simple producer accepted the message")
			}
			if known && !n && st.flag("okay") {
				c.fail("forwarded", fname(add), instrPos(ev.Site), st.path(), "an error is reported though the message was accepted")
			}
		}
	}
	c.exec(add, cfg)
	c.floor("forwarded messages", 1)
	_ = inProducer
	// Close: all simple producers are closed (flushed) before the connections they share
	spMap := c.fieldOf("Producer", func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		return ok && ptrTo(mt.Elem(), modPath, "SimpleProducer")
	})
	cur := c.fieldOf("Producer", isPtrNamed("SimpleProducer"))
	ccfg := &Config{MaxState: 60000}
	ccfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		return !strings.HasPrefix(fname(g), "SimpleProducer") && !strings.HasPrefix(fname(g), "Broker")
	}
	ccfg.Event = func(x *Exec, st *State, ev *Event) {
		switch {
		case ev.Kind == "branch" && nextOver(ev.Val, spMap) != nil:
			if st.get("open") != nil {
				c.fail("close", fname(cls), instrPos(ev.Site), st.path(), "a simple producer of the producer is not closed")
			}
			if ev.Idx == 1 {
				st.set("open", mk("open", "", nextOver(ev.Val, spMap)))
			} else {
				st.set("open", nil)
				st.setFlag("drained", true)
			}
		case ev.Kind == "call" && ev.Name == "SimpleProducer.Close":
			if o := st.get("open"); o != nil && ev.Args[0].contains(o.Args[0]) {
				st.set("open", nil)
			}
			if l := fieldLoc(ev.Args[0]); l != nil && l.Str == cur {
				st.setFlag("current", true)
			}
			c.count("simple producers closed", 1)
		case ev.Kind == "branch":
			// currentProducer == nil
			if ev.Val.Op == "eq" || ev.Val.Op == "not" {
				a := ev.Val
				v := ev.Idx == 1
				if a.Op == "not" {
					a, v = a.Args[0], !v
				}
				if a.Op == "eq" && v {
					for _, y := range a.Args {
						if l := fieldLoc(y); l != nil && l.Str == cur {
							st.setFlag("current", true)
						}
					}
				}
			}
		case ev.Kind == "call" && ev.Name == "Broker.Close":
			if !st.flag("drained") {
				c.fail("close", fname(cls), instrPos(ev.Site), st.path(), "a connection is closed before all simple producers using it were closed (flushed)")
			}
		case ev.Kind == "return":
			if !st.flag("drained") || !st.flag("current") {
				c.fail("close", fname(cls), instrPos(ev.Site), st.path(), "closing a producer does not close all of its simple producers")
			}
		}
	}
	c.exec(cls, ccfg)
	c.floor("simple producers closed", 2)
}

// nextOver: v is the "one more element" outcome of ranging over the field; the iterator step is returned.
func nextOver(v *Term, field string) *Term {
	if v.Op == "not" {
		return nil
	}
	if v.Op != "res" || v.Str != "0" || !strings.HasPrefix(v.Args[0].Str, "next@") {
		return nil
	}
	it := v.Args[0].Args[0]
	if it.Op == "app" && it.Str == "range" {
		if l := fieldLoc(it.Args[0]); l != nil && l.Op == "fld" && l.Str == field {
			return v.Args[0]
		}
	}
	return nil
}

// errVar: the value of a package-level error variable of the root package.
func (p *Prog) errVar(name string) *Term {
	for _, pkg := range p.modPkgs() {
		if g, ok := pkg.Members[name].(*ssa.Global); ok && pkg.Pkg.Path() == modPath {
			return mkT(errType, "ld", "", mkT(g.Type(), "global", g.Name()))
		}
	}
	return mk("missing", name)
}

// ---------------------------------------------------------------- C17, the producer's side

func (c *Ctx) producedBatches() {
	c.rule("produced", "a batch the producer sends has magic 2, the compression code of the producer, last offset delta one less than the number of its records and max timestamp equal to the base timestamp (all deltas being 0)")
	c.rule("record", "a record is buffered with its position in the buffer as offset delta, timestamp delta 0 and the caller's key and value")
	m := newProdModel(c)
	m.onStore = func(x *Exec, st *State, ev *Event) {
		p := m.fieldOf(ev.Loc, m.buf)
		old := st.load(ev.Loc, m.recT())
		if freshObj(p) {
			return
		}
		recs, ok := m.appended(st, old, ev.Val)
		if !ok {
			return // judged by C21
		}
		fn := fname(st.top().fn)
		for i, r := range recs {
			c.count("records buffered", 1)
			if d := r.f("offsetDelta"); !d.ok() || !linIs(d.t, lenOf(old), int64(i)) {
				if !(d.ok() && emptySlice(st, old) && linIs(d.t, tInt(0), int64(i))) {
					c.fail("record", fn, instrPos(ev.Site), st.path(), "the offset delta of a record is %v, not its position in the batch", d.t)
				}
			}
			if d := r.f("timestampDelta"); !d.ok() || d.t != tInt(0) {
				c.fail("record", fn, instrPos(ev.Site), st.path(), "the timestamp delta of a record is not 0")
			}
			root := x.root
			for _, f := range []string{"key", "value"} {
				v := r.f(f)
				par := messageParam(root, f)
				if par == nil {
					c.fail("record", fn, instrPos(ev.Site), st.path(), "%s buffers a record that is not the caller's message", fname(root))
					break
				}
				if !v.ok() || !hasBytes(st, v.t, par, f == "key") {
					c.fail("record", fn, instrPos(ev.Site), st.path(), "the %s of the buffered record is %v, not the caller's %s", f, v.t, f)
				}
			}
		}
	}
	m.onProduce = func(x *Exec, st *State, ev *Event, req, broker rd) {
		fn := fname(st.top().fn)
		l := fieldLoc(broker.t)
		_, _, b := m.batchOf(req)
		recs := b.f("Records")
		if l == nil || !recs.ok() {
			return // judged by C21
		}
		p := l.Args[0]
		c.count("batches produced", 1)
		bad := func(format string, a ...any) { c.fail("produced", fn, instrPos(ev.Site), st.path(), format, a...) }
		if d := b.f("LastOffsetDelta"); !d.ok() || !linIs(d.t, lenOf(recs.t), -1) {
			bad("the last offset delta of the batch is %v, not the number of records less one", d.t)
		}
		if a := b.f("Attributes"); !a.ok() || a.t != m.load(st, p, m.comp, m.c.p.typ("CompressType")) {
			bad("the attributes of the batch are %v, not the producer's compression code", a.t)
		}
		if a := b.f("Magic"); !a.ok() || a.t != tInt(2) && !(fieldLoc(a.t) != nil && fieldLoc(a.t).Str == m.magic) {
			bad("the magic byte of the batch is %v", a.t)
		}
		if a, z := b.f("BaseTimestamp"), b.f("MaxTimestamp"); !a.ok() || a.t != z.t {
			bad("base and max timestamp of the batch differ though every record has timestamp delta 0")
		}
		if a := b.f("BaseOffset"); !a.ok() || a.t != tInt(0) {
			bad("the base offset of the batch is %v", a.t)
		}
	}
	m.run()
	c.floor("records buffered", 1)
	c.floor("batches produced", 3)
}

// messageParam: the key ([]byte, first) or value ([]byte, last) parameter of a producing entry point.
func messageParam(f *ssa.Function, which string) *Term {
	var bs []*ssa.Parameter
	for _, p := range f.Params {
		if isSliceOf(isBasic(types.Byte))(p.Type()) {
			bs = append(bs, p)
		}
	}
	if len(bs) != 2 {
		return nil
	}
	p := bs[0]
	if which == "value" {
		p = bs[1]
	}
	return mkT(p.Type(), "param", p.Name())
}

// copyOf: v is a fresh copy of the slice src; aliased: v shares its bytes.
func copyOf(st *State, v, src *Term) bool {
	if v.Op == "alloc" && strings.HasPrefix(v.Str, "slice@") {
		n := st.mem[mk("fld", "#len", v)]
		return st.mem[mk("fld", "#copyof", v)] == src && n == lenOf(src)
	}
	if v.Op == "slice" && v.Args[0].Op == "alloc" {
		return false
	}
	if v.Op == "app" && v.Str == "append" && v.Args[1] == src {
		b := v.Args[0]
		return b == tNil || emptySlice(st, b) && b.any(func(t *Term) bool { return t.Op == "alloc" })
	}
	r := v
	for r.Op == "res" {
		r = r.Args[0]
	}
	if (r.Op == "call" || r.Op == "app") && (strings.HasPrefix(r.Str, "bytes.Clone") || strings.HasPrefix(r.Str, "slices.Clone")) {
		return len(r.Args) == 1 && r.Args[0] == src
	}
	return false
}

// sameBytes: v has the bytes of src (copied or not); with keepNil, nil exactly when src is.
func hasBytes(st *State, v, src *Term, keepNil bool) bool {
	n, known := st.nilness(src)
	if v == src {
		return true
	}
	if v == tNil {
		return known && n
	}
	if !copyOf(st, v, src) {
		return false
	}
	if !keepNil || v.Op != "alloc" {
		return true
	}
	return known && !n
}

// ---------------------------------------------------------------- C22

func ruleC22(c *Ctx) {
	p := c.p
	m := newProdModel(c)
	c.rule("guarded", "the buffer and the closed flag of a shared producer are accessed only with its lock held")
	c.rule("rejected", "a message is added to the buffer only after the closed flag was seen false in the same critical section; adding to a closed producer returns an error, and success is returned only for an added message")
	c.rule("closed", "when close releases the lock the closed flag is set and the buffer is empty; the flag is never reset")
	c.rule("twice", "the shutdown channel is closed at most once")
	c.rule("copied", "key and value of a buffered record are copies of the caller's slices")
	c.rule("no-revival", "a closed Producer gets no new simple producer")
	isFalse := func(st *State, t *Term) bool { v, ok := st.evalBool(t); return ok && !v }
	isTrue := func(st *State, t *Term) bool { v, ok := st.evalBool(t); return ok && v }
	m.onAccess = func(x *Exec, st *State, ev *Event) {
		o := ev.Loc.Args[0]
		if freshObj(o) {
			return
		}
		c.count("guarded accesses", 1)
		held := false
		for _, l := range heldLocks(st) {
			if l.Op == "fld" && l.Str == m.lock && l.Args[0] == o {
				held = true
			}
		}
		if !held {
			c.fail("guarded", fname(st.top().fn), instrPos(ev.Site), st.path(), "%s is accessed without the producer's lock", ev.Loc.Str)
		}
		if ev.Kind == "store" && ev.Loc.Str == m.closed {
			if ev.Val != tTrue {
				c.fail("closed", fname(st.top().fn), instrPos(ev.Site), st.path(), "the closed flag of a producer is set to %v", ev.Val)
			}
			st.setFlag("shut", true)
		}
	}
	m.onStore = func(x *Exec, st *State, ev *Event) {
		o := m.fieldOf(ev.Loc, m.buf)
		if freshObj(o) {
			return
		}
		old := st.load(ev.Loc, m.recT())
		recs, ok := m.appended(st, old, ev.Val)
		if !ok {
			return
		}
		st.incr("added", 2)
		c.count("additions", 1)
		if !isFalse(st, m.load(st, o, m.closed, types.Typ[types.Bool])) {
			c.fail("rejected", fname(st.top().fn), instrPos(ev.Site), st.path(), "a message is buffered though the producer may have been closed")
		}
		for _, r := range recs {
			for _, f := range []string{"key", "value"} {
				v := r.f(f)
				par := messageParam(x.root, f)
				if par == nil || !v.ok() {
					continue
				}
				if v.t != tNil && !copyOf(st, v.t, par) {
					c.fail("copied", fname(st.top().fn), instrPos(ev.Site), st.path(), "the %s of the buffered record is not a copy of the caller's slice", f)
				}
			}
		}
	}
	m.onUnlock = func(x *Exec, st *State, ev *Event) {
		cl := m.load(st, ev.Loc, m.closed, types.Typ[types.Bool])
		buf := m.load(st, ev.Loc, m.buf, m.recT())
		if isTrue(st, cl) {
			if st.flag("shut") && !emptySlice(st, buf) {
				c.fail("closed", fname(st.top().fn), instrPos(ev.Site), st.path(), "the producer is marked closed with messages left in its buffer")
			}
			st.setFlag("sawclosed", true)
		}
		if fname(x.root) == "SimpleProducer.Close" {
			c.count("close sections", 1)
			if !isTrue(st, cl) {
				c.fail("closed", fname(st.top().fn), instrPos(ev.Site), st.path(), "close releases the lock without having marked the producer closed")
			}
		}
	}
	m.onReturn = func(x *Exec, st *State, ev *Event) {
		if fname(x.root) != "SimpleProducer.AddMessage" {
			return
		}
		e := errResult(ev.Fn, ev.Res)
		if e == nil {
			c.fail("rejected", fname(x.root), instrPos(ev.Site), st.path(), "AddMessage returns no error")
			return
		}
		n, known := st.nilness(e)
		if st.flag("sawclosed") {
			c.count("rejections", 1)
			if !known || n {
				c.fail("rejected", fname(x.root), instrPos(ev.Site), st.path(), "adding a message to a closed producer may report success")
			}
		}
		if (!known || n) && st.count("added") != 1 {
			c.fail("rejected", fname(x.root), instrPos(ev.Site), st.path(), "success may be reported though the message was added %d times", st.count("added"))
		}
	}
	m.any = func(x *Exec, st *State, ev *Event) {
		if ev.Kind != "close" || fieldLoc(ev.Loc) == nil || fieldLoc(ev.Loc).Str != m.closeCh {
			return
		}
		c.count("shutdowns", 1)
		o := fieldLoc(ev.Loc).Args[0]
		for _, f := range st.frames {
			if ci, ok := f.call.(ssa.CallInstruction); ok && ci != nil {
				if g := ci.Common().StaticCallee(); g != nil && funcName(g) == "sync.Once.Do" {
					if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa), "SimpleProducer.") {
						return
					}
				}
			}
		}
		if isFalse(st, m.load(st, o, m.closed, types.Typ[types.Bool])) || st.flag("shut") {
			if st.get("onlyonce") != nil {
				c.fail("twice", fname(st.top().fn), instrPos(ev.Site), st.path(), "the shutdown channel is closed twice")
			}
			st.setFlag("onlyonce", true)
			if st.flag("shut") && !st.flag("wasopen") {
				c.fail("twice", fname(st.top().fn), instrPos(ev.Site), st.path(), "the shutdown channel may be closed a second time")
			}
			return
		}
		c.fail("twice", fname(st.top().fn), instrPos(ev.Site), st.path(), "the shutdown channel may be closed a second time")
	}
	base := m.onAccess
	m.onAccess = func(x *Exec, st *State, ev *Event) {
		if ev.Kind == "store" && ev.Loc.Str == m.closed && isFalse(st, st.load(ev.Loc, types.Typ[types.Bool])) {
			st.setFlag("wasopen", true)
		}
		base(x, st, ev)
	}
	m.run()
	c.floor("additions", 1)
	c.floor("rejections", 1)
	c.floor("close sections", 1)
	c.floor("shutdowns", 1)

	// the Producer around it
	cls := c.anchor("Producer.Close")
	if cls == nil {
		return
	}
	spMap := c.fieldOf("Producer", func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		return ok && ptrTo(mt.Elem(), modPath, "SimpleProducer")
	})
	cur := c.fieldOf("Producer", isPtrNamed("SimpleProducer"))
	plock := c.fieldOf("Producer", isLockType)
	var flags map[string]bool
	cfg := &Config{MaxState: 60000}
	outside := func(g *ssa.Function) bool {
		n := fname(g)
		return strings.HasPrefix(n, "SimpleProducer") || strings.HasPrefix(n, "Broker") || n == "NewSimpleProducer"
	}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		return !outside(g) && (p.touchesType(g, "Producer") || g.Parent() != nil)
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		trackLocks(st, ev)
		if ev.Kind == "return" {
			set := map[string]bool{}
			for l, v := range st.mem {
				if l.Op == "fld" && strings.HasPrefix(l.Str, "Producer.") && v == tTrue {
					set[l.Str] = true
				}
			}
			if flags == nil {
				flags = set
			}
			for k := range flags {
				if !set[k] {
					delete(flags, k)
				}
			}
		}
		if ev.Kind == "store" && ev.Loc.Op == "fld" && strings.HasPrefix(ev.Loc.Str, "Producer.") && ev.Val == tTrue && !holds(st, mkFld(ev.Loc.Args[0], nil, plock)) {
			c.fail("guarded", fname(cls), instrPos(ev.Site), st.path(), "the producer is marked closed without its lock")
		}
	}
	c.exec(cls, cfg)
	if len(flags) == 0 {
		c.fail("no-revival", fname(cls), cls.Pos(), nil, "closing a Producer leaves no mark, so that later calls and the metadata refresh give it new simple producers")
		return
	}
	callers := p.callersOf()
	touching := p.reaches(func(f *ssa.Function) bool { return p.touchesType(f, "Producer") }, false)
	for _, f := range p.funcs {
		if p.front(f) || !touching[f] || !isEntry(p, f, callers, m.spawned) || f.Parent() != nil && !m.spawned[f] {
			continue
		}
		cfg := &Config{MaxState: 60000, Inline: cfg.Inline, Merge: true}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			op, l := lockOp(st, ev)
			trackLocks(st, ev)
			if op == "Lock" && l.Op == "fld" && l.Str == plock {
				h := mk("call", "locked@"+x.site(st.top(), ev.Site))
				x.kill(st, h)
				for k := range flags {
					st.havocField(k, h)
				}
			}
			var o *Term
			switch ev.Kind {
			case "store":
				if ev.Loc.Op == "fld" && ev.Loc.Str == cur {
					o = ev.Loc.Args[0]
				}
				if ev.Loc.Op == "fld" && flags[ev.Loc.Str] && ev.Val != tTrue && !freshObj(ev.Loc) {
					c.fail("no-revival", fname(st.top().fn), instrPos(ev.Site), st.path(), "a closed Producer is marked open again")
				}
			case "mapupdate":
				if l := fieldLoc(ev.Loc); l != nil && l.Op == "fld" && l.Str == spMap {
					o = l.Args[0]
				}
			}
			if o == nil || freshObj(o) {
				return
			}
			c.count("simple producers installed", 1)
			ok := false
			for k := range flags {
				if isFalse(st, m.load(st, o, k, types.Typ[types.Bool])) {
					ok = true
				}
			}
			if !ok || !holds(st, mkFld(o, nil, plock)) {
				c.fail("no-revival", fname(st.top().fn), instrPos(ev.Site), st.path(), "a simple producer is installed though the Producer may have been closed")
			}
		}
		c.exec(f, cfg)
	}
	c.floor("simple producers installed", 2)
}

// ---------------------------------------------------------------- C23

func ruleC23(c *Ctx) {
	p := c.p
	c.rule("keyed", "the partition of a keyed message is hash(key) modulo the number of partitions in the topic's metadata, computed on unsigned (or masked) values from nothing else")
	c.rule("same", "cached simple producers are stored and looked up under the partition they were made for, and a message goes to one of its own partition")
	c.rule("leader", "a simple producer of a Producer is given the broker whose id is the leader of the metadata entry with that partition and no error, cached under that id")
	c.rule("unkeyed", "the partition for messages without key is picked among those whose metadata has no error code")
	c.rule("carried", "a simple producer keeps the topic, partition and leader it was created with")
	add := c.anchor("Producer.AddMessage")
	nsp := c.anchor("NewSimpleProducer")
	if add == nil || nsp == nil {
		return
	}
	spMap := c.fieldOf("Producer", func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		return ok && ptrTo(mt.Elem(), modPath, "SimpleProducer")
	})
	brMap := c.fieldOf("Producer", func(t types.Type) bool {
		mt, ok := t.Underlying().(*types.Map)
		return ok && ptrTo(mt.Elem(), modPath, "Broker")
	})
	cur := c.fieldOf("Producer", isPtrNamed("SimpleProducer"))
	topicF := c.fieldOf("Producer", isBasic(types.String))
	leaderKey := func(t *Term) bool {
		for t.Op == "iface" {
			t = t.Args[0]
		}
		return t.Op == "ld" && t.Args[0].Op == "global" && t.Args[0].Str == "leaderKey" || t.isConst() && strings.Contains(t.Str, "leader")
	}
	key := messageParam(add, "key")
	nparts := func(t *Term) bool {
		if t.Op != "app" || t.Str != "len" {
			return false
		}
		l := fieldLoc(t.Args[0])
		return l != nil && l.Op == "fld" && l.Str == "TopicMetadata.PartitionMetadatas" && strings.Contains(rootFieldPath(l), "Producer.")
	}
	isHash := func(t *Term) bool {
		ok := true
		seen := false
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == key {
				seen = true
				return
			}
			switch {
			case t.isConst():
				return
			case t.Op == "bin", t.Op == "res":
			case (t.Op == "call" || t.Op == "app") && (strings.HasPrefix(t.Str, "murmur.") || strings.Contains(t.Str, "go-murmur") || strings.HasPrefix(t.Str, "hash/") || strings.HasPrefix(t.Str, "crc32.") || strings.HasPrefix(t.Str, "conv:")):
			default:
				ok = false
				return
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(t)
		return ok && seen
	}
	isKeyed := func(t *Term) bool {
		return t.Op == "bin" && t.Str == "%" && nparts(t.Args[1]) && isHash(t.Args[0])
	}
	// signed remainders may be negative
	inl := func(g *ssa.Function) bool {
		n := fname(g)
		return !strings.HasPrefix(n, "SimpleProducer") && !strings.HasPrefix(n, "Broker") && n != "NewSimpleProducer" && !isCodec(g) && n != "createProducerConfig"
	}
	for f := range p.reachFrom(add, inl) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.REM {
					continue
				}
				c.count("remainders", 1)
				if bt, ok := bo.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
					continue
				}
				if m, ok := bo.X.(*ssa.BinOp); ok && m.Op == token.AND {
					if k, ok := m.Y.(*ssa.Const); ok && k.Int64() >= 0 {
						continue
					}
				}
				if cv, ok := bo.X.(*ssa.Convert); ok { // a widening conversion of an unsigned value stays positive
					from, ok1 := cv.X.Type().Underlying().(*types.Basic)
					to, ok2 := cv.Type().Underlying().(*types.Basic)
					if ok1 && ok2 && from.Info()&types.IsUnsigned != 0 && types.SizesFor("gc", "amd64").Sizeof(to) > types.SizesFor("gc", "amd64").Sizeof(from) {
						continue
					}
				}
				c.fail("keyed", fname(f), bo.Pos(), nil, "the remainder of a signed value may be negative, which is no partition")
			}
		}
	}
	c.floor("remainders", 1)

	var roots []*ssa.Function
	spawned := p.spawnedFuncs()
	callers := p.callersOf()
	touching := p.reaches(func(f *ssa.Function) bool { return p.touchesType(f, "Producer") }, false)
	for _, f := range p.funcs {
		if !p.front(f) && touching[f] && isEntry(p, f, callers, spawned) && (f.Parent() == nil || spawned[f]) {
			roots = append(roots, f)
		}
	}
	for _, root := range roots {
		root := root
		cfg := &Config{MaxState: 100000, Merge: true, PartPtr: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return inl(g) }
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			switch name {
			case "NewSimpleProducer":
				t := x.callTerm(st, site, name, nil)
				sp := mkT(site.Common().Signature().Results().At(0).Type(), "res", "0", t)
				e := mkT(errType, "res", "1", t)
				return []Outcome{
					{Res: mk("tuple", "", sp, tNil), Facts: []Fact{{mkEq(sp, tNil), false}}, Set: map[string]*Term{"?sp": mk("pair", "", sp, args[2])}},
					{Res: mk("tuple", "", tNil, e), Facts: []Fact{{mkEq(e, tNil), false}}},
				}, true
			case "Brokers.NewBroker":
				t := x.callTerm(st, site, name, nil)
				br := mkT(site.Common().Signature().Results().At(0).Type(), "res", "0", t)
				e := mkT(errType, "res", "1", t)
				return []Outcome{
					{Res: mk("tuple", "", br, tNil), Facts: []Fact{{mkEq(br, tNil), false}}, Set: map[string]*Term{"?br": mk("pair", "", br, args[1])}},
					{Res: mk("tuple", "", tNil, e), Facts: []Fact{{mkEq(e, tNil), false}}},
				}, true
			}
			return nil, false
		}
		lookedUp := func(t *Term, field string) *Term { // key under which the value was found in the map
			if t.Op == "res" && t.Str == "0" {
				t = t.Args[0]
			}
			if t.Op == "call" && strings.HasPrefix(t.Str, "lookup@") {
				if l := fieldLoc(t.Args[0]); l != nil && l.Op == "fld" && l.Str == field {
					return t.Args[1]
				}
			}
			return nil
		}
		leaderOf := func(st *State, id *Term) *Term { // the partition this id is the leader of
			if pr := st.get("?lead"); pr != nil && pr.Args[0] == id {
				return pr.Args[1]
			}
			return nil
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			fn := fname(st.top().fn)
			switch ev.Kind {
			case "branch":
				a, v := ev.Val, ev.Idx == 1
				if a.Op == "not" {
					a, v = a.Args[0], !v
				}
				if a.Op != "eq" || !v {
					return
				}
				for i := 0; i < 2; i++ {
					l := fieldLoc(a.Args[i])
					if l == nil || l.Op != "fld" {
						continue
					}
					switch l.Str {
					case "PartitionMetadataInfo.PartitionID":
						st.set("?match", mk("pair", "", l.Args[0], a.Args[1-i]))
					case "PartitionMetadataInfo.PartitionErrorCode":
						if a.Args[1-i] == tInt(0) {
							st.set("?noerr", l.Args[0])
						}
					default:
						continue
					}
					if mt := st.get("?match"); mt != nil && mt.Args[0] == l.Args[0] && st.get("?noerr") == l.Args[0] {
						id := st.load(mkFld(l.Args[0], nil, "PartitionMetadataInfo.Leader"), types.Typ[types.Int32])
						st.set("?lead", mk("pair", "", id, mt.Args[1]))
					}
				}
			case "lookup", "lookupok":
				if l := fieldLoc(ev.Loc); l != nil && l.Op == "fld" && l.Str == spMap {
					st.set("?sp", mk("pair", "", ev.Res, ev.Val))
				} else if l != nil && l.Op == "fld" && l.Str == brMap {
					st.set("?br", mk("pair", "", ev.Res, ev.Val))
				}
			case "mapupdate":
				l := fieldLoc(ev.Loc)
				if l == nil || l.Op != "fld" {
					return
				}
				switch l.Str {
				case spMap:
					c.count("cached simple producers", 1)
					pr := st.get("?sp")
					if pr == nil || pr.Args[0] != ev.Val || pr.Args[1] != ev.Args[0] {
						c.fail("same", fn, instrPos(ev.Site), st.path(), "a simple producer is cached under %v, which is not the partition it was made for", ev.Args[0])
					}
				case brMap:
					pr := st.get("?br")
					if pr == nil || pr.Args[0] != ev.Val || pr.Args[1] != ev.Args[0] {
						c.fail("leader", fn, instrPos(ev.Site), st.path(), "a broker is cached under %v, which is not its id", ev.Args[0])
					}
				}
			case "call":
				switch {
				case ev.Name == "SimpleProducer.AddMessage":
					c.count("messages handed on", 1)
					sp := ev.Args[0]
					n, known := st.nilness(key)
					pr := st.get("?sp")
					k := lookedUp(sp, spMap)
					if k == nil && pr != nil && pr.Args[0] == sp {
						k = pr.Args[1]
					}
					switch {
					case k != nil:
						if !isKeyed(k) {
							c.fail("keyed", fn, instrPos(ev.Site), st.path(), "a keyed message goes to partition %v, which is not hash(key) modulo the partition count", k)
						}
					case fieldLoc(sp) != nil && fieldLoc(sp).Op == "fld" && fieldLoc(sp).Str == cur:
						if !st.flag("nokey") && (!known || !n) {
							c.fail("keyed", fn, instrPos(ev.Site), st.path(), "a message that may have a key goes to the current partition for messages without key")
						}
					default:
						c.fail("same", fn, instrPos(ev.Site), st.path(), "the message is handed to %v", sp)
					}
				case ev.Name == "NewSimpleProducer":
					c.count("simple producers made", 1)
					part := ev.Args[2]
					own := false
					for l, v := range st.mem {
						own = own || l.Op == "fld" && l.Str == topicF && v == ev.Args[1]
					}
					if l := fieldLoc(ev.Args[1]); !own && (l == nil || l.Str != topicF) {
						c.fail("same", fn, instrPos(ev.Site), st.path(), "a simple producer is made for topic %v", ev.Args[1])
					}
					if isKeyed(part) {
						// the leader is passed along
						if v := ctxValue(ev.Args[0], leaderKey); v != nil {
							id := lookedUp(v, brMap)
							if pr := st.get("?br"); id == nil && pr != nil && pr.Args[0] == v {
								id = pr.Args[1]
							}
							if id == nil || leaderOf(st, id) != part {
								c.fail("leader", fn, instrPos(ev.Site), st.path(), "the simple producer of partition %v is given a broker that was not found to be its leader", part)
							} else {
								c.count("leaders passed on", 1)
							}
						}
						return
					}
					// for messages without key
					if v := ctxValue(ev.Args[0], leaderKey); v != nil {
						c.fail("leader", fn, instrPos(ev.Site), st.path(), "the simple producer for messages without key is given a broker of another partition")
					}
					l := fieldLoc(part)
					if l == nil {
						c.fail("unkeyed", fn, instrPos(ev.Site), st.path(), "a simple producer is made for partition %v, which was not picked among the partitions without error", part)
						return
					}
					if l.Op == "fld" && l.Str == "PartitionMetadataInfo.PartitionID" {
						if st.get("?noerr") != l.Args[0] {
							c.fail("unkeyed", fn, instrPos(ev.Site), st.path(), "a partition that may have an error is chosen for messages without key")
						}
						return
					}
					if l.Op != "idx" || st.flag("badpick") || !st.flag("picks") {
						c.fail("unkeyed", fn, instrPos(ev.Site), st.path(), "a simple producer is made for partition %v, which was not picked among the partitions without error", part)
					}
					c.count("partitions picked", 1)
				case ev.Name == "builtin.append" && len(ev.Args) == 2:
					in, ok := ev.Site.(ssa.Value)
					if !ok || !isSliceOf(isBasic(types.Int32))(in.Type()) {
						return
					}
					el, ok := rd{st, ev.Args[1], in.Type(), nil}.elems()
					for _, e := range el {
						l := fieldLoc(e.t)
						if l == nil || l.Op != "fld" || l.Str != "PartitionMetadataInfo.PartitionID" || st.get("?noerr") != l.Args[0] {
							ok = false
						}
					}
					if ok {
						st.setFlag("picks", true)
					} else {
						st.setFlag("badpick", true)
					}
				}
			}
		}
		c.exec(root, cfg)
		c.count("entry points", 1)
	}
	c.floor("messages handed on", 2)
	c.floor("simple producers made", 2)
	c.floor("leaders passed on", 1)
	c.floor("partitions picked", 1)
	c.floor("cached simple producers", 1)

	// what a simple producer keeps
	m := newProdModel(c)
	cfg := &Config{MaxState: 60000, Merge: true}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		return strings.HasPrefix(fname(g), "SimpleProducer") && !isCodec(g)
	}
	want := map[string]*Term{}
	for i, prm := range nsp.Params {
		switch {
		case isBasic(types.String)(prm.Type()):
			want[m.topic] = mkT(nsp.Params[i].Type(), "param", prm.Name())
		case isBasic(types.Int32)(prm.Type()):
			want[m.part] = mkT(nsp.Params[i].Type(), "param", prm.Name())
		}
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		if ev.Kind == "call" && (ev.Name == "Brokers.findLeader" || ev.Name == "Brokers.NewBroker") {
			switch ev.Name {
			case "Brokers.findLeader":
				n := len(ev.Args)
				if ev.Args[n-2] != want[m.topic] || ev.Args[n-1] != want[m.part] {
					c.fail("leader", fname(st.top().fn), instrPos(ev.Site), st.path(), "the leader looked up is that of %v-%v", ev.Args[n-2], ev.Args[n-1])
				}
				st.setFlag("found", true)
			case "Brokers.NewBroker":
				id := ev.Args[1]
				for id.Op == "res" {
					id = id.Args[0]
				}
				if !strings.Contains(id.Str, "findLeader") {
					c.fail("leader", fname(st.top().fn), instrPos(ev.Site), st.path(), "the connection for the partition is made to broker %v, not to the leader found", ev.Args[1])
				}
				c.count("leaders connected", 1)
			}
		}
		if ev.Kind != "return" {
			return
		}
		e := errResult(ev.Fn, ev.Res)
		if n, ok := st.nilness(e); ok && !n {
			return
		}
		sp := rd{st, ev.Res.Args[0], nsp.Signature.Results().At(0).Type(), nil}
		c.count("constructed", 1)
		for k, w := range want {
			if v := m.load(st, sp.t, k, w.Typ); v != w {
				c.fail("carried", fname(nsp), instrPos(ev.Site), st.path(), "%s of the new simple producer is %v", k, v)
			}
		}
		l := m.load(st, sp.t, m.leader, types.NewPointer(p.typ("Broker")))
		fromCtx := l.any(func(t *Term) bool {
			return t.Op == "call" && strings.HasPrefix(t.Str, "context.Context.Value") && len(t.Args) == 2 && leaderKey(t.Args[1])
		})
		made := l.any(func(t *Term) bool { return t.Op == "call" && strings.HasPrefix(t.Str, "Brokers.NewBroker") })
		if l.Op == "mu" || l.Op == "merge" || l.Op == "phi" {
			return
		}
		if !fromCtx && !made {
			c.fail("carried", fname(nsp), instrPos(ev.Site), st.path(), "the leader of the new simple producer is %v", l)
		}
	}
	c.exec(nsp, cfg)
	c.floor("constructed", 1)
	c.floor("leaders connected", 1)
}

// ctxValue: the value bound in a context to the key.
func ctxValue(ctx *Term, key func(*Term) bool) *Term {
	for ctx != nil {
		for ctx.Op == "res" || ctx.Op == "iface" {
			ctx = ctx.Args[0]
		}
		if (ctx.Op == "call" || ctx.Op == "app") && strings.HasPrefix(ctx.Str, "context.WithValue") && len(ctx.Args) == 3 {
			if key(ctx.Args[1]) {
				v := ctx.Args[2]
				for v.Op == "iface" {
					v = v.Args[0]
				}
				return v
			}
			ctx = ctx.Args[0]
			continue
		}
		return nil
	}
	return nil
}

// rootFieldPath: the field keys on the way to a location.
func rootFieldPath(t *Term) string {
	s := ""
	for t != nil {
		if t.Op == "fld" {
			s = t.Str + "/" + s
		}
		if len(t.Args) == 0 {
			break
		}
		if t.Op == "out" && t.Str == "hv" {
			t = t.Args[1]
		} else {
			t = t.Args[0]
		}
	}
	return s
}

// reachFrom: the module functions reachable from root through functions satisfying inl.
func (p *Prog) reachFrom(root *ssa.Function, inl func(*ssa.Function) bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{root: true}
	q := []*ssa.Function{root}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, g := range p.callees(f, false) {
			if !seen[g] && inl(g) {
				seen[g] = true
				q = append(q, g)
			}
		}
	}
	return seen
}
