package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "path-sensitive typestate of the consumer's position: every store to it is classified by where its value comes from", ruleC24)
	register("C25", "symbolic reading of every offset commit request from the abstract heap, and of every store to the committed position", ruleC25)
	register("C26", "loop and wait analysis: every iteration of an unbounded loop observes the stop, every blocking channel operation waits for it too; ordering of Stop", ruleC26)
	register("C27", "path analysis of the consumer's error handling, one abstract run per class of fetch error", ruleC27)
	register("C28", "path analysis of the start of consumption, one abstract run per class of requested offset and group", ruleC28)
}

// consModel: the parts of SimpleConsumer the consumer rules talk about.
type consModel struct {
	c                              *Ctx
	pos, committed, stop, leader   string
	coord, topic, part, cfg, group string
	ctx, parentWg, loopWg          string
	groupID, autoCommit            string
	mutable                        map[string]bool
	fetchFn                        map[*ssa.Function]bool
	storesPos, commits             map[*ssa.Function]bool
	owner                          bool // the goroutine being analysed is the one that moves the position
	inRoot                         bool
	event                          func(x *Exec, st *State, ev *Event)
	hook                           func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool)
	partFacts                      func(*Term) bool
	start                          func(x *Exec, st *State) // sets up a root state
	goStart                        func(x *Exec, st *State)
	maxState                       int
	skipGo                         map[*ssa.Function]bool
	noGo                           bool
	noInline                       map[string]bool
	volPos                         bool
	gClosed                        string
	only                           map[*ssa.Function]bool
	also                           map[*ssa.Function]bool // inlined whatever they are
	volatile                       map[string]bool
	forget                         bool
	fetches                        map[*ssa.Function]bool
}

func isCtxT(t types.Type) bool   { return typeIs(t, "context.Context") }
func isWgT(t types.Type) bool    { return typeIs(t, "sync.WaitGroup") }
func isPtrWgT(t types.Type) bool { return typeIs(t, "*sync.WaitGroup") }

// accessors: functions that load (or store) each field of a type.
func (p *Prog) fieldUsers(tn string) (users, writers map[string]map[*ssa.Function]bool) {
	users, writers = map[string]map[*ssa.Function]bool{}, map[string]map[*ssa.Function]bool{}
	add := func(m map[string]map[*ssa.Function]bool, k string, f *ssa.Function) {
		if m[k] == nil {
			m[k] = map[*ssa.Function]bool{}
		}
		m[k][f] = true
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					k := fieldKey(fa)
					if !strings.HasPrefix(k, tn+".") {
						continue
					}
					add(users, k, f)
					for _, r := range *fa.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
							add(writers, k, f)
						}
					}
				}
			}
		}
	}
	return
}

func (p *Prog) pick(keys []string, ok func(string) bool) string {
	var r []string
	for _, k := range keys {
		if ok(k) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	if len(r) == 1 {
		return r[0]
	}
	return ""
}

func newConsModel(c *Ctx) *consModel {
	p := c.p
	m := &consModel{c: c, noInline: map[string]bool{}}
	_, writers := p.fieldUsers("SimpleConsumer")
	q := func(pred func(types.Type) bool) []string {
		var r []string
		for _, f := range p.fieldsByType("SimpleConsumer", pred) {
			r = append(r, "SimpleConsumer."+f)
		}
		return r
	}
	need := func(what, k string) string {
		if k == "" {
			c.fail("anchor", "SimpleConsumer", 0, nil, "cannot identify the %s of SimpleConsumer", what)
			return "SimpleConsumer.?"
		}
		return k
	}
	m.topic = c.fieldOf("SimpleConsumer", isBasic(types.String))
	m.part = c.fieldOf("SimpleConsumer", isBasic(types.Int32))
	m.cfg = c.fieldOf("SimpleConsumer", func(t types.Type) bool { return isNamed(t, "ConsumerConfig") || ptrTo(t, modPath, "ConsumerConfig") })
	m.group = c.fieldOf("SimpleConsumer", isPtrNamed("GroupConsumer"))
	m.ctx = c.fieldOf("SimpleConsumer", isCtxT)
	m.parentWg = c.fieldOf("SimpleConsumer", isPtrWgT)
	m.loopWg = c.fieldOf("SimpleConsumer", isWgT)
	// the committed position is only looked at where it is written
	i64 := q(isBasic(types.Int64))
	commitT := p.reaches(func(f *ssa.Function) bool { return p.mentions(f, "OffsetCommitRequest") && !isCodec(f) }, false)
	m.commits = commitT
	m.committed = need("committed position", p.pick(i64, func(k string) bool {
		for f := range writers[k] {
			if !commitT[f] {
				return false
			}
		}
		return len(writers[k]) > 0
	}))
	m.pos = need("position", p.pick(i64, func(k string) bool { return k != m.committed }))
	m.stop = need("stop flag", p.pick(q(isBasic(types.Bool)), func(k string) bool {
		for f := range writers[k] {
			if f.Parent() == nil && fname(f) == "SimpleConsumer.Stop" {
				return true
			}
			for _, g := range p.callees(p.fn("SimpleConsumer.Stop"), false) {
				if g == f {
					return true
				}
			}
		}
		return false
	}))
	m.coord = need("coordinator", p.pick(q(isPtrNamed("Broker")), func(k string) bool {
		for f := range writers[k] {
			if p.mentions(f, "FindCoordinatorResponse") {
				return true
			}
		}
		return false
	}))
	m.leader = need("leader", p.pick(q(isPtrNamed("Broker")), func(k string) bool { return k != m.coord }))
	m.groupID = p.fieldByTag("ConsumerConfig", "group.id")
	m.autoCommit = p.fieldByTag("ConsumerConfig", "auto.commit")
	m.mutable = map[string]bool{}
	for _, tn := range []string{"SimpleConsumer", "GroupConsumer", "Consumer"} {
		_, w := p.fieldUsers(tn)
		for k, fs := range w {
			for f := range fs {
				if f.Signature.Recv() != nil || f.Parent() != nil {
					m.mutable[k] = true
				}
			}
		}
	}
	m.fetchFn = map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f.Signature.Recv() != nil && typeShort(recvType(f)) == "Broker" {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if ptrTo(f.Signature.Params().At(i).Type(), modPath, "FetchRequest") {
					m.fetchFn[f] = true
				}
			}
		}
	}
	m.storesPos = p.reaches(func(f *ssa.Function) bool { return writers[m.pos][f] }, false)
	return m
}

func brokerRecv(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	n := typeShort(recvType(fn))
	return n == "Broker" || n == "Brokers"
}

// brokerOutcomes models a method of Broker or Brokers that can fail: it succeeds with unknown results, or
// fails with an error and results nobody may use.
func brokerOutcomes(x *Exec, st *State, name string, fn *ssa.Function, site ssa.CallInstruction) ([]Outcome, bool) {
	if !brokerRecv(fn) {
		return nil, false
	}
	rs := fn.Signature.Results()
	n := rs.Len()
	if n == 0 || !isErrT(rs.At(n-1).Type()) {
		return nil, false
	}
	t := x.callTerm(st, site, name, nil)
	e := mkT(errType, "res", itoa(n-1), t)
	bad := x.callTerm(st, site, name+"!failed", nil)
	var ok, fail []*Term
	var facts []Fact
	for i := 0; i < n-1; i++ {
		v := mkT(rs.At(i).Type(), "res", itoa(i), t)
		ok = append(ok, v)
		if nilable(rs.At(i).Type()) {
			facts = append(facts, Fact{mkEq(v, tNil), false})
		}
		fail = append(fail, mkT(rs.At(i).Type(), "res", itoa(i), bad))
	}
	wrap := func(vs []*Term, err *Term) *Term {
		if n == 1 {
			return err
		}
		return mk("tuple", "", append(append([]*Term{}, vs...), err)...)
	}
	return []Outcome{
		{Res: wrap(ok, tNil), Facts: facts},
		{Res: wrap(fail, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: name + " fails"},
	}, true
}

func fromFailed(t *Term) bool {
	return t.any(func(u *Term) bool { return u.Op == "call" && strings.Contains(u.Str, "!failed@") })
}

// okCall: t is derived from the result of a successful call of the named function.
func okCall(t *Term, name string) *Term {
	var r *Term
	t.any(func(u *Term) bool {
		if u.Op == "call" && strings.HasPrefix(u.Str, name+"@") {
			r = u
			return true
		}
		return false
	})
	return r
}

func (m *consModel) config() *Config {
	c := m.c
	cfg := &Config{Merge: true, JoinPaths: true, PartPtr: true, MaxState: 60000, PartFacts: m.partFacts}
	if m.maxState > 0 {
		cfg.MaxState = m.maxState
	}
	cfg.Volatile = func(k string) bool {
		return m.volatile[k] || k == m.stop || k == "Consumer.closed" || k == m.pos && m.volPos && !m.owner
	}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		if m.also[g] {
			return true
		}
		if isCodec(g) || c.p.front(g) || brokerRecv(g) || m.noInline[fname(g)] {
			return false
		}
		if g.Signature.Recv() != nil && typeShort(recvType(g)) == "fetchResponseStreamDecoder" {
			return false
		}
		return m.only == nil || m.only[g]
	}
	cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		if m.hook != nil {
			if o, ok := m.hook(x, st, name, fn, args, site); ok {
				return o, true
			}
		}
		if name == "context.Context.Err" && st.flag("done") {
			e := mkT(errType, "res", "0", x.callTerm(st, site, name, nil))
			return []Outcome{{Res: e, Facts: []Fact{{mkEq(e, tNil), false}}}}, true
		}
		if strings.HasSuffix(name, "Response.Error") && fn != nil && c.p.inModule(fn) && len(args) > 0 {
			// RequestAndGet reports the error of the response itself (C10)
			if t := okCall(args[0], "Broker.RequestAndGet"); t != nil || strings.Contains(args[0].String(), "Broker.request") && !fromFailed(args[0]) {
				return []Outcome{{Res: tNil}}, true
			}
		}
		if m.also[fn] {
			return nil, false
		}
		o, ok := brokerOutcomes(x, st, name, fn, site)
		if ok && name == "Broker.RequestAndGet" && len(args) == 2 && len(o) == 2 {
			if t := readArg(st, args[1]).typ; t != nil {
				o[0].Set = map[string]*Term{"got:" + typeShort(t): tTrue}
			}
		}
		if ok && name == "Broker.RequestAndGet" && len(args) == 2 {
			if r := readArg(st, args[1]); r.ok() && ptrTo(r.typ, modPath, "OffsetFetchRequest") {
				tp := r.f("Topics").only()
				if m.ofField(tp.f("Topic").t, m.topic) && m.ofField(tp.f("Partitions").only().t, m.part) && m.ofField(r.f("GroupID").t, m.groupID) {
					st.set("fetchreq", tTrue)
				} else {
					st.set("fetchreq", nil)
				}
			}
		}
		if ok && name == "Broker.requestOffsets" {
			// (broker, topic, partition, time) of the latest offset request
			part, tm, topic := tNil, tNil, tNil
			for i, a := range args {
				pt := fn.Params[i].Type()
				switch {
				case isBasic(types.Int64)(pt):
					tm = a
				case isBasic(types.String)(pt):
					topic = a // the last string: client id, topic
				case isSliceOf(isBasic(types.Int32))(pt):
					if e := (rd{st, a, pt, nil}).only(); e.ok() {
						part = e.t
					}
				}
			}
			if !m.holdsField(st, args[0], m.leader) {
				topic = tNil
			}
			st.set("?offreq", mk("pair", "", tNil, topic, part, tm))
			if len(o) == 2 {
				o[0].Set = map[string]*Term{"lookupfailed": nil}
				o[1].Set = map[string]*Term{"lookupfailed": tTrue}
			}
		}
		return o, ok
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		if (ev.Kind == "select" && ev.Name == "recv" || ev.Kind == "recv") && isDone(ev.Loc) {
			st.setFlag("done", true)
		}
		m.event(x, st, ev)
	}
	return cfg
}

// run analyses fn and every goroutine it starts (transitively), each on its own.
func (m *consModel) run(fn *ssa.Function) {
	c := m.c
	x := newExec(c.p, m.config())
	c.funcs[fname(fn)] = true
	t0 := time.Now()
	x.root = fn
	st := x.Root(fn)
	m.inRoot = true
	m.owner = m.storesPos[fn]
	if m.start != nil {
		m.start(x, st)
	}
	x.push(st)
	x.loop()
	m.inRoot = false
	seen := map[string]bool{}
	for i := 0; i < len(x.spawned) && !m.noGo; i++ {
		s := x.spawned[i]
		g := s.top().fn
		if brokerRecv(g) || c.p.front(g) || m.skipGo[g] {
			continue
		}
		for l := range s.mem {
			if l.Op == "fld" && m.mutable[l.Str] {
				delete(s.mem, l)
			}
		}
		if m.forget {
			// facts about the rest of the program only multiply the starting states
			s.facts, s.iv = map[*Term]bool{}, map[*Term]interval{}
		}
		x.gc(s)
		k := x.key(s)
		if seen[k] {
			continue
		}
		seen[k] = true
		c.funcs[fname(g)] = true
		for k, v := range s.mon {
			if k[0] == '^' {
				delete(s.mon, k)
				s.mon["@"+k[1:]] = v
			}
		}
		m.owner = m.storesPos[g]
		x.root = g
		if m.goStart != nil {
			m.goStart(x, s)
		}
		x.push(s)
		x.loop()
		c.count("goroutines analysed", 1)
	}
	if os.Getenv("VTRACE") != "" {
		fmt.Printf("< %s %v states=%d spawned=%d/%d\n", fname(fn), time.Since(t0), x.states, len(seen), len(x.spawned))
	}
	c.account(x, fn)
	c.count("entry points", 1)
	c.sample("entry " + fname(fn))
}

// apiRoots: exported functions and methods that work on a consumer of the given type.
func (m *consModel) apiRoots(tn string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range m.c.p.funcs {
		if f.Parent() == nil && f.Signature.Recv() != nil && typeShort(recvType(f)) == tn && token.IsExported(f.Name()) && f.Synthetic == "" && f.Name() != "String" {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

func (m *consModel) isField(loc *Term, key string) bool {
	return loc != nil && loc.Op == "fld" && loc.Str == key
}

// ofField: the value was read from the field of the consumer.
func (m *consModel) ofField(v *Term, key string) bool {
	if v == nil {
		return false
	}
	l := fieldLoc(v)
	return l != nil && m.isField(l, key)
}

// holdsField: the value is what the consumer's field holds now.
func (m *consModel) holdsField(st *State, v *Term, key string) bool {
	if m.ofField(v, key) {
		return true
	}
	for l, w := range st.mem {
		if w == v && m.isField(l, key) {
			return true
		}
	}
	return false
}

func isDone(t *Term) bool {
	return t != nil && t.any(func(u *Term) bool { return u.Op == "call" && strings.HasPrefix(u.Str, "context.Context.Done@") })
}

func isFullMsgChan(t types.Type) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && ptrTo(ch.Elem(), modPath, "FullMessage")
}

// received: a message taken from a channel of messages in this event (plain receive, range or select).
func received(ev *Event) *Term {
	var v *Term
	switch ev.Kind {
	case "recv":
		v = ev.Res
		if tp, ok := v.Typ.(*types.Tuple); ok {
			v = mkT(tp.At(0).Type(), "res", "0", ev.Res)
		}
	case "select":
		if ev.Name != "recv" {
			return nil
		}
		v = ev.Res
	default:
		return nil
	}
	if v != nil && v.Typ != nil && ptrTo(v.Typ, modPath, "FullMessage") {
		return v
	}
	return nil
}

// sent: channel and value of a send.
func sent(ev *Event) (*Term, *Term) {
	if ev.Kind == "send" || ev.Kind == "select" && ev.Name == "send" {
		return ev.Loc, ev.Val
	}
	return nil, nil
}

// ---------------------------------------------------------------- C24

func ruleC24(c *Ctx) {
	m := newConsModel(c)
	c.rule("source", "the position is only set to the offset the user asked for, the offset after the message just handed over, or an offset a broker returned successfully for this topic and partition")
	c.rule("order", "a received message is handed over before the next one is received, and the position is moved past it; after an error nothing more of that response is handed over")
	c.rule("fetch", "a fetch request asks for the consumer's topic and partition from its position")
	m.partFacts = func(t *Term) bool {
		return t.Op == "eq" && (t.Args[0].Op == "param" && isFullMsgChan(t.Args[0].Typ) || t.Args[1].Op == "param" && isFullMsgChan(t.Args[1].Typ)) || t.Op == "eq" && t.any(func(u *Term) bool {
			return u.Op == "ld" && u.Args[0].Op == "fld" && u.Args[0].Str == "FullMessage.Error"
		})
	}
	m.event = func(x *Exec, st *State, ev *Event) {
		fn := fname(st.top().fn)
		if msg := received(ev); msg != nil {
			c.count("receives of messages", 1)
			m.settled(x, st, ev, "receives the next message")
			if v := st.get("pending"); v != nil && !m.isErrMsg(st, v) {
				c.fail("order", fn, instrPos(ev.Site), st.path(), "%s: the next message is received although the previous one was not handed over", fn)
			}
			st.set("pending", msg)
			return
		}
		if ch, v := sent(ev); ch != nil && v.Typ != nil && ptrTo(v.Typ, modPath, "FullMessage") {
			c.count("messages handed over", 1)
			m.settled(x, st, ev, "hands over another message")
			if st.flag("errseen") {
				c.fail("order", fn, instrPos(ev.Site), st.path(), "%s: a message is handed over after an error in the same response (messages in between are skipped)", fn)
			}
			if v != st.get("pending") {
				c.fail("order", fn, instrPos(ev.Site), st.path(), "%s: what is handed over is not the message just received", fn)
			}
			if m.isErrMsg(st, v) {
				c.fail("order", fn, instrPos(ev.Site), st.path(), "%s: an error is handed over as a message", fn)
			}
			if ch != st.get("?^user") {
				c.fail("order", fn, instrPos(ev.Site), st.path(), "%s: the message is not handed to the channel the user reads", fn)
			}
			st.set("pending", nil)
			st.set("delivered", v)
			return
		}
		switch ev.Kind {
		case "branch":
			if v := st.get("pending"); v != nil && m.isErrMsg(st, v) {
				st.setFlag("errseen", true)
			}
		case "store":
			if m.isField(ev.Loc, m.pos) && !freshObj(ev.Loc) {
				c.count("stores to the position", 1)
				m.posStore(x, st, ev)
			}
		case "mapupdate":
			m.fetchParts(st, ev)
		case "call":
			if ev.Fn != nil && ev.Fn.Signature.Recv() != nil && typeShort(recvType(ev.Fn)) == "fetchResponseStreamDecoder" {
				for i, a := range ev.Args {
					if i < len(ev.Fn.Params) && isBasic(types.Int64)(ev.Fn.Params[i].Type()) {
						c.count("decoder starts", 1)
						if !m.ofField(a, m.pos) {
							c.fail("fetch", fn, instrPos(ev.Site), st.path(), "the decoder starts at %v, not at the consumer's position", a)
						}
					}
				}
			}
		case "go":
			if ev.Fn == nil {
				return
			}
			if m.inRoot {
				for _, a := range ev.Args {
					if isFullMsgChan(a.Typ) {
						st.set("?^user", a)
						for _, p := range st.frames[0].args {
							if n, known := st.nilness(p); isFullMsgChan(p.Typ) && p != a && !(known && n) {
								c.fail("order", fn, instrPos(ev.Site), st.path(), "the messages are not handed to the channel the user passed")
							}
						}
					}
				}
			}
		case "return":
			m.settled(x, st, ev, "returns")
			if u := st.get("?^user"); u != nil && m.inRoot && ev.Res != nil && ev.Res.Op == "tuple" && len(ev.Res.Args) > 0 && ev.Res.Args[0] != u {
				c.fail("order", fn, instrPos(ev.Site), st.path(), "%s returns %v, not the channel the messages are handed to", fn, ev.Res.Args[0])
			}
		}
	}
	m.volPos = true
	for _, r := range m.apiRoots("SimpleConsumer") {
		m.run(r)
	}
	c.floor("stores to the position", 4)
	c.floor("messages handed over", 1)
	c.floor("fetch partitions", 1)
	c.floor("decoder starts", 1)
	c.assumef("messages of one fetch response arrive on the inner channel in offset order (C18)")
}

func (m *consModel) isErrMsg(st *State, msg *Term) bool {
	e := readArg(st, msg).f("Error")
	if !e.ok() {
		return false
	}
	n, known := st.nilness(e.t)
	return known && !n
}

func (m *consModel) settled(x *Exec, st *State, ev *Event, what string) {
	if v := st.get("delivered"); v != nil {
		m.c.fail("order", fname(st.top().fn), instrPos(ev.Site), st.path(), "%s %s without having moved the position past the message handed over", fname(st.top().fn), what)
		st.set("delivered", nil)
	}
}

func (m *consModel) posStore(x *Exec, st *State, ev *Event) {
	c := m.c
	v := ev.Val
	fn := fname(st.top().fn)
	if m.inRoot && v.Op == "param" && token.IsExported(x.root.Name()) {
		c.count("positions given by the user", 1)
		return
	}
	if d := st.get("delivered"); d != nil {
		off := readArg(st, d).f("Message").f("Offset")
		if off.ok() && linIs(v, off.t, 1) {
			st.set("delivered", nil)
			c.count("positions moved past a delivered message", 1)
			return
		}
	}
	if fromFailed(v) {
		c.fail("source", fn, instrPos(ev.Site), st.path(), "%s: the position is set from an offset lookup that failed", fn)
		return
	}
	if why := m.lookedUp(st, v); why != "" {
		c.fail("source", fn, instrPos(ev.Site), st.path(), "%s: the position is set to %v: %s", fn, v, why)
		return
	}
	c.count("positions looked up", 1)
}

// lookedUp: v is an offset a broker returned for this consumer's partition ("" if so).
func (m *consModel) lookedUp(st *State, v *Term) string {
	self := func(t *Term, key string) bool { return t != nil && m.ofField(t, key) }
	if t := okCall(v, "Broker.requestOffsets"); t != nil {
		g := st.get("?offreq")
		if g == nil {
			return "it comes from an offset request for another partition"
		}
		if !self(g.Args[1], m.topic) || !self(g.Args[2], m.part) {
			return "the offset request was not for the consumer's topic and partition"
		}
		bad := ""
		v.any(func(u *Term) bool {
			if u.Op == "app" && u.Str == "lookup" && len(u.Args) == 2 && !self(u.Args[1], m.topic) {
				bad = "it is taken from another topic of the response"
			}
			return false
		})
		return bad
	}
	if t := okCall(v, "Broker.RequestAndGet"); t != nil {
		if g := st.get("fetchreq"); g == nil {
			return "it does not come from an offset fetch request for this partition"
		}
		// an element of the response: p.Offset
		l := fieldLoc(v)
		if l == nil || !strings.HasSuffix(l.Str, "Partition.Offset") {
			return "it is not the offset of a partition of the response"
		}
		if b, ok := st.evalBool(mkLt(v, tInt(0))); !ok || b {
			return "a negative offset (none committed) is not excluded"
		}
		pid := readArg(st, l.Args[0])
		_ = pid
		tn := strings.TrimSuffix(l.Str, ".Offset")
		p := st.load(mkFld(l.Args[0], nil, tn+".PartitionID"), types.Typ[types.Int32])
		if !m.knownEq(st, p, m.part) {
			return "the partition it belongs to was not compared with the consumer's"
		}
		// the topic entry the partition list was read from
		var topic *Term
		l.any(func(u *Term) bool {
			if u.Op == "fld" && strings.HasSuffix(u.Str, "Topic.Partitions") && topic == nil {
				topic = st.load(mkFld(u.Args[0], nil, strings.TrimSuffix(u.Str, ".Partitions")+".Topic"), types.Typ[types.String])
			}
			return false
		})
		if topic == nil || !m.knownEq(st, topic, m.topic) {
			return "the topic it belongs to was not compared with the consumer's"
		}
		return ""
	}
	return "it is neither the offset after the message just handed over nor an offset a broker returned"
}

// knownEq: v equals the consumer's field on this path.
func (m *consModel) knownEq(st *State, v *Term, key string) bool {
	if m.ofField(v, key) {
		return true
	}
	for f, b := range st.facts {
		if f.Op == "eq" && b {
			for i := 0; i < 2; i++ {
				if f.Args[i] == v && m.ofField(f.Args[1-i], key) {
					return true
				}
			}
		}
	}
	return false
}

// fetchParts checks the partitions put into a fetch request.
func (m *consModel) fetchParts(st *State, ev *Event) {
	c := m.c
	t := ev.Val.Typ
	if t == nil || !isSliceOf(isPtrNamed("PartitionBlock"))(t) {
		return
	}
	el, ok := rd{st, ev.Val, t, nil}.elems()
	if !ok && ev.Val.Op == "app" && ev.Val.Str == "append" {
		el, ok = rd{st, ev.Val.Args[1], t, nil}.elems()
	}
	fn := fname(st.top().fn)
	if !ok {
		c.fail("fetch", fn, instrPos(ev.Site), st.path(), "cannot tell which partitions the fetch request asks for")
		return
	}
	for _, e := range el {
		c.count("fetch partitions", 1)
		if !m.ofField(e.f("FetchOffset").t, m.pos) {
			c.fail("fetch", fn, instrPos(ev.Site), st.path(), "the fetch offset is %v, not the consumer's position", e.f("FetchOffset").t)
		}
		if !m.ofField(e.f("Partition").t, m.part) {
			c.fail("fetch", fn, instrPos(ev.Site), st.path(), "the fetch request asks for partition %v, not the consumer's", e.f("Partition").t)
		}
		if len(ev.Args) != 1 || !m.ofField(ev.Args[0], m.topic) {
			c.fail("fetch", fn, instrPos(ev.Site), st.path(), "the fetch request is not for the consumer's topic")
		}
	}
}

// ---------------------------------------------------------------- C25

func ruleC25(c *Ctx) {
	m := newConsModel(c)
	c.rule("content", "an offset commit is for the consumer's own topic, partition and position, which is known not to be negative")
	c.rule("identity", "a group member commits through its group's coordinator with the group's id, its current member id and generation; another consumer commits with neither member id nor generation")
	c.rule("remembered", "the position is remembered as committed only after the broker accepted exactly that position")
	c.rule("automatic", "with automatic commits and a group a committer runs alongside the consume loop, and commits once more when it ends")
	_, gw := c.p.fieldUsers("GroupConsumer")
	pick := func(what string, pred func(types.Type) bool, also func(k string) bool) string {
		var ks []string
		for _, f := range c.p.fieldsByType("GroupConsumer", pred) {
			ks = append(ks, "GroupConsumer."+f)
		}
		k := c.p.pick(ks, also)
		if k == "" {
			c.fail("anchor", "GroupConsumer", 0, nil, "cannot identify the %s of GroupConsumer", what)
			return "GroupConsumer.?"
		}
		return k
	}
	written := func(k string) bool {
		for f := range gw[k] {
			if f.Signature.Recv() != nil {
				return true
			}
		}
		return false
	}
	anyKey := func(string) bool { return true }
	member := pick("member id", isBasic(types.String), written)
	gen := pick("generation", isBasic(types.Int32), anyKey)
	gcoord := pick("coordinator", isPtrNamed("Broker"), anyKey)
	m.volPos = true
	m.partFacts = func(t *Term) bool {
		return t.any(func(u *Term) bool {
			return u.Op == "fld" && (u.Str == m.groupID || u.Str == m.autoCommit || u.Str == m.group)
		})
	}
	base := func(v *Term) *Term {
		if l := fieldLoc(v); l != nil && l.Op == "fld" {
			return l.Args[0]
		}
		return nil
	}
	commit := func(st *State, broker *Term, r rd, site ssa.Instruction) *Term {
		fn := fname(st.top().fn)
		bad := func(rule, f string, a ...any) { c.fail(rule, fn, instrPos(site), st.path(), f, a...) }
		c.count("offset commit requests", 1)
		tp := r.f("Topics").only()
		pt := tp.f("Partitions").only()
		off := pt.f("Offset")
		if !off.ok() {
			bad("content", "cannot tell that the commit is for exactly one partition")
			return nil
		}
		if !m.ofField(off.t, m.pos) {
			bad("content", "the commit carries %v, not the consumer's position", off.t)
			return nil
		}
		self := base(off.t)
		if t := tp.f("Topic"); !m.ofField(t.t, m.topic) || base(t.t) != self {
			bad("content", "the commit is for topic %v, not the consumer's", t.t)
		}
		if t := pt.f("PartitionID"); !m.ofField(t.t, m.part) || base(t.t) != self {
			bad("content", "the commit is for partition %v, not the consumer's", t.t)
		}
		if b, ok := st.evalBool(mkLt(off.t, tInt(0))); !ok || b {
			bad("content", "a negative position is not excluded")
		}
		g := st.load(mkFld(self, nil, m.group), types.NewPointer(c.p.typ("GroupConsumer")))
		isNil, known := st.nilness(g)
		gid := r.f("GroupID")
		if !m.ofField(gid.t, m.groupID) {
			bad("identity", "the commit carries group %v, not the configured group", gid.t)
		}
		switch {
		case !known:
			bad("identity", "the commit is made without knowing whether the consumer belongs to a group consumer")
		case isNil:
			c.count("commits of non-members", 1)
			if v, ok := r.f("MemberID").t.strVal(); !ok || v != "" {
				bad("identity", "a consumer outside a group consumer commits with member id %v", r.f("MemberID").t)
			}
			if v, ok := r.f("GenerationID").t.intVal(); !ok || v != -1 {
				bad("identity", "a consumer outside a group consumer commits with generation %v", r.f("GenerationID").t)
			}
			if !m.ofField(broker, m.coord) || base(broker) != self {
				bad("identity", "the commit does not go to the consumer's coordinator")
			}
		default:
			c.count("commits of members", 1)
			id := r.f("MemberID").t
			if !m.ofField(id, member) || base(id) != g {
				bad("identity", "a group member commits with member id %v, not its own", id)
			} else if b, ok := st.evalBool(mkEq(id, tStr(""))); !ok || b {
				bad("identity", "a group member commits although it may have no member id")
			}
			if v := r.f("GenerationID").t; !m.ofField(v, gen) || base(v) != g {
				bad("identity", "a group member commits with generation %v, not its own", v)
			}
			if !m.ofField(broker, gcoord) || base(broker) != g {
				bad("identity", "the commit of a member does not go to its group's coordinator")
			}
		}
		return off.t
	}
	m.hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		if name != "Broker.RequestAndGet" || len(args) != 2 {
			return nil, false
		}
		r := readArg(st, args[1])
		if !r.ok() || !ptrTo(r.typ, modPath, "OffsetCommitRequest") {
			return nil, false
		}
		off := commit(st, args[0], r, site)
		st.set("?acc", nil)
		o, ok := brokerOutcomes(x, st, name, fn, site)
		if ok && off != nil {
			o[0].Set = map[string]*Term{"?acc": mk("pair", "", off)}
		}
		return o, ok
	}
	m.event = func(x *Exec, st *State, ev *Event) {
		fn := fname(st.top().fn)
		switch ev.Kind {
		case "store":
			if m.isField(ev.Loc, m.committed) && !freshObj(ev.Loc) {
				c.count("stores to the committed position", 1)
				if a := st.get("?acc"); a == nil || a.Args[0] != ev.Val {
					c.fail("remembered", fn, instrPos(ev.Site), st.path(), "%s remembers %v as committed, which is not what the broker has just accepted", fn, ev.Val)
				}
			}
		case "enter", "call":
			if ev.Fn != nil && m.commits[ev.Fn] && ev.Fn.Signature.Recv() != nil {
				st.setFlag("waited", false)
			}
		case "select", "recv":
			st.setFlag("waited", true)
		case "go":
			if ev.Fn == nil {
				return
			}
			if m.commits[ev.Fn] {
				st.setFlag("committer", true)
				st.setFlag("^isCommitter", true)
			} else if m.reachesFetch(ev.Fn) && m.inRoot {
				st.setFlag("consuming", true)
			}
		case "return":
			if st.flag("@isCommitter") {
				c.count("ends of the committer", 1)
				if st.flag("waited") {
					c.fail("automatic", fn, instrPos(ev.Site), st.path(), "the automatic committer ends without a final commit")
				}
			}
			if m.inRoot && st.flag("consuming") && !st.flag("committer") {
				c.count("starts without a committer", 1)
				self := st.top().args[0]
				cfg := mkFld(self, nil, m.cfg)
				auto := st.load(mkFld(cfg, nil, m.autoCommit), types.Typ[types.Bool])
				gid := st.load(mkFld(cfg, nil, m.groupID), types.Typ[types.String])
				a, ok1 := st.evalBool(auto)
				e, ok2 := st.evalBool(mkEq(gid, tStr("")))
				if !(ok1 && !a) && !(ok2 && e) {
					c.fail("automatic", fn, instrPos(ev.Site), st.path(), "consumption starts without an automatic committer although automatic commits and a group may be configured")
				}
			}
		}
	}
	for _, r := range m.apiRoots("SimpleConsumer") {
		m.run(r)
	}
	c.floor("commits of members", 1)
	c.floor("commits of non-members", 1)
	c.floor("stores to the committed position", 2)
	c.floor("ends of the committer", 1)
	c.assumef("RequestAndGet returns the error the broker put into the response (C10)")
}

// reachesFetch: the function (or a goroutine it starts) fetches.
func (m *consModel) reachesFetch(f *ssa.Function) bool {
	if m.fetches == nil {
		m.fetches = m.c.p.reaches(func(g *ssa.Function) bool {
			for _, h := range m.c.p.callees(g, true) {
				if m.fetchFn[h] {
					return true
				}
			}
			return false
		}, true)
	}
	return m.fetches[f]
}

// stopSeen keeps the flag "stopped": on this path the consumer was seen to be stopping.
func (m *consModel) stopSeen(st *State, ev *Event) {
	switch ev.Kind {
	case "branch":
		for _, k := range []string{m.stop, "Consumer.closed", m.gClosed} {
			if k == "" {
				continue
			}
			ev.Val.any(func(u *Term) bool {
				if u.Op == "vol" && m.isField(u.Args[0], k) {
					if b, ok := st.evalBool(u); ok && b {
						st.setFlag("stopped", true)
					}
				}
				return false
			})
		}
		ev.Val.any(func(u *Term) bool {
			if u.Op == "eq" && strings.Contains(u.String(), "context.Canceled") {
				if b, ok := st.evalBool(u); ok && b {
					st.setFlag("stopped", true)
				}
			}
			return false
		})
	}
	if st.flag("done") {
		st.setFlag("stopped", true)
	}
}

// ---------------------------------------------------------------- C27

func ruleC27(c *Ctx) {
	m := newConsModel(c)
	c.rule("reaction", "for every class of fetch error, every path from receiving it to the next fetch takes the matching recovery step, unless the consumer is stopping")
	c.rule("goes-on", "the consume loop ends only when the consumer is stopping")
	maxBytes := c.p.fieldByTag("ConsumerConfig", "fetch.max.bytes")
	meta := c.fieldOf("SimpleConsumer", func(t types.Type) bool {
		return isNamed(t, "PartitionMetadataInfo") || ptrTo(t, modPath, "PartitionMetadataInfo")
	})
	type class struct {
		name string
		mk   func(st *State) *Term
		is   func(tg *Term) bool
		need []string
	}
	ke := c.p.typ("KafkaError")
	he := c.p.typ("HealerError")
	if ke == nil || he == nil || c.p.core.Var("maxBytesTooSmall") == nil {
		c.fail("anchor", "errors", 0, nil, "KafkaError, HealerError or maxBytesTooSmall not found")
		return
	}
	kafka := func(k int64) *Term { return mkT(ke, "iface", typeName(ke), tInt(k)) }
	small := mkT(types.NewPointer(he), "iface", typeName(types.NewPointer(he)), mkT(types.NewPointer(he), "global", "maxBytesTooSmall"))
	code := func(k int64, need ...string) class {
		return class{"error code " + itoa(int(k)), func(*State) *Term { return kafka(k) }, func(tg *Term) bool { return tg == kafka(k) }, need}
	}
	opaque := func(name, tg string, need ...string) class {
		e := mkT(errType, "app", "fetch error: "+name)
		return class{name, func(st *State) *Term { st.assume(mkEq(e, tNil), false); return e }, func(t *Term) bool { return tg != "" && strings.Contains(t.String(), tg) }, need}
	}
	classes := []class{
		code(1, "looks the offset up again"),
		code(6, "closes the old connection", "finds the new leader"),
		code(74, "refreshes the partition metadata"),
		{"message larger than the fetch size", func(*State) *Term { return small }, func(tg *Term) bool { return tg == small }, []string{"enlarges the fetch size"}},
		opaque("timeout", "", "closes the old connection"),
		opaque("EOF", "io.EOF", "closes the old connection"),
		opaque("broken pipe", "EPIPE", "closes the old connection"),
		code(2),
		opaque("any other error", ""),
	}
	if epipe := constOf(c.p, "syscall", "EPIPE"); epipe != "" {
		classes[6].is = func(t *Term) bool {
			return t.Op == "iface" && strings.HasSuffix(t.Str, "Errno") && t.Args[0].Str == epipe
		}
	}
	var cur class
	m.hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		e := st.get("err")
		if e == nil || len(args) == 0 || args[0] != e {
			return nil, false
		}
		switch name {
		case "errors.Is":
			return []Outcome{{Res: tBool(cur.is(args[1]) || args[1] == e)}}, true
		case "os.IsTimeout":
			return []Outcome{{Res: tBool(cur.name == "timeout")}}, true
		case "errors.As":
			k := len(args) == 2 && strings.Contains(typeName(args[1].Typ), "KafkaError")
			if !k || e.Op != "iface" || !isNamed(e.Typ, "KafkaError") {
				return []Outcome{{Res: tFalse}}, true
			}
			t := args[1]
			for t.Op == "iface" {
				t = t.Args[0]
			}
			st.store(t, e.Args[0], ke)
			return []Outcome{{Res: tTrue}}, true
		}
		return nil, false
	}
	act := func(st *State, what string) { st.setFlag("act:"+what, true) }
	m.event = func(x *Exec, st *State, ev *Event) {
		m.stopSeen(st, ev)
		fn := fname(st.top().fn)
		if msg := received(ev); msg != nil && !m.inRoot {
			e := cur.mk(st)
			st.store(mkFld(msg, nil, "FullMessage.Error"), e, errType)
			st.set("err", e)
			if ev.Kind == "select" {
				st.set("open", mkT(types.Typ[types.Bool], "call", "selok@"+x.site(st.top(), ev.Site)))
			} else {
				st.set("open", mkT(types.Typ[types.Bool], "res", "1", ev.Res))
			}
			return
		}
		switch ev.Kind {
		case "call":
			switch {
			case ev.Name == "Broker.Close" && len(ev.Args) > 0 && m.holdsField(st, ev.Args[0], m.leader):
				act(st, "closes the old connection")
			case ev.Name == "Broker.requestOffsets":
				act(st, "looks the offset up again")
			case ev.Name == "Brokers.RequestMetaData" || ev.Name == "Brokers.requestMetaData":
				act(st, "refreshes the partition metadata")
			}
		case "store":
			switch {
			case m.isField(ev.Loc, m.leader):
				if okCall(ev.Val, "Brokers.NewBroker") != nil || okCall(ev.Val, "Brokers.GetBroker") != nil {
					act(st, "finds the new leader")
				}
			case ev.Loc.Op == "fld" && ev.Loc.Str == maxBytes && !freshObj(ev.Loc):
				old := st.load(ev.Loc, types.Typ[types.Int32])
				l, k := lin(ev.Val)
				if len(l) == 1 && (l[old] > 1 && k >= 0 || l[old] == 1 && k > 0) || ev.Val.Op == "bin" && ev.Val.Str == "<<" && ev.Val.Args[0] == old {
					act(st, "enlarges the fetch size")
				}
			case m.isField(ev.Loc, m.pos) && cur.name == "error code 1":
				if okCall(ev.Val, "Broker.requestOffsets") != nil {
					c.count("positions set again", 1)
					st.setFlag("repositioned", true)
				}
			case cur.name == "error code 74" && ev.Loc.any(func(u *Term) bool { return u.Op == "fld" && u.Str == meta }):
				if okCall(ev.Val, "Brokers.RequestMetaData") != nil && (ev.Loc.Str == meta || strings.HasSuffix(ev.Loc.Str, ".LeaderEpoch")) {
					st.setFlag("stale", false)
					c.count("partition metadata replaced", 1)
				}
			}
		case "leave":
			if r := ev.Res; r != nil && cur.name == "error code 1" && st.flag("act:looks the offset up again") {
				if r.Op == "tuple" && len(r.Args) > 0 {
					r = r.Args[len(r.Args)-1]
				}
				if isErrT(r.Typ) || r.Op == "iface" {
					if n, known := st.nilness(r); known && !n {
						st.setFlag("lookupfailed", true)
					}
				}
			}
		case "branch":
			if st.get("err") == nil {
				return
			}
			ev.Val.any(func(u *Term) bool {
				if b, ok := st.evalBool(u); u.Op != "eq" || !ok || !b {
					return false
				}
				for i := 0; i < 2; i++ {
					if l := fieldLoc(u.Args[i]); l != nil && strings.HasSuffix(l.Str, ".PartitionID") && okCall(l, "Brokers.RequestMetaData") != nil && m.ofField(u.Args[1-i], m.part) {
						st.setFlag("stale", true)
					}
					if n, ok := u.Args[i].intVal(); ok && n == 0 && u.Args[1-i].Op == "app" && u.Args[1-i].Str == "len" && okCall(u.Args[1-i], "Broker.requestOffsets") != nil {
						st.setFlag("lookupfailed", true)
					}
				}
				return false
			})
		case "return":
			if o := st.get("open"); o != nil {
				if b, ok := st.evalBool(o); ok && !b {
					return // the channel was closed: the end of the response, not an error
				}
			}
			if st.get("err") != nil {
				c.count("errors handled", 1)
				if st.flag("stopped") {
					return
				}
				for _, w := range cur.need {
					if !st.flag("act:" + w) {
						c.fail("reaction", cur.name+": "+w, instrPos(ev.Site), st.path(), "after %s the consumer goes on although there is a path on which it never %s", cur.name, w)
					}
				}
				c.count("reactions checked", len(cur.need))
				if cur.name == "error code 1" && !st.flag("lookupfailed") && !st.flag("repositioned") {
					c.fail("reaction", cur.name+": position", instrPos(ev.Site), st.path(), "after %s the offset is looked up, but there is a path on which the position is not set to it", cur.name)
				}
				if cur.name == "error code 74" && st.flag("stale") {
					c.fail("reaction", cur.name+": metadata", instrPos(ev.Site), st.path(), "after %s the partition metadata is requested, but there is a path on which the leader epoch found is not kept", cur.name)
				}
			}
			if !m.inRoot && st.get("err") == nil && st.flag("@loop") {
				c.count("ends of the consume loop", 1)
				if !st.flag("stopped") {
					c.fail("goes-on", fn, instrPos(ev.Site), st.path(), "the consume loop ends although the consumer was not stopped")
				}
			}
		case "go":
			if ev.Fn != nil && m.reachesFetch(ev.Fn) && m.inRoot {
				st.setFlag("^loop", true)
			}
		case "panic":
			if st.get("err") != nil && fn != "PartitionOffset.GetOffset" {
				c.fail("reaction", cur.name, instrPos(ev.Site), st.path(), "handling %s panics", cur.name)
			}
		}
	}
	for _, k := range classes {
		cur = k
		m.run(c.anchor("SimpleConsumer.Consume"))
		c.count("error classes", 1)
	}
	c.floor("errors handled", 9)
	c.floor("ends of the consume loop", 1)
	c.floor("positions set again", 1)
	c.floor("partition metadata replaced", 1)
}

// constOf: value of a package-level constant of an imported package, as the engine writes constants.
func constOf(p *Prog, pkg, name string) string {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pkg {
			if k, ok := q.Members[name].(*ssa.NamedConst); ok {
				return constTerm(k.Value).Str
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C28

func ruleC28(c *Ctx) {
	m := newConsModel(c)
	c.rule("as-requested", "a requested offset >= 0 is where the fetching starts")
	c.rule("committed-first", "otherwise, with a group, the committed offset is fetched, and used if there is one")
	c.rule("fallback", "only without a committed offset the earliest or latest offset is looked up, as requested")
	c.rule("group", "the group and multi-partition consumers ask for earliest exactly when configured to start from the beginning")
	root := c.anchor("SimpleConsumer.Consume")
	if root == nil {
		return
	}
	storage := c.p.fieldByTag("ConsumerConfig", "offsets.storage")
	var want *Term // nil: an offset >= 0
	var grouped bool
	var asked *Term
	m.start = func(x *Exec, st *State) {
		fr := st.top()
		for i, p := range root.Params {
			if isBasic(types.Int64)(p.Type()) {
				asked = fr.env[p]
				if want == nil {
					st.assume(mkLt(asked, tInt(0)), false)
				} else {
					asked = want
					fr.env[p] = want
					fr.args[i] = want
				}
			}
		}
		cfg := mkFld(fr.args[0], nil, m.cfg)
		st.assume(mkEq(st.load(mkFld(cfg, nil, m.groupID), types.Typ[types.String]), tStr("")), !grouped)
		st.assume(mkEq(st.load(mkFld(cfg, nil, storage), types.Typ[types.Int]), tInt(0)), true)
	}
	use1 := false
	m.noGo = true
	old := m.start
	m.start = func(x *Exec, st *State) {
		old(x, st)
		if use1 {
			l := mkFld(mkFld(st.top().args[0], nil, m.cfg), nil, storage)
			for f := range st.facts {
				if f.any(func(u *Term) bool { return u == l }) {
					delete(st.facts, f)
				}
			}
			for f := range st.iv {
				if f.any(func(u *Term) bool { return u == l }) {
					delete(st.iv, f)
				}
			}
			st.assume(mkEq(st.load(l, types.Typ[types.Int]), tInt(1)), true)
		}
	}
	unused := func(st *State, ev *Event) {
		if st.get("match") != nil && !st.flag("stopped") {
			c.fail("committed-first", fname(st.top().fn), instrPos(ev.Site), st.path(), "the group has a committed offset, and it is not used")
			st.set("match", nil)
		}
	}
	m.event = func(x *Exec, st *State, ev *Event) {
		m.stopSeen(st, ev)
		fn := fname(st.top().fn)
		switch ev.Kind {
		case "branch":
			if p := st.get("match"); p != nil {
				if b, ok := st.evalBool(mkLt(p, tInt(0))); ok && b {
					st.set("match", nil)
				}
			}
			ev.Val.any(func(u *Term) bool {
				if u.Op != "eq" {
					return false
				}
				if b, ok := st.evalBool(u); !ok || !b {
					return false
				}
				for i := 0; i < 2; i++ {
					l := fieldLoc(u.Args[i])
					if l == nil || !strings.HasSuffix(l.Str, "Partition.PartitionID") || okCall(l, "Broker.RequestAndGet") == nil || !m.ofField(u.Args[1-i], m.part) {
						continue
					}
					c.count("committed partitions matched", 1)
					st.set("match", st.load(mkFld(l.Args[0], nil, strings.TrimSuffix(l.Str, "PartitionID")+"Offset"), types.Typ[types.Int64]))
				}
				return false
			})
		case "call":
			if ev.Name == "Broker.requestOffsets" {
				unused(st, ev)
			}
		case "store":
			if !m.isField(ev.Loc, m.pos) || freshObj(ev.Loc) {
				return
			}
			switch {
			case ev.Val == asked:
				st.set("from", tStr("asked"))
			case okCall(ev.Val, "Broker.requestOffsets") != nil:
				st.set("from", tStr("lookup"))
				c.count("offsets looked up", 1)
				r := st.get("?offreq")
				if want != nil {
					if r == nil || r.Args[3] != want {
						c.fail("fallback", fn, instrPos(ev.Site), st.path(), "offset %v was requested, and the offset looked up is that of %v", want, r)
					}
					if grouped && !st.flag("got:OffsetFetchRequest") && !st.flag("stopped") {
						c.fail("committed-first", fn, instrPos(ev.Site), st.path(), "the start offset is looked up without having asked for the group's committed offset")
					}
				}
			case okCall(ev.Val, "Broker.RequestAndGet") != nil:
				if why := m.lookedUp(st, ev.Val); why != "" {
					c.fail("committed-first", fn, instrPos(ev.Site), st.path(), "the start position is set to %v: %s", ev.Val, why)
				}
				st.set("from", tStr("committed"))
				st.set("match", nil)
				c.count("committed offsets used", 1)
			default:
				st.set("from", tStr("?"))
			}
		case "go":
			if ev.Fn == nil || !m.reachesFetch(ev.Fn) {
				return
			}
			c.count("starts of the consume loop", 1)
			unused(st, ev)
			from, _ := st.get("from").strVal()
			if want == nil {
				if v := st.load(mkFld(st.frames[0].args[0], nil, m.pos), types.Typ[types.Int64]); v != asked {
					c.fail("as-requested", fn, instrPos(ev.Site), st.path(), "a requested offset >= 0 is not where fetching starts, but %v", v)
				}
				return
			}
			if st.flag("stopped") || from == "lookup" || from == "committed" {
				return
			}
			c.fail("fallback", fn, instrPos(ev.Site), st.path(), "offset %v was requested, and fetching starts without a position looked up", want)
		}
	}
	for _, w := range []*Term{nil, tInt(-1), tInt(-2)} {
		for _, g := range []bool{false, true} {
			for _, u := range []bool{false, true} {
				want, grouped, use1 = w, g, u
				m.run(root)
			}
		}
	}
	c.floor("starts of the consume loop", 12)
	c.floor("committed offsets used", 2)
	c.floor("committed partitions matched", 2)
	c.floor("offsets looked up", 4)
	c.assumef("offsets.storage is 0 or 1")
	// the consumers built from several partition consumers
	fb := c.p.fieldByTag("ConsumerConfig", "from.beginning")
	m.start, m.noGo = nil, false
	m.partFacts = func(t *Term) bool { l := fieldLoc(t); return l != nil && l.Op == "fld" && l.Str == fb }
	m.noInline["NewSimpleConsumerWithBrokers"] = true
	for _, f := range m.apiRoots("SimpleConsumer") {
		m.noInline[fname(f)] = true
	}
	m.only = c.p.reaches(func(f *ssa.Function) bool { return f == root }, true)
	m.event = func(x *Exec, st *State, ev *Event) {
		if (ev.Kind != "call" && ev.Kind != "go") || ev.Fn != root {
			return
		}
		c.count("partition consumers started", 1)
		fn := fname(st.top().fn)
		var off *Term
		for i, p := range root.Params {
			if isBasic(types.Int64)(p.Type()) {
				off = ev.Args[i]
			}
		}
		v, ok := off.intVal()
		begin, known := false, false
		for f, b := range st.facts {
			if l := fieldLoc(f); l != nil && l.Op == "fld" && l.Str == fb {
				begin, known = b, true
			}
		}
		switch {
		case !ok || !known:
			c.fail("group", fn, instrPos(ev.Site), st.path(), "a partition consumer is started at %v, whether or not consumption is to start from the beginning", off)
		case begin && v != -2 || !begin && v != -1:
			c.fail("group", fn, instrPos(ev.Site), st.path(), "with from.beginning=%v a partition consumer is started at %d", begin, v)
		default:
			c.count(fmt.Sprintf("starts with from.beginning=%v", begin), 1)
		}
	}
	for _, n := range []string{"GroupConsumer.Consume", "Consumer.Consume"} {
		if f := c.anchor(n); f != nil {
			before := c.counts["partition consumers started"]
			m.run(f)
			if c.counts["partition consumers started"] == before {
				c.fail("group", n, f.Pos(), nil, "%s never starts a partition consumer", n)
			}
		}
	}
}
