package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "symbolic reading of every group request from the abstract heap, and typestate of the member's identity, one abstract run per class of error", ruleC29)
	register("C30", "path-sensitive typestate of restarts: what must have happened before the group is joined again; element-wise loop obligations", ruleC30)
	register("C31", "path analysis of the reactions to failed group requests, one abstract run per class of error", ruleC31)
	register("C32", "ordering typestate of closing, and staleness analysis of the closed flag before every join", ruleC32)
}

// errClass: a class of errors a request may fail with.
type errClass struct {
	name string
	mk   func(st *State) *Term
	is   func(tg *Term) bool
	text string
	code int64
}

func kafkaErr(p *Prog, k int64) *Term {
	ke := p.typ("KafkaError")
	return mkT(ke, "iface", typeName(ke), tInt(k))
}

func codeClass(p *Prog, k int64) errClass {
	e := kafkaErr(p, k)
	return errClass{name: "error code " + itoa(int(k)), mk: func(*State) *Term { return e }, is: func(tg *Term) bool { return tg == e }, code: k}
}

func opaqueClass(name, global, text string) errClass {
	e := mkT(errType, "app", "request error: "+name)
	return errClass{name: name, mk: func(st *State) *Term { st.assume(mkEq(e, tNil), false); return e },
		is: func(t *Term) bool { return global != "" && strings.Contains(t.String(), global) }, text: text, code: -1}
}

// asked answers questions about the error of the class ("" if the call is not one).
func (k errClass) asked(x *Exec, st *State, name string, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
	if len(args) == 0 {
		return nil, false
	}
	text := mkT(types.Typ[types.String], "app", "text of "+k.name)
	e := k.mk(st)
	switch name {
	case "strings.Contains":
		if args[0] == text {
			s, ok := args[1].strVal()
			return []Outcome{{Res: tBool(ok && k.text != "" && strings.Contains(k.text, s))}}, true
		}
		return nil, false
	}
	if args[0] != e && !(e.Op == "iface" && args[0] == e.Args[0] && strings.HasPrefix(name, "KafkaError.")) {
		return nil, false
	}
	switch name {
	case "errors.Is":
		return []Outcome{{Res: tBool(k.is(args[1]) || args[1] == e)}}, true
	case "os.IsTimeout":
		return []Outcome{{Res: tBool(k.name == "timeout")}}, true
	case "error.Error", "KafkaError.Error":
		return []Outcome{{Res: text}}, true
	case "errors.As":
		if len(args) != 2 || !strings.Contains(typeName(args[1].Typ), "KafkaError") || e.Op != "iface" {
			return []Outcome{{Res: tFalse}}, true
		}
		t := args[1]
		for t.Op == "iface" {
			t = t.Args[0]
		}
		st.store(t, e.Args[0], e.Typ)
		return []Outcome{{Res: tTrue}}, true
	}
	return nil, false
}

type grpModel struct {
	*consModel
	prop                               string
	gCoord, member, gen, ldr, joined   string
	closed, scs, gWg, members, gTopic  string
	cur                                errClass
	root                               *ssa.Function
	joins                              map[*ssa.Function]bool // functions that send a join request
	stopFn, consumeFn, createFn        *ssa.Function
	lockJoined, lockClosed, lockRejoin map[string]int
}

// storesConst: functions that store the constant into the field.
func (p *Prog) storesConst(key, val string) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != key {
					continue
				}
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == val {
					r[f] = true
				}
			}
		}
	}
	return r
}

func newGrpModel(c *Ctx, prop string) *grpModel {
	p := c.p
	g := &grpModel{consModel: newConsModel(c), prop: prop, lockJoined: map[string]int{}, lockClosed: map[string]int{}, lockRejoin: map[string]int{}}
	_, writers := p.fieldUsers("GroupConsumer")
	q := func(pred func(types.Type) bool) []string {
		var r []string
		for _, f := range p.fieldsByType("GroupConsumer", pred) {
			r = append(r, "GroupConsumer."+f)
		}
		return r
	}
	byName := func(what, k, name string) string {
		if k == "" {
			for f := range writers {
				if f == "GroupConsumer."+name {
					return f
				}
			}
			c.fail("anchor", "GroupConsumer", 0, nil, "cannot identify the %s of GroupConsumer", what)
			return "GroupConsumer.?" + what
		}
		return k
	}
	written := func(k string) bool {
		for f := range writers[k] {
			if f.Signature.Recv() != nil || f.Parent() != nil {
				return true
			}
		}
		return false
	}
	touch := func(k string) bool {
		for f := range writers[k] {
			if !p.mentions(f, "JoinGroupResponse") && !p.touchesType(f, "JoinGroupResponse") {
				return false
			}
		}
		return len(writers[k]) > 0
	}
	g.gCoord = c.fieldOf("GroupConsumer", isPtrNamed("Broker"))
	g.gTopic = byName("topic", p.pick(q(isBasic(types.String)), func(k string) bool { return !written(k) }), "topic")
	g.member = byName("member id", p.pick(q(isBasic(types.String)), written), "memberID")
	g.gen = c.fieldOf("GroupConsumer", isBasic(types.Int32))
	g.scs = c.fieldOf("GroupConsumer", isSliceOf(isPtrNamed("SimpleConsumer")))
	g.gWg = c.fieldOf("GroupConsumer", isWgT)
	g.members = c.fieldOf("GroupConsumer", isSliceOf(func(t types.Type) bool { return isNamed(t, "Member") }))
	bools := q(isBasic(types.Bool))
	closeFns := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || closeFns[f] {
			return
		}
		closeFns[f] = true
		for _, h := range p.callees(f, false) {
			walk(h)
		}
	}
	walk(c.anchor("GroupConsumer.AwaitClose"))
	in := func(fs map[*ssa.Function]bool) bool {
		for f := range fs {
			if closeFns[f] {
				return true
			}
		}
		return false
	}
	g.closed = byName("closed flag", p.pick(bools, func(k string) bool { return in(p.storesConst(k, "true")) }), "closed")
	g.joined = byName("joined flag", p.pick(bools, func(k string) bool { return in(p.storesConst(k, "false")) }), "joined")
	g.ldr = byName("leader flag", p.pick(bools, func(k string) bool { return k != g.closed && k != g.joined && touch(k) }), "ifLeader")
	g.gClosed = g.closed
	g.forget = true
	g.maxState = 200000
	p.respTyped = true
	g.volatile = map[string]bool{g.closed: true}
	g.stopFn, g.consumeFn = c.anchor("SimpleConsumer.Stop"), c.anchor("SimpleConsumer.Consume")
	g.createFn = c.anchor("NewSimpleConsumerWithBrokers")
	for _, f := range g.apiRoots("SimpleConsumer") {
		g.noInline[fname(f)] = true
	}
	g.noInline["NewSimpleConsumerWithBrokers"] = true
	g.skipGo = map[*ssa.Function]bool{g.stopFn: true, g.consumeFn: true}
	g.also = map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if brokerRecv(f) {
			for _, t := range []string{"JoinGroupRequest", "SyncGroupRequest", "HeartbeatRequest", "LeaveGroupRequest", "OffsetCommitRequest"} {
				if p.mentions(f, t) || p.touchesType(f, t) {
					g.also[f] = true
				}
			}
		}
	}
	g.joins = p.reaches(func(f *ssa.Function) bool {
		return f.Pkg == p.core && !isCodec(f) && g.also[f] && p.mentions(f, "JoinGroupRequest")
	}, false)
	g.partFacts = func(t *Term) bool {
		if t.Op == "eq" {
			for i := 0; i < 2; i++ {
				if l := fieldLoc(t.Args[i]); l != nil && l.Op == "fld" && l.Str == g.scs {
					return true
				}
			}
		}
		l := fieldLoc(t)
		return l != nil && l.Op == "fld" && (l.Str == g.joined || l.Str == g.ldr)
	}
	return g
}

// now: the value is what the group consumer's field holds at this point.
func (g *grpModel) now(st *State, v *Term, key string) bool {
	if v == nil {
		return false
	}
	found := false
	for l, w := range st.mem {
		if g.isField(l, key) {
			found = true
			if w == v {
				return true
			}
		}
	}
	return !found && g.ofField(v, key)
}

// request: the type of the request passed to RequestAndGet by this event ("" if it is none).
func request(st *State, ev *Event) (string, rd) {
	if ev.Kind == "call" && ev.Name == "Broker.RequestAndGet" && len(ev.Args) == 2 {
		r := readArg(st, ev.Args[1])
		if r.ok() {
			t := r.typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			return typeShort(t), r
		}
	}
	return "", rd{}
}

var groupRequests = map[string]bool{"JoinGroupRequest": true, "SyncGroupRequest": true, "HeartbeatRequest": true, "LeaveGroupRequest": true}

func (g *grpModel) classes() []errClass {
	p := g.c.p
	return []errClass{
		codeClass(p, 25), codeClass(p, 15), codeClass(p, 16), codeClass(p, 22), codeClass(p, 27), codeClass(p, 14), codeClass(p, 24),
		opaqueClass("EOF", "io.EOF", "EOF"), opaqueClass("connection refused", "", "dial tcp: connect: connection refused"),
		opaqueClass("network is unreachable", "", "dial tcp: connect: network is unreachable"), opaqueClass("timeout", "", "read tcp: i/o timeout"),
		opaqueClass("any other error", "", "something else"),
	}
}

// setup installs the model of requests that the rules of this family share.
func (g *grpModel) setup(set func(req string, ok bool, st *State, mon map[string]*Term)) {
	g.hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		if o, ok := g.cur.asked(x, st, name, args, site); ok {
			return o, ok
		}
		if name == "Broker.RequestAndGet" && len(args) == 2 {
			rt, _ := request(st, &Event{Kind: "call", Name: name, Args: args})
			o, ok := brokerOutcomes(x, st, name, fn, site)
			if !ok || len(o) != 2 {
				return o, ok
			}
			if groupRequests[rt] {
				e := g.cur.mk(st)
				o[1].Res = mk("tuple", "", append(append([]*Term{}, o[1].Res.Args[:len(o[1].Res.Args)-1]...), e)...)
				o[1].Facts = nil
				o[1].Tag = rt + " fails with " + g.cur.name
			}
			for i := range o {
				if o[i].Set == nil {
					o[i].Set = map[string]*Term{}
				}
				set(rt, i == 0, st, o[i].Set)
			}
			return o, true
		}
		return nil, false
	}
}

// responseAssert: a successful RequestAndGet gives the response type of the request (C19).
func responseAssert(st *State, ev *Event) {
	if ev.Kind == "assertfail" && ev.Loc != nil && okCall(ev.Loc, "Broker.RequestAndGet") != nil && strings.HasSuffix(ev.Name, "Response") {
		st.dead = true
	}
}

// awaited: other goroutines of the group consumer may have run here.
func (g *grpModel) awaited(x *Exec, st *State, ev *Event) {
	if ev.Kind == "recv" || ev.Kind == "select" && ev.Name != "default" || ev.Kind == "call" && ev.Name == "sync.WaitGroup.Wait" {
		t := mk("call", "await@"+x.site(st.top(), ev.Site))
		x.kill(st, t)
		for k := range g.mutable {
			if strings.HasPrefix(k, "GroupConsumer.") {
				st.havocField(k, t)
			}
		}
	}
}

func (g *grpModel) runAll(roots ...string) {
	for _, n := range roots {
		if f := g.c.anchor(n); f != nil {
			g.root = f
			g.run(f)
		}
	}
}

// ---------------------------------------------------------------- C29

func ruleC29(c *Ctx) {
	g := newGrpModel(c, "C29")
	c.rule("request", "join, sync, heartbeat and leave requests are sent to the coordinator with the group id and the current member id and generation")
	c.rule("update", "member id, generation and leadership are taken over from every successful join response before the next group request")
	c.rule("discard", "the member id is cleared exactly when a join or sync is answered with unknown member, or after leaving")
	c.rule("leader", "the member hands out assignments exactly when the join response names it leader")
	g.setup(func(rt string, ok bool, st *State, mon map[string]*Term) {
		switch {
		case rt == "JoinGroupRequest" && ok:
			mon["need:member"], mon["need:generation"], mon["need:leader"] = tTrue, tTrue, tTrue
		case (rt == "JoinGroupRequest" || rt == "SyncGroupRequest") && !ok && g.cur.code == 25:
			mon["unknown"] = tTrue
			mon["mustclear"] = tTrue
		case rt == "LeaveGroupRequest" && ok:
			mon["left"] = tTrue
			mon["mustclear"] = tTrue
		}
	})
	settled := func(st *State, ev *Event, what string) {
		fn := fname(st.top().fn)
		for _, k := range []string{"member", "generation", "leader", "members"} {
			if st.flag("need:" + k) {
				if k == "members" {
					v := st.load(mkFld(g.self(st), nil, g.ldr), types.Typ[types.Bool])
					if b, ok := st.evalBool(v); ok && !b {
						st.set("need:members", nil)
						continue
					}
				}
				c.fail("update", k, instrPos(ev.Site), st.path(), "%s: %s without having taken over the %s of the successful join", fn, what, map[string]string{"member": "member id", "generation": "generation", "leader": "leadership", "members": "member list"}[k])
				st.set("need:"+k, nil)
			}
		}
	}
	joinField := func(v *Term, name string) bool {
		return v != nil && okCall(v, "Broker.RequestAndGet") != nil && strings.Contains(v.String(), "JoinGroupResponse") && strings.HasSuffix(v.String(), "."+name)
	}
	g.event = func(x *Exec, st *State, ev *Event) {
		responseAssert(st, ev)
		g.awaited(x, st, ev)
		fn := fname(st.top().fn)
		rt, r := request(st, ev)
		if groupRequests[rt] || rt == "OffsetCommitRequest" {
			c.count("group requests", 1)
			c.count(rt+"s", 1)
			if !g.now(st, ev.Args[0], g.gCoord) {
				c.fail("request", rt+" broker", instrPos(ev.Site), st.path(), "%s is sent to %v, not to the current coordinator", rt, ev.Args[0])
			}
			if !g.ofField(r.f("GroupID").t, g.groupID) {
				c.fail("request", rt+" group", instrPos(ev.Site), st.path(), "%s is sent with group id %v, not the configured one", rt, r.f("GroupID").t)
			}
			if !g.now(st, r.f("MemberID").t, g.member) {
				c.fail("request", rt+" member", instrPos(ev.Site), st.path(), "%s is sent with member id %v, not the current one", rt, r.f("MemberID").t)
			}
			if r.f("GenerationID").ok() && !g.now(st, r.f("GenerationID").t, g.gen) {
				c.fail("request", rt+" generation", instrPos(ev.Site), st.path(), "%s is sent with generation %v, not the current one", rt, r.f("GenerationID").t)
			}
			settled(st, ev, "a "+rt+" is sent")
			if rt == "JoinGroupRequest" {
				if st.flag("mustclear") {
					c.fail("discard", fn, instrPos(ev.Site), st.path(), "the group is joined again with the member id the coordinator does not know")
				}
				st.setFlag("assigned", false)
				st.setFlag("unknown", false)
			}
			if rt == "SyncGroupRequest" {
				v := st.load(mkFld(g.self(st), nil, g.ldr), types.Typ[types.Bool])
				b, ok := st.evalBool(v)
				if !ok || b != st.flag("assigned") {
					c.fail("leader", fn, instrPos(ev.Site), st.path(), "a sync request is sent with assignments made: %v, although the member's leadership is %v", st.flag("assigned"), v)
				}
				n, known := st.nilness(r.f("GroupAssignment").t)
				if st.flag("assigned") == (known && n) {
					c.fail("leader", fn, instrPos(ev.Site), st.path(), "the assignments in the sync request are not those the leader made")
				}
			}
			return
		}
		switch ev.Kind {
		case "call":
			if strings.HasSuffix(ev.Name, "AssignmentStrategy.Assign") || ev.Name == "rangeAssignmentStrategy.Assign" {
				st.setFlag("assigned", true)
				c.count("assignments made", 1)
				if len(ev.Args) > 1 && !g.now(st, ev.Args[1], g.members) {
					c.fail("leader", fn, instrPos(ev.Site), st.path(), "partitions are assigned to %v, not to the members of the join response", ev.Args[1])
				}
			}
		case "store":
			switch {
			case freshObj(ev.Loc):
			case g.isField(ev.Loc, g.member):
				c.count("stores to the member id", 1)
				if s, ok := ev.Val.strVal(); ok && s == "" {
					if !st.flag("unknown") && !st.flag("left") {
						c.fail("discard", fn, instrPos(ev.Site), st.path(), "the member id is discarded although the coordinator did not say that it is unknown and the group was not left")
					}
					st.set("mustclear", nil)
					st.set("unknown", nil)
					return
				}
				if !joinField(ev.Val, "MemberID") {
					c.fail("update", "member id", instrPos(ev.Site), st.path(), "the member id is set to %v, which is not that of a successful join", ev.Val)
				}
				st.set("need:member", nil)
				st.set("mustclear", nil)
			case g.isField(ev.Loc, g.gen):
				c.count("stores to the generation", 1)
				if !joinField(ev.Val, "GenerationID") {
					c.fail("update", "generation", instrPos(ev.Site), st.path(), "the generation is set to %v, which is not that of a successful join", ev.Val)
				}
				st.set("need:generation", nil)
			case g.isField(ev.Loc, g.members):
				if joinField(ev.Val, "Members") {
					st.set("need:members", nil)
					st.setFlag("hasmembers", true)
				}
			case g.isField(ev.Loc, g.ldr):
				c.count("stores to the leadership", 1)
				ok, lead := g.leads(st, ev.Val, joinField)
				if !ok || !st.flag("need:leader") {
					c.fail("update", "leadership", instrPos(ev.Site), st.path(), "the leadership is set to %v, which is not whether the join response names this member leader", ev.Val)
				}
				st.set("need:leader", nil)
				if lead && !st.flag("hasmembers") {
					st.setFlag("need:members", true)
				}
				st.set("hasmembers", nil)
			}
		case "return":
			settled(st, ev, fname(x.root)+" ends")
			if st.flag("mustclear") && st.flag("left") {
				c.fail("discard", fn, instrPos(ev.Site), st.path(), "the member id is kept after leaving the group")
			}
		}
	}
	for _, k := range g.classes() {
		if k.code != 25 && k.code != 22 && k.name != "any other error" {
			continue // the identity depends on no other distinction
		}
		g.cur = k
		g.runAll("GroupConsumer.Consume", "GroupConsumer.AwaitClose")
		for _, f := range g.committers() {
			g.root = f
			g.run(f)
		}
		c.count("error classes", 1)
	}
	c.floor("JoinGroupRequests", 1)
	c.floor("SyncGroupRequests", 1)
	c.floor("HeartbeatRequests", 1)
	c.floor("LeaveGroupRequests", 1)
	c.floor("OffsetCommitRequests", 1)
	c.floor("assignments made", 1)
	c.floor("stores to the member id", 2)
	c.floor("stores to the generation", 1)
	c.floor("stores to the leadership", 1)
	c.assumef("RequestAndGet returns the error the broker put into the response (C10), and the response type of the request (C19)")
}

// committers: methods of the group consumer that commit offsets.
func (g *grpModel) committers() []*ssa.Function {
	p := g.c.p
	r := p.reaches(func(f *ssa.Function) bool {
		return f.Pkg == p.core && !isCodec(f) && p.mentions(f, "OffsetCommitRequest")
	}, false)
	var fs []*ssa.Function
	for f := range r {
		if f.Parent() == nil && f.Synthetic == "" && f.Signature.Recv() != nil && typeShort(recvType(f)) == "GroupConsumer" && g.c.p.callsName(f, "SimpleConsumer.CommitOffset") == false {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	return fs
}

// self: the group consumer the current goroutine works for.
func (g *grpModel) self(st *State) *Term {
	for l := range st.mem {
		if l.Op == "fld" && strings.HasPrefix(l.Str, "GroupConsumer.") {
			return l.Args[0]
		}
	}
	for _, f := range st.frames {
		for _, a := range f.args {
			if ptrTo(a.Typ, modPath, "GroupConsumer") {
				return a
			}
		}
	}
	return st.frames[0].args[0]
}

// leads: v says whether the join response names this member leader; lead: it does on this path.
func (g *grpModel) leads(st *State, v *Term, joinField func(*Term, string) bool) (ok, lead bool) {
	isCmp := func(t *Term) bool {
		if t.Op != "eq" || t.any(func(u *Term) bool { return u.Op == "old" }) {
			return false
		}
		for i := 0; i < 2; i++ {
			if joinField(t.Args[i], "LeaderID") && joinField(t.Args[1-i], "MemberID") {
				return true
			}
		}
		return false
	}
	if isCmp(v) {
		b, known := st.evalBool(v)
		return true, !known || b
	}
	b, isConst := st.evalBool(v)
	if !isConst {
		return false, true
	}
	for f, w := range st.facts {
		if isCmp(f) {
			return w == b, b
		}
	}
	return false, b
}

// each follows a loop over a collection: begin is told by the loop's comparison with the length of the
// collection; the loop is complete when the comparison fails and every iteration did its work ("it:"+k == "1").
func each(st *State, ev *Event, k string, isColl func(*Term) bool) {
	if ev.Kind != "branch" {
		return
	}
	t := ev.Val
	neg := false
	for t.Op == "not" {
		t, neg = t.Args[0], !neg
	}
	_ = neg
	if t.Op != "lt" || t.Args[1].Op != "app" || t.Args[1].Str != "len" || !isColl(t.Args[1].Args[0]) {
		return
	}
	more, ok := st.evalBool(t)
	if !ok {
		return
	}
	s, _ := st.get("it:" + k).strVal()
	if s != "" && s != "1" {
		st.setFlag("bad:"+k, true)
	}
	if more {
		st.set("it:"+k, tStr("0"))
		return
	}
	if !st.flag("bad:" + k) {
		st.setFlag("all:"+k, true)
	}
	st.set("it:"+k, nil)
	st.set("bad:"+k, nil)
}

// did records a step of the work of the current iteration.
func did(st *State, k, from, to string) bool {
	s, _ := st.get("it:" + k).strVal()
	if s == from {
		st.set("it:"+k, tStr(to))
		return true
	}
	st.setFlag("bad:"+k, true)
	return false
}

func elemOf(t *Term, isColl func(*Term) bool) bool {
	for t != nil {
		if l := fieldLoc(t); l != nil && l.Op == "idx" {
			return isColl(l.Args[0])
		}
		if t.Op == "idx" {
			return isColl(t.Args[0])
		}
		return false
	}
	return false
}

// isScs: the list of partition consumers of the group consumer.
func (g *grpModel) isScs(st *State) func(*Term) bool {
	return func(t *Term) bool { return g.ofField(t, g.scs) || g.now(st, t, g.scs) }
}

func lockNames(st *State) []string {
	var r []string
	for _, l := range heldLocks(st) {
		if l.Op == "fld" {
			r = append(r, l.Str)
		}
	}
	sort.Strings(r)
	return r
}

// common: a lock held at every one of n sites.
func common(m map[string]int, n int) string {
	var r []string
	for k, v := range m {
		if v == n {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	if len(r) == 0 {
		return ""
	}
	return r[0]
}

// stopAll follows the stopping of the partition consumers: "all:stop" and then "waited".
func (g *grpModel) stopAll(st *State, ev *Event) {
	isScs := g.isScs(st)
	each(st, ev, "stop", isScs)
	switch ev.Kind {
	case "branch":
		ev.Val.any(func(u *Term) bool {
			if u.Op == "eq" {
				for i := 0; i < 2; i++ {
					a, b := u.Args[i], u.Args[1-i]
					zero := a == tNil && isScs(b)
					if n, ok := a.intVal(); ok && n == 0 && b.Op == "app" && b.Str == "len" && isScs(b.Args[0]) {
						zero = true
					}
					if v, ok := st.evalBool(u); zero && ok && v {
						st.setFlag("all:stop", true)
					}
				}
			}
			return false
		})
	case "call":
		switch {
		case ev.Fn == g.stopFn && ev.Fn != nil:
			g.c.count("stops of partition consumers", 1)
			if !elemOf(ev.Args[0], isScs) || !did(st, "stop", "0", "1") {
				st.setFlag("bad:stop", true)
			}
		case ev.Name == "sync.WaitGroup.Wait" && len(ev.Args) > 0 && g.isField(ev.Args[0], g.gWg):
			if st.flag("all:stop") {
				st.setFlag("waited", true)
			}
		}
	}
}

func localChan(t *Term) bool {
	return t != nil && fieldLoc(t) == nil && !t.any(func(u *Term) bool {
		return u.Op == "call" && (strings.HasPrefix(u.Str, "time.After@") || strings.HasPrefix(u.Str, "context.Context.Done@"))
	}) && !strings.Contains(t.String(), "time.")
}

// ---------------------------------------------------------------- C30

func ruleC30(c *Ctx) {
	g := newGrpModel(c, "C30")
	c.rule("stopped-first", "a background goroutine starts a new join only after every partition consumer was stopped, the wait group was waited for and the joined flag was reset")
	c.rule("serialised", "all restarts hold one and the same lock")
	c.rule("heartbeat", "a heartbeat is sent only while joined, which is checked under a lock the restart holds when it resets the flag; the flag is set only after the join has completed")
	c.rule("assigned", "after a sync one partition consumer is created for each partition of each assignment, wired to the group, and each is announced and started once")
	g.setup(func(rt string, ok bool, st *State, mon map[string]*Term) {
		switch {
		case rt == "SyncGroupRequest" && ok:
			mon["synced"], mon["all:assign"], mon["parsed"] = tTrue, nil, nil
		case rt == "JoinGroupRequest":
			mon["synced"] = nil
		}
	})
	rejoins, heartbeats, resets := 0, 0, 0
	hb := map[string]int{}
	assigns := func(t *Term) bool {
		return t != nil && t.Typ != nil && isSliceOf(isPtrNamed("PartitionAssignment"))(t.Typ)
	}
	parts := func(t *Term) bool {
		l := fieldLoc(t)
		return l != nil && l.Op == "fld" && l.Str == "PartitionAssignment.Partitions"
	}
	g.event = func(x *Exec, st *State, ev *Event) {
		responseAssert(st, ev)
		trackLocks(st, ev)
		g.stopAll(st, ev)
		fn := fname(st.top().fn)
		isScs := g.isScs(st)
		background := !g.inRoot && !g.joins[x.root]
		// the assigned partitions
		each(st, ev, "assign", assigns)
		if ev.Kind == "branch" {
			was := st.flag("all:part")
			each(st, ev, "part", parts)
			if st.flag("all:part") && !was {
				did(st, "assign", "0", "1")
				st.set("all:part", nil)
			}
			each(st, ev, "start", isScs)
			if st.flag("mustStart") && st.flag("all:start") {
				st.set("mustStart", nil)
			}
		}
		g.awaited(x, st, ev)
		rt, _ := request(st, ev)
		switch {
		case rt == "HeartbeatRequest":
			heartbeats++
			c.count("heartbeats", 1)
			for _, l := range lockNames(st) {
				hb[l]++
			}
			v := st.load(mkFld(g.self(st), nil, g.joined), types.Typ[types.Bool])
			if b, ok := st.evalBool(v); !ok || !b {
				c.fail("heartbeat", fn, instrPos(ev.Site), st.path(), "a heartbeat is sent although the member may not be joined")
			}
			return
		case rt == "JoinGroupRequest" && background:
			g.rejoin(st, ev, fn, &rejoins)
			return
		}
		switch ev.Kind {
		case "go":
			if ev.Fn == nil {
				return
			}
			if g.joins[ev.Fn] {
				st.setFlag("joining", true)
				if background {
					g.rejoin(st, ev, fn, &rejoins)
				}
			}
			if ev.Fn == g.consumeFn {
				g.startOne(st, ev, fn, isScs)
			}
		case "select", "recv":
			if (ev.Kind == "recv" || ev.Name == "recv") && st.flag("joining") && localChan(ev.Loc) {
				st.setFlag("signalled", true)
				st.set("joining", nil)
				st.set("all:start", nil)
			}
		case "call":
			switch {
			case ev.Fn == g.consumeFn && ev.Fn != nil:
				g.startOne(st, ev, fn, isScs)
			case ev.Name == "sync.WaitGroup.Add" && len(ev.Args) == 2 && g.isField(ev.Args[0], g.gWg):
				if n, ok := ev.Args[1].intVal(); !ok || n != 1 {
					c.fail("assigned", "announce", instrPos(ev.Site), st.path(), "%s announces %v partition consumers at once", fn, ev.Args[1])
				}
				did(st, "start", "0", "a")
			case ev.Fn == g.createFn && ev.Fn != nil:
				c.count("partition consumers created", 1)
				did(st, "part", "0", "c")
				g.created(st, ev, fn, parts)
			case ev.Name == "builtin.append" && len(ev.Args) == 2 && ev.Args[0].Typ != nil && isSliceOf(isPtrNamed("SimpleConsumer"))(ev.Args[0].Typ):
				if g.appended(st, ev, fn) {
					st.setFlag("local", true)
				}
			}
		case "store":
			switch {
			case freshObj(ev.Loc):
			case g.isField(ev.Loc, g.scs) && st.flag("synced"):
				st.setFlag("parsed", true)
				st.set("local", nil)
			case g.isField(ev.Loc, g.joined):
				c.count("stores to the joined flag", 1)
				if ev.Val == tFalse {
					st.setFlag("hboff", true)
					if background {
						resets++
						for _, l := range lockNames(st) {
							g.lockJoined[l]++
						}
					}
					return
				}
				if ev.Val != tTrue || !st.flag("signalled") && !st.flag("parsed") {
					c.fail("heartbeat", fn, instrPos(ev.Site), st.path(), "the member is marked as joined (heartbeats go on) before the join has completed")
				}
				st.set("hboff", nil)
				if !st.flag("all:start") {
					st.setFlag("mustStart", true)
				}
			}
		case "return":
			if g.joins[x.root] && st.flag("synced") && st.flag("parsed") && (!st.flag("all:assign") || st.flag("local")) {
				c.fail("assigned", "create", instrPos(ev.Site), st.path(), "%s ends after a sync without having created a partition consumer for each assigned partition", fname(x.root))
			}
			if st.flag("mustStart") {
				c.fail("assigned", "start", instrPos(ev.Site), st.path(), "%s ends without having announced and started each partition consumer once", fname(x.root))
			}
		}
	}
	g.cur = opaqueClass("any other error", "", "something else")
	g.runAll("GroupConsumer.Consume")
	if rejoins > 0 && common(g.lockRejoin, rejoins) == "" {
		c.fail("serialised", "GroupConsumer", 0, nil, "no lock is held at every restart: %v of %d", g.lockRejoin, rejoins)
	}
	both := ""
	for l, n := range hb {
		if n == heartbeats && resets > 0 && g.lockJoined[l] == resets {
			both = l
		}
	}
	if both == "" && heartbeats > 0 {
		c.fail("heartbeat", "lock", 0, nil, "a heartbeat may still be under way when the group is joined again: no lock is held both while sending one (%v of %d) and when the joined flag is reset (%v of %d)", hb, heartbeats, g.lockJoined, resets)
	}
	c.floor("heartbeats", 1)
	c.floor("restarts", 2)
	c.floor("partition consumers created", 1)
	c.floor("partition consumers started", 1)
	c.floor("stores to the joined flag", 2)
	c.floor("stops of partition consumers", 1)
	c.assumef("SimpleConsumer.Stop returns only after its consume loop has ended (C26)")
}

func (g *grpModel) rejoin(st *State, ev *Event, fn string, n *int) {
	c := g.c
	*n++
	c.count("restarts", 1)
	for _, l := range lockNames(st) {
		g.lockRejoin[l]++
	}
	if !st.flag("all:stop") {
		c.fail("stopped-first", "stop", instrPos(ev.Site), st.path(), "%s: the group is joined again although not every partition consumer was stopped", fn)
	} else if !st.flag("waited") {
		c.fail("stopped-first", "wait", instrPos(ev.Site), st.path(), "%s: the group is joined again without having waited for the partition consumers", fn)
	}
	if !st.flag("hboff") {
		c.fail("stopped-first", "heartbeat", instrPos(ev.Site), st.path(), "%s: the group is joined again without having suspended the heartbeats", fn)
	}
	st.set("all:stop", nil)
	st.set("waited", nil)
}

func (g *grpModel) startOne(st *State, ev *Event, fn string, isScs func(*Term) bool) {
	c := g.c
	c.count("partition consumers started", 1)
	if !elemOf(ev.Args[0], isScs) {
		c.fail("assigned", "start", instrPos(ev.Site), st.path(), "%s starts %v, which is not the partition consumer whose turn it is", fn, ev.Args[0])
		return
	}
	if !did(st, "start", "a", "1") {
		c.fail("assigned", "announce", instrPos(ev.Site), st.path(), "%s: a partition consumer is started twice or without having been announced to the wait group", fn)
	}
}

// created checks the arguments of the creation of a partition consumer.
func (g *grpModel) created(st *State, ev *Event, fn string, parts func(*Term) bool) {
	c := g.c
	var topic, part *Term
	for i, p := range g.createFn.Params {
		switch {
		case isBasic(types.String)(p.Type()):
			topic = ev.Args[i]
		case isBasic(types.Int32)(p.Type()):
			part = ev.Args[i]
		}
	}
	ok := false
	if part != nil && topic != nil && elemOf(part, parts) {
		l := fieldLoc(part)
		if l == nil {
			l = part
		}
		of := fieldLoc(l.Args[0]).Args[0] // the assignment
		tl := fieldLoc(topic)
		ok = tl != nil && tl.Str == "PartitionAssignment.Topic" && tl.Args[0] == of
	}
	if !ok {
		c.fail("assigned", "create", instrPos(ev.Site), st.path(), "%s: a partition consumer is created for %v / %v, which is not the assigned partition whose turn it is", fn, topic, part)
	}
}

func (g *grpModel) appended(st *State, ev *Event, fn string) bool {
	c := g.c
	e := (rd{st, ev.Args[1], types.NewSlice(types.NewPointer(c.p.typ("SimpleConsumer"))), nil}).only()
	if !e.ok() || okCall(e.t, "NewSimpleConsumerWithBrokers") == nil {
		return false
	}
	did(st, "part", "c", "1")
	if v := st.mem[mkFld(e.t, nil, g.group)]; v == nil || !ptrTo(v.Typ, modPath, "GroupConsumer") {
		c.fail("assigned", "group", instrPos(ev.Site), st.path(), "%s: a partition consumer is added that does not belong to the group", fn)
	}
	if v := st.mem[mkFld(e.t, nil, g.parentWg)]; v == nil || !g.isField(v, g.gWg) {
		c.fail("assigned", "wait group", instrPos(ev.Site), st.path(), "%s: a partition consumer is added that does not report to the group's wait group", fn)
	}
	c.count("partition consumers added", 1)
	return true
}

// ---------------------------------------------------------------- C31

func ruleC31(c *Ctx) {
	g := newGrpModel(c, "C31")
	c.rule("coordinator", "after a join or sync that failed because the coordinator is unavailable or has moved, it is looked up again before the next join")
	c.rule("rejoin", "the goroutine that joins ends only after a successful join and sync, or when the consumer was closed")
	c.rule("heartbeat", "after a failed heartbeat the group is joined again before the next heartbeat, unless the consumer was closed")
	lostJoin := func() bool {
		switch g.cur.name {
		case "EOF", "connection refused", "network is unreachable", "timeout":
			return true
		}
		return g.cur.code == 15 || g.cur.code == 16
	}
	g.setup(func(rt string, ok bool, st *State, mon map[string]*Term) {
		switch {
		case rt == "JoinGroupRequest" && !ok && lostJoin(), rt == "SyncGroupRequest" && !ok && (g.cur.code == 15 || g.cur.code == 16):
			mon["lost"] = tTrue
		case rt == "SyncGroupRequest" && ok:
			mon["synced"], mon["parsed"] = tTrue, nil
		case rt == "HeartbeatRequest" && !ok:
			mon["hbfail"] = tTrue
		}
		if rt == "JoinGroupRequest" {
			mon["tried"] = tTrue
			mon["synced"], mon["parsed"] = nil, nil
		}
	})
	joinedUp := func(x *Exec, st *State, ev *Event, what string) {
		if g.joins[x.root] && !(st.flag("synced") && st.flag("parsed")) && !st.flag("stopped") {
			c.fail("rejoin", fname(x.root), instrPos(ev.Site), st.path(), "%s %s although the group was not joined and the consumer was not closed", fname(x.root), what)
		}
		c.count("ends of joining", 1)
	}
	g.event = func(x *Exec, st *State, ev *Event) {
		responseAssert(st, ev)
		g.stopSeen(st, ev)
		g.awaited(x, st, ev)
		fn := fname(st.top().fn)
		rt, _ := request(st, ev)
		switch rt {
		case "JoinGroupRequest":
			c.count("joins", 1)
			if st.flag("lost") {
				c.fail("coordinator", g.cur.name, instrPos(ev.Site), st.path(), "after a join or sync that failed with %s the group is joined again without having looked up the coordinator", g.cur.name)
				st.set("lost", nil)
			}
			st.set("hbfail", nil)
		case "HeartbeatRequest":
			c.count("heartbeats", 1)
			if st.flag("hbfail") && !st.flag("stopped") {
				c.fail("heartbeat", fn, instrPos(ev.Site), st.path(), "a heartbeat failed with %s, and heartbeats go on without joining again", g.cur.name)
				st.set("hbfail", nil)
			}
		}
		switch ev.Kind {
		case "store":
			switch {
			case g.isField(ev.Loc, g.gCoord) && (okCall(ev.Val, "Brokers.GetBroker") != nil || okCall(ev.Val, "Brokers.NewBroker") != nil):
				c.count("coordinators found", 1)
				st.set("lost", nil)
			case g.isField(ev.Loc, g.scs) && st.flag("synced"):
				st.setFlag("parsed", true)
			}
		case "go":
			if ev.Fn != nil && g.joins[ev.Fn] {
				st.set("hbfail", nil)
			}
		case "send":
			if !g.inRoot {
				joinedUp(x, st, ev, "reports its end")
			}
		case "return":
			if !g.inRoot || g.joins[x.root] {
				joinedUp(x, st, ev, "ends")
			}
			if st.flag("hbfail") && !st.flag("stopped") {
				c.fail("heartbeat", fn, instrPos(ev.Site), st.path(), "a heartbeat failed with %s, and the goroutine ends without joining again", g.cur.name)
			}
		}
	}
	for _, k := range g.classes() {
		g.cur = k
		g.runAll("GroupConsumer.Consume")
		c.count("error classes", 1)
	}
	c.floor("joins", 12)
	c.floor("heartbeats", 12)
	c.floor("coordinators found", 12)
	c.floor("ends of joining", 12)
}

// ---------------------------------------------------------------- C32

func ruleC32(c *Ctx) {
	g := newGrpModel(c, "C32")
	c.rule("order", "closing marks the consumer closed, stops every partition consumer and waits, then leaves (if joined), and closes the connections last, on every path")
	c.rule("no-join", "the closed flag is looked at between the last wait and every join, and loops of the background goroutines end once it is set")
	c.rule("no-start", "partition consumers are started under the lock under which the consumer is marked closed, after looking at the mark")
	g.setup(func(rt string, ok bool, st *State, mon map[string]*Term) {
		mon["fresh"] = nil
		if rt == "LeaveGroupRequest" {
			mon["leaving"] = tTrue
		}
	})
	closing, starts := 0, 0
	startL := map[string]int{}
	isClosed := func(l *Term) bool { return g.isField(l, g.closed) }
	looping := g.loopRule("no-join", isClosed, func() bool { return false })
	closer := false
	g.event = func(x *Exec, st *State, ev *Event) {
		responseAssert(st, ev)
		trackLocks(st, ev)
		if op, l := lockOp(st, ev); op == "Unlock" && l.Op == "fld" {
			st.set("seen:"+l.Str, nil)
		}
		fn := fname(st.top().fn)
		if !closer {
			looping(x, st, ev)
			if st.dead {
				return
			}
		}
		g.stopAll(st, ev)
		g.awaited(x, st, ev)
		rt, _ := request(st, ev)
		switch ev.Kind {
		case "branch":
			ev.Val.any(func(u *Term) bool {
				if u.Op == "vol" && isClosed(u.Args[0]) {
					if b, ok := st.evalBool(u); ok && !b {
						st.setFlag("fresh", true)
						for _, l := range lockNames(st) {
							st.setFlag("seen:"+l, true)
						}
					}
				}
				return false
			})
		case "recv", "select":
			st.set("fresh", nil)
			if ev.Kind == "recv" || ev.Name == "recv" {
				if localChan(ev.Loc) {
					st.setFlag("signal", true)
				} else if ev.Loc != nil && strings.Contains(ev.Loc.String(), "time.") {
					st.setFlag("timeout", true)
				}
			}
		case "store":
			if g.isField(ev.Loc, g.closed) && ev.Val != tTrue && (closer || !g.inRoot) && !freshObj(ev.Loc) {
				c.fail("no-join", "mark", instrPos(ev.Site), st.path(), "%s: the mark that the consumer is closed is taken back", fn)
			}
			if g.isField(ev.Loc, g.closed) && ev.Val == tTrue && closer {
				closing++
				for _, l := range lockNames(st) {
					g.lockClosed[l]++
				}
				st.setFlag("closing", true)
				c.count("closes", 1)
			}
		case "go":
			if ev.Fn == g.consumeFn && ev.Fn != nil {
				starts++
				c.count("partition consumers started", 1)
				for _, l := range lockNames(st) {
					if st.flag("seen:" + l) {
						startL[l]++
					}
				}
			}
			if ev.Fn != nil && closer && c.p.callsName(ev.Fn, "sync.WaitGroup.Wait") {
				st.setFlag("waiter", true)
			}
		case "call":
			switch {
			case ev.Name == "time.Sleep" || ev.Name == "sync.WaitGroup.Wait" || brokerRecv(ev.Fn) && ev.Name != "Broker.RequestAndGet" && !g.also[ev.Fn] && errResultOf(ev.Fn):
				st.set("fresh", nil)
			case rt == "JoinGroupRequest":
				c.count("joins", 1)
				if !st.flag("fresh") {
					c.fail("no-join", fn, instrPos(ev.Site), st.path(), "%s: the group is joined without having looked, after the last wait, whether the consumer was closed", fn)
				}
			}
			if !closer {
				return
			}
			switch {
			case ev.Fn == g.stopFn && ev.Fn != nil:
				if !st.flag("closing") {
					c.fail("order", "mark", instrPos(ev.Site), st.path(), "partition consumers are stopped before the consumer is marked closed, so that a restart may start new ones")
				}
				if st.flag("brokersclosed") {
					c.fail("order", "connections", instrPos(ev.Site), st.path(), "connections are closed before the partition consumers are stopped")
				}
			case rt == "LeaveGroupRequest":
				c.count("leaves", 1)
				if !st.flag("closing") {
					c.fail("order", "mark", instrPos(ev.Site), st.path(), "the group is left before the consumer is marked closed")
				}
				if !st.flag("all:stop") {
					c.fail("order", "stop", instrPos(ev.Site), st.path(), "the group is left although not every partition consumer was stopped")
				} else if !st.flag("waited") && !(st.flag("signal") && st.flag("waiter")) {
					c.fail("order", "wait", instrPos(ev.Site), st.path(), "the group is left without having waited for the partition consumers")
				}
				if st.flag("timeout") && !st.flag("waited") {
					c.fail("order", "wait", instrPos(ev.Site), st.path(), "the group is left although waiting for the partition consumers timed out")
				}
				if st.flag("brokersclosed") {
					c.fail("order", "connections", instrPos(ev.Site), st.path(), "connections are closed before the group is left")
				}
				v := st.load(mkFld(g.self(st), nil, g.joined), types.Typ[types.Bool])
				if b, ok := st.evalBool(v); !ok || !b {
					c.fail("order", "joined", instrPos(ev.Site), st.path(), "a leave request is sent although the member may not be joined")
				}
				st.setFlag("left", true)
			case ev.Name == "Brokers.Close":
				st.setFlag("brokersclosed", true)
			}
		case "return":
			if !closer || !g.inRoot {
				return
			}
			c.count("ends of closing", 1)
			if !st.flag("closing") {
				c.fail("order", "mark", instrPos(ev.Site), st.path(), "closing ends without having marked the consumer closed")
			}
			if !st.flag("brokersclosed") {
				c.fail("order", "connections", instrPos(ev.Site), st.path(), "closing ends without having closed the connections")
			}
			if !st.flag("all:stop") {
				c.fail("order", "stop", instrPos(ev.Site), st.path(), "closing ends although not every partition consumer was stopped")
			}
			if !st.flag("left") && !st.flag("timeout") {
				v := st.load(mkFld(g.self(st), nil, g.joined), types.Typ[types.Bool])
				if b, ok := st.evalBool(v); !ok || b {
					c.fail("order", "leave", instrPos(ev.Site), st.path(), "closing ends in time without having left the group, although the member may be joined")
				}
			}
		}
	}
	g.cur = opaqueClass("any other error", "", "something else")
	g.runAll("GroupConsumer.Consume")
	closer = true
	g.runAll("GroupConsumer.AwaitClose", "GroupConsumer.Close")
	if starts > 0 && closing > 0 {
		ok := ""
		for l, n := range startL {
			if n == starts && g.lockClosed[l] == closing {
				ok = l
			}
		}
		if ok == "" {
			c.fail("no-start", "lock", 0, nil, "partition consumers may be started after closing has stopped them: no lock is held both when the consumer is marked closed (%v of %d) and from looking at the mark to starting them (%v of %d)", g.lockClosed, closing, startL, starts)
		}
	}
	c.floor("joins", 1)
	c.floor("leaves", 1)
	c.floor("closes", 1)
	c.floor("ends of closing", 2)
	c.floor("partition consumers started", 1)
	c.floor("unbounded loops", 3)
}

func errResultOf(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrT(rs.At(rs.Len()-1).Type())
}
