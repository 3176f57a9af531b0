package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "provenance analysis: for every request sent, where the id of the broker it goes to comes from, against the request's topic, partition or group", ruleC33)
}

// requestClass: which broker is responsible for a request.
var requestClass = map[string]string{
	"CreateTopicsRequest": "controller", "DeleteTopicsRequest": "controller", "CreatePartitionsRequest": "controller",
	"DescribeAclsRequest": "controller", "CreateAclsRequest": "controller", "DeleteAclsRequest": "controller",
	"ListPartitionReassignmentsRequest": "controller", "AlterPartitionReassignmentsRequest": "controller", "ElectLeadersRequest": "controller",
	"JoinGroupRequest": "coordinator", "SyncGroupRequest": "coordinator", "HeartbeatRequest": "coordinator", "LeaveGroupRequest": "coordinator",
	"OffsetFetchRequest": "coordinator", "OffsetCommitRequest": "coordinator", "DescribeGroupsRequest": "coordinator", "DeleteGroupsRequest": "coordinator",
	"ProduceRequest": "leader", "OffsetsRequest": "leader", "FetchRequest": "leader",
	"ListGroupsRequest": "each", "DescribeLogDirsRequest": "each", "DescribeConfigsRequest": "resource",
}

// target: what is known about the broker a request is sent to.
type target struct {
	kind string // controller, coordinator (a: group), leader (a: topic, b: partition), rangekey (a: the map iteration), node (a: id), field (key), ctx, nil, param, ?
	a, b *Term
	key  string
	el   *Term // leader: the partition's metadata
}

type tgtModel struct {
	c        *Ctx
	ctrl     string
	need     map[*ssa.Function]bool // functions whose callers have to be analysed
	cur      *ssa.Function
	fieldUse map[string]map[string]string // broker field -> kind of request sent through it -> site
	fieldSet map[string]map[string]string
	lead     map[string]bool // maps from leader to partitions: checked updates
	onSend   func(x *Exec, st *State, ev *Event, req *Term, rt string)
}

// callIn: the call of the named function the term is derived from, successful or not.
func callIn(t *Term, name string) *Term {
	var r *Term
	t.any(func(u *Term) bool {
		if u.Op == "call" && (strings.HasPrefix(u.Str, name+"@") || strings.HasPrefix(u.Str, name+"!failed@")) {
			r = u
			return true
		}
		return false
	})
	return r
}

func (m *tgtModel) isBrokerPtr(t types.Type) bool { return t != nil && ptrTo(t, modPath, "Broker") }

func fromParam(t *Term) bool {
	return t != nil && t.any(func(u *Term) bool { return u.Op == "param" && u.Str != "recv" })
}

func (m *tgtModel) class(st *State, t *Term) target {
	switch {
	case t == tNil:
		return target{kind: "nil"}
	case t.Op == "param":
		return target{kind: "param"}
	case t.Op == "res" && t.Str == "0" && t.Args[0].Op == "call":
		k := t.Args[0]
		switch {
		case strings.HasPrefix(k.Str, "Brokers.GetBroker@"), strings.HasPrefix(k.Str, "Brokers.NewBroker@"):
			return m.id(st, k.Args[1])
		case strings.HasPrefix(k.Str, "lookup@"):
			return m.held(st, k.Args[1])
		}
	case t.Op == "call" && strings.HasPrefix(t.Str, "lookup@"):
		return m.held(st, t.Args[1])
	case t.Op == "app" && strings.HasPrefix(t.Str, "assert:") && callIn(t, "context.Context.Value") != nil:
		return target{kind: "ctx"}
	}
	if l := fieldLoc(t); l != nil {
		switch {
		case l.Op == "fld":
			return target{kind: "field", key: l.Str, a: l.Args[0]}
		case l.Op == "param":
			return target{kind: "param"}
		}
	}
	if strings.Contains(t.String(), "context.Context.Value") {
		return target{kind: "ctx"}
	}
	if fromParam(t) {
		return target{kind: "param"}
	}
	return target{kind: "?", a: t}
}

// held: the broker a map of brokers has for the key: maps from node ids hold the node's broker, maps from
// groups its coordinator (every update of such a map is checked).
func (m *tgtModel) held(st *State, key *Term) target {
	if key.Typ != nil && isBasic(types.String)(key.Typ) {
		return target{kind: "coordinator", a: key}
	}
	return m.id(st, key)
}

func (m *tgtModel) id(st *State, id *Term) target {
	if k := callIn(id, "Brokers.FindCoordinator"); k != nil {
		if strings.HasSuffix(id.String(), ".NodeID") || strings.Contains(id.String(), "NodeID") {
			return target{kind: "coordinator", a: k.Args[len(k.Args)-1]}
		}
		return target{kind: "?", a: id}
	}
	loc := fieldLoc(id)
	if loc == nil && id.Op == "fsel" {
		loc = id
	}
	if loc != nil && (loc.Op == "fld" || loc.Op == "fsel") {
		switch {
		case loc.Str == m.ctrl:
			return target{kind: "controller"}
		case loc.Str == "PartitionMetadataInfo.Leader":
			return m.leaderOf(st, loc.Args[0])
		}
	}
	if id.Op == "param" {
		return target{kind: "param", a: id}
	}
	if l := fieldLoc(id); l != nil && l.Op == "param" {
		return target{kind: "param", a: id}
	}
	if id.Op == "res" && id.Str == "1" && strings.HasPrefix(id.Args[0].Str, "next@") {
		return target{kind: "rangekey", a: id.Args[0]}
	}
	return target{kind: "node", a: id}
}

// leaderOf: the leader of the partition whose metadata is el.
func (m *tgtModel) leaderOf(st *State, el *Term) target {
	r := target{kind: "leader", el: el}
	if k := callIn(el, "Brokers.RequestMetaData"); k != nil {
		r.a = k.Args[len(k.Args)-1]
	} else {
		el.any(func(u *Term) bool {
			if l := fieldLoc(u); l != nil && l.Op == "fld" && isNamed(m.c.p.fieldType(l.Str), "TopicMetadata") {
				r.key = l.Str
				return true
			}
			if u.Op == "fld" && isNamed(m.c.p.fieldType(u.Str), "TopicMetadata") {
				r.key = u.Str
				return true
			}
			return false
		})
	}
	isPid := func(t *Term) bool { return isPartOf(t, el) }
	for f, v := range st.facts {
		if v && f.Op == "eq" {
			for i := 0; i < 2; i++ {
				if isPid(f.Args[i]) && !isPid(f.Args[1-i]) {
					r.b = f.Args[1-i]
				}
			}
		}
	}
	return r
}

// isPartOf: the id of the partition whose metadata is el.
func isPartOf(t, el *Term) bool {
	if t == nil {
		return false
	}
	l := fieldLoc(t)
	return l != nil && l.Op == "fld" && l.Str == "PartitionMetadataInfo.PartitionID" && l.Args[0] == el
}

func fieldKeyOf(t *Term) string {
	if t == nil {
		return ""
	}
	if l := fieldLoc(t); l != nil && l.Op == "fld" {
		return l.Str
	}
	if t.Op == "fsel" {
		return t.Str
	}
	return ""
}

// sameT: the same value, or the same field (of the configuration or of the object the request is for).
func sameT(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	k := fieldKeyOf(a)
	return k != "" && k == fieldKeyOf(b)
}

// needs: the group, or topic and partition, the request is about.
func (m *tgtModel) subject(st *State, req *Term, rt string) (a, b *Term, list *Term) {
	t := req
	for t.Op == "iface" {
		t = t.Args[0]
	}
	r := readArg(st, req)
	switch rt {
	case "OffsetsRequest":
		if t.Op == "res" {
			t = t.Args[0]
		}
		if t.Op == "call" {
			for _, x := range t.Args {
				switch {
				case x.Typ == nil:
				case isBasic(types.String)(x.Typ) && a == nil:
					a = x
				case isSliceOf(isBasic(types.Int32))(x.Typ):
					list = x
					if e := (rd{st, x, x.Typ, nil}).only(); e.ok() {
						b = e.t
					}
				}
			}
		}
	case "DescribeGroupsRequest", "DeleteGroupsRequest":
		for _, f := range []string{"Groups", "GroupsNames"} {
			if g := r.f(f); g.ok() {
				if e := g.only(); e.ok() {
					a = e.t
				} else {
					list = g.t
				}
			}
		}
	default:
		if requestClass[rt] == "coordinator" {
			a = r.f("GroupID").t
		}
	}
	return
}

// opaqueTgt: functions the callers are analysed without.
var opaqueTgt = map[string]bool{"Brokers.GetBroker": true, "Brokers.NewBroker": true, "Brokers.FindCoordinator": true, "Brokers.RequestMetaData": true,
	"NewSimpleProducer": true, "NewSimpleConsumerWithBrokers": true}

func (m *tgtModel) askCallers(t ...*Term) bool {
	if opaqueTgt[fname(m.cur)] {
		return false
	}
	for _, x := range t {
		if fromParam(x) && len(m.c.p.callersOf()[m.cur]) > 0 {
			m.need[m.cur] = true
			return true
		}
	}
	return false
}

func (m *tgtModel) send(x *Exec, st *State, ev *Event, broker, req *Term) {
	c := m.c
	fn := fname(x.root)
	rt := ""
	t := req
	for t.Op == "iface" {
		rt = typeShort(t.Typ)
		t = t.Args[0]
	}
	if rt == "" && t.Typ != nil {
		ty := t.Typ
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			ty = p.Elem()
		}
		rt = typeShort(ty)
	}
	if m.onSend != nil {
		m.onSend(x, st, ev, req, rt)
		return
	}
	cls, known := requestClass[rt]
	if !known {
		c.count("requests any broker answers", 1)
		return
	}
	tg := m.class(st, broker)
	c.count("requests", 1)
	c.sample(fn + ": " + rt + " -> " + tg.kind)
	bad := func(format string, a ...interface{}) {
		c.fail(cls, fn+" "+rt, instrPos(ev.Site), st.path(), format, a...)
	}
	if tg.kind == "nil" {
		return
	}
	if tg.kind == "param" {
		if !m.askCallers(broker) && tg.a == nil && brokerRecv(x.root) && typeShort(recvType(x.root)) == "Broker" {
			return
		}
		if !m.need[m.cur] && cls != "resource" && cls != "each" {
			bad("%s: a %s is sent to a broker (%v) chosen by the caller", fn, rt, broker)
		}
		if cls != "resource" && cls != "each" {
			return
		}
	}
	if tg.kind == "field" {
		m.use(m.fieldUse, tg.key, cls, fn)
		a, b, _ := m.subject(st, req, rt)
		if cls == "coordinator" && (a == nil || !strings.HasSuffix(fieldKeyOf(a), ".GroupID")) {
			if !m.askCallers(a) {
				bad("%s: a %s for group %v is sent to the coordinator of the configured group", fn, rt, a)
			}
		}
		if rt == "OffsetsRequest" && (!m.topicField(a, tg.key) || !m.partField(b, tg.key)) {
			bad("%s: a %s for %v/%v is sent to the broker in %s, which leads another partition", fn, rt, a, b, tg.key)
		}
		if cls != "coordinator" && cls != "leader" {
			bad("%s: a %s is sent to the broker in %s, not to the %s", fn, rt, tg.key, cls)
		}
		return
	}
	switch cls {
	case "controller":
		if tg.kind != "controller" {
			bad("%s: a %s is sent to %v, not to the controller", fn, rt, broker)
		}
	case "coordinator":
		a, _, list := m.subject(st, req, rt)
		switch {
		case tg.kind != "coordinator":
			bad("%s: a %s is sent to %v, not to the coordinator of its group", fn, rt, broker)
		case list != nil || !sameT(a, tg.a):
			bad("%s: a %s for group %v%v is sent to the coordinator of group %v", fn, rt, a, list, tg.a)
		}
	case "leader":
		a, b, list := m.subject(st, req, rt)
		switch tg.kind {
		case "leader":
			if rt == "OffsetsRequest" && (!sameT(a, tg.a) || !sameT(b, tg.b) && !isPartOf(b, tg.el)) {
				bad("%s: a %s for %v/%v is sent to the leader of %v/%v", fn, rt, a, b, tg.a, tg.b)
			}
		case "rangekey":
			// a map from leaders to their partitions
			if list == nil || list.Op != "res" || list.Str != "2" || list.Args[0] != tg.a {
				bad("%s: a %s for partitions %v is sent to the broker %v, which need not lead them", fn, rt, list, broker)
			}
			c.count("requests per leader", 1)
		default:
			bad("%s: a %s is sent to %v, not to the leader of its partition", fn, rt, broker)
		}
	case "each":
		switch {
		case tg.kind == "rangekey" || tg.kind == "param":
		case tg.kind == "node" && strings.HasSuffix(fieldKeyOf(tg.a), "BrokerInfo.NodeID"):
		default:
			bad("%s: a %s is sent to %v, which is none of the brokers that are iterated over", fn, rt, broker)
		}
	case "resource":
		m.resource(st, ev, fn, tg, broker, orNil(readArg(st, req).f("Resources").only().f("ResourceType").t))
	}
}

// resource: broker configurations are asked from that broker, others from the controller.
func (m *tgtModel) resource(st *State, ev *Event, fn string, tg target, broker, kind *Term) {
	isBroker, known := false, st.get("resbroker") != nil
	if known {
		isBroker = st.get("resbroker") == tTrue
	}
	if k, ok := kind.intVal(); ok {
		isBroker, known = k == 4 || k == 8, true
	}
	if !known {
		m.c.fail("resource", fn, instrPos(ev.Site), st.path(), "%s: configurations are requested without having distinguished brokers from other resources", fn)
		return
	}
	m.c.count("resource requests", 1)
	conv := callIn(broker, "strconv.Atoi") != nil || callIn(broker, "strconv.ParseInt") != nil
	if isBroker && !conv || !isBroker && tg.kind != "controller" {
		m.c.fail("resource", fn, instrPos(ev.Site), st.path(), "%s: the configuration of a resource that is a broker: %v is requested from %v", fn, isBroker, broker)
	}
}

func (m *tgtModel) use(u map[string]map[string]string, key, cls, at string) {
	if u[key] == nil {
		u[key] = map[string]string{}
	}
	u[key][cls] = at
}

// topicField, partField: the value is the topic (partition) field of the struct that holds the broker.
func (m *tgtModel) topicField(t *Term, key string) bool {
	k := fieldKeyOf(t)
	return k != "" && sameOwner(k, key) && isBasic(types.String)(m.c.p.fieldType(k))
}

func (m *tgtModel) partField(t *Term, key string) bool {
	k := fieldKeyOf(t)
	return k != "" && sameOwner(k, key) && isBasic(types.Int32)(m.c.p.fieldType(k))
}

func sameOwner(a, b string) bool {
	return strings.Contains(a, ".") && strings.Contains(b, ".") && a[:strings.Index(a, ".")] == b[:strings.Index(b, ".")]
}

func (m *tgtModel) stored(x *Exec, st *State, ev *Event, key string) {
	c := m.c
	fn := fname(x.root)
	tg := m.class(st, ev.Val)
	bad := func(format string, a ...interface{}) {
		c.fail("field", key, instrPos(ev.Site), st.path(), format, a...)
	}
	c.count("brokers stored in fields", 1)
	switch tg.kind {
	case "nil":
	case "field":
		if tg.key != key {
			bad("%s: %s is set to the broker in %s", fn, key, tg.key)
		}
	case "ctx":
		m.use(m.fieldSet, key, "leader", fn)
	case "coordinator":
		if !strings.HasSuffix(fieldKeyOf(tg.a), ".GroupID") {
			bad("%s: %s is set to the coordinator of group %v", fn, key, tg.a)
		}
		m.use(m.fieldSet, key, "coordinator", fn)
	case "leader":
		// a constructor fills the fields from its parameters
		same := func(t *Term, want func(*Term, string) bool, typ func(types.Type) bool) bool {
			if want(t, key) {
				return true
			}
			for l, v := range st.mem {
				if l.Op == "fld" && sameOwner(l.Str, key) && v == t && t != nil && typ(m.c.p.fieldType(l.Str)) {
					return true
				}
			}
			return false
		}
		if !same(tg.a, m.topicField, isBasic(types.String)) || !same(tg.b, m.partField, isBasic(types.Int32)) {
			if !m.askCallers(tg.a, tg.b) {
				bad("%s: %s is set to the leader of %v/%v, which is not the partition it is used for", fn, key, tg.a, tg.b)
			}
		}
		m.use(m.fieldSet, key, "leader", fn)
	case "param":
		if !m.askCallers(ev.Val) {
			bad("%s: %s is set to a broker the caller chose", fn, key)
		}
	default:
		if fromFailed(ev.Val) {
			return // the error is reported
		}
		bad("%s: %s is set to %v, which is neither a leader nor a coordinator", fn, key, ev.Val)
	}
}

func (m *tgtModel) config() *Config {
	c := m.c
	reqParam := func(f *ssa.Function) int {
		if f == nil || f.Signature.Recv() == nil || !brokerRecv(f) {
			return -1
		}
		for i, p := range f.Params {
			t := p.Type()
			if isNamed(t, "Request") {
				return i
			}
			if q, ok := t.(*types.Pointer); ok {
				if n := typeShort(q.Elem()); requestClass[n] != "" && typeShort(recvType(f)) == "Broker" {
					return i
				}
			}
		}
		return -1
	}
	cfg := &Config{Merge: true, JoinPaths: true, PartPtr: true, MaxState: 150000}
	cfg.PartVal = func(st *State, v ssa.Value, t *Term) string {
		switch {
		case m.isBrokerPtr(v.Type()):
			tg := m.class(st, t)
			return tg.kind + tg.key + itoa(t.ID)
		case isNamed(v.Type(), "MetadataResponse") || isSliceOf(isPtrNamed("PartitionMetadataInfo"))(v.Type()) || isNamed(v.Type(), "TopicMetadata"):
			return origin(t)
		case isBasic(types.Int32)(v.Type()):
			if tg := m.id(st, t); tg.kind != "node" && tg.kind != "param" {
				return tg.kind + origin(t)
			}
			if callIn(t, "strconv.Atoi") != nil {
				return "number"
			}
		}
		return ""
	}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		if isCodec(g) || opaqueTgt[fname(g)] || reqParam(g) >= 0 && typeShort(recvType(g)) == "Broker" {
			return false
		}
		if rs := g.Signature.Results(); rs.Len() > 0 && ptrTo(rs.At(0).Type(), modPath, "OffsetsRequest") {
			return false
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if t := g.Signature.Results().At(i).Type(); ptrTo(t, modPath, "Brokers") || fname(g) == "NewBroker" {
				return false
			}
		}
		return c.p.front(g) || m.sends(g) || m.getsBroker(g) || m.simple(g)
	}
	cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		if fn == nil || !c.p.inModule(fn) {
			return nil, false
		}
		as := args
		switch {
		case name == "Brokers.GetBroker" || name == "Brokers.NewBroker":
			as = args[:2]
		case name == "Brokers.FindCoordinator":
		case name == "Brokers.RequestMetaData":
			tp := tNil
			for i, p := range fn.Params {
				if isSliceOf(isBasic(types.String))(p.Type()) {
					if e := (rd{st, args[i], p.Type(), nil}).only(); e.ok() {
						tp = e.t
					}
				}
			}
			as = []*Term{tp}
		case reqParam(fn) >= 0 && recvName(fn) == "Broker":
			as = nil
		default:
			return nil, false
		}
		rs := fn.Signature.Results()
		n := rs.Len()
		if n == 0 || !isErrT(rs.At(n-1).Type()) {
			return nil, false
		}
		var os []Outcome
		one := x.callTerm(st, site, name, as)
		for _, suffix := range []string{"", "!failed"} {
			t := one // the metadata that comes with an error is metadata, too
			if suffix != "" && name != "Brokers.RequestMetaData" {
				t = x.callTerm(st, site, name+suffix, as)
			}
			var vs []*Term
			var facts []Fact
			for i := 0; i < n-1; i++ {
				v := mkT(rs.At(i).Type(), "res", itoa(i), t)
				vs = append(vs, v)
				if nilable(rs.At(i).Type()) {
					facts = append(facts, Fact{mkEq(v, tNil), suffix != ""})
				}
			}
			if suffix == "" {
				vs = append(vs, tNil)
			} else {
				e := mkT(errType, "res", itoa(n-1), t)
				facts = append(facts, Fact{mkEq(e, tNil), false})
				vs = append(vs, e)
			}
			os = append(os, Outcome{Res: mk("tuple", "", vs...), Facts: facts, Tag: name + suffix})
		}
		return os, true
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case "branch":
			ev.Val.any(func(u *Term) bool {
				if u.Op == "eq" {
					for i := 0; i < 2; i++ {
						if s, ok := u.Args[i].strVal(); ok && s == "broker" {
							if v, ok := st.evalBool(u); ok {
								st.set("resbroker", tBool(v))
							}
						}
					}
				}
				return false
			})
		case "call":
			if i := reqParam(ev.Fn); i >= 0 && i < len(ev.Args) {
				if typeShort(recvType(ev.Fn)) == "Brokers" {
					return // inlined
				}
				m.send(x, st, ev, ev.Args[0], ev.Args[i])
				return
			}
			if m.onSend != nil {
				return
			}
			if ev.Name == "context.WithValue" && len(ev.Args) == 3 {
				v := ev.Args[2]
				for v.Op == "iface" {
					v = v.Args[0]
				}
				if m.isBrokerPtr(v.Typ) {
					tg := m.class(st, v)
					c.count("leaders handed over", 1)
					if tg.kind != "leader" || tg.b == nil {
						c.fail("leader", fname(x.root), instrPos(ev.Site), st.path(), "%s hands the broker %v to a partition producer, which is not the leader of a known partition", fname(x.root), v)
						return
					}
					st.set("handed", mk("pair", "", orNil(tg.a), tg.b, tStr(tg.key)))
				}
			}
			if ev.Name == "NewSimpleProducer" && ev.Fn != nil && callIn(ev.Args[0], "context.WithValue") != nil && st.get("handed") != nil {
				h := st.get("handed")
				var topic, part *Term
				for i, p := range ev.Fn.Params {
					switch {
					case isBasic(types.String)(p.Type()):
						topic = ev.Args[i]
					case isBasic(types.Int32)(p.Type()):
						part = ev.Args[i]
					}
				}
				key, _ := h.Args[2].strVal()
				if part != h.Args[1] || !(sameT(topic, h.Args[0]) || key != "" && m.topicField(topic, key)) {
					c.fail("leader", fname(x.root), instrPos(ev.Site), st.path(), "%s: the producer for %v/%v is given the leader of %v/%v", fname(x.root), topic, part, h.Args[0], h.Args[1])
				}
			}
		case "store":
			l := ev.Loc
			if l == nil || l.Op != "fld" || m.onSend != nil {
				return
			}
			ft := c.p.fieldType(l.Str)
			if m.isBrokerPtr(ft) {
				m.stored(x, st, ev, l.Str)
			}
			if ft != nil && isNamed(ft, "TopicMetadata") && !freshObj(l) {
				k := callIn(ev.Val, "Brokers.RequestMetaData")
				if k == nil || !m.topicField(k.Args[0], l.Str) {
					c.fail("leader", l.Str, instrPos(ev.Site), st.path(), "%s: %s is set to %v, which is not the metadata of its topic", fname(x.root), l.Str, ev.Val)
				}
				c.count("topic metadata stored", 1)
			}
		case "mapupdate":
			if m.onSend == nil {
				m.mapUpdate(x, st, ev)
			}
		}
	}
	return cfg
}

// origin: the call the value comes from.
func origin(t *Term) string {
	r := ""
	t.any(func(u *Term) bool {
		if u.Op == "call" {
			r = u.Str
			return true
		}
		return false
	})
	return r
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return typeShort(recvType(f))
}

func (m *tgtModel) mapUpdate(x *Exec, st *State, ev *Event) {
	c := m.c
	up := ev.Site.(*ssa.MapUpdate)
	mt, _ := up.Map.Type().Underlying().(*types.Map)
	if mt == nil {
		return
	}
	key := ev.Args[0]
	fn := fname(x.root)
	switch {
	case m.isBrokerPtr(mt.Elem()):
		tg := m.class(st, ev.Val)
		c.count("brokers stored in maps", 1)
		if isBasic(types.String)(mt.Key()) {
			if tg.kind != "coordinator" || tg.a != key {
				c.fail("map", fn, instrPos(ev.Site), st.path(), "%s: the broker %v is remembered for %v although it is not its coordinator", fn, ev.Val, key)
			}
			return
		}
		want := m.id(st, key)
		if tg.kind == "?" || tg.kind != want.kind || tg.a != want.a || tg.el != want.el {
			c.fail("map", fn, instrPos(ev.Site), st.path(), "%s: the broker %v is remembered for node %v although it is another one", fn, ev.Val, key)
		}
	case isBasic(types.Int32)(mt.Key()) && isSliceOf(isBasic(types.Int32))(mt.Elem()) && m.leaderMap(x.root):
		// leader -> partitions
		c.count("partitions grouped by leader", 1)
		tg := m.id(st, key)
		ok := tg.kind == "leader"
		if ok {
			// append(m[k], el.PartitionID)
			v := ev.Val
			ok = false
			if v.Op == "app" && v.Str == "append" && len(v.Args) == 2 {
				if e := (rd{st, v.Args[1], mt.Elem(), nil}).only(); e.ok() {
					v = e.t
				}
			} else if e := (rd{st, v, mt.Elem(), nil}).only(); e.ok() {
				v = e.t
			}
			l := fieldLoc(v)
			ok = l != nil && l.Op == "fld" && l.Str == "PartitionMetadataInfo.PartitionID" && l.Args[0] == tg.el
		}
		if !ok {
			c.fail("leader", fn, instrPos(ev.Site), st.path(), "%s: the partitions %v are grouped under %v, which is not their leader", fn, ev.Val, key)
		}
	}
}

func (m *tgtModel) leaderMap(f *ssa.Function) bool {
	return m.sends(f) && !m.c.p.front(f) && m.c.p.mentions(f, "OffsetsRequest") || m.c.p.mentions(f, "OffsetsResponse") && !m.c.p.front(f)
}

var sendsMemo map[*ssa.Function]bool
var getsMemo map[*ssa.Function]bool

// sends: the function sends requests (itself or through what it calls).
func (m *tgtModel) sends(f *ssa.Function) bool {
	if sendsMemo == nil {
		sendsMemo = m.c.p.reaches(func(g *ssa.Function) bool {
			return m.c.p.callsName(g, "Broker.RequestAndGet") && !m.c.p.front(g) || fname(g) == "Broker.requestFetchStreamingly"
		}, false)
	}
	return sendsMemo[f]
}

func (m *tgtModel) getsBroker(f *ssa.Function) bool {
	if getsMemo == nil {
		getsMemo = m.c.p.reaches(func(g *ssa.Function) bool {
			return m.c.p.callsName(g, "Brokers.GetBroker") || m.c.p.callsName(g, "Brokers.NewBroker") || m.c.p.callsName(g, "Brokers.FindCoordinator")
		}, false)
	}
	return getsMemo[f]
}

// simple: a small function that only computes (such as a getter or a constructor of a request).
func (m *tgtModel) simple(f *ssa.Function) bool {
	return len(f.Blocks) > 0 && f.Pkg == m.c.p.core && !isCodec(f)
}

func ruleC33(c *Ctx) {
	p := c.p
	c.rule("controller", "topic, partition, ACL and reassignment requests go to the broker whose id is the controller id of the metadata")
	c.rule("coordinator", "group requests go to the broker found by FindCoordinator for the very group of the request")
	c.rule("leader", "offset, fetch and produce requests go to the leader, in the metadata of the topic, of the very partition of the request")
	c.rule("each", "per-broker queries go to the brokers that are iterated over")
	c.rule("resource", "the configuration of a broker is asked from that broker, any other from the controller")
	c.rule("field", "fields and maps that keep brokers are only given the broker they are used as")
	c.rule("broker", "GetBroker and NewBroker give the broker of the requested node; the broker list and controller id are those of a metadata response")
	sendsMemo, getsMemo = nil, nil
	m := &tgtModel{c: c, need: map[*ssa.Function]bool{}, fieldUse: map[string]map[string]string{}, fieldSet: map[string]map[string]string{}}
	m.ctrl = c.fieldOf("Brokers", isBasic(types.Int32))
	var work []*ssa.Function
	done := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if isCodec(f) || brokerRecv(f) && recvName(f) == "Broker" || f.Synthetic != "" {
			continue
		}
		if n := fname(f); n == "Brokers.GetBroker" || n == "Brokers.NewBroker" || strings.HasPrefix(n, "newBrokers") || strings.HasPrefix(n, "NewBrokers") || n == "Brokers.refreshMetadata" || n == "Brokers.Request" {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					g := i.Common().StaticCallee()
					if g != nil && brokerRecv(g) && recvName(g) == "Broker" && m.sends(g) || g != nil && (fname(g) == "Broker.RequestAndGet" || fname(g) == "Brokers.Request") || g != nil && fname(g) == "context.WithValue" {
						direct = true
					}
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && (m.isBrokerPtr(i.Val.Type()) || isNamed(i.Val.Type(), "TopicMetadata")) {
						_ = fa
						direct = true
					}
				case *ssa.MapUpdate:
					if m.isBrokerPtr(i.Value.Type()) {
						direct = true
					}
				}
			}
		}
		if direct {
			work = append(work, f)
		}
	}
	sort.Slice(work, func(i, j int) bool { return fname(work[i]) < fname(work[j]) })
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		m.cur = f
		x := c.exec(f, m.config())
		_ = x
		c.count("functions analysed", 1)
		if m.need[f] {
			for _, g := range p.callersOf()[f] {
				work = append(work, g)
			}
			if f.Parent() != nil {
				work = append(work, f.Parent())
			}
		}
	}
	for key, us := range m.fieldUse {
		for cls, at := range us {
			set := m.fieldSet[key]
			if set[cls] == "" {
				c.fail("field", key, 0, nil, "%s sends requests for the %s to the broker in %s, which is never set to it", at, cls, key)
			}
			for k, w := range set {
				if k != cls {
					c.fail("field", key, 0, nil, "%s sends requests for the %s to the broker in %s, which %s sets to the %s", at, cls, key, w, k)
				}
			}
		}
	}
	ruleBrokerList(c)
	c.floor("requests", 20)
	c.floor("brokers stored in fields", 3)
}
