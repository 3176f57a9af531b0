package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "lockset dataflow over SSA with bottom-up discharge of functions, plus typestate of the fetch stream", ruleC01)
}

type vio struct {
	construct string
	pos       token.Pos
	path      []string
	msg       string
}

// exchange is the result of the exchange-lock analysis, shared by the connection rules.
type exchange struct {
	m     *connModel
	lock  string
	reach map[*ssa.Function]bool
	needs map[*ssa.Function]bool // use the connection relying on their caller for the lock
	roots []*ssa.Function        // use the connection and are self-sufficient
}

// lockScan analyses the functions bottom-up for one candidate lock.
func lockScan(c *Ctx, m *connModel, lock string, order []*ssa.Function, reach map[*ssa.Function]bool, sites map[string]bool,
	stop func(*ssa.Function) bool) (map[*ssa.Function]bool, []*ssa.Function, map[string]vio) {
	callers := c.p.callersOf()
	spawned := c.p.spawnedFuncs()
	needs := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	entries := map[string]vio{}
	for _, f := range order {
		if isCodec(f) || stop != nil && stop(f) {
			continue
		}
		need := m.touchesConn(f)
		for _, g := range c.p.callees(f, false) {
			need = need || needs[g]
		}
		if !need {
			continue
		}
		bad := false
		used := false
		cfg := &Config{Merge: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return needs[g] || g.Parent() != nil && reach[g]
		}
		var vs []vio
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			trackLocks(st, ev)
			o, what := m.ioEvent(st, ev)
			if o == nil {
				return
			}
			used = true
			sites[c.p.pos(instrPos(ev.Site))+" "+what] = true
			if freshObj(o) {
				return
			}
			for _, l := range heldLocks(st) {
				if l.Op == "fld" && l.Str == lock && l.Args[0] == o {
					return
				}
			}
			bad = true
			vs = append(vs, vio{fname(ev.Site.Parent()) + "/" + what, instrPos(ev.Site), st.path(),
				"connection of " + o.String() + " is used (" + what + ") without holding " + lock + " when entered through " + fname(f)})
			st.dead = true
		}
		c.exec(f, cfg)
		if bad {
			if isEntry(c.p, f, callers, spawned) {
				for _, v := range vs {
					entries[fname(f)+"->"+v.construct] = v
				}
			} else {
				needs[f] = true
			}
		} else if used {
			roots = append(roots, f)
		}
	}
	return needs, roots, entries
}

// newExchange picks the lock that protects the connection and analyses the whole module with it.
func newExchange(c *Ctx, report bool) *exchange {
	m := newConnModel(c)
	if m == nil {
		return nil
	}
	reach := c.p.reaches(func(f *ssa.Function) bool { return m.touchesConn(f) }, false)
	order := c.p.bottomUp(reach)
	// the lock is the one under which most of the functions next to the connection are self-sufficient
	near := func(f *ssa.Function) bool {
		for g := f; g != nil; g = g.Parent() {
			if r := g.Signature.Recv(); r != nil {
				return typeShort(r.Type()) != "Broker" && !m.touchesConn(g)
			}
		}
		return true
	}
	best := -1
	ex := &exchange{m: m, reach: reach}
	for _, l := range m.locks {
		sub := &Ctx{p: c.p, prop: c.prop, tier: c.tier, findings: map[string]Finding{}, counts: map[string]int{}, rules: map[string]string{}, funcs: map[string]bool{}}
		_, _, ent := lockScan(sub, m, l, order, reach, map[string]bool{}, near)
		if best < 0 || len(ent) < best {
			best, ex.lock = len(ent), l
		}
	}
	if ex.lock == "" {
		c.fail("anchor", "Broker lock", token.NoPos, nil, "Broker has no lock")
		return nil
	}
	sites := map[string]bool{}
	needs, roots, entries := lockScan(c, m, ex.lock, order, reach, sites, nil)
	ex.needs, ex.roots = needs, roots
	if report {
		c.count("connection I/O sites", len(sites))
		c.count("functions reaching the connection", len(order))
		c.floor("connection I/O sites", 4)
		for _, s := range sortedKeys(sites) {
			c.sample("I/O site " + s)
		}
		c.sample("exchange lock: " + ex.lock)
		for _, k := range sortedKeys(entries) {
			v := entries[k]
			c.fail("exchange-lock", k, v.pos, v.path, "%s", v.msg)
		}
	}
	return ex
}

func ruleC01(c *Ctx) {
	c.rule("exchange-lock", "every read/write/deadline call on, and every hand-out of, a broker's connection happens while one and the same lock of that broker object is held (objects not yet shared excepted)")
	ex := newExchange(c, true)
	if ex == nil {
		return
	}
	ruleStreamDrain(c, ex)
}

// ---------------------------------------------------------------- streamed fetch responses

// isMsgChan: channels of *FullMessage
func isMsgChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	return typeShort(ch.Elem()) == "FullMessage"
}

// streamField: the io.Reader field of the stream decoder.
func streamField(c *Ctx) string {
	fs := c.p.fieldsByType("fetchResponseStreamDecoder", func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Interface)
		return ok && types.TypeString(t, nil) == "io.Reader"
	})
	if len(fs) != 1 {
		c.fail("anchor", "fetchResponseStreamDecoder reader", token.NoPos, nil, "the stream decoder must have exactly one io.Reader field, found %v", fs)
		return ""
	}
	return "fetchResponseStreamDecoder." + fs[0]
}

// drainCall: does this call consume the rest of the stream read from field key?
func drainCall(ev *Event, key string) bool {
	if ev.Kind != "call" {
		return false
	}
	isStream := func(t *Term) bool {
		for t.Op == "iface" {
			t = t.Args[0]
		}
		if l := fieldLoc(t); l != nil && l.Op == "fld" && l.Str == key {
			return true
		}
		if t.Op == "fsel" && t.Str == key {
			return true
		}
		return t.Typ != nil && typeShort(t.Typ) == "fetchResponseStreamDecoder"
	}
	switch ev.Name {
	case "io.Copy", "io.CopyBuffer":
		return len(ev.Args) >= 2 && isStream(ev.Args[1])
	case "io.ReadAll", "ioutil.ReadAll", "io/ioutil.ReadAll":
		return len(ev.Args) >= 1 && isStream(ev.Args[0])
	}
	return false
}

// drains: functions that syntactically drain the stream.
func drainsStream(f *ssa.Function, key string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && pkgOf(g) == "io" && (g.Name() == "Copy" || g.Name() == "ReadAll" || g.Name() == "CopyBuffer") {
					for _, a := range c.Call.Args {
						if valueFromField(a, key, 0) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// valueFromField: v is (a conversion of) a load of the field.
func valueFromField(v ssa.Value, key string, d int) bool {
	if d > 6 {
		return false
	}
	switch i := v.(type) {
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
			return fieldKey(fa) == key
		}
	case *ssa.Field:
		return typeShort(i.X.Type())+"."+fieldName(i.X.Type(), i.Field) == key
	case *ssa.MakeInterface:
		if typeShort(i.X.Type())+"." == strings.SplitAfter(key, ".")[0] {
			return true
		}
		return valueFromField(i.X, key, d+1)
	case *ssa.ChangeInterface:
		return valueFromField(i.X, key, d+1)
	case *ssa.ChangeType:
		return valueFromField(i.X, key, d+1)
	}
	return false
}

func ruleStreamDrain(c *Ctx, ex *exchange) {
	c.rule("stream-drained", "in the goroutine that decodes a streamed fetch response, an error message is sent, and the message channel closed, only after the rest of the stream was read to its end without error, or (close only) after the broker was closed")
	c.rule("stream-handover", "the consumer of a streamed response ends only when stopped, when the channel is closed or on an error message, and the loop fetches again only after it waited for that consumer")
	key := streamField(c)
	if key == "" {
		return
	}
	decT := "fetchResponseStreamDecoder"
	// the pump: a spawned function whose tree closes a message channel and decodes
	usesDec := func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return r != nil && typeShort(r.Type()) == decT
	}
	reachDec := c.p.reaches(usesDec, false)
	reachDrain := c.p.reaches(func(f *ssa.Function) bool { return drainsStream(f, key) && usesDec(f) || drainsStream(f, key) }, false)
	sendsErr := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "FullMessage.Error" {
						return true
					}
				}
			}
		}
		return false
	}
	reachErr := c.p.reaches(sendsErr, false)
	closes := c.p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := k.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && isMsgChan(k.Common().Args[0].Type()) {
						return true
					}
				}
			}
		}
		return false
	}, false)
	reachClose := c.p.reaches(func(f *ssa.Function) bool { return ex.m.touchesConn(f) && closesConn(f) }, false)
	pumps := 0
	for _, f := range c.p.funcs {
		if !c.p.spawnedFuncs()[f] || !reachDec[f] {
			continue
		}
		pumps++
		nClose := 0
		cfg := &Config{Merge: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return g.Parent() != nil || reachDrain[g] && usesDec(g) && (g.Name() != "" && drainsOnly(c.p, g, key, reachErr)) || reachErr[g] && reachDec[g] || closes[g]
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if drainCall(&Event{Kind: "call", Name: name, Args: args}, key) {
				t := x.callTerm(st, site, name, args)
				n := mkT(nil, "res", "0", t)
				e := mkT(errType, "res", "1", t)
				return []Outcome{
					{Res: mk("tuple", "", n, tNil), Set: map[string]*Term{"drained": tTrue}, Tag: "rest of the stream drained"},
					{Res: mk("tuple", "", n, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: "draining failed"},
				}, true
			}
			if fn != nil && reachClose[fn] && typeShort(recvType(fn)) == "Broker" && closesConn(fn) {
				return []Outcome{{Res: mk("tuple", ""), Set: map[string]*Term{"closed": tTrue}, Tag: "broker closed"}}, true
			}
			return nil, false
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			var ch, v *Term
			switch ev.Kind {
			case "send":
				ch, v = ev.Loc, ev.Val
			case "select":
				if ev.Name == "send" {
					ch, v = ev.Loc, ev.Val
				}
			case "close":
				if ev.Loc.Typ == nil || isMsgChan(ev.Loc.Typ) {
					nClose++
					if !st.flag("drained") && !st.flag("closed") {
						c.fail("stream-drained", fname(ev.Site.Parent())+"/close", instrPos(ev.Site), st.path(), "the message channel is closed although the response may be only partly read and the connection was not closed")
					}
				}
				return
			}
			if ch == nil || v == nil {
				return
			}
			e := st.load(mkFld(v, errType, "FullMessage.Error"), errType)
			if n, k := st.nilness(e); k && n {
				return
			}
			if v.Op != "alloc" && !(v.Op == "old") {
				return
			}
			c.count("error hand-overs", 1)
			if !st.flag("drained") {
				c.fail("stream-drained", fname(ev.Site.Parent())+"/send", instrPos(ev.Site), st.path(), "an error is handed to the consumer before the rest of the response was read from the connection")
			}
		}
		c.exec(f, cfg)
		if nClose == 0 {
			c.fail("stream-drained", fname(f)+"/no-close", f.Pos(), nil, "the goroutine decoding a fetch response never closes the message channel")
		}
	}
	c.count("decoding goroutines", pumps)
	c.floor("decoding goroutines", 1)
	ruleHandover(c, ex, reachDec)
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// closesConn: f calls Close on a net.Conn.
func closesConn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(ssa.CallInstruction); ok && k.Common().IsInvoke() && k.Common().Method.Name() == "Close" && typeIs(k.Common().Value.Type(), "net.Conn") {
				return true
			}
		}
	}
	return false
}

// drainsOnly: a helper that drains (small, no decoding).
func drainsOnly(p *Prog, g *ssa.Function, key string, reachErr map[*ssa.Function]bool) bool {
	return drainsStream(g, key) || reachErr[g]
}

// ruleHandover: the consumer side.
func ruleHandover(c *Ctx, ex *exchange, reachDec map[*ssa.Function]bool) {
	// consumer functions: receive from a message channel and forward to another
	n := 0
	for _, f := range c.p.funcs {
		if !receivesMsg(f) || !sendsMsg(f) || reachDec[f] {
			continue
		}
		if r := recvType(f); typeShort(r) != "SimpleConsumer" && (f.Parent() == nil || typeShort(recvType(f.Parent())) != "SimpleConsumer") {
			continue
		}
		n++
		cfg := &Config{Merge: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return receivesMsg(g) || g.Parent() != nil }
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case "recv", "select":
				if ev.Kind == "select" && ev.Name != "recv" {
					if ev.Name == "send" {
						st.set("got", nil)
					}
					return
				}
				if ev.Loc != nil && isDoneChan(ev.Loc) {
					st.setFlag("done", true)
				} else if ev.Loc != nil && (ev.Loc.Typ == nil || isMsgChan(ev.Loc.Typ)) {
					st.set("got", ev.Res)
				}
			case "send":
				st.set("got", nil)
			case "return":
				if st.flag("done") || st.get("closedch") != nil {
					return
				}
				g := st.get("got")
				okc := false
				for t, v := range st.facts {
					if !v && (strings.HasPrefix(t.Str, "selok@") || t.Op == "res" && t.Str == "1" && strings.HasPrefix(t.Args[0].Str, "recv@")) {
						okc = true
					}
				}
				if okc {
					return
				}
				if g != nil {
					m := g
					e := st.load(mkFld(m, errType, "FullMessage.Error"), errType)
					if nl, k := st.nilness(e); k && !nl {
						return
					}
				}
				c.fail("stream-handover", fname(f)+"/return", instrPos(ev.Site), st.path(), "the consumer of a streamed response can end although the response may not be finished (not stopped, channel not closed, no error message)")
			case "branch":
				// remember that the channel was seen closed even if the fact dies
				t := ev.Val
				neg := ev.Idx == 0
				for t.Op == "not" {
					t = t.Args[0]
					neg = !neg
				}
				if neg && (strings.HasPrefix(t.Str, "selok@") || t.Op == "res" && t.Str == "1" && strings.HasPrefix(t.Args[0].Str, "recv@")) {
					st.setFlag("closedch", true)
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("stream consumers", n)
	c.floor("stream consumers", 1)
	// the fetch loop
	fetches := func(f *ssa.Function) bool {
		// returns an io.Reader made of the connection
		r := f.Signature.Results()
		return typeShort(recvType(f)) == "Broker" && r.Len() > 0 && types.TypeString(r.At(0).Type(), nil) == "io.Reader" && ex.reach[f] && !ex.needs[f]
	}
	loops := 0
	for _, f := range c.p.funcs {
		calls := false
		for _, g := range c.p.callees(f, false) {
			calls = calls || fetches(g)
		}
		if !calls || fetches(f) {
			continue
		}
		loops++
		cfg := &Config{Merge: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return g.Parent() != nil }
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Fn != nil && fetches(ev.Fn) {
					if st.flag("pending") {
						c.fail("stream-handover", fname(f)+"/refetch", instrPos(ev.Site), st.path(), "the next fetch request can be sent while the previous streamed response is still being read")
					}
				}
				if ev.Name == "sync.WaitGroup.Wait" {
					st.setFlag("pending", false)
				}
				if ev.Fn != nil && receivesMsg(ev.Fn) && sendsMsg(ev.Fn) {
					st.setFlag("pending", false)
				}
			case "result":
			case "recv":
				st.setFlag("pending", false)
			case "go":
				if ev.Fn != nil && reachDec[ev.Fn] {
					st.setFlag("pending", true)
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("fetch loops", loops)
	c.floor("fetch loops", 1)
}

func isDoneChan(t *Term) bool {
	return t.any(func(u *Term) bool { return strings.Contains(u.Str, "Context.Done@") })
}

func receivesMsg(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.UnOp:
				if i.Op == token.ARROW && isMsgChan(i.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range i.States {
					if s.Dir == types.RecvOnly && isMsgChan(s.Chan.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func sendsMsg(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Send:
				if isMsgChan(i.Chan.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range i.States {
					if s.Dir == types.SendOnly && isMsgChan(s.Chan.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}
