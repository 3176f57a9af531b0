package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleBrokerList: the broker a node id stands for. Maps from node ids hold what a metadata response says of
// that node, GetBroker and NewBroker return the connection to the address of the requested node, and a
// connection is made to the address its broker was created for.
func ruleBrokerList(c *Ctx) {
	p := c.p
	ctrl := c.fieldOf("Brokers", isBasic(types.Int32))
	isInfoMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && ptrTo(m.Elem(), modPath, "BrokerInfo")
	}
	isConnMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isBasic(types.Int32)(m.Key()) && ptrTo(m.Elem(), modPath, "Broker")
	}
	// keyOf: the key under which a map from node ids (each of them is checked) has the value
	keyOf := func(t *Term, is func(types.Type) bool) *Term {
		if t.Op == "res" && t.Str == "0" {
			t = t.Args[0]
		}
		if t.Op == "call" && strings.HasPrefix(t.Str, "lookup@") && t.Args[0].Typ != nil && is(t.Args[0].Typ) {
			return t.Args[1]
		}
		return nil
	}
	// infoOf: the broker information the address is that of
	infoOf := func(t *Term) *Term {
		if t.Op == "app" && t.Str == "BrokerInfo.NetAddress" {
			return t.Args[0]
		}
		return nil
	}
	nodeOf := func(info, key *Term) bool {
		if l := fieldLoc(key); l != nil && l.Op == "fld" && l.Str == "BrokerInfo.NodeID" && l.Args[0] == info {
			return true
		}
		if info.Op == "res" && info.Str == "2" && key.Op == "res" && key.Str == "1" && info.Args[0] == key.Args[0] && strings.HasPrefix(key.Args[0].Str, "next@") {
			return true
		}
		k := keyOf(info, isInfoMap)
		return k != nil && k == key
	}
	// connTo: the broker is connected to the node
	connTo := func(st *State, b, key *Term) bool {
		if k := keyOf(b, isConnMap); k != nil {
			return k == key
		}
		if b.Op == "res" && b.Str == "0" && b.Args[0].Op == "call" && strings.HasPrefix(b.Args[0].Str, "NewBroker@") {
			k := b.Args[0]
			if info := infoOf(k.Args[0]); info != nil && nodeOf(info, key) {
				return true
			}
		}
		if b.Op == "res" && b.Str == "0" && b.Args[0].Op == "call" && (strings.HasPrefix(b.Args[0].Str, "Brokers.NewBroker@") || strings.HasPrefix(b.Args[0].Str, "Brokers.GetBroker@")) {
			return b.Args[0].Args[1] == key
		}
		for f, v := range st.facts {
			if !v || f.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				info := infoOf(f.Args[i])
				if info != nil && nodeOf(info, key) && f.Args[1-i].any(func(u *Term) bool { return u == b }) {
					return true
				}
			}
		}
		return false
	}
	roots := map[*ssa.Function]bool{}
	cfgFor := func(root *ssa.Function, gives bool, idx int) *Config {
		cfg := &Config{Merge: true, JoinPaths: true, PartPtr: true, MaxState: 60000}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			if isCodec(g) || g.Pkg != p.core || strings.HasPrefix(fname(g), "BrokerInfo.") {
				return false
			}
			return !roots[g] && (recvName(g) != "Broker" || len(g.Blocks) == 1) && (recvName(g) == "Brokers" || root.Pkg == g.Pkg && len(g.Blocks) < 4)
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if fn == nil || fn.Pkg != p.core {
				return nil, false
			}
			rs := fn.Signature.Results()
			if name == "BrokerInfo.NetAddress" {
				// the same address whenever it is asked for
				return []Outcome{{Res: mkT(rs.At(0).Type(), "app", name, args...)}}, true
			}
			if name != "NewBroker" && !strings.HasPrefix(name, "Broker.request") {
				return nil, false
			}
			k := x.callTerm(st, site, name, args)
			v := mkT(rs.At(0).Type(), "res", "0", k)
			e := mkT(errType, "res", "1", k)
			var ok, no []Fact
			if nilable(v.Typ) {
				ok = append(ok, Fact{mkEq(v, tNil), false})
				no = append(no, Fact{mkEq(v, tNil), true})
			}
			no = append(no, Fact{mkEq(e, tNil), false})
			return []Outcome{{Res: mk("tuple", "", v, tNil), Facts: ok, Tag: name}, {Res: mk("tuple", "", v, e), Facts: no, Tag: name + "!failed"}}, true
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			fn := fname(root)
			switch ev.Kind {
			case "mapupdate":
				up := ev.Site.(*ssa.MapUpdate)
				switch {
				case isInfoMap(up.Map.Type()):
					c.count("broker list entries", 1)
					if !nodeOf(ev.Val, ev.Args[0]) {
						c.fail("broker", fn, instrPos(ev.Site), st.path(), "%s: the information on broker %v is listed under the id %v", fn, ev.Val, ev.Args[0])
					}
					if k := metaBase(ev.Val, "MetadataResponse.Brokers"); k != nil {
						st.set("list", k)
					}
				case isConnMap(up.Map.Type()) && true:
					c.count("connections cached", 1)
					if !connTo(st, ev.Val, ev.Args[0]) {
						c.fail("broker", fn, instrPos(ev.Site), st.path(), "%s: %v is cached as the connection to node %v although it may lead to another one", fn, ev.Val, ev.Args[0])
					}
				}
			case "store":
				if l := ev.Loc; l != nil && l.Op == "fld" && l.Str == ctrl {
					c.count("controller ids stored", 1)
					k := metaBase(ev.Val, "MetadataResponse.ControllerID")
					if k == nil {
						c.fail("broker", fn, instrPos(ev.Site), st.path(), "%s: the controller id is set to %v, which is not that of a metadata response", fn, ev.Val)
						return
					}
					st.set("ctrl", k)
				}
			case "return":
				if st.depth() != 1 {
					return
				}
				if gives && idx >= 0 && errResult(root, ev.Res) == tNil {
					c.count("brokers given", 1)
					id := mkT(root.Params[idx].Type(), "param", root.Params[idx].Name())
					if ev.Res.Op != "tuple" || !connTo(st, ev.Res.Args[0], id) {
						c.fail("broker", fn+" given", instrPos(ev.Site), st.path(), "%s returns %v, which is not a connection to the requested node", fn, ev.Res)
					}
				}
				if l := st.get("list"); l != nil && l != st.get("ctrl") {
					c.fail("broker", fn+" controller", instrPos(ev.Site), st.path(), "%s: the broker list is taken from a metadata response, the controller is not", fn)
				}
			}
		}
		return cfg
	}
	gives := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		if recvName(f) != "Brokers" || rs.Len() != 2 || !ptrTo(rs.At(0).Type(), modPath, "Broker") {
			return false
		}
		for _, q := range f.Params {
			if isBasic(types.Int32)(q.Type()) {
				return true
			}
		}
		return false
	}
	for _, f := range p.funcs {
		if f.Pkg == p.core && !isCodec(f) && f.Synthetic == "" && (gives(f) || brokerFn(f, isInfoMap, isConnMap) || setsField(f, ctrl)) {
			roots[f] = true
		}
	}
	for _, f := range p.funcs {
		if !roots[f] {
			continue
		}
		var idx = -1
		for i, q := range f.Params {
			if isBasic(types.Int32)(q.Type()) {
				idx = i
			}
		}
		c.count("functions that keep the broker list", 1)
		c.exec(f, cfgFor(f, gives(f), idx))
	}
	ruleDialAddr(c)
	ruleNetAddress(c)
	c.floor("brokers given", 3)
	c.floor("broker list entries", 2)
	c.floor("controller ids stored", 1)
	c.floor("dials", 1)
}

// metaBase: the metadata response a field of which the term is derived from.
func metaBase(t *Term, field string) *Term {
	var r *Term
	t.any(func(u *Term) bool {
		if (u.Op == "fld" || u.Op == "fsel") && u.Str == field {
			r = u.Args[0]
			return true
		}
		return false
	})
	return r
}

// brokerFn: the function itself updates a map of brokers.
func brokerFn(f *ssa.Function, isMap ...func(types.Type) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok {
				for _, is := range isMap {
					if is(u.Map.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ruleDialAddr: a broker's connection goes to the address the broker was made for.
func ruleDialAddr(c *Ctx) {
	p := c.p
	addr := c.fieldOf("Broker", isBasic(types.String))
	isDial := func(g *ssa.Function) bool {
		if g == nil || g.Pkg == nil || p.inModule(g) {
			return false
		}
		pk := g.Pkg.Pkg.Path()
		return (pk == "net" || pk == "crypto/tls") && strings.HasPrefix(g.Name(), "Dial")
	}
	dials := p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok && isDial(k.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}, false)
	c.rule("dial", "a broker connects to the address it was created with")
	for _, f := range p.funcs {
		if !dials[f] || f.Pkg != p.core || recvName(f) != "Broker" && fname(f) != "NewBroker" {
			continue
		}
		f := f
		var want *Term
		if fname(f) == "NewBroker" {
			for _, q := range f.Params {
				if isBasic(types.String)(q.Type()) {
					want = mkT(q.Type(), "param", q.Name())
				}
			}
		}
		cfg := &Config{Merge: true, JoinPaths: true, MaxState: 60000}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return dials[g] && g.Pkg == p.core || recvName(g) == "Broker" && len(g.Blocks) == 1
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "call" || !isDial(ev.Fn) {
				return
			}
			c.count("dials", 1)
			ok := false
			for i, a := range ev.Args {
				sg := ev.Fn.Signature
				if sg.Recv() != nil {
					i--
				}
				if i < 0 || i >= sg.Params().Len() || !isBasic(types.String)(sg.Params().At(i).Type()) {
					continue
				}
				if s, is := a.strVal(); is && strings.HasPrefix(s, "tcp") {
					continue
				}
				l := fieldLoc(a)
				ok = want != nil && a == want || want == nil && l != nil && l.Op == "fld" && l.Str == addr && l.Args[0].Op == "param"
				if !ok {
					c.fail("dial", fname(f), instrPos(ev.Site), st.path(), "%s: a connection is made to %v, which is not the address of the broker", fname(f), a)
				}
			}
		}
		c.exec(f, cfg)
	}
}

// setsField: the function itself stores to the field.
func setsField(f *ssa.Function, key string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == key {
					return true
				}
			}
		}
	}
	return false
}

// ruleNetAddress: the address of a broker is made of its host and its port.
func ruleNetAddress(c *Ctx) {
	for _, f := range c.p.funcs {
		if fname(f) != "BrokerInfo.NetAddress" {
			continue
		}
		f := f
		cfg := &Config{Merge: true, JoinPaths: true, MaxState: 20000}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "return" || st.depth() != 1 {
				return
			}
			c.count("addresses made", 1)
			var ks []string
			var walk func(t *Term, d int)
			walk = func(t *Term, d int) {
				if l := fieldLoc(t); l != nil && l.Op == "fld" {
					if strings.HasPrefix(l.Str, "BrokerInfo.") {
						ks = append(ks, l.Str)
					}
					return
				}
				if d > 12 {
					return
				}
				if t.Op == "slice" {
					any := types.NewSlice(types.NewInterfaceType(nil, nil))
					if es, ok := (rd{st, t, any, nil}).elems(); ok {
						for _, e := range es {
							walk(e.t, d+1)
						}
						return
					}
				}
				for _, a := range t.Args {
					walk(a, d+1)
				}
			}
			walk(ev.Res, 0)
			if strings.Join(ks, " ") != "BrokerInfo.Host BrokerInfo.Port" {
				c.fail("dial", fname(f), instrPos(ev.Site), st.path(), "%s: the address is made of %v, not of host and port", fname(f), ks)
			}
		}
		c.exec(f, cfg)
	}
	c.floor("addresses made", 1)
}
