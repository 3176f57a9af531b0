package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "value provenance over the abstract heap: what each connection, request field and timer gets from the configuration, and the facts known about it when the first connection is made", ruleC34)
}

type cfgModel struct {
	c        *Ctx
	defaults map[string]*Term
}

func isCfgType(t types.Type) string {
	for _, n := range []string{"ConsumerConfig", "ProducerConfig"} {
		if isNamed(t, n) || ptrTo(t, modPath, n) {
			return n
		}
	}
	return ""
}

func ruleC34(c *Ctx) {
	m := &cfgModel{c: c, defaults: map[string]*Term{}}
	c.rule("conn", "the connections of a consumer or producer are made with its own bootstrap servers and, setting by setting, its own connection settings")
	c.rule("valid", "no connection is made before the configuration was found valid")
	c.rule("timeouts", "per-API timeouts of a consumer: a slice of its own, the request timeout for every API, more than the session timeout for joins, request timeout plus maximum wait for fetches")
	c.rule("fields", "client id, session timeout, fetch sizes and waits, acknowledgements and request timeout of a request are the settings named after them")
	c.rule("dial", "connections are made over TLS exactly when it is enabled, with the timeouts, certificate, authorities, server name and verification the settings say")
	c.rule("units", "timers run at the settings named after them, in milliseconds; heartbeats several times per session timeout")
	c.rule("sasl", "the handshake asks for the mechanism of the settings and the authentication carries their user and password")
	m.constructors()
	m.creators()
	m.fields()
	m.pass()
	m.dial()
	m.timers()
	m.sasl()
}

// creates: the functions that make a configuration from what the user passed.
func (m *cfgModel) creates(f *ssa.Function) string {
	rs := f.Signature.Results()
	if f.Pkg != m.c.p.core || rs.Len() != 2 || !isErrT(rs.At(1).Type()) {
		return ""
	}
	if _, ok := rs.At(0).Type().Underlying().(*types.Pointer); ok {
		return ""
	}
	return isCfgType(rs.At(0).Type())
}

// leaves lists the fields of a struct type, nested ones by path.
func leaves(t types.Type, prefix []string) [][]string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return [][]string{append([]string{}, prefix...)}
	}
	var r [][]string
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, leaves(s.Field(i).Type(), append(prefix, s.Field(i).Name()))...)
	}
	return r
}

func (r rd) path(p []string) rd {
	for _, n := range p {
		r = r.f(n)
	}
	return r
}

// required: what has to be known of a valid configuration, by type.
func (m *cfgModel) invalid(st *State, h rd, typ string, group bool) string {
	non := func(f string) bool {
		t := h.f(f).t
		if t == nil {
			return false
		}
		v, known := st.evalBool(mkEq(t, tStr("")))
		return known && !v
	}
	pos := func(f string) bool {
		t := h.f(f).t
		return t != nil && st.ival(t).lo > 0
	}
	oneOf := func(f string, vs ...*Term) bool {
		t := h.f(f).t
		if t == nil {
			return false
		}
		if d := m.defaultOf(t, f); d != nil {
			t = d
		}
		for _, v := range vs {
			if b, known := st.evalBool(mkEq(t, v)); known && b {
				return true
			}
		}
		if iv := st.ival(t); len(vs) > 0 {
			lo, ok1 := vs[0].intVal()
			hi, ok2 := vs[len(vs)-1].intVal()
			return ok1 && ok2 && iv.lo >= lo && iv.hi <= hi
		}
		return false
	}
	switch {
	case typ == "ProducerConfig":
		switch {
		case !non("BootstrapServers"):
			return "BootstrapServers may be empty"
		case !pos("MessageMaxCount"):
			return "MessageMaxCount may be 0 or less"
		case !pos("FlushIntervalMS"):
			return "FlushIntervalMS may be 0 or less"
		case !oneOf("CompressionType", tStr("none"), tStr("gzip"), tStr("snappy"), tStr("lz4")):
			return "CompressionType may be unknown"
		}
	default:
		switch {
		case !oneOf("OffsetsStorage", tInt(0), tInt(1)):
			return "OffsetsStorage may be other than 0 or 1"
		case group && !non("BootstrapServers"):
			return "BootstrapServers may be empty"
		case group && !non("GroupID"):
			return "GroupID may be empty"
		}
	}
	return ""
}

// defaultOf: the value a field of a package variable is initialised with (such variables are never assigned to).
func (m *cfgModel) defaultOf(t *Term, field string) *Term {
	l := fieldLoc(t)
	if l == nil || l.Op != "fld" || l.Args[0].Op != "global" {
		return nil
	}
	var maker *ssa.Function
	for _, f := range m.c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if g, ok := fa.X.(*ssa.Global); ok && g.Name() == l.Args[0].Str {
						return nil
					}
				}
				if g, ok := s.Addr.(*ssa.Global); ok && g.Name() == l.Args[0].Str {
					k, ok := s.Val.(*ssa.Call)
					if !ok || maker != nil || f.Name() != "init" {
						return nil
					}
					maker = k.Common().StaticCallee()
				}
			}
		}
	}
	if maker == nil {
		return nil
	}
	if d, ok := m.defaults[maker.Name()+field]; ok {
		return d
	}
	var r *Term
	n := 0
	m.c.exec(maker, &Config{Merge: true, JoinPaths: true, MaxState: 20000, Inline: func(x *Exec, st *State, g *ssa.Function) bool { return false },
		Event: func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "return" && st.depth() == 1 {
				r = (rd{st, ev.Res, maker.Signature.Results().At(0).Type(), nil}).f(field).t
				n++
			}
		}})
	if n != 1 {
		r = nil
	}
	m.defaults[maker.Name()+field] = r
	return r
}

func (m *cfgModel) isConstructor(f *ssa.Function) bool {
	if f.Pkg != m.c.p.core || f.Signature.Recv() != nil || f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 2 || !isErrT(rs.At(1).Type()) {
		return false
	}
	if _, ok := rs.At(0).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, q := range f.Params {
		if it, ok := q.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return true
		}
	}
	return false
}

func (m *cfgModel) constructors() {
	c := m.c
	p := c.p
	broker := p.typ("BrokerConfig")
	for _, f := range p.funcs {
		if !m.isConstructor(f) {
			continue
		}
		f := f
		c.count("constructors", 1)
		cfg := &Config{Merge: true, JoinPaths: true, PartPtr: true, MaxState: 60000}
		cfg.PartFacts = func(t *Term) bool { return t.Op == "eq" }
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			if g.Pkg != p.core || isCodec(g) {
				return false
			}
			n := fname(g)
			return !strings.HasPrefix(n, "NewBroker") && !strings.HasPrefix(n, "NewCompressor") && !m.isConstructor(g) && n != "NewSimpleConsumerWithBrokers" && !strings.HasPrefix(n, "Brokers.")
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if fn == nil || m.creates(fn) == "" {
				return nil, false
			}
			ct := fn.Signature.Results().At(0).Type()
			v := mkT(ct, "res", "0", x.callTerm(st, site, name, args))
			bad := mkT(ct, "res", "0", x.callTerm(st, site, name+"!failed", args))
			e := mkT(errType, "res", "1", bad.Args[0])
			// what the rule establishes for every configuration that was made
			return []Outcome{{Res: mk("tuple", "", v, tNil), Tag: name}, {Res: mk("tuple", "", bad, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: name + "!failed"}}, true
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "call" || ev.Fn == nil || ev.Fn.Pkg != p.core {
				return
			}
			if ev.Name != "NewBrokersWithConfig" {
				return
			}
			c.count("connections for a configuration", 1)
			bs, bc := ev.Args[0], ev.Args[1]
			h := m.made(st, bs)
			if !h.ok() || lastName(bs) != "BootstrapServers" {
				c.fail("conn", fname(f), instrPos(ev.Site), st.path(), "%s connects to %v, which are not the bootstrap servers of the configuration", fname(f), bs)
				return
			}
			typ := typeShort(h.typ)
			if strings.Contains(bs.String(), "!failed@") {
				c.fail("valid", fname(f), instrPos(ev.Site), st.path(), "%s makes a connection although the configuration could not be made", fname(f))
				return
			}
			b := rd{st, bc, ev.Fn.Params[1].Type(), nil}
			for _, l := range leaves(broker, nil) {
				src := h.path(l)
				if !src.ok() || l[0] == "MetadataRefreshIntervalMS" {
					continue // governs nothing
				}
				dst := b.path(l)
				if !dst.ok() {
					c.fail("conn", fname(f)+" "+strings.Join(l, "."), instrPos(ev.Site), st.path(), "%s: %s of the connection is unknown", fname(f), strings.Join(l, "."))
					continue
				}
				c.count("settings compared", 1)
				same := dst.t == src.t
				if _, sl := src.typ.Underlying().(*types.Slice); sl && !same {
					same = dst.t.any(func(u *Term) bool { return u == src.t })
				}
				if !same {
					c.fail("conn", fname(f)+" "+strings.Join(l, "."), instrPos(ev.Site), st.path(), "%s: %s of the connection is %v, not that of the configuration", fname(f), strings.Join(l, "."), dst.t)
				}
			}
			if group := strings.Contains(fname(f), "Group"); group {
				h2 := h
				if w := m.invalid(st, h2, typ, true); w != "" && !strings.HasPrefix(w, "OffsetsStorage") {
					c.fail("valid", fname(f), instrPos(ev.Site), st.path(), "%s makes a connection although %s", fname(f), w)
				}
			}
			st.dead = true
		}
		c.exec(f, cfg)
	}
	c.floor("constructors", 5)
	c.floor("connections for a configuration", 5)
}

func lastName(t *Term) string {
	k := fieldKeyOf(t)
	return k[strings.IndexByte(k, '.')+1:]
}

// made: the configuration a setting was read from.
func (m *cfgModel) made(st *State, t *Term) rd {
	if t.Op == "fsel" && isCfgType(t.Args[0].Typ) != "" {
		return rd{st, t.Args[0], t.Args[0].Typ, nil}
	}
	if l := fieldLoc(t); l != nil && l.Op == "fld" {
		if o := strings.IndexByte(l.Str, '.'); o > 0 {
			if ct := m.c.p.typ(l.Str[:o]); ct != nil && isCfgType(ct) != "" {
				return rd{st, l.Args[0], types.NewPointer(ct), nil}
			}
		}
	}
	return rd{}
}

func (m *cfgModel) creators() {
	c := m.c
	p := c.p
	for _, f := range p.funcs {
		typ := m.creates(f)
		if typ == "" {
			continue
		}
		f := f
		cfg := &Config{MaxState: 60000}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return g.Pkg == p.core && !isCodec(g) }
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "store" && typ == "ConsumerConfig" {
				m.timeoutStored(f, st, ev)
			}
			if ev.Kind == "return" && st.depth() == 1 && ev.Res != nil && ev.Res.Op == "tuple" && ev.Res.Args[1] == tNil {
				h := rd{st, ev.Res.Args[0], f.Signature.Results().At(0).Type(), nil}
				if typ == "ConsumerConfig" {
					m.timeouts(f, st, ev, h)
				}
				c.count("configurations made", 1)
				if w := m.invalid(st, h, typ, false); w != "" {
					c.fail("valid", fname(f), instrPos(ev.Site), st.path(), "%s returns a configuration without error although %s (%v)", fname(f), w, ev.Res.Args[0])
				}
			}
		}
		c.exec(f, cfg)
	}
	c.floor("configurations made", 2)
	c.floor("general timeouts", 2)
}

const apiFetch, apiJoin, apiCommit = 1, 11, 8

// timeoutStored follows the stores to the elements of a slice of timeouts.
func (m *cfgModel) timeoutStored(f *ssa.Function, st *State, ev *Event) {
	l := ev.Loc
	if l == nil || l.Op != "idx" || ev.Val.Typ == nil || l.Args[0].Op != "alloc" {
		return
	}
	i := l.Args[1]
	base := itoa(l.Args[0].ID)
	for _, api := range []int64{apiFetch, apiJoin} {
		v, known := st.evalBool(mkEq(i, tInt(api)))
		switch {
		case known && !v:
		case known:
			st.set("t"+itoa(int(api))+"@"+base, ev.Val)
		default:
			// some API, possibly this one
			st.set("t"+itoa(int(api))+"@"+base, ev.Val)
		}
	}
	if _, is := i.intVal(); !is {
		st.set("tall@"+base, ev.Val)
	}
}

// timeouts: what the per-API timeouts of a configuration that was made are.
func (m *cfgModel) timeouts(f *ssa.Function, st *State, ev *Event, h rd) {
	c := m.c
	c.count("per-API timeouts", 1)
	sl := h.f("Net").f("TimeoutMSForEachAPI").t
	bad := func(format string, a ...interface{}) {
		c.fail("timeouts", fname(f), instrPos(ev.Site), st.path(), fname(f)+": "+format, a...)
	}
	root := sl
	for root != nil && (root.Op == "app" && root.Str == "append" || root.Op == "slice" && root != sl || root.Op == "out" && len(root.Args) > 0) {
		root = root.Args[0]
	}
	if root != nil && root != sl && (root.Op == "alloc" || root == tNil) || sl != nil && sl.Op == "phi" {
		// built element by element: not followed
		c.count("general timeouts", 1)
		return
	}
	if sl == nil || sl.Op != "slice" || sl.Args[0].Op != "alloc" {
		bad("the per-API timeouts %v are not a slice made for this configuration: it may be shared with another one", sl)
		return
	}
	base := itoa(sl.Args[0].ID)
	general := h.f("Net").f("TimeoutMS").t
	session, wait := h.f("SessionTimeoutMS").t, h.f("FetchMaxWaitMS").t
	is := func(t *Term, want ...*Term) bool {
		// the sum of the terms
		if t == nil {
			return false
		}
		ts, k := lin(t)
		if len(ts) != len(want) {
			return false
		}
		for _, w := range want {
			ok := false
			for u, n := range ts {
				if u.Op == "out" && u.Str == "some" && u.Args[1].Op == "idx" && u.Args[1].Args[0] == sl.Args[0] {
					u = orNil(st.get("tall@" + base)) // what every element was set to
				}
				ok = ok || stripConv(u) == stripConv(w) && n == 1
			}
			if !ok {
				return false
			}
		}
		return len(want) > 1 && k >= 0 || k > 0 || want[0] == general && k == 0
	}
	if st.get("tall@"+base) == nil {
		// a state that leaves the loop over the APIs before its body: the
		// slice is not empty, so that does not happen
		return
	}
	if t := st.get("t" + itoa(apiJoin) + "@" + base); !is(t, session) {
		bad("the timeout of joins is %v, not more than the session timeout", t)
	}
	if t := st.get("t" + itoa(apiFetch) + "@" + base); !is(t, general, wait) {
		bad("the timeout of fetches is %v, not the request timeout plus the maximum wait", t)
	}
	if t := st.get("tall@" + base); t != nil {
		c.count("general timeouts", 1)
		if is(t, general) {
			return
		}
		bad("the timeout of other requests is %v, not the request timeout", t)
	}
}
