package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "typestate of broker connections over the inlined exchange paths (SSA dataflow with path facts)", ruleC02)
	register("C03", "typestate of connection set-up over the inlined dial/negotiate/authenticate paths", ruleC03)
	register("C04", "value provenance of correlation ids, versions and API keys along all exchange paths", ruleC04)
	register("C06", "must-analysis of read deadlines before connection reads, unit analysis of configured durations", ruleC06)
}

// ---------------------------------------------------------------- common modelling of exchanges

type connCfg struct {
	c     *Ctx
	ex    *exchange
	dial  map[*ssa.Function]bool
	nego  *ssa.Function
	parse *ssa.Function
	event func(x *Exec, st *State, ev *Event)
	after func(st *State, ok bool, name string, owner *Term) // after an I/O call
}

func isDialName(n string) bool {
	switch n {
	case "net.Dialer.Dial", "net.Dialer.DialContext", "net.Dial", "net.DialTimeout", "net.DialTCP", "crypto/tls.DialWithDialer", "crypto/tls.Dial", "crypto/tls.Dialer.Dial", "crypto/tls.Dialer.DialContext":
		return true
	}
	return false
}

func dials(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(ssa.CallInstruction); ok {
				if g := k.Common().StaticCallee(); g != nil && isDialName(funcName(g)) {
					return true
				}
			}
		}
	}
	return false
}

// negotiator: the Broker method uint16 -> uint16 that chooses a version.
func (c *Ctx) negotiator() *ssa.Function {
	var r *ssa.Function
	for _, f := range c.p.funcs {
		s := f.Signature
		if typeShort(recvType(f)) == "Broker" && s.Params().Len() == 1 && s.Results().Len() == 1 &&
			types.TypeString(s.Params().At(0).Type(), nil) == "uint16" && types.TypeString(s.Results().At(0).Type(), nil) == "uint16" {
			r = f
		}
	}
	if r == nil {
		c.fail("anchor", "version negotiation", token.NoPos, nil, "no Broker method of type func(uint16) uint16 was found")
	}
	return r
}

func newConnCfg(c *Ctx) *connCfg {
	ex := newExchange(c, false)
	if ex == nil {
		return nil
	}
	k := &connCfg{c: c, ex: ex, nego: c.negotiator(), parse: c.anchor("defaultReadParser.Parse")}
	k.dial = c.p.reaches(dials, false)
	if k.nego == nil || k.parse == nil {
		return nil
	}
	return k
}

// reqOf: the request a header pointer or request value belongs to.
func reqOf(t *Term) *Term {
	for {
		switch {
		case t.Op == "iface":
			t = t.Args[0]
		case t.Op == "out" && t.Str == "hv" && len(t.Args) == 2 && t.Args[1].Op == "fld" && strings.HasSuffix(t.Args[1].Str, ".RequestHeader"):
			t = t.Args[1].Args[0]
		case t.Op == "ld" && t.Args[0].Op == "fld" && strings.HasSuffix(t.Args[0].Str, ".RequestHeader"):
			t = t.Args[0].Args[0]
		case t.Op == "fld" && strings.HasSuffix(t.Str, ".RequestHeader"):
			t = t.Args[0]
		case t.Op == "fsel" && strings.HasSuffix(t.Str, ".RequestHeader"):
			t = t.Args[0]
		default:
			return t
		}
	}
}

// encodeCall: a call of some request's Encode(version).
func encodeCall(ev *Event) (req, version *Term, kind string, ok bool) {
	if ev.Kind != "call" || !strings.HasSuffix(ev.Name, ".Encode") || len(ev.Args) != 2 {
		return
	}
	if ev.Fn == nil && !strings.HasPrefix(ev.Name, "Request.") {
		return
	}
	if ev.Fn != nil {
		if ev.Fn.Signature.Params().Len() != 1 || types.TypeString(ev.Fn.Signature.Params().At(0).Type(), nil) != "uint16" {
			return
		}
		kind = typeShort(recvType(ev.Fn))
	} else {
		kind = "?"
	}
	return reqOf(ev.Args[0]), ev.Args[1], kind, true
}

func apiTerm(r *Term) *Term { return mkT(types.Typ[types.Uint16], "app", "API", r) }

func (k *connCfg) config(merge bool) *Config {
	c, ex := k.c, k.ex
	cfg := &Config{Merge: merge}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		if isCodec(g) || g == k.nego || g == k.parse {
			return false
		}
		return ex.reach[g] || k.dial[g] || g.Parent() != nil
	}
	_ = c
	cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		sig := site.Common().Signature()
		if fn != nil && fn == k.nego {
			return []Outcome{{Res: mkT(types.Typ[types.Uint16], "app", "negotiate", args...)}}, true
		}
		if strings.HasSuffix(name, ".API") && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			return []Outcome{{Res: apiTerm(reqOf(args[0]))}}, true
		}
		if strings.HasSuffix(name, ".Error") && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), errType) {
			a := args[0]
			for a.Op == "iface" {
				a = a.Args[0]
			}
			for a.Op == "app" && strings.HasPrefix(a.Str, "assert:") {
				a = a.Args[0]
			}
			e := mkT(errType, "app", "resperr", a)
			return []Outcome{{Res: tNil, Facts: []Fact{{mkEq(e, tNil), true}}}, {Res: e, Facts: []Fact{{mkEq(e, tNil), false}}}}, true
		}
		if fn == k.parse {
			t := x.callTerm(st, site, name, args)
			r := mkT(sig.Results().At(0).Type(), "res", "0", t)
			e := mkT(errType, "res", "1", t)
			return []Outcome{
				{Res: mk("tuple", "", r, tNil), Facts: []Fact{{mkEq(r, tNil), false}}, Set: map[string]*Term{"resp": r}, Tag: "response decoded"},
				{Res: mk("tuple", "", tNil, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: "decoding failed"},
			}, true
		}
		if isDialName(name) {
			t := x.callTerm(st, site, name, args)
			r := mkT(sig.Results().At(0).Type(), "res", "0", t)
			e := mkT(errType, "res", "1", t)
			return []Outcome{
				{Res: mk("tuple", "", r, tNil), Facts: []Fact{{mkEq(r, tNil), false}}, Tag: "dialled"},
				{Res: mk("tuple", "", tNil, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: "dialling failed"},
			}, true
		}
		ev := &Event{Kind: "call", Name: name, Fn: fn, Args: args, Site: site}
		o, _ := ex.m.ioEvent(st, ev)
		n := sig.Results().Len()
		if o != nil && n > 0 && types.Identical(sig.Results().At(n-1).Type(), errType) && isIO(name) {
			t := x.callTerm(st, site, name, args)
			for i, a := range args {
				b := a
				for b.Op == "slice" {
					b = b.Args[0]
				}
				if b.Op == "alloc" && !strings.HasPrefix(b.Str, "map@") {
					st.mem[mk("fld", "#content", b)] = mkT(nil, "out", itoa(i), t)
				}
			}
			full := resTerm(t, sig)
			good, bad := tNil, mkT(errType, "res", itoa(n-1), t)
			mkRes := func(e *Term) *Term {
				if n == 1 {
					return e
				}
				as := append([]*Term(nil), full.Args...)
				as[n-1] = e
				return mk("tuple", "", as...)
			}
			return []Outcome{
				{Res: mkRes(good), Tag: name + " succeeded"},
				{Res: mkRes(bad), Facts: []Fact{{mkEq(bad, tNil), false}}, Set: map[string]*Term{"bad": o}, Tag: name + " failed"},
			}, true
		}
		return nil, false
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		trackLocks(st, ev)
		if k.event != nil {
			k.event(x, st, ev)
		}
	}
	return cfg
}

// isIO: the call moves bytes (deadline setters and address getters do not).
func isIO(name string) bool {
	return !strings.Contains(name, "Deadline") && !strings.HasSuffix(name, "Addr") && !strings.HasSuffix(name, ".Close")
}

func isWrite(name string, args []*Term, owner func(*Term) *Term) bool {
	switch name {
	case "net.Conn.Write":
		return true
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "encoding/binary.Write", "fmt.Fprint", "fmt.Fprintf", "io.Writer.Write":
		return len(args) > 0 && owner(args[0]) != nil
	case "bytes.Buffer.WriteTo", "bytes.Reader.WriteTo", "net.Buffers.WriteTo":
		return true
	}
	return false
}

// ---------------------------------------------------------------- C02

func ruleC02(c *Ctx) {
	c.rule("drop-after-failure", "on every path of an exchange, after a failed connection read or write the connection is closed and the connection field set to nil before the broker lock is released or the function returns, and no further bytes are exchanged on it")
	c.rule("open-before-use", "every exchange uses a connection that is known to be open on that path: checked non-nil under the lock, or dialled on this path")
	c.rule("close-drops", "a broker method that closes the connection leaves the connection field nil")
	k := newConnCfg(c)
	if k == nil {
		return
	}
	ex := k.ex
	connT := func(st *State, o *Term) *Term {
		return st.load(mkFld(o, nil, ex.m.connKey), types.Typ[types.UnsafePointer])
	}
	dropped := func(st *State, o *Term) bool {
		n, kn := st.nilness(connT(st, o))
		return kn && n && st.get("shut") == o
	}
	var root *ssa.Function
	k.event = func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			if ev.Name == "net.Conn.Close" {
				if o := ex.m.owner(st, ev.Args[0]); o != nil {
					st.set("shut", o)
				}
				return
			}
			o, what := ex.m.ioEvent(st, ev)
			if o == nil {
				return
			}
			c.count("connection uses checked", 1)
			if b := st.get("bad"); b == o && isIO(ev.Name) {
				if !dropped(st, o) {
					c.fail("drop-after-failure", fname(ev.Site.Parent())+"/"+what+"/reuse", instrPos(ev.Site), st.path(), "the connection is used again (%s) after an exchange on it failed", what)
					st.dead = true
					return
				}
				st.set("bad", nil)
			}
			for _, a := range ev.Args {
				if ex.m.owner(st, a) != o {
					continue
				}
				if n, kn := st.nilness(a); kn && !n || st.get("open") == o {
					st.set("open", o)
					continue
				}
				if freshObj(o) {
					continue
				}
				c.fail("open-before-use", fname(root)+"->"+fname(ev.Site.Parent())+"/"+what, instrPos(ev.Site), st.path(), "the connection is used (%s) on a path that neither checked that it is open nor dialled it", what)
				st.dead = true
				return
			}
		case "store":
			if ev.Loc.Op == "fld" && ev.Loc.Str == ex.m.connKey {
				if n, kn := st.nilness(ev.Val); kn && !n {
					st.set("open", ev.Loc.Args[0])
					st.set("shut", nil)
					st.set("bad", nil)
				} else {
					st.set("open", nil)
				}
			}
		case "return":
			o := st.get("bad")
			if o == nil {
				return
			}
			c.count("failure paths checked", 1)
			if dropped(st, o) {
				return
			}
			if freshObj(o) && !ev.Res.contains(o) {
				return
			}
			c.fail("drop-after-failure", fname(root)+"/return", instrPos(ev.Site), st.path(), "%s returns after a failed read or write with the connection still kept in the broker", fname(root))
		}
		if op, l := lockOp(st, ev); op == "Unlock" && l.Op == "fld" && l.Str == ex.lock {
			if o := st.get("bad"); o == l.Args[0] && !dropped(st, o) {
				c.fail("drop-after-failure", fname(root)+"/unlock", instrPos(ev.Site), st.path(), "the broker lock is released after a failed read or write with the connection still kept in the broker")
			}
		}
	}
	for _, f := range ex.roots {
		root = f
		cfg := k.config(true)
		c.exec(f, cfg)
		c.sample("exchange root " + fname(f))
	}
	c.count("exchange roots", len(ex.roots))
	c.floor("exchange roots", 2)
	c.floor("failure paths checked", 3)
	// closing
	n := 0
	for _, f := range c.p.funcs {
		if !closesConn(f) || !ex.m.touchesConn(f) {
			continue
		}
		n++
		f := f
		cfg := &Config{Merge: true, PartFacts: func(t *Term) bool { return t.any(func(u *Term) bool { return u.Op == "fld" && u.Str == ex.m.connKey }) }}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return g.Parent() != nil }
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "call" && ev.Name == "net.Conn.Close" {
				if o := ex.m.owner(st, ev.Args[0]); o != nil {
					st.set("shut", o)
				}
			}
			if ev.Kind == "return" {
				o := st.get("shut")
				if o == nil {
					return
				}
				if nl, kn := st.nilness(connT(st, o)); !kn || !nl {
					c.fail("close-drops", fname(f), instrPos(ev.Site), st.path(), "the connection was closed but stays in the broker, so later requests use a closed socket")
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("closing functions", n)
	c.floor("closing functions", 1)
	// Broker.Close must actually close an open connection
	if cl := c.anchor("Broker.Close"); cl != nil {
		reachClose := c.p.reaches(func(f *ssa.Function) bool { return closesConn(f) }, false)
		cfg := &Config{Merge: true, PartFacts: func(t *Term) bool { return t.any(func(u *Term) bool { return u.Op == "fld" && u.Str == ex.m.connKey }) }}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return g.Parent() != nil || reachClose[g] }
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "call" && ev.Name == "net.Conn.Close" && ex.m.owner(st, ev.Args[0]) != nil {
				st.setFlag("shut", true)
			}
			if ev.Kind == "return" && !st.flag("shut") {
				if nl, kn := st.nilness(connT(st, mkT(nil, "param", "recv"))); !kn || !nl {
					c.fail("close-drops", "Broker.Close/open", instrPos(ev.Site), st.path(), "Broker.Close can return without closing an open connection")
				}
			}
		}
		c.exec(cl, cfg)
	}
}

// ---------------------------------------------------------------- C03

func ruleC03(c *Ctx) {
	c.rule("setup-order", "on a connection dialled on the path: ApiVersions first, its answer stored, then SaslHandshake and SaslAuthenticate with successful answers unless no mechanism is configured, only then any other request")
	c.rule("setup-failure", "when any set-up step fails the function returns a non-nil error and the connection field is nil")
	c.rule("tls", "a plain dial happens only when TLS is known to be disabled, a TLS dial only with a TLS configuration built from the configured files")
	k := newConnCfg(c)
	if k == nil {
		return
	}
	ex := k.ex
	vf := c.p.fieldsByType("Broker", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && typeShort(s.Elem()) == "APIVersion"
	})
	if len(vf) != 1 {
		c.fail("anchor", "Broker.apiVersions", token.NoPos, nil, "Broker must have one []APIVersion field, found %v", vf)
		return
	}
	verKey := "Broker." + vf[0]
	mechKnownEmpty := func(st *State) bool {
		for t, v := range st.facts {
			if v && t.Op == "eq" {
				for i := 0; i < 2; i++ {
					if t.Args[i] == tStr("") && t.Args[1-i].any(func(u *Term) bool { return strings.HasSuffix(u.Str, ".Mechanism") }) {
						return true
					}
				}
			}
			if v && t.Op == "eq" {
				for i := 0; i < 2; i++ {
					if t.Args[i] == tInt(0) && t.Args[1-i].Op == "app" && t.Args[1-i].Str == "len" && t.Args[1-i].any(func(u *Term) bool { return strings.HasSuffix(u.Str, ".Mechanism") }) {
						return true
					}
				}
			}
		}
		return false
	}
	// the last answer is known to be good
	answered := func(st *State) bool {
		r := st.get("resp")
		if r == nil {
			return false
		}
		n, kn := st.nilness(mkT(errType, "app", "resperr", r))
		return kn && n || st.flag("good")
	}
	var root *ssa.Function
	note := func(st *State) {
		// called when the next step starts: was the previous one successful?
		switch kind, _ := st.get("kind").strVal(); kind {
		case "SaslHandShakeRequest", "SaslHandshakeRequest":
			st.setFlag("handshake", answered(st))
		case "SaslAuthenticateRequest":
			st.setFlag("auth", answered(st))
		case "APIVersionsRequest":
			st.setFlag("versanswer", answered(st))
		}
	}
	complete := func(st *State) string {
		if !st.flag("fresh") {
			return ""
		}
		if !st.flag("versions") {
			return "the API versions of the broker were not stored"
		}
		if mechKnownEmpty(st) || st.flag("nomech") {
			return ""
		}
		if !st.flag("handshake") {
			return "the SASL handshake has not succeeded"
		}
		if !st.flag("auth") {
			return "the SASL authentication has not succeeded"
		}
		return ""
	}
	k.event = func(x *Exec, st *State, ev *Event) {
		if mechKnownEmpty(st) {
			st.setFlag("nomech", true)
		}
		if r := st.get("resp"); r != nil && !st.flag("good") {
			if n, kn := st.nilness(mkT(errType, "app", "resperr", r)); kn {
				if n {
					st.setFlag("good", true)
				} else {
					st.setFlag("failed", true)
				}
			}
		}
		switch ev.Kind {
		case "store":
			if ev.Loc.Op != "fld" {
				return
			}
			switch ev.Loc.Str {
			case ex.m.connKey:
				if n, kn := st.nilness(ev.Val); kn && !n && ev.Val.any(func(u *Term) bool {
					i := strings.IndexByte(u.Str, '@')
					return i > 0 && isDialName(u.Str[:i])
				}) {
					st.setFlag("fresh", true)
					for _, f := range []string{"versions", "handshake", "auth", "versanswer"} {
						st.setFlag(f, false)
					}
				} else if !kn || !n {
					c.fail("setup-order", fname(ev.Site.Parent())+"/conn-source", instrPos(ev.Site), st.path(), "a broker's connection is set to something that was not dialled on this path: %s", ev.Val)
				}
			case verKey:
				note(st)
				r := st.get("resp")
				if r == nil || !ev.Val.contains(r) || !answered(st) {
					c.fail("setup-order", fname(ev.Site.Parent())+"/versions-source", instrPos(ev.Site), st.path(), "the stored API versions do not come from a successful ApiVersions answer: %s", ev.Val)
				}
				st.setFlag("versions", true)
				c.count("version stores", 1)
			}
		case "call":
			if isDialName(ev.Name) {
				c.count("dial sites", 1)
				known, dis := false, false
				for t, v := range st.facts {
					if l := fieldLoc(t); l != nil && l.Op == "fld" && strings.HasSuffix(l.Str, ".TLSEnabled") {
						known, dis = true, !v
					}
				}
				tlsDial := strings.Contains(ev.Name, "tls.")
				if !known || dis == tlsDial {
					c.fail("tls", fname(ev.Site.Parent())+"/"+ev.Name, instrPos(ev.Site), st.path(), "%s is used on a path where TLS is not known to be %s", ev.Name, map[bool]string{true: "enabled", false: "disabled"}[tlsDial])
				}
			}
			if r, _, kind, ok := encodeCall(ev); ok {
				_ = r
				note(st)
				c.count("requests on exchange paths", 1)
				bad := ""
				if st.flag("fresh") {
					switch kind {
					case "APIVersionsRequest":
					case "SaslHandShakeRequest", "SaslHandshakeRequest":
						if !st.flag("versions") {
							bad = "the SASL handshake is sent before the API versions were stored"
						}
					case "SaslAuthenticateRequest":
						if !st.flag("handshake") {
							bad = "SASL authentication is sent although the handshake has not succeeded"
						}
					default:
						bad = complete(st)
					}
				}
				if bad != "" {
					c.fail("setup-order", fname(root)+"/"+kind, instrPos(ev.Site), st.path(), "a request is sent on a new connection, but %s", bad)
				}
				st.set("kind", tStr(kind))
				st.set("resp", nil)
				st.setFlag("good", false)
				st.setFlag("failed", false)
			}
		case "return":
			if !st.flag("fresh") {
				return
			}
			note(st)
			res := ev.Res
			e := res
			if res.Op == "tuple" {
				if len(res.Args) == 0 {
					return
				}
				e = res.Args[len(res.Args)-1]
			}
			c.count("set-up results checked", 1)
			isNil, kn := st.nilness(e)
			inc := complete(st)
			if (!kn || isNil) && inc != "" {
				// resp.Error() of the real request may still be unknown: only set-up counts
				c.fail("setup-failure", fname(root)+"/success", instrPos(ev.Site), st.path(), "%s can return without error although %s", fname(root), inc)
			}
			if kn && !isNil && inc != "" {
				// half-initialised: the connection must be gone, unless the object is not returned
				var ow *Term
				for l := range st.mem {
					if l.Op == "fld" && l.Str == ex.m.connKey {
						ow = l.Args[0]
						if n, k2 := st.nilness(st.mem[l]); k2 && n {
							return
						}
					}
				}
				if ow != nil && freshObj(ow) && !ev.Res.contains(ow) {
					return
				}
				c.fail("setup-failure", fname(root)+"/kept", instrPos(ev.Site), st.path(), "%s returns the error of a failed set-up, but keeps the half-initialised connection", fname(root))
			}
		}
	}
	for _, f := range ex.roots {
		root = f
		c.exec(f, k.config(true))
	}
	c.count("exchange roots", len(ex.roots))
	c.floor("exchange roots", 2)
	c.floor("dial sites", 2)
	c.floor("version stores", 1)
	c.floor("requests on exchange paths", 4)
	// TLS configuration
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || types.TypeString(fa.X.Type().Underlying().(*types.Pointer).Elem(), nil) != "crypto/tls.Config" {
					continue
				}
				fn := fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
				c.count("tls settings", 1)
				if fn == "InsecureSkipVerify" {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
						c.fail("tls", fname(f)+"/InsecureSkipVerify", s.Pos(), nil, "certificate verification is switched off unconditionally")
					} else if !ok && !fromFieldNamed(s.Val, "InsecureSkipVerify", 0) {
						c.fail("tls", fname(f)+"/InsecureSkipVerify", s.Pos(), nil, "InsecureSkipVerify does not come from the configuration")
					}
				}
			}
		}
	}
	c.floor("tls settings", 2)
}

// fromFieldNamed: the value is a load of a field of that name.
func fromFieldNamed(v ssa.Value, name string, d int) bool {
	if d > 8 {
		return false
	}
	switch i := v.(type) {
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
			return fieldOnly(fieldKey(fa)) == name
		}
		return false
	case *ssa.Field:
		return fieldName(i.X.Type(), i.Field) == name
	case *ssa.Convert:
		return fromFieldNamed(i.X, name, d+1)
	case *ssa.ChangeType:
		return fromFieldNamed(i.X, name, d+1)
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !fromFieldNamed(e, name, d+1) {
				return false
			}
		}
		return true
	}
	return false
}
