package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cfgHolder: the type has a field with the configuration of a consumer or producer.
func cfgHolder(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isCfgType(s.Field(i).Type()) != "" {
			return true
		}
	}
	return false
}

// holder: the consumer or producer the function is a method of (or a closure of one).
func holder(f *ssa.Function) types.Type {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() == nil || !cfgHolder(f.Signature.Recv().Type()) {
		return nil
	}
	return f.Signature.Recv().Type()
}

// fields: the values of the request fields that settings are for.
func (m *cfgModel) fields() {
	c := m.c
	p := c.p
	sendsMemo, getsMemo = nil, nil
	tm := &tgtModel{c: c, need: map[*ssa.Function]bool{}, fieldUse: map[string]map[string]string{}, fieldSet: map[string]map[string]string{}}
	tm.ctrl = c.fieldOf("Brokers", isBasic(types.Int32))
	want := map[string]map[string]string{
		"FetchRequest":     {"MaxWaitTime": "FetchMaxWaitMS", "MinBytes": "FetchMinBytes", "MaxBytes": "FetchMaxBytes"},
		"JoinGroupRequest": {"SessionTimeout": "SessionTimeoutMS"},
		"ProduceRequest":   {"RequiredAcks": "Acks", "Timeout": "RequestTimeoutMS"},
	}
	is := func(t *Term, setting string) bool {
		if t == nil {
			return false
		}
		k := fieldKeyOf(stripConv(t))
		return k == "ConsumerConfig."+setting || k == "ProducerConfig."+setting
	}
	asked := map[*ssa.Function]bool{}
	bad := func(x *Exec, st *State, ev *Event, what, setting string, got *Term) {
		if holder(x.root) == nil || got != nil && fromParam(got) && len(p.callersOf()[x.root]) > 0 {
			// what the caller passes is checked where it calls
			if got != nil && fromParam(got) {
				asked[x.root] = true
			}
			return
		}
		c.fail("fields", fname(x.root)+" "+what, instrPos(ev.Site), st.path(), "%s: %s is %v, not the setting %s", fname(x.root), what, got, setting)
	}
	tm.onSend = func(x *Exec, st *State, ev *Event, req *Term, rt string) {
		if rt == "OffsetsRequest" {
			return
		}
		r := readArg(st, req)
		if !r.ok() {
			return
		}
		c.count("requests with settings", 1)
		for f, s := range want[rt] {
			c.count("request fields", 1)
			if t := r.f(f).t; !is(t, s) {
				bad(x, st, ev, rt+"."+f, s, t)
			}
		}
		id := r.f("RequestHeader").f("ClientID")
		if id.ok() && id.t.Op != "phi" {
			v := id.t
			if l := fieldLoc(v); l == nil || !is(v, "ClientID") {
				if v.Op == "fld" || v.Op == "alloc" {
					v = st.load(v, types.Typ[types.String])
				}
			}
			c.count("client ids", 1)
			if !is(v, "ClientID") {
				bad(x, st, ev, rt+".ClientID", "ClientID", v)
			}
		}
	}
	var work []*ssa.Function
	for _, f := range p.funcs {
		if isCodec(f) || f.Synthetic != "" || holder(f) == nil || !tm.sends(f) {
			continue
		}
		work = append(work, f)
	}
	sort.Slice(work, func(i, j int) bool { return fname(work[i]) < fname(work[j]) })
	for _, f := range work {
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if i, ok := in.(ssa.CallInstruction); ok {
					g := i.Common().StaticCallee()
					direct = direct || g != nil && (recvName(g) == "Broker" && tm.sends(g) || fname(g) == "Broker.RequestAndGet" || fname(g) == "Brokers.Request" ||
						g.Pkg == p.core && g.Signature.Recv() == nil && tm.sends(g))
				}
			}
		}
		if !direct {
			continue
		}
		tm.cur = f
		c.exec(f, tm.config())
		c.count("functions that send", 1)
	}
	c.floor("request fields", 6)
	c.floor("client ids", 4)
}

// pass: the connection settings are handed on as they are.
func (m *cfgModel) pass() {
	c := m.c
	p := c.p
	isB := func(t types.Type) bool { return ptrTo(t, modPath, "BrokerConfig") }
	for _, f := range p.funcs {
		if f.Pkg != p.core || isCodec(f) || f.Synthetic != "" {
			continue
		}
		var own []*ssa.Parameter
		src := false
		for _, q := range f.Params {
			if isB(q.Type()) {
				own, src = append(own, q), true
			}
			if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
				if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						src = src || isB(s.Field(i).Type()) && typeShort(pt.Elem()) != "Client"
					}
				}
			}
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					for _, a := range i.Common().Args {
						uses = uses || isB(a.Type()) && i.Common().StaticCallee() != nil && i.Common().StaticCallee().Pkg == p.core
					}
				case *ssa.Store:
					uses = uses || isB(i.Val.Type())
					// the settings of a connection are not changed after the fact
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						m.changed(f, i, fa)
					}
				}
			}
		}
		if !uses || !src {
			continue
		}
		ok := func(st *State, t *Term) bool {
			if t.Op == "param" {
				return true
			}
			if l := fieldLoc(t); l != nil {
				return l.Op == "param" || l.Op == "fld" && p.fieldType(l.Str) != nil && isB(p.fieldType(l.Str))
			}
			for _, q := range own {
				if v, known := st.evalBool(mkEq(mkT(q.Type(), "param", q.Name()), tNil)); known && v {
					return true
				}
			}
			return false
		}
		cfg := &Config{Merge: true, JoinPaths: true, PartPtr: true, MaxState: 40000}
		cfg.PartVal = func(st *State, v ssa.Value, t *Term) string {
			if isB(v.Type()) {
				return itoa(t.ID)
			}
			return ""
		}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return g.Pkg == p.core && g.Signature.Results().Len() == 1 && isB(g.Signature.Results().At(0).Type())
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Fn == nil || ev.Fn.Pkg != p.core {
					return
				}
				for i, q := range ev.Fn.Params {
					if isB(q.Type()) && i < len(ev.Args) {
						c.count("settings handed on", 1)
						if !ok(st, ev.Args[i]) {
							c.fail("conn", fname(f)+" "+ev.Name, instrPos(ev.Site), st.path(), "%s calls %s with the settings %v instead of its own", fname(f), ev.Name, ev.Args[i])
						}
					}
				}
			case "store":
				if ev.Loc != nil && ev.Loc.Op == "fld" && p.fieldType(ev.Loc.Str) != nil && isB(p.fieldType(ev.Loc.Str)) {
					c.count("settings handed on", 1)
					if !ok(st, ev.Val) {
						c.fail("conn", fname(f)+" "+ev.Loc.Str, instrPos(ev.Site), st.path(), "%s sets %s to the settings %v instead of its own", fname(f), ev.Loc.Str, ev.Val)
					}
				}
			}
		}
		c.exec(f, cfg)
	}
	c.floor("settings handed on", 4)
}

// changed: a store to a setting of a live object.
func (m *cfgModel) changed(f *ssa.Function, s *ssa.Store, fa *ssa.FieldAddr) {
	c := m.c
	name := ""
	var v ssa.Value = fa
	for {
		a, ok := v.(*ssa.FieldAddr)
		if !ok {
			break
		}
		t := a.X.Type().Underlying().(*types.Pointer).Elem()
		n := typeShort(t)
		if name == "" {
			name = t.Underlying().(*types.Struct).Field(a.Field).Name()
		}
		v = a.X
		switch n {
		case "BrokerConfig", "ConsumerConfig", "ProducerConfig", "NetConfig", "SaslConfig", "TLSConfig":
			continue
		}
		// a field of something else: live unless it was made here
		if al, ok := v.(*ssa.Alloc); ok && al != nil {
			return
		}
		if name == "FetchMaxBytes" || !strings.Contains(" BrokerConfig ConsumerConfig ProducerConfig ", " "+typeShort(a.Type().Underlying().(*types.Pointer).Elem())+" ") {
			return
		}
		if isCfgType(a.Type().Underlying().(*types.Pointer).Elem()) != "" && v != s.Addr && a == fa {
			return // the configuration as a whole
		}
		c.fail("conn", fname(f)+" "+name, s.Pos(), nil, "%s changes the setting %s", fname(f), name)
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && ptrTo(u.Type(), modPath, "BrokerConfig") {
		if _, ok := u.X.(*ssa.FieldAddr); ok {
			c.fail("conn", fname(f)+" "+name, s.Pos(), nil, "%s changes the connection setting %s", fname(f), name)
		}
	}
	if q, ok := v.(*ssa.Parameter); ok && ptrTo(q.Type(), modPath, "BrokerConfig") {
		c.fail("conn", fname(f)+" "+name, s.Pos(), nil, "%s changes the connection setting %s of the configuration it was given", fname(f), name)
	}
}

// dial: how a connection is made.
func (m *cfgModel) dial() {
	c := m.c
	p := c.p
	for _, f := range p.funcs {
		if f.Pkg != p.core || f.Synthetic != "" {
			continue
		}
		var cp *ssa.Parameter
		conn := false
		for _, q := range f.Params {
			if ptrTo(q.Type(), modPath, "BrokerConfig") {
				cp = q
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			conn = conn || isNamed(f.Signature.Results().At(i).Type(), "net.Conn") || strings.HasSuffix(f.Signature.Results().At(i).Type().String(), "net.Conn")
		}
		if cp == nil || !conn {
			continue
		}
		cfg := &Config{MaxState: 20000}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return g.Pkg == p.core && !isCodec(g) }
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			var v *Term
			switch name {
			case "tls.LoadX509KeyPair", "crypto/tls.LoadX509KeyPair":
				v = mkT(fn.Signature.Results().At(0).Type(), "app", "keypair", args...)
			case "os.ReadFile":
				v = mkT(fn.Signature.Results().At(0).Type(), "app", "contents", args...)
			default:
				return nil, false
			}
			e := mkT(errType, "app", "failed:"+name, args...)
			return []Outcome{{Res: mk("tuple", "", v, tNil), Tag: name}, {Res: mk("tuple", "", v, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: name + "!failed"}}, true
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "call" {
				return
			}
			set := rd{st, mkT(cp.Type(), "param", cp.Name()), cp.Type(), nil}
			bad := func(format string, a ...interface{}) {
				c.fail("dial", fname(f), instrPos(ev.Site), st.path(), fname(f)+": "+format, a...)
			}
			if strings.HasSuffix(ev.Name, "CertPool).AppendCertsFromPEM") || strings.HasSuffix(ev.Name, "CertPool.AppendCertsFromPEM") {
				st.set("pool"+itoa(ev.Args[0].ID), ev.Args[1])
			}
			over := strings.HasSuffix(ev.Name, "tls.DialWithDialer")
			if !over && !strings.HasSuffix(ev.Name, "Dialer).Dial") && !strings.HasSuffix(ev.Name, "Dialer.Dial") && !strings.HasSuffix(ev.Name, "Dialer.DialContext") && ev.Name != "net.Dial" && ev.Name != "net.DialTimeout" && !strings.HasSuffix(ev.Name, "tls.Dial") {
				return
			}
			c.count("connections made", 1)
			en, known := st.evalBool(set.f("TLSEnabled").t)
			if !known || en != over {
				bad("%s is used although tls.enabled is not known to be %v", ev.Name, over)
			}
			if !strings.Contains(ev.Name, "Dialer") {
				bad("%s ignores the keep-alive interval", ev.Name)
				return
			}
			d := readArg(st, ev.Args[0])
			if k := millis(orNil(d.f("KeepAlive").t)); k == nil || k != stripConv(set.f("Net").f("KeepAliveMS").t) {
				bad("the keep-alive interval is %v, not keepalive.ms milliseconds", d.f("KeepAlive").t)
			}
			if k := millis(orNil(d.f("Timeout").t)); k == nil || k != stripConv(set.f("Net").f("ConnectTimeoutMS").t) {
				bad("the connect timeout is %v, not connect.timeout.ms milliseconds", d.f("Timeout").t)
			}
			if !over {
				return
			}
			t := readArg(st, ev.Args[len(ev.Args)-1])
			ts := set.f("TLS")
			if got, want := t.f("InsecureSkipVerify").t, ts.f("InsecureSkipVerify").t; got != want {
				bad("InsecureSkipVerify is %v, not the setting", got)
			}
			got, name := t.f("ServerName").t, ts.f("ServerName").t
			empty, known := st.evalBool(mkEq(name, tStr("")))
			if got != name && !(got == tStr("") && known && empty) {
				bad("the server name is %v, not the setting", got)
			}
			crt := orNil(t.f("Certificates").only().t)
			if crt.Op != "app" || crt.Str != "keypair" || crt.Args[0] != ts.f("Cert").t || crt.Args[1] != ts.f("Key").t {
				bad("the certificate is %v, not the one of the files in the settings cert and key", crt)
			}
			pool := orNil(t.f("RootCAs").t)
			ca := orNil(st.get("pool" + itoa(pool.ID)))
			if ca.Op != "app" || ca.Str != "contents" || ca.Args[0] != ts.f("CA").t {
				bad("the accepted authorities are %v, not those of the file in the setting ca", ca)
			}
		}
		c.exec(f, cfg)
	}
	c.floor("connections made", 2)
}

// timers: intervals are the settings they are named after, in milliseconds.
func (m *cfgModel) timers() {
	c := m.c
	p := c.p
	type frac struct{ n, d int64 }
	used := map[string]bool{}
	open := 0
	var trace func(v ssa.Value, k frac, depth int, at func(key string, k frac)) bool
	trace = func(v ssa.Value, k frac, depth int, at func(string, frac)) bool {
		if depth > 12 {
			return false
		}
		switch i := v.(type) {
		case *ssa.Convert:
			return trace(i.X, k, depth+1, at)
		case *ssa.ChangeType:
			return trace(i.X, k, depth+1, at)
		case *ssa.BinOp:
			for n, o := range []ssa.Value{i.X, i.Y} {
				q, ok := o.(*ssa.Const)
				other := i.Y
				if n == 1 {
					other = i.X
				}
				if !ok || q.Value == nil {
					continue
				}
				switch {
				case i.Op == token.MUL:
					return trace(other, frac{k.n * q.Int64(), k.d}, depth+1, at)
				case i.Op == token.QUO && n == 1 && q.Int64() > 0:
					return trace(other, frac{k.n, k.d * q.Int64()}, depth+1, at)
				}
			}
		case *ssa.UnOp:
			if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				key := t.Underlying().(*types.Struct).Field(fa.Field).Name()
				if isCfgType(t) != "" {
					at(typeShort(t)+"."+key, k)
					return true
				}
			}
			if i.Op != token.MUL {
				return false
			}
			var a ssa.Value = i.X
			for n := 0; n < 5; n++ {
				fv, ok := a.(*ssa.FreeVar)
				if !ok {
					break
				}
				if a = boundTo(fv); a == nil {
					return false
				}
			}
			if al, ok := a.(*ssa.Alloc); ok {
				var val ssa.Value
				n := 0
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						val = st.Val
						n++
					}
				}
				if n == 1 {
					return trace(val, k, depth+1, at)
				}
			}
		case *ssa.FreeVar:
			if b := boundTo(i); b != nil {
				return trace(b, k, depth+1, at)
			}
		case *ssa.Field:
			if isCfgType(i.X.Type()) != "" {
				at(typeShort(i.X.Type())+"."+i.X.Type().Underlying().(*types.Struct).Field(i.Field).Name(), k)
				return true
			}
		case *ssa.Const:
			return true
		case *ssa.Parameter:
			all, n := true, -1
			for j, q := range i.Parent().Params {
				if q == i {
					n = j
				}
			}
			any := false
			for _, g := range p.callersOf()[i.Parent()] {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if cc, ok := in.(ssa.CallInstruction); ok && cc.Common().StaticCallee() == i.Parent() {
							any = true
							all = trace(cc.Common().Args[n], k, depth+4, at) && all
						}
					}
				}
			}
			return any && all || !any && i.Type().String() == "time.Duration"
		}
		return false
	}
	for _, f := range p.funcs {
		if f.Pkg != p.core || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok || cc.Common().StaticCallee() == nil {
					continue
				}
				switch g := cc.Common().StaticCallee(); g.String() {
				case "time.Sleep", "time.NewTicker", "time.NewTimer", "time.After", "time.Tick", "time.AfterFunc", "(*time.Ticker).Reset", "(*time.Timer).Reset":
					arg := cc.Common().Args[0]
					if g.Signature.Recv() != nil {
						arg = cc.Common().Args[1]
					}
					ok := trace(arg, frac{1, 1}, 0, func(key string, k frac) {
						c.count("timers", 1)
						c.sample(fname(f) + ": " + key)
						used[key] = true
						if strings.HasSuffix(key, ".SessionTimeoutMS") {
							// heartbeats: several within a session
							if k.n <= 0 || k.n*2 > k.d*1000000 {
								c.fail("units", fname(f)+" "+key, in.Pos(), nil, "%s: the interval of heartbeats is %d/%d ns per millisecond of the session timeout: too long to keep the session", fname(f), k.n, k.d)
							}
							return
						}
						if !strings.HasSuffix(key, "MS") || k.n != k.d*1000000 {
							c.fail("units", fname(f)+" "+key, in.Pos(), nil, "%s: %s is used as an interval with %d/%d ns per unit: it is in milliseconds", fname(f), key, k.n, k.d)
						}
					})
					if !ok {
						open++
					}
				}
			}
		}
	}
	c.count("intervals not from a setting", open)
	for _, key := range []string{"ProducerConfig.FlushIntervalMS", "ConsumerConfig.AutoCommitIntervalMS", "ConsumerConfig.MetadataMaxAgeMS", "ConsumerConfig.SessionTimeoutMS", "ConsumerConfig.RetryBackOffMS"} {
		if !used[key] && open == 0 {
			c.fail("units", key, 0, nil, "no timer follows the setting %s", key)
		}
	}
	c.floor("timers", 3)
}

// sasl: what is sent to authenticate.
func (m *cfgModel) sasl() {
	c := m.c
	p := c.p
	reaches := p.reaches(func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if i, ok := in.(*ssa.MakeInterface); ok {
					t := i.X.Type()
					if q, ok := t.Underlying().(*types.Pointer); ok {
						t = q.Elem()
					}
					if strings.HasPrefix(typeShort(t), "SaslAuthenticateReq") {
						return true
					}
				}
			}
		}
		return false
	}, false)
	for _, f := range p.funcs {
		if f.Pkg != p.core || f.Synthetic != "" || !reaches[f] || recvName(f) != "Broker" || isCodec(f) {
			continue
		}
		cfg := &Config{Merge: true, JoinPaths: true, PartPtr: true, MaxState: 40000}
		reqArg := func(g *ssa.Function) int {
			if g == nil || recvName(g) != "Broker" {
				return -1
			}
			for i, q := range g.Params {
				if isNamed(q.Type(), "Request") {
					return i
				}
			}
			return -1
		}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return g.Pkg == p.core && reqArg(g) < 0 && (reaches[g] || !isCodec(g) && (g.Parent() != nil || !strings.HasPrefix(fname(g), "Broker.")) || fname(g) == "PlainSasl.Encode")
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if name == "strings.ToLower" || name == "strings.ToUpper" {
				return []Outcome{{Res: mkT(types.Typ[types.String], "app", "case", args[0])}}, true
			}
			return nil, false
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "copy") && len(ev.Args) == 2 && st.depth() > 1 {
				st.set("bytes"+itoa(ev.Args[0].ID), ev.Args[1])
			}
			if ev.Kind != "call" {
				return
			}
			i := reqArg(ev.Fn)
			if i < 0 {
				return
			}
			rt := ""
			t := ev.Args[i]
			for t.Op == "iface" {
				rt = typeShort(t.Typ)
				t = t.Args[0]
			}
			r := readArg(st, ev.Args[i])
			is := func(t *Term, s string) bool { return t != nil && fieldKeyOf(t) == "SaslConfig."+s }
			bad := func(format string, a ...interface{}) {
				c.fail("sasl", fname(f)+" "+rt, instrPos(ev.Site), st.path(), fname(f)+": "+format, a...)
			}
			switch rt {
			case "SaslHandShakeRequest":
				c.count("handshakes", 1)
				if v := r.f("Mechanism").t; !is(v, "Mechanism") {
					bad("the mechanism asked for is %v, not the setting", v)
				}
			case "SaslAuthenticateRequest":
				h := orNil(r.f("RequestHeader").t)
				if v, known := st.evalBool(mkEq(h, tNil)); !known || v {
					bad("the authentication may be sent without a header (%v)", h)
				}
				b := orNil(r.f("SaslAuthBytes").t)
				c.count("authentications", 1)
				if v := st.get("bytes" + itoa(b.ID)); v != nil {
					b = v
				}
				text, known := "", true
				var flat func(t *Term)
				flat = func(t *Term) {
					if t.Op == "app" && strings.HasPrefix(t.Str, "conv") {
						t = t.Args[0]
					}
					if s, ok := t.strVal(); ok {
						text += s
					} else if k := fieldKeyOf(t); strings.HasPrefix(k, "SaslConfig.") {
						text += "<" + k[11:] + ">"
					} else if t.Op == "bin" && t.Str == "+" {
						flat(t.Args[0])
						flat(t.Args[1])
					} else {
						known = false
						c.sample("authentication text: " + t.Op + " " + t.String())
						if strings.Contains(t.String(), ".Sasl.") && (t.Op == "call" || t.Op == "app" && strings.HasPrefix(t.Str, "strings.")) {
							bad("%v is sent to authenticate instead of the user and password of the settings", t)
						}
					}
				}
				flat(b)
				if known {
					c.count("authentication texts", 1)
					if text != "\x00<User>\x00<Password>" {
						bad("the authentication text is %q, not user and password", text)
					}
				}
			}
		}
		c.exec(f, cfg)
	}
	c.floor("handshakes", 1)
	c.floor("authentications", 1)
}

// boundTo: what a captured variable is bound to where the closure is made.
func boundTo(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	n := -1
	for i, v := range f.FreeVars {
		if v == fv {
			n = i
		}
	}
	if f.Parent() == nil || n < 0 {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
				return m.Bindings[n]
			}
		}
	}
	return nil
}
