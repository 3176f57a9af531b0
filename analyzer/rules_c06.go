package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSetDeadline(name string) bool {
	switch name {
	case "net.Conn.SetReadDeadline", "net.Conn.SetDeadline":
		return true
	}
	return false
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" || t.Op == "app" && t.Str == "conv" {
		t = t.Args[0]
	}
	return t
}

// millis: t is X * time.Millisecond (in either order); returns X.
func millis(t *Term) *Term {
	t = stripConv(t)
	if t.Op == "bin" && t.Str == "*" && len(t.Args) == 2 {
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].intVal(); ok && v == 1000000 {
				return stripConv(t.Args[1-i])
			}
		}
	}
	return nil
}

func isFieldLoad(t *Term, suffix string) bool {
	l := fieldLoc(t)
	return l != nil && l.Op == "fld" && strings.HasSuffix(l.Str, suffix)
}

func ruleC06(c *Ctx) {
	c.rule("read-armed", "each read of a response is preceded, since the request was written, by SetReadDeadline(now + T ms), where T is the per-API timeout of the request's own API when that is set and positive and the general timeout otherwise; it may be left unarmed only when that T is known not to be positive")
	c.rule("dial-timeout", "each dial uses a dialer whose Timeout is the configured connect timeout and whose KeepAlive is the configured keep-alive")
	c.rule("unit", "each conversion of a configured ...MS value to a duration is multiplied by one millisecond")
	k := newConnCfg(c)
	if k == nil {
		return
	}
	ex := k.ex
	// minimal functions that both encode a request and read from the connection
	enc := c.p.reaches(func(f *ssa.Function) bool { return callsMethod(f, "Encode") }, false)
	rd := c.p.reaches(func(f *ssa.Function) bool { return connRead(ex, f) }, false)
	both := func(f *ssa.Function) bool { return enc[f] && rd[f] && ex.reach[f] && !isCodec(f) }
	var roots []*ssa.Function
	for _, f := range c.p.funcs {
		if !both(f) || f.Parent() != nil {
			continue
		}
		e, r := callsMethod(f, "Encode"), connRead(ex, f)
		for _, g := range c.p.callees(f, false) {
			if !both(g) {
				e = e || enc[g]
				r = r || rd[g]
			}
		}
		if e && r {
			roots = append(roots, f)
		}
	}
	apis := c.p.requestAPIs()
	perAPI := func(t *Term) *Term { // index term of a per-API timeout load
		if t.Op == "ld" && t.Args[0].Op == "idx" && t.Args[0].Args[0].any(func(u *Term) bool { return strings.HasSuffix(u.Str, "TimeoutMSForEachAPI") }) {
			return stripConv(t.Args[0].Args[1])
		}
		return nil
	}
	isAPI := func(ix *Term, st *State) bool {
		r := st.get("sent")
		if r == nil {
			return false
		}
		if ix == apiTerm(r) {
			return true
		}
		kind, _ := st.get("sentkind").strVal()
		return ix.isConst() && len(apis[kind]) == 1 && apis[kind][ix.Str]
	}
	isGeneral := func(t *Term) bool { return isFieldLoad(t, ".TimeoutMS") }
	// the per-API timeout does not apply on this path
	noPerAPI := func(st *State) bool {
		for t, v := range st.facts {
			if t.Op != "lt" && t.Op != "eq" && t.Op != "le" {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := stripConv(t.Args[i]), stripConv(t.Args[1-i])
				// lt(API, len) false  /  lt(0, perAPI) false
				if t.Op == "lt" && !v && i == 0 && isAPI(a, st) && b.Op == "app" && b.Str == "len" {
					return true
				}
				if t.Op == "lt" && !v && i == 1 && b == tInt(0) {
					if ix := perAPI(a); ix != nil && isAPI(ix, st) {
						return true
					}
				}
				if t.Op == "eq" && v && b == tInt(0) {
					if ix := perAPI(a); ix != nil && isAPI(ix, st) {
						return true
					}
				}
				if t.Op == "lt" && v && i == 0 && b == tInt(1) {
					if ix := perAPI(a); ix != nil && isAPI(ix, st) {
						return true
					}
				}
			}
		}
		for t, iv := range st.iv {
			if ix := perAPI(stripConv(t)); ix != nil && isAPI(ix, st) && iv.hi <= 0 {
				return true
			}
		}
		return false
	}
	nonPos := func(st *State, t *Term) bool {
		if v, kn := st.evalBool(mkLt(tInt(0), t)); kn && !v {
			return true
		}
		return st.ival(t).hi <= 0
	}
	positive := func(st *State, t *Term) bool {
		if v, kn := st.evalBool(mkLt(tInt(0), t)); kn && v {
			return true
		}
		return st.ival(t).lo > 0
	}
	goodT := func(st *State, t *Term) string {
		if ix := perAPI(t); ix != nil {
			if !isAPI(ix, st) {
				return "the timeout of another API (" + clip(ix.String()) + ")"
			}
			if !positive(st, t) {
				return "a per-API timeout that may be unset (0)"
			}
			return ""
		}
		if isGeneral(t) {
			if !noPerAPI(st) {
				return "the general timeout although a per-API timeout may be set"
			}
			return ""
		}
		return clip(t.String())
	}
	var root *ssa.Function
	k.event = func(x *Exec, st *State, ev *Event) {
		if ev.Kind != "call" {
			return
		}
		if r, _, kind, ok := encodeCall(ev); ok {
			st.set("sent", r)
			st.set("sentkind", tStr(kind))
			return
		}
		if isDialName(ev.Name) {
			return
		}
		if isSetDeadline(ev.Name) {
			if ex.m.owner(st, ev.Args[0]) == nil {
				return
			}
			c.count("deadlines set", 1)
			st.set("armed", ev.Args[1])
			st.set("armwhy", tStr(why(st, ev.Args[1], goodT)))
			return
		}
		o, what := ex.m.ioEvent(st, ev)
		if o == nil || !isIO(ev.Name) {
			return
		}
		if isWrite(ev.Name, ev.Args, func(t *Term) *Term { return ex.m.owner(st, t) }) {
			st.set("armed", nil)
			st.set("armwhy", nil)
			return
		}
		if strings.HasSuffix(ev.Name, "Addr") {
			return
		}
		c.count("reads checked", 1)
		if st.get("armed") == nil {
			// no deadline: the applicable timeout must be known not positive
			ok := false
			for t, v := range st.facts {
				if t.Op == "lt" && !v && t.Args[0] == tInt(0) {
					tt := stripConv(t.Args[1])
					if isGeneral(tt) && noPerAPI(st) {
						ok = true
					}
				}
			}
			for t, iv := range st.iv {
				if iv.hi <= 0 && isGeneral(stripConv(t)) && noPerAPI(st) {
					ok = true
				}
			}
			if !ok {
				c.fail("read-armed", fname(root)+"->"+fname(ev.Site.Parent())+"/unarmed", instrPos(ev.Site), st.path(), "the response is read (%s) without a read deadline set since the request was written", what)
			}
			return
		}
		if w, _ := st.get("armwhy").strVal(); w != "" {
			c.fail("read-armed", fname(root)+"->"+fname(ev.Site.Parent())+"/deadline", instrPos(ev.Site), st.path(), "the deadline of a response read is computed from %s", w)
		}
	}
	_ = nonPos
	for _, f := range roots {
		root = f
		cfg := k.config(false)
		inl := cfg.Inline
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return inl(x, st, g) && !both(g) }
		c.exec(f, cfg)
		c.sample("exchange " + fname(f))
	}
	c.count("exchange functions", len(roots))
	c.floor("exchange functions", 3)
	c.floor("reads checked", 5)
	ruleDial(c, k)
	ruleUnits(c)
}

func why(st *State, d *Term, goodT func(*State, *Term) string) string {
	for d.Op == "res" && len(d.Args) == 1 {
		d = d.Args[0]
	}
	nm := d.Str
	if i := strings.IndexByte(nm, '@'); i > 0 {
		nm = nm[:i]
	}
	if nm != "time.Time.Add" || len(d.Args) != 2 {
		return "something other than now plus the timeout (" + clip(d.String()) + ")"
	}
	now := d.Args[0].any(func(u *Term) bool { return strings.HasPrefix(u.Str, "time.Now") })
	if !now {
		return "a time other than now"
	}
	x := millis(d.Args[1])
	if x == nil {
		return "a timeout not taken in milliseconds (" + clip(d.Args[1].String()) + ")"
	}
	return goodT(st, x)
}

// connRead: f reads from a net.Conn or from something it passes a net.Conn to.
func connRead(ex *exchange, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := k.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Read" && typeIs(cc.Value.Type(), "net.Conn") {
				return true
			}
			if g := cc.StaticCallee(); g != nil {
				switch funcName(g) {
				case "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "encoding/binary.Read", "io.Copy", "io.CopyN":
					for i, a := range cc.Args {
						if mi, ok := a.(*ssa.ChangeInterface); ok && typeIs(mi.X.Type(), "net.Conn") && (i == 0) != strings.HasPrefix(funcName(g), "io.Copy") {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func callsMethod(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := k.Common()
			if cc.IsInvoke() && cc.Method.Name() == name && cc.Signature().Params().Len() == 1 {
				return true
			}
			if g := cc.StaticCallee(); g != nil && g.Name() == name && g.Signature.Recv() != nil && strings.HasSuffix(typeShort(recvType(g)), "Request") {
				return true
			}
		}
	}
	return false
}

func ruleDial(c *Ctx, k *connCfg) {
	for _, f := range c.p.funcs {
		if !dials(f) {
			continue
		}
		f := f
		cfg := &Config{}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return g.Parent() != nil || retType(g, "net.Dialer")
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "call" || !isDialName(ev.Name) {
				return
			}
			c.count("dials checked", 1)
			cons := fname(f) + "/" + ev.Name
			chk := func(v *Term, field string) {
				x := millis(v)
				if x == nil || !isFieldLoad(x, "."+field) {
					c.fail("dial-timeout", cons+"/"+field, instrPos(ev.Site), st.path(), "the connection is dialled with %s instead of the configured %s in milliseconds", clip(v.String()), field)
				}
			}
			d := ev.Args[0]
			if strings.HasPrefix(ev.Name, "net.Dialer.") || ev.Name == "crypto/tls.DialWithDialer" {
			} else if strings.HasPrefix(ev.Name, "crypto/tls.Dialer.") {
				d = st.load(mkFld(d, nil, "Dialer.NetDialer"), types.Typ[types.UnsafePointer])
			} else {
				c.fail("dial-timeout", cons, instrPos(ev.Site), st.path(), "%s dials without the configured timeout and keep-alive", ev.Name)
				return
			}
			dt := types.Typ[types.Int64]
			chk(st.load(mkFld(d, dt, "Dialer.Timeout"), dt), "ConnectTimeoutMS")
			chk(st.load(mkFld(d, dt, "Dialer.KeepAlive"), dt), "KeepAliveMS")
		}
		c.exec(f, cfg)
	}
	c.floor("dials checked", 2)
}

func retType(g *ssa.Function, t string) bool {
	r := g.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if strings.HasSuffix(types.TypeString(r.At(i).Type(), nil), t) {
			return true
		}
	}
	return false
}

func ruleUnits(c *Ctx) {
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cv, ok := in.(*ssa.Convert)
				if !ok || types.TypeString(cv.Type(), nil) != "time.Duration" {
					continue
				}
				k := loadedField(cv.X)
				if !strings.HasSuffix(k, "MS") {
					continue
				}
				c.count("configured durations", 1)
				for _, r := range *cv.Referrers() {
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					bo, ok := r.(*ssa.BinOp)
					good := false
					if ok && bo.Op == token.MUL {
						for _, o := range []ssa.Value{bo.X, bo.Y} {
							if kc, ok := o.(*ssa.Const); ok && kc.Value != nil && kc.Value.String() == "1000000" {
								good = true
							}
						}
					}
					if ok && bo.Op == token.MUL && !good || !ok {
						c.fail("unit", fname(f)+"/"+k, cv.Pos(), nil, "%s, configured in milliseconds, is used as a duration without multiplying it by one millisecond", k)
					}
				}
			}
		}
	}
	c.floor("configured durations", 8)
}
