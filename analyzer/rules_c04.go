package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- shared facts about request types

// requestAPIs: for every struct type embedding RequestHeader, the constant API keys its constructors store.
func (p *Prog) requestAPIs() map[string]map[string]bool {
	if p.apis != nil {
		return p.apis
	}
	res := map[string]map[string]bool{}
	p.apis = res
	// functions that put a parameter of theirs into the header
	helper := map[*ssa.Function]map[int]bool{}
	for changed := true; changed; {
		changed = false
		mark := func(f *ssa.Function, v ssa.Value) {
			for i, q := range f.Params {
				if v == q && !helper[f][i] {
					if helper[f] == nil {
						helper[f] = map[int]bool{}
					}
					helper[f][i] = true
					changed = true
				}
			}
		}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.Store:
						if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "RequestHeader.APIKey" {
							mark(f, i.Val)
						}
					case *ssa.Call:
						if g := i.Call.StaticCallee(); g != nil {
							for k := range helper[g] {
								if k < len(i.Call.Args) {
									mark(f, i.Call.Args[k])
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		var apis []string
		var tys []string
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "RequestHeader.APIKey" {
						if k, ok := i.Val.(*ssa.Const); ok && k.Value != nil {
							apis = append(apis, k.Value.String())
						}
					}
				case *ssa.Call:
					if g := i.Call.StaticCallee(); g != nil {
						for k := range helper[g] {
							if k < len(i.Call.Args) {
								if c, ok := i.Call.Args[k].(*ssa.Const); ok && c.Value != nil {
									apis = append(apis, c.Value.String())
								}
							}
						}
					}
				case *ssa.Alloc:
					if e := i.Type().Underlying().(*types.Pointer).Elem(); embedsHeader(e) {
						tys = append(tys, typeShort(e))
					}
				}
			}
		}
		for _, t := range tys {
			for _, a := range apis {
				if res[t] == nil {
					res[t] = map[string]bool{}
				}
				res[t][a] = true
			}
		}
	}
	return res
}

func embedsHeader(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() && f.Name() == "RequestHeader" {
			return true
		}
	}
	return false
}

// parserFields: which uint16 field of the read parser selects the decoder (api) and which is the version.
func parserFields(c *Ctx, parse *ssa.Function) (api, ver string) {
	st, ok := recvType(parse).Underlying().(*types.Struct)
	if !ok {
		if p, isp := recvType(parse).Underlying().(*types.Pointer); isp {
			st, ok = p.Elem().Underlying().(*types.Struct)
		}
	}
	if !ok {
		return
	}
	tn := typeShort(recvType(parse))
	cmp := map[string]bool{}
	for _, b := range parse.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.EQL {
				if k := loadedField(bo.X); k != "" {
					cmp[k] = true
				}
			}
			if l, ok := in.(*ssa.Lookup); ok {
				if k := loadedField(l.Index); k != "" {
					cmp[k] = true
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if types.TypeString(f.Type(), nil) != "uint16" {
			continue
		}
		if cmp[tn+"."+f.Name()] {
			api = f.Name()
		} else {
			ver = f.Name()
		}
	}
	if api == "" || ver == "" {
		c.fail("anchor", tn, parse.Pos(), nil, "cannot tell the API and version fields of %s apart", tn)
	}
	return
}

// loadedField: v is a load of Type.Field.
func loadedField(v ssa.Value) string {
	switch i := v.(type) {
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
			return fieldKey(fa)
		}
	case *ssa.Field:
		return typeShort(i.X.Type()) + "." + fieldName(i.X.Type(), i.Field)
	case *ssa.Convert:
		return loadedField(i.X)
	case *ssa.ChangeType:
		return loadedField(i.X)
	}
	return ""
}

// encodeStoresVersion: the Encode method of the type sets the header version from its parameter.
func encodeStoresVersion(p *Prog, kind string) bool {
	f := p.fn(kind + ".Encode")
	if f == nil || len(f.Blocks) == 0 || len(f.Params) != 2 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == "RequestHeader.APIVersion" && s.Val == f.Params[1] {
				return true
			}
		}
	}
	return false
}

func ruleC04(c *Ctx) {
	c.rule("fresh-id", "before each Encode the request's correlation id is set to the broker's counter after an increment not used by an earlier request; the counter is otherwise only written when a broker is constructed")
	c.rule("one-version", "the version given to Encode is the version negotiated on this broker for the request's own API, and the header version is set to the same value")
	c.rule("matching-decoder", "the response is parsed with the API key of the request just sent and the version it was encoded with, and every decoder gets that version")
	k := newConnCfg(c)
	if k == nil {
		return
	}
	ex := k.ex
	apis := c.p.requestAPIs()
	apiF, verF := parserFields(c, k.parse)
	if apiF == "" || verF == "" {
		return
	}
	ptn := typeShort(recvType(k.parse))
	// the counter
	var cidKey string
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				nm := ""
				if cc.IsInvoke() {
					nm = cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					nm = g.Name()
				}
				if nm == "SetCorrelationID" && len(cc.Args) > 0 {
					if kf := counterField(cc.Args[len(cc.Args)-1], 0); strings.HasPrefix(kf, "Broker.") {
						cidKey = kf
					}
				}
			}
		}
	}
	if cidKey == "" {
		c.fail("fresh-id", "SetCorrelationID", token.NoPos, nil, "no request gets its correlation id from a counter of the broker")
		return
	}
	// all writes of the counter
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != cidKey {
					continue
				}
				c.count("counter writes", 1)
				if al, ok := fa.X.(*ssa.Alloc); ok && al.Heap {
					continue
				}
				if !isIncrement(s, cidKey) {
					c.fail("fresh-id", fname(f)+"/counter", s.Pos(), nil, "the correlation id counter is changed other than by a positive constant increment")
				}
			}
		}
	}
	same := func(v *Term, r *Term, kind string) bool {
		if v.Op != "app" || v.Str != "negotiate" || len(v.Args) != 2 {
			return false
		}
		if v.Args[1] == apiTerm(r) {
			return true
		}
		if kind == "?" || len(apis[kind]) != 1 {
			return false
		}
		return v.Args[1].isConst() && apis[kind][v.Args[1].Str]
	}
	k.event = func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case "store":
			if ev.Loc.Op != "fld" {
				return
			}
			switch ev.Loc.Str {
			case cidKey:
				if !freshObj(ev.Loc.Args[0]) || ev.Val != tInt(0) {
					st.set("cid", ev.Val)
				}
			case "RequestHeader.CorrelationID":
				setID(st, reqOf(ev.Loc.Args[0]), ev.Val)
			case "RequestHeader.APIVersion":
				st.set("hv", ev.Val)
				st.set("hvreq", reqOf(ev.Loc.Args[0]))
			}
		case "call":
			if strings.HasSuffix(ev.Name, ".SetCorrelationID") && len(ev.Args) == 2 {
				setID(st, reqOf(ev.Args[0]), ev.Args[1])
			}
			if strings.HasSuffix(ev.Name, ".SetVersion") && len(ev.Args) == 2 {
				st.set("hv", ev.Args[1])
				st.set("hvreq", reqOf(ev.Args[0]))
			}
			if r, v, kind, ok := encodeCall(ev); ok {
				c.count("encode sites", 1)
				if cid := st.get("cid"); cid == nil || st.get("idreq") != r || st.get("idval") != cid {
					c.fail("fresh-id", fname(ev.Site.Parent())+"/"+kind, instrPos(ev.Site), st.path(), "a request is encoded without getting a new correlation id from the broker's counter on this path (id of %v, wanted %v)", st.get("idreq"), r)
				}
				st.set("idreq", nil)
				st.set("cid", nil)
				if !same(v, r, kind) {
					c.fail("one-version", fname(ev.Site.Parent())+"/"+kind+"/encode", instrPos(ev.Site), st.path(), "a request is encoded for version %s, which is not the version negotiated for its own API", v)
				}
				if !(st.get("hvreq") == r && st.get("hv") == v) && !encodeStoresVersion(c.p, kind) {
					c.fail("one-version", fname(ev.Site.Parent())+"/"+kind+"/header", instrPos(ev.Site), st.path(), "the version in the header of the request is not the one its body is encoded for")
				}
				st.set("sent", r)
				st.set("sentver", v)
			}
			if ev.Fn == k.parse {
				c.count("parse sites", 1)
				rc := ev.Args[0]
				g := func(fl string) *Term {
					if rc.Op == "struct" || rc.Op == "zero" {
						if i := fieldIndexOf(rc, ptn+"."+fl); i >= 0 {
							return mkFsel(rc, types.Typ[types.Uint16], ptn+"."+fl, i)
						}
					}
					if rc.Op == "alloc" || rc.Op == "fld" {
						return st.load(mkFld(rc, nil, ptn+"."+fl), types.Typ[types.Uint16])
					}
					return mkFsel(rc, types.Typ[types.Uint16], ptn+"."+fl, 0)
				}
				sent, sv := st.get("sent"), st.get("sentver")
				if sent == nil || g(apiF) != apiTerm(sent) {
					c.fail("matching-decoder", fname(ev.Site.Parent())+"/api", instrPos(ev.Site), st.path(), "the response is parsed as API %s, which is not the API of the request just sent", g(apiF))
				}
				if sv == nil || g(verF) != sv {
					c.fail("matching-decoder", fname(ev.Site.Parent())+"/version", instrPos(ev.Site), st.path(), "the response is parsed as version %s, but the request was encoded for another one", g(verF))
				}
			}
		}
	}
	for _, f := range ex.roots {
		cfg := k.config(true)
		h := cfg.Hook
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if strings.HasPrefix(name, "sync/atomic.Add") && len(args) == 2 && args[0].Op == "fld" && args[0].Str == cidKey {
				t := x.callTerm(st, site, name, args)
				r := mkT(types.Typ[types.Uint32], "res", "0", t)
				if d, ok := args[1].intVal(); !ok || d <= 0 {
					return nil, false
				}
				return []Outcome{{Res: r, Set: map[string]*Term{"cid": r}}}, true
			}
			return h(x, st, name, fn, args, site)
		}
		c.exec(f, cfg)
	}
	c.floor("encode sites", 4)
	c.floor("parse sites", 2)
	// Parse: decoders get the version field
	for _, b := range k.parse.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Common().StaticCallee()
			if g == nil || pkgOf(g) != pkgOf(k.parse) {
				continue
			}
			for i, a := range call.Common().Args {
				if types.TypeString(a.Type(), nil) != "uint16" {
					continue
				}
				c.count("decoder version arguments", 1)
				if loadedField(a) != ptn+"."+verF {
					c.fail("matching-decoder", "Parse/"+fname(g)+"/"+itoa(i), call.Pos(), nil, "decoder %s is not given the negotiated version", fname(g))
				}
			}
		}
	}
	c.floor("decoder version arguments", 10)
	ruleStreamVersion(c, k)
}

func setID(st *State, r, v *Term) {
	st.set("idreq", r)
	st.set("idval", v)
}

func counterField(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	if k := loadedField(v); k != "" {
		return k
	}
	switch i := v.(type) {
	case *ssa.Call:
		if g := i.Common().StaticCallee(); g != nil {
			if strings.HasPrefix(funcName(g), "sync/atomic.Add") {
				if fa, ok := i.Common().Args[0].(*ssa.FieldAddr); ok {
					return fieldKey(fa)
				}
			}
			if len(g.Blocks) > 0 {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						if k := counterField(r.Results[0], d+1); k != "" {
							return k
						}
					}
				}
			}
		}
	case *ssa.BinOp:
		return counterField(i.X, d+1)
	case *ssa.Convert:
		return counterField(i.X, d+1)
	}
	return ""
}

func isIncrement(s *ssa.Store, key string) bool {
	b, ok := s.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.String() == "0" || strings.HasPrefix(k.Value.String(), "-") {
		return false
	}
	return loadedField(x) == key
}

// ruleStreamVersion: the decoder of a streamed fetch response gets the version negotiated for fetch on the broker it was fetched from.
func ruleStreamVersion(c *Ctx, k *connCfg) {
	streams := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		return typeShort(recvType(f)) == "Broker" && r.Len() > 0 && types.TypeString(r.At(0).Type(), nil) == "io.Reader" && k.ex.reach[f] && !k.ex.needs[f]
	}
	n := 0
	for _, f := range c.p.funcs {
		calls := false
		for _, g := range c.p.callees(f, false) {
			calls = calls || streams(g)
		}
		if !calls || streams(f) {
			continue
		}
		cfg := &Config{Merge: true}
		mkDec := c.p.reaches(func(g *ssa.Function) bool { return storesField(g, "fetchResponseStreamDecoder") }, false)
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return mkDec[g] && typeShort(recvType(g)) != "fetchResponseStreamDecoder"
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if fn == k.nego {
				return []Outcome{{Res: mkT(types.Typ[types.Uint16], "app", "negotiate", args...)}}, true
			}
			return nil, false
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				if ev.Fn != nil && streams(ev.Fn) {
					st.set("from", ev.Args[0])
				}
			case "store":
				if ev.Loc.Op == "fld" && strings.HasPrefix(ev.Loc.Str, "fetchResponseStreamDecoder.") && isIntType(ev.Site, "uint16") {
					n++
					v := ev.Val
					if !(v.Op == "app" && v.Str == "negotiate" && v.Args[0] == st.get("from") && (v.Args[1] == tInt(1))) {
						c.fail("matching-decoder", fname(f)+"/stream", instrPos(ev.Site), st.path(), "a streamed fetch response is decoded as version %s, not the one negotiated for fetch on the broker it came from", v)
					}
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("stream decoder versions", n)
	c.floor("stream decoder versions", 1)
}

func isIntType(in ssa.Instruction, t string) bool {
	s, ok := in.(*ssa.Store)
	return ok && types.TypeString(s.Val.Type(), nil) == t
}

func storesField(f *ssa.Function, typ string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa), typ+".") {
					return true
				}
			}
		}
	}
	return false
}
