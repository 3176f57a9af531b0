package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "must-report dataflow: an obligation is opened by every failing outcome of a fallible call and has to be discharged by a returned error or a later success of the same call", ruleC10)
}

// owed: obligations opened by failing calls.
type owed struct {
	c *Ctx
	// fallible: key of the call if its failure has to be reported
	fallible func(st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) string
	inline   func(g *ssa.Function) bool
	stops    map[string]bool
	sticky   bool // a later success does not make up for a failure
	flat     bool // do not remember which error it was (fewer states in loops)
	sites    map[string][]ssa.Instruction
	// atReturn is called for every return of the root with the keys still owed
	atReturn func(x *Exec, st *State, ev *Event, keys []string)
	event    func(x *Exec, st *State, ev *Event)
	hook     func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool)
}

const owedP = "owed:"

func (o *owed) keys(st *State) []string {
	var ks []string
	for _, k := range sortedKeys(st.mon) {
		if strings.HasPrefix(k, owedP) {
			ks = append(ks, strings.TrimPrefix(k, owedP))
		}
	}
	return ks
}

func (o *owed) config() *Config {
	cfg := &Config{Merge: true, PartPtr: true}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
		return g.Parent() != nil || o.inline != nil && o.inline(g)
	}
	cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		if o.hook != nil {
			if outs, ok := o.hook(x, st, name, fn, args, site); ok {
				return outs, ok
			}
		}
		key := o.fallible(st, name, fn, args, site)
		if key == "" {
			return nil, false
		}
		sig := site.Common().Signature()
		n := sig.Results().Len()
		t := x.callTerm(st, site, name, args)
		if fn != nil && o.c.p.inModule(fn) {
			for _, k := range sortedKeys(x.p.storedBy(fn)) {
				st.havocField(k, t)
			}
		}
		// shapes of the results on success and failure
		var tuples [][]string
		if fn != nil && o.c.p.inModule(fn) && fn.Blocks != nil {
			tuples = o.c.p.summary(fn).tuples
		} else if fn == nil && site.Common().IsInvoke() {
			for _, g := range o.c.p.implementers(site.Common()) {
				tuples = append(tuples, o.c.p.summary(g).tuples...)
			}
		}
		shape := func(i int, failed bool) string {
			s := ""
			for _, tp := range tuples {
				if len(tp) != n {
					return "?"
				}
				e := tp[n-1]
				if failed && e == "nil" || !failed && (e == "nonnil" || strings.HasPrefix(e, "iface:")) {
					continue
				}
				v := tp[i]
				if strings.HasPrefix(v, "iface:") {
					v = "nonnil"
				}
				if s == "" {
					s = v
				} else if s != v {
					return "?"
				}
			}
			return s
		}
		mkOut := func(failed bool) Outcome {
			var rs []*Term
			var fs []Fact
			for i := 0; i < n-1; i++ {
				r := mkT(sig.Results().At(i).Type(), "res", itoa(i), t)
				if nilable(sig.Results().At(i).Type()) {
					switch shape(i, failed) {
					case "nil":
						r = tNil
					case "nonnil":
						fs = append(fs, Fact{mkEq(r, tNil), false})
					}
				}
				rs = append(rs, r)
			}
			e := tNil
			if failed {
				e = mkT(errType, "res", itoa(n-1), t)
				fs = append(fs, Fact{mkEq(e, tNil), false})
			}
			rs = append(rs, e)
			res := rs[0]
			if n > 1 {
				res = mk("tuple", "", rs...)
			}
			out := Outcome{Res: res, Facts: fs}
			if failed {
				out.Set = map[string]*Term{owedP + key: e}
				if o.flat {
					out.Set[owedP+key] = tTrue
					if len(o.keys(st)) > 0 {
						out.Set = nil
					}
				}
				out.Tag = key + " failed"
			} else {
				if !o.sticky {
					out.Set = map[string]*Term{owedP + key: nil}
				}
				out.Tag = key + " succeeded"
			}
			return out
		}
		o.c.count("fallible calls", 1)
		if o.sites == nil {
			o.sites = map[string][]ssa.Instruction{}
		}
		known := false
		for _, s := range o.sites[key] {
			known = known || s == ssa.Instruction(site)
		}
		if !known {
			o.sites[key] = append(o.sites[key], site)
		}
		return []Outcome{mkOut(false), mkOut(true)}, true
	}
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case "branch":
			v, want := ev.Val, ev.Idx == 1
			for v.Op == "not" {
				v, want = v.Args[0], !want
			}
			if l := fieldLoc(v); want && l != nil && l.Op == "fld" && o.stops[l.Str] {
				// the caller asked to stop: nothing is owed any more
				for _, k := range o.keys(st) {
					st.set(owedP+k, nil)
				}
			}
			if want && (strings.Contains(v.Str, "is:KafkaError") || v.Op == "res" && strings.HasPrefix(v.Args[0].Str, "errors.As")) {
				// an error code inside a response that did arrive: the response may still be used
				for _, k := range o.keys(st) {
					if e := st.get(owedP + k); v.contains(e) && e.Op == "res" {
						st.set(owedP+k, nil)
						st.set("soft:"+k, e.Args[0])
					}
				}
			}
		case "return":
			if o.atReturn != nil {
				o.atReturn(x, st, ev, o.keys(st))
			}
		}
		if o.event != nil {
			o.event(x, st, ev)
		}
	}
	return cfg
}

// stopFlags: boolean fields set to true by closing and stopping functions.
func (p *Prog) stopFlags() map[string]bool {
	out := map[string]bool{}
	for _, f := range p.funcs {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		n := strings.ToLower(g.Name())
		if !strings.Contains(n, "close") && !strings.Contains(n, "stop") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
					out[fieldKey(fa)] = true
				}
			}
		}
	}
	return out
}

// errUsed: some caller looks at the error result of f (or f is exported, or called dynamically).
func (p *Prog) errUsed(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false
	}
	if o := f.Object(); o != nil && o.Exported() {
		return true
	}
	n := f.Signature.Results().Len()
	for _, g := range p.callersOf()[f] {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(*ssa.Call)
				if !ok || k.Call.StaticCallee() != f {
					continue
				}
				for _, r := range *k.Referrers() {
					if n == 1 {
						return true
					}
					if e, ok := r.(*ssa.Extract); ok && e.Index == n-1 && len(*e.Referrers()) > 0 {
						return true
					}
					if _, ok := r.(*ssa.Return); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func errLast(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrT(sig.Results().At(n-1).Type())
}

func lastRes(t *Term) *Term {
	if t.Op == "tuple" {
		if len(t.Args) == 0 {
			return nil
		}
		return t.Args[len(t.Args)-1]
	}
	return t
}

func ruleC10(c *Ctx) {
	c.rule("reported", "on every path of a function that returns an error, after a connection, metadata or request call failed (and was neither followed by a successful call of the same function nor by a stop of the consumer), the returned error is non-nil")
	c.rule("broker-error", "a function that gets a response from the wire and returns it (or something taken from it) as a success has consulted the error codes of that response")
	ex := newExchange(c, false)
	if ex == nil {
		return
	}
	dial := c.p.reaches(dials, false)
	set := map[*ssa.Function]bool{}
	for f := range ex.reach {
		set[f] = true
	}
	for f := range dial {
		set[f] = true
	}
	resp := c.p.typ("Response")
	if resp == nil {
		c.fail("anchor", "Response", 0, nil, "interface Response not found")
		return
	}
	ri, _ := resp.Underlying().(*types.Interface)
	isResp := func(t types.Type) bool {
		if isNamed(t, "Response") {
			return true
		}
		return ri != nil && t != nil && types.Implements(t, ri)
	}
	fall := map[*ssa.Function]bool{}
	raw := map[*ssa.Function]bool{} // returns responses whose error codes were not consulted
	stops := c.p.stopFlags()
	for _, k := range sortedKeys(stops) {
		c.sample("stop flag " + k)
	}
	var root *ssa.Function
	o := &owed{c: c, stops: stops}
	isRaw := func(fn *ssa.Function, site ssa.CallInstruction) bool {
		if fn != nil {
			return raw[fn]
		}
		if site.Common().IsInvoke() {
			for _, g := range c.p.implementers(site.Common()) {
				if raw[g] {
					return true
				}
			}
		}
		return false
	}
	o.hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
		sig := site.Common().Signature()
		if strings.HasSuffix(name, ".Error") && sig.Params().Len() == 0 && sig.Results().Len() == 1 && isErrT(sig.Results().At(0).Type()) {
			if len(args) == 1 || site.Common().IsInvoke() {
				a := args[0]
				for a.Op == "iface" || a.Op == "app" && strings.HasPrefix(a.Str, "assert:") {
					a = a.Args[0]
				}
				if r := st.get("raw"); r != nil && (a == r || a.contains(r)) {
					st.set("raw", nil)
				}
				e := mkT(errType, "app", "resperr", a)
				if n, kn := st.nilness(e); kn {
					if n {
						return []Outcome{{Res: tNil}}, true
					}
					return []Outcome{{Res: e}}, true
				}
				return []Outcome{
					{Res: tNil, Facts: []Fact{{mkEq(e, tNil), true}}, Tag: "no error code in the response"},
					{Res: e, Facts: []Fact{{mkEq(e, tNil), false}}, Set: map[string]*Term{owedP + "the broker's answer": e}, Tag: "error code in the response"},
				}, true
			}
		}
		return nil, false
	}
	o.fallible = func(st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) string {
		sig := site.Common().Signature()
		if !errLast(sig) {
			return ""
		}
		if fn != nil && c.p.inModule(fn) {
			if fall[fn] {
				return fname(fn)
			}
			return ""
		}
		if isDialName(name) {
			return name
		}
		if fn == nil && site.Common().IsInvoke() {
			for _, g := range c.p.implementers(site.Common()) {
				if fall[g] {
					return name
				}
			}
		}
		if ow, _ := ex.m.ioEvent(st, &Event{Kind: "call", Name: name, Fn: fn, Args: args, Site: site}); ow != nil && isIO(name) {
			return name
		}
		return ""
	}
	o.event = func(x *Exec, st *State, ev *Event) {
		if ev.Kind == "result" && ev.Res != nil {
			k, ok := ev.Site.(ssa.CallInstruction)
			if !ok || !errLast(k.Common().Signature()) || k.Common().Signature().Results().Len() != 2 || !isResp(k.Common().Signature().Results().At(0).Type()) {
				return
			}
			if ev.Res.Op == "tuple" && ev.Res.Args[1] == tNil && isRaw(k.Common().StaticCallee(), k) {
				st.set("raw", ev.Res.Args[0])
			}
		}
	}
	o.atReturn = func(x *Exec, st *State, ev *Event, keys []string) {
		e := lastRes(ev.Res)
		nl, kn := st.nilness(e)
		for _, k := range sortedKeys(st.mon) {
			if strings.HasPrefix(k, "soft:") && (!kn || nl) && !ev.Res.contains(st.get(k)) {
				keys = append(keys, strings.TrimPrefix(k, "soft:"))
			}
		}
		if len(keys) > 0 {
			c.count("failure paths", 1)
			if kn && !nl {
				fall[root] = true
				return
			}
			if !c.p.errUsed(root) {
				return
			}
			c.fail("reported", fname(root)+"/"+keys[0], instrPos(ev.Site), st.path(), "%s can return without error although %s failed", fname(root), strings.Join(keys, ", "))
			return
		}
		if r := st.get("raw"); r != nil && (!kn || nl) {
			// the response is handed on unchecked
			if len(ev.Res.Args) == 2 && isResp(root.Signature.Results().At(0).Type()) && isNamed(root.Signature.Results().At(0).Type(), "Response") && ev.Res.Args[0] == r {
				raw[root] = true
				return
			}
			c.fail("broker-error", fname(root), instrPos(ev.Site), st.path(), "%s returns without error although the error codes of the response were not consulted", fname(root))
		}
	}
	// decoding is where responses come from
	for _, f := range c.p.funcs {
		if f.Name() == "Parse" && f.Signature.Results().Len() == 2 && isNamed(f.Signature.Results().At(0).Type(), "Response") {
			raw[f] = true
			fall[f] = true
		}
	}
	n := 0
	for _, f := range c.p.bottomUp(set) {
		if !errLast(f.Signature) || f.Blocks == nil || f.Parent() != nil || isCodec(f) || raw[f] {
			continue
		}
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath {
			continue
		}
		root = f
		n++
		c.exec(f, o.config())
	}
	c.count("functions that report errors", n)
	c.count("functions whose failure is an obligation", len(fall))
	c.floor("functions that report errors", 30)
	c.floor("functions whose failure is an obligation", 25)
	c.floor("failure paths", 40)
	for f := range raw {
		if f.Object() != nil && f.Object().Exported() && typeShort(recvType(f)) == "Broker" {
			c.fail("broker-error", fname(f)+"/raw", f.Pos(), nil, "%s reports success without consulting the error codes of the response; its callers rely on it", fname(f))
		}
	}
	if f := c.anchor("Broker.RequestAndGet"); f != nil && !fall[f] {
		c.fail("reported", "Broker.RequestAndGet/obligation", f.Pos(), nil, "no failure path of RequestAndGet was found")
	}
}
