package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "nil-ness dataflow over every function: results of failed calls, failed lookups and nullable fields, against every dereference, method call and type assertion", ruleC11)
}

// derefsRecv: the method uses its pointer receiver (or parameter i).
func derefsParam(f *ssa.Function, i int) bool {
	if f == nil || f.Blocks == nil || i >= len(f.Params) {
		return false
	}
	p := f.Params[i]
	if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	// the entry block is always executed
	for _, in := range f.Blocks[0].Instrs {
		switch v := in.(type) {
		case *ssa.FieldAddr:
			if v.X == p {
				return true
			}
		case *ssa.UnOp:
			if v.Op == token.MUL && v.X == p {
				return true
			}
		}
	}
	return false
}

func ruleC11(c *Ctx) {
	c.rule("absent", "no value that is known to be absent on a path (nil result of a failed call, value of a failed map lookup or of a failed assertion) is dereferenced, asserted without check, or used as a method receiver")
	c.rule("maybe-absent", "a result that is nil exactly when the call failed is dereferenced only on paths where the call is known to have succeeded or the value was compared with nil")
	c.rule("nullable", "a pointer field that a decoder can leave nil is dereferenced only after a comparison with nil on that path")
	c.rule("empty", "the first elements of a list in a response are accessed only where its length is known to be large enough")
	c.p.respTyped = true
	c.assumef("a response that was obtained has the type its callers expect (decided by C19)")
	nullable := c.nullableFields()
	for _, n := range sortedKeys(nullable) {
		c.sample("nullable field " + n)
	}
	c.count("nullable fields", len(nullable))
	lists := c.decodedLists()
	c.count("decoded lists", len(lists))
	for _, f := range c.p.funcs {
		if f.Blocks == nil {
			continue
		}
		f := f
		cfg := &Config{Merge: true, PartPtr: true, MaxState: 60000}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return g.Parent() != nil }
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			// library convention: (value, error) is nil with a non-nil error
			if fn != nil && c.p.inModule(fn) {
				return nil, false
			}
			if fn == nil && site.Common().IsInvoke() && len(c.p.implementers(site.Common())) > 0 {
				return nil, false
			}
			sig := site.Common().Signature()
			if sig.Results().Len() != 2 || !isErrT(sig.Results().At(1).Type()) {
				return nil, false
			}
			rt := sig.Results().At(0).Type()
			switch rt.Underlying().(type) {
			case *types.Pointer, *types.Interface:
			default:
				return nil, false
			}
			t := x.callTerm(st, site, name, args)
			r := mkT(rt, "res", "0", t)
			e := mkT(errType, "res", "1", t)
			return []Outcome{
				{Res: mk("tuple", "", r, tNil), Facts: []Fact{{mkEq(r, tNil), false}}, Tag: name + " succeeded"},
				{Res: mk("tuple", "", tNil, e), Facts: []Fact{{mkEq(e, tNil), false}}, Tag: name + " failed"},
			}, true
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			bad := func(t *Term, what string) {
				nl, kn := st.nilness(t)
				if kn && nl {
					c.fail("absent", fname(f)+"/"+what, instrPos(ev.Site), st.path(), "%s: %s of a value that is absent (nil) on this path", fname(f), what)
					st.dead = true
					return
				}
				if kn {
					return
				}
				if l := fieldLoc(t); l != nil && l.Op == "fld" && nullable[l.Str] {
					c.fail("nullable", fname(f)+"/"+l.Str, instrPos(ev.Site), st.path(), "%s uses %s, which is nil when the broker sends no value, without checking it", fname(f), l.Str)
					st.dead = true
					return
				}
				if t.Op == "fsel" && nullable[t.Str] {
					c.fail("nullable", fname(f)+"/"+t.Str, instrPos(ev.Site), st.path(), "%s uses %s, which is nil when the broker sends no value, without checking it", fname(f), t.Str)
					st.dead = true
				}
			}
			switch ev.Kind {
			case "deref":
				c.count("dereferences checked", 1)
				bad(ev.Loc, "dereference")
			case "assert":
				if ev.Idx == 0 {
					c.count("unchecked assertions", 1)
					bad(ev.Loc, "unchecked type assertion to "+ev.Name)
				}
			case "index":
				k, ok := ev.Val.intVal()
				ia, isAddr := ev.Site.(*ssa.IndexAddr)
				if !ok || !isAddr {
					return
				}
				if _, ok := ia.Index.(*ssa.Const); !ok {
					return
				}
				key := ""
				if l := fieldLoc(ev.Loc); l != nil && l.Op == "fld" {
					key = l.Str
				} else if ev.Loc.Op == "fsel" {
					key = ev.Loc.Str
				}
				if !lists[key] {
					return
				}
				c.count("element accesses checked", 1)
				if st.ival(mkT(types.Typ[types.Int], "app", "len", ev.Loc)).lo <= k {
					c.fail("empty", fname(f)+"/"+key, instrPos(ev.Site), st.path(), "%s accesses element %d of %s, which is empty when the broker sends no element", fname(f), k, key)
					st.dead = true
				}
			case "call":
				if len(ev.Args) == 0 {
					return
				}
				cc, ok := ev.Site.(ssa.CallInstruction)
				if !ok {
					return
				}
				if cc.Common().IsInvoke() && ev.Fn == nil {
					c.count("method calls checked", 1)
					bad(ev.Args[0], "method call "+ev.Name)
				} else if ev.Fn != nil && c.p.inModule(ev.Fn) && derefsParam(ev.Fn, 0) && ev.Fn.Signature.Recv() != nil {
					c.count("method calls checked", 1)
					if nl, kn := st.nilness(ev.Args[0]); kn && nl {
						bad(ev.Args[0], "method call "+ev.Name)
					}
				}
			}
		}
		c.exec(f, cfg)
	}
	c.floor("dereferences checked", 1500)
	c.floor("unchecked assertions", 10)
	c.floor("nullable fields", 3)
}

// nullableFields: pointer-to-basic fields of the structs decoded from responses.
func (c *Ctx) nullableFields() map[string]bool {
	dec := map[string]bool{}
	c.decoded(func(tn string, f *types.Var) { dec[tn] = true })
	out := map[string]bool{}
	for _, pk := range c.p.modPkgs() {
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok || !dec[n] {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				pt, ok := s.Field(i).Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				if _, ok := pt.Elem().Underlying().(*types.Basic); ok {
					out[n+"."+s.Field(i).Name()] = true
				}
			}
		}
	}
	return out
}

// decoded visits the fields of response types and of the structs nested in them.
func (c *Ctx) decoded(visit func(tn string, f *types.Var)) {
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Map:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(typeShort(t), u.Field(i))
				walk(u.Field(i).Type())
			}
		}
	}
	for _, pk := range c.p.modPkgs() {
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && strings.HasSuffix(n, "Response") {
				walk(tn.Type())
			}
		}
	}
}

// decodedLists: slice fields of response types and the structs nested in them.
func (c *Ctx) decodedLists() map[string]bool {
	out := map[string]bool{}
	c.decoded(func(tn string, f *types.Var) {
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				out[tn+"."+f.Name()] = true
			}
		}
	})
	return out
}
