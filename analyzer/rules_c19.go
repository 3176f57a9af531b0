package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "constant evaluation of the response dispatch per API key, and def-use analysis from every type assertion on a response back to the request that produced it", ruleC19)
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath && n.Obj().Name() == name
}

// decodedType: the dynamic type of a response of the API, per version
func (p *Prog) decodedType(api, ver int64) (types.Type, string) {
	_, v, st := p.decodeLayout(api, ver)
	if st == nil || v == nil || v.k != vTuple || len(v.a) != 2 {
		return nil, "no result can be derived"
	}
	var t types.Type
	for _, d := range flatAlt(v.a[0]) {
		switch {
		case d.k == vIface && d.t != nil:
			if t != nil && !types.Identical(t, d.t) {
				return nil, fmt.Sprintf("both %s and %s", t, d.t)
			}
			t = d.t
		case d.k == vNil:
		default:
			return nil, "an unknown value " + d.String()
		}
	}
	if t == nil {
		return nil, "nothing"
	}
	return t, ""
}

func ruleC19(c *Ctx) {
	p := c.p
	c.rule("decoder", "for the API key of every request type, in every version, the dispatch ends in a decoder whose result has one type, and that type is no other API's")
	c.rule("asserted", "every type assertion on a response names exactly the type that is decoded for the request whose response it is")
	c.rule("unknown", "a response of an API key without decoder is an error")
	_, tab := p.versionTable()
	apis := p.requestAPIs()
	typeOf := map[int64]types.Type{}
	owner := map[string]int64{}
	for _, tn := range sortedKeys(apis) {
		for _, k := range sortedKeys(apis[tn]) {
			a, _ := strconv.ParseInt(k, 10, 64)
			if a == 1 {
				continue // fetch responses are decoded from the stream (C18)
			}
			vs := tab[a]
			if len(vs) == 0 {
				vs = []int64{0}
			}
			for _, v := range vs {
				t, why := p.decodedType(a, v)
				c.count("dispatched", 1)
				if t == nil {
					c.fail("decoder", fmt.Sprintf("%s v%d", tn, v), token.NoPos, nil, "the response to a %s (API %d version %d) is decoded as %s", tn, a, v, why)
					continue
				}
				if o := typeOf[a]; o != nil && !types.Identical(o, t) {
					c.fail("decoder", fmt.Sprintf("%s v%d", tn, v), token.NoPos, nil, "responses of API %d are decoded as %s or %s, depending on the version", a, typeShort(o), typeShort(t))
				}
				typeOf[a] = t
				if o, ok := owner[t.String()]; ok && o != a {
					c.fail("decoder", fmt.Sprintf("%s v%d", tn, v), token.NoPos, nil, "responses of API %d and of API %d are both decoded as %s", a, o, typeShort(t))
				}
				owner[t.String()] = a
			}
		}
	}
	// no decoder: an error
	for _, a := range []int64{9999, 6000} {
		_, v, st := p.decodeLayout(a, 0)
		c.count("unknown keys", 1)
		if st == nil || v == nil || v.k != vTuple || len(v.a) != 2 {
			continue
		}
		for _, d := range flatAlt(v.a[1]) {
			if d.k == vNil {
				c.fail("unknown", fmt.Sprintf("API %d", a), token.NoPos, nil, "a response of API %d, which has no decoder, is not an error", a)
			}
		}
	}
	// type assertions
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !isNamed(ta.X.Type(), "Response") {
					continue
				}
				if _, isI := ta.AssertedType.Underlying().(*types.Interface); isI {
					continue
				}
				c.count("assertions", 1)
				c.funcs[fname(f)] = true
				reqs := map[string]bool{}
				p.requestsBehind(ta.X, reqs, map[ssa.Value]bool{}, 0)
				if len(reqs) == 0 {
					continue
				}
				want := map[string]bool{}
				for tn := range reqs {
					for k := range apis[tn] {
						a, _ := strconv.ParseInt(k, 10, 64)
						if t := typeOf[a]; t != nil {
							want[typeShort(t)] = true
							if types.Identical(t, ta.AssertedType) {
								want = map[string]bool{}
								goto next
							}
						}
					}
				}
				if len(want) > 0 {
					c.fail("asserted", fname(f)+" "+typeShort(ta.AssertedType), ta.Pos(), nil,
						"%s takes the response to a %s for a %s; it is decoded as %s", fname(f), strings.Join(sortedKeys(reqs), "/"), typeShort(ta.AssertedType), strings.Join(sortedKeys(want), "/"))
				}
			next:
			}
		}
	}
	c.floor("dispatched", 25)
	c.floor("assertions", 10)
}

// requestsBehind collects the request types whose responses v may be
func (p *Prog) requestsBehind(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 6 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.requestsBehind(e, out, seen, d)
		}
	case *ssa.Extract:
		p.requestsBehind(x.Tuple, out, seen, d)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					p.requestsBehind(s.Val, out, seen, d)
				}
			}
		}
	case *ssa.Call:
		n := len(out)
		for _, a := range x.Call.Args {
			if isNamed(a.Type(), "Request") {
				p.requestTypes(a, out, map[ssa.Value]bool{}, d)
			}
		}
		if len(out) > n {
			return
		}
		if g := x.Call.StaticCallee(); g != nil && p.inModule(g) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, q := range r.Results {
						if isNamed(q.Type(), "Response") {
							p.requestsBehind(q, out, seen, d+1)
						}
					}
				}
			}
		}
	}
}

func (p *Prog) requestTypes(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 6 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		out[typeShort(deref(x.X.Type()))] = true
	case *ssa.ChangeInterface:
		p.requestTypes(x.X, out, seen, d)
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.requestTypes(e, out, seen, d)
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					p.requestTypes(s.Val, out, seen, d)
				}
			}
		}
	case *ssa.Call, *ssa.Extract:
		var call *ssa.Call
		if e, ok := x.(*ssa.Extract); ok {
			call, _ = e.Tuple.(*ssa.Call)
		} else {
			call = x.(*ssa.Call)
		}
		if call == nil {
			return
		}
		if g := call.Call.StaticCallee(); g != nil && p.inModule(g) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, q := range r.Results {
						if isNamed(q.Type(), "Request") {
							p.requestTypes(q, out, seen, d+1)
						}
					}
				}
			}
		}
	}
}
