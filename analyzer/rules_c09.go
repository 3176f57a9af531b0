package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "constant propagation of every response's error method over the lattice {zero, known, unknown} of each of its error codes with representative elements (first, inner, last) for every list; dataflow of the reported error to the caller of a request", ruleC09)
}

type codeCell struct {
	path string
	c    *ccell
	t    types.Type
}

func isCodeField(n string, t types.Type) bool {
	k := intKind(t)
	l := strings.ToLower(n)
	return (k == types.Int16 || k == types.Uint16) && (strings.HasSuffix(l, "errorcode") || strings.HasSuffix(l, "errcode") || l == "error")
}

// cbuild makes a value of type t in which every list has three elements and every code is zero.
func cbuild(t types.Type, path string, ptrs bool, codes *[]codeCell, depth int) *cval {
	if depth > 8 {
		return czero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &cval{k: cStruct, t: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c := &ccell{cbuild(f.Type(), path+"."+f.Name(), ptrs, codes, depth+1)}
			if isCodeField(f.Name(), f.Type()) {
				c.v = ckInt(0, f.Type())
				*codes = append(*codes, codeCell{path + "." + f.Name(), c, f.Type()})
			}
			v.sub = append(v.sub, c)
		}
		return v
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &cval{k: cOther, t: t}
		}
		v := &cval{k: cSlice, t: t, i: -1}
		for i, n := range []string{"first", "inner", "last"} {
			_ = i
			v.sub = append(v.sub, &ccell{cbuild(u.Elem(), path+"["+n+"]", ptrs, codes, depth+1)})
		}
		return v
	case *types.Map:
		v := &cval{k: cMap, t: t, m: &cmap{}}
		for _, n := range []string{"a", "b"} {
			k := ckStr("key " + n)
			if isIntTyp(u.Key()) {
				k = ckInt(int64(len(v.m.keys)), u.Key())
			}
			v.m.keys = append(v.m.keys, k)
			v.m.vals = append(v.m.vals, cbuild(u.Elem(), path+"["+n+"]", ptrs, codes, depth+1))
		}
		return v
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok && !ptrs {
			return &cval{k: cNil, t: t}
		}
		return &cval{k: cPtr, cell: &ccell{cbuild(u.Elem(), path, ptrs, codes, depth+1)}}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ckStr("text")
		}
	}
	return czero(t)
}

func isIntTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func ruleC09(c *Ctx) {
	p := c.p
	c.rule("every-code", "with any single error code of a response non-zero, at any position of any list, known to the client or not, its error method returns an error that is or wraps the Kafka error of that code, with and without an accompanying message")
	c.rule("no-false-error", "with all codes zero the error method returns nil")
	c.rule("reported", "a request function that returns a decoded response returns the response's own error with it")
	e := newCEval(p)
	ri := p.typ("Response")
	if ri == nil {
		c.fail("anchor", "Response", token.NoPos, nil, "the interface Response was not found")
		return
	}
	codes := []int64{9999, 32767, -32768}
	for k := range kafkaErrorTable() {
		codes = append(codes, k)
	}
	it, _ := ri.Underlying().(*types.Interface)
	for _, n := range p.core.Pkg.Scope().Names() {
		tn, ok := p.core.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || it == nil {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		recv := types.Type(nt)
		if !types.Implements(nt, it) {
			recv = types.NewPointer(nt)
			if !types.Implements(recv, it) {
				continue
			}
		}
		m := p.ssa.LookupMethod(recv, p.core.Pkg, "Error")
		if m == nil || m.Blocks == nil {
			continue
		}
		var all []codeCell
		cbuild(nt, n, true, &all, 0)
		c.count("response types", 1)
		c.count("error codes", len(all))
		ptr := false
		if _, ok := recv.(*types.Pointer); ok {
			ptr = true
		}
		run := func(rule string, which int, code int64, ptrs bool, judge func(cpath, types.Type) string) {
			desc := "all codes zero"
			what := n
			ps, why := e.paths(m, func() []*cval {
				var cells []codeCell
				v := cbuild(nt, n, ptrs, &cells, 0)
				if which >= 0 {
					cells[which].c.v = cwrap(code, cells[which].t)
				}
				if ptr {
					v = &cval{k: cPtr, cell: &ccell{v}}
				}
				return []*cval{v}
			})
			if which >= 0 {
				desc = fmt.Sprintf("%s = %d", all[which].path, code)
				what = generic(all[which].path)
			}
			if why != "" {
				c.fail("undecided", what, m.Pos(), nil, "%s cannot be decided with %s: %s", fname(m), desc, why)
				return
			}
			c.count("evaluations", 1)
			for _, cp := range ps {
				msg := cp.panic
				if msg == "" {
					msg = judge(cp, nt)
				}
				if msg != "" {
					pt := map[bool]string{true: "", false: " and no message"}[ptrs]
					c.fail(rule, what, m.Pos(), nil, "%s.Error with %s%s: %s", n, desc, pt, msg)
					return
				}
			}
		}
		seenGen := map[string]bool{}
		for _, ptrs := range []bool{true, false} {
			run("no-false-error", -1, 0, ptrs, func(cp cpath, _ types.Type) string {
				if cp.ret.k != cNil {
					return "returns " + cp.ret.String()
				}
				return ""
			})
			for i := range all {
				some := []int64{3, 9999}
				if !seenGen[generic(all[i].path)] || i == len(all)-1 {
					seenGen[generic(all[i].path)] = true
					some = codes
				}
				for _, code := range some {
					run("every-code", i, code, ptrs, func(cp cpath, _ types.Type) string {
						if !isKafkaErr(cp.ret, ckInt(code, types.Typ[types.Int16])) {
							return "returns " + cp.ret.String() + ", which does not carry the Kafka error of the code"
						}
						return ""
					})
				}
			}
		}
	}
	c.floor("response types", 26)
	c.floor("error codes", 50)
	// the error of a decoded response goes to the caller
	n := 0
	for _, f := range p.funcs {
		s := f.Signature
		if f.Pkg != p.core || f.Parent() != nil || s.Results().Len() != 2 || !types.Identical(s.Results().At(0).Type(), ri) || !isErrT(s.Results().At(1).Type()) {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || typeShort(recvType(f)) != "Broker" {
			continue
		}
		n++
		f := f
		cfg := &Config{Merge: true, PartAll: true, PartPtr: true}
		inl := p.reaches(func(g *ssa.Function) bool { return callsMethod(g, "ReadAndParse") }, false)
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return inl[g] && typeShort(recvType(g)) == "Broker" && g.Name() != "createConnAndAuth"
		}
		cfg.Hook = func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if strings.HasSuffix(name, "Response.Error") && len(args) == 1 {
				a := args[0]
				er := mkT(errType, "app", "resperr", a)
				return []Outcome{{Res: tNil, Facts: []Fact{{mkEq(er, tNil), true}}, Set: map[string]*Term{"asked": a}},
					{Res: er, Facts: []Fact{{mkEq(er, tNil), false}}, Set: map[string]*Term{"asked": a, "owed": er}}}, true
			}
			return nil, false
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind == "return" && st.depth() == 1 && ev.Res != nil && ev.Res.Op == "tuple" && len(ev.Res.Args) == 2 {
				r, er := ev.Res.Args[0], ev.Res.Args[1]
				if nl, kn := st.nilness(r); kn && nl && st.get("owed") == nil {
					return
				}
				if nl, kn := st.nilness(er); kn && !nl && st.get("owed") == nil {
					return
				}
				c.count("success returns", 1)
				if o := st.get("owed"); st.get("asked") == nil || o != nil && !er.contains(o) {
					c.fail("reported", fname(f), instrPos(ev.Site), st.path(), "%s returns a response without returning the error the response reports", fname(f))
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("request functions", n)
	c.floor("request functions", 1)
	c.floor("success returns", 1)
	c.cfuncs(e)
}

func generic(path string) string {
	for _, n := range []string{"[first]", "[inner]", "[last]", "[a]", "[b]"} {
		path = strings.ReplaceAll(path, n, "[]")
	}
	return path
}
