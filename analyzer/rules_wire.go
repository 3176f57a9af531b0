package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encodeLayout runs the Encode method of request type tn for one API key and version.
func (p *Prog) encodeLayout(tn string, api, version int64) (*W, *V, *wst) {
	return p.encodeLayoutWith(tn, api, version, nil)
}

func (p *Prog) encodeLayoutWith(tn string, api, version int64, more func(loc string, t types.Type) *V) (*W, *V, *wst) {
	fn := p.encodeMethod(tn)
	if fn == nil {
		return nil, nil, nil
	}
	w := newW(p)
	w.symf = func(loc string, t types.Type) *V {
		if more != nil {
			if v := more(loc, t); v != nil {
				return v
			}
		}
		switch {
		case strings.HasSuffix(loc, "RequestHeader^.APIKey") || strings.HasSuffix(loc, "RequestHeader.APIKey"):
			return vInt(api)
		case strings.HasSuffix(loc, "RequestHeader^.APIVersion") || strings.HasSuffix(loc, "RequestHeader.APIVersion"):
			return vInt(version)
		case strings.HasSuffix(loc, "TaggedFields") || strings.HasSuffix(loc, "TaggedField"):
			if namedName(t) == "TaggedFields" {
				return vNilV
			}
		}
		return nil
	}
	st := newWst()
	var recv *V
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		recv = vPtrTo("$r")
	} else {
		recv = w.load(st, "$r", fn.Params[0].Type())
	}
	args := []*V{recv}
	for range fn.Params[1:] {
		args = append(args, vInt(version))
	}
	v, out := w.call(fn, args, nil, st, "e", 0)
	return w, v, out
}

func (p *Prog) encodeMethod(tn string) *ssa.Function {
	n := p.typ(tn)
	if n == nil {
		return nil
	}
	var t types.Type = types.NewPointer(n)
	for i := 0; i < 2; i++ {
		ms := p.ssa.MethodSets.MethodSet(t)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == "Encode" {
				f := p.ssa.MethodValue(ms.At(j))
				if f.Synthetic != "" && f.Object() != nil {
					if d := p.ssa.FuncValue(f.Object().(*types.Func)); d != nil {
						f = d
					}
				}
				return f
			}
		}
	}
	return nil
}

func (p *Prog) decodeLayout(api, version int64) (*W, *V, *wst) {
	fn := p.method("defaultReadParser", "Parse")
	if fn == nil {
		return nil, nil, nil
	}
	w := newW(p)
	w.framed = true
	w.symf = func(loc string, t types.Type) *V {
		switch loc {
		case "$p.api":
			return vInt(api)
		case "$p.version":
			return vInt(version)
		}
		return nil
	}
	st := newWst()
	n := vAdd(vMk("frame", "", true), vInt(4))
	st.streams["in"] = &wstream{input: true, end: vInt(0), size: n}
	var recv *V
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		recv = vPtrTo("$p")
	} else {
		recv = w.load(st, "$p", fn.Params[0].Type())
	}
	v, out := w.call(fn, []*V{recv, vSl("in", vInt(0), n, false)}, nil, st, "d", 0)
	return w, v, out
}

func wireDump(p *Prog, spec string) {
	for _, s := range strings.Split(spec, ",") {
		parts := strings.Split(s, "@")
		ver, _ := strconv.ParseInt(parts[len(parts)-1], 10, 64)
		api, err := strconv.ParseInt(parts[0], 10, 64)
		if err == nil {
			w, v, st := p.decodeLayout(api, ver)
			if st == nil {
				fmt.Println("no result")
				continue
			}
			fmt.Println("== decode", api, ver)
			dumpItems(st.streams["in"].items, "  ", p)
			fmt.Println("  value", v)
			for _, n := range w.notes {
				fmt.Println("  note", n)
			}
			for _, n := range w.rejects {
				fmt.Println("  reject", n)
			}
			for _, k := range sortedKeys(st.mem) {
				if !strings.HasPrefix(k, "!") {
					fmt.Println("  mem", k, "=", st.mem[k])
				}
			}
			continue
		}
		if strings.HasPrefix(s, "fn:") {
			w, v, st := p.decodeFunc(s[3:])
			if st == nil {
				fmt.Println("no result")
				continue
			}
			dumpItems(st.streams["in"].items, "  ", p)
			fmt.Println("  value", v)
			for _, n := range w.notes {
				fmt.Println("  note", n)
			}
			for _, n := range w.rejects {
				fmt.Println("  reject", n)
			}
			for _, k := range sortedKeys(st.mem) {
				fmt.Println("  mem", k, "=", st.mem[k])
			}
			continue
		}
		a := int64(0)
		for k := range p.requestAPIs()[parts[0]] {
			a, _ = strconv.ParseInt(k, 10, 64)
		}
		w, v, st := p.encodeLayout(parts[0], a, ver)
		if st == nil {
			fmt.Println("no result for", s)
			continue
		}
		fmt.Println("== encode", parts[0], a, ver, "value", v)
		for _, d := range flatAlt(v) {
			if d.k == vTuple && len(d.a) > 0 {
				d = flatAlt(d.a[0])[0]
			}
			if d.k == vSlice && st.streams[d.s] != nil {
				dumpItems(st.streams[d.s].items, "  ", p)
				fmt.Println("  end", st.streams[d.s].end, "size", st.streams[d.s].size)
			}
		}
		for _, n := range w.notes {
			fmt.Println("  note", n)
		}
		for _, n := range w.rejects {
			fmt.Println("  reject", n)
		}
	}
}
