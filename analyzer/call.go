package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	return ""
}

// calleeName: module functions by fname; others "pkg/path.[Type.]Name"; interface calls "pkg.Iface.Method".
func calleeName(c *ssa.CallCommon, fn *ssa.Function) string {
	if fn != nil {
		return funcName(fn)
	}
	if c.IsInvoke() {
		t := types.Unalias(c.Value.Type())
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			p := n.Obj().Pkg().Path() + "."
			if n.Obj().Pkg().Path() == modPath {
				p = ""
			}
			return p + n.Obj().Name() + "." + c.Method.Name()
		}
		return typeShort(t) + "." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dyn"
}

func funcName(fn *ssa.Function) string {
	pp := pkgOf(fn)
	if strings.HasPrefix(pp, modPath) {
		return fname(fn)
	}
	if r := fn.Signature.Recv(); r != nil {
		return pp + "." + typeShort(r.Type()) + "." + fn.Name()
	}
	return pp + "." + fn.Name()
}

func (x *Exec) resolve(st *State, fr *Frame, c *ssa.CallCommon) (*ssa.Function, *Term, []*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		v := x.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		if v.Op == "iface" && v.Typ != nil {
			if fn := x.p.ssa.LookupMethod(v.Typ, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return fn, nil, append([]*Term{v.Args[0]}, args...), nil
			}
		}
		return nil, v, append([]*Term{v}, args...), nil
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	ft := x.val(fr, c.Value)
	switch ft.Op {
	case "func":
		return ft.Fn, ft, args, nil
	case "closure":
		return ft.Fn, ft, args, ft.Args
	}
	return nil, ft, args, nil
}

var pureExt = map[string]bool{
	"fmt.Sprintf": true, "errors.Is": true, "os.IsTimeout": true, "strings.Contains": true, "strings.Split": true,
	"strings.ToLower": true, "strings.ToUpper": true, "strings.HasPrefix": true, "strings.TrimSpace": true, "strings.EqualFold": true,
	"strconv.Itoa": true, "github.com/aviddiviner/go-murmur.MurmurHash2": true, "errors.Unwrap": true,
	"time.Duration.Milliseconds": true, "net.JoinHostPort": true, "strings.HasSuffix": true, "strings.Join": true, "strings.Index": true,
}

func (x *Exec) invoke(st *State, site ssa.CallInstruction, fn *ssa.Function, ft *Term, args, binds []*Term, mode string) bool {
	c := site.Common()
	fr := st.top()
	name := calleeName(c, fn)
	if c.IsInvoke() && fn != nil {
		name = funcName(fn)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, site, b.Name(), args, mode)
	}
	x.calls[name]++
	ev := &Event{Kind: "call", Fn: fn, Name: name, Args: args, Val: ft, Site: site}
	x.emit(st, ev)
	if st.dead {
		return false
	}
	if x.cfg.Hook != nil {
		if outs, ok := x.cfg.Hook(x, st, name, fn, args, site); ok {
			return x.outcomes(st, site, outs, mode)
		}
	}
	if name == "sync.Once.Do" && len(args) == 2 && (args[1].Op == "closure" || args[1].Op == "func") {
		s2 := st.clone()
		x.finish(s2, site, mk("tuple", ""), mode)
		f := args[1]
		return x.enter(st, site, f.Fn, nil, f.Args, mode)
	}
	if strings.HasPrefix(name, "sync.") || name == "sync.Locker.Lock" {
		return x.finishCont(st, site, mk("tuple", ""), mode)
	}
	if fn != nil && fn.Blocks != nil && x.p.inModule(fn) {
		rec := false
		for _, f := range st.frames {
			if f.fn == fn {
				rec = true
			}
		}
		wrapper := fn.Synthetic != "" && fn.Object() != nil && fn.Pkg == nil
		if !rec && len(st.frames) < 24 && (wrapper || x.cfg.Inline != nil && x.cfg.Inline(x, st, fn) || !x.cfg.NoTiny && x.p.tiny(fn)) {
			return x.enter(st, site, fn, args, binds, mode)
		}
		return x.summarised(st, site, fn, name, args, mode)
	}
	_ = fr
	return x.external(st, site, fn, name, args, ft, mode)
}

// tiny: a small loop-free helper whose behaviour is its body; always inlined, so that extracting one changes nothing.
func (p *Prog) tiny(fn *ssa.Function) bool {
	if p.tinyMemo == nil {
		p.tinyMemo = map[*ssa.Function]int{}
	}
	if v, ok := p.tinyMemo[fn]; ok {
		return v == 1
	}
	p.tinyMemo[fn] = 0 // recursion: no
	if fn.Parent() != nil || len(fn.Blocks) == 0 || isCodec(fn) || fn.Synthetic != "" {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if isBackEdge(b, s) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Alloc:
				if e := i.Type().Underlying().(*types.Pointer).Elem(); embedsHeader(e) || i.Heap && typeShort(e) == "Broker" {
					return false
				}
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeClosure:
				return false
			case ssa.CallInstruction:
				if g := i.Common().StaticCallee(); g != nil && p.inModule(g) && !p.tiny(g) {
					return false
				}
			}
		}
	}
	if n > 50 || len(fn.Blocks) > 10 {
		return false
	}
	p.tinyMemo[fn] = 1
	return true
}

func (x *Exec) enter(st *State, site ssa.CallInstruction, fn *ssa.Function, args, binds []*Term, mode string) bool {
	fr := st.top()
	nf := &Frame{fn: fn, env: map[ssa.Value]*Term{}, blk: fn.Blocks[0], ctx: x.ctx(fr.ctx, x.site(fr, site)+mode), call: site, isDef: mode == "defer", args: args}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			nf.env[fv] = binds[i]
		}
	}
	st.frames = append(st.frames, nf)
	st.note("%s: enter %s", x.p.pos(instrPos(site)), fname(fn))
	x.emit(st, &Event{Kind: "enter", Fn: fn, Name: fname(fn), Args: args, Site: site})
	if st.dead {
		return false
	}
	x.push(st)
	return false
}

// finish binds the result and pushes the state.
func (x *Exec) finish(st *State, site ssa.CallInstruction, res *Term, mode string) {
	if mode != "defer" {
		fr := st.top()
		if v, ok := site.(ssa.Value); ok && v != nil {
			fr.env[v] = res
		}
		fr.idx++
	}
	x.push(st)
}

// finishCont binds and continues in the same state without a merge point.
func (x *Exec) finishCont(st *State, site ssa.CallInstruction, res *Term, mode string) bool {
	if mode != "defer" {
		fr := st.top()
		if v, ok := site.(ssa.Value); ok && v != nil {
			fr.env[v] = res
		}
		fr.idx++
	}
	return true
}

func (x *Exec) outcomes(st *State, site ssa.CallInstruction, outs []Outcome, mode string) bool {
	for i, o := range outs {
		s := st
		if i < len(outs)-1 {
			s = st.clone()
		}
		ok := true
		for _, f := range o.Facts {
			if !s.assume(f.T, f.V) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for k, v := range o.Set {
			s.set(k, v)
		}
		if o.Tag != "" {
			s.note("%s: %s", x.p.pos(instrPos(site)), o.Tag)
		}
		x.emit(s, &Event{Kind: "result", Name: calleeName(site.Common(), nil), Res: o.Res, Site: site})
		if s.dead {
			continue
		}
		x.finish(s, site, o.Res, mode)
	}
	return false
}

// callTerm makes the instance term for the result of this call (killing older instances).
func (x *Exec) callTerm(st *State, site ssa.CallInstruction, name string, args []*Term) *Term {
	fr := st.top()
	t := mkT(nil, "call", name+"@"+x.site(fr, site), args...)
	x.kill(st, t)
	return t
}

func resTerm(t *Term, sig *types.Signature) *Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return mk("tuple", "")
	case 1:
		return mkT(r.At(0).Type(), "res", "0", t)
	}
	var as []*Term
	for i := 0; i < r.Len(); i++ {
		as = append(as, mkT(r.At(i).Type(), "res", strconv.Itoa(i), t))
	}
	return mk("tuple", "", as...)
}

func (x *Exec) external(st *State, site ssa.CallInstruction, fn *ssa.Function, name string, args []*Term, ft *Term, mode string) bool {
	sig := site.Common().Signature()
	if pureExt[name] {
		if name == "errors.Is" {
			return x.finishCont(st, site, x.errorsIs(st, args[0], args[1]), mode)
		}
		as := make([]*Term, len(args))
		for i, a := range args {
			as[i] = x.contentOf(st, a)
		}
		return x.finishCont(st, site, mkT(sig.Results().At(0).Type(), "app", name, as...), mode)
	}
	if name == "errors.Join" && len(args) == 1 {
		if l := x.contentOf(st, args[0]); l.Op == "list" {
			nils := true
			for _, a := range l.Args {
				n, known := st.nilness(a)
				if known && !n {
					return x.finishCont(st, site, mkT(sig.Results().At(0).Type(), "app", "errors.Join!", l), mode)
				}
				nils = nils && known
			}
			if nils {
				return x.finishCont(st, site, tNil, mode)
			}
		}
	}
	if name == "fmt.Errorf" || name == "errors.New" {
		as := make([]*Term, len(args))
		for i, a := range args {
			as[i] = x.contentOf(st, a)
		}
		return x.finishCont(st, site, mkT(sig.Results().At(0).Type(), "app", name, as...), mode)
	}
	if strings.Contains(name, "logr.Logger") {
		t := mkT(nil, "app", name)
		if sig.Results().Len() == 0 {
			return x.finishCont(st, site, mk("tuple", ""), mode)
		}
		return x.finishCont(st, site, mkT(sig.Results().At(0).Type(), "res", "0", t), mode)
	}
	if name == "dyn" {
		args = append([]*Term{ft}, args...)
	}
	t := x.callTerm(st, site, name, args)
	// the callee may write through pointers it is given
	for i, a := range args {
		if (a.Op == "alloc" || a.Op == "fld" || a.Op == "idx" || a.Op == "iface" && (a.Args[0].Op == "alloc" || a.Args[0].Op == "fld")) && !noHavoc(name) {
			l := a
			if a.Op == "iface" {
				l = a.Args[0]
			}
			if strings.HasPrefix(l.Str, "map@") || strings.HasPrefix(l.Str, "chan@") {
				continue
			}
			st.store(l, mkT(nil, "out", strconv.Itoa(i), t), nil)
		}
	}
	return x.finishCont(st, site, resTerm(t, sig), mode)
}

func noHavoc(name string) bool {
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "encoding/json.Marshal") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "context.") || strings.HasPrefix(name, "crypto/tls.Dial") || strings.HasPrefix(name, "net.Dialer")
}

// contentOf looks through a varargs slice so that pure terms depend on the values, not on the cell.
func (x *Exec) contentOf(st *State, a *Term) *Term {
	if a.Op == "slice" && a.Args[0].Op == "alloc" {
		var el []*Term
		for i := 0; i < 40; i++ {
			v, ok := st.mem[mk("idx", "", a.Args[0], tInt(int64(i)))]
			if !ok {
				break
			}
			el = append(el, v)
		}
		return mk("list", "", el...)
	}
	return a
}

// errorsIs builds errors.Is(e, target), looking through fmt.Errorf("...%w") wrappers.
func (x *Exec) errorsIs(st *State, e, tg *Term) *Term {
	if e.Op == "app" && e.Str == "fmt.Errorf" && len(e.Args) > 0 {
		if f, ok := e.Args[0].strVal(); ok {
			w := wrapped(e, f)
			if w == nil {
				return tFalse
			}
			return x.errorsIs(st, w, tg)
		}
	}
	return mkT(types.Typ[types.Bool], "app", "errors.Is", e, tg)
}

// wrapped returns the argument of the %w verb of an Errorf term.
func wrapped(e *Term, format string) *Term {
	if len(e.Args) < 2 || e.Args[1].Op != "list" {
		return nil
	}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(e.Args[1].Args) {
			return e.Args[1].Args[n]
		}
		n++
	}
	return nil
}

func (x *Exec) builtin(st *State, site ssa.CallInstruction, name string, args []*Term, mode string) bool {
	sig := site.Common().Signature()
	_ = sig
	var res *Term = mk("tuple", "")
	var rt types.Type
	if v, ok := site.(ssa.Value); ok && v != nil {
		rt = v.Type()
	}
	switch name {
	case "len", "cap":
		a := args[0]
		if s, ok := a.strVal(); ok {
			res = tInt(int64(len(s)))
			break
		}
		if a == tNil {
			res = tInt(0)
			break
		}
		if a.Op == "alloc" && strings.HasPrefix(a.Str, "slice@") && name == "len" {
			if l, ok := st.mem[mk("fld", "#len", a)]; ok {
				res = l
				break
			}
		}
		if a.Op == "slice" && a.Args[0].Op == "alloc" && a.Args[1] == tInt(0) && a.Args[2].Str == "end" && a.Args[0].Typ != nil {
			if p, ok := a.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if arr, ok := p.Elem().Underlying().(*types.Array); ok {
					res = tInt(arr.Len())
					break
				}
			}
		}
		if a.Op == "slice" && name == "len" {
			lo, ok1 := a.Args[1].intVal()
			hi, ok2 := a.Args[2].intVal()
			if ok1 && ok2 {
				res = tInt(hi - lo)
				break
			}
		}
		res = mkT(types.Typ[types.Int], "app", name, a)
	case "append":
		x.emit(st, &Event{Kind: "call", Name: "builtin.append", Args: args, Site: site})
		if len(args) > 1 {
			res = mkT(rt, "app", "append", args[0], args[1])
		} else {
			res = args[0]
		}
	case "copy":
		x.emit(st, &Event{Kind: "call", Name: "builtin.copy", Args: args, Site: site})
		d := args[0]
		for d.Op == "slice" {
			d = d.Args[0]
		}
		st.mem[mk("fld", "#copyof", d)] = args[1]
		res = mkT(rt, "app", "copied", args[0], args[1])
	case "close":
		x.emit(st, &Event{Kind: "close", Loc: args[0], Site: site})
	case "delete":
		x.emit(st, &Event{Kind: "call", Name: "builtin.delete", Args: args, Site: site})
	case "panic":
		x.emit(st, &Event{Kind: "panic", Site: site})
		return false
	case "recover":
		res = tNil
	case "min", "max":
		res = mkT(rt, "app", name, args...)
	case "ssa:wrapnilchk":
		res = args[0]
	default:
		res = mkT(rt, "app", name, args...)
	}
	if st.dead {
		return false
	}
	return x.finishCont(st, site, res, mode)
}

// ---------------------------------------------------------------- summaries

// Summary describes the possible result shapes of a module function.
type Summary struct {
	tuples [][]string
	stored map[string]bool // Type.field possibly stored by the call tree
	ityp   map[string]types.Type
}

func (p *Prog) storedBy(fn *ssa.Function) map[string]bool {
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
						out[fieldKey(fa)] = true
					}
				case *ssa.Go:
				case ssa.CallInstruction:
					if c := i.Common().StaticCallee(); c != nil {
						walk(c)
					}
					for _, a := range i.Common().Args {
						if mc, ok := a.(*ssa.MakeClosure); ok {
							walk(mc.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
	walk(fn)
	return out
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (p *Prog) shape(st *State, t *Term, typ types.Type) string {
	if nilable(typ) {
		if n, k := st.nilness(t); k {
			if n {
				return "nil"
			}
			if t.Op == "iface" {
				return "iface:" + t.Str
			}
			return "nonnil"
		}
		return "?"
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		if v, k := st.evalBool(t); k {
			return fmt.Sprint(v)
		}
	}
	return "?"
}

func (p *Prog) summary(fn *ssa.Function) *Summary {
	if s, ok := p.sums[fn]; ok {
		return s
	}
	n := fn.Signature.Results().Len()
	unknown := make([]string, n)
	for i := range unknown {
		unknown[i] = "?"
	}
	if p.inSum[fn] {
		return &Summary{tuples: [][]string{unknown}, stored: p.storedBy(fn)}
	}
	p.inSum[fn] = true
	defer delete(p.inSum, fn)
	set := map[string][]string{}
	ityp := map[string]types.Type{}
	cfg := &Config{MaxState: 3000, Merge: true}
	cfg.Inline = func(x *Exec, st *State, f *ssa.Function) bool { return f.Parent() != nil }
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case "return":
			rs := []*Term{ev.Res}
			if n != 1 {
				rs = ev.Res.Args
			}
			tp := make([]string, n)
			for i := range tp {
				if rs[i].Op == "iface" {
					ityp[rs[i].Str] = rs[i].Typ
				}
				tp[i] = p.shape(st, rs[i], fn.Signature.Results().At(i).Type())
			}
			set[strings.Join(tp, "|")] = tp
		case "deref":
			if nl, k := st.nilness(ev.Loc); k && nl {
				st.dead = true
			}
		}
	}
	s := &Summary{stored: p.storedBy(fn), ityp: ityp}
	x := newExec(p, cfg)
	if n > 0 {
		x.Run(fn, nil)
	}
	if x.over {
		s.tuples = p.syntactic(fn)
	} else if n == 0 {
		s.tuples = [][]string{unknown}
	} else {
		if len(set) > 6 {
			ns := map[string][]string{}
			for _, tp := range set {
				q := append([]string(nil), tp...)
				for i := range q {
					if strings.HasPrefix(q[i], "iface:") {
						q[i] = "nonnil"
					}
				}
				ns[strings.Join(q, "|")] = q
			}
			set = ns
		}
		for _, k := range sortedKeys(set) {
			s.tuples = append(s.tuples, set[k])
		}
		if len(s.tuples) > 12 || len(s.tuples) == 0 {
			s.tuples = [][]string{unknown}
		}
	}
	p.sums[fn] = s
	return s
}

// syntactic is the path-insensitive fallback: shapes visible at the return statements.
func (p *Prog) syntactic(fn *ssa.Function) [][]string {
	n := fn.Signature.Results().Len()
	set := map[string][]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			tp := make([]string, n)
			for i, v := range r.Results {
				tp[i] = "?"
				switch w := v.(type) {
				case *ssa.Const:
					if nilable(w.Type()) && w.Value == nil {
						tp[i] = "nil"
					}
				case *ssa.MakeInterface, *ssa.Alloc:
					tp[i] = "nonnil"
				case *ssa.Call:
					if c := w.Call.StaticCallee(); c != nil && (funcName(c) == "fmt.Errorf" || funcName(c) == "errors.New") {
						tp[i] = "nonnil"
					}
				}
			}
			set[strings.Join(tp, "|")] = tp
		}
	}
	var out [][]string
	for _, k := range sortedKeys(set) {
		out = append(out, set[k])
	}
	return out
}

func (x *Exec) summarised(st *State, site ssa.CallInstruction, fn *ssa.Function, name string, args []*Term, mode string) bool {
	sum := x.p.summary(fn)
	t := x.callTerm(st, site, name, args)
	for _, k := range sortedKeys(sum.stored) {
		st.havocField(k, t)
	}
	sig := fn.Signature
	n := sig.Results().Len()
	if n == 0 {
		x.finish(st, site, mk("tuple", ""), mode)
		return false
	}
	var outs []Outcome
	for _, tp := range sum.tuples {
		var rs []*Term
		var fs []Fact
		for i, sh := range tp {
			rt := sig.Results().At(i).Type()
			r := mkT(rt, "res", strconv.Itoa(i), t)
			switch {
			case sh == "nil":
				r = tNil
			case sh == "nonnil":
				fs = append(fs, Fact{mkEq(r, tNil), false})
			case strings.HasPrefix(sh, "iface:"):
				tn := strings.TrimPrefix(sh, "iface:")
				r = mkT(sum.ityp[tn], "iface", tn, mkT(sum.ityp[tn], "res", strconv.Itoa(i)+"!", t))
			case sh == "true":
				r = tTrue
			case sh == "false":
				r = tFalse
			}
			rs = append(rs, r)
		}
		res := rs[0]
		if n > 1 {
			res = mk("tuple", "", rs...)
		}
		outs = append(outs, Outcome{Res: res, Facts: fs, Tag: fmt.Sprintf("%s returned %v", name, tp)})
	}
	return x.outcomes(st, site, outs, mode)
}

var _ = sort.Strings
