package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "interprocedural lock analysis over SSA: per-path lock sets with summaries of what each function acquires, releases and leaves held; lock-order graph; waits under a lock", ruleC08)
}

// A lock is named class|path: the field (or variable) that holds it, and how its owner is reached from the
// parameters of the function (p0 is the receiver of a method).  Values that cannot be named that way have a
// name of their own.
type lockName struct{ class, path string }

func (l lockName) String() string { return l.class }

// lockState: what a path holds, what it released without having acquired it, and its deferred calls.
type lockState struct {
	held []lockName
	rel  []lockName
	defs []ssa.CallInstruction
}

func (s lockState) key() string {
	k := ""
	for _, l := range s.held {
		k += l.class + "|" + l.path + ";"
	}
	k += "/"
	for _, l := range s.rel {
		k += l.class + "|" + l.path + ";"
	}
	k += "/"
	for _, d := range s.defs {
		k += fmt.Sprintf("%p;", d)
	}
	return k
}

func (s lockState) clone() lockState {
	return lockState{append([]lockName{}, s.held...), append([]lockName{}, s.rel...), append([]ssa.CallInstruction{}, s.defs...)}
}

type lockEffect struct{ held, rel []lockName }

type lockModel struct {
	c       *Ctx
	p       *Prog
	eff     map[*ssa.Function][]lockEffect                 // what a call may leave held or released
	acq     map[*ssa.Function]map[lockName]ssa.Instruction // what a call may acquire
	changed bool
	report  bool
	edges   map[[2]string]string // order of acquisition: (held, acquired) -> where
	spawned map[*ssa.Function]bool
}

// lockPath: how the value is reached from the parameters.
func (m *lockModel) path(v ssa.Value, d int) string {
	if d > 8 {
		return fmt.Sprintf("?%p", v)
	}
	switch i := v.(type) {
	case *ssa.Parameter:
		for n, q := range i.Parent().Params {
			if q == i {
				return "p" + itoa(n)
			}
		}
	case *ssa.FreeVar:
		// the enclosing function's name for it, marked as captured
		for n, q := range i.Parent().FreeVars {
			if q == i {
				return "f" + itoa(n)
			}
		}
	case *ssa.FieldAddr:
		return m.path(i.X, d+1) + "." + fieldAt(i.X.Type(), i.Field)
	case *ssa.Field:
		return m.path(i.X, d+1) + "." + fieldAt(i.X.Type(), i.Field)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if _, ok := i.X.(*ssa.IndexAddr); ok {
				break
			}
			return m.path(i.X, d+1)
		}
	case *ssa.Global:
		return "g:" + i.Name()
	case *ssa.ChangeType:
		return m.path(i.X, d+1)
	case *ssa.MakeInterface:
		return m.path(i.X, d+1)
	case *ssa.Alloc:
		// a variable that is set once is its value
		if val := setOnce(i); val != nil {
			return m.path(val, d+1)
		}
	}
	return fmt.Sprintf("?%p", v)
}

// setOnce: the only value a variable is ever given.
func setOnce(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			val = s.Val
			n++
		}
	}
	if n != 1 {
		return nil
	}
	if _, ok := val.(*ssa.Alloc); ok {
		return nil
	}
	return val
}

func fieldAt(t types.Type, n int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(n).Name()
}

// lock: the lock that is the receiver of a Lock or Unlock call.
func (m *lockModel) lock(v ssa.Value) lockName {
	class := ""
	w := v
	for class == "" {
		switch i := w.(type) {
		case *ssa.FieldAddr:
			t := i.X.Type().Underlying().(*types.Pointer).Elem()
			class = typeShort(t) + "." + fieldAt(t, i.Field)
		case *ssa.Field:
			class = typeShort(i.X.Type()) + "." + fieldAt(i.X.Type(), i.Field)
		case *ssa.UnOp:
			w = i.X
			continue
		case *ssa.MakeInterface:
			w = i.X
			continue
		case *ssa.FreeVar:
			if b := boundTo(i); b != nil {
				w = b
				continue
			}
			class = fname(i.Parent()) + "." + i.Name()
		case *ssa.Global:
			class = i.Name()
		case *ssa.Alloc:
			if v := setOnce(i); v != nil {
				w = v
				continue
			}
			class = fname(i.Parent()) + "." + i.Comment
		default:
			class = v.Parent().Name() + "." + v.Name()
		}
	}
	return lockName{class, m.path(v, 0)}
}

func lockCall(cc *ssa.CallCommon) (op string, recv ssa.Value) {
	name := ""
	if g := cc.StaticCallee(); g != nil {
		name = g.String()
		if len(cc.Args) > 0 {
			recv = cc.Args[0]
		}
	} else if cc.IsInvoke() {
		name = cc.Value.Type().String() + "." + cc.Method.Name()
		recv = cc.Value
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "sync.Locker.Lock":
		return "lock", recv
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "sync.Locker.Unlock":
		return "unlock", recv
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return "try", recv
	case "(*sync.Once).Do":
		return "once", recv
	case "(*sync.WaitGroup).Wait":
		return "wait", recv
	case "(*sync.WaitGroup).Done":
		return "done", recv
	}
	return "", nil
}

// subst renames a callee's lock to the caller's terms.
func (m *lockModel) subst(l lockName, g *ssa.Function, cc *ssa.CallCommon, mc *ssa.MakeClosure) lockName {
	p := l.path
	root, rest := p, ""
	if i := strings.Index(p, "."); i >= 0 {
		root, rest = p[:i], p[i:]
	}
	switch {
	case strings.HasPrefix(root, "p") && cc != nil:
		n := 0
		fmt.Sscanf(root[1:], "%d", &n)
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		if n < len(args) {
			return lockName{l.class, cut(m.path(args[n], 0) + rest)}
		}
	case strings.HasPrefix(root, "f") && mc != nil:
		n := 0
		fmt.Sscanf(root[1:], "%d", &n)
		if n < len(mc.Bindings) {
			return lockName{l.class, cut(m.path(mc.Bindings[n], 0) + rest)}
		}
	case strings.HasPrefix(root, "g:"):
		return l
	}
	return lockName{l.class, "?" + l.class} // some instance
}

func cut(p string) string {
	if strings.Count(p, ".") > 6 {
		return "?deep"
	}
	return p
}

func without(ls []lockName, l lockName) ([]lockName, bool) {
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i] == l {
			return append(append([]lockName{}, ls[:i]...), ls[i+1:]...), true
		}
	}
	return ls, false
}

func has(ls []lockName, l lockName) bool {
	_, ok := without(ls, l)
	return ok
}

// take: the path acquires l.
func (m *lockModel) take(f *ssa.Function, s *lockState, l lockName, at ssa.Instruction, via string) {
	m.acquired(f, l, at)
	if m.report {
		m.c.count("acquisitions", 1)
	}
	m.order(f, s, l, at, via)
}

// order: l is acquired (in a call, if via is set) while s.held is held.
func (m *lockModel) order(f *ssa.Function, s *lockState, l lockName, at ssa.Instruction, via string) {
	if !m.report {
		return
	}
	for _, h := range s.held {
		if h == l && !strings.HasPrefix(l.path, "?"+l.class) {
			m.c.fail("reacquire", fname(f)+" "+l.class, instrPos(at), nil, "%s acquires %s%s while it already holds it", fname(f), l.class, via)
			continue
		}
		if h.class != l.class {
			k := [2]string{h.class, l.class}
			if m.edges[k] == "" {
				m.edges[k] = fname(f) + " (" + m.p.pos(instrPos(at)) + ")" + via
			}
		}
	}
}

func (m *lockModel) acquired(f *ssa.Function, l lockName, at ssa.Instruction) {
	if m.acq[f] == nil {
		m.acq[f] = map[lockName]ssa.Instruction{}
	}
	if _, ok := m.acq[f][l]; !ok {
		if len(m.acq[f]) > 60 {
			return
		}
		m.acq[f][l] = at
		m.changed = true
	}
}

type callee struct {
	fn *ssa.Function
	mc *ssa.MakeClosure
	cc *ssa.CallCommon
	// arg: a closure handed to the call, which may or may not be called
	arg bool
	// outer: the call that made the closure
	outer *ssa.CallCommon
}

// in: a lock of the callee in the caller's terms.
func (m *lockModel) in(g callee, l lockName) lockName {
	l = m.subst(l, g.fn, g.cc, g.mc)
	if g.outer != nil {
		l = m.subst(l, nil, g.outer, nil)
	}
	return l
}

func (m *lockModel) callees(cc *ssa.CallCommon) []callee {
	var r []callee
	add := func(g *ssa.Function, mc *ssa.MakeClosure, arg bool) {
		if g != nil && g.Blocks != nil && m.p.inModule(g) {
			r = append(r, callee{fn: g, mc: mc, cc: cc, arg: arg})
		}
	}
	closure := func(v ssa.Value) (*ssa.Function, *ssa.MakeClosure) {
		for d := 0; d < 4; d++ {
			switch i := v.(type) {
			case *ssa.MakeClosure:
				return i.Fn.(*ssa.Function), i
			case *ssa.Function:
				return i, nil
			case *ssa.ChangeType:
				v = i.X
			case *ssa.UnOp:
				al, ok := i.X.(*ssa.Alloc)
				if !ok {
					return nil, nil
				}
				var val ssa.Value
				n := 0
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
						val = s.Val
						n++
					}
				}
				if n != 1 {
					return nil, nil
				}
				v = val
			default:
				return nil, nil
			}
		}
		return nil, nil
	}
	if cc.IsInvoke() {
		for _, g := range m.p.implementers(cc) {
			add(g, nil, false)
		}
	} else {
		g, mc := closure(cc.Value)
		if g == nil {
			g = cc.StaticCallee()
		}
		add(g, mc, false)
		if k, ok := cc.Value.(*ssa.Call); ok && g == nil && k.Call.StaticCallee() != nil && m.p.inModule(k.Call.StaticCallee()) {
			// the function a helper returned: its captured variables are the helper's
			for _, b := range k.Call.StaticCallee().Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					if mc, ok := ret.Results[0].(*ssa.MakeClosure); ok {
						r = append(r, callee{fn: mc.Fn.(*ssa.Function), mc: mc, outer: &k.Call})
					}
				}
			}
		}
	}
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			g, mc := closure(a)
			if g != nil {
				r = append(r, callee{fn: g, mc: mc, arg: true})
			}
		}
	}
	return r
}

// bound: a call of a method value of a lock, such as the function a helper returned to unlock it.
func (m *lockModel) bound(cc *ssa.CallCommon) (string, lockName) {
	v := cc.Value
	if u, ok := v.(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if w := setOnce(al); w != nil {
				v = w
			}
		}
	}
	var outer *ssa.CallCommon
	var g *ssa.Function
	if k, ok := v.(*ssa.Call); ok && k.Call.StaticCallee() != nil {
		outer, g = &k.Call, k.Call.StaticCallee()
		v = nil
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				v = r.Results[0]
			}
		}
	}
	mc, ok := v.(*ssa.MakeClosure)
	if !ok || len(mc.Bindings) != 1 {
		return "", lockName{}
	}
	op := ""
	switch mc.Fn.String() {
	case "(*sync.Mutex).Unlock$bound", "(*sync.RWMutex).Unlock$bound", "(*sync.RWMutex).RUnlock$bound":
		op = "unlock"
	case "(*sync.Mutex).Lock$bound", "(*sync.RWMutex).Lock$bound", "(*sync.RWMutex).RLock$bound":
		op = "lock"
	default:
		return "", lockName{}
	}
	l := m.lock(mc.Bindings[0])
	if outer != nil {
		l = m.subst(l, g, outer, nil)
	}
	return op, l
}

// call: the states after the call.
func (m *lockModel) call(f *ssa.Function, s lockState, cc *ssa.CallCommon, at ssa.Instruction) []lockState {
	op, recv := lockCall(cc)
	var l lockName
	if op == "" && !cc.IsInvoke() {
		op, l = m.bound(cc)
	} else if op == "lock" || op == "unlock" {
		l = m.lock(recv)
	}
	switch op {
	case "lock":
		m.take(f, &s, l, at, "")
		n := s.clone()
		n.held = append(n.held, l)
		return []lockState{n}
	case "unlock":
		n := s.clone()
		var ok bool
		if n.held, ok = without(n.held, l); !ok {
			n.rel = append(n.rel, l)
		}
		return []lockState{n}
	case "try":
		return []lockState{s} // forked at the branch on the result
	case "once":
		l := m.lock(recv)
		m.take(f, &s, l, at, "")
		n := s.clone()
		n.held = append(n.held, l)
		var out []lockState
		for _, t := range m.calls(f, n, cc, at) {
			t.held, _ = without(t.held, l)
			out = append(out, t)
		}
		return out
	case "wait":
		m.wait(f, s, m.lock(recv), at)
		return []lockState{s}
	}
	return m.calls(f, s, cc, at)
}

func (m *lockModel) calls(f *ssa.Function, s lockState, cc *ssa.CallCommon, at ssa.Instruction) []lockState {
	out := []lockState{}
	seen := map[string]bool{}
	put := func(t lockState) {
		if k := t.key(); !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	cs := m.callees(cc)
	any := false
	for _, g := range cs {
		for l := range m.acq[g.fn] {
			l2 := m.in(g, l)
			m.acquired(f, l2, at)
			m.order(f, &s, l2, at, " (in "+fname(g.fn)+")")
		}
		effs := m.eff[g.fn]
		if g.arg || len(effs) == 0 {
			continue
		}
		any = true
		for _, e := range effs {
			n := s.clone()
			for _, l := range e.rel {
				l2 := m.in(g, l)
				var ok bool
				if n.held, ok = without(n.held, l2); !ok {
					n.rel = append(n.rel, l2)
				}
			}
			for _, l := range e.held {
				n.held = append(n.held, m.in(g, l))
			}
			put(n)
		}
	}
	if !any {
		put(s)
	}
	// a closure that is called by the callee
	for _, g := range cs {
		if !g.arg {
			continue
		}
		for _, e := range m.eff[g.fn] {
			if len(e.held) == 0 && len(e.rel) == 0 {
				continue
			}
			for _, t := range append([]lockState{}, out...) {
				n := t.clone()
				for _, l := range e.rel {
					l2 := m.subst(l, g.fn, nil, g.mc)
					n.held, _ = without(n.held, l2)
				}
				for _, l := range e.held {
					n.held = append(n.held, m.subst(l, g.fn, nil, g.mc))
				}
				put(n)
			}
		}
	}
	return out
}

// wait: nothing that has to happen before the wait group is done needs a lock that is held.
func (m *lockModel) wait(f *ssa.Function, s lockState, w lockName, at ssa.Instruction) {
	// waiting on behalf of the callers' locks, too
	l := lockName{"wait:" + w.class, w.path}
	m.acquired(f, l, at)
	m.order(f, &s, l, at, "")
	if m.report {
		m.c.count("waits", 1)
	}
}

// flow analyses one function.
func (m *lockModel) flow(f *ssa.Function) {
	type item struct {
		b *ssa.BasicBlock
		s lockState
	}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	var work []item
	push := func(b *ssa.BasicBlock, s lockState) {
		if seen[b] == nil {
			seen[b] = map[string]bool{}
		}
		if k := s.key(); !seen[b][k] && len(seen[b]) < 64 {
			seen[b][k] = true
			work = append(work, item{b, s})
		}
	}
	push(f.Blocks[0], lockState{})
	effs := map[string]lockEffect{}
	leave := func(s lockState, at ssa.Instruction) {
		sort.Slice(s.held, func(i, j int) bool { return s.held[i].class+s.held[i].path < s.held[j].class+s.held[j].path })
		s.defs = nil
		effs[s.key()] = lockEffect{s.held, s.rel}
		if !m.report {
			return
		}
		if m.forCallers(f) {
			return
		}
		for _, l := range s.held {
			m.c.fail("balance", fname(f)+" "+l.class, instrPos(at), nil, "%s can return with %s still locked", fname(f), l.class)
		}
		for _, l := range s.rel {
			m.c.fail("balance", fname(f)+" "+l.class, instrPos(at), nil, "%s can unlock %s without holding it", fname(f), l.class)
		}
	}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		states := []lockState{it.s}
		var try ssa.Value
		for _, in := range it.b.Instrs {
			if m.report {
				m.c.count("instructions", 1)
			}
			var next []lockState
			switch i := in.(type) {
			case *ssa.Call:
				if op, _ := lockCall(i.Common()); op == "try" {
					try = i
				}
				for _, s := range states {
					next = append(next, m.call(f, s, i.Common(), in)...)
				}
				states = next
			case *ssa.Defer:
				for _, s := range states {
					n := s.clone()
					if len(n.defs) < 12 {
						dup := false
						for _, d := range n.defs {
							dup = dup || d == ssa.CallInstruction(i)
						}
						if !dup {
							n.defs = append(n.defs, i)
						}
					}
					next = append(next, n)
				}
				states = next
			case *ssa.RunDefers:
				for _, s := range states {
					cur := []lockState{s}
					for n := len(s.defs) - 1; n >= 0; n-- {
						var after []lockState
						for _, t := range cur {
							after = append(after, m.call(f, t, s.defs[n].Common(), in)...)
						}
						cur = after
					}
					for _, t := range cur {
						t.defs = nil
						next = append(next, t)
					}
				}
				states = next
			case *ssa.Return:
				for _, s := range states {
					leave(s, in)
				}
			case *ssa.If:
				for _, s := range states {
					v, neg := i.Cond, false
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
						v, neg = u.X, true
					}
					if cl, ok := v.(*ssa.Call); ok && try == v || ok && isTry(cl) {
						l := m.lock(cl.Call.Args[0])
						got := s.clone()
						got.held = append(got.held, l)
						m.acquired(f, l, cl)
						if neg {
							push(it.b.Succs[0], s)
							push(it.b.Succs[1], got)
						} else {
							push(it.b.Succs[0], got)
							push(it.b.Succs[1], s)
						}
						continue
					}
					for _, n := range it.b.Succs {
						push(n, s)
					}
				}
			case *ssa.Jump:
				for _, s := range states {
					push(it.b.Succs[0], s)
				}
			}
			if len(states) > 32 {
				states = states[:32]
			}
		}
	}
	var es []lockEffect
	var ks []string
	for k := range effs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		es = append(es, effs[k])
	}
	if len(es) > 8 {
		es = es[:8]
	}
	if fmt.Sprint(es) != fmt.Sprint(m.eff[f]) {
		m.eff[f] = es
		m.changed = true
	}
}

func isTry(c *ssa.Call) bool {
	op, _ := lockCall(c.Common())
	return op == "try"
}

// forCallers: what an unexported helper leaves locked or unlocks is checked where it is called.
func (m *lockModel) forCallers(f *ssa.Function) bool {
	if m.spawned[f] {
		return false
	}
	return f.Parent() != nil || !token.IsExported(f.Name()) && len(m.p.callersOf()[f]) > 0
}

func ruleC08(c *Ctx) {
	p := c.p
	c.rule("balance", "every path out of a function has released the locks it acquired and unlocks only what it holds (helpers that lock for their callers are judged in their callers)")
	c.rule("reacquire", "no path acquires a lock that it, or a function that called it, already holds")
	c.rule("order", "the order in which locks are acquired while others are held, through all calls, has no cycle")
	c.rule("wait", "no lock is held while waiting for goroutines that need it")
	m := &lockModel{c: c, p: p, eff: map[*ssa.Function][]lockEffect{}, acq: map[*ssa.Function]map[lockName]ssa.Instruction{}, edges: map[[2]string]string{}, spawned: map[*ssa.Function]bool{}}
	var fs []*ssa.Function
	for _, f := range p.funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		fs = append(fs, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
						m.spawned[mc.Fn.(*ssa.Function)] = true
					} else if g.Call.StaticCallee() != nil {
						m.spawned[g.Call.StaticCallee()] = true
					}
				}
			}
		}
	}
	for n := 0; n < 15; n++ {
		m.changed = false
		for _, f := range fs {
			m.flow(f)
		}
		if !m.changed {
			break
		}
	}
	if m.changed {
		c.fail("undecided", "summaries", 0, nil, "the lock summaries did not stabilise")
	}
	m.report = true
	for _, f := range fs {
		m.flow(f)
	}
	// cycles of the order
	succ := map[string][]string{}
	for e := range m.edges {
		c.count("ordered pairs", 1)
		c.sample(e[0] + " before " + e[1])
		succ[e[0]] = append(succ[e[0]], e[1])
	}
	for e, at := range m.edges {
		if strings.HasPrefix(e[1], "wait:") {
			continue
		}
		seen := map[string]bool{}
		var reach func(a string) bool
		reach = func(a string) bool {
			if a == e[0] {
				return true
			}
			if seen[a] {
				return false
			}
			seen[a] = true
			for _, b := range succ[a] {
				if reach(b) {
					return true
				}
			}
			return false
		}
		if reach(e[1]) {
			c.fail("order", e[0]+" "+e[1], 0, nil, "%s acquires %s while %s is held, and elsewhere %s is (directly or not) acquired while %s is held", at, e[1], e[0], e[0], e[1])
		}
	}
	m.waits(fs)
	for range fs {
		c.count("functions with summaries", 1)
	}
	c.floor("acquisitions", 8)
}

// waits: edges (lock, wait group): the goroutines that end the wait must not need the lock first.
func (m *lockModel) waits(fs []*ssa.Function) {
	// doers: the goroutines that call Done on a wait group of the class
	doers := map[string][]*ssa.Function{}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if op, recv := lockCall(cc.Common()); op == "done" {
					k := m.lock(recv).class
					doers[k] = append(doers[k], f)
				}
			}
		}
	}
	for e, at := range m.edges {
		if !strings.HasPrefix(e[1], "wait:") {
			continue
		}
		w := e[1][5:]
		for _, d := range doers[w] {
			reach := m.p.reaches(func(g *ssa.Function) bool { return g == d }, false)
			for g := range m.spawned {
				if !reach[g] {
					continue
				}
				m.c.count("goroutines waited for", 1)
				for l, site := range m.acq[g] {
					if l.class == e[0] {
						m.c.fail("wait", fname(g)+" "+l.class, instrPos(site), nil, "%s acquires %s, which %s holds while it waits for that goroutine (%s)", fname(g), l.class, at, w)
					}
				}
			}
		}
	}
}
