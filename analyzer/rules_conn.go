package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- shared model of broker connections

type connModel struct {
	connKey string   // "Broker.conn"
	locks   []string // lock field keys of Broker
}

func newConnModel(c *Ctx) *connModel {
	fs := c.p.fieldsByType("Broker", func(t types.Type) bool { return typeIs(t, "net.Conn") })
	if len(fs) != 1 {
		c.fail("anchor", "Broker.conn", token.NoPos, nil, "Broker must have exactly one net.Conn field, found %v", fs)
		return nil
	}
	m := &connModel{connKey: "Broker." + fs[0]}
	for _, f := range c.p.fieldsByType("Broker", isLockType) {
		m.locks = append(m.locks, "Broker."+f)
	}
	return m
}

// owner tells which broker object's connection the term is (nil: none).
func (m *connModel) owner(st *State, t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	if l := fieldLoc(t); l != nil && l.Op == "fld" && l.Str == m.connKey {
		return l.Args[0]
	}
	if t.isConst() {
		return nil
	}
	for l, v := range st.mem {
		if v == t && l.Op == "fld" && l.Str == m.connKey {
			return l.Args[0]
		}
	}
	return nil
}

// ioEvent: does this event exchange bytes on (or leak) a broker connection? returns the owner and a description.
func (m *connModel) ioEvent(st *State, ev *Event) (*Term, string) {
	switch ev.Kind {
	case "call":
		switch ev.Name {
		case "net.Conn.Close", "net.Conn.LocalAddr", "net.Conn.RemoteAddr":
			return nil, ""
		}
		if ev.Fn != nil && ev.Fn.Blocks != nil && strings.HasPrefix(pkgOf(ev.Fn), modPath) {
			return nil, ""
		}
		if strings.Contains(ev.Name, "logr.Logger") || strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "builtin.") {
			return nil, ""
		}
		for _, a := range ev.Args {
			if o := m.owner(st, a); o != nil {
				return o, ev.Name
			}
		}
	case "store":
		if ev.Loc.Op == "fld" && ev.Loc.Str != m.connKey && ev.Loc.Str[0] != '#' {
			if o := m.owner(st, ev.Val); o != nil {
				return o, "hand-out as " + ev.Loc.Str
			}
		}
	}
	return nil, ""
}

// touchesConn: functions with a direct use of the connection field.
func (m *connModel) touchesConn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldKey(fa) == m.connKey {
				return true
			}
		}
	}
	return false
}

// heldSet keeps the locks held in monitor keys "L:<termid>"
func holdLock(st *State, l *Term)   { st.set("L:"+itoa(l.ID), l) }
func dropLock(st *State, l *Term)   { st.set("L:"+itoa(l.ID), nil) }
func holds(st *State, l *Term) bool { return st.get("L:"+itoa(l.ID)) != nil }
func heldLocks(st *State) []*Term {
	var out []*Term
	for k, v := range st.mon {
		if strings.HasPrefix(k, "L:") {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func trackLocks(st *State, ev *Event) {
	op, l := lockOp(st, ev)
	switch op {
	case "Lock":
		holdLock(st, l)
	case "Unlock":
		dropLock(st, l)
	}
}

// lowLevel are exported building blocks documented as not to be called directly
// (Broker.Request: "user should call RequestAndGet() to get the response"); they are judged inside their callers.
var lowLevel = map[string]bool{"Broker.Request": true, "ReadParser.Read": true, "defaultReadParser.Read": true, "defaultReadParser.ReadAndParse": true, "defaultReadParser.Parse": true}

func isEntry(p *Prog, f *ssa.Function, callers map[*ssa.Function][]*ssa.Function, spawned map[*ssa.Function]bool) bool {
	if lowLevel[fname(f)] {
		return false
	}
	if spawned[f] {
		return true
	}
	if f.Parent() == nil && token.IsExported(f.Name()) {
		return true
	}
	return len(callers[f]) == 0
}

func (p *Prog) spawnedFuncs() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if c := g.Call.StaticCallee(); c != nil {
						m[c] = true
					}
				}
			}
		}
	}
	return m
}

// isCodec: pure encoders/decoders, never inlined by the path rules.
func isCodec(f *ssa.Function) bool {
	n := f.Name()
	if f.Signature.Recv() != nil {
		switch n {
		case "Encode", "length", "Decode", "decode", "encode", "EncodeTo", "String", "Error":
			return true
		}
	}
	if f.Signature.Recv() == nil && (strings.HasPrefix(n, "New") || strings.HasPrefix(n, "Decode") || strings.HasPrefix(n, "new") || strings.HasPrefix(n, "decode")) && f.Signature.Params().Len() > 0 {
		if s, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return true
			}
		}
	}
	return false
}

func itoa(i int) string { return tInt(int64(i)).Str }

// bottomUp orders functions callees-first (cycles broken arbitrarily).
func (p *Prog) bottomUp(set map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if state[f] != 0 {
			return
		}
		state[f] = 1
		for _, g := range p.callees(f, true) {
			if set[g] {
				visit(g)
			}
		}
		state[f] = 2
		out = append(out, f)
	}
	for _, f := range p.funcs {
		if set[f] {
			visit(f)
		}
	}
	return out
}
