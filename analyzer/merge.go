package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Property simulation (ESP): with Config.Merge, states that meet at a control-flow join with the same
// call stack, the same monitor state and the same partition (known nilness/truth of the live errors and
// booleans) are joined: equal values are kept, different ones become a join value, facts are intersected.

type mergeCell struct {
	st    *State
	jt    map[*Term]string // join term -> slot that holds it
	times int
}

var errType = types.Universe.Lookup("error").Type()

func (x *Exec) mergePoint(st *State) bool {
	fr := st.top()
	if len(fr.blk.Preds) < 2 {
		return false
	}
	n := 0
	for _, in := range fr.blk.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return fr.idx == n
}

func (x *Exec) mergeKey(st *State) string {
	var sb strings.Builder
	for fi, fr := range st.frames {
		fmt.Fprintf(&sb, "%s/%p:%d:%d{", fr.ctx, fr.fn, fr.blk.Index, fr.idx)
		lv := x.liveOf(fr.fn).point(fr.blk, fr.idx)
		var ks []string
		for v, t := range fr.env {
			if !lv[v] {
				continue
			}
			if n, ok := t.intVal(); ok && x.litCounter(v) {
				ks = append(ks, fmt.Sprintf("%s#%d", v.Name(), n))
			}
			if x.cfg.PartVal != nil {
				if k := x.cfg.PartVal(st, v, t); k != "" {
					ks = append(ks, v.Name()+":"+k)
				}
			}
			switch u := v.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 && (fi == len(st.frames)-1 || x.cfg.PartAll) {
					if b, k := st.evalBool(t); k {
						ks = append(ks, fmt.Sprintf("%s=%v", v.Name(), b))
					}
				}
			case *types.Interface:
				if types.Identical(v.Type(), errType) {
					if b, k := st.nilness(t); k {
						ks = append(ks, fmt.Sprintf("%s~%v", v.Name(), b))
					}
				}
			case *types.Pointer:
				if x.cfg.PartPtr && v.Name()[0] != '&' {
					if b, k := st.nilness(t); k && b {
						ks = append(ks, fmt.Sprintf("%s~%v", v.Name(), b))
					}
				}
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		sb.WriteByte('}')
		for _, d := range fr.defers {
			fmt.Fprintf(&sb, "d%p", d.site)
		}
	}
	var ms []string
	for k, v := range st.mon {
		if k[0] == '?' {
			continue // must-information, joined
		}
		ms = append(ms, k+"="+strconv.Itoa(v.ID))
	}
	if x.cfg.PartFacts != nil {
		for t, v := range st.facts {
			if x.cfg.PartFacts(t) {
				ms = append(ms, fmt.Sprintf("f%d=%v", t.ID, v))
			}
		}
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ";"))
	if os.Getenv("VMERGE") == "2" {
		fmt.Println("KEY", st.mon, sb.String())
	}
	return sb.String()
}

func substAll(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	changed := false
	var na []*Term
	for i, a := range t.Args {
		n := substAll(a, m)
		if n != a && !changed {
			changed = true
			na = append([]*Term(nil), t.Args...)
		}
		if changed {
			na[i] = n
		}
	}
	if !changed {
		return t
	}
	r := mkT(t.Typ, t.Op, t.Str, na...)
	if r.Fn == nil {
		r.Fn = t.Fn
	}
	return r
}

// unifiable: two places reached by the same path from the same object, apart from indices (or two values
// read from such places); their join is the place with the joined index.
func unifiable(a, b *Term) bool {
	switch a.Op {
	case "ld", "fld":
		return a.Str == b.Str && len(a.Args) == 1 && len(b.Args) == 1 && (a.Args[0] == b.Args[0] || a.Args[0].Op == b.Args[0].Op && unifiable(a.Args[0], b.Args[0]))
	case "out":
		return a.Str == "hv" && b.Str == "hv" && len(a.Args) == 2 && len(b.Args) == 2 && a.Args[0] == b.Args[0] && a.Args[1].Op == b.Args[1].Op && unifiable(a.Args[1], b.Args[1])
	case "app":
		return a.Str == "len" && b.Str == "len" && len(a.Args) == 1 && len(b.Args) == 1 && a.Args[0].Op == b.Args[0].Op && unifiable(a.Args[0], b.Args[0])
	case "idx":
		return len(a.Args) == 2 && len(b.Args) == 2 && (a.Args[0] == b.Args[0] || a.Args[0].Op == b.Args[0].Op && unifiable(a.Args[0], b.Args[0]))
	}
	return false
}

type slotVal struct {
	name string
	set  func(*State, *Term)
	a, b *Term
	typ  types.Type
}

// join merges nw into cell; returns the state to continue with, or nil when nothing new.
func (x *Exec) join(k string, nw *State) *State {
	c := x.merged[k]
	if c == nil {
		x.merged[k] = &mergeCell{st: nw.clone(), jt: map[*Term]string{}}
		return nw
	}
	c.times++
	pid, ok := x.mergeIDs[k]
	if !ok {
		pid = len(x.mergeIDs) + 1
		x.mergeIDs[k] = pid
	}
	old := c.st
	// a join value of this point that is not in its slot any more is an older instance
	slotOf := func(s *State, name string) *Term {
		if strings.HasPrefix(name, "s?") {
			return s.mon[name[1:]]
		}
		if strings.HasPrefix(name, "m") {
			for l, v := range s.mem {
				if "m"+strconv.Itoa(l.ID) == name {
					return v
				}
			}
			return nil
		}
		return x.envSlot(s, name)
	}
	var js []*Term
	for j := range c.jt {
		js = append(js, j)
	}
	sort.Slice(js, func(a, b int) bool { return js[a].ID < js[b].ID })
	for _, j := range js {
		if v := slotOf(nw, c.jt[j]); v == nil || !v.contains(j) {
			x.produced[j] = true
			x.kill(nw, j)
		}
	}
	var slots []slotVal
	for i := range old.frames {
		fa, fb := old.frames[i], nw.frames[i]
		lv := x.liveOf(fa.fn).point(fa.blk, fa.idx)
		var vs []ssa.Value
		for v := range fa.env {
			if lv[v] {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
		for _, v := range vs {
			b, ok := fb.env[v]
			if !ok || b == fa.env[v] {
				continue
			}
			i, v := i, v
			slots = append(slots, slotVal{name: "e" + strconv.Itoa(i) + ":" + v.Name(), a: fa.env[v], b: b, typ: v.Type(),
				set: func(s *State, t *Term) {
					f := s.frames[i].clone()
					f.env[v] = t
					s.frames[i] = f
				}})
		}
		for di := range fa.defers {
			if di >= len(fb.defers) {
				break
			}
			for ai := range fa.defers[di].args {
				if a, b := fa.defers[di].args[ai], fb.defers[di].args[ai]; a != b {
					i, di, ai := i, di, ai
					slots = append(slots, slotVal{name: fmt.Sprintf("d%d:%d:%d", i, di, ai), a: a, b: b, typ: a.Typ,
						set: func(s *State, t *Term) {
							f := s.frames[i].clone()
							na := append([]*Term(nil), f.defers[di].args...)
							na[ai] = t
							f.defers[di].args = na
							s.frames[i] = f
						}})
				}
			}
		}
	}
	locs := map[*Term]bool{}
	for l := range old.mem {
		locs[l] = true
	}
	for l := range nw.mem {
		locs[l] = true
	}
	var ls []*Term
	for l := range locs {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].ID < ls[j].ID })
	for _, l := range ls {
		a, oka := old.mem[l]
		b, okb := nw.mem[l]
		if oka && okb && a == b {
			continue
		}
		typ := l.Typ
		if typ != nil {
			if p, ok := typ.Underlying().(*types.Pointer); ok {
				typ = p.Elem()
			}
		}
		if !oka {
			a = missing(old, l, typ)
		}
		if !okb {
			b = missing(nw, l, typ)
		}
		if a == b {
			if !oka {
				l, a := l, a
				slots = append(slots, slotVal{name: "=", a: a, b: a, set: func(s *State, t *Term) { s.mem[l] = a }})
			}
			continue
		}
		l := l
		slots = append(slots, slotVal{name: "m" + strconv.Itoa(l.ID), a: a, b: b, typ: typ,
			set: func(s *State, t *Term) { s.mem[l] = t }})
	}
	res := old.clone()
	changed := false
	for _, k := range sortedKeys(old.mon) {
		if k[0] != '?' {
			continue
		}
		a, b := old.mon[k], nw.mon[k]
		if b == nil {
			delete(res.mon, k)
			changed = true
		} else if a != b {
			k := k
			slots = append(slots, slotVal{name: "s" + k, a: a, b: b, typ: a.Typ, set: func(s *State, t *Term) { s.mon[k] = t }})
		}
	}
	nj := map[*Term]string{}
	type pair struct{ a, b *Term }
	groups := map[pair]*Term{}
	var newTerms []slotVal
	var joinT func(slot, path string, a, b *Term, typ types.Type) *Term
	paths := map[pair]*Term{} // structural joins of places
	joinT = func(slot, path string, a, b *Term, typ types.Type) *Term {
		if a == b {
			return a
		}
		if a.Op == b.Op && a.Str == b.Str && len(a.Args) == len(b.Args) && (a.Op == "struct" || a.Op == "iface" || a.Op == "tuple" || a.Op == "pair" || x.cfg.JoinPaths && unifiable(a, b)) {
			as := make([]*Term, len(a.Args))
			for i := range as {
				as[i] = joinT(slot, path+"."+strconv.Itoa(i), a.Args[i], b.Args[i], a.Args[i].Typ)
			}
			r := mkT(a.Typ, a.Op, a.Str, as...)
			r.Fn = a.Fn
			if x.cfg.JoinPaths && (a.Op == "ld" || a.Op == "fld" || a.Op == "idx" || a.Op == "out") {
				paths[pair{a, b}] = r
			}
			return r
		}
		pr := pair{a, b}
		if j, ok := groups[pr]; ok {
			return j
		}
		j := mkT(typ, "phi", "J"+strconv.Itoa(pid)+":"+path)
		if _, mine := c.jt[a]; mine {
			j = a // already a join value of this point
		}
		groups[pr] = j
		nj[j] = slot
		newTerms = append(newTerms, slotVal{a: a, b: b, name: path})
		x.produced[j] = true
		return j
	}
	for _, s := range slots {
		if s.name == "=" {
			s.set(res, s.a)
			continue
		}
		j := joinT(s.name, s.name, s.a, s.b, s.typ)
		if j != s.a {
			changed = true
			s.set(res, j)
		}
	}
	for j, n := range c.jt {
		if _, ok := nj[j]; !ok {
			nj[j] = n
		}
	}
	// facts: intersection, plus nilness/truth/sign agreed on by both sides
	add := map[*Term]bool{}
	addIv := map[*Term]interval{}
	for _, s := range newTerms {
		j := groups[pair{s.a, s.b}]
		na, ka := old.nilness(s.a)
		nb, kb := nw.nilness(s.b)
		if ka && kb && na == nb && !na {
			add[mkEq(j, tNil)] = na
		}
		if x.cfg.JoinPaths && s.a.Typ != nil && isBasic(types.Bool)(s.a.Typ) {
			va, ka := old.evalBool(s.a)
			vb, kb := nw.evalBool(s.b)
			if ka && kb && va == vb {
				add[j] = va
			}
		}
		if s.a.Typ != nil {
			ia, ib := old.ival(s.a), nw.ival(s.b)
			lo := ia.lo
			if ib.lo < lo {
				lo = ib.lo
			}
			// widening: only sign information survives
			if lo >= 1 {
				addIv[j] = interval{1, 1<<63 - 1}
			} else if lo >= 0 {
				addIv[j] = interval{0, 1<<63 - 1}
			}
		}
	}
	for pr, r := range paths {
		if lo := min(old.ival(pr.a).lo, nw.ival(pr.b).lo); lo >= 1 {
			addIv[r] = interval{1, 1<<63 - 1}
		} else if lo >= 0 {
			addIv[r] = interval{0, 1<<63 - 1}
		}
	}
	// a fact about the two sides of a join value holds for the join value
	keep := map[*Term]bool{}
	if x.cfg.JoinPaths {
		mine, toB := map[*Term]bool{}, map[*Term]*Term{}
		for _, s := range newTerms {
			if groups[pair{s.a, s.b}] == s.a {
				mine[s.a] = true
				toB[s.a] = s.b
			}
		}
		for t, v := range old.facts {
			if t.any(func(u *Term) bool { return mine[u] }) {
				if w, known := nw.evalBool(substAll(t, toB)); known && w == v {
					keep[t] = true
				}
			}
			for _, s := range newTerms {
				if mine[s.a] || t == s.a || !t.contains(s.a) {
					continue
				}
				one := map[*Term]*Term{s.a: s.b}
				for k, b := range toB {
					one[k] = b
				}
				if w, known := nw.evalBool(substAll(t, one)); known && w == v {
					n := substAll(t, map[*Term]*Term{s.a: groups[pair{s.a, s.b}]})
					if _, ok := old.facts[n]; !ok {
						add[n] = v
					}
				}
			}
		}
	}
	isJ := map[*Term]bool{}
	for _, s := range newTerms {
		isJ[groups[pair{s.a, s.b}]] = true
	}
	for t, v := range res.facts {
		stale := t.any(func(u *Term) bool { return isJ[u] })
		if stale && keep[t] {
			continue
		}
		if stale {
			if w, ok := add[t]; ok && w == v {
				continue
			}
			delete(res.facts, t)
			changed = true
			continue
		}
		if w, known := nw.evalBool(t); !known || w != v {
			delete(res.facts, t)
			changed = true
		}
	}
	for t, v := range add {
		if _, ok := res.facts[t]; !ok {
			res.facts[t] = v
		}
	}
	for t, v := range res.iv {
		if t.any(func(u *Term) bool { return isJ[u] }) {
			if w, ok := addIv[t]; ok {
				if w != v {
					res.iv[t] = w
					if w.lo < v.lo || w.hi > v.hi {
						changed = true
					}
				}
				continue
			}
			delete(res.iv, t)
			changed = true
			continue
		}
		w := nw.ival(t)
		if w.lo < v.lo || w.hi > v.hi {
			n := v
			if w.lo < v.lo {
				if w.lo >= 0 {
					n.lo = 0
					if w.lo >= 1 && v.lo >= 1 {
						n.lo = 1
					}
				} else {
					n.lo = -1 << 63
				}
			}
			if w.hi > v.hi {
				n.hi = 1<<63 - 1
			}
			if n.lo == -1<<63 && n.hi == 1<<63-1 {
				delete(res.iv, t)
			} else {
				res.iv[t] = n
			}
			changed = true
		}
	}
	for t, v := range addIv {
		if _, ok := res.iv[t]; !ok {
			res.iv[t] = v
		}
	}
	if !changed {
		return nil
	}
	if os.Getenv("VMERGE") != "" && c.times > 30 {
		fmt.Println("MERGE", c.times, k[:min(len(k), 300)])
		for _, s := range slots {
			fmt.Println("  slot", s.name, s.a, "|", s.b)
		}
		for t, v := range c.st.facts {
			if w, ok := res.facts[t]; !ok || w != v {
				fmt.Println("  fact", t, v)
			}
		}
	}
	if c.times > 400 {
		x.over = true
		return nil
	}
	c.st = res
	c.jt = nj
	out := res.clone()
	out.trace = nw.trace
	return out
}

func (x *Exec) envSlot(s *State, name string) *Term {
	var i int
	rest := name[1:]
	p := strings.IndexByte(rest, ':')
	i, _ = strconv.Atoi(rest[:p])
	if name[0] == 'd' {
		q := strings.Split(rest, ":")
		di, _ := strconv.Atoi(q[1])
		ai, _ := strconv.Atoi(q[2])
		if i < len(s.frames) && di < len(s.frames[i].defers) {
			return s.frames[i].defers[di].args[ai]
		}
		return nil
	}
	vn := rest[p+1:]
	for v, t := range s.frames[i].env {
		if v.Name() == vn {
			return t
		}
	}
	return nil
}

// missing: what the location holds in a state that has no entry for it.
func missing(s *State, l *Term, typ types.Type) *Term {
	if l.Op == "fld" || l.Op == "idx" || l.Op == "alloc" {
		if typ != nil && !strings.HasPrefix(l.Str, "#") {
			return s.load(l, typ)
		}
	}
	return mk("ld", "", l)
}
