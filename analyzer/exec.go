package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Disjunctive dataflow over the inlined supergraph ("trace partitioning"):
// a state is (program point, value environment, abstract heap, path facts,
// monitor state); states reaching the same point are merged when equal after
// dead values are dropped; loop-carried scalars are widened, so the set of
// states is finite.  No solver, no concrete inputs.
// ---------------------------------------------------------------------------

type deferRec struct {
	site  ssa.CallInstruction
	fn    *ssa.Function // nil: opaque
	fnT   *Term
	args  []*Term
	binds []*Term
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]*Term
	blk     *ssa.BasicBlock
	idx     int
	defers  []deferRec
	ctx     string
	call    ssa.CallInstruction // call in the caller (nil for root / deferred)
	isDef   bool
	args    []*Term
	retHook func(*State, *Term) *Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferRec(nil), f.defers...)
	return &n
}

type interval struct{ lo, hi int64 }

type traceNode struct {
	s      string
	parent *traceNode
	n      int
}

type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	iv     map[*Term]interval
	mon    map[string]*Term
	trace  *traceNode
	dead   bool
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)), facts: make(map[*Term]bool, len(s.facts)),
		iv: make(map[*Term]interval, len(s.iv)), mon: make(map[string]*Term, len(s.mon)), trace: s.trace}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.iv {
		n.iv[k] = v
	}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	n.frames = append([]*Frame(nil), s.frames...)
	n.frames[len(n.frames)-1] = s.top().clone()
	return n
}

func (s *State) note(format string, a ...any) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{fmt.Sprintf(format, a...), s.trace, n}
}

func (s *State) path() []string {
	var r []string
	for t := s.trace; t != nil; t = t.parent {
		r = append(r, t.s)
		if len(r) > 40 {
			r = append(r, "...")
			break
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) depth() int { return len(s.frames) }

// monitor state helpers
func (s *State) get(k string) *Term { return s.mon[k] }
func (s *State) flag(k string) bool { return s.mon[k] == tTrue }
func (s *State) set(k string, t *Term) {
	if t == nil {
		delete(s.mon, k)
		return
	}
	s.mon[k] = t
}
func (s *State) setFlag(k string, b bool) {
	if b {
		s.mon[k] = tTrue
	} else {
		delete(s.mon, k)
	}
}
func (s *State) count(k string) int {
	v, _ := s.mon[k].intVal()
	return int(v)
}
func (s *State) incr(k string, max int) {
	c := s.count(k) + 1
	if c > max {
		c = max
	}
	s.mon[k] = tInt(int64(c))
}

type Event struct {
	Kind string // enter leave call store load send recv close select go return panic mapupdate deref assert branch lock unlock
	Fn   *ssa.Function
	Name string
	Args []*Term
	Res  *Term
	Loc  *Term
	Val  *Term
	Idx  int
	Site ssa.Instruction
	Typ  types.Type
	// loop events
	Block *ssa.BasicBlock
}

type Outcome struct {
	Res   *Term // single result or tuple
	Facts []Fact
	Set   map[string]*Term
	Tag   string
}
type Fact struct {
	T *Term
	V bool
}

type Config struct {
	Inline    func(x *Exec, st *State, fn *ssa.Function) bool
	Hook      func(x *Exec, st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool)
	Event     func(x *Exec, st *State, ev *Event)
	Volatile  func(key string) bool
	MaxState  int
	Spawn     bool                                  // explore go statements as further roots
	Merge     bool                                  // join states at control-flow joins (property simulation)
	JoinPaths bool                                  // join places structurally (x[0].f and x[i].f become x[j].f)
	PartAll   bool                                  // partition on booleans of every frame, not only the top one
	PartPtr   bool                                  // partition on known-nil pointers
	PartVal   func(*State, ssa.Value, *Term) string // further properties of registers to partition on
	PartFacts func(*Term) bool                      // further facts to partition on
	NoGoDefer bool
	NoTiny    bool // do not inline small helpers
}

type Exec struct {
	litMemo  map[*ssa.Phi]bool
	p        *Prog
	cfg      *Config
	root     *ssa.Function
	seen     map[string]bool
	work     []*State
	states   int
	over     bool
	live     map[*ssa.Function]*liveness
	report   func(st *State, key string, site ssa.Instruction, msg string)
	spawned  []*State
	spawnKey map[string]bool
	ctxIDs   map[string]string
	produced map[*Term]bool
	edges    int
	calls    map[string]int
	merged   map[string]*mergeCell
	mergeIDs map[string]int
}

func newExec(p *Prog, cfg *Config) *Exec {
	if cfg.MaxState == 0 {
		cfg.MaxState = 400000
	}
	return &Exec{p: p, cfg: cfg, seen: map[string]bool{}, live: map[*ssa.Function]*liveness{}, spawnKey: map[string]bool{}, ctxIDs: map[string]string{}, produced: map[*Term]bool{}, calls: map[string]int{}, merged: map[string]*mergeCell{}, mergeIDs: map[string]int{}}
}

// Root starts the analysis of fn with symbolic parameters.
func (x *Exec) Root(fn *ssa.Function) *State {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, blk: fn.Blocks[0], ctx: ""}
	st := &State{frames: []*Frame{fr}, mem: map[*Term]*Term{}, facts: map[*Term]bool{}, iv: map[*Term]interval{}, mon: map[string]*Term{}}
	for i, p := range fn.Params {
		nm := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			nm = "recv"
		}
		t := mkT(p.Type(), "param", nm)
		fr.env[p] = t
		fr.args = append(fr.args, t)
	}
	for _, fv := range fn.FreeVars {
		// captured variables: cells with unknown content
		fr.env[fv] = mkT(fv.Type(), "param", "^"+fv.Name())
	}
	return st
}

func (x *Exec) Run(fn *ssa.Function, st *State) {
	x.root = fn
	if st == nil {
		st = x.Root(fn)
	}
	x.push(st)
	x.loop()
	if x.cfg.Spawn {
		for i := 0; i < len(x.spawned); i++ {
			x.push(x.spawned[i])
			x.loop()
		}
	}
}

func (x *Exec) push(st *State) {
	if st.dead {
		return
	}
	x.gc(st)
	if x.cfg.Merge {
		if x.mergePoint(st) {
			k := x.mergeKey(st)
			if st = x.join(k, st); st == nil {
				return
			}
		}
	} else {
		k := x.key(st)
		if x.seen[k] {
			return
		}
		x.seen[k] = true
	}
	x.states++
	if x.states > x.cfg.MaxState {
		x.over = true
		return
	}
	x.work = append(x.work, st)
}

func (x *Exec) loop() {
	for len(x.work) > 0 && !x.over {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(st)
	}
}

// ---------------------------------------------------------------- liveness

type liveness struct {
	in  []map[ssa.Value]bool
	mid map[[2]int]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (x *Exec) liveOf(fn *ssa.Function) *liveness {
	if l, ok := x.live[fn]; ok {
		return l
	}
	l := &liveness{mid: map[[2]int]map[ssa.Value]bool{}}
	n := len(fn.Blocks)
	l.in = make([]map[ssa.Value]bool, n)
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			s := l.at(fn.Blocks[i], 0)
			if len(s) != len(l.in[i]) {
				l.in[i] = s
				changed = true
			}
		}
	}
	x.live[fn] = l
	return l
}

// at computes the values live before instruction idx of b.
func (l *liveness) at(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	s := map[ssa.Value]bool{}
	for _, succ := range b.Succs {
		pi := -1
		for k, p := range succ.Preds {
			if p == b {
				pi = k
			}
		}
		phis := map[ssa.Value]bool{}
		for _, in := range succ.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[ph] = true
			if tracked(ph.Edges[pi]) {
				s[ph.Edges[pi]] = true
			}
		}
		for v := range l.in[succ.Index] {
			if !phis[v] {
				s[v] = true
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(s, v)
		}
		if ph, ok := in.(*ssa.Phi); ok {
			_ = ph
			s[ph] = true // phis are bound on the edge
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && tracked(*op) {
				s[*op] = true
			}
		}
	}
	return s
}

func (l *liveness) point(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	k := [2]int{b.Index, idx}
	if s, ok := l.mid[k]; ok {
		return s
	}
	s := l.at(b, idx)
	l.mid[k] = s
	return s
}

// ---------------------------------------------------------------- gc and keys

func (x *Exec) gc(st *State) {
	roots := map[*Term]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "alloc" || t.Op == "call" || t.Op == "old" || t.Op == "phi" {
			roots[t] = true
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for fi, fr := range st.frames {
		idx := fr.idx
		lv := x.liveOf(fr.fn).point(fr.blk, idx)
		for v := range fr.env {
			if !lv[v] {
				if fi == len(st.frames)-1 {
					delete(fr.env, v)
				}
				continue
			}
			mark(fr.env[v])
		}
		for _, d := range fr.defers {
			for _, a := range d.args {
				mark(a)
			}
			for _, a := range d.binds {
				mark(a)
			}
			mark(d.fnT)
		}
		if fi < len(st.frames)-1 {
			// call result of the pending call is not yet bound; args of the frame above are in its env
		}
	}
	for _, t := range st.mon {
		mark(t)
	}
	// heap: values stored in non-alloc rooted locations stay; alloc contents only if the alloc is reachable
	for changed := true; changed; {
		changed = false
		for l, v := range st.mem {
			if seen[v] {
				continue
			}
			r := locBase(l)
			if r.Op == "alloc" || r.Op == "old" || r.Op == "call" {
				if !seen[r] {
					continue
				}
			}
			mark(v)
			changed = true
		}
	}
	for l := range st.mem {
		r := locBase(l)
		if (r.Op == "alloc" || r.Op == "old" || r.Op == "call") && !seen[r] {
			delete(st.mem, l)
		}
	}
	okFact := func(t *Term) bool {
		return !t.any(func(u *Term) bool {
			switch u.Op {
			case "alloc", "call", "phi", "vol":
				return !seen[u]
			case "old":
				return !seen[u]
			}
			return false
		})
	}
	for t := range st.facts {
		if t.inst && !okFact(t) {
			delete(st.facts, t)
		}
	}
	for t := range st.iv {
		if t.inst && !okFact(t) {
			delete(st.iv, t)
		}
	}
}

func locBase(l *Term) *Term {
	for l.Op == "fld" || l.Op == "idx" {
		l = l.Args[0]
	}
	return l
}

func (x *Exec) key(st *State) string {
	var sb strings.Builder
	for _, fr := range st.frames {
		sb.WriteString(fr.ctx)
		sb.WriteString("/")
		sb.WriteString(fr.fn.String())
		fmt.Fprintf(&sb, ":%d:%d{", fr.blk.Index, fr.idx)
		lv := x.liveOf(fr.fn).point(fr.blk, fr.idx)
		ks := make([]string, 0, len(fr.env))
		for v, t := range fr.env {
			if lv[v] {
				ks = append(ks, v.Name()+"="+strconv.Itoa(t.ID))
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		sb.WriteString("}")
		for _, d := range fr.defers {
			fmt.Fprintf(&sb, "d%p", d.site)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.ID)
			}
		}
	}
	pairs := make([]string, 0, len(st.mem)+len(st.facts))
	for l, v := range st.mem {
		pairs = append(pairs, fmt.Sprintf("m%d=%d", l.ID, v.ID))
	}
	for t, v := range st.facts {
		pairs = append(pairs, fmt.Sprintf("f%d=%v", t.ID, v))
	}
	for t, v := range st.iv {
		pairs = append(pairs, fmt.Sprintf("i%d=%d:%d", t.ID, v.lo, v.hi))
	}
	for k, v := range st.mon {
		pairs = append(pairs, fmt.Sprintf("s%s=%d", k, v.ID))
	}
	sort.Strings(pairs)
	sb.WriteString(strings.Join(pairs, ";"))
	return sb.String()
}

// kill renames an instance term that is about to be produced again.
func (x *Exec) kill(st *State, t *Term) {
	if !x.produced[t] {
		x.produced[t] = true
		return
	}
	old := mkOld(t)
	found := false
	memo := map[*Term]*Term{}
	// facts about even older instances are dropped below: keep what is known of the errors among them
	older := func(u *Term) *Term {
		if u == nil || u.Typ == nil || !types.Identical(u.Typ, errType) || !u.contains(old) || nonNilTerm(u) {
			return nil
		}
		if n, k := st.nilness(u); k && !n {
			return mkT(u.Typ, "deep", "!older")
		}
		return nil
	}
	for i, fr := range st.frames {
		var nf *Frame
		for v, u := range fr.env {
			if r := older(u); r != nil {
				if nf == nil {
					nf = fr.clone()
					st.frames[i] = nf
				}
				nf.env[v] = r
			}
		}
	}
	for l, u := range st.mem {
		if r := older(u); r != nil {
			st.mem[l] = r
		}
	}
	for k, u := range st.mon {
		if strings.HasPrefix(k, "~phi") {
			if r := older(u); r != nil {
				st.mon[k] = r
			}
		}
	}
	s := func(u *Term) *Term {
		if u == nil {
			return nil
		}
		r := subst(u, t, old, memo)
		if r != u {
			found = true
		}
		return r
	}
	for i, fr := range st.frames {
		var nf *Frame
		for v, u := range fr.env {
			if r := s(u); r != u {
				if nf == nil {
					nf = fr.clone()
					st.frames[i] = nf
				}
				nf.env[v] = r
			}
		}
		for di := range fr.defers {
			for ai, a := range fr.defers[di].args {
				if r := s(a); r != a {
					if nf == nil {
						nf = fr.clone()
						st.frames[i] = nf
					}
					na := append([]*Term(nil), nf.defers[di].args...)
					na[ai] = r
					nf.defers[di].args = na
				}
			}
			for ai, a := range fr.defers[di].binds {
				if r := s(a); r != a {
					if nf == nil {
						nf = fr.clone()
						st.frames[i] = nf
					}
					na := append([]*Term(nil), nf.defers[di].binds...)
					na[ai] = r
					nf.defers[di].binds = na
				}
			}
		}
	}
	for k, u := range st.mon {
		if r := s(u); r != u {
			st.mon[k] = r
		}
	}
	nm := map[*Term]*Term{}
	for l, v := range st.mem {
		nm[s(l)] = s(v)
	}
	nf := map[*Term]bool{}
	for f, v := range st.facts {
		g := s(f)
		if g.contains(old) && g == f {
			continue // facts about an even older instance are dropped
		}
		nf[g] = v
	}
	ni := map[*Term]interval{}
	for f, v := range st.iv {
		g := s(f)
		if g.contains(old) && g == f {
			continue
		}
		ni[g] = v
	}
	if found {
		st.mem = nm
		st.facts = nf
		st.iv = ni
	}
}

// ---------------------------------------------------------------- facts

func nonNilTerm(t *Term) bool {
	switch t.Op {
	case "alloc", "fld", "func", "closure", "iface", "global", "idx":
		return true
	case "const":
		return t.Str != "nil"
	case "app", "call":
		n := t.Str
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		switch n {
		case "fmt.Errorf", "errors.New", "errors.Join!", "append", "context.WithCancel", "bytes.NewBuffer", "bytes.NewReader", "strings.Split", "github.com/pkg/errors.Errorf":
			return true
		}
	case "slice":
		return nonNilTerm(t.Args[0])
	case "ld":
		// package-level error values and the like
		if t.Args[0].Op == "global" && t.Typ != nil && types.Identical(t.Typ, types.Universe.Lookup("error").Type()) {
			return true
		}
	case "old":
		return nonNilTerm(t.Args[0])
	case "deep":
		return strings.HasPrefix(t.Str, "!")
	}
	return false
}

func (st *State) nilness(t *Term) (isNil, known bool) {
	if t == tNil {
		return true, true
	}
	if nonNilTerm(t) {
		return false, true
	}
	if v, ok := st.facts[mkEq(t, tNil)]; ok {
		return v, true
	}
	if t.Op == "res" && t.Str == "0" && len(t.Args) == 1 && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Str, "lookup@") && t.Typ != nil && nilable(t.Typ) {
		// the value of a failed map lookup
		if v, ok := st.facts[mkT(types.Typ[types.Bool], "res", "1", t.Args[0])]; ok && !v {
			return true, true
		}
	}
	return false, false
}

func (st *State) ival(t *Term) interval {
	if c, ok := t.intVal(); ok {
		return interval{c, c}
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if v, ok := st.iv[t]; ok {
		lo, hi = v.lo, v.hi
	}
	if t.Op == "app" && (t.Str == "len" || t.Str == "cap") && lo < 0 {
		lo = 0
		if t.Args[0].Op == "app" && t.Args[0].Str == "append" && len(t.Args[0].Args) > 1 {
			a := t.Args[0].Args[1]
			if a.Op == "slice" && a.Args[0].Op == "alloc" && lo < 1 {
				lo = 1
			}
		}
	}
	if t.Typ != nil && lo < 0 {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			lo = 0
		}
	}
	if t.Op == "bin" && len(t.Args) == 2 && (t.Str == "+" || t.Str == "-") {
		a, b := st.ival(t.Args[0]), st.ival(t.Args[1])
		if t.Str == "+" {
			if a.lo > math.MinInt64/2 && b.lo > math.MinInt64/2 && a.lo+b.lo > lo {
				lo = a.lo + b.lo
			}
		}
	}
	return interval{lo, hi}
}

func freshErr(t *Term) bool {
	for t.Op == "old" {
		t = t.Args[0]
	}
	return (t.Op == "call" || t.Op == "app") && (strings.HasPrefix(t.Str, "fmt.Errorf") || strings.HasPrefix(t.Str, "errors.New"))
}

func (st *State) evalBool(t *Term) (bool, bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	if t.Op == "not" {
		v, k := st.evalBool(t.Args[0])
		return !v, k
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if a == tNil || b == tNil {
			o := a
			if a == tNil {
				o = b
			}
			if n, k := st.nilness(o); k {
				return n, true
			}
			return false, false
		}
		na, ka := st.nilness(a)
		nb, kb := st.nilness(b)
		if ka && kb && na != nb && !a.isConst() && !b.isConst() {
			return false, true
		}
		if (a.Op == "iface") != (b.Op == "iface") {
			// comparing an interface holding a concrete value with nil handled above
		}
		if a.Op == "iface" && b.Op == "iface" {
			if a.Str != b.Str {
				return false, true
			}
			return st.evalBool(mkEq(a.Args[0], b.Args[0]))
		}
		if freshErr(a) && b.Op == "ld" || freshErr(b) && a.Op == "ld" {
			return false, true
		}
		if a.Op == "iface" && b.Op == "ld" && b.Args[0].Op == "global" || b.Op == "iface" && a.Op == "ld" && a.Args[0].Op == "global" {
			// KafkaError(..) or *healerError against a sentinel made by errors.New/fmt.Errorf
			return false, true
		}
		if a.Op == "alloc" && b.Op == "alloc" {
			return false, true
		}
		_, ca := a.intVal()
		_, cb := b.intVal()
		if ca || cb {
			x, y := st.ival(a), st.ival(b)
			if x.hi < y.lo || y.hi < x.lo {
				return false, true
			}
			if x.lo == x.hi && y.lo == y.hi && x.lo == y.lo {
				return true, true
			}
		}
		// equality with a different constant
		if a.isConst() || b.isConst() {
			o, c := a, b
			if a.isConst() {
				o, c = b, a
			}
			for f, v := range st.facts {
				if v && f.Op == "eq" && (f.Args[0] == o && f.Args[1].isConst() && f.Args[1] != c || f.Args[1] == o && f.Args[0].isConst() && f.Args[0] != c) {
					return false, true
				}
			}
		}
		if v, ok := st.facts[mkLt(a, b)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkLt(b, a)]; ok && v {
			return false, true
		}
	case "lt":
		a, b := t.Args[0], t.Args[1]
		x, y := st.ival(a), st.ival(b)
		if x.hi < y.lo {
			return true, true
		}
		if x.lo >= y.hi {
			return false, true
		}
		if v, ok := st.facts[mkEq(a, b)]; ok && v {
			return false, true
		}
		if v, ok := st.facts[mkLt(b, a)]; ok && v {
			return false, true
		}
	case "app":
		if strings.HasPrefix(t.Str, "is:") {
			a := t.Args[0]
			if n, k := st.nilness(a); k && n {
				return false, true
			}
		}
		if t.Str == "errors.Is" && len(t.Args) == 2 {
			e, tg := t.Args[0], t.Args[1]
			if n, k := st.nilness(e); k && n {
				if n2, k2 := st.nilness(tg); k2 && !n2 {
					return false, true
				}
			}
			if e == tg {
				return true, true
			}
			if e.Op == "iface" && tg.Op == "iface" {
				if e.Str == "KafkaError" && tg.Str == "KafkaError" {
					return st.evalBool(mkEq(e.Args[0], tg.Args[0]))
				}
			}
			// two different Kafka codes cannot both match one KafkaError
			if tg.Op == "iface" && tg.Str == "KafkaError" && tg.Args[0].isConst() {
				for f, v := range st.facts {
					if v && f.Op == "app" && f.Str == "errors.Is" && f.Args[0] == e && f.Args[1] != tg && f.Args[1].Op == "iface" && f.Args[1].Str == "KafkaError" && f.Args[1].Args[0].isConst() {
						return false, true
					}
				}
			}
			// a sentinel (io.EOF, ...) and a Kafka code exclude each other
			isK := func(u *Term) bool { return u.Op == "iface" && u.Str == "KafkaError" }
			for f, v := range st.facts {
				if v && f.Op == "app" && f.Str == "errors.Is" && f.Args[0] == e && isK(f.Args[1]) != isK(tg) {
					return false, true
				}
			}
		}
		if t.Str == "os.IsTimeout" && len(t.Args) == 1 {
			if n, k := st.nilness(t.Args[0]); k && n {
				return false, true
			}
			if t.Args[0].Op == "iface" && t.Args[0].Str == "KafkaError" {
				return false, true
			}
		}
	}
	return false, false
}

// assume adds t==v to the path facts; false if that contradicts them.
func (st *State) assume(t *Term, v bool) bool {
	if k, known := st.evalBool(t); known {
		return k == v
	}
	if t.Op == "not" {
		return st.assume(t.Args[0], !v)
	}
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if c, ok := a.intVal(); ok {
			return st.assumeIv(b, c, v, t)
		}
		if c, ok := b.intVal(); ok {
			return st.assumeIv(a, c, v, t)
		}
		if a.Op == "iface" && b.Op == "iface" && a.Str == b.Str {
			return st.assume(mkEq(a.Args[0], b.Args[0]), v)
		}
		if v && a != tNil && b != tNil {
			// x == sentinel known non-nil
			if n, k := st.nilness(a); k && !n && !nonNilTerm(b) {
				st.facts[mkEq(b, tNil)] = false
			}
			if n, k := st.nilness(b); k && !n && !nonNilTerm(a) {
				st.facts[mkEq(a, tNil)] = false
			}
		}
	case "lt":
		a, b := t.Args[0], t.Args[1]
		if c, ok := b.intVal(); ok { // a < c
			iv := st.ival(a)
			if v {
				if c-1 < iv.hi {
					iv.hi = c - 1
				}
			} else if c > iv.lo {
				iv.lo = c
			}
			if iv.lo > iv.hi {
				return false
			}
			st.iv[a] = iv
			return true
		}
		if c, ok := a.intVal(); ok { // c < b
			iv := st.ival(b)
			if v {
				if c+1 > iv.lo {
					iv.lo = c + 1
				}
			} else if c < iv.hi {
				iv.hi = c
			}
			if iv.lo > iv.hi {
				return false
			}
			st.iv[b] = iv
			return true
		}
	case "app":
		if v && (strings.HasPrefix(t.Str, "is:") || t.Str == "errors.Is" || t.Str == "os.IsTimeout") {
			a := t.Args[0]
			if !nonNilTerm(a) {
				st.facts[mkEq(a, tNil)] = false
			}
		}
	}
	st.facts[t] = v
	return true
}

func (st *State) assumeIv(a *Term, c int64, v bool, atom *Term) bool {
	iv := st.ival(a)
	if v {
		if c < iv.lo || c > iv.hi {
			return false
		}
		st.iv[a] = interval{c, c}
		st.facts[atom] = true
		return true
	}
	if iv.lo == c {
		iv.lo++
		st.iv[a] = iv
	} else if iv.hi == c {
		iv.hi--
		st.iv[a] = iv
	} else {
		st.facts[atom] = false
	}
	return iv.lo <= iv.hi
}

// ---------------------------------------------------------------- heap

func (st *State) load(loc *Term, typ types.Type) *Term {
	if v, ok := st.mem[loc]; ok {
		// may have newer sub-entries
		if s, ok2 := st.loadStruct(loc, typ, v); ok2 {
			return s
		}
		return v
	}
	if s, ok := st.loadStruct(loc, typ, nil); ok {
		return s
	}
	// value inside a struct stored as a whole
	if loc.Op == "fld" {
		if pv, ok := st.parentVal(loc); ok {
			return pv
		}
		if t, ok := st.mem[mk("hv", loc.Str)]; ok {
			return mkT(typ, "out", "hv", t, loc)
		}
	}
	if loc.Op == "idx" && loc.Args[0].Op == "alloc" {
		if t, ok := st.mem[mk("some", "", loc.Args[0])]; ok {
			return mkT(typ, "out", "some", t, loc)
		}
	}
	base := locBase(loc)
	if base.Op == "alloc" || base.Op == "old" && base.Args[0].Op == "alloc" {
		if !strings.HasPrefix(base.Str, "?") && !(loc.Op == "idx" && !loc.Args[1].isConst()) {
			return zeroOf(typ)
		}
	}
	return mkT(typ, "ld", "", loc)
}

func (st *State) parentVal(loc *Term) (*Term, bool) {
	if loc.Op != "fld" {
		return nil, false
	}
	par := loc.Args[0]
	if v, ok := st.mem[par]; ok {
		// only if par is itself a struct location (embedded struct or *T cell)
		i := fieldIndexOf(v, loc.Str)
		return mkFsel(v, loc.Typ, loc.Str, i), true
	}
	if par.Op == "fld" {
		if pv, ok := st.parentVal(par); ok {
			i := fieldIndexOf(pv, loc.Str)
			return mkFsel(pv, loc.Typ, loc.Str, i), true
		}
	}
	return nil, false
}

func fieldIndexOf(v *Term, key string) int {
	if v.Typ == nil {
		return 0
	}
	s, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		return 0
	}
	n := fieldOnly(key)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
	}
	return 0
}

func (st *State) loadStruct(loc *Term, typ types.Type, whole *Term) (*Term, bool) {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	has := false
	for l := range st.mem {
		if l != loc && l.Op == "fld" && l.contains(loc) {
			has = true
			break
		}
	}
	base := locBase(loc)
	fresh := base.Op == "alloc"
	if !has {
		if whole != nil {
			return whole, true
		}
		if fresh {
			if _, ok := st.parentVal(loc); !ok {
				return zeroOf(typ), true
			}
		}
		return nil, false
	}
	tn := typeShort(typ)
	args := make([]*Term, s.NumFields())
	for i := range args {
		f := s.Field(i)
		args[i] = st.load(mkFld(loc, f.Type(), tn+"."+f.Name()), f.Type())
	}
	return mkT(typ, "struct", tn, args...), true
}

func (st *State) store(loc, val *Term, typ types.Type) {
	for l := range st.mem {
		if l != loc && (l.Op == "fld" || l.Op == "idx") && l.contains(loc) && hasPrefixLoc(l, loc) {
			delete(st.mem, l)
		}
	}
	if loc.Op == "idx" {
		// other elements of the same array with non-distinct index
		for l := range st.mem {
			if l != loc && l.Op == "idx" && l.Args[0] == loc.Args[0] && !(l.Args[1].isConst() && loc.Args[1].isConst()) {
				delete(st.mem, l)
			}
		}
	}
	if loc.Op == "idx" && !loc.Args[1].isConst() && loc.Args[0].Op == "alloc" {
		// some element: none of them is known any more
		st.mem[mk("some", "", loc.Args[0])] = mk("pair", "", loc.Args[1], val)
	}
	st.mem[loc] = val
}

func hasPrefixLoc(l, pre *Term) bool {
	for l.Op == "fld" || l.Op == "idx" {
		l = l.Args[0]
		if l == pre {
			return true
		}
	}
	return false
}

// havocField forgets all stored values of Type.field: reads give a value produced by call t.
func (st *State) havocField(key string, t *Term) {
	for l := range st.mem {
		if l.Op == "fld" && l.Str == key {
			delete(st.mem, l)
		}
	}
	st.mem[mk("hv", key)] = t
}

// fieldLoc: the location a value was read from (nil if it was not read from one).
func fieldLoc(t *Term) *Term {
	if t.Op == "ld" {
		return t.Args[0]
	}
	if (t.Op == "out") && t.Str == "hv" {
		return t.Args[1]
	}
	if t.Op == "vol" {
		return t.Args[0]
	}
	return nil
}

// ---------------------------------------------------------------- execution

func (x *Exec) emit(st *State, ev *Event) {
	if x.cfg.Event != nil && !st.dead {
		x.cfg.Event(x, st, ev)
	}
}

func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Global:
		n := c.Name()
		if c.Pkg != nil && c.Pkg.Pkg.Path() != modPath {
			n = c.Pkg.Pkg.Name() + "." + n
		}
		return mkT(c.Type(), "global", n)
	case *ssa.Function:
		t := mkT(c.Type(), "func", c.String())
		t.Fn = c
		return t
	case *ssa.Builtin:
		return mk("builtin", c.Name())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	t := mkT(v.Type(), "undef", fr.ctx+v.Name())
	return t
}

func (x *Exec) site(fr *Frame, in ssa.Instruction) string {
	b := in.Block()
	for i, q := range b.Instrs {
		if q == in {
			return fmt.Sprintf("%s#%s.%d.%d", fr.ctx, fr.fn.Name(), b.Index, i)
		}
	}
	return fr.ctx + "?"
}

func (x *Exec) run(st *State) {
	for !st.dead {
		fr := st.top()
		if fr.idx >= len(fr.blk.Instrs) {
			return
		}
		in := fr.blk.Instrs[fr.idx]
		cont := x.step(st, fr, in)
		if !cont {
			return
		}
	}
}

func loopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if isBackEdge(p, b) {
			return true
		}
	}
	return false
}

func isBackEdge(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

// jump moves the top frame along an edge and binds phis. Returns the state key'd push.
func (x *Exec) jump(st *State, from, to *ssa.BasicBlock) {
	x.edges++
	fr := st.top()
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	back := isBackEdge(from, to)
	if x.cfg.Event != nil && loopHeader(to) {
		ev := &Event{Kind: "loop", Name: fmt.Sprintf("%s#%s.%d", fr.ctx, fr.fn.Name(), to.Index), Site: to.Instrs[0], Fn: fr.fn, Block: to}
		if back {
			ev.Idx = 1
		}
		x.emit(st, ev)
		if st.dead {
			return
		}
	}
	type bind struct {
		ph *ssa.Phi
		t  *Term
	}
	var bs []bind
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		bs = append(bs, bind{ph, x.val(fr, ph.Edges[pi])})
	}
	if back {
		// pending values take part in renaming
		for i := range bs {
			st.mon["~phi"+strconv.Itoa(i)] = bs[i].t
		}
	}
	for i := range bs {
		if back {
			bs[i].t = st.mon["~phi"+strconv.Itoa(i)]
			if b, ok := bs[i].ph.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsString) != 0 && !x.litCounter(bs[i].ph) {
				cur := fr.env[bs[i].ph]
				w := mkT(bs[i].ph.Type(), "phi", x.site(fr, bs[i].ph))
				if cur != bs[i].t {
					keep := bs[i].t
					_ = keep
					x.kill(st, w)
					fr = st.top()
					// facts that hold for every iteration are lost; non-negativity of counters is kept
					if cur != nil {
						a, b := st.ival(cur), st.ival(bs[i].t)
						lo := a.lo
						if b.lo < lo {
							lo = b.lo
						}
						if lo >= 0 {
							st.iv[w] = interval{0, math.MaxInt64}
						}
					}
					bs[i].t = w
				} else {
					bs[i].t = cur
				}
				delete(st.mon, "~phi"+strconv.Itoa(i))
			}
		}
	}
	if back {
		for i := range bs {
			if t, ok := st.mon["~phi"+strconv.Itoa(i)]; ok {
				bs[i].t = t
				delete(st.mon, "~phi"+strconv.Itoa(i))
			}
		}
	}
	for _, b := range bs {
		fr.env[b.ph] = b.t
	}
	fr.blk = to
	fr.idx = len(bs)
	x.push(st)
}

func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) bool {
	next := func() bool { st.top().idx++; return true }
	bind := func(v ssa.Value, t *Term) bool {
		if t.Typ == nil && !t.isConst() {
			t.Typ = v.Type()
		}
		st.top().env[v] = t
		return next()
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Phi:
		return next()
	case *ssa.Alloc:
		t := mkT(i.Type(), "alloc", x.site(fr, i))
		x.kill(st, t)
		return bind(i, t)
	case *ssa.MakeSlice:
		t := mkT(i.Type(), "alloc", "slice@"+x.site(fr, i))
		x.kill(st, t)
		st.mem[mk("fld", "#len", t)] = x.val(st.top(), i.Len)
		return bind(i, t)
	case *ssa.MakeMap:
		t := mkT(i.Type(), "alloc", "map@"+x.site(fr, i))
		x.kill(st, t)
		return bind(i, t)
	case *ssa.MakeChan:
		t := mkT(i.Type(), "alloc", "chan@"+x.site(fr, i))
		x.kill(st, t)
		st.mem[mk("fld", "#cap", t)] = x.val(st.top(), i.Size)
		return bind(i, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		f := i.Fn.(*ssa.Function)
		t := mkT(i.Type(), "closure", f.String(), bs...)
		t.Fn = f
		return bind(i, t)
	case *ssa.MakeInterface:
		v := x.val(fr, i.X)
		t := mkT(i.X.Type(), "iface", typeName(i.X.Type()), v)
		st.top().env[i] = t
		return next()
	case *ssa.ChangeInterface:
		return bind(i, x.val(fr, i.X))
	case *ssa.ChangeType:
		return bind(i, x.val(fr, i.X))
	case *ssa.Convert:
		return bind(i, x.convert(x.val(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		return bind(i, x.val(fr, i.X))
	case *ssa.SliceToArrayPointer:
		return bind(i, x.val(fr, i.X))
	case *ssa.BinOp:
		return bind(i, x.binop(st, i.Op, x.val(fr, i.X), x.val(fr, i.Y)))
	case *ssa.UnOp:
		return x.unop(st, fr, i)
	case *ssa.FieldAddr:
		b := x.val(fr, i.X)
		x.emit(st, &Event{Kind: "deref", Loc: b, Site: in, Name: fieldKey(i)})
		if st.dead {
			return false
		}
		return bind(i, mkFld(b, i.Type(), fieldKey(i)))
	case *ssa.Field:
		v := x.val(fr, i.X)
		tn := typeShort(i.X.Type())
		return bind(i, mkFsel(v, i.Type(), tn+"."+fieldName(i.X.Type(), i.Field), i.Field))
	case *ssa.IndexAddr:
		b := x.val(fr, i.X)
		ix := x.val(fr, i.Index)
		x.emit(st, &Event{Kind: "index", Loc: b, Val: ix, Site: in})
		for b.Op == "slice" && b.Args[1] == tInt(0) {
			b = b.Args[0]
		}
		return bind(i, mkT(i.Type(), "idx", "", b, ix))
	case *ssa.Index:
		b := x.val(fr, i.X)
		ix := x.val(fr, i.Index)
		return bind(i, mkT(i.Type(), "app", "index", b, ix))
	case *ssa.Lookup:
		m, k := x.val(fr, i.X), x.val(fr, i.Index)
		if i.CommaOk {
			t := mkT(nil, "call", "lookup@"+x.site(fr, i), m, k)
			x.kill(st, t)
			fr = st.top()
			v := mkT(i.Type().(*types.Tuple).At(0).Type(), "res", "0", t)
			ok := mkT(types.Typ[types.Bool], "res", "1", t)
			x.emit(st, &Event{Kind: "lookupok", Loc: m, Val: k, Res: v, Site: in})
			return bind(i, mk("tuple", "", v, ok))
		}
		t := mkT(i.Type(), "call", "lookup@"+x.site(fr, i), m, k)
		x.kill(st, t)
		x.emit(st, &Event{Kind: "lookup", Loc: m, Val: k, Res: t, Site: in})
		return bind(i, t)
	case *ssa.Slice:
		b := x.val(fr, i.X)
		lo, hi := tInt(0), mk("const", "end")
		if i.Low != nil {
			lo = x.val(fr, i.Low)
		}
		if i.High != nil {
			hi = x.val(fr, i.High)
		}
		if lo == tInt(0) && hi.Str == "end" && b.Op != "alloc" {
			return bind(i, b)
		}
		return bind(i, mkT(i.Type(), "slice", "", b, lo, hi))
	case *ssa.Range:
		t := mkT(i.Type(), "app", "range", x.val(fr, i.X))
		return bind(i, t)
	case *ssa.Next:
		t := mkT(nil, "call", "next@"+x.site(fr, i), x.val(fr, i.Iter))
		x.kill(st, t)
		ok := mkT(types.Typ[types.Bool], "res", "0", t)
		k := mkT(i.Type().(*types.Tuple).At(1).Type(), "res", "1", t)
		v := mkT(i.Type().(*types.Tuple).At(2).Type(), "res", "2", t)
		return bind(i, mk("tuple", "", ok, k, v))
	case *ssa.Extract:
		tp := x.val(fr, i.Tuple)
		if tp.Op == "tuple" && i.Index < len(tp.Args) {
			return bind(i, tp.Args[i.Index])
		}
		return bind(i, mkT(i.Type(), "res", strconv.Itoa(i.Index), tp))
	case *ssa.Store:
		loc, v := x.val(fr, i.Addr), x.val(fr, i.Val)
		x.emit(st, &Event{Kind: "store", Loc: loc, Val: v, Site: in})
		if st.dead {
			return false
		}
		st.store(loc, v, i.Val.Type())
		return next()
	case *ssa.MapUpdate:
		x.emit(st, &Event{Kind: "mapupdate", Loc: x.val(fr, i.Map), Val: x.val(fr, i.Value), Args: []*Term{x.val(fr, i.Key)}, Site: in})
		return next()
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, i)
	case *ssa.Send:
		x.emit(st, &Event{Kind: "send", Loc: x.val(fr, i.Chan), Val: x.val(fr, i.X), Site: in})
		if st.dead {
			return false
		}
		return next()
	case *ssa.Select:
		n := len(i.States)
		lo := 0
		if !i.Blocking {
			lo = -1
		}
		for c := lo; c < n; c++ {
			s2 := st
			if c < n-1 {
				s2 = st.clone()
			}
			f2 := s2.top()
			args := []*Term{tInt(int64(c))}
			recvOk := mkT(types.Typ[types.Bool], "call", "selok@"+x.site(f2, i))
			x.kill(s2, recvOk)
			args = append(args, recvOk)
			var rv *Term
			ri := 0
			for si, ss := range i.States {
				if ss.Dir == types.RecvOnly {
					t := mkT(i.Type().(*types.Tuple).At(2+ri).Type(), "call", fmt.Sprintf("selrecv%d@%s", si, x.site(f2, i)), x.val(f2, ss.Chan))
					x.kill(s2, t)
					f2 = s2.top()
					if si == c {
						rv = t
					}
					args = append(args, t)
					ri++
				}
			}
			ev := &Event{Kind: "select", Idx: c, Site: in, Res: rv}
			for _, ss := range i.States {
				ev.Args = append(ev.Args, x.val(f2, ss.Chan))
			}
			if c >= 0 {
				ss := i.States[c]
				ev.Loc = x.val(f2, ss.Chan)
				if ss.Dir == types.SendOnly {
					ev.Name = "send"
					ev.Val = x.val(f2, ss.Send)
				} else {
					ev.Name = "recv"
				}
			} else {
				ev.Name = "default"
			}
			s2.note("select case %d at %s", c, x.p.pos(instrPos(in)))
			x.emit(s2, ev)
			if s2.dead {
				continue
			}
			s2.top().env[i] = mk("tuple", "", args...)
			s2.top().idx++
			x.push(s2)
		}
		return false
	case *ssa.Jump:
		x.jump(st, fr.blk, fr.blk.Succs[0])
		return false
	case *ssa.If:
		c := x.val(fr, i.Cond)
		blk := fr.blk
		if v, known := st.evalBool(c); known {
			s := 1
			if v {
				s = 0
			}
			x.jump(st, blk, blk.Succs[s])
			return false
		}
		s2 := st.clone()
		if st.assume(c, true) {
			st.note("%s: %s", x.p.pos(instrPos(in)), clip(c.String()))
			x.emit(st, &Event{Kind: "branch", Val: c, Idx: 1, Site: in})
			if !st.dead {
				x.jump(st, blk, blk.Succs[0])
			}
		}
		if s2.assume(c, false) {
			s2.note("%s: !(%s)", x.p.pos(instrPos(in)), clip(c.String()))
			x.emit(s2, &Event{Kind: "branch", Val: c, Idx: 0, Site: in})
			if !s2.dead {
				x.jump(s2, blk, blk.Succs[1])
			}
		}
		return false
	case *ssa.Panic:
		x.emit(st, &Event{Kind: "panic", Val: x.val(fr, i.X), Site: in})
		return false
	case *ssa.Return:
		var rs []*Term
		for _, r := range i.Results {
			rs = append(rs, x.val(fr, r))
		}
		var res *Term
		switch len(rs) {
		case 0:
			res = mk("tuple", "")
		case 1:
			res = rs[0]
		default:
			res = mk("tuple", "", rs...)
		}
		return x.doReturn(st, in, res)
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			return next()
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return x.invoke(st, d.site, d.fn, d.fnT, d.args, d.binds, "defer")
	case *ssa.Defer:
		fn, ft, args, binds := x.resolve(st, fr, &i.Call)
		n := 0
		for _, d := range fr.defers {
			if d.site == i {
				n++
			}
		}
		if n < 2 {
			fr.defers = append(fr.defers, deferRec{i, fn, ft, args, binds})
		}
		return next()
	case *ssa.Go:
		fn, ft, args, binds := x.resolve(st, fr, &i.Call)
		x.emit(st, &Event{Kind: "go", Fn: fn, Val: ft, Args: args, Site: in, Name: calleeName(&i.Call, fn)})
		if fn != nil && fn.Blocks != nil && x.p.inModule(fn) {
			x.addSpawn(st, i, fn, args, binds)
		}
		return next()
	case *ssa.Call:
		fn, ft, args, binds := x.resolve(st, fr, &i.Call)
		return x.invoke(st, i, fn, ft, args, binds, "call")
	}
	panic(fmt.Sprintf("unhandled instruction %T in %s", in, fr.fn))
}

func clip(s string) string {
	if len(s) > 140 {
		return s[:140] + "…"
	}
	return s
}

func typeName(t types.Type) string {
	p := ""
	for {
		if q, ok := t.(*types.Pointer); ok {
			p += "*"
			t = q.Elem()
			continue
		}
		break
	}
	return p + typeShort(t)
}

func (x *Exec) addSpawn(st *State, site ssa.Instruction, fn *ssa.Function, args, binds []*Term) {
	ns := &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, iv: map[*Term]interval{}, mon: map[string]*Term{}}
	for k, v := range st.mem {
		ns.mem[k] = v
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, blk: fn.Blocks[0], ctx: x.ctx(st.top().ctx, x.site(st.top(), site)+"go"), args: args}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			fr.env[fv] = binds[i]
		}
	}
	for k, v := range st.mon {
		if k[0] == '^' { // handed over to the goroutine
			ns.mon[k] = v
			delete(st.mon, k)
		}
		if strings.HasPrefix(k, "?^") { // shared with the goroutine
			ns.mon[k] = v
		}
	}
	ns.frames = []*Frame{fr}
	ns.note("goroutine started at %s", x.p.pos(instrPos(site)))
	x.spawned = append(x.spawned, ns)
}

func (x *Exec) ctx(parent, site string) string {
	k := parent + ">" + site
	if c, ok := x.ctxIDs[k]; ok {
		return c
	}
	c := "c" + strconv.Itoa(len(x.ctxIDs)+1)
	x.ctxIDs[k] = c
	return c
}

func (x *Exec) doReturn(st *State, in ssa.Instruction, res *Term) bool {
	fr := st.top()
	if len(st.frames) == 1 {
		x.emit(st, &Event{Kind: "return", Res: res, Fn: fr.fn, Site: in})
		return false
	}
	x.emit(st, &Event{Kind: "leave", Res: res, Fn: fr.fn, Name: fname(fr.fn), Args: fr.args, Site: in})
	if st.dead {
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	cf := st.top().clone()
	st.frames[len(st.frames)-1] = cf
	if fr.isDef {
		// stay on RunDefers
		x.push(st)
		return false
	}
	if v, ok := fr.call.(ssa.Value); ok && v != nil {
		cf.env[v] = res
	}
	cf.idx++
	x.push(st)
	return false
}

func (x *Exec) convert(v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		return v
	}
	if ok1 && ok2 && tb.Kind() == types.UnsafePointer {
		return v
	}
	return mkT(to, "app", "conv:"+types.TypeString(to, nil), v)
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			switch op {
			case token.ADD:
				return tInt(x + y)
			case token.SUB:
				return tInt(x - y)
			case token.MUL:
				return tInt(x * y)
			case token.QUO:
				if y != 0 {
					return tInt(x / y)
				}
			case token.REM:
				if y != 0 {
					return tInt(x % y)
				}
			case token.AND:
				return tInt(x & y)
			case token.OR:
				return tInt(x | y)
			case token.SHL:
				if y >= 0 && y < 63 {
					return tInt(x << uint(y))
				}
			case token.SHR:
				if y >= 0 && y < 64 {
					return tInt(x >> uint(y))
				}
			}
		}
	}
	if s1, ok := a.strVal(); ok && op == token.ADD {
		if s2, ok := b.strVal(); ok {
			return tStr(s1 + s2)
		}
	}
	if z := tInt(0); (op == token.ADD || op == token.OR) && (a == z || b == z) {
		if a == z {
			return b
		}
		return a
	}
	if op == token.SUB && b == tInt(0) {
		return a
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if _, isS := a.strVal(); !isS {
			if _, isS := b.strVal(); !isS && a.ID > b.ID && !isStringTyp(a) && !isStringTyp(b) {
				a, b = b, a
			}
		}
	}
	return mkT(a.Typ, "bin", op.String(), a, b)
}

func isStringTyp(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) bool {
	v := x.val(fr, i.X)
	bind := func(t *Term) bool {
		if t.Typ == nil && !t.isConst() {
			t.Typ = i.Type()
		}
		st.top().env[i] = t
		st.top().idx++
		return true
	}
	switch i.Op {
	case token.NOT:
		return bind(mkNot(v))
	case token.SUB:
		if c, ok := v.intVal(); ok {
			return bind(tInt(-c))
		}
		return bind(mkT(i.Type(), "bin", "neg", v))
	case token.XOR:
		return bind(mkT(i.Type(), "bin", "^", v))
	case token.ARROW:
		t := mkT(i.Type(), "call", "recv@"+x.site(fr, i), v)
		x.kill(st, t)
		v = x.val(st.top(), i.X)
		x.emit(st, &Event{Kind: "recv", Loc: v, Res: t, Site: i})
		if st.dead {
			return false
		}
		if i.CommaOk {
			a := mkT(i.Type().(*types.Tuple).At(0).Type(), "res", "0", t)
			b := mkT(types.Typ[types.Bool], "res", "1", t)
			return bind(mk("tuple", "", a, b))
		}
		return bind(t)
	case token.MUL:
		x.emit(st, &Event{Kind: "deref", Loc: v, Site: i, Name: "*"})
		if st.dead {
			return false
		}
		var t *Term
		if v.Op == "fld" && x.cfg.Volatile != nil && x.cfg.Volatile(v.Str) {
			if _, stored := st.mem[v]; stored {
				delete(st.mem, v)
			}
			t = mkT(i.Type(), "vol", x.site(fr, i), v)
			x.kill(st, t)
			// a volatile read gives a fresh unknown each time
		} else {
			t = st.load(v, i.Type())
		}
		x.emit(st, &Event{Kind: "load", Loc: v, Res: t, Site: i})
		if st.dead {
			return false
		}
		return bind(t)
	}
	panic("unop " + i.Op.String())
}

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) bool {
	v := x.val(fr, i.X)
	tn := typeName(i.AssertedType)
	bind := func(s *State, t *Term) bool {
		s.top().env[i] = t
		s.top().idx++
		return true
	}
	x.emit(st, &Event{Kind: "assert", Loc: v, Site: i, Typ: i.AssertedType, Name: tn, Idx: map[bool]int{true: 1, false: 0}[i.CommaOk]})
	if st.dead {
		return false
	}
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	if v.Op == "iface" {
		ok := false
		if toIface {
			if v.Typ != nil {
				ok = types.Implements(v.Typ, i.AssertedType.Underlying().(*types.Interface))
			}
		} else {
			ok = v.Str == tn
		}
		res := v
		if !toIface {
			res = v.Args[0]
		}
		if !ok {
			res = zeroOf(i.AssertedType)
			if !i.CommaOk {
				x.emit(st, &Event{Kind: "assertfail", Loc: v, Site: i, Typ: i.AssertedType, Name: tn})
				return false
			}
		}
		if i.CommaOk {
			return bind(st, mk("tuple", "", res, tBool(ok)))
		}
		return bind(st, res)
	}
	val := mkT(i.AssertedType, "app", "assert:"+tn, v)
	if toIface {
		val = v
	}
	if !i.CommaOk {
		if n, k := st.nilness(v); k && n {
			return false // the monitor has seen it
		}
		return bind(st, val)
	}
	is := mkT(types.Typ[types.Bool], "app", "is:"+tn, v)
	if x.p.respTyped && !toIface && isNamed(i.X.Type(), "Response") {
		if n, k := st.nilness(v); k {
			st.assume(is, !n)
		}
	}
	if b, known := st.evalBool(is); known {
		if b {
			return bind(st, mk("tuple", "", val, tTrue))
		}
		return bind(st, mk("tuple", "", zeroOf(i.AssertedType), tFalse))
	}
	s2 := st.clone()
	if s2.assume(is, false) {
		bind(s2, mk("tuple", "", zeroOf(i.AssertedType), tFalse))
		x.push(s2)
	}
	if st.assume(is, true) {
		bind(st, mk("tuple", "", val, tTrue))
		return true
	}
	return false
}
