package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Prop      string   `json:"property"`
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

func (f Finding) Key() string { return f.Prop + "/" + f.Rule + "/" + f.Construct }

type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type KnownFile struct {
	Known []Known  `json:"known"`
	Fixed []string `json:"fixed"`
}

// Ctx collects what a rule did.
type Ctx struct {
	p        *Prog
	prop     string
	tier     string
	findings map[string]Finding
	counts   map[string]int
	samples  []string
	rules    map[string]string
	assume   []string
	funcs    map[string]bool
	states   int
}

func (c *Ctx) fail(rule, construct string, pos token.Pos, path []string, format string, a ...any) {
	f := Finding{c.prop, rule, construct, c.p.pos(pos), fmt.Sprintf(format, a...), path}
	if o, ok := c.findings[f.Key()]; ok {
		// keep the shortest path
		if len(o.Path) <= len(path) {
			return
		}
	}
	c.findings[f.Key()] = f
}

func (c *Ctx) count(k string, n int)  { c.counts[k] += n }
func (c *Ctx) rule(name, text string) { c.rules[name] = text }
func (c *Ctx) sample(s string) {
	if len(c.samples) < 40 {
		c.samples = append(c.samples, s)
	}
}
func (c *Ctx) assumef(s string) { c.assume = append(c.assume, s) }

// floor fails the check when fewer instances than confirmed by hand were analysed.
func (c *Ctx) floor(k string, min int) {
	if c.counts[k] < min {
		c.fail("coverage", k, token.NoPos, nil, "only %d instances of %q were found, at least %d expected: the rule lost its anchors", c.counts[k], k, min)
	}
}

// anchor resolves a function that must exist.
func (c *Ctx) anchor(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil || f.Blocks == nil {
		c.fail("anchor", name, token.NoPos, nil, "function %s was not found: the rule lost its anchor", name)
		return nil
	}
	c.funcs[name] = true
	return f
}

// exec runs the dataflow engine and accounts for it.
func (c *Ctx) exec(fn *ssa.Function, cfg *Config) *Exec {
	x := newExec(c.p, cfg)
	c.funcs[fname(fn)] = true
	if os.Getenv("VTRACE") != "" {
		t0 := time.Now()
		fmt.Printf("> %s\n", fname(fn))
		defer func() { fmt.Printf("< %s %v states=%d\n", fname(fn), time.Since(t0), x.states) }()
	}
	x.Run(fn, nil)
	c.account(x, fn)
	return x
}

func (c *Ctx) account(x *Exec, fn *ssa.Function) {
	c.states += x.states
	c.counts["dataflow states"] += x.states
	c.counts["cfg edges"] += x.edges
	if x.over {
		c.fail("undecided", fname(fn), fn.Pos(), nil, "state limit %d exceeded while analysing %s", x.cfg.MaxState, fname(fn))
	}
}

type RuleFn func(c *Ctx)

type PropRule struct {
	id        string
	technique string
	run       RuleFn
}

var propRules = map[string]*PropRule{}

func register(id, technique string, f RuleFn) {
	propRules[id] = &PropRule{id, technique, f}
}

func runProp(p *Prog, id, tier, verif string, start time.Time) int {
	r := propRules[id]
	c := &Ctx{p: p, prop: id, tier: tier, findings: map[string]Finding{}, counts: map[string]int{}, rules: map[string]string{}, funcs: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("VTRACE") != "" {
					os.Stderr.Write(debug.Stack())
				}
				if os.Getenv("VDEBUG") != "" {
					panic(e)
				}
				c.fail("analyser", "panic", token.NoPos, nil, "the analysis could not be completed: %v", e)
			}
		}()
		r.run(c)
	}()
	var known KnownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	kn := map[string]string{}
	for _, k := range known.Known {
		if k.Property == id {
			kn[k.Key] = k.What
		}
	}
	keys := sortedKeys(c.findings)
	var viol []Finding
	nk := 0
	for _, k := range keys {
		f := c.findings[k]
		if w, ok := kn[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s, %s)\n", id, w, k, f.Pos)
			nk++
			continue
		}
		viol = append(viol, f)
	}
	fns := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":        r.technique + ". Rules: " + joinRules(c.rules),
		"rules":              c.rules,
		"counts":             c.counts,
		"functions_analysed": len(fns),
		"functions":          fns,
		"samples":            c.samples,
		"known_findings":     nk,
		"module_functions":   len(p.funcs),
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": 1, "level": "other", "coverage": cov,
		"assumptions": append([]string{"no reflection/unsafe tricks outside the modelled idioms", "dependencies behave as documented"}, c.assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(viol)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(verif, "evidence", id+".violations.txt")
	os.Remove(rp)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s functions=%d %s\n", id, len(fns), countStr(c.counts))
		return 0
	}
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n  key: %s\n", f.Pos, f.Rule, f.Construct, f.Msg, f.Key())
		for _, s := range f.Path {
			fmt.Fprintf(&sb, "    %s\n", s)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func joinRules(m map[string]string) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, k+": "+m[k])
	}
	return strings.Join(s, " | ")
}

func countStr(m map[string]int) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", strings.ReplaceAll(k, " ", "_"), m[k]))
	}
	return strings.Join(s, " ")
}

// ---------------------------------------------------------------- helpers on types

// fieldByType finds the unique field of a struct type whose type satisfies ok.
func (p *Prog) fieldsByType(tn string, ok func(types.Type) bool) []string {
	n := p.typ(tn)
	if n == nil {
		return nil
	}
	s, isS := n.Underlying().(*types.Struct)
	if !isS {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func typeIs(t types.Type, full string) bool {
	return types.TypeString(types.Unalias(t), nil) == full
}

func isLockType(t types.Type) bool {
	switch types.TypeString(types.Unalias(t), nil) {
	case "sync.Mutex", "sync.RWMutex", "sync.Locker", "*sync.Mutex", "*sync.RWMutex":
		return true
	}
	return false
}

// lockOp classifies Lock/Unlock calls; returns op ("Lock","Unlock","RLock","RUnlock") and the lock's identity.
func lockOp(st *State, ev *Event) (string, *Term) {
	if ev.Kind != "call" {
		return "", nil
	}
	switch ev.Name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.Locker.Lock":
		return "Lock", lockID(ev.Args[0])
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.Locker.Unlock":
		return "Unlock", lockID(ev.Args[0])
	case "sync.RWMutex.RLock":
		return "RLock", lockID(ev.Args[0])
	case "sync.RWMutex.RUnlock":
		return "RUnlock", lockID(ev.Args[0])
	case "sync.Mutex.TryLock", "sync.RWMutex.TryLock":
		return "TryLock", lockID(ev.Args[0])
	}
	return "", nil
}

// lockID: the address of the lock: a fld term; a Locker interface value loaded from a field is that field.
func lockID(t *Term) *Term {
	if t.Op == "ld" {
		return t.Args[0]
	}
	return t
}

// allocated reports that the object is created by the analysed path itself and not yet shared.
func freshObj(t *Term) bool {
	r := rootOf(t)
	for r.Op == "old" {
		r = r.Args[0]
	}
	return r.Op == "alloc"
}

// reaches computes the set of module functions from which, through static calls, closures and
// module-interface calls, some function satisfying pred is reachable.  go statements are followed
// only when followGo.
func (p *Prog) reaches(pred func(*ssa.Function) bool, followGo bool) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	res := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, f := range p.funcs {
		for _, c := range p.callees(f, followGo) {
			callers[c] = append(callers[c], f)
		}
		if pred(f) {
			res[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range callers[f] {
			if !res[c] {
				res[c] = true
				q = append(q, c)
			}
		}
	}
	return res
}

// callees lists the module functions f may call (closures created in f count as called).
func (p *Prog) callees(f *ssa.Function, followGo bool) []*ssa.Function {
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && g.Blocks != nil && p.inModule(g) {
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Go:
				if followGo {
					if g := i.Call.StaticCallee(); g != nil {
						add(g)
					}
				}
			case ssa.CallInstruction:
				c := i.Common()
				if g := c.StaticCallee(); g != nil {
					add(g)
				} else if c.IsInvoke() {
					for _, g := range p.implementers(c) {
						add(g)
					}
				}
				for _, a := range c.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return out
}

// implementers: module methods that an interface call of a module interface can reach.
func (p *Prog) implementers(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if out, ok := p.implMemo[key]; ok {
		return out
	}
	if p.implMemo == nil {
		p.implMemo = map[string][]*ssa.Function{}
	}
	var out []*ssa.Function
	defer func() { p.implMemo[key] = out }()
	for _, nm := range p.core.Pkg.Scope().Names() {
		tn, ok := p.core.Pkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, it) {
				if f := p.ssa.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil && f.Blocks != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}

// calledBy returns for every module function its static in-module callers (including go).
func (p *Prog) callersOf() map[*ssa.Function][]*ssa.Function {
	if p.callerMemo != nil {
		return p.callerMemo
	}
	m := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, g := range p.callees(f, true) {
			m[g] = append(m[g], f)
		}
	}
	p.callerMemo = m
	return m
}

// fileOf tells the file (base name) that declares fn.
func (p *Prog) fileOf(fn *ssa.Function) string {
	q := p.fset.Position(fn.Pos())
	return filepath.Base(q.Filename)
}
