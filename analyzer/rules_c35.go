package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "must-report dataflow over every command and REST handler: the failing outcome of each fallible step against the command's returned error or the handler's answer, plus a cross-check of flag look-ups against flag registrations", ruleC35)
}

// front: the function belongs to the command-line program.
func (p *Prog) front(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/command")
}

func ptrTo(t types.Type, path, name string) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

const ginPath = "github.com/gin-gonic/gin"
const cobraPath = "github.com/spf13/cobra"
const pflagPath = "github.com/spf13/pflag"

func ginParam(f *ssa.Function) int {
	for i, v := range f.Params {
		if ptrTo(v.Type(), ginPath, "Context") {
			return i
		}
	}
	return -1
}

var ginAnswers = map[string]bool{"JSON": true, "String": true, "IndentedJSON": true, "PureJSON": true, "AsciiJSON": true, "SecureJSON": true, "JSONP": true,
	"XML": true, "YAML": true, "TOML": true, "ProtoBuf": true, "Data": true, "HTML": true, "Render": true, "AbortWithStatus": true, "AbortWithStatusJSON": true,
	"AbortWithError": true, "AbortWithStatusPureJSON": true, "Redirect": true, "DataFromReader": true, "Status": true}

// inLoop: both instructions lie in a common loop of their function.
func inLoop(a, b ssa.Instruction) bool {
	if a == nil || b == nil || a.Parent() != b.Parent() {
		return false
	}
	reach := func(x, y *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(z *ssa.BasicBlock) bool
		walk = func(z *ssa.BasicBlock) bool {
			for _, s := range z.Succs {
				if s == y {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if walk(s) {
						return true
					}
				}
			}
			return false
		}
		return walk(x)
	}
	return reach(a.Block(), b.Block()) && reach(b.Block(), a.Block())
}

// frontFallible: name of the step if the call can fail in a way the user has to hear of.
func (p *Prog) frontFallible(name string, fn *ssa.Function, site ssa.CallInstruction) string {
	if !errLast(site.Common().Signature()) {
		return ""
	}
	if fn != nil && p.inModule(fn) {
		if p.front(fn) {
			return ""
		}
		return fname(fn)
	}
	if fn == nil && site.Common().IsInvoke() {
		if len(p.implementers(site.Common())) > 0 {
			return name
		}
		return ""
	}
	if fn == nil {
		return ""
	}
	switch {
	case strings.HasPrefix(name, "strconv."), name == "encoding/json.Unmarshal", name == "encoding/json.Decoder.Decode", name == "bufio.Scanner.Err",
		strings.HasPrefix(name, "net.") && !strings.HasSuffix(name, ".Close"), name == "regexp.Compile",
		strings.HasPrefix(name, "os.Open"), strings.HasPrefix(name, "os.ReadFile"), strings.HasPrefix(name, "io.ReadAll"):
		return name
	}
	if r := fn.Signature.Recv(); r != nil {
		if ptrTo(r.Type(), ginPath, "Engine") && strings.HasPrefix(fn.Name(), "Run") {
			return "gin.Engine." + fn.Name()
		}
		if ptrTo(r.Type(), ginPath, "Context") && strings.Contains(fn.Name(), "Bind") {
			return "gin.Context." + fn.Name()
		}
		if ptrTo(r.Type(), cobraPath, "Command") && strings.HasPrefix(fn.Name(), "Execute") {
			return "cobra.Command." + fn.Name()
		}
	}
	if strings.HasPrefix(name, "net/http.") && strings.Contains(name, "Serve") {
		return name
	}
	return ""
}

func ruleC35(c *Ctx) {
	c.rule("command-reports", "on every path of a command on which a fallible step failed (client, broker list, request, conversion, JSON decoding, reading input, error code of a response, error message from a consumer), the command returns a non-nil error; the program then exits with a non-zero status")
	c.rule("command-stops", "after a failed step a command starts no further fallible step, except that the items of one listing loop are independent")
	c.rule("handler-reports", "on every path of a REST handler on which a fallible step failed, the first answer carries a status of at least 400 (a Kafka error code inside a response that arrived may be answered with that response; an absent optional body is no failure)")
	c.rule("handler-stops", "after that answer the handler sends no other answer and starts no further fallible step")
	c.rule("handler-answers", "a handler answers on every path")
	c.rule("flag-defined", "each flag a command looks up is registered on that command (or as a persistent flag of the root) with the same type, so that looking it up cannot fail")
	c.rule("message-checked", "the payload of a consumed message is used only on paths where the message carries no error")
	c.p.respTyped = true
	c.frontFlags()
	// commands and handlers
	stepReach := c.p.reaches(func(f *ssa.Function) bool {
		if !c.p.front(f) {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					fn := k.Common().StaticCallee()
					if c.p.frontFallible(calleeName(k.Common(), fn), fn, k) != "" {
						return true
					}
				}
			}
		}
		return false
	}, false)
	called := map[*ssa.Function]bool{} // statically called from another front-end function
	for g, cs := range c.p.callersOf() {
		for _, f := range cs {
			if c.p.front(f) && f != g {
				called[g] = true
			}
		}
	}
	owners := c.runOwners()
	cmdID := func(f *ssa.Function) string {
		for _, n := range sortedKeys(owners[f]) {
			if n != "" {
				return n
			}
		}
		return fname(f)
	}
	ncmd, nh := 0, 0
	for _, f := range c.p.funcs {
		if !c.p.front(f) || f.Blocks == nil || !stepReach[f] {
			continue
		}
		switch {
		case ginParam(f) >= 0:
			if called[f] {
				continue
			}
			if f.Parent() != nil && ginParam(f.Parent()) >= 0 {
				continue
			}
			nh++
			c.restHandler(f)
		case len(f.Params) > 0 && ptrTo(f.Params[0].Type(), cobraPath, "Command") && !called[f]:
			if !errLast(f.Signature) {
				c.fail("command-reports", fname(f)+"/noerror", f.Pos(), nil, "%s runs fallible steps but has no error result", fname(f))
				continue
			}
			ncmd++
			c.command(f, cmdID(f))
		case !errLast(f.Signature) && !called[f] && f.Parent() == nil && f.Name() != "init":
			c.command(f, cmdID(f))
		case !errLast(f.Signature) && c.callsExecute(f):
			c.command(f, cmdID(f))
		}
	}
	c.count("commands", ncmd)
	c.count("handlers", nh)
	c.floor("commands", 20)
	c.floor("handlers", 15)
	c.floor("failure paths", 60)
}

func (c *Ctx) callsExecute(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(ssa.CallInstruction); ok {
				if g := k.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && ptrTo(g.Signature.Recv().Type(), cobraPath, "Command") && strings.HasPrefix(g.Name(), "Execute") {
					return true
				}
			}
		}
	}
	return false
}

// frontOwed: configuration common to commands and handlers; a step that failed stays failed.
func (c *Ctx) frontOwed() (*owed, *Config) {
	if c.p.ioMemo == nil {
		c.p.ioMemo = c.p.reaches(func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if k, ok := in.(ssa.CallInstruction); ok {
						if g := k.Common().StaticCallee(); g != nil && !c.p.inModule(g) && strings.HasPrefix(pkgOf(g), "net") {
							return true
						}
						if k.Common().IsInvoke() && strings.HasPrefix(calleeName(k.Common(), nil), "net.") {
							return true
						}
					}
				}
			}
			return false
		}, true)
	}
	io := c.p.ioMemo
	o := &owed{c: c, stops: map[string]bool{}, sticky: true}
	o.inline = func(g *ssa.Function) bool { return c.p.front(g) }
	o.fallible = func(st *State, name string, fn *ssa.Function, args []*Term, site ssa.CallInstruction) string {
		key := c.p.frontFallible(name, fn, site)
		if key != "" && fn != nil && c.p.inModule(fn) && fn.Signature.Recv() != nil && len(args) > 0 && !io[fn] {
			// filling in a request that was just made
			k := "built:" + args[0].String()
			if st.get(k) == nil && args[0].Op != "param" {
				st.set(k, tTrue)
				if !failsFresh(fn) {
					return ""
				}
			}
		}
		return key
	}
	cfg := o.config()
	return o, cfg
}

// failsFresh: an error return of the method can be reached without entering a loop body,
// that is, even if the lists of the receiver are still empty.
func failsFresh(fn *ssa.Function) bool {
	reach := func(from, to *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{from: true}
		q := []*ssa.BasicBlock{from}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			if x == to {
				return true
			}
			for _, s := range x.Succs {
				if !seen[s] {
					seen[s] = true
					q = append(q, s)
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if k, isK := r.Results[len(r.Results)-1].(*ssa.Const); !isK || !k.IsNil() {
				return true
			}
		}
		for _, s := range b.Succs {
			if len(b.Succs) == 2 && reach(s, b) && !reach(b.Succs[0], b) != !reach(b.Succs[1], b) {
				continue // a loop body
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(fn.Blocks[0])
}

func (c *Ctx) messageEvents(id string, st *State, ev *Event) {
	switch ev.Kind {
	case "branch":
		// if m.Error != nil
		v, want := ev.Val, ev.Idx == 1
		for v.Op == "not" {
			v, want = v.Args[0], !want
		}
		if v.Op != "eq" {
			return
		}
		for i := 0; i < 2; i++ {
			if v.Args[i] == tNil {
				if l := fieldLoc(v.Args[1-i]); l != nil && l.Op == "fld" && l.Str == "FullMessage.Error" {
					if want {
						st.set("msgok:"+l.Args[0].String(), tTrue)
					} else {
						st.set(owedP+"the consumer (message with an error)", tTrue)
					}
				}
			}
		}
	case "deref", "load":
		l := ev.Loc
		if l == nil || l.Op != "fld" {
			return
		}
		base := l.Args[0]
		if b := fieldLoc(base); b != nil && b.Op == "fld" && b.Str == "FullMessage.Message" {
			c.count("payload uses", 1)
			if st.get("msgok:"+b.Args[0].String()) == nil {
				c.fail("message-checked", id, instrPos(ev.Site), st.path(), "%s uses the payload of a consumed message without checking that the message carries no error", id)
			}
		}
	}
}

func (c *Ctx) command(f *ssa.Function, id string) {
	const flat = true
	o, cfg := c.frontOwed()
	o.flat = flat
	o.event = func(x *Exec, st *State, ev *Event) {
		c.messageEvents(id, st, ev)
		if ev.Kind == "call" && ev.Name == "bufio.Scanner.Scan" {
			st.set("scan", tTrue)
		}
		if ev.Kind == "call" && ev.Name == "bufio.Scanner.Err" {
			st.set("scan", nil)
		}
		if ev.Kind == "call" && ev.Name == "os.Exit" && len(ev.Args) == 1 {
			if n, ok := ev.Args[0].intVal(); ok && n != 0 {
				for _, k := range o.keys(st) {
					st.set(owedP+k, nil)
				}
			}
		}
		if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "log.Fatal") || strings.HasPrefix(ev.Name, "k8s.io/klog/v2.Fatal") || strings.HasPrefix(ev.Name, "k8s.io/klog/v2.Exit")) {
			for _, k := range o.keys(st) {
				st.set(owedP+k, nil)
			}
		}
		if ev.Kind == "call" {
			if k, ok := ev.Site.(ssa.CallInstruction); ok {
				if key := c.p.frontFallible(ev.Name, ev.Fn, k); key != "" {
					if _, isDefer := ev.Site.(*ssa.Defer); isDefer {
						return
					}
					if _, isRD := ev.Site.(*ssa.RunDefers); isRD {
						return
					}
					for _, ow := range o.keys(st) {
						site := o.sites[ow]
						ok := false
						for _, s := range site {
							if c.sameLoop(f, s, ev.Site) {
								ok = true
							}
						}
						if !ok && len(site) > 0 {
							c.fail("command-stops", id+"/"+ow, instrPos(ev.Site), st.path(), "%s goes on with %s after %s failed", id, key, ow)
						}
					}
				}
			}
		}
	}
	o.atReturn = func(x *Exec, st *State, ev *Event, keys []string) {
		if ev.Site == nil || ev.Site.Parent() != f {
			return
		}
		if st.get("scan") != nil {
			keys = append(keys, "reading the input (the scanner's error was not consulted)")
		}
		if len(keys) == 0 {
			return
		}
		c.count("failure paths", 1)
		if errLast(f.Signature) {
			e := lastRes(ev.Res)
			if nl, kn := st.nilness(e); kn && !nl {
				return
			}
		}
		c.fail("command-reports", id+"/"+keys[0], instrPos(ev.Site), st.path(), "%s can end without an error although %s failed", id, strings.Join(keys, ", "))
	}
	c.exec(f, cfg)
}

// sameLoop: the two steps run in a common loop, directly or through helpers called from one.
func (c *Ctx) sameLoop(root *ssa.Function, a, b ssa.Instruction) bool {
	up := func(in ssa.Instruction) map[ssa.Instruction]bool {
		out := map[ssa.Instruction]bool{in: true}
		work := []ssa.Instruction{in}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			g := x.Parent()
			if g == root {
				continue
			}
			for _, h := range c.p.callersOf()[g] {
				if !c.p.front(h) {
					continue
				}
				for _, bl := range h.Blocks {
					for _, y := range bl.Instrs {
						if k, ok := y.(ssa.CallInstruction); ok && k.Common().StaticCallee() == g && !out[y] {
							out[y] = true
							work = append(work, y)
						}
					}
				}
			}
		}
		return out
	}
	for x := range up(a) {
		for y := range up(b) {
			if inLoop(x, y) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) restHandler(f *ssa.Function) {
	const flat = false
	id := fname(f)
	o, cfg := c.frontOwed()
	o.flat = flat
	o.event = func(x *Exec, st *State, ev *Event) {
		c.messageEvents(id, st, ev)
		if ev.Kind == "branch" {
			v, want := ev.Val, ev.Idx == 1
			for v.Op == "not" {
				v, want = v.Args[0], !want
			}
			if want && (v.Op == "eq" || strings.HasPrefix(v.Str, "errors.Is")) && strings.Contains(v.String(), "EOF") {
				for _, k := range o.keys(st) {
					if e := st.get(owedP + k); strings.Contains(k, "Bind") && v.contains(e) {
						st.set(owedP+k, nil)
						st.set("bound", nil)
					}
				}
			}
			return
		}
		if ev.Kind != "call" {
			return
		}
		k, ok := ev.Site.(ssa.CallInstruction)
		if !ok {
			return
		}
		if ev.Fn != nil && ev.Fn.Signature.Recv() != nil && ptrTo(ev.Fn.Signature.Recv().Type(), ginPath, "Context") && ginAnswers[ev.Fn.Name()] {
			c.count("answers", 1)
			code, known := int64(0), false
			if len(ev.Args) > 1 {
				code, known = ev.Args[1].intVal()
			}
			keys := o.keys(st)
			if st.get("answered") != nil {
				c.fail("handler-stops", id+"/second", instrPos(ev.Site), st.path(), "%s answers a second time", id)
				return
			}
			for _, sk := range sortedKeys(st.mon) {
				if strings.HasPrefix(sk, "soft:") {
					used := false
					for _, a := range ev.Args {
						if a.contains(st.get(sk)) {
							used = true
						}
					}
					if !used && (!known || code < 400) {
						keys = append(keys, strings.TrimPrefix(sk, "soft:"))
					}
					st.set(sk, nil)
				}
			}
			st.set("answered", tTrue)
			if len(keys) > 0 && known && code < 400 {
				c.fail("handler-reports", id+"/"+keys[0], instrPos(ev.Site), st.path(), "%s answers with status %d although %s failed", id, code, strings.Join(keys, ", "))
				return
			}
			if len(keys) > 0 {
				c.count("failure paths", 1)
				st.set("errored", tTrue)
				for _, k := range o.keys(st) {
					st.set(owedP+k, nil)
				}
			} else if known && code >= 400 {
				st.set("errored", tTrue)
			}
			return
		}
		if key := c.p.frontFallible(ev.Name, ev.Fn, k); key != "" {
			if st.get("answered") != nil {
				c.fail("handler-stops", id+"/after", instrPos(ev.Site), st.path(), "%s goes on with %s after it has answered", id, key)
			} else if ks := o.keys(st); len(ks) > 0 {
				c.fail("handler-stops", id+"/"+ks[0], instrPos(ev.Site), st.path(), "%s goes on with %s after %s failed", id, key, ks[0])
			}
			if strings.Contains(key, "gin.Context.") && !strings.Contains(key, "Should") {
				st.set("mustbind", tTrue)
			}
		}
	}
	o.atReturn = func(x *Exec, st *State, ev *Event, keys []string) {
		if ev.Site == nil || ev.Site.Parent() != f {
			return
		}
		if len(keys) == 1 && strings.HasPrefix(keys[0], "gin.Context.") && !strings.Contains(keys[0], "Should") {
			return // Bind has answered 400 itself
		}
		if len(keys) > 0 {
			c.fail("handler-reports", id+"/"+keys[0], instrPos(ev.Site), st.path(), "%s returns without an error answer although %s failed", id, strings.Join(keys, ", "))
			return
		}
		if st.get("answered") == nil && f.Signature.Results().Len() == 0 {
			c.fail("handler-answers", id, instrPos(ev.Site), st.path(), "%s can return without an answer", id)
		}
	}
	c.exec(f, cfg)
}

// ---- flags

type flagUse struct {
	name, typ string
	site      ssa.Instruction
}

// cmdOf: global command variables whose Run/RunE is the function.
func (c *Ctx) runOwners() map[*ssa.Function]map[string]bool {
	out := map[*ssa.Function]map[string]bool{}
	for _, pk := range c.p.modPkgs() {
		for _, m := range pk.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Blocks == nil {
				continue
			}
			var all []*ssa.Function
			all = append(all, f)
			all = append(all, f.AnonFuncs...)
			for _, f := range all {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || !ptrTo(fa.X.Type(), cobraPath, "Command") {
							continue
						}
						if n := fieldName(fa.X.Type(), fa.Field); !strings.Contains(n, "Run") && n != "Args" {
							continue
						}
						var fn *ssa.Function
						switch v := s.Val.(type) {
						case *ssa.Function:
							fn = v
						case *ssa.MakeClosure:
							fn, _ = v.Fn.(*ssa.Function)
						case *ssa.ChangeType:
							fn, _ = v.X.(*ssa.Function)
						}
						if fn == nil {
							continue
						}
						if out[fn] == nil {
							out[fn] = map[string]bool{}
						}
						out[fn][cmdName(fa.X)] = true
					}
				}
			}
		}
	}
	return out
}

// cmdName: the global variable a command value is kept in ("" if unknown).
func cmdName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			return g.Name()
		}
	case *ssa.Alloc, *ssa.Call:
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == v {
					if g, ok := s.Addr.(*ssa.Global); ok {
						return g.Name()
					}
				}
			}
		}
	}
	return ""
}

func (c *Ctx) frontFlags() {
	owners := c.runOwners()
	type pair struct {
		cmds       map[string]bool
		persistent bool
		name       string
		typ        string
		site       ssa.Instruction
	}
	openCmd := map[string]bool{}
	openAll := false
	reg := map[string]map[string]string{} // command -> flag -> type
	persist := map[string]map[string]string{}
	var uses []pair
	callers := c.p.callersOf()
	// resolve the command value and the flag name together through the call chain
	var resolve func(fn *ssa.Function, cv, nv ssa.Value, depth int, out func(cmds map[string]bool, name string, ok bool))
	resolve = func(fn *ssa.Function, cv, nv ssa.Value, depth int, out func(map[string]bool, string, bool)) {
		strip := func(v ssa.Value) ssa.Value {
			for {
				switch x := v.(type) {
				case *ssa.ChangeType:
					v = x.X
					continue
				}
				return v
			}
		}
		cv, nv = strip(cv), strip(nv)
		cp, isCP := cv.(*ssa.Parameter)
		np, isNP := nv.(*ssa.Parameter)
		if isCP && owners[fn] != nil {
			if k, ok := nv.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				out(owners[fn], constant.StringVal(k.Value), true)
			} else {
				out(owners[fn], "", false)
			}
			return
		}
		if isCP || isNP {
			if depth > 6 {
				out(nil, "", false)
				return
			}
			n := 0
			for _, g := range callers[fn] {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						k, ok := in.(ssa.CallInstruction)
						if !ok || k.Common().StaticCallee() != fn {
							continue
						}
						n++
						a, d := cv, nv
						for i, q := range fn.Params {
							if i >= len(k.Common().Args) {
								break
							}
							if isCP && q == cp {
								a = k.Common().Args[i]
							}
							if isNP && q == np {
								d = k.Common().Args[i]
							}
						}
						resolve(g, a, d, depth+1, out)
					}
				}
			}
			if n == 0 {
				out(nil, "", false)
			}
			return
		}
		name, ok := "", false
		if k, isK := nv.(*ssa.Const); isK && k.Value != nil && k.Value.Kind() == constant.String {
			name, ok = constant.StringVal(k.Value), true
		}
		if g := cmdName(cv); g != "" {
			out(map[string]bool{g: true}, name, ok)
			return
		}
		if fv, isFV := cv.(*ssa.FreeVar); isFV {
			_ = fv
		}
		out(nil, name, false)
	}
	for _, f := range c.p.funcs {
		if !c.p.front(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := k.Common().StaticCallee()
				if g == nil || g.Signature.Recv() == nil {
					continue
				}
				if ptrTo(g.Signature.Recv().Type(), cobraPath, "Command") && g.Name() == "MarkFlagRequired" {
					resolve(f, k.Common().Args[0], k.Common().Args[1], 0, func(cmds map[string]bool, name string, ok bool) {
						if ok {
							uses = append(uses, pair{cmds: cmds, name: name, typ: "*", site: in})
						}
					})
					continue
				}
				if !ptrTo(g.Signature.Recv().Type(), pflagPath, "FlagSet") || len(k.Common().Args) < 2 {
					continue
				}
				get := strings.HasPrefix(g.Name(), "Get")
				typ := strings.TrimPrefix(g.Name(), "Get")
				ni := 1
				if !get {
					typ = strings.TrimSuffix(typ, "P")
					if strings.HasSuffix(typ, "Var") {
						typ = strings.TrimSuffix(typ, "Var")
						ni = 2
					}
					if res := g.Signature.Results(); ni == 1 && (res.Len() != 1 || g.Signature.Params().Len() < 3) {
						continue
					}
				} else if !errLast(g.Signature) {
					continue
				}
				if ni >= len(k.Common().Args) {
					continue
				}
				fs, ok := k.Common().Args[0].(*ssa.Call)
				var cv ssa.Value
				persistent := false
				if ok && fs.Call.StaticCallee() != nil && len(fs.Call.Args) == 1 {
					switch fs.Call.StaticCallee().Name() {
					case "Flags", "LocalFlags", "InheritedFlags":
						cv = fs.Call.Args[0]
					case "PersistentFlags":
						cv = fs.Call.Args[0]
						persistent = true
					}
				}
				if cv == nil {
					if !get {
						openAll = true
					}
					continue
				}
				resolve(f, cv, k.Common().Args[ni], 0, func(cmds map[string]bool, name string, ok bool) {
					if get {
						if !ok || cmds[""] {
							c.count("flag look-ups not resolved", 1)
							return
						}
						uses = append(uses, pair{cmds: cmds, name: name, typ: typ, site: in})
						return
					}
					if cmds == nil || cmds[""] {
						openAll = true
						return
					}
					for m := range cmds {
						if !ok {
							openCmd[m] = true
							continue
						}
						t := reg
						if persistent {
							t = persist
						}
						if t[m] == nil {
							t[m] = map[string]string{}
						}
						t[m][name] = typ
					}
				})
			}
		}
	}
	for _, u := range uses {
		for _, m := range sortedKeys(u.cmds) {
			c.count("flag look-ups", 1)
			if openAll || openCmd[m] {
				continue
			}
			t, ok := reg[m][u.name]
			if !ok {
				t, ok = persist[m][u.name]
			}
			if !ok {
				for pm, fl := range persist {
					if pm != m {
						if x, has := fl[u.name]; has {
							t, ok = x, true
						}
					}
				}
			}
			if !ok {
				c.fail("flag-defined", m+"/"+u.name, instrPos(u.site), nil, "command %s looks up flag %q, which is not registered on it: the look-up always fails", m, u.name)
			} else if u.typ != "*" && t != u.typ {
				c.fail("flag-defined", m+"/"+u.name, instrPos(u.site), nil, "command %s looks up flag %q as %s, but it is registered as %s: the look-up always fails", m, u.name, u.typ, t)
			}
		}
	}
	c.floor("flag look-ups", 60)
}
