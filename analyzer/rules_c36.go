package main

import (
	"go/ast"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "typestate of the router over every path of its set-up, path analysis of the authentication middleware, and a cross-check of the registered routes against the @Router documentation of the handlers", ruleC36)
}

var ginRoutes = map[string]bool{"GET": true, "POST": true, "PUT": true, "DELETE": true, "PATCH": true, "HEAD": true, "OPTIONS": true, "Any": true, "Handle": true, "Match": true,
	"Static": true, "StaticFS": true, "StaticFile": true, "StaticFileFS": true}

func ginRouter(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	return ptrTo(t, ginPath, "Engine") || ptrTo(t, ginPath, "RouterGroup")
}

func routerOf(t *Term) *Term {
	for t.Op == "fld" {
		t = t.Args[0]
	}
	return t
}

type docRoute struct{ path, method string }

// routerDocs: the @Router lines of the documented handlers.
func (p *Prog) routerDocs() map[string][]docRoute {
	re := regexp.MustCompile(`@Router\s+(\S+)\s+\[(\w+)\]`)
	out := map[string][]docRoute{}
	for _, pk := range p.pkgs {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, m := range re.FindAllStringSubmatch(fd.Doc.Text(), -1) {
					o := pk.TypesInfo.Defs[fd.Name]
					if o == nil {
						continue
					}
					if fo, ok := o.(*types.Func); ok {
						out[fo.FullName()] = append(out[fo.FullName()], docRoute{m[1], strings.ToUpper(m[2])})
					}
				}
			}
		}
	}
	return out
}

func shape(path string) string {
	var out []string
	for _, s := range strings.Split(path, "/") {
		if strings.HasPrefix(s, ":") || strings.HasPrefix(s, "{") {
			s = ":"
		}
		if strings.HasPrefix(s, "*") {
			s = "*"
		}
		out = append(out, s)
	}
	return strings.Join(out, "/")
}

func pathParams(path string) map[string]bool {
	out := map[string]bool{}
	for _, s := range strings.Split(path, "/") {
		if strings.HasPrefix(s, ":") || strings.HasPrefix(s, "*") {
			out[s[1:]] = true
		}
	}
	return out
}

func ruleC36(c *Ctx) {
	c.rule("guarded", "on every path of the server set-up on which the credentials are not known to be empty, the authentication middleware is installed on the router (or group) before each route is registered on it and before the server is started")
	c.rule("authenticates", "the authentication middleware lets a request pass only if both parts of the decoded Authorization header equal the configured user and password, or read-only access was allowed and the method is GET, HEAD or OPTIONS")
	c.rule("credentials", "the two parts the middleware compares are the configured user and password in that order")
	c.rule("route", "a handler documented with @Router is registered under the documented path and method, and only there")
	c.rule("parameters", "each path parameter a handler reads exists in the path it is registered under")
	var roots []*ssa.Function
	rr := c.p.reaches(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if g := k.Common().StaticCallee(); ginRouter(g) && (ginRoutes[g.Name()] || strings.HasPrefix(g.Name(), "Run")) {
						return true
					}
				}
			}
		}
		return false
	}, false)
	called := map[*ssa.Function]bool{}
	for g, cs := range c.p.callersOf() {
		for _, f := range cs {
			if f != g && rr[f] {
				called[g] = true
			}
		}
	}
	for _, f := range c.p.funcs {
		if rr[f] && !called[f] && c.p.front(f) && f.Name() != "main" && f.Name() != "Execute" && !strings.HasPrefix(f.Name(), "init") || rr[f] && f.Parent() != nil && !called[f] {
			roots = append(roots, f)
		}
	}
	docs := c.p.routerDocs()
	c.count("documented handlers", len(docs))
	c.floor("documented handlers", 12)
	type reg struct {
		method, path string
		site         ssa.Instruction
	}
	regs := map[string][]reg{}
	handlers := map[string]*ssa.Function{}
	unresolved := false
	auths := map[*ssa.Function]*authInfo{}
	sawAuth := false
	for _, f := range roots {
		f := f
		cfg := &Config{Merge: true, PartPtr: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool {
			return c.p.front(g) && ginParam(g) < 0
		}
		cfg.Hook = func(x *Exec, st *State, name string, g *ssa.Function, args []*Term, site ssa.CallInstruction) ([]Outcome, bool) {
			if ginRouter(g) && g.Name() == "Group" && len(args) > 2 {
				// a group has its own path prefix, the middlewares its parent has by now and its own
				par := routerOf(args[0]).String()
				res := resTerm(x.callTerm(st, site, name, args), g.Signature)
				set := map[string]*Term{}
				if v := st.get("guard:" + par); v != nil {
					set["guard:"+res.String()] = v
				}
				pre := st.get("prefix:" + par)
				if pre == nil {
					pre = tStr("")
				}
				a, ok := pre.strVal()
				b, ok2 := args[1].strVal()
				if ok && ok2 {
					set["prefix:"+res.String()] = tStr(strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/"))
				} else {
					set["prefix:"+res.String()] = tInt(0)
				}
				for _, h := range handlerList(x, st, args[2:]) {
					if h.Fn != nil && ginParam(h.Fn) >= 0 {
						if auths[h.Fn] == nil {
							auths[h.Fn] = c.analyzeAuth(h.Fn)
						}
						if auths[h.Fn].isAuth {
							set["guard:"+res.String()] = tTrue
							c.checkBinds(f, st, h, auths[h.Fn], site)
						}
					}
				}
				return []Outcome{{Res: res, Set: set}}, true
			}
			if g == nil || g.Name() != "GetString" || g.Signature.Recv() == nil || !ptrTo(g.Signature.Recv().Type(), pflagPath, "FlagSet") || len(args) < 2 {
				return nil, false
			}
			if s, ok := args[1].strVal(); !ok || s != "auth" {
				return nil, false
			}
			sawAuth = true
			res := resTerm(x.callTerm(st, site, name, args), g.Signature)
			return []Outcome{{Res: res, Set: map[string]*Term{"auth": res.Args[0]}}}, true
		}
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "call" || !ginRouter(ev.Fn) || len(ev.Args) == 0 {
				return
			}
			r := "guard:" + routerOf(ev.Args[0]).String()
			empty := func() bool {
				v := st.get("auth")
				if v == nil {
					return false
				}
				if b, k := st.evalBool(mkEq(v, tStr(""))); k && b {
					return true
				}
				if iv := st.ival(mk("app", "len", v)); iv.hi == 0 {
					return true
				}
				for t, val := range st.facts {
					if t.Op == "lt" && !val && t.Args[0] == tInt(0) && t.Args[1].Op == "app" && t.Args[1].Str == "len" && t.Args[1].Args[0] == v {
						return true
					}
					if t.Op == "eq" && val && t.contains(v) && (t.Args[0] == tInt(0) || t.Args[1] == tInt(0) || t.Args[0] == tStr("") || t.Args[1] == tStr("")) {
						return true
					}
				}
				return false
			}
			n := ev.Fn.Name()
			switch {
			case n == "Use":
				for _, h := range handlerList(x, st, ev.Args[1:]) {
					if h.Op == "app" || h.Op == "call" || h.Op == "res" {
						if strings.Contains(h.Str, "gin.BasicAuth") || len(h.Args) > 0 && strings.Contains(h.Args[0].Str, "gin.BasicAuth") {
							st.set(r, tTrue)
						}
						continue
					}
					if h.Fn == nil {
						continue
					}
					a := auths[h.Fn]
					if a == nil {
						a = c.analyzeAuth(h.Fn)
						auths[h.Fn] = a
					}
					if !a.isAuth {
						continue
					}
					st.set(r, tTrue)
					c.checkBinds(f, st, h, a, ev.Site)
				}
			case ginRoutes[n] || strings.HasPrefix(n, "Run"):
				c.count("routes", 1)
				if st.get(r) == nil && !empty() {
					what := "a route"
					if strings.HasPrefix(n, "Run") {
						what = "the server"
					}
					lbl := n
					if len(ev.Args) > 1 {
						if s, ok := ev.Args[1].strVal(); ok {
							lbl += " " + s
							what = "route " + s
						}
					}
					c.fail("guarded", fnLabel(f)+"/"+lbl, instrPos(ev.Site), st.path(), "%s is set up without authentication although credentials may be configured", what)
				}
				if !ginRoutes[n] {
					return
				}
				var hs []*Term
				meth, path, ok := n, "", false
				switch n {
				case "Handle", "Match":
					if len(ev.Args) > 3 {
						meth, ok = ev.Args[1].strVal()
						var ok2 bool
						path, ok2 = ev.Args[2].strVal()
						ok = ok && ok2
						hs = handlerList(x, st, ev.Args[3:])
					}
				default:
					if len(ev.Args) > 2 {
						path, ok = ev.Args[1].strVal()
						hs = handlerList(x, st, ev.Args[2:])
					}
				}
				if pre := st.get("prefix:" + routerOf(ev.Args[0]).String()); pre != nil {
					s, isS := pre.strVal()
					ok = ok && isS
					path = strings.TrimSuffix(s, "/") + "/" + strings.TrimPrefix(path, "/")
				}
				if !ok {
					unresolved = true
					return
				}
				for _, h := range hs {
					found := false
					h.any(func(u *Term) bool {
						if (u.Op == "func" || u.Op == "closure") && u.Fn != nil && u.Fn.Object() != nil && c.p.front(u.Fn) {
							if fo, ok := u.Fn.Object().(*types.Func); ok && ginParam(u.Fn) >= 0 {
								found = true
								dup := false
								for _, e := range regs[fo.FullName()] {
									dup = dup || e.site == ev.Site
								}
								if !dup {
									regs[fo.FullName()] = append(regs[fo.FullName()], reg{meth, path, ev.Site})
									handlers[fo.FullName()] = u.Fn
								}
							}
						}
						return false
					})
					if !found && h.Fn == nil && !strings.Contains(h.String(), "Swagger") && !strings.Contains(h.String(), "swagger") {
						unresolved = true
					}
				}
			}
		}
		c.exec(f, cfg)
	}
	c.count("server set-ups", len(roots))
	c.floor("server set-ups", 1)
	c.floor("routes", 15)
	if !sawAuth {
		c.fail("guarded", "auth flag", 0, nil, "the server set-up does not read the credentials (flag auth)")
	}
	for _, n := range sortedKeys(docs) {
		rs := regs[n]
		if len(rs) == 0 {
			if !unresolved {
				c.fail("route", n, 0, nil, "%s is documented as %s %s but not registered", n, docs[n][0].method, docs[n][0].path)
			}
			continue
		}
		for _, r := range rs {
			c.count("documented routes", 1)
			ok := false
			for _, d := range docs[n] {
				if d.method == r.method && shape(d.path) == shape(r.path) {
					ok = true
				}
			}
			if !ok {
				c.fail("route", n, instrPos(r.site), nil, "%s is registered under %s %s but documented as %s %s", n, r.method, r.path, docs[n][0].method, docs[n][0].path)
			}
		}
	}
	// path parameters
	for _, n := range sortedKeys(regs) {
		f := handlers[n]
		if f.Blocks == nil {
			continue
		}
		cfg := &Config{Merge: true}
		cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return c.p.front(g) }
		cfg.Event = func(x *Exec, st *State, ev *Event) {
			if ev.Kind != "call" || ev.Fn == nil || ev.Fn.Name() != "Param" || ev.Fn.Signature.Recv() == nil || !ptrTo(ev.Fn.Signature.Recv().Type(), ginPath, "Context") || len(ev.Args) < 2 {
				return
			}
			if s, ok := ev.Args[1].strVal(); ok {
				c.count("path parameters read", 1)
				for _, r := range regs[n] {
					if !pathParams(r.path)[s] {
						c.fail("parameters", fname(f)+"/"+s, instrPos(ev.Site), nil, "%s reads path parameter %q, which %s %s does not have", fname(f), s, r.method, r.path)
					}
				}
			}
		}
		c.exec(f, cfg)
	}
	n := 0
	for _, a := range auths {
		if a.isAuth {
			n++
		}
	}
	c.count("authentication middlewares", n)
}

func fnLabel(f *ssa.Function) string {
	if f.Parent() != nil {
		return "api"
	}
	return fname(f)
}

func handlerList(x *Exec, st *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		a = x.contentOf(st, a)
		if a.Op == "list" {
			out = append(out, a.Args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

type authInfo struct {
	isAuth bool
	part   map[string]string // captured variable -> part of the header it is compared with
	allow  map[string]bool   // captured booleans that let read-only requests pass
}

// analyzeAuth decides whether a middleware rejects requests, and whether it lets pass only authenticated ones.
func (c *Ctx) analyzeAuth(fn *ssa.Function) *authInfo {
	a := &authInfo{part: map[string]string{}, allow: map[string]bool{}}
	if fn.Blocks == nil || ginParam(fn) < 0 {
		return a
	}
	rej := false
	hdr := false
	reach := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if reach[g] {
			return
		}
		reach[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					if h := k.Common().StaticCallee(); h != nil {
						if strings.HasPrefix(h.Name(), "Abort") && h.Signature.Recv() != nil && ptrTo(h.Signature.Recv().Type(), ginPath, "Context") {
							rej = true
						}
						for _, v := range k.Common().Args {
							if kk, ok := v.(*ssa.Const); ok && kk.Value != nil && kk.Value.ExactString() == `"Authorization"` {
								hdr = true
							}
						}
						if h.Name() == "BasicAuth" && h.Signature.Recv() != nil {
							hdr = true // (*http.Request).BasicAuth
						}
						if c.p.front(h) {
							walk(h)
						}
					}
				}
			}
		}
	}
	walk(fn)
	if !rej || !hdr {
		return a
	}
	a.isAuth = true
	free := func(t *Term) []string {
		var out []string
		t.any(func(u *Term) bool {
			if u.Op == "param" || u.Op == "free" {
				for _, fv := range fn.FreeVars {
					if strings.TrimPrefix(u.Str, "^") == fv.Name() {
						out = append(out, fv.Name())
					}
				}
			}
			return false
		})
		return out
	}
	fromHdr := func(t *Term) bool {
		return t.any(func(u *Term) bool {
			return strings.Contains(u.Str, `Authorization`) || strings.Contains(u.Str, "Request.BasicAuth")
		})
	}
	part := func(t *Term) string {
		for {
			switch {
			case t.Op == "ld" && t.Args[0].Op == "idx":
				if n, ok := t.Args[0].Args[1].intVal(); ok {
					return itoa(int(n))
				}
				return "?"
			case t.Op == "idx":
				if n, ok := t.Args[1].intVal(); ok {
					return itoa(int(n))
				}
				return "?"
			case t.Op == "res":
				return t.Str
			case len(t.Args) == 1 && (t.Op == "conv" || t.Op == "app"):
				t = t.Args[0]
			default:
				return "?"
			}
		}
	}
	cfg := &Config{Merge: true, PartPtr: true}
	cfg.Inline = func(x *Exec, st *State, g *ssa.Function) bool { return c.p.front(g) }
	cfg.Event = func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			if ev.Fn != nil && strings.HasPrefix(ev.Fn.Name(), "Abort") && ev.Fn.Signature.Recv() != nil && ptrTo(ev.Fn.Signature.Recv().Type(), ginPath, "Context") {
				st.set("aborted", tTrue)
			}
			if ev.Fn != nil && ev.Fn.Name() == "Next" && ev.Fn.Signature.Recv() != nil && ptrTo(ev.Fn.Signature.Recv().Type(), ginPath, "Context") {
				c.passes(fn, st, ev)
			}
		case "return":
			if ev.Site != nil && ev.Site.Parent() == fn {
				c.passes(fn, st, ev)
			}
		case "branch":
			v, want := ev.Val, ev.Idx == 1
			for v.Op == "not" {
				v, want = v.Args[0], !want
			}
			if !want {
				return
			}
			if strings.Contains(v.String(), "Request.Method") {
				ok := true
				if v.Op == "eq" {
					for _, u := range v.Args {
						if s, isS := u.strVal(); isS && s != "GET" && s != "HEAD" && s != "OPTIONS" {
							ok = false
						}
					}
				}
				if ok {
					st.set("read", tTrue)
				}
				return
			}
			fs := free(v)
			if len(fs) == 0 {
				return
			}
			if !fromHdr(v) {
				st.set("flag", tTrue)
				for _, n := range fs {
					a.allow[n] = true
				}
				return
			}
			cmp := v
			if v.Op == "eq" && (v.Args[0] == tInt(1) || v.Args[1] == tInt(1)) {
				cmp = v.Args[0]
				if v.Args[0] == tInt(1) {
					cmp = v.Args[1]
				}
			}
			for _, n := range fs {
				pt := "?"
				for _, u := range cmp.Args {
					if fromHdr(u) && len(free(u)) == 0 {
						pt = part(u)
					}
				}
				st.set("cmp:"+n, tStr(pt))
				a.part[n] = pt
			}
		}
	}
	c.exec(fn, cfg)
	return a
}

// passes: the request goes on to the handlers here.
func (c *Ctx) passes(fn *ssa.Function, st *State, ev *Event) {
	if st.get("aborted") != nil || st.get("passed") != nil {
		return
	}
	st.set("passed", tTrue)
	c.count("passing paths", 1)
	if st.get("flag") != nil && st.get("read") != nil {
		return
	}
	n := 0
	parts := map[string]bool{}
	for k, v := range st.mon {
		if strings.HasPrefix(k, "cmp:") {
			n++
			parts[v.Str] = true
		}
	}
	if n >= 2 && (len(parts) >= 2 || parts["?"]) {
		return
	}
	c.fail("authenticates", fname(fn), instrPos(ev.Site), st.path(), "%s lets a request pass without having compared both user and password (%d compared)", fname(fn), n)
}

// checkBinds: the captured variables hold the parts of the configured credentials they are compared as.
func (c *Ctx) checkBinds(f *ssa.Function, st *State, h *Term, a *authInfo, site ssa.Instruction) {
	for i, fv := range h.Fn.FreeVars {
		if i >= len(h.Args) {
			break
		}
		v := h.Args[i]
		if p, ok := fv.Type().Underlying().(*types.Pointer); ok {
			v = st.load(v, p.Elem())
		}
		if pt := a.part[fv.Name()]; pt != "" && pt != "?" {
			c.count("captured credentials", 1)
			got := "?"
			switch {
			case v.Op == "ld" && v.Args[0].Op == "idx":
				if n, ok := v.Args[0].Args[1].intVal(); ok {
					got = itoa(int(n))
				}
			case v.Op == "idx" && len(v.Args) > 1:
				if n, ok := v.Args[1].intVal(); ok {
					got = itoa(int(n))
				}
			case v.Op == "res":
				got = v.Str
			}
			if got != "?" && got != pt {
				c.fail("credentials", fv.Name(), instrPos(site), st.path(), "%s is compared with part %s of the request's credentials but set to part %s of the configured ones", fv.Name(), pt, got)
			}
		}
		if a.allow[fv.Name()] {
			if !strings.Contains(v.String(), "get-allowed") {
				c.fail("credentials", fv.Name(), instrPos(site), st.path(), "read-only access is allowed by something other than the flag get-allowed")
			}
		}
	}
}
