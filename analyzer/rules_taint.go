package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = c25
	explain["C25"] = "Taint analysis over SSA: labels start at the request's Authorization header, cookies and code, at the token fields, client secret and cluster secret fields, at generated cookie keys and at the random values used as session cache keys; they follow assignments, fields, containers, calls and library conversions. No argument of a log call at level info or above, nor of a print or panic, may reach such a label."
	checks["C26"] = c26
	explain["C26"] = "The same taint analysis: the results of the request handler (response, redirect, cookies, headers, error) must not reach a client secret, refresh token or authorization code; every HTTP request that carries one must be addressed with the discovered token endpoint and nothing else, and not carry it in its address."
}

func (c *Check) taint() *taint {
	t := c.P.taintAnalysis()
	for f := range t.visited {
		c.Fns[ssaName(f)] = true
	}
	c.States += t.steps
	c.Calls += t.nCalls
	c.Paths += len(t.sinks)
	c.Roots = append(c.Roots, t.roots...)
	c.ob("decidable", "taint analysis", "-", !t.over, "the taint analysis did not reach a fixed point within its bounds")
	for _, k := range []string{"Authorization header", "Cookie header", "authorization code", "access token", "ID token", "refresh token", "client secret"} {
		found := false
		for _, l := range t.src {
			found = found || l == k
		}
		c.need(found, "the field holding the "+k)
	}
	return t
}

func (t *taint) sinkList(kinds ...string) []*tsink {
	var out []*tsink
	for _, s := range t.sinks {
		for _, k := range kinds {
			if s.kind == k {
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].pos != out[j].pos {
			return out[i].pos < out[j].pos
		}
		return out[i].arg < out[j].arg
	})
	return out
}

func (t *taint) mask(names ...string) labs {
	var l labs
	for _, n := range names {
		if i, ok := t.bits[n]; ok {
			l[i/64] |= 1 << uint(i%64)
		}
	}
	return l
}

func c25(c *Check) {
	t := c.taint()
	var sess []string
	for n := range t.rndSite {
		if !t.mask(n).and(t.keys).zero() {
			sess = append(sess, n)
		}
	}
	c.need(len(sess) > 0 || !t.mask("Cookie header").and(t.keys).zero(), "the key under which a session is cached")
	bad := t.mask(append([]string{"Authorization header", "Cookie header", "authorization code", "access token", "ID token", "refresh token", "client secret", "cluster secret", "cookie key", "cookie value"}, sess...)...)
	for _, s := range t.sinkList("log", "panic") {
		l := s.lab.and(bad)
		var ns []string
		for _, n := range t.labelNames(l) {
			if strings.HasPrefix(n, "random value") {
				n = "session identifier"
			}
			ns = append(ns, n)
		}
		what := "log-line"
		if s.kind == "panic" {
			what = "panic-text"
		}
		c.ob(what, ssaName(s.fn)+" "+s.arg, c.P.posOf(s.pos), l.zero(), "%s of this %s call can contain: %s", s.arg, s.kind, strings.Join(ns, ", "))
	}
	c.atLeast("log-line", 40)
	// the default level
	if f := c.P.Func("adapter/config", "NewConfig"); c.need(f != nil, "adapter/config.NewConfig") {
		r := &Run{}
		for _, o := range c.run(r, f, nil, nil) {
			lv := int64(-99)
			if len(o.res) == 1 {
				if k, ok := o.st.constInt(o.st.get(o.res[0], "Level")); ok {
					lv = k
				}
			}
			c.ob("default-level", ssaName(f), c.P.posOf(f.Pos()), lv >= 0, "the default log level is %d: below info, debug lines contain session identifiers and tokens", lv)
		}
	}
	c.levels()
	c.Assume = append(c.Assume,
		"errors returned by libraries other than fmt, errors, strconv and net/url do not repeat the secret they were given",
		"digests and lengths of a value are not the value",
		"an identity provider's error answer does not repeat the request")
}

func c26(c *Check) {
	t := c.taint()
	secret := []string{"client secret", "refresh token", "authorization code"}
	bad := t.mask(append(secret, "cluster secret", "cookie key")...)
	n := 0
	for _, s := range t.sinkList("response") {
		n++
		l := s.lab.and(bad)
		c.ob("stays-inside", ssaName(s.fn)+" "+s.arg, c.P.posOf(s.pos), l.zero(), "the answer to a request can contain: %s", strings.Join(t.labelNames(l), ", "))
	}
	c.need(n >= 2, "the results of the request handler")
	// requests
	tokenEP := t.mask("endpoint token")
	others := t.mask("endpoint authorization", "endpoint keys", "endpoint user-info")
	var reqs []*trequest
	for _, r := range t.reqs {
		reqs = append(reqs, r)
	}
	sort.Slice(reqs, func(i, j int) bool {
		return reqs[i].pos < reqs[j].pos || reqs[i].pos == reqs[j].pos && reqs[i].obj < reqs[j].obj
	})
	carrying := 0
	agg := map[string]bool{}
	for _, r := range reqs {
		v := &tv{locs: map[tloc]bool{{r.obj, ""}: true}}
		all := t.deep(v, nil)
		url := t.deep(r.url, nil)
		l := all.and(t.mask(secret...))
		at := ssaName(r.fn)
		ok := url.and(t.mask(secret...)).zero()
		c.ob("not-in-an-address", at, c.P.posOf(r.pos), ok, "the address of this request can contain: %s", strings.Join(t.labelNames(url.and(t.mask(secret...))), ", "))
		if l.zero() {
			if !agg[at] {
				c.ob("carries-no-secret", at, c.P.posOf(r.pos), true, "")
			}
			continue
		}
		agg[at] = true
		carrying++
		good := !url.and(tokenEP).zero() && url.and(others).zero()
		c.ob("only-to-the-token-endpoint", at, c.P.posOf(r.pos), good, "this request can carry %s and is addressed to {%s}, not to the token endpoint", strings.Join(t.labelNames(l), ", "), strings.Join(t.labelNames(url), ", "))
	}
	c.need(carrying > 0, "a request that carries the client secret")
	c.Assume = append(c.Assume,
		"an identity provider's answer does not repeat the request",
		"the request path as reported by the proxy does not contain the query string")
	_ = fmt.Sprint
}

// levels: the process logs at the configured level, and what configures it does not lower the default.
func (c *Check) levels() {
	const set, setLevel = "go.uber.org/zap.NewAtomicLevelAt", "(go.uber.org/zap.AtomicLevel).SetLevel"
	sets := func(n string) bool {
		return n == set || n == setLevel || strings.HasSuffix(n, ".Int8VarP") || strings.HasSuffix(n, ".Int8Var")
	}
	n := 0
	for _, f := range c.P.Fns {
		if fnPkgPath(f) != modPath+"/cmd" || !calls(f, sets) {
			continue
		}
		cfg := func(t *Term) bool { // the level of the configuration given to this function
			for t.kind == KConv {
				t = t.args[0]
			}
			for i := range f.Params {
				if t == rootParam(f, i) {
					return true // judged where it is called
				}
			}
			return t.kind == KDeref && configLevel(t.args[0]) || t.kind == KField && t.op == "Level" && t.args[0].typ != nil && typeName(t.args[0].typ) == "~/adapter/config.Config"
		}
		r := &Run{P: c.P, Record: sets, Opaque: func(n string) bool { return strings.HasPrefix(n, "~/adapter.") }}
		r.OnCall = func(st *St, rec *CallRec) {
			var lv *Term
			switch {
			case rec.Name == set || rec.Name == setLevel:
				lv = rec.Args[len(rec.Args)-1]
			case sets(rec.Name) && len(rec.Args) >= 4:
				if a := rec.Args[0]; !configLevel(a) {
					return
				}
				lv = rec.Args[len(rec.Args)-2]
			default:
				return
			}
			k, known := st.constInt(lv)
			ok := known && k >= 0 || cfg(lv)
			n++
			c.ob("default-level", ssaName(f), c.P.posOf(rec.Instr.Pos()), ok, "the log level set here is %v: neither the configured level nor a level of info or above", lv)
		}
		r.Root(f, nil, c.P.initialState())
		c.account(r, f, 0)
	}
	for _, f := range c.P.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && (ssaName(g) == "go.uber.org/zap.NewDevelopment" || ssaName(g) == "go.uber.org/zap.NewExample") {
					c.ob("default-level", ssaName(f), c.P.posOf(in.Pos()), false, "a logger made by %s writes debug lines whatever the configured level is", ssaName(g))
				}
			}
		}
	}
	c.need(n >= 2, "the places where the log level is set and configured")
	for _, d := range c.P.yaml() {
		if d.err == nil && strings.HasSuffix(d.file, "values.yaml") && d.root != nil {
			lv := d.root.get("logging", "level")
			if lv == nil {
				continue
			}
			c.ob("default-level", d.file, d.file, !strings.HasPrefix(lv.str(), "-"), "the chart's default log level is %s: below info", lv.str())
		}
	}
}

// calls: fn or a function of its package it calls makes a call that sel selects.
func calls(fn *ssa.Function, sel func(string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || fnPkgPath(f) != fnPkgPath(fn) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && (sel(ssaName(g)) || walk(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// configLevel: a is the address of the Level field of the adapter's configuration.
func configLevel(a *Term) bool {
	if a.kind != KFieldAddr {
		return false
	}
	return levelOf(pointerTo(a.args[0]), a.op)
}

func levelOf(t types.Type, op string) bool {
	i, err := strconv.Atoi(op)
	return err == nil && t != nil && typeName(derefType(t)) == "~/adapter/config.Config" && fieldName(derefType(t), i) == "Level"
}
