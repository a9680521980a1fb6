package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ifcStore  = "(~/adapter/policy/store/policy.PolicyStore)."
	fnLookup  = ifcStore + "GetPolicies"
	fnGetKeys = ifcStore + "GetKeySet"
	fnGetCl   = ifcStore + "GetClient"
	fnMethod  = "~/adapter/policy.NewMethod"
	ifcTrie   = "(~/adapter/policy/store/pathtrie.Trie)."
)

// implsIn are the implementations of an interface in the adapter itself (not in tests).
func (c *Check) implsIn(pkg, iface string) []types.Type {
	var out []types.Type
	for _, t := range c.P.Impls(pkg, iface) {
		n, ok := derefType(t).(*types.Named)
		if ok && n.Obj().Pkg() != nil && strings.HasPrefix(short(n.Obj().Pkg().Path()), "adapter") {
			out = append(out, t)
		}
	}
	return out
}

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// pureModel makes a module function an uninterpreted function of its arguments.
func pureModel(r *Run, f *frame, st *St, c *CallRec) ([]Outcome, bool) {
	var typ types.Type
	if v := c.Instr.Value(); v != nil {
		typ = v.Type()
	}
	args := c.Args
	if c.Recv != nil {
		args = append([]*Term{c.Recv}, args...)
	}
	c.Result = intern(KPure, c.Name, typ, args...)
	r.hookCall(st, c)
	if tt, ok := typ.(*types.Tuple); ok {
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, extract(c.Result, i))
		}
		return []Outcome{{st: st, res: rs}}, true
	}
	return []Outcome{{st: st, res: []*Term{c.Result}}}, true
}

type modelFn = func(r *Run, f *frame, st *St, c *CallRec) ([]Outcome, bool)

type engineRun struct {
	fn   *ssa.Function
	r    *Run
	e    edges
	outs []Outcome
}

var engineCache []*engineRun

func (c *Check) engines() []*engineRun {
	if engineCache == nil {
		for _, t := range c.implsIn(pkgEngine, "PolicyEngine") {
			fn := c.P.methodOf(t, "Evaluate")
			if fn == nil {
				continue
			}
			g := &engineRun{fn: fn}
			g.r = &Run{P: c.P, Record: names(fnLookup, fnGetKeys, fnGetCl), Models: map[string]modelFn{fnMethod: pureModel}}
			g.e.attach(g.r)
			g.outs = g.r.Root(fn, nil, c.P.initialState())
			engineCache = append(engineCache, g)
		}
	}
	c.need(len(engineCache) > 0, "an implementation of PolicyEngine")
	for _, g := range engineCache {
		c.account(g.r, g.fn, len(g.outs))
	}
	return engineCache
}

func (g *engineRun) target(f string) *Term { return initial(rootParam(g.fn, 1), f) }

// own: t is the request's own path without the adapter's own last segment (and possibly trailing slashes), where
// nothing left of it means the root.
func (g *engineRun) own(st *St, t *Term) (ok bool, why string) {
	if sameStr(t, "/") {
		for f, v := range st.facts {
			if !v {
				continue
			}
			root := false
			walk(f, func(x *Term) bool {
				if x.typ != nil && isStringType(x.typ) && st.holds(mkEq(x, mkStr(""))) {
					if ok, _ := g.stripped(st, x); ok {
						root = true
					}
				}
				return !root
			})
			if root {
				return true, ""
			}
		}
	}
	if ok, why := g.stripped(st, t); !ok {
		return ok, why
	}
	if !st.refuted(mkEq(t, mkStr(""))) {
		return false, "what is left of the root may be looked up as an empty path, at which no policy for the root is stored"
	}
	return true, ""
}

func (g *engineRun) stripped(st *St, t *Term) (ok bool, why string) {
	p0 := g.target("Path")
	str := types.Typ[types.String]
	for i := 0; i < 3; i++ {
		if t.kind == KPure && (t.op == "strings.TrimRight" || t.op == "strings.TrimSuffix") && sameStr(t.args[1], "/") {
			t = t.args[0]
		}
	}
	own := []string{"/oidc/callback", "/oidc/logout"}
	for i, s := range own {
		cut := mkPure("strings.TrimSuffix", str, p0, mkStr(s))
		has := mkPure("strings.HasSuffix", types.Typ[types.Bool], p0, mkStr(s))
		switch {
		case t == cut, t.kind == KSlice && t.op == "010" && t.args[0] == p0 && st.holds(has) && lenMinus(t.args[1], p0, int64(len(s))):
			return true, ""
		case isCallTo(t, "strings.CutSuffix") || (t.kind == KExtract && t.op == "0" && isCallTo(t.args[0], "strings.CutSuffix")):
			x := t
			if x.kind == KExtract {
				x = x.args[0]
			}
			if x.args[0] == p0 && sameStr(x.args[1], s) {
				return true, ""
			}
		}
		if t == p0 && !st.refuted(has) && !st.holds(mkPure("strings.HasSuffix", types.Typ[types.Bool], p0, mkStr(own[1-i]))) {
			uncut := false
			for f, v := range st.facts {
				if !v && f.kind == KExtract && f.op == "1" && isCallTo(f.args[0], "strings.CutSuffix") && f.args[0].args[0] == p0 && sameStr(f.args[0].args[1], s) {
					uncut = true
				}
			}
			if !uncut && !st.holds(mkEq(cut, p0)) {
				return false, fmt.Sprintf("a path ending in %s is looked up without removing that segment", s)
			}
		}
	}
	if t == p0 {
		return true, ""
	}
	return false, fmt.Sprintf("the looked-up path %v is not the request's own path without at most one trailing callback or logout segment", t)
}

// lenMinus: t is len(x)-n.
func lenMinus(t, x *Term, n int64) bool {
	t = unbox(t)
	if t.kind != KBin || len(t.args) != 2 {
		return false
	}
	k, ok := intOf(t.args[1])
	if !ok || t.args[0] != mkLen(x) {
		return false
	}
	return (t.op == "-" && k == n) || (t.op == "+" && k == -n)
}

// endpoint decodes the endpoint argument of a policy lookup.
func (g *engineRun) endpoint(st *St, rec *CallRec) (ns, name, path, method *Term) {
	ep := rec.Args[0]
	return st.get(ep, "Service.Namespace"), st.get(ep, "Service.Name"), st.get(ep, "Path"), st.get(ep, "Method")
}

// ownService: the lookup is about the request's own service.
func (g *engineRun) ownService(st *St, rec *CallRec) bool {
	ns, name, _, _ := g.endpoint(st, rec)
	return ns == g.target("Namespace") && name == g.target("Service")
}

// ownLookup: the lookup is about the request's own path and method.
func (g *engineRun) ownLookup(st *St, rec *CallRec) (bool, string) {
	if !g.ownService(st, rec) {
		return false, "a lookup is not about the request's own service and namespace"
	}
	_, _, path, method := g.endpoint(st, rec)
	if path == nil || method == nil {
		return false, "a lookup's endpoint is not known"
	}
	if !isCallTo(method, fnMethod) || method.args[0] != g.target("Method") {
		return false, "no lookup uses the request's own method"
	}
	return g.own(st, path)
}

func noActions(st *St, rp *Term) bool {
	a := st.get(rp, "Actions")
	return a != nil && (st.holds(mkEq(mkLen(a), mkInt(0))) || st.isNil(a))
}

type protection struct {
	act  *Term
	typ  int64
	rule *Term // the policy entry K
	from *CallRec
	why  string
}

// decision interprets a non-error outcome.
func (g *engineRun) decision(o Outcome) *protection {
	st := o.st
	d := &protection{act: o.res[0], typ: -1}
	if st.isNil(d.act) {
		d.why = "neither an action nor an error is returned"
		return d
	}
	t := st.get(d.act, "Type")
	if t == nil {
		d.why = "the returned action has no known type"
		return d
	}
	n, ok := st.constInt(t)
	if !ok {
		d.why = fmt.Sprintf("the type of the returned action (%v) is not determined by the policy", t)
		return d
	}
	d.typ = n
	if n != 0 && n != 1 {
		return d
	}
	pt := st.get(d.act, "PolicyType")
	if pt == nil || pt.kind != KField || pt.op != "PolicyType" {
		d.why = "the returned action does not carry the policy entry it was made from"
		return d
	}
	k := pt.args[0]
	d.rule = k
	if k.kind != KIndex || k.args[0].kind != KField || k.args[0].op != "Actions" {
		d.why = "the returned action was not made from an entry of a policy lookup"
		return d
	}
	for _, rec := range st.calls(names(fnLookup)) {
		if rec.Result == k.args[0].args[0] {
			d.from = rec
		}
	}
	if d.from == nil {
		d.why = "the returned action was not made from an entry of a policy lookup"
	}
	return d
}

func (c *Check) engineDecisions(p string) {
	for _, g := range c.engines() {
		at := ssaName(g.fn)
		for _, o := range g.outs {
			st := o.st
			pos := c.P.posOf(o.ret.Pos())
			facts := st.describeFacts()
			if len(o.res) != 2 {
				continue
			}
			if st.isNonNil(o.res[1]) {
				c.ob("error", at, pos, true, "")
				continue
			}
			if !c.ob("error-known", at, pos, st.isNil(o.res[1]), "returns an action together with an error that may be set; path: %s", facts) {
				continue
			}
			d := g.decision(o)
			switch p {
			case "C14":
				g.failsClosed(c, st, d, at, pos, facts)
			case "C01":
				if d.typ != 0 && d.typ != 1 {
					g.failsClosed(c, st, d, at, pos, facts)
				} else {
					c.ob("decision-known", at, pos, d.why == "", "%s; path: %s", d.why, facts)
				}
			case "C15":
				g.considered(c, st, d, at, pos, facts)
			case "C28":
				g.typeAsDeclared(c, st, d, at, pos, facts)
			case "C07":
				g.defaultRule(c, st, d, at, pos, facts)
			}
		}
	}
}

// typeAsDeclared: a decision has the type its policy declares, and no policy becomes no decision.
func (g *engineRun) typeAsDeclared(c *Check, st *St, d *protection, at, pos, facts string) {
	if d.why != "" {
		c.ob("type-as-declared", at, pos, false, "%s; path: %s", d.why, facts)
		return
	}
	if d.typ != 0 && d.typ != 1 {
		ok := true
		for _, rec := range st.calls(names(fnLookup)) {
			ok = ok && noActions(st, rec.Result)
		}
		c.ob("unknown-type-is-error", at, pos, ok && d.typ == 2, "a policy, whatever its type, may be answered as no policy; path: %s", facts)
		return
	}
	want := []string{"jwt", "oidc"}[d.typ]
	c.ob("type-as-declared", at, pos, st.holds(mkEq(mkFieldNamed(d.rule, "PolicyType"), mkStr(want))), "an action of type %s is produced for a policy not known to be declared %q; path: %s", strings.ToUpper(want), want, facts)
}

func (g *engineRun) failsClosed(c *Check, st *St, d *protection, at, pos, facts string) {
	if d.why != "" {
		c.ob("decision-from-policy", at, pos, false, "%s; path: %s", d.why, facts)
		return
	}
	if d.typ != 0 && d.typ != 1 {
		// unprotected: allowed only when every lookup made came back empty
		ok := true
		for _, rec := range st.calls(names(fnLookup)) {
			if !noActions(st, rec.Result) {
				ok = false
			}
		}
		c.ob("unprotected-only-without-policy", at, pos, ok && d.typ == 2, "reported unprotected although a lookup may have found a policy; path: %s", facts)
		return
	}
	k := d.rule
	c.ob("decision-from-policy", at, pos, g.ownService(st, d.from), "the policy was looked up for another service or namespace; path: %s", facts)
	ptype := mkFieldNamed(k, "PolicyType")
	want, getter, field, other := "jwt", fnGetKeys, "KeySet", "Client"
	if d.typ == 1 {
		want, getter, field, other = "oidc", fnGetCl, "Client", "KeySet"
	}
	c.ob("type-as-declared", at, pos, st.holds(mkEq(ptype, mkStr(want))), "an action of type %s is produced for a policy not known to be declared %q; path: %s", strings.ToUpper(want), want, facts)
	v := st.get(d.act, field)
	ok, why := false, "it does not come from the store"
	for _, rec := range st.calls(names(getter)) {
		if rec.Result != v {
			continue
		}
		switch {
		case !g.configName(rec.Args[0], k):
			why = fmt.Sprintf("it is registered under %v instead of the policy's namespace and configuration name", rec.Args[0])
		case !st.isNonNil(v):
			why = "it may be absent"
		default:
			ok = true
		}
	}
	c.ob("configuration-of-policy", at+" "+field, pos, ok, "the action's %s is not the policy's configuration: %s; path: %s", field, why, facts)
	if ov := st.get(d.act, other); ov != nil {
		c.ob("no-foreign-configuration", at+" "+other, pos, st.isNil(ov), "a %s action carries a %s as well; path: %s", want, other, facts)
	}
	if ru := st.get(d.act, "RedirectUri"); ru != nil {
		c.ob("policy-data-kept", at+" RedirectUri", pos, ru == mkFieldNamed(k, "RedirectUri"), "the action's redirect URI is %v instead of the policy's; path: %s", ru, facts)
	}
}

func mkFieldNamed(k *Term, name string) *Term { return newSt().get(k, name) }

// configName: t is the target's namespace, a slash, and the entry's configuration name.
func (g *engineRun) configName(t, k *Term) bool {
	ps := parts(t)
	return len(ps) == 3 && ps[0] == g.target("Namespace") && sameStr(ps[1], "/") && ps[2] == mkFieldNamed(k, "Config")
}

func (g *engineRun) considered(c *Check, st *St, d *protection, at, pos, facts string) {
	ownEmpty, why := false, "the policies of the request's own path and method are not looked up"
	var ownRec *CallRec
	first := true
	for _, rec := range st.calls(names(fnLookup)) {
		ok, w := g.ownLookup(st, rec)
		if ok {
			ownRec = rec
			if noActions(st, rec.Result) {
				ownEmpty = true
			} else {
				why = "they were looked up, but the result is not known to be empty"
			}
		} else if first {
			why = w
		}
		first = false
	}
	switch {
	case d.typ == 2 && d.why == "":
		c.ob("unprotected-only-if-nothing-covers", at, pos, ownEmpty, "reported unprotected, but %s; path: %s", why, facts)
	case d.why == "":
		c.ob("most-specific-policy-first", at, pos, ownEmpty || (ownRec != nil && d.from == ownRec), "the decision rests on a less specific lookup although %s; path: %s", why, facts)
	default:
		c.ob("most-specific-policy-first", at, pos, false, "%s; path: %s", d.why, facts)
	}
}

func (g *engineRun) defaultRule(c *Check, st *St, d *protection, at, pos, facts string) {
	if d.typ != 0 && d.typ != 1 {
		return
	}
	if d.why != "" {
		c.ob("rules-of-policy", at, pos, false, "%s; path: %s", d.why, facts)
		return
	}
	own := mkFieldNamed(d.rule, "Rules")
	rules := st.get(d.act, "Rules")
	if rules == own {
		c.ob("rules-of-policy", at, pos, d.typ == 0 || st.isNonNil(own) || st.refuted(mkEq(mkLen(own), mkInt(0))),
			"an OIDC policy without rules is enforced without the default audience rule; path: %s", facts)
		return
	}
	none := st.isNil(own) || st.holds(mkEq(mkLen(own), mkInt(0)))
	c.ob("rules-of-policy", at, pos, none, "the action's rules are not those of the policy; path: %s", facts)
	if d.typ != 1 {
		return
	}
	ok := false
	if es, known := st.elems(rules); known {
		for _, e := range es {
			vs, kv := st.elems(orNil(st.get(e, "Values")))
			if sameStr(st.get(e, "Claim"), "aud") && kv && len(vs) == 1 && isCallTo(vs[0], fnClientID) && vs[0].args[0] == st.get(d.act, "Client") {
				if m := st.get(e, "Match"); sameStr(m, "ANY") || sameStr(m, "ALL") {
					if s := st.get(e, "Source"); sameStr(s, "") || s.kind == KZero {
						ok = true
					}
				}
			}
		}
	}
	c.ob("default-audience-rule", at, pos, ok, "an OIDC policy without rules does not require the audience to contain its client's id; path: %s", facts)
}

func orNil(t *Term) *Term {
	if t == nil {
		return mkNil(nil)
	}
	return t
}

// ---- the policy store's lookups ----

type storeRun struct {
	typ  types.Type
	fn   *ssa.Function
	r    *Run
	e    edges
	outs []Outcome
}

func (c *Check) storeRoots(method string) []*storeRun {
	var out []*storeRun
	for _, t := range c.implsIn(pkgStore, "PolicyStore") {
		fn := c.P.methodOf(t, method)
		if !c.need(fn != nil, "PolicyStore."+method) {
			continue
		}
		s := &storeRun{typ: t, fn: fn}
		s.r = &Run{P: c.P, Record: func(n string) bool { return strings.HasPrefix(n, ifcTrie) }}
		s.e.attach(s.r)
		s.outs = s.r.Root(fn, nil, c.P.initialState())
		c.account(s.r, fn, len(s.outs))
		out = append(out, s)
	}
	c.need(len(out) > 0, "an implementation of PolicyStore")
	return out
}

// policiesField: t is (the initial content of) the receiver's map from services to tries.
func (s *storeRun) serviceTrie(st *St, t *Term) bool {
	ep := rootParam(s.fn, 1)
	return t != nil && t.kind == KLookup && t.args[1] == st.get(ep, "Service") && s.policies(t.args[0])
}

func (s *storeRun) policies(m *Term) bool {
	if tableField(m, rootParam(s.fn, 0)) == nil || m.typ == nil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	return ok && typeName(mt.Key()) == "~/adapter/policy.Service"
}

func (c *Check) storeLookup() {
	for _, s := range c.storeRoots("GetPolicies") {
		at := ssaName(s.fn)
		ep := rootParam(s.fn, 1)
		for _, o := range s.outs {
			st := o.st
			pos := c.P.posOf(o.ret.Pos())
			facts := st.describeFacts()
			res := o.res[0]
			acts := st.get(res, "Actions")
			if acts != nil && st.refuted(mkEq(mkLen(acts), mkInt(0))) {
				m, cand, why := s.result(st, res)
				if why == "" && m == nil {
					why = "it is not an entry of the trie for the endpoint's service"
				}
				if why == "" {
					why = s.precedence(st, cand, m, initial(ep, "Method"))
				}
				c.ob("lookup-most-specific", at, pos, why == "", "a lookup answers %v: %s; path: %s", res, why, facts)
				continue
			}
			why := s.exhausted(st)
			c.ob("lookup-exhaustive", at, pos, why == "", "a lookup finds nothing although %s; path: %s", why, facts)
		}
	}
	c.atLeast("lookup-most-specific", 2)
	c.atLeast("lookup-exhaustive", 1)
}

// result: res is cand's entry for method m, cand being an element of GetAll.
func (s *storeRun) result(st *St, res *Term) (m, cand *Term, why string) {
	if res.kind != KLookup {
		return nil, nil, "it is not an entry stored for a method"
	}
	cand = actionsOf(res.args[0])
	if !s.candidate(st, cand) {
		return nil, nil, "it is not taken from the entries covering the endpoint's own path"
	}
	return res.args[1], cand, ""
}

// actionsOf undoes the type assertion from a trie value to a method table.
func actionsOf(t *Term) *Term {
	t = unboxConv(t)
	for t.kind == KExtract && t.op == "0" && t.args[0].kind == KAssert {
		t = t.args[0]
	}
	return t
}

// candidate: t is an element of GetAll(endpoint.Path) of the endpoint's own service.
func (s *storeRun) candidate(st *St, t *Term) bool {
	return t.kind == KIndex && s.covering(st, t.args[0])
}

func (s *storeRun) covering(st *St, t *Term) bool {
	if t == nil || !isCallTo(t, ifcTrie+"GetAll") {
		return false
	}
	return len(t.args) == 2 && s.serviceTrie(st, t.args[0]) && t.args[1] == initial(rootParam(s.fn, 1), "Path")
}

func methodEmpty(st *St, cand, m *Term, typ types.Type) bool {
	ok := false
	try := func(f *Term) {
		contains(f, func(t *Term) bool {
			if ok || (t.kind != KLookup && t.kind != KLookupOk) || actionsOf(t.args[0]) != cand || !(t.args[1] == m || sameConst(t.args[1], m)) {
				return ok
			}
			if (t.kind == KLookup && noActions(st, t)) || (t.kind == KLookupOk && st.refuted(t)) {
				ok = true
			}
			return ok
		})
	}
	for f := range st.facts {
		try(f)
		if ok {
			return true
		}
	}
	return false
}

func sameConst(a, b *Term) bool {
	x, ok1 := constInt64(a)
	y, ok2 := constInt64(b)
	return ok1 && ok2 && x == y
}

// nothingAt: the path of st has found candidate cand to hold nothing for the method or for all methods.
func (s *storeRun) nothingAt(st *St, cand *Term) bool {
	m := initial(rootParam(s.fn, 1), "Method")
	if methodEmpty(st, cand, m, nil) && methodEmpty(st, cand, mkInt(0), nil) {
		return true
	}
	for f, v := range st.facts {
		if !v && f.kind == KAssertOk && f.args[0] == cand {
			return true
		}
	}
	return st.isNil(cand)
}

// precedence: the method's own entry precedes the one for all methods, and more specific candidates came first.
func (s *storeRun) precedence(st *St, cand, m, own *Term) string {
	if m != own && !(isConstInt(m, 0) && methodEmpty(st, cand, own, nil)) {
		return "the entry is neither that of the endpoint's method nor, after finding that one empty, the one for all methods"
	}
	idx := cand.args[1]
	// the loop the index belongs to
	why := "the candidates are not examined from the most to the least specific one"
	for k, bs := range s.e.back {
		for _, b := range bs {
			for ph, in := range b.In {
				if in.kind != KLoop || !contains(idx, func(t *Term) bool { return t == in }) {
					continue
				}
				if why = s.descending(k, ph, in, cand.args[0], idx); why == "" {
					return ""
				}
			}
		}
	}
	if sameSum(idx, addInt(mkLen(cand.args[0]), -1)) {
		return ""
	}
	return why
}

func isConstInt(t *Term, n int64) bool { x, ok := constInt64(t); return ok && x == n }

// sub is the constant difference a-b.
func sub(a, b *Term) *int64 {
	x, n := linear(a)
	y, m := linear(b)
	if x != y {
		return nil
	}
	d := n - m
	return &d
}

func linear(t *Term) (*Term, int64) {
	n := int64(0)
	for t.kind == KBin && len(t.args) == 2 && (t.op == "+" || t.op == "-") {
		k, ok := intOf(t.args[1])
		if !ok {
			if k0, ok0 := intOf(t.args[0]); ok0 && t.op == "+" {
				n += k0
				t = t.args[1]
				continue
			}
			break
		}
		if t.op == "-" {
			k = -k
		}
		n += k
		t = t.args[0]
	}
	if k, ok := intOf(t); ok {
		return nil, n + k
	}
	return t, n
}

// descending: the loop starts at the last element, goes down one by one and leaves behind only empty candidates.
// idx is the element's position in terms of the loop variable in.
func (s *storeRun) descending(key string, ph *ssa.Phi, in, over, idx *Term) string {
	m := map[*Term]int64{}
	var n int64
	flatSum(idx, 1, m, &n)
	sgn := m[in]
	if sgn != 1 && sgn != -1 {
		return "the order of the candidates is not understood"
	}
	at := func(v *Term) (map[*Term]int64, int64) {
		mm := map[*Term]int64{}
		k := n
		for t, c := range m {
			if t != in {
				mm[t] += c
			}
		}
		flatSum(v, sgn, mm, &k)
		return mm, k
	}
	for _, x := range s.e.entry[key] {
		if x.Out[ph] == nil {
			return "the loop's start is not known"
		}
		mm, k := at(x.Out[ph])
		flatSum(addInt(mkLen(over), -1), -1, mm, &k)
		if !zeroSum(mm, k) {
			return "the loop does not start at the most specific candidate"
		}
	}
	if len(s.e.entry[key]) == 0 {
		return "the loop's start is not known"
	}
	for _, b := range s.e.back[key] {
		if b.In[ph] == nil || b.Out[ph] == nil || b.In[ph] != in {
			return "the loop is not understood"
		}
		if d := sub(b.Out[ph], b.In[ph]); d == nil || *d*sgn != -1 {
			return "the loop does not go down one candidate at a time"
		}
		if !s.nothingAt(b.St, mkIndex(over, idx)) {
			return "a more specific candidate may be passed over: " + b.St.describeFacts()
		}
	}
	return ""
}

func zeroSum(m map[*Term]int64, n int64) bool {
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return n == 0
}

// exhausted: nothing covering the endpoint exists on this path ("" if so).
func (s *storeRun) exhausted(st *St) string {
	for f, v := range st.facts {
		if v && f.kind == KBin && f.op == "==" {
			for i := 0; i < 2; i++ {
				if f.args[1-i].kind == KNil && (s.policies(f.args[i]) || s.serviceTrie(st, f.args[i])) {
					return ""
				}
			}
		}
		if !v && f.kind == KLookupOk && s.policies(f.args[0]) && f.args[1] == initial(rootParam(s.fn, 1), "Service") {
			return ""
		}
		if v && f.kind == KBin && f.op == "==" && (sameInt(f.args[0], 0) || sameInt(f.args[1], 0)) {
			for i := 0; i < 2; i++ {
				if a := f.args[i]; a.kind == KPure && a.op == "len" && s.covering(st, a.args[0]) {
					return ""
				}
			}
		}
	}
	why := "not every entry covering the endpoint was examined"
	for _, ev := range st.events() {
		if ev.loop == nil || ev.loop.Over == nil || !s.covering(st, ev.loop.Over) {
			continue
		}
		ok, b := s.e.forall(st, ev.loop, func(b *BackEdge, el *Term) bool {
			if s.nothingAt(b.St, el) {
				return true
			}
			// the same elements, from the other end
			for f := range b.St.facts {
				if contains(f, func(t *Term) bool {
					return t.kind == KIndex && t.args[0] == el.args[0] && sameSum(mkBin(token.ADD, t.args[1], el.args[1], types.Typ[types.Int]), addInt(mkLen(el.args[0]), -1)) && s.nothingAt(b.St, t)
				}) {
					return true
				}
			}
			return false
		})
		if ok {
			return ""
		}
		why = "an entry covering the endpoint may be passed over: " + backDetail(b)
	}
	return why
}

func init() {
	checks["C14"] = func(c *Check) {
		c.engineDecisions("C14")
		c.atLeast("unprotected-only-without-policy", 1)
		c.atLeast("configuration-of-policy", 2)
		c.atLeast("type-as-declared", 2)
		c.storeConfigs()
	}
	explain["C14"] = "Path-sensitive dataflow from every implementation of PolicyEngine.Evaluate: each abstract path returning no error is classified by the constant type of its action; a protecting action must be built from an entry of a lookup for the request's own service, its type must equal the entry's declared type by a fact of the path, and its key set or client must be the non-nil result of the store lookup under namespace/config of that entry; an unprotected answer requires every lookup on the path to be empty."
	checks["C15"] = func(c *Check) {
		c.engineDecisions("C15")
		c.atLeast("unprotected-only-if-nothing-covers", 1)
		c.atLeast("most-specific-policy-first", 2)
		if a := c.adapter(); a != nil {
			c.lookupTargets(a, true)
			c.atLeast("lookup-of-own-target", 1)
		}
		c.storeLookup()
		c.trieWalks()
	}
	explain["C15"] = "Three layers, each a path-sensitive dataflow with loop summaries: the engine (unprotected only after an empty lookup with the request's own path, service and method), the store (an answer is the most specific covering entry with actions; nothing only after all covering entries were found empty), and the trie (the walk from the root follows exactly the key's segments; every wildcard value and the final value met are returned, in order)."
}

var _ = fmt.Sprint

// storeConfigs: the key set and client tables answer exactly what was registered under the given name.
func (c *Check) storeConfigs() {
	for _, fam := range []struct{ get, add, del, what string }{
		{"GetKeySet", "AddKeySet", "DeleteKeySet", "key set"},
		{"GetClient", "AddClient", "DeleteClient", "client"},
	} {
		c.storeTable(fam.get, fam.add, fam.del, fam.what)
	}
}

// tableField: t is the initial content of a field of recv.
func tableField(t, recv *Term) *Term {
	if t == nil || t.kind != KField {
		return nil
	}
	x := t
	for x.kind == KField {
		x = x.args[0]
	}
	if x.kind == KDeref && x.args[0] == recv {
		return t
	}
	return nil
}

func (c *Check) storeTable(get, add, del, what string) {
	for _, t := range c.implsIn(pkgStore, "PolicyStore") {
		fields := map[string]bool{}
		// lookups
		fn := c.P.methodOf(t, get)
		if !c.need(fn != nil, "PolicyStore."+get) {
			return
		}
		recv, name := rootParam(fn, 0), rootParam(fn, 1)
		r := &Run{P: c.P}
		n := 0
		for _, o := range c.run(r, fn, nil, nil) {
			res := o.res[0]
			pos := c.P.posOf(o.ret.Pos())
			if o.st.isNil(res) {
				c.ob("lookup-by-name", ssaName(fn), pos, c.nilJustified(o.st, recv, name), "answers no %s without having looked it up; path: %s", what, o.st.describeFacts())
				continue
			}
			f := (*Term)(nil)
			if res.kind == KLookup && res.args[1] == name {
				f = tableField(res.args[0], recv)
			}
			if c.ob("lookup-by-name", ssaName(fn), pos, f != nil, "the %s answered is %v, not the one registered under the name asked for; path: %s", what, res, o.st.describeFacts()) {
				fields[f.String()] = true
				n++
			}
		}
		c.ob("lookup-by-name", ssaName(fn)+" answers", "-", n > 0, "no path answers the %s registered under the name", what)
		// registration
		fn = c.P.methodOf(t, add)
		if !c.need(fn != nil, "PolicyStore."+add) {
			return
		}
		recv, name = rootParam(fn, 0), rootParam(fn, 1)
		val := rootParam(fn, 2)
		r = &Run{P: c.P}
		r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			f := tableField(m, recv)
			if f == nil {
				for a, x := range st.heap {
					if x == m && a.kind == KFieldAddr && derives(a, func(y *Term) bool { return y == recv }) {
						f = newSt().load(a)
					}
				}
			}
			c.ob("registered-under-its-name", ssaName(fn), c.P.posOf(in.Pos()), f != nil && fields[f.String()] && k == name && v == val,
				"a %s is registered in another table, under another name or altered (%v[%v]=%v)", what, m, k, v)
		}
		for _, o := range c.run(r, fn, nil, nil) {
			ok := false
			for a, v := range o.st.heap {
				if a.kind == KMapAddr && a.args[1] == name && v == val {
					ok = true
				}
			}
			c.ob("registered-on-every-path", ssaName(fn), c.P.posOf(o.ret.Pos()), ok, "returns without having registered the %s; path: %s", what, o.st.describeFacts())
		}
		// removal
		fn = c.P.methodOf(t, del)
		if !c.need(fn != nil, "PolicyStore."+del) {
			return
		}
		recv, name = rootParam(fn, 0), rootParam(fn, 1)
		r = &Run{P: c.P, Record: names("builtin.delete")}
		r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			f := tableField(m, recv)
			c.ob("removed-by-name", ssaName(fn)+" update", c.P.posOf(in.Pos()), f != nil && fields[f.String()] && k == name && st.isNil(v), "a removal stores something else")
		}
		for _, o := range c.run(r, fn, nil, nil) {
			gone := false
			for _, d := range o.st.calls(names("builtin.delete")) {
				f := tableField(d.Args[0], recv)
				ok := f != nil && fields[f.String()] && d.Args[1] == name
				c.ob("removed-by-name", ssaName(fn), c.P.posOf(d.Instr.Pos()), ok, "a removal of a %s removes something else", what)
				gone = gone || ok
			}
			for f, v := range o.st.facts {
				if v && f.kind == KBin && f.op == "==" && (tableField(f.args[0], recv) != nil || tableField(f.args[1], recv) != nil) {
					gone = true
				}
				if !v && f.kind == KLookupOk && f.args[1] == name {
					gone = true
				}
			}
			for a, v := range o.st.heap {
				if a.kind == KMapAddr && a.args[1] == name && o.st.isNil(v) {
					gone = true
				}
			}
			c.ob("removed-on-every-path", ssaName(fn), c.P.posOf(o.ret.Pos()), gone, "returns without having removed the %s; path: %s", what, o.st.describeFacts())
		}
	}
	c.atLeast("lookup-by-name", 3)
	c.atLeast("registered-under-its-name", 1)
	c.atLeast("removed-by-name", 1)
}

// nilJustified: the table is absent or has no entry of that name.
func (c *Check) nilJustified(st *St, recv, name *Term) bool {
	for f, v := range st.facts {
		if v && f.kind == KBin && f.op == "==" {
			for i := 0; i < 2; i++ {
				if f.args[1-i].kind == KNil && (tableField(f.args[i], recv) != nil || (f.args[i].kind == KLookup && f.args[i].args[1] == name)) {
					return true
				}
			}
		}
		if !v && f.kind == KLookupOk && f.args[1] == name && tableField(f.args[0], recv) != nil {
			return true
		}
	}
	return false
}
