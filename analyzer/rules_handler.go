package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16, upper layer: every change of a custom resource makes the store follow it.

const (
	fnParse      = "~/adapter/policy/handler/crdeventhandler.ParseTarget"
	fnKeysetNew  = "~/adapter/authserver/keyset.New"
	fnAuthNew    = "~/adapter/authserver.New"
	fnClientSecr = "~/adapter/policy/handler/crdeventhandler.GetClientSecret"
)

// storeOp is the name of a recorded call of the policy store.
func storeOp(rec *CallRec) string {
	if strings.HasPrefix(rec.Name, ifcStore) {
		return rec.Name[len(ifcStore):]
	}
	return ""
}

type snap struct {
	rec *CallRec
	st  *St
}

type handlerRun struct {
	fn    *ssa.Function
	r     *Run
	e     edges
	outs  []Outcome
	obj   *Term
	id    *Term // constant-folded identity of the object
	key   *Term
	snaps []snap
	mapUp []mapUpdate
	c     *Check
}

type mapUpdate struct {
	m, k *Term
	st   *St
}

// handlers runs every implementation of PolicyHandler on the given argument.
func (c *Check) handlers(method string, obj *Term) []*handlerRun {
	var out []*handlerRun
	for _, t := range c.implsIn(pkgHandler, "PolicyHandler") {
		fn := c.P.methodOf(t, method)
		if !c.need(fn != nil && len(fn.Params) == 2, "PolicyHandler."+method) {
			continue
		}
		h := &handlerRun{fn: fn, c: c}
		models := map[string]modelFn{fnParse: pureModel, fnKeysetNew: pureModel, fnAuthNew: pureModel, fnClientSecr: pureModel}
		for n := range models {
			i := strings.LastIndex(n, ".")
			c.need(c.P.Func(strings.TrimPrefix(n[:i], "~/"), n[i+1:]) != nil, n)
		}
		h.r = &Run{P: c.P, Models: models, Record: func(n string) bool {
			return strings.HasPrefix(n, ifcStore) || strings.HasSuffix(n, ".JwksEndpoint") || strings.HasSuffix(n, ".SetKeySet") || n == "builtin.delete"
		}}
		h.e.attach(h.r)
		h.r.OnCall = func(st *St, rec *CallRec) {
			if storeOp(rec) != "" {
				h.snaps = append(h.snaps, snap{rec, st.clone()})
			}
			if rec.Name == "builtin.delete" {
				h.mapUp = append(h.mapUp, mapUpdate{unloop(rec.Args[0]), rec.Args[1], nil})
			}
		}
		h.r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			h.mapUp = append(h.mapUp, mapUpdate{unloop(m), k, st.clone()})
		}
		h.outs = h.r.Root(fn, map[string]*Term{"#1": obj}, c.P.initialState())
		c.account(h.r, fn, len(h.outs))
		out = append(out, h)
	}
	c.need(len(out) > 0, "an implementation of PolicyHandler")
	return out
}

func symbol(name string, t types.Type) *Term {
	x := intern(KParam, name+"@"+typeName(t), nil)
	x.typ = t
	return x
}

// isName: t is the object's namespace/name.
func isName(t, obj *Term) bool {
	ps := parts(t)
	return len(ps) == 3 && ps[0] == initial(obj, "ObjectMeta.Namespace") && sameStr(ps[1], "/") && ps[2] == initial(obj, "ObjectMeta.Name")
}

// only: the handler changes the store by nothing but the allowed operations.
func (h *handlerRun) only(kind string, allowed ...string) {
	for _, s := range h.snaps {
		op := storeOp(s.rec)
		if strings.HasPrefix(op, "Get") {
			continue
		}
		ok := false
		for _, a := range allowed {
			ok = ok || a == op
		}
		h.c.ob("changes-only-its-kind", ssaName(h.fn)+" "+kind, h.pos(s.rec), ok, "the event of a %s changes the store by %s", kind, op)
	}
}

func (h *handlerRun) pos(rec *CallRec) string {
	if rec.Instr == nil {
		return "-"
	}
	return h.c.P.posOf(rec.Instr.Pos())
}

// element: t is a field path of an element of list.
func elementOf(t, list *Term) bool {
	return t != nil && t.kind == KIndex && t.args[0] == list
}

func endpointOf(st *St, el *Term) *Term { return st.get(el, "Endpoint") }

// sameEndpoint: t is exactly el's endpoint.
func sameEndpoint(st *St, t, el *Term) bool {
	ep := endpointOf(st, el)
	return ep != nil && (t == ep || sameStruct(st, t, ep))
}

// loops over the given list completed on the path.
func loopsOver(st *St, list *Term) []*LoopRec {
	var out []*LoopRec
	for _, e := range st.events() {
		if e.loop != nil && e.loop.Over == list {
			out = append(out, e.loop)
		}
	}
	return out
}

func knownEmpty(st *St, list *Term) bool {
	return st.isNil(list) || st.holds(mkEq(mkLen(list), mkInt(0)))
}

// declaredIn: the path shows whether the endpoint ep is (1) or is not (-1) one of the parsed endpoints; 0: unknown.
func (h *handlerRun) declared(st *St, ep, parsed *Term, keys map[*Term]bool) int {
	for f, v := range st.facts {
		// membership in a map holding exactly the parsed endpoints
		if f.kind == KLookupOk && f.args[1] == ep && keys[unloop(f.args[0])] {
			if v {
				return 1
			}
			return -1
		}
		if f.kind == KLookup && f.args[1] == ep && keys[unloop(f.args[0])] && f.typ != nil && types.Identical(f.typ.Underlying(), types.Typ[types.Bool]) {
			if v {
				return 1
			}
			return -1
		}
		if v && f.kind == KBin && f.op == "==" {
			for i := 0; i < 2; i++ {
				if f.args[i] == ep && f.args[1-i].kind == KField && elementOf(f.args[1-i].args[0], parsed) && f.args[1-i] == endpointOf(st, f.args[1-i].args[0]) {
					return 1
				}
			}
		}
	}
	isEp := func(b *BackEdge, el *Term) bool {
		return b.St.holds(mkEq(endpointOf(b.St, el), ep))
	}
	for _, l := range loopsOver(st, parsed) {
		if h.e.exists(st, l, isEp) {
			return 1
		}
		if ok, _ := h.e.forall(st, l, func(b *BackEdge, el *Term) bool { return b.St.refuted(mkEq(endpointOf(b.St, el), ep)) }); ok && len(h.e.back[loopKey(l.Header, l.Ctx)]) > 0 {
			return -1
		}
	}
	if knownEmpty(st, parsed) {
		return -1
	}
	return 0
}

// unloop: the variable whose content after a loop t stands for.
func unloop(t *Term) *Term {
	for t.kind == KHavoc {
		t = t.args[0]
	}
	return t
}

// epMaps are the local maps whose keys are exactly the endpoints of the parsed list.
func (h *handlerRun) epMaps(parsed *Term) map[*Term]bool {
	out := map[*Term]bool{}
	for _, u := range h.mapUp {
		if u.m.kind != KAlloc {
			continue
		}
		ok := u.st != nil && u.k.kind == KField && elementOf(u.k.args[0], parsed) && u.k == endpointOf(u.st, u.k.args[0])
		if prev, seen := out[u.m]; !seen {
			out[u.m] = ok
		} else {
			out[u.m] = prev && ok
		}
	}
	for m, ok := range out {
		if !ok {
			delete(out, m)
		}
	}
	return out
}

// filled: on the path to st, every parsed endpoint had been put into the map.
func (h *handlerRun) filled(st *St, m, parsed *Term) bool {
	for _, l := range loopsOver(st, parsed) {
		ok, _ := h.e.forall(st, l, func(b *BackEdge, el *Term) bool {
			for a := range b.St.heap {
				if a.kind == KMapAddr && a.args[0] == m && a.args[1] == endpointOf(b.St, el) {
					return true
				}
			}
			return false
		})
		if ok {
			return true
		}
	}
	return knownEmpty(st, parsed)
}

// notOwn: the path shows that what is stored for the endpoint does not belong to the policy id.
func notOwn(st *St, ep *Term, id func(*Term) bool) (not, own bool) {
	for _, rec := range st.calls(func(n string) bool { return n == ifcStore+"GetPolicies" }) {
		if len(rec.Args) != 1 || rec.Args[0] != ep {
			continue
		}
		ref := st.get(rec.Result, "PolicyReference")
		if noActions(st, rec.Result) {
			not = true
		}
		for f, v := range st.facts {
			if f.kind == KBin && f.op == "==" {
				for i := 0; i < 2; i++ {
					if f.args[i] == ref && id(f.args[1-i]) {
						not, own = not || !v, own || v
					}
				}
			}
		}
	}
	return
}

// others: before an endpoint is cleared, the store is asked whether another policy declares it.
func (h *handlerRun) others(s snap, at string, ep *Term, id func(*Term) bool) {
	asked := false
	for _, rec := range s.st.calls(func(n string) bool { return strings.HasPrefix(n, ifcStore+"Get") }) {
		if op := storeOp(rec); op == "GetPolicyMapping" && !id(rec.Args[0]) || op != "GetPolicyMapping" && op != "GetPolicies" {
			asked = true
		}
	}
	h.c.ob("shared-endpoint-stays-protected", at, h.pos(s.rec), asked, "an endpoint is cleared without asking whether another existing policy declares it")
}

func (h *handlerRun) clearsEndpoint(st *St, ep *Term) bool {
	for _, rec := range st.calls(func(n string) bool { return n == ifcStore+"SetPolicies" }) {
		if len(rec.Args) == 2 && rec.Args[0] == ep && noActions(st, rec.Args[1]) {
			return true
		}
	}
	return false
}

// mappingRead: the (first) read of the policy's mapping on the path and whether it precedes every change of the mapping.
func mappingRead(st *St, id func(*Term) bool) (prev *Term, fresh bool) {
	changed := false
	for _, rec := range st.calls(func(n string) bool { return strings.HasPrefix(n, ifcStore) }) {
		switch op := storeOp(rec); {
		case op == "GetPolicyMapping" && id(rec.Args[0]):
			if prev == nil {
				prev, fresh = rec.Result, !changed
			}
		case strings.HasSuffix(op, "PolicyMapping") && op != "GetPolicyMapping":
			changed = true
		}
	}
	return
}

func (c *Check) policyEvents() {
	crd := c.P.Type(pkgV1, "Policy")
	if !c.need(crd != nil, "v1.Policy") {
		return
	}
	obj := symbol("policy", types.NewPointer(crd))
	id := func(t *Term) bool { return isName(t, obj) }
	parsed := func(t *Term) bool {
		return isCallTo(t, fnParse) && len(t.args) == 2 && t.args[0] == initial(obj, "Spec.Target") && t.args[1] == initial(obj, "ObjectMeta.Namespace")
	}
	for _, h := range c.handlers("HandleAddUpdateEvent", mkIface(obj, obj.typ)) {
		at := ssaName(h.fn) + " policy"
		h.only("policy", "SetPolicies", "AddPolicyMapping")
		var list *Term
		for _, s := range h.snaps {
			if storeOp(s.rec) == "AddPolicyMapping" {
				ok := len(s.rec.Args) == 2 && id(s.rec.Args[0]) && parsed(s.rec.Args[1])
				c.ob("mapping-is-declared", at, h.pos(s.rec), ok, "the mapping stored is %v, not the object's own parsed targets under its namespace/name", s.rec.Args)
				if ok {
					list = s.rec.Args[1]
				}
			}
		}
		if !c.ob("mapping-is-declared", at+" stored", "-", list != nil, "the object's parsed targets are not stored as its mapping") {
			continue
		}
		isSet := func(st *St, rec *CallRec, el *Term) bool {
			if storeOp(rec) != "SetPolicies" || len(rec.Args) != 2 || !sameEndpoint(st, rec.Args[0], el) {
				return false
			}
			return id(st.get(rec.Args[1], "PolicyReference")) && st.get(rec.Args[1], "Actions") == st.get(el, "Actions")
		}
		maps := h.epMaps(list)
		// every call of SetPolicies stores a declared element or clears an own endpoint that is no longer declared
		for _, s := range h.snaps {
			if storeOp(s.rec) != "SetPolicies" {
				continue
			}
			ep := s.rec.Args[0]
			if ep.kind == KField && elementOf(ep.args[0], list) && isSet(s.st, s.rec, ep.args[0]) {
				c.ob("declared-endpoint-stored", at+" call", h.pos(s.rec), true, "")
				continue
			}
			if ep.kind == KStruct && len(ep.args) > 0 && ep.args[0].kind == KField && ep.args[0].args[0].kind == KField && elementOf(ep.args[0].args[0].args[0], list) && isSet(s.st, s.rec, ep.args[0].args[0].args[0]) {
				c.ob("declared-endpoint-stored", at+" call", h.pos(s.rec), true, "")
				continue
			}
			prev, fresh := mappingRead(s.st, id)
			ok := noActions(s.st, s.rec.Args[1]) && prev != nil && fresh
			from := h.e.origins(s.st, ep)
			for _, x := range from {
				ok = ok && x.t.kind == KField && elementOf(x.t.args[0], prev)
			}
			c.ob("clears-only-undeclared", at, h.pos(s.rec), ok, "stores %v for %v, which is neither a declared endpoint's own actions nor the clearing of one declared before; path: %s", s.rec.Args[1], ep, s.st.describeFacts())
			if !ok {
				continue
			}
			und := len(from) > 0
			for _, x := range from {
				full := map[*Term]bool{}
				for m := range maps {
					if h.filled(x.st, m, list) {
						full[m] = true
					}
				}
				und = und && h.declared(x.st, x.t, list, full) == -1
			}
			_, own := notOwn(s.st, ep, id)
			c.ob("clears-only-undeclared", at, h.pos(s.rec), und, "clears an endpoint that may still be declared; path: %s", s.st.describeFacts())
			c.ob("clears-only-own", at, h.pos(s.rec), own, "clears an endpoint whose stored policy may be another one's; path: %s", s.st.describeFacts())
			h.others(s, "policy-update", ep, id)
		}
		for _, o := range h.outs {
			pos := c.P.posOf(o.ret.Pos())
			facts := o.st.describeFacts()
			why := "no loop over the declared endpoints"
			for _, l := range loopsOver(o.st, list) {
				ok, b := h.e.forall(o.st, l, func(b *BackEdge, el *Term) bool {
					for _, rec := range b.St.calls(func(n string) bool { return strings.HasPrefix(n, ifcStore) }) {
						if isSet(b.St, rec, el) {
							return true
						}
					}
					return false
				})
				if ok {
					why = ""
					break
				}
				why = backDetail(b)
			}
			if knownEmpty(o.st, list) {
				why = ""
			}
			c.ob("declared-endpoint-stored", at, pos, why == "", "a declared endpoint may not get its actions: %s; path: %s", why, facts)
			added := false
			for _, rec := range o.st.calls(func(n string) bool { return n == ifcStore+"AddPolicyMapping" }) {
				added = added || (id(rec.Args[0]) && rec.Args[1] == list)
			}
			c.ob("mapping-stored", at, pos, added, "returns without having recorded the policy's endpoints; path: %s", facts)
			prev, fresh := mappingRead(o.st, id)
			why = "the endpoints declared before are not looked at"
			if prev != nil && fresh {
				if knownEmpty(o.st, prev) {
					why = ""
				}
				for _, l := range loopsOver(o.st, prev) {
					ok, b := h.e.forall(o.st, l, func(b *BackEdge, el *Term) bool {
						ep := endpointOf(b.St, el)
						if h.clearsEndpoint(b.St, ep) || h.declared(b.St, ep, list, maps) == 1 {
							return true
						}
						not, _ := notOwn(b.St, ep, id)
						return not
					})
					if ok {
						why = ""
						break
					}
					why = backDetail(b)
				}
			}
			c.ob("undeclared-endpoint-cleared", at, pos, why == "", "an endpoint that is no longer declared may keep the policy's actions: %s; path: %s", why, facts)
		}
	}
	c.atLeast("declared-endpoint-stored", 2)
	c.atLeast("undeclared-endpoint-cleared", 1)
}

// crdKey is a boxed CrdKey of the given constant type.
func (c *Check) crdKey(kind string) (boxed, id *Term) {
	kt := c.P.Type(pkgPolicy, "CrdKey")
	ct := c.P.Type(pkgV1, "CrdType")
	if !c.need(kt != nil && ct != nil, "policy.CrdKey") {
		return nil, nil
	}
	k, ok := ct.Obj().Pkg().Scope().Lookup(kind).(*types.Const)
	st, ok2 := kt.Underlying().(*types.Struct)
	if !c.need(ok && ok2, "v1."+kind) {
		return nil, nil
	}
	id = symbol("crdId", types.Typ[types.String])
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Id":
			fs = append(fs, id)
		case "CrdType":
			fs = append(fs, mkConst(k.Val(), ct))
		default:
			fs = append(fs, symbol("crd"+st.Field(i).Name(), st.Field(i).Type()))
		}
	}
	return mkIface(internX(KStruct, "", kt, nil, fs...), kt), id
}

func (c *Check) deleteEvents() {
	for _, k := range []struct{ kind, op, what string }{
		{"JWTCONFIG", "DeleteKeySet", "JWT configuration"},
		{"OIDCCONFIG", "DeleteClient", "OIDC configuration"},
		{"POLICY", "DeletePolicyMapping", "policy"},
	} {
		boxed, key := c.crdKey(k.kind)
		if boxed == nil {
			return
		}
		id := func(t *Term) bool { return t == key }
		for _, h := range c.handlers("HandleDeleteEvent", boxed) {
			at := ssaName(h.fn) + " " + k.kind
			if k.kind == "POLICY" {
				h.only(k.what, "SetPolicies", k.op)
			} else {
				h.only(k.what, k.op)
			}
			for _, s := range h.snaps {
				switch storeOp(s.rec) {
				case k.op:
					c.ob("deletes-its-own-entry", at, h.pos(s.rec), id(s.rec.Args[0]), "the deletion removes %v instead of the deleted object's entry", s.rec.Args[0])
				case "SetPolicies":
					ep := s.rec.Args[0]
					prev, fresh := mappingRead(s.st, id)
					_, own := notOwn(s.st, ep, id)
					c.ob("clears-only-own", at, h.pos(s.rec), noActions(s.st, s.rec.Args[1]) && prev != nil && fresh && ep.kind == KField && elementOf(ep.args[0], prev) && own,
						"the deletion of a policy changes an endpoint that is not its own (%v=%v); path: %s", ep, s.rec.Args[1], s.st.describeFacts())
					h.others(s, "policy-deletion", ep, id)
				}
			}
			for _, o := range h.outs {
				pos := c.P.posOf(o.ret.Pos())
				facts := o.st.describeFacts()
				done := false
				for _, rec := range o.st.calls(func(n string) bool { return n == ifcStore+k.op }) {
					done = done || id(rec.Args[0])
				}
				c.ob("deletion-applied", at, pos, done, "the deleted %s stays in the store; path: %s", k.what, facts)
				if k.kind != "POLICY" {
					continue
				}
				prev, fresh := mappingRead(o.st, id)
				why := "its endpoints are not looked at before its mapping is removed"
				if prev != nil && fresh {
					if knownEmpty(o.st, prev) {
						why = ""
					}
					for _, l := range loopsOver(o.st, prev) {
						ok, b := h.e.forall(o.st, l, func(b *BackEdge, el *Term) bool {
							ep := endpointOf(b.St, el)
							not, _ := notOwn(b.St, ep, id)
							return not || h.clearsEndpoint(b.St, ep)
						})
						if ok {
							why = ""
							break
						}
						why = backDetail(b)
					}
				}
				c.ob("deleted-policy-cleared", at, pos, why == "", "an endpoint may keep the actions of a deleted policy: %s; path: %s", why, facts)
			}
		}
	}
	c.atLeast("deletion-applied", 3)
	c.atLeast("deleted-policy-cleared", 1)
}

// configEvents: a configuration is registered under its namespace/name with the declared data.
func (c *Check) configEvents() {
	jt, ot := c.P.Type(pkgV1, "JwtConfig"), c.P.Type(pkgV1, "OidcConfig")
	if !c.need(jt != nil && ot != nil, "v1.JwtConfig, v1.OidcConfig") {
		return
	}
	obj := symbol("jwt", types.NewPointer(jt))
	for _, h := range c.handlers("HandleAddUpdateEvent", mkIface(obj, obj.typ)) {
		at := ssaName(h.fn) + " JWT configuration"
		h.only("JWT configuration", "AddKeySet")
		for _, s := range h.snaps {
			if storeOp(s.rec) != "AddKeySet" {
				continue
			}
			ks := unbox(s.rec.Args[1])
			c.ob("registers-declared-configuration", at, h.pos(s.rec), isName(s.rec.Args[0], obj) && isCallTo(ks, fnKeysetNew) && ks.args[0] == initial(obj, "Spec.JwksURL"),
				"registers %v under %v instead of a key set of the declared JWKS URL under the object's namespace/name", ks, s.rec.Args[0])
		}
		for _, o := range h.outs {
			n := len(o.st.calls(func(n string) bool { return n == ifcStore+"AddKeySet" }))
			c.ob("configuration-registered", at, c.P.posOf(o.ret.Pos()), n > 0, "returns without having registered the configuration; path: %s", o.st.describeFacts())
		}
	}
	obj = symbol("oidc", types.NewPointer(ot))
	for _, h := range c.handlers("HandleAddUpdateEvent", mkIface(obj, obj.typ)) {
		at := ssaName(h.fn) + " OIDC configuration"
		h.only("OIDC configuration", "AddClient")
		for _, s := range h.snaps {
			if storeOp(s.rec) != "AddClient" {
				continue
			}
			cl := unbox(s.rec.Args[1])
			c.ob("registers-declared-configuration", at, h.pos(s.rec), isName(s.rec.Args[0], obj), "registers the client under %v instead of the object's namespace/name", s.rec.Args[0])
			for _, acc := range []struct {
				method string
				ok     func(*Term) bool
			}{
				{"Name", func(t *Term) bool { return isName(t, obj) }},
				{"ID", func(t *Term) bool { return t == initial(obj, "Spec.ClientID") }},
				{"Secret", func(t *Term) bool {
					return isCallTo(t, fnClientSecr) && t.args[0] == obj || t == initial(obj, "Spec.ClientSecret")
				}},
				{"AuthorizationServer", func(t *Term) bool {
					return isCallTo(unbox(t), fnAuthNew) && unbox(t).args[0] == initial(obj, "Spec.DiscoveryURL")
				}},
			} {
				m := c.P.methodOf(cl.typ, acc.method)
				if !c.ob("client-known", at, h.pos(s.rec), m != nil, "the client registered has no method %s", acc.method) {
					continue
				}
				for _, o := range (&Run{P: c.P}).Root(m, map[string]*Term{"#0": cl}, s.st.clone()) {
					c.ob("registers-declared-configuration", at+" "+acc.method, h.pos(s.rec), len(o.res) > 0 && acc.ok(o.res[0]), "the registered client's %s is %v, not the declared one", acc.method, o.res[0])
				}
			}
		}
		for _, o := range h.outs {
			n := len(o.st.calls(func(n string) bool { return n == ifcStore+"AddClient" }))
			c.ob("configuration-registered", at, c.P.posOf(o.ret.Pos()), n > 0, "returns without having registered the configuration; path: %s", o.st.describeFacts())
		}
	}
	c.atLeast("registers-declared-configuration", 5)
	c.atLeast("configuration-registered", 2)
}
