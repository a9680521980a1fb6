package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16, lower layers: the store's tables and trie hold exactly what was stored last under each key.

// trieOp splits a recorded call of a trie operation.
func trieOp(rec *CallRec) string {
	if !strings.Contains(rec.Name, "pathtrie.") {
		return ""
	}
	i := strings.LastIndex(rec.Name, ").")
	if i < 0 {
		return ""
	}
	switch op := rec.Name[i+2:]; op {
	case "Get", "GetActions", "GetAll", "Put", "Delete":
		return op
	}
	return ""
}

// trieMethods are the concrete trie operations: contracts for the store.
func (c *Check) trieMethods() map[string]bool {
	out := map[string]bool{}
	for _, t := range c.implsIn(pkgTrie, "Trie") {
		for _, m := range []string{"Get", "GetActions", "GetAll", "Put", "Delete"} {
			if fn := c.P.methodOf(t, m); fn != nil {
				out[ssaName(fn)] = true
			}
		}
	}
	return out
}

func freshTrie(t *Term) bool {
	t = unbox(t)
	return t != nil && t.kind == KAlloc && strings.Contains(typeName(derefType(pointerTo(t))), "pathtrie.")
}

func pointerTo(t *Term) types.Type {
	if e := pointee(t); e != nil {
		return e
	}
	return t.typ
}

// storeWrite: SetPolicies stores the given actions under exactly the endpoint's service, path and method.
func (c *Check) storeWrite() {
	ops := c.trieMethods()
	for _, t := range c.implsIn(pkgStore, "PolicyStore") {
		fn := c.P.methodOf(t, "SetPolicies")
		if !c.need(fn != nil && len(fn.Params) == 3, "PolicyStore.SetPolicies") {
			continue
		}
		at := ssaName(fn)
		recv, ep, acts := rootParam(fn, 0), rootParam(fn, 1), rootParam(fn, 2)
		svc, path, method := initial(ep, "Service"), initial(ep, "Path"), initial(ep, "Method")
		s := &storeRun{typ: t, fn: fn}
		r := &Run{P: c.P,
			Opaque: func(n string) bool { return ops[n] },
			Record: func(n string) bool { return ops[n] || strings.HasPrefix(n, ifcTrie) || n == "builtin.delete" },
		}
		isTable := func(st *St, m *Term) bool {
			if s.policies(m) {
				return true
			}
			for a, x := range st.heap {
				if x == m && a.kind == KFieldAddr && a.args[0] == recv && mapKeyed(m.typ, "~/adapter/policy.Service") {
					return true
				}
			}
			return false
		}
		// the trie of the endpoint's service
		ownTrie := func(st *St, t *Term) bool {
			t = unbox(t)
			if t == nil {
				return false
			}
			if s.serviceTrie(st, t) {
				return true
			}
			for a, x := range st.heap {
				if a.kind == KMapAddr && a.args[1] == svc && unbox(x) == t && isTable(st, a.args[0]) {
					return true
				}
			}
			return false
		}
		own, empty, holds := map[*CallRec]bool{}, map[*CallRec]bool{}, map[*CallRec]bool{}
		var none func(st *St) bool
		var storedAt func(st *St, m *Term) bool
		dropped := map[*CallRec]bool{}
		r.OnCall = func(st *St, rec *CallRec) {
			if rec.Name == "builtin.delete" && len(rec.Args) == 2 {
				// removing the endpoint's own entry is storing nothing under it
				dropped[rec] = rec.Args[1] == method && storedAt(st, rec.Args[0]) && noActions(st, acts)
				c.ob("stored-at-path", at, c.P.posOf(rec.Instr.Pos()), dropped[rec], "removes an entry (%v) while storing; path: %s", rec.Args, st.describeFacts())
			}
			if trieOp(rec) == "" || len(rec.Args) == 0 {
				return
			}
			own[rec] = ownTrie(st, rec.Recv) && rec.Args[0] == path
			empty[rec] = none(st)
			if trieOp(rec) == "Put" && len(rec.Args) == 2 {
				m := unbox(rec.Args[1])
				for a, v := range st.heap {
					if m.kind == KAlloc && a.kind == KMapAddr && a.args[0] == m && a.args[1] == method && (v == acts || sameStruct(st, v, acts)) {
						holds[rec] = true
					}
				}
			}
		}
		// m is the map stored at the endpoint's path
		storedAt = func(st *St, m *Term) bool {
			for m.kind == KAssert || m.kind == KConv || m.kind == KExtract && m.args[0].kind == KAssert {
				m = m.args[0]
			}
			for _, rec := range st.calls(func(string) bool { return true }) {
				if trieOp(rec) == "Get" && rec.Result == m && own[rec] {
					return true
				}
			}
			return false
		}
		none = func(st *St) bool { // nothing is stored at the endpoint's path
			for a, x := range st.heap {
				if a.kind == KMapAddr && a.args[1] == svc && freshTrie(x) && isTable(st, a.args[0]) {
					return true
				}
			}
			for _, rec := range st.calls(func(string) bool { return true }) {
				if trieOp(rec) != "Get" || !own[rec] {
					continue
				}
				if st.isNil(rec.Result) {
					return true
				}
				for f, v := range st.facts {
					if !v && f.kind == KAssertOk && f.args[0] == rec.Result {
						return true
					}
					if v && f.kind == KBin && f.op == "==" && (f.args[0].kind == KNil && derives(f.args[1], func(x *Term) bool { return x == rec.Result }) || f.args[1].kind == KNil && derives(f.args[0], func(x *Term) bool { return x == rec.Result })) {
						return true
					}
				}
			}
			return false
		}
		r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			pos := c.P.posOf(in.Pos())
			switch {
			case mapKeyed(m.typ, "~/adapter/policy.Service"):
				gone := false
				for f, val := range st.facts {
					if val && f.kind == KBin && f.op == "==" {
						for i := 0; i < 2; i++ {
							if f.args[1-i].kind == KNil && (s.serviceTrie(st, f.args[i]) || s.policies(f.args[i])) {
								gone = true
							}
						}
					}
					if !val && f.kind == KLookupOk && s.policies(f.args[0]) && f.args[1] == svc {
						gone = true
					}
				}
				c.ob("service-table-only-grows", at, pos, isTable(st, m) && k == svc && freshTrie(v) && gone,
					"the policies of a service may be dropped or stored under another service (%v[%v]=%v); path: %s", m, k, v, st.describeFacts())
			case mapKeyed(m.typ, "~/adapter/policy.Method"):
				c.ob("stored-under-method", at, pos, k == method && (v == acts || sameStruct(st, v, acts)) && (m.kind == KAlloc || storedAt(st, m)),
					"stores %v under %v in %v instead of the given actions under the endpoint's method at its path; path: %s", v, k, m, st.describeFacts())
			default:
				c.ob("stored-under-method", at, pos, m.kind == KAlloc, "writes to %v", m)
			}
		}
		for _, o := range c.run(r, fn, nil, nil) {
			st := o.st
			pos := c.P.posOf(o.ret.Pos())
			done := false
			for a, v := range st.heap {
				if a.kind == KMapAddr && a.args[1] == method && (v == acts || sameStruct(st, v, acts)) && storedAt(st, a.args[0]) {
					done = true
				}
			}
			for _, rec := range st.calls(func(string) bool { return true }) {
				switch op := trieOp(rec); op {
				case "Put":
					if freshTrie(rec.Recv) && len(rec.Args) == 2 && st.isNil(rec.Args[1]) {
						continue
					}
					ok, held := own[rec] && empty[rec], holds[rec]
					m := rec.Args[len(rec.Args)-1]
					for a, v := range st.heap { // filled after it was put
						if x := unbox(m); x.kind == KAlloc && a.kind == KMapAddr && a.args[0] == x && a.args[1] == method && (v == acts || sameStruct(st, v, acts)) {
							held = true
						}
					}
					c.ob("stored-at-path", at, pos, ok && held, "replaces what is stored at %v by %v, losing other methods or storing at another path; path: %s", rec.Args[0], m, st.describeFacts())
					done = done || (ok && held)
				case "Delete":
					c.ob("stored-at-path", at, pos, false, "removes entries while storing")
				}
			}
			for _, rec := range st.calls(names("builtin.delete")) {
				done = done || dropped[rec]
			}
			c.ob("stored-on-every-path", at, pos, done, "returns without having stored the actions; path: %s", st.describeFacts())
		}
	}
	c.atLeast("stored-under-method", 2)
	c.atLeast("stored-at-path", 1)
	c.atLeast("stored-on-every-path", 2)
}

func mapKeyed(t types.Type, key string) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && typeName(m.Key()) == key
}

// nodeValue: the address of the value field of node n.
func nodeValueField(n *types.Struct) int {
	for i := 0; i < n.NumFields(); i++ {
		if types.IsInterface(n.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// trieExact: Get answers exactly the value of the key's node, Put sets exactly that.
func (c *Check) trieExact() {
	for _, w := range c.trie("Get") {
		w.run(c)
		at, pos := ssaName(w.fn), c.P.posOf(w.fn.Pos())
		why := w.find(nil)
		if !c.ob("walk-follows-key", at, pos, why == "", "%s", why) {
			continue
		}
		for _, o := range w.outs {
			n, ch, next := w.last(o.st, o.res...)
			rpos := c.P.posOf(o.ret.Pos())
			facts := o.st.describeFacts()
			res := o.res[0]
			ok := false
			switch in := w.e.back[w.loop][0].In[w.idx]; {
			case ch == nil && absent(o.st, n):
				ok = o.st.isNil(res)
			case ch == nil && w.part == nil && isMinusOne(o.st, in):
				ok = valueOf(unboxConv(res), n)
			case ch == nil:
			case absent(o.st, ch):
				ok = o.st.isNil(res)
			default:
				ok = isMinusOne(o.st, next) && (valueOf(unboxConv(res), ch) || o.st.isNil(res) && o.st.isNil(valueTerm(o.st, ch)))
			}
			c.ob("get-exact", at, rpos, ok, "answers %v, not what is stored at exactly the key; path: %s", res, facts)
		}
	}
	c.atLeast("get-exact", 2)
	for _, w := range c.trie("Put") {
		at, pos := ssaName(w.fn), c.P.posOf(w.fn.Pos())
		val := rootParam(w.fn, 2)
		w.r.Record = names("builtin.append", "builtin.delete")
		type upd struct {
			m, k, v *Term
			absent  bool
			pos     string
		}
		var upds []upd
		w.r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			upds = append(upds, upd{m, k, v, absentIn(st, m, k), c.P.posOf(in.Pos())})
		}
		w.run(c)
		created := func(b *BackEdge, o *Term) bool {
			if o.kind != KAlloc {
				return false
			}
			for a, v := range b.St.heap {
				if a.kind == KMapAddr && v == o && tableField(a.args[0], b.In[w.node]) != nil {
					return true
				}
			}
			return false
		}
		why := w.find(created)
		if !c.ob("walk-follows-key", at, pos, why == "", "%s", why) {
			continue
		}
		for _, u := range upds {
			c.ob("put-keeps-children", at, u.pos, u.absent && u.v.kind == KAlloc, "an existing child may be replaced, losing what is stored below it (%v[%v]=%v)", u.m, u.k, u.v)
		}
		for _, b := range w.e.back[w.loop] {
			for a, v := range b.St.heap {
				if isValueField(a) {
					c.ob("put-only-final", at, pos, addrRoot(a).kind == KAlloc && b.St.isNil(v), "a node passed on the way gets a value (%v=%v)", a, v)
				}
			}
		}
		for _, o := range w.outs {
			n, ch, next := w.last(o.st)
			rpos := c.P.posOf(o.ret.Pos())
			facts := o.st.describeFacts()
			fin := ch
			if ch != nil && absent(o.st, ch) { // created on this path
				fin = nil
				for a, v := range o.st.heap {
					if a.kind == KMapAddr && tableField(a.args[0], n) != nil && a.args[1] == ch.args[1] {
						fin = v
					}
				}
			}
			if in := w.e.back[w.loop][0].In[w.idx]; ch == nil && w.part == nil && isMinusOne(o.st, in) {
				fin = n
			} else if ch == nil || !isMinusOne(o.st, next) {
				c.ob("put-exact", at, rpos, false, "returns without having walked the key; path: %s", facts)
				continue
			}
			set := false
			for a, v := range o.st.heap {
				if !isValueField(a) {
					continue
				}
				if a.args[0] == fin {
					set = v == val
				} else {
					c.ob("put-only-final", at, rpos, a.args[0].kind == KAlloc && o.st.isNil(v), "a node other than the key's gets a value (%v=%v); path: %s", a, v, facts)
				}
			}
			c.ob("put-exact", at, rpos, set, "the key's node does not hold the value put; path: %s", facts)
			for _, rec := range o.st.calls(names("builtin.delete")) {
				c.ob("put-keeps-children", at, rpos, false, "a child is removed (%v)", rec.Args)
			}
		}
	}
	c.atLeast("put-exact", 2)
	c.atLeast("put-keeps-children", 1)
}

func isValueField(a *Term) bool {
	if a.kind != KFieldAddr {
		return false
	}
	e := pointee(a)
	return e != nil && types.IsInterface(e)
}

func valueTerm(st *St, n *Term) *Term {
	e := pointee(n)
	if e == nil {
		return mkNil(nil)
	}
	s, ok := e.Underlying().(*types.Struct)
	if !ok {
		return mkNil(nil)
	}
	i := nodeValueField(s)
	if i < 0 {
		return mkNil(nil)
	}
	return st.get(intern(KDeref, "", e, n), s.Field(i).Name())
}

// absentIn: the path shows that m has no (non-nil) entry for k.
func absentIn(st *St, m, k *Term) bool {
	for f, v := range st.facts {
		if !v && f.kind == KLookupOk && f.args[0] == m && f.args[1] == k {
			return true
		}
		if v && f.kind == KBin && f.op == "==" {
			for i := 0; i < 2; i++ {
				if l := f.args[i]; f.args[1-i].kind == KNil && l.kind == KLookup && l.args[0] == m && l.args[1] == k {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	checks["C16"] = func(c *Check) {
		c.storeConfigs()
		c.storeTable("GetPolicyMapping", "AddPolicyMapping", "DeletePolicyMapping", "policy mapping")
		c.storeWrite()
		c.trieExact()
		c.segmenter()
		c.policyEvents()
		c.deleteEvents()
		c.configEvents()
		c.parseTargets()
	}
	explain["C16"] = "Path-sensitive dataflow with loop summaries over four layers: the event handlers (each store call of a handled policy, JWT or OIDC object is decoded: every declared endpoint gets its own actions, exactly the own and no longer declared endpoints of the previous mapping are cleared, the mapping and configuration entries are those of the object), the target parser (every path of every target yields exactly the described endpoints), the store's tables and SetPolicies (exact service, path and method; nothing else overwritten), and the trie's Get and Put (exact key)."
}
