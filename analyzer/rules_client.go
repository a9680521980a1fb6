package main

import (
	"go/types"
)

// C36: a configuration object defines exactly its own client.

const fnTokens = "(~/adapter/authserver.AuthorizationServerService).GetTokens"

func init() {
	checks["C36"] = c36
	explain["C36"] = "The add/update handler is executed abstractly on an arbitrary configuration object; the accessors and operations of the client it registers are then executed in that state, so that name, id, scopes, client authentication, secret and authorization server are followed back to the fields of that object; the choice of the client secret is decided on every path of GetClientSecret."
}

func c36(c *Check) {
	c.clientOfConfiguration()
	c.clientSecret()
	c.atLeast("declared-value", 6)
	c.atLeast("declared-scopes", 2)
	c.atLeast("declared-method", 4)
	c.atLeast("secret-source", 4)
	c.atLeast("empty-entry-falls-back", 1)
	c.atLeast("own-keys", 1)
}

// knownEmpty: the text or list t is known to have no elements.
func (s *St) emptyValue(t *Term) bool {
	return s.holds(mkEq(t, mkStr(""))) || s.holds(mkEq(mkLen(t), mkInt(0))) || s.isNil(t)
}

func (s *St) nonEmptyValue(t *Term) bool {
	return s.refuted(mkEq(t, mkStr(""))) || s.refuted(mkEq(mkLen(t), mkInt(0))) || s.holds(mkLess(mkInt(0), mkLen(t)))
}

func (c *Check) clientOfConfiguration() {
	jt, ot := c.P.Type(pkgV1, "JwtConfig"), c.P.Type(pkgV1, "OidcConfig")
	if !c.need(jt != nil && ot != nil, "v1.JwtConfig, v1.OidcConfig") {
		return
	}
	obj := symbol("jwt", types.NewPointer(jt))
	for _, h := range c.handlers("HandleAddUpdateEvent", mkIface(obj, obj.typ)) {
		at := ssaName(h.fn) + " JWT configuration"
		for _, s := range h.snaps {
			if storeOp(s.rec) != "AddKeySet" {
				continue
			}
			ks := unbox(s.rec.Args[1])
			c.ob("own-keys", at, h.pos(s.rec), isName(s.rec.Args[0], obj) && isCallTo(ks, fnKeysetNew) && ks.args[0] == initial(obj, "Spec.JwksURL"),
				"registers %v under %v instead of a key set of the declared JWKS URL under the object's namespace/name", ks, s.rec.Args[0])
		}
		for _, o := range h.outs {
			n := len(o.st.calls(names(ifcStore + "AddKeySet")))
			c.ob("configuration-registered", at, c.P.posOf(o.ret.Pos()), n > 0, "returns without having registered the key set; path: %s", o.st.describeFacts())
		}
	}
	obj = symbol("oidc", types.NewPointer(ot))
	for _, h := range c.handlers("HandleAddUpdateEvent", mkIface(obj, obj.typ)) {
		at := ssaName(h.fn) + " OIDC configuration"
		kube := initial(rootParam(h.fn, 0), "kubeClient")
		for _, o := range h.outs {
			n := len(o.st.calls(names(ifcStore + "AddClient")))
			c.ob("configuration-registered", at, c.P.posOf(o.ret.Pos()), n > 0, "returns without having registered the client; path: %s", o.st.describeFacts())
		}
		for _, s := range h.snaps {
			if storeOp(s.rec) != "AddClient" {
				continue
			}
			cl := unbox(s.rec.Args[1])
			pos := h.pos(s.rec)
			c.ob("declared-value", at+" registered name", pos, isName(s.rec.Args[0], obj), "registers the client under %v instead of the object's namespace/name", s.rec.Args[0])
			call := func(m string, rec func(string) bool, f func(*Run, Outcome)) {
				fn := c.P.methodOf(cl.typ, m)
				if !c.ob("client-known", at, pos, fn != nil, "the client registered has no method %s", m) {
					return
				}
				r := &Run{P: c.P, Record: rec}
				outs := r.Root(fn, map[string]*Term{"#0": cl}, s.st.clone())
				c.account(r, fn, len(outs))
				for _, o := range outs {
					if len(o.res) > 0 {
						f(r, o)
					}
				}
			}
			secret := func(t *Term) bool {
				if !isCallTo(t, fnClientSecr) || t.args[0] != obj {
					return false
				}
				for _, a := range t.args[1:] {
					if _, isIfc := a.typ.Underlying().(*types.Interface); isIfc && kube != nil && kube.typ != nil && a != kube && unbox(a) != kube {
						return false
					}
				}
				return true
			}
			server := func(t *Term) bool {
				t = unbox(t)
				return isCallTo(t, fnAuthNew) && t.args[0] == initial(obj, "Spec.DiscoveryURL")
			}
			for m, ok := range map[string]func(*Term) bool{
				"Name":                func(t *Term) bool { return isName(t, obj) },
				"ID":                  func(t *Term) bool { return t == initial(obj, "Spec.ClientID") },
				"Secret":              secret,
				"AuthorizationServer": server,
			} {
				m, ok := m, ok
				call(m, nil, func(r *Run, o Outcome) {
					c.ob("declared-value", at+" "+m, pos, ok(o.res[0]), "the registered client's %s is %v, not the declared one", m, o.res[0])
				})
			}
			scopes := initial(obj, "Spec.Scopes")
			call("Scope", nil, func(r *Run, o Outcome) {
				t := o.res[0]
				switch {
				case sameStr(t, "openid profile email"):
					c.ob("declared-scopes", at+" default", pos, o.st.emptyValue(scopes), "the default scopes are requested although the configuration may declare others; path: %s", o.st.describeFacts())
				default:
					ok := calleeName(t) == "strings.Join" && len(t.args) == 2 && t.args[0] == scopes && sameStr(t.args[1], " ")
					c.ob("declared-scopes", at, pos, ok, "the scopes requested are %v, not those declared; path: %s", t, o.st.describeFacts())
					c.ob("declared-scopes", at+" present", pos, o.st.nonEmptyValue(scopes), "no scope is requested when the configuration declares none; path: %s", o.st.describeFacts())
				}
			})
			method := initial(obj, "Spec.AuthMethod")
			for _, m := range []string{"ExchangeGrantCode", "RefreshToken"} {
				n := 0
				call(m, names(fnTokens), func(r *Run, o Outcome) {
					for _, rec := range o.st.calls(names(fnTokens)) {
						n++
						if !c.need(len(rec.Args) == 6 && rec.Recv != nil, fnTokens) {
							return
						}
						a := rec.Args[0]
						// an absent method is sent as HTTP Basic authentication too (C21)
						ok := a == method || sameStr(a, "client_secret_basic") && (o.st.emptyValue(method) || o.st.holds(mkEq(method, mkStr("client_secret_basic"))))
						c.ob("declared-method", at+" "+m, pos, ok, "the client authenticates by %v; declared is authMethod, client_secret_basic when absent; path: %s", a, o.st.describeFacts())
						c.ob("declared-value", at+" "+m, pos, server(rec.Recv) && rec.Args[1] == initial(obj, "Spec.ClientID") && secret(rec.Args[2]), "tokens are requested from %v as %v with %v, not as declared", rec.Recv, rec.Args[1], rec.Args[2])
					}
				})
				c.ob("declared-method", at+" "+m+" asks", pos, n > 0, "the client never asks its identity provider")
			}
		}
	}
}

// clientSecret decides which secret a configuration's client gets.
func (c *Check) clientSecret() {
	fn := c.P.Func(pkgCrd, "GetClientSecret")
	if !c.need(fn != nil && len(fn.Params) >= 1, "crdeventhandler.GetClientSecret") {
		return
	}
	obj := rootParam(fn, 0)
	plain := initial(obj, "Spec.ClientSecret")
	name, key := initial(obj, "Spec.ClientSecretRef.Name"), initial(obj, "Spec.ClientSecretRef.Key")
	ns := initial(obj, "ObjectMeta.Namespace")
	if !c.need(plain != nil && name != nil && key != nil && ns != nil, "the client secret fields of v1.OidcConfig") {
		return
	}
	at := ssaName(fn)
	get := secretIfc + "Get"
	for _, o := range c.run(&Run{Record: names(get)}, fn, nil, nil) {
		if len(o.res) != 1 {
			continue
		}
		pos := c.P.posOf(o.ret.Pos())
		v := o.res[0]
		// the reads of the referenced secret on this path
		failed, empty := false, false
		var read *Term
		for _, rec := range o.st.calls(names(get)) {
			r := unboxConv(rec.Recv)
			here := r.kind == KCall && r.callee == secretsOf && r.args[len(r.args)-1] == ns && len(rec.Args) > 0 && rec.Args[0] == name
			c.ob("secret-reference", at, pos, here, "a secret other than the referenced one of the configuration's namespace is read: %v", rec.Result)
			if !here {
				continue
			}
			if o.st.isNonNil(extract(rec.Result, 1)) {
				failed = true
				continue
			}
			if o.st.isNil(extract(rec.Result, 1)) {
				read = extract(rec.Result, 0)
			}
			s := extract(rec.Result, 0)
			for f, val := range o.st.facts {
				if f.kind == KLookupOk && !val && isEntry(f, s, key) {
					empty = true
				}
				walk(f, func(x *Term) bool {
					if x.kind == KLookup && isEntry(x, s, key) {
						if val && o.st.emptyConv(f, x) || o.st.emptyValue(x) {
							empty = true
						}
					}
					return true
				})
			}
			if o.st.isNil(s) {
				failed = true
			}
		}
		l := unboxConv(v)
		if l.kind == KLookup {
			c.ob("secret-source", at, pos, read != nil && isEntry(l, read, key), "the client secret is %v, not the referenced entry of a successfully read secret; path: %s", v, o.st.describeFacts())
			c.ob("empty-entry-falls-back", at, pos, o.st.nonEmptyEntry(v, l) || o.st.emptyValue(plain), "the client secret is the referenced entry %v also when that is empty, instead of the secret written in the object; path: %s", v, o.st.describeFacts())
			continue
		}
		isPlain := v == plain || sameStr(v, "") && o.st.emptyValue(plain)
		noRef := o.st.emptyValue(name) || o.st.emptyValue(key)
		c.ob("secret-source", at, pos, isPlain && (noRef || failed || empty), "the client secret is %v although the configuration refers to a secret that may be readable, or is not the declared one; path: %s", v, o.st.describeFacts())
	}
}

// emptyConv: the fact f says that x, read as text, is empty.
func (s *St) emptyConv(f, x *Term) bool {
	if f.kind != KBin || len(f.args) != 2 {
		return false
	}
	for i, a := range f.args {
		b := f.args[1-i]
		if unboxConv(a) == x && sameStr(b, "") {
			return true
		}
		if a == mkLen(x) || contains(a, func(y *Term) bool { return y == x }) && isNumber(b, 0) {
			return f.op == "=="
		}
	}
	return false
}

// nonEmptyEntry: the looked up entry l, read as v, is known not to be empty.
func (s *St) nonEmptyEntry(v, l *Term) bool {
	if s.nonEmptyValue(v) || s.nonEmptyValue(l) {
		return true
	}
	for f, val := range s.facts {
		if s.emptyConv(f, l) && !val {
			return true
		}
		if f.kind != KBin || f.op != "<" || len(f.args) != 2 {
			continue
		}
		isLen := func(a *Term) bool { return a.kind == KPure && a.op == "len" && unboxConv(a.args[0]) == l }
		if isLen(f.args[1]) && isNumber(f.args[0], 0) && val || isLen(f.args[0]) && isNumber(f.args[1], 1) && !val {
			return true
		}
	}
	return false
}

// isEntry: l looks up key in the data of secret s.
func isEntry(l, s, key *Term) bool {
	m := unboxConv(l.args[0])
	if l.args[1] != key {
		return false
	}
	switch {
	case m.kind == KField && m.op == "Data" && m.args[0].kind == KDeref:
		return unboxConv(m.args[0].args[0]) == s
	case m.kind == KDeref && m.args[0].kind == KFieldAddr && fieldName(m.args[0].args[0].typ, mustInt(m.args[0].op)) == "Data":
		return unboxConv(m.args[0].args[0]) == s
	}
	return false
}
