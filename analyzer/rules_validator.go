package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C05, C06, C07: token validation ----

const (
	fnCheckPolicy = "~/adapter/validator.checkAccessPolicy"
	jwtPkg        = "github.com/dgrijalva/jwt-go/v4."
	fnHTTPDo      = "(*net/http.Client).Do"
	fnHeaderSet   = "(net/http.Header).Set"
)

type valRun struct {
	fn    *ssa.Function
	typ   int64
	oidc  bool
	r     *Run
	outs  []Outcome
	e     edges
	parse []parseSite
	marks bool // handwritten code may set the validity mark of a parsed token
}

type parseSite struct {
	rec *CallRec
	st  *St
}

var valCache []*valRun

var tokenNames = []string{"access_token", "id_token"}

// isParse: a parse of the JWT library that verifies signature and lifetime; the token and key function arguments.
func isParse(st *St, c *CallRec) (tok, key *Term, ok bool) {
	switch c.Name {
	case jwtPkg + "Parse", jwtPkg + "ParseWithClaims":
		return c.Args[0], c.Args[len(c.Args)-1], true
	case "(*" + jwtPkg + "Parser).Parse", "(*" + jwtPkg + "Parser).ParseWithClaims":
		skip := st.get(c.Recv, "SkipClaimsValidation")
		if skip == nil || !st.refuted(skip) {
			return nil, nil, false
		}
		return c.Args[0], c.Args[len(c.Args)-1], true
	}
	return nil, nil, false
}

// typeOfPolicy: the dynamic type NewTokenValidator returns for a policy type.
func (c *Check) validatorFor(k int64) types.Type {
	fn := c.P.Func(pkgValidator, "NewTokenValidator")
	if !c.need(fn != nil, "validator.NewTokenValidator") {
		return nil
	}
	r := &Run{P: c.P}
	var t types.Type
	for _, o := range r.Root(fn, map[string]*Term{"#0": mkInt(k)}, c.P.initialState()) {
		if o.res[0].kind != KIface || (t != nil && !types.Identical(t, o.res[0].typ)) {
			return nil
		}
		t = o.res[0].typ
	}
	return t
}

func (c *Check) validators() []*valRun {
	if valCache == nil {
		oidc := c.validatorFor(1)
		for _, t := range c.P.Impls(pkgValidator, "TokenValidator") {
			fn := c.P.methodOf(t, "Validate")
			if fn == nil || !strings.HasPrefix(short(fnPkgPath(fn)), "adapter/") {
				continue
			}
			for typ := int64(0); typ < 2; typ++ {
				v := &valRun{marks: c.P.marksTokens(), fn: fn, typ: typ, oidc: oidc != nil && types.Identical(oidc, t)}
				v.r = &Run{P: c.P, Opaque: names(fnCheckPolicy), Record: func(n string) bool {
					return n == fnCheckPolicy || strings.Contains(n, jwtPkg) || n == fnHTTPDo || strings.HasPrefix(n, "(net/http.Header).")
				}}
				v.e.attach(v.r)
				v.r.OnCall = func(st *St, rec *CallRec) {
					if strings.Contains(rec.Name, jwtPkg) && strings.Contains(rec.Name, "Parse") {
						v.parse = append(v.parse, parseSite{rec, st.clone()})
					}
				}
				v.outs = v.r.Root(fn, map[string]*Term{"#2": mkInt(typ)}, c.P.initialState())
				valCache = append(valCache, v)
			}
		}
	}
	c.need(len(valCache) >= 2, "the token validators")
	for _, v := range valCache {
		c.account(v.r, v.fn, len(v.outs))
	}
	return valCache
}

func (v *valRun) p(i int) *Term { return rootParam(v.fn, i) }

// parsed: the successful parse of exactly the token under validation that st rests on.
func (v *valRun) parsed(st *St) *CallRec {
	for _, rec := range st.calls(func(n string) bool { return strings.Contains(n, jwtPkg) }) {
		verifying := false
		for _, s := range v.parse { // decided from the memory at the call: the parser may be a local
			if s.rec.Result == rec.Result {
				tok, _, ok := isParse(s.st, s.rec)
				if verifying = ok && tok == v.p(1); !verifying {
					break
				}
			}
		}
		if !verifying {
			continue
		}
		if st.isNil(extract(rec.Result, 1)) {
			return rec
		}
		// the library marks a token valid exactly where it returns no error; nothing else sets the mark
		if !v.marks {
			if m := st.get(extract(rec.Result, 0), "Valid"); m != nil && st.holds(m) {
				return rec
			}
		}
	}
	return nil
}

// confirmed: the user-info endpoint answered 200 to a request with exactly this token; reason otherwise.
func (v *valRun) confirmed(st *St) string {
	for _, do := range st.calls(names(fnHTTPDo)) {
		req := do.Args[0]
		src := resultOf(req, 0, "net/http.NewRequest", "net/http.NewRequestWithContext")
		if src == nil {
			return "the user-info request is not built by net/http.NewRequest"
		}
		if x := st.reshaped(req); x != "" {
			return "the user-info request's " + x + " is changed after it is built"
		}
		url := src.args[len(src.args)-2]
		if url != v.p(5) {
			continue
		}
		if !st.isNil(extract(do.Result, 1)) {
			return "the user-info request may have failed"
		}
		code := st.get(extract(do.Result, 0), "StatusCode")
		if n, ok := st.constInt(code); !ok || n != 200 {
			return "the user-info answer may have a status other than 200"
		}
		bearer, set := false, false
		for _, h := range st.calls(func(n string) bool {
			return n == fnHeaderSet || n == "(net/http.Header).Add" || n == "(net/http.Header).Del"
		}) {
			if h.Recv == nil || !derives(h.Recv, func(t *Term) bool { return t == req }) || len(h.Args) == 0 || !sameFold(h.Args[0], "Authorization") {
				continue
			}
			if len(h.Args) != 2 {
				bearer, set = false, false
				continue
			}
			p := parts(h.Args[1])
			bearer = len(p) == 2 && sameStr(p[0], "Bearer ") && p[1] == v.p(1) && !(set && h.Name != fnHeaderSet)
			set = true
		}
		if !bearer {
			return "the user-info request does not carry exactly the token as bearer"
		}
		return ""
	}
	return "no user-info request was made"
}

// marksTokens: handwritten code writes the validity mark of a parsed token.
func (p *Prog) marksTokens() bool {
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == "Valid" && strings.Contains(fa.X.Type().String(), jwtPkg) {
					for _, u := range *fa.Referrers() {
						if l, ok := u.(*ssa.UnOp); !ok || l.Op != token.MUL {
							return true
						}
					}
				}
				if s, ok := in.(*ssa.Store); ok && strings.HasSuffix(s.Val.Type().String(), jwtPkg+"Token") {
					return true
				}
			}
		}
	}
	return false
}

func sameFold(t *Term, s string) bool { x, ok := strOf(t); return ok && strings.EqualFold(x, s) }

// rulesLoop: the completed iteration over the whole rule list on the path to st; f decides each rule.
func (v *valRun) rulesLoop(st *St, cond func(b *BackEdge, el *Term) bool) (found, ok bool, why *BackEdge) {
	for _, e := range st.events() {
		if e.loop == nil || e.loop.Over != v.p(4) {
			continue
		}
		found = true
		if good, b := v.e.forall(st, e.loop, cond); good {
			return true, true, nil
		} else {
			why = b
		}
	}
	// an empty list has no rules to enforce
	if n := st.constOf(mkLen(v.p(4))); n != nil {
		if k, isC := intOf(n); isC && k == 0 {
			return true, true, nil
		}
	}
	return found, false, why
}

// sourceIs decides whether the rule names source s.
func notSource(b *BackEdge, el *Term, s string) bool {
	src := b.St.get(el, "Source")
	return src != nil && b.St.refuted(mkEq(src, mkStr(s)))
}

func backDetail(b *BackEdge) string {
	if b == nil {
		return "no complete iteration over the rule list"
	}
	return b.St.describeFacts()
}

func (c *Check) tokenAcceptance() {
	n := 0
	for _, v := range c.validators() {
		at := ssaName(v.fn) + " " + tokenNames[v.typ]
		for _, o := range v.outs {
			if !o.st.isNil(o.res[0]) {
				c.ob("error-or-accepted", at, c.P.posOf(o.ret.Pos()), o.st.isNonNil(o.res[0]) || o.res[0].kind == KAlloc, "the result may be nil on a path not known to accept; path: %s", o.st.describeFacts())
				continue
			}
			n++
			pos := c.P.posOf(o.ret.Pos())
			if rec := v.parsed(o.st); rec != nil {
				c.ob("signature-and-lifetime-verified", at, pos, true, "")
				continue
			}
			if !v.oidc || v.typ != 0 {
				c.ob("signature-and-lifetime-verified", at, pos, false, "accepted without a successful verifying parse of this very token; path: %s", o.st.describeFacts())
				continue
			}
			c.ob("opaque-token-non-empty", at, pos, o.st.refuted(mkEq(v.p(1), mkStr(""))), "an empty access token may be accepted")
			c.ob("key-set-configured", at, pos, o.st.isNonNil(v.p(3)), "accepted although no key set may be configured")
			why := v.confirmed(o.st)
			c.ob("opaque-token-confirmed-by-user-info", at, pos, why == "", "accepted as an opaque token but %s; path: %s", why, o.st.describeFacts())
			if e := v.failedParse(o.st); e != nil {
				c.ob("expired-token-not-revived", at, pos, expiryRuledOut(o.st, e), "a JWT whose lifetime is over may be accepted through the user-info endpoint; path: %s", o.st.describeFacts())
			}
			found, ok, b := v.rulesLoop(o.st, func(b *BackEdge, el *Term) bool { return notSource(b, el, tokenNames[0]) })
			c.ob("opaque-token-without-explicit-rule", at, pos, found && ok, "an opaque access token is accepted although a rule with source access_token may exist; %s", backDetail(b))
		}
	}
	c.atLeast("signature-and-lifetime-verified", 4)
	c.atLeast("opaque-token-confirmed-by-user-info", 1)
}

// validatorRoles: each strategy uses the validator of its own policy type.
func (c *Check) validatorRoles() {
	for _, x := range []struct {
		pkg, typ string
		k        int64
	}{{pkgAPI, "APIStrategy", 0}, {pkgWeb, "WebStrategy", 1}} {
		want := c.validatorFor(x.k)
		n := 0
		for _, fn := range c.P.Fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() == nil || ssaName(call.Call.StaticCallee()) != "~/adapter/validator.NewTokenValidator" || short(fnPkgPath(fn)) != x.pkg {
						continue
					}
					n++
					k, isC := constInt(call.Call.Args[0])
					c.ob("validator-of-policy-type", x.pkg, c.P.posOf(call.Pos()), isC && k == x.k && want != nil, "the strategy does not use the token validator of its own policy type")
				}
			}
		}
		c.need(n > 0, "the validator used by "+x.pkg)
	}
}

// ---- C06 ----

func (c *Check) verificationKeys() {
	seen := map[string]bool{}
	for _, v := range c.validators() {
		c.ob("token-parsed", ssaName(v.fn), c.P.posOf(v.fn.Pos()), len(v.parse) > 0, "the validator never parses the token")
		for _, s := range v.parse {
			pos := c.P.posOf(s.rec.Instr.Pos())
			at := ssaName(s.rec.Fn)
			_, key, ok := isParse(s.st, s.rec)
			if !c.ob("verifying-parse", at, pos, ok, "the token is parsed by %s, which does not verify it", s.rec.Name) {
				continue
			}
			k := key.String() + pos
			if seen[k] {
				continue
			}
			seen[k] = true
			key = unboxConv(key)
			if !c.need(key.fn != nil && (key.kind == KFunc || key.kind == KClosure), "the key function at "+pos) {
				continue
			}
			var free []*Term
			if key.kind == KClosure {
				free = key.args
			}
			r := &Run{P: c.P, Opaque: names(fnPublicKey), Record: names(fnPublicKey)}
			arg := intern(KParam, "jwtToken", nil)
			last := len(key.fn.Params) - 1
			if last < 0 {
				c.need(false, "the key function's parameter")
				continue
			}
			arg.typ = key.fn.Params[last].Type()
			args := []*Term{arg}
			if last > 0 { // a method expression
				c.need(false, "a key function that is a plain closure")
				continue
			}
			st := s.st.clone()
			outs := r.call(key.fn, args, free, st, "keyfunc", nil)
			c.account(r, key.fn, len(outs))
			good := 0
			for _, o := range outs {
				p := c.P.posOf(o.ret.Pos())
				if o.st.isNonNil(o.res[1]) || isErrorValue(o.res[1]) {
					c.ob("key-or-error", at, p, true, "")
					continue
				}
				good++
				why := c.keyOrigin(v, o, arg)
				c.ob("key-of-token-key-id", at, p, why == "", "%s; path: %s", why, o.st.describeFacts())
			}
			c.ob("key-function-yields-keys", at, pos, good > 0, "the key function never returns a key")
		}
	}
	c.atLeast("key-of-token-key-id", 1)
	c.keySets()
}

func (c *Check) keyOrigin(v *valRun, o Outcome, tok *Term) string {
	key := unboxConv(o.res[0])
	var rec *CallRec
	for _, x := range o.st.calls(names(fnPublicKey)) {
		if x.Result == key {
			rec = x
		}
	}
	if rec == nil {
		return "the key does not come from a look-up in a key set"
	}
	if unboxConv(rec.Recv) != v.p(3) {
		return "the key does not come from the key set of the policy"
	}
	id := rec.Args[0]
	a := id
	if a.kind == KExtract {
		a = a.args[0]
	}
	if a.kind != KAssert || !isStringTyped(a) {
		return "the key id is not the token's own"
	}
	l := a.args[0]
	if l.kind != KLookup || !sameStr(l.args[1], "kid") || l.args[0] != o.st.get(tok, "Header") {
		return "the key id is not the token header's kid"
	}
	if !o.st.refuted(mkEq(id, mkStr(""))) {
		return "the key id may be missing or empty"
	}
	if !o.st.isNonNil(key) {
		return "an unknown key id yields no error"
	}
	return ""
}

// keySets: what key sets hold and return.
func (c *Check) keySets() {
	impls := c.P.Impls(pkgKeyset, "KeySet")
	n := 0
	for _, t := range impls {
		fn := c.P.methodOf(t, "PublicKey")
		if fn == nil || !strings.HasPrefix(short(fnPkgPath(fn)), "adapter/") {
			continue
		}
		n++
		at := ssaName(fn)
		r := &Run{P: c.P}
		var e edges
		e.attach(r)
		type update struct {
			st   *St
			k, v *Term
			in   ssa.Instruction
		}
		var updates []update
		recv, kid := rootParam(fn, 0), rootParam(fn, 1)
		r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			mt, ok := in.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map)
			if !ok || typeName(mt.Elem()) != "crypto.PublicKey" {
				return
			}
			updates = append(updates, update{st.clone(), k, v, in})
		}
		outs := r.Root(fn, nil, c.P.initialState())
		for _, u := range updates { // once every loop is known
			c.storedKey(&e, u.st, u.k, u.v, u.in)
		}
		c.account(r, fn, len(outs))
		for _, o := range outs {
			t := o.res[0]
			if o.st.isNil(t) {
				c.ob("key-set-answers-by-id", at, c.P.posOf(o.ret.Pos()), true, "")
				continue
			}
			x := t
			if x.kind == KExtract {
				x = x.args[0]
			}
			ok := false
			if x.kind == KLookup && x.args[1] == kid {
				// the map is the key set's own: current content of a field of the receiver
				ok = c.ownField(o.st, recv, x.args[0])
			}
			c.ob("key-set-answers-by-id", at, c.P.posOf(o.ret.Pos()), ok, "the returned key is not the one stored for the requested key id: %s", t)
		}
	}
	c.need(n > 0, "a key set implementation")
	c.atLeast("key-set-answers-by-id", 2)
	c.atLeast("stored-key-public", 1)
	// no other place fills key maps
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if mt, ok := mu.Map.Type().Underlying().(*types.Map); ok && typeName(mt.Elem()) == "crypto.PublicKey" {
					pos := c.P.posOf(in.Pos())
					c.ob("key-stores-analysed", ssaName(fn), pos, c.Fns[ssaName(fn)], "keys are stored at a place the analysis did not reach")
				}
			}
		}
	}
}

// ownField: m is the content of a field of recv, now or before.
func (c *Check) ownField(st *St, recv, m *Term) bool {
	if derives(m, func(t *Term) bool { return t == recv }) {
		return true
	}
	for a, v := range st.heap {
		if v == m && addrRoot(a) == recv {
			return true
		}
	}
	// content of a local map that is now the receiver's, or was when read
	if m.kind == KHavoc || m.kind == KZero {
		for a, v := range st.heap {
			if addrRoot(a) == recv && (m.kind == KZero || contains(m, func(t *Term) bool { return t == v })) {
				return true
			}
		}
	}
	return false
}

func (c *Check) storedKey(e *edges, st *St, k, v *Term, in ssa.Instruction) {
	pos := c.P.posOf(in.Pos())
	at := ssaName(in.Parent())
	typ := ""
	if v.kind == KIface && v.typ != nil {
		typ = typeName(v.typ)
	}
	pub := typ == "*crypto/rsa.PublicKey" || typ == "*crypto/ecdsa.PublicKey" || typ == "crypto/ed25519.PublicKey"
	c.ob("stored-key-public", at, pos, pub && st.isNonNil(unbox(v)), "a key set stores something other than an asymmetric public key (%s)", typ)
	c.ob("stored-key-id-non-empty", at, pos, st.refuted(mkEq(k, mkStr(""))), "a key may be stored under an empty key id")
	elem := k
	for elem != nil && elem.kind != KField {
		if len(elem.args) == 0 {
			elem = nil
			break
		}
		elem = elem.args[0]
	}
	okE := false
	if elem != nil {
		el := elem.args[0]
		okE = elem.op == "Kid" && el.kind == KIndex
		if okE {
			ts := e.sources(append([]*Term{v}, st.reach(v)...))
			okE = false
			for _, t := range ts {
				if derives(t, func(x *Term) bool { return x == el }) {
					okE = true
				}
			}
			// and from no other element of the document
			for _, t := range ts {
				if derives(t, func(x *Term) bool { return x.kind == KIndex && x.args[0] == el.args[0] && x != el }) {
					okE = false
				}
			}
		}
	}
	if elem != nil && typ == "*crypto/rsa.PublicKey" {
		c.rsaKey(e, st, elem.args[0], unbox(v), at, pos)
	}
	c.ob("stored-key-under-own-id", at, pos, okE, "a key is not stored under the key id it was published with: key id %s", k)
}

// sources adds to ts what the loop variables in them start from and are given by an iteration.
func (e *edges) sources(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	for i := 0; i < len(ts); i++ {
		walk(ts[i], func(y *Term) bool {
			if y.kind != KLoop || seen[y] {
				return true
			}
			seen[y] = true
			for key, back := range e.back {
				for _, b := range back {
					for ph, t := range b.In {
						if t != y {
							continue
						}
						for _, x := range append(append([]*BackEdge{}, e.entry[key]...), back...) {
							if o := x.Out[ph]; o != nil && o != y {
								ts = append(ts, o)
							}
						}
						return true
					}
				}
			}
			return true
		})
	}
	return ts
}

// rsaKey: the RSA key v stored for the published key elem has exactly the
// published modulus and exponent.
func (c *Check) rsaKey(e *edges, st *St, elem, v *Term, at, pos string) {
	parts := []struct{ field, src string }{{"N", "N"}, {"E", "E"}}
	for _, p := range parts {
		x := st.get(v, p.field)
		if x == nil {
			c.ob("stored-key-as-published", at, pos, false, "the analysis does not know the %s of a stored RSA key", p.field)
			continue
		}
		ts := e.sources(append([]*Term{x}, st.reach(x)...))
		from := map[string]bool{}
		known := false
		for _, t := range ts {
			if t.kind == KConst || t.kind == KZero || t.kind == KAlloc {
				continue
			}
			known = true
			walk(t, func(y *Term) bool {
				if y.kind == KField && y.args[0] == elem {
					from[y.op] = true
				}
				return true
			})
		}
		var other []string
		for f := range from {
			if f != p.src {
				other = append(other, f)
			}
		}
		sort.Strings(other)
		c.ob("stored-key-as-published", at, pos, known && len(other) == 0 && (p.field == "E" || from[p.src]),
			"the %s of a stored RSA key does not derive from the published %s alone (constant: %v, derives from fields %v): %s", p.field, p.src, !known, other, x)
		if p.field != "E" {
			continue
		}
		// nothing of the exponent is cut off when it is turned into a number
		whole := true
		var cut *Term
		for _, t := range ts {
			walk(t, func(y *Term) bool {
				if y.kind != KCall || len(y.args) == 0 {
					return true
				}
				size := int64(0)
				switch {
				case strings.HasPrefix(y.callee, "(encoding/binary.") && strings.HasSuffix(y.callee, ").Uint16"):
					size = 2
				case strings.HasPrefix(y.callee, "(encoding/binary.") && strings.HasSuffix(y.callee, ").Uint32"):
					size = 4
				case strings.HasPrefix(y.callee, "(encoding/binary.") && strings.HasSuffix(y.callee, ").Uint64"):
					size = 8
				}
				if size > 0 {
					if arg := y.args[len(y.args)-1]; !st.leq(st.lenOf(arg), mkInt(size)) {
						whole, cut = false, arg
					}
				}
				return true
			})
		}
		c.ob("stored-key-exponent-whole", at, pos, whole, "only the first bytes of a published RSA exponent are taken over, which is another key than the published one: the length of %s is not bounded", cut)
	}
}

// ---- C07 ----

func (c *Check) rulesEnforced() {
	for _, v := range c.validators() {
		at := ssaName(v.fn) + " " + tokenNames[v.typ]
		for _, o := range v.outs {
			if !o.st.isNil(o.res[0]) {
				continue
			}
			pos := c.P.posOf(o.ret.Pos())
			rec := v.parsed(o.st)
			if rec == nil {
				if v.oidc && v.typ == 0 {
					found, ok, b := v.rulesLoop(o.st, func(b *BackEdge, el *Term) bool { return notSource(b, el, "") })
					c.ob("unsourced-rule-on-opaque-token", ssaName(v.fn), pos, found && ok, "an access token accepted through user-info is not checked against rules without a source; %s", backDetail(b))
					found, ok, b = v.rulesLoop(o.st, func(b *BackEdge, el *Term) bool { return notSource(b, el, tokenNames[0]) })
					c.ob("every-applicable-rule-enforced", at, pos, found && ok, "an opaque access token is accepted although a rule for access tokens may exist; %s", backDetail(b))
				}
				continue
			}
			claims := extract(rec.Result, 0)
			found, ok, b := v.rulesLoop(o.st, func(b *BackEdge, el *Term) bool {
				applies := !notSource(b, el, tokenNames[v.typ])
				if v.typ == 0 && !notSource(b, el, "") {
					applies = true
				}
				if !applies {
					return true
				}
				for _, chk := range b.St.calls(names(fnCheckPolicy)) {
					if !b.St.isNil(chk.Result) {
						continue
					}
					rule, cl := false, false
					for _, a := range chk.Args {
						if a == el || b.St.load(a) == el || sameStruct(b.St, a, el) {
							rule = true
						}
						if derives(a, func(t *Term) bool { return t == claims }) {
							cl = true
						}
					}
					if rule && cl {
						return true
					}
				}
				return false
			})
			c.ob("every-applicable-rule-enforced", at, pos, found && ok, "accepted although a rule that applies to this token may not have been checked (or its failure ignored); iteration: %s", backDetail(b))
		}
	}
	c.atLeast("every-applicable-rule-enforced", 5)
}

// sameStruct: a is a struct value whose fields are all those of el.
func sameStruct(st *St, a, el *Term) bool {
	if a.kind != KStruct {
		return false
	}
	for i, f := range a.args {
		if f != mkField(el, i) {
			return false
		}
	}
	return true
}

// ---- C08 ----

func isConversion(sig *types.Signature) bool {
	if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	i, ok := sig.Params().At(0).Type().Underlying().(*types.Interface)
	m, ok2 := sig.Results().At(0).Type().Underlying().(*types.Map)
	return ok && ok2 && i.NumMethods() == 0 && isStringType(m.Key())
}

func isClaimLookup(sig *types.Signature) bool {
	if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 {
		return false
	}
	s, m := false, false
	for k := 0; k < 2; k++ {
		t := sig.Params().At(k).Type()
		if isStringType(t) {
			s = true
		}
		if mt, ok := t.Underlying().(*types.Map); ok && isStringType(mt.Key()) {
			m = true
		}
	}
	i, ok := sig.Results().At(0).Type().Underlying().(*types.Interface)
	return s && m && ok && i.NumMethods() == 0
}

func (c *Check) matching() { c.matchingWith(c.conversion) }

func (c *Check) matchingWith(conversion func(*ssa.Function)) {
	fn := c.P.Func(pkgValidator, "checkAccessPolicy")
	if !c.need(fn != nil, "validator.checkAccessPolicy") {
		return
	}
	var ruleP, claimsP *Term
	ruleIdx := -1
	for i := range fn.Params {
		p := rootParam(fn, i)
		if strings.HasSuffix(typeName(p.typ), "v1.Rule") {
			ruleP, ruleIdx = p, i
		} else {
			claimsP = p
		}
	}
	if !c.need(ruleP != nil && claimsP != nil && ruleP.typ.Underlying() != nil, "the rule and claims parameters of checkAccessPolicy") {
		return
	}
	stT, ok := ruleP.typ.Underlying().(*types.Struct)
	if !c.need(ok, "a rule passed by value") {
		return
	}
	convs := map[*ssa.Function]bool{}
	finders := map[*ssa.Function]bool{}
	sigOf := map[string]*ssa.Function{}
	for _, f := range c.P.Fns {
		if short(fnPkgPath(f)) == pkgValidator && f.Parent() == nil {
			sigOf[ssaName(f)] = f
		}
	}
	opaque := func(n string) bool {
		f := sigOf[n]
		return f != nil && (isConversion(f.Signature) || isClaimLookup(f.Signature))
	}
	for _, mode := range []string{"ANY", "NOT", "ALL", "", "other"} {
		at := ssaName(fn) + " " + mode
		var fs []*Term
		var match *Term
		for i := 0; i < stT.NumFields(); i++ {
			f := mkField(ruleP, i)
			if stT.Field(i).Name() == "Match" {
				match = f
				if mode != "other" {
					f = mkStr(mode)
				}
			}
			fs = append(fs, f)
		}
		st := c.P.initialState()
		if mode == "other" {
			for _, s := range []string{"ANY", "NOT", "ALL", ""} {
				st.assume(mkEq(match, mkStr(s)), false)
			}
		}
		rule := intern(KStruct, "", ruleP.typ, fs...)
		r := &Run{P: c.P, Opaque: opaque, Record: opaque}
		var e edges
		e.attach(r)
		args := map[string]*Term{}
		args["#"+itoa(ruleIdx)] = rule
		outs := r.Root(fn, args, st)
		c.account(r, fn, len(outs))
		values := st.get(rule, "Values")
		claim := st.get(rule, "Claim")
		accepts := 0
		for _, o := range outs {
			if !o.st.isNil(o.res[0]) {
				continue
			}
			accepts++
			pos := c.P.posOf(o.ret.Pos())
			var m *Term
			why := "the claim's value is not looked up and converted"
			for _, cv := range o.st.calls(opaque) {
				f := sigOf[cv.Name]
				if !isConversion(f.Signature) || !o.st.isNil(extract(cv.Result, 1)) {
					continue
				}
				src := cv.Args[0]
				for _, lk := range o.st.calls(opaque) {
					g := sigOf[lk.Name]
					if !isClaimLookup(g.Signature) || lk.Result != src {
						continue
					}
					if len(lk.Args) == 2 && (lk.Args[0] == claim && lk.Args[1] == claimsP || lk.Args[1] == claim && lk.Args[0] == claimsP) {
						m = extract(cv.Result, 0)
						convs[f] = true
						finders[g] = true
					}
				}
			}
			if !c.ob("claim-converted-without-error", at, pos, m != nil, "accepted although %s without error; path: %s", why, o.st.describeFacts()) {
				continue
			}
			has := func(st *St, v *Term) (bool, bool) {
				return st.truth(intern(KLookupOk, "", types.Typ[types.Bool], m, v))
			}
			hasTrue := func(b *BackEdge, el *Term) bool { v, k := lookupOk(b.St, m, el); return k && v }
			hasFalse := func(b *BackEdge, el *Term) bool { v, k := lookupOk(b.St, m, el); return k && !v }
			_ = has
			okRule := false
			switch mode {
			case "ANY":
				for f, v := range o.st.facts {
					if v && f.kind == KLookupOk && f.args[0] == m && f.args[1].kind == KIndex && f.args[1].args[0] == values {
						okRule = true
					}
				}
				for _, ev := range o.st.events() {
					if ev.loop != nil && ev.loop.Over == values && e.exists(o.st, ev.loop, hasTrue) {
						okRule = true
					}
				}
			case "NOT":
				for _, ev := range o.st.events() {
					if ev.loop != nil && ev.loop.Over == values {
						if ok, _ := e.forall(o.st, ev.loop, hasFalse); ok {
							okRule = true
						}
					}
				}
				lo := o.st.constOf(mkLen(values))
				lm := o.st.constOf(mkLen(m))
				if sameInt(lo, 0) || sameInt(lm, 0) {
					okRule = true
				}
			default:
				for _, ev := range o.st.events() {
					if ev.loop != nil && ev.loop.Over == values {
						if ok, _ := e.forall(o.st, ev.loop, hasTrue); ok {
							okRule = true
						}
					}
				}
				lo, _, _ := o.st.intRange(mkLen(values))
				c.ob("all-needs-expected-values", at, pos, lo != nil && *lo > 0, "a rule without expected values accepts; path: %s", o.st.describeFacts())
			}
			c.ob("match-mode-decides", at, pos, okRule, "accepted although the rule's expected values may not match the claim as %q demands; path: %s", mode, o.st.describeFacts())
		}
		c.ob("mode-can-accept", at, c.P.posOf(fn.Pos()), accepts > 0, "no path accepts a rule of mode %q", mode)
	}
	for f := range convs {
		conversion(f)
	}
	for f := range finders {
		c.nestedLookup(f)
	}
	c.atLeast("match-mode-decides", 5)
	c.atLeast("claim-values", 4)
	c.atLeast("nested-claim", 1)
}

func sameInt(t *Term, n int64) bool {
	if t == nil {
		return false
	}
	k, ok := intOf(t)
	return ok && k == n
}

func itoa(i int) string { return mkInt(int64(i)).String() }

func lookupOk(st *St, m, k *Term) (val, known bool) {
	for f, v := range st.facts {
		if f.kind == KLookupOk && f.args[0] == m && (f.args[1] == k || st.holds(mkEq(f.args[1], k))) {
			return v, true
		}
	}
	return false, false
}

func assertOf(t, x *Term, typ string) bool {
	return t.kind == KAssert && t.args[0] == x && t.typ != nil && typeName(t.typ) == typ
}

// scalarText: k is a text of the boolean or number v.
func scalarText(k, v *Term) bool {
	if k.kind != KPure && k.kind != KCall {
		return false
	}
	n := calleeName(k)
	if !strings.HasPrefix(n, "strconv.") && !strings.HasPrefix(n, "fmt.Sprint") {
		return false
	}
	return contains(k, func(t *Term) bool { return assertOf(t, v, "bool") || assertOf(t, v, "float64") })
}

// exactNumber: k is the shortest plain decimal text that reads back as the number x.
func exactNumber(k, x *Term) bool {
	return isCallTo(k, "strconv.FormatFloat") && len(k.args) == 4 && k.args[0] == x && isNumber(k.args[1], 'f') && isNumber(k.args[2], -1) && isNumber(k.args[3], 64)
}

// numberTexts: C35. The text a number is compared by tells it from every other number.
func (c *Check) numberTexts(fn *ssa.Function) {
	at := ssaName(fn)
	r := &Run{P: c.P}
	r.OnMapUpdate = func(st *St, m, k, val *Term, in ssa.Instruction) {
		var x *Term
		contains(k, func(t *Term) bool {
			if x == nil && t.kind == KAssert && t.typ != nil && typeName(t.typ) == "float64" {
				x = t
			}
			return false
		})
		if x != nil {
			c.ob("number-text-is-exact", at, c.P.posOf(in.Pos()), exactNumber(k, x), "a number is compared by a text other numbers share or that is no plain decimal notation: %s", k)
		}
	}
	outs := r.Root(fn, nil, c.P.initialState())
	c.account(r, fn, len(outs))
}

func init() {
	checks["C35"] = func(c *Check) {
		d := &Check{P: c.P, ID: c.ID, Tier: c.Tier, seen: map[string]bool{}, Rules: map[string]int{}, Fns: map[string]bool{}}
		n := 0
		d.matchingWith(func(f *ssa.Function) { n++; c.numberTexts(f) })
		c.need(n > 0, "the conversion of a claim to the values rules are matched against")
		c.atLeast("number-text-is-exact", 2)
	}
	explain["C35"] = "Every insertion into the set of a claim's values, on every path of the conversion (found as the function whose result the rule matching looks expected values up in), whose key is computed from a number must be the shortest plain decimal notation that reads back as that very number."
}

// word: k is a blank-separated word of text.
func wordOfText(k, text *Term) bool {
	if k.kind != KIndex {
		return false
	}
	p := k.args[0]
	return isCallTo(p, "strings.Split", "strings.Fields") && p.args[0] == text && (p.op == "strings.Fields" || sameStr(p.args[1], " "))
}

func (c *Check) conversion(fn *ssa.Function) {
	at := ssaName(fn)
	v := rootParam(fn, 0)
	r := &Run{P: c.P}
	var e edges
	e.attach(r)
	// what may be added to the values
	r.OnMapUpdate = func(st *St, m, k, val *Term, in ssa.Instruction) {
		ok := scalarText(k, v)
		list := mkIndexBase(k, v)
		if list != nil {
			ok = ok || assertOf(k, list, "string") || scalarText(k, list)
		}
		if k.kind == KIndex && k.args[0].kind == KPure && len(k.args[0].args) > 0 && assertOf(k.args[0].args[0], v, "string") && wordOfText(k, k.args[0].args[0]) {
			ok = true
		}
		c.ob("claim-values-only", at, c.P.posOf(in.Pos()), ok, "a value that is not the claim's is added to its values: %s", k)
	}
	outs := r.Root(fn, nil, c.P.initialState())
	c.account(r, fn, len(outs))
	holdsType := func(st *St, x *Term, typ string) bool {
		for f, val := range st.facts {
			if val && f.kind == KAssertOk && f.args[0] == x && typeName(f.typ) == typ {
				return true
			}
		}
		return false
	}
	for _, o := range outs {
		if o.st.isNonNil(o.res[1]) || isErrorValue(o.res[1]) {
			continue
		}
		pos := c.P.posOf(o.ret.Pos())
		m := o.res[0]
		cells := func(st *St, f func(k *Term) bool) bool {
			for a := range st.heap {
				if a.kind == KMapAddr && a.args[0] == m && f(a.args[1]) {
					return true
				}
			}
			return false
		}
		switch {
		case o.st.isNil(v):
			c.ob("claim-values", at+" missing", pos, !cells(o.st, func(*Term) bool { return true }), "a missing claim has values")
		case holdsType(o.st, v, "bool"), holdsType(o.st, v, "float64"):
			c.ob("claim-values", at+" scalar", pos, cells(o.st, func(k *Term) bool { return scalarText(k, v) }), "the text of a boolean or number claim is not among its values")
		case holdsType(o.st, v, "string"):
			ok := false
			for _, ev := range o.st.events() {
				if ev.loop == nil || ev.loop.Over == nil || !isCallTo(ev.loop.Over, "strings.Split", "strings.Fields") || !assertOf(ev.loop.Over.args[0], v, "string") {
					continue
				}
				good, _ := e.forall(o.st, ev.loop, func(b *BackEdge, el *Term) bool {
					return inMap(b.St, m, func(k *Term) bool { return k == el })
				})
				ok = ok || (good && wordOfText(mkIndex(ev.loop.Over, mkInt(0)), ev.loop.Over.args[0]))
			}
			c.ob("claim-values", at+" text", pos, ok, "not every word of a text claim is among its values; path: %s", o.st.describeFacts())
		case holdsType(o.st, v, "[]interface{}"):
			ok := false
			for _, ev := range o.st.events() {
				if ev.loop == nil || ev.loop.Over == nil || !assertOf(ev.loop.Over, v, "[]interface{}") {
					continue
				}
				good, _ := e.forall(o.st, ev.loop, func(b *BackEdge, el *Term) bool {
					return inMap(b.St, m, func(k *Term) bool { return assertOf(k, el, "string") || scalarText(k, el) })
				})
				ok = ok || good
			}
			c.ob("claim-values", at+" list", pos, ok, "not every element of a list claim is among its values or rejected; path: %s", o.st.describeFacts())
		default:
			c.ob("unsupported-claim-rejected", at, pos, false, "a claim of an unsupported shape is accepted; path: %s", o.st.describeFacts())
		}
	}
}

func inMap(st *St, m *Term, f func(k *Term) bool) bool {
	for a := range st.heap {
		if a.kind == KMapAddr && a.args[0] == m && f(a.args[1]) {
			return true
		}
	}
	return false
}

// mkIndexBase finds the element of the list v that k speaks about.
func mkIndexBase(k, v *Term) *Term {
	var el *Term
	contains(k, func(t *Term) bool {
		if t.kind == KIndex && assertOf(t.args[0], v, "[]interface{}") {
			el = t
			return true
		}
		return false
	})
	return el
}

func (c *Check) nestedLookup(fn *ssa.Function) {
	at := ssaName(fn)
	ci, mi := 0, 1
	if !isStringType(fn.Params[0].Type()) {
		ci, mi = 1, 0
	}
	claim, claims := rootParam(fn, ci), rootParam(fn, mi)
	r := &Run{P: c.P}
	var e edges
	e.attach(r)
	outs := r.Root(fn, nil, c.P.initialState())
	c.account(r, fn, len(outs))
	var good func(st *St, M, J *Term, seen map[string]string) bool
	isTier := func(t *Term) (*Term, bool) { // the index of a component of the claim's name
		if t.kind != KIndex {
			return nil, false
		}
		l := t.args[0]
		if l.kind == KSlice && l.op == "010" { // cut short: the same components
			l = l.args[0]
		}
		if isCallTo(l, "strings.Split") && l.args[0] == claim && sameStr(l.args[1], ".") {
			return t.args[1], true
		}
		return nil, false
	}
	// good: M is what following the first J components of the name leads to
	good = func(st *St, M, J *Term, seen map[string]string) bool {
		for {
			if n := unbox(M); n != M {
				M = n
			} else if M.kind == KConv || M.kind == KExtract {
				M = M.args[0]
			} else {
				break
			}
		}
		if M == claims {
			return sameInt(st.constOfOr(J), 0)
		}
		if M.kind == KAssert {
			return st.holds(mkAssertOk(M.args[0], M.typ)) && good(st, M.args[0], J, seen)
		}
		if M.kind == KLookup {
			j, ok := isTier(M.args[1])
			return ok && (addInt(j, 1) == J || sameVal(st, addInt(j, 1), J)) && good(st, M.args[0], j, seen)
		}
		if M.kind != KLoop {
			return false
		}
		// inductive: the map carried by the loop belongs to the index carried by it
		for key, back := range e.back {
			for _, b := range back {
				if b.Peeled {
					continue
				}
				var pm, pj *ssa.Phi
				var d int64
				for ph, t := range b.In {
					if t == M {
						pm = ph
					}
					if t != M {
						if t == J {
							pj, d = ph, 0
						} else if J.kind == KBin && J.op == "+" && J.args[0] == t {
							if n, ok := intOf(J.args[1]); ok {
								pj, d = ph, n
							}
						}
					}
				}
				if pm != nil && pj == nil {
					pj, d = e.endsAt(st, key, J)
				}
				if pm == nil || pj == nil {
					continue
				}
				// the induction hypothesis is about this very pair of variables and this distance
				if h := fmt.Sprint(pm.Name(), " ", pj.Name(), " ", d); seen[key] != "" {
					return seen[key] == h
				} else {
					seen[key] = h
				}
				if len(e.entry[key]) == 0 {
					return false
				}
				for _, x := range e.entry[key] {
					if !good(x.St, x.Out[pm], addInt(x.Out[pj], d), seen) {
						return false
					}
				}
				for _, x := range back {
					if x.Peeled {
						continue
					}
					if !good(x.St, x.Out[pm], addInt(x.Out[pj], d), seen) {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	for _, o := range outs {
		R := o.res[0]
		if o.st.isNil(R) {
			continue
		}
		if R.kind == KExtract {
			R = R.args[0]
		}
		ok := false
		if R.kind == KLookup {
			if j, isT := isTier(R.args[1]); isT {
				n := mkLen(R.args[1].args[0])
				if l := R.args[1].args[0]; l.kind == KSlice {
					n = mkLen(l.args[0])
				}
				last := addInt(n, -1)
				ok = (j == last || o.st.holds(mkEq(j, last)) || o.st.holds(mkEq(addInt(j, 1), n))) && good(o.st, R.args[0], j, map[string]string{})
			}
		}
		for _, ev := range o.st.events() {
			// after the last component, where the loop over them ends
			if l := ev.loop; !ok && l != nil && l.Over != nil && l.Over.kind != KSlice && l.Phi != nil && l.Phis[l.Phi] != nil {
				if _, isT := isTier(mkIndex(l.Over, mkInt(0))); isT {
					ok = good(o.st, R, addInt(l.Phis[l.Phi], l.Pre), map[string]string{})
				}
			}
		}
		c.ob("nested-claim", at, c.P.posOf(o.ret.Pos()), ok, "the value returned is not the one found by following every component of the claim's name: %s; path: %s", R, o.st.describeFacts())
	}
}

// endsAt is the counter of a loop, going up by one from zero (or from just before it, and then counted
// with one added) while it is less than n, that st has found not to be less, and what is added to it.
func (e *edges) endsAt(st *St, key string, n *Term) (*ssa.Phi, int64) {
	if !(n.kind == KBin && n.op == "+" && sameInt(n.args[1], -1) && n.args[0] == mkLen(n.args[0].args[0]) && splits(n.args[0].args[0])) {
		return nil, 0 // only for numbers known not to be negative
	}
	for ph, t := range e.back[key][0].In {
		for d := int64(0); d < 2; d++ {
			if t == nil || t.kind != KLoop || !st.refuted(mkLess(addInt(t, d), n)) {
				continue
			}
			ok := true
			for _, x := range e.entry[key] {
				ok = ok && sameInt(x.Out[ph], -d)
			}
			for _, x := range e.back[key] {
				if !x.Peeled {
					ok = ok && x.Out[ph] == addInt(x.In[ph], 1) && x.St.holds(mkLess(addInt(x.In[ph], d), n))
				}
			}
			if ok {
				return ph, d
			}
		}
	}
	return nil, 0
}

// splits: a cut text, which has at least one part.
func splits(t *Term) bool { return isCallTo(t, "strings.Split") && !sameStr(t.args[1], "") }

func (s *St) constOfOr(t *Term) *Term {
	if k := s.constOf(t); k != nil {
		return k
	}
	return t
}

func init() {
	checks["C05"] = func(c *Check) { c.tokenAcceptance(); c.validatorRoles() }
	explain["C05"] = "Path-sensitive dataflow from every TokenValidator implementation, once per token kind: every path returning nil must rest on a successful verifying parse of exactly the validated token, or - OIDC access tokens only - on a 200 answer of the user-info endpoint to exactly that bearer token with a completed scan showing no rule with source access_token."
	checks["C06"] = func(c *Check) { c.verificationKeys() }
	explain["C06"] = "At every JWT library parse the key function is analysed on all paths: a key without error must be the result of the policy key set's look-up for the token header's own non-empty kid. Every store into a map of public keys must be an asymmetric public key decoded from the same document element as its non-empty id."
	checks["C07"] = func(c *Check) {
		c.rulesEnforced()
		c.engineDecisions("C07")
		c.atLeast("rules-of-policy", 2)
		c.atLeast("default-audience-rule", 1)
	}
	explain["C07"] = "Loop-level dataflow: a token is accepted only behind a completed iteration over the whole rule list in which every end of an iteration shows that the rule does not apply or that its check on the verified token's claims returned no error."
	checks["C08"] = func(c *Check) { c.matching() }
	explain["C08"] = "checkAccessPolicy is analysed once per match mode (and for any other text): accepting paths must show the membership of expected values the mode demands through completed loops. The conversion of claim values and the nested look-up are analysed separately, the latter by an inductive argument over its loop."
}
