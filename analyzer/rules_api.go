package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C02: JWT bearer ----

type apiRun struct {
	fn   *ssa.Function
	r    *Run
	outs []Outcome
	hdr  *Term
	act  *Term
}

var apiCache *apiRun

func (c *Check) api() *apiRun {
	if apiCache == nil {
		fn := c.P.Method(pkgAPI, "APIStrategy", "HandleAuthnZRequest")
		if fn == nil {
			c.need(false, "(*APIStrategy).HandleAuthnZRequest")
			return nil
		}
		r := &Run{P: c.P, Record: names(fnValidate)}
		outs := r.Root(fn, nil, c.P.initialState())
		a := &apiRun{fn: fn, r: r, outs: outs}
		a.hdr = initial(rootParam(fn, 1), "Instance.Request.Headers.Authorization")
		a.act = rootParam(fn, 2)
		apiCache = a
	}
	c.account(apiCache.r, apiCache.fn, len(apiCache.outs))
	return apiCache
}

// wordOf interprets t as part of the blank-separated text h: the idx-th word, or everything from it on.
func wordOf(t, h *Term) (idx int, rest, ok bool) {
	if t == h {
		return 0, true, true
	}
	t = unbox(t)
	switch t.kind {
	case KIndex:
		p := t.args[0]
		n, isC := intOf(t.args[1])
		if !isC || p.kind != KPure {
			return
		}
		switch p.op {
		case "strings.Split", "strings.SplitN":
			if !sameStr(p.args[1], " ") {
				return
			}
			i, r, ok := wordOf(p.args[0], h)
			if !ok || !r {
				return 0, false, false
			}
			last := false
			if p.op == "strings.SplitN" {
				lim, isC := intOf(p.args[2])
				if !isC {
					return 0, false, false
				}
				last = lim > 0 && n == lim-1
			}
			return i + int(n), last, true
		case "strings.Fields":
			i, r, ok := wordOf(p.args[0], h)
			if !ok || !r {
				return 0, false, false
			}
			return i + int(n), false, true
		}
	case KExtract:
		p := t.args[0]
		if p.kind == KPure && p.op == "strings.Cut" && sameStr(p.args[1], " ") {
			i, r, ok := wordOf(p.args[0], h)
			if !ok || !r {
				return 0, false, false
			}
			if t.op == "0" {
				return i, false, true
			}
			if t.op == "1" {
				return i + 1, true, true
			}
		}
	case KPure:
		switch t.op {
		case "strings.TrimPrefix":
			if s, isS := strOf(t.args[1]); isS && strings.EqualFold(s, "bearer ") {
				i, r, ok := wordOf(t.args[0], h)
				if ok && r && i == 0 {
					return 1, true, true
				}
			}
		case "strings.TrimSpace":
			return wordOf(t.args[0], h)
		}
	case KSlice:
		if t.op == "100" {
			if n, isC := intOf(t.args[1]); isC && n == int64(len("Bearer ")) {
				if i, r, ok := wordOf(t.args[0], h); ok && r && i == 0 {
					return 1, true, true
				}
			}
		}
	}
	return
}

// bearerScheme: the path has established that the header's first word is Bearer.
func bearerScheme(st *St, h *Term) bool {
	for f, v := range st.facts {
		if !v {
			continue
		}
		switch {
		case f.kind == KBin && f.op == "==":
			for k := 0; k < 2; k++ {
				a, b := f.args[k], f.args[1-k]
				s, ok := strOf(b)
				if a.kind == KPure && (a.op == "strings.ToLower" || a.op == "strings.ToUpper") {
					a = a.args[0]
				}
				i, rest, okW := wordOf(a, h)
				if ok && okW && i == 0 && !rest && strings.EqualFold(s, "bearer") {
					return true
				}
			}
		case f.kind == KPure && f.op == "strings.EqualFold":
			for k := 0; k < 2; k++ {
				i, rest, okW := wordOf(f.args[k], h)
				s, ok := strOf(f.args[1-k])
				if ok && okW && i == 0 && !rest && strings.EqualFold(s, "bearer") {
					return true
				}
			}
		case f.kind == KPure && f.op == "strings.HasPrefix" && f.args[0] == h:
			if s, ok := strOf(f.args[1]); ok && strings.EqualFold(s, "bearer ") {
				return true
			}
		}
	}
	return false
}

// noIDToken: the path has established that the header carries no (or an empty) ID token.
func noIDToken(st *St, h *Term) bool {
	for f := range st.facts {
		found := false
		contains(f, func(t *Term) bool {
			if found {
				return true
			}
			if i, _, ok := wordOf(t, h); ok && i == 2 && st.holds(mkEq(t, mkStr(""))) {
				found = true
			}
			// the number of words is at most two
			if t.kind == KPure && t.op == "len" && t.args[0].kind == KPure {
				p := t.args[0]
				if w := intern(KIndex, "", nil, p, mkInt(2)); p.op == "strings.Split" || p.op == "strings.SplitN" || p.op == "strings.Fields" {
					if i, _, ok := wordOf(w, h); ok && i >= 2 {
						_, hi, _ := st.intRange(t)
						if hi != nil && *hi <= int64(4-i) {
							found = true
						}
					}
				}
			}
			// strings.Cut(rest, " ") found no blank
			if t.kind == KExtract && t.op == "2" && isCallTo(t.args[0], "strings.Cut") {
				if i, r, ok := wordOf(t.args[0].args[0], h); ok && r && i == 1 && st.refuted(t) {
					found = true
				}
			}
			return found
		})
		if found {
			return true
		}
	}
	return false
}

func (c *Check) apiAdmission() {
	a := c.api()
	if a == nil {
		return
	}
	at := ssaName(a.fn)
	ks := func(st *St) func(*Term) bool {
		want := initial(a.act, "KeySet")
		return func(t *Term) bool { return t == want }
	}
	rules := initial(a.act, "Rules")
	for _, o := range a.outs {
		rp := decodeReply(o)
		pos := c.P.posOf(o.ret.Pos())
		if rp.kind != "allow" {
			c.ob("jwt-denial", at, pos, rp.kind == "deny" || rp.kind == "error", "a request that is not admitted gets no denial (%s); path: %s", rp.kind, o.st.describeFacts())
			continue
		}
		okA := false
		okID := false
		for _, v := range o.st.calls(names(fnValidate)) {
			if len(v.Args) != 5 || !o.st.isNil(v.Result) || !ks(o.st)(v.Args[2]) || v.Args[3] != rules {
				continue
			}
			typ, okT := o.st.constInt(v.Args[1])
			i, rest, okW := wordOf(v.Args[0], a.hdr)
			if !okT || !okW {
				continue
			}
			if typ == 0 && i == 1 && (!rest || noIDToken(o.st, a.hdr)) {
				okA = true
			}
			if typ == 1 && i == 2 {
				okID = true
				if !rest { // further words must be excluded
					okID = !moreWords(o.st, v.Args[0])
				}
			}
		}
		c.ob("jwt-access-token-validated", at, pos, okA, "admitted although no validation of the header's access token, as an access token with the action's own key set and rules, reported success; path: %s", o.st.describeFacts())
		c.ob("jwt-id-token-validated", at, pos, okID || noIDToken(o.st, a.hdr), "admitted although an ID token in the header may not have been validated as an ID token with the action's key set and rules; path: %s", o.st.describeFacts())
		c.ob("jwt-bearer-scheme", at, pos, bearerScheme(o.st, a.hdr), "admitted without the header's scheme being Bearer; path: %s", o.st.describeFacts())
	}
	c.atLeast("jwt-access-token-validated", 1)
	c.atLeast("jwt-denial", 2)
}

// moreWords: tok is a word of an unlimited split that may have further words behind it.
func moreWords(st *St, tok *Term) bool {
	if tok.kind != KIndex {
		return true
	}
	_, hi, _ := st.intRange(mkLen(tok.args[0]))
	n, _ := intOf(tok.args[1])
	return hi == nil || *hi > n+1
}

// ---- C30: API refusals ----

var httpOf = map[string]int64{"invalid_request": 400, "invalid_token": 401, "insufficient_scope": 403}

// statusOf: the HTTP status an error code requires, as far as the path has determined the code.
func statusOf(st *St, code *Term) (int64, bool) {
	if s, ok := strOf(code); ok {
		if n := httpOf[s]; n != 0 {
			return n, true
		}
		return 500, true
	}
	if k := st.constOf(code); k != nil && k != code {
		return statusOf(st, k)
	}
	other := true
	for s, n := range httpOf {
		if st.holds(mkEq(code, mkStr(s))) {
			return n, true
		}
		other = other && st.refuted(mkEq(code, mkStr(s)))
	}
	return 500, other
}

func (c *Check) apiDenials() {
	a := c.api()
	if a == nil {
		return
	}
	at := ssaName(a.fn)
	for _, o := range a.outs {
		rp := decodeReply(o)
		st := o.st
		pos := c.P.posOf(o.ret.Pos())
		if rp.kind == "allow" {
			ok := len(st.calls(names(fnValidate))) > 0
			c.ob("denial-status", at, pos, ok, "a request whose token was not examined is answered with an OK status; path: %s", st.describeFacts())
			continue
		}
		if rp.kind == "error" {
			c.ob("denial-status", at, pos, true, "")
			continue
		}
		if !c.ob("denial-status", at, pos, rp.kind == "deny" && rp.code != 0, "a refused request is not answered with a non-OK status; path: %s", st.describeFacts()) {
			continue
		}
		var e *Term
		for _, v := range st.calls(names(fnValidate)) {
			if st.isNonNil(v.Result) {
				e = v.Result
			}
		}
		n, okN := int64(0), false
		if rp.httpCode != nil {
			n, okN = st.constInt(rp.httpCode)
		}
		if e == nil {
			c.ob("header-refusal-status", at, pos, okN && n == 401, "a request without usable bearer tokens is not answered with 401; path: %s", st.describeFacts())
		} else {
			want, known := statusOf(st, st.get(e, "Code"))
			c.ob("status-of-cause", at, pos, okN && known && n == want, "the HTTP status (%v) is not the one of the validation error's code; path: %s", rp.httpCode, st.describeFacts())
		}
		h, known := rp.header(st, "WWW-Authenticate")
		first := ""
		if h != nil {
			first, _ = strOf(parts(h)[0])
		}
		c.ob("bearer-challenge", at, pos, known && (first == "Bearer" || strings.HasPrefix(first, "Bearer ")), "the refusal carries no Bearer challenge; path: %s", st.describeFacts())
		if e == nil || h == nil {
			continue
		}
		sc := st.get(e, "Scopes")
		has := derives(h, func(t *Term) bool { return t == sc })
		empty := st.isNil(sc) || st.holds(mkEq(mkLen(sc), mkInt(0)))
		for f := range st.facts {
			contains(f, func(t *Term) bool {
				if t.kind == KPure && t.op == "strings.Join" && derives(t.args[0], func(x *Term) bool { return x == sc }) && st.holds(mkEq(t, mkStr(""))) {
					empty = true
				}
				return empty
			})
		}
		c.ob("challenge-scopes", at, pos, sc != nil && (has || empty), "the challenge leaves out the scopes of the validation error; path: %s", st.describeFacts())
	}
	c.atLeast("status-of-cause", 6)
	c.atLeast("bearer-challenge", 4)
	c.atLeast("challenge-scopes", 4)
	c.atLeast("header-refusal-status", 2)
	c.requiredScopes()
}

// requiredScopes: a refusal of a token by the JWT validator names the scopes of the first scope rule.
func (c *Check) requiredScopes() {
	for _, v := range c.validators() {
		if v.oidc {
			continue
		}
		at := ssaName(v.fn) + " " + tokenNames[v.typ]
		for _, o := range v.outs {
			st := o.st
			if st.isNil(o.res[0]) {
				continue
			}
			pos := c.P.posOf(o.ret.Pos())
			code := st.get(o.res[0], "Code")
			n, known := statusOf(st, code)
			if !c.ob("refusal-code", at, pos, known && (n == 401 || n == 500 && st.isNil(v.p(3)) || n == 403 || n == 400), "the error of a refused token has a code without a status of its own (%v)", code) || n != 401 {
				continue
			}
			sc := st.get(o.res[0], "Scopes")
			ok := false
			isScope := func(s *St, el *Term) (bool, bool) {
				eq := mkEq(s.get(el, "Claim"), mkStr("scope"))
				return s.holds(eq), s.refuted(eq)
			}
			if sc != nil && sc.kind == KField && sc.args[0].kind == KIndex && sc.args[0].args[0] == v.p(4) && st.get(sc.args[0], "Values") == sc {
				ok, _ = isScope(st, sc.args[0])
			} else if sc != nil && (st.isNil(sc) || st.holds(mkEq(mkLen(sc), mkInt(0)))) {
				_, ok, _ = v.rulesLoop(st, func(b *BackEdge, el *Term) bool {
					_, not := isScope(b.St, el)
					return not
				})
			}
			c.ob("required-scopes", at, pos, ok, "a refused token's error may lack the scopes that a scope rule requires (scopes: %v); path: %s", sc, st.describeFacts())
		}
	}
	c.atLeast("required-scopes", 4)
}

// statusMapping: the error type's own mapping, for every code.
func (c *Check) statusMapping() {
	fn := c.P.Method(pkgErrors, "OAuthError", "HTTPCode")
	if !c.need(fn != nil, "(*OAuthError).HTTPCode") {
		return
	}
	r := &Run{P: c.P}
	outs := c.run(r, fn, nil, nil)
	code := initial(rootParam(fn, 0), "Code")
	for _, o := range outs {
		n, ok := o.st.constInt(o.res[0])
		want, known := statusOf(o.st, code)
		c.ob("status-mapping", ssaName(fn), c.P.posOf(o.ret.Pos()), ok && known && n == want, "HTTP status %v for an error whose code is determined by: %s", o.res[0], o.st.describeFacts())
	}
	c.atLeast("status-mapping", 4)
}

// apiNoRedirect: the API strategy never redirects.
func (c *Check) apiNoRedirect() {
	a := c.api()
	if a == nil {
		return
	}
	for _, o := range a.outs {
		rp := decodeReply(o)
		if rp.kind != "deny" {
			continue
		}
		loc, known := rp.header(o.st, "location")
		c.ob("api-never-redirects", ssaName(a.fn), c.P.posOf(o.ret.Pos()), known && loc == nil, "a refusal of a bearer token carries a location (%v)", loc)
	}
	c.atLeast("api-never-redirects", 2)
}

// ---- C01 ----

type adapterRun struct {
	fn   *ssa.Function
	r    *Run
	outs []Outcome
}

var adapterCache *adapterRun

func (c *Check) adapter() *adapterRun {
	if adapterCache == nil {
		fn := c.P.Method("adapter", "AppidAdapter", "HandleAuthnZ")
		if fn == nil {
			c.need(false, "(*AppidAdapter).HandleAuthnZ")
			return nil
		}
		r := &Run{P: c.P, Record: names(fnEvaluate, fnStrategy)}
		st := c.P.initialState()
		// what every construction of the adapter sets is there
		recv := rootParam(fn, 0)
		if n, _ := derefNamed(recv.typ); n != nil {
			k := &crash{c: c, ctorMemo: map[string]bool{}, strict: true}
			if s, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if t := initial(recv, s.Field(i).Name()); t != nil && types.IsInterface(s.Field(i).Type()) && k.alwaysSet(n, i) {
						st.assume(mkEq(t, mkNil(t.typ)), false)
					}
				}
			}
		}
		adapterCache = &adapterRun{fn: fn, r: r, outs: r.Root(fn, nil, st)}
	}
	c.account(adapterCache.r, adapterCache.fn, len(adapterCache.outs))
	return adapterCache
}

func (c *Check) dispatch() {
	a := c.adapter()
	if a == nil {
		return
	}
	at := ssaName(a.fn)
	recv, req := rootParam(a.fn, 0), rootParam(a.fn, 2)
	target := initial(req, "Instance.Target")
	own := c.ownTargets(a)
	jwt, oidc := initial(recv, "apistrategy"), initial(recv, "webstrategy")
	if !c.need(target != nil && jwt != nil && oidc != nil, "the adapter's strategies and the request's target") {
		return
	}
	for _, o := range a.outs {
		pos := c.P.posOf(o.ret.Pos())
		st := o.st
		if isErrorReply(o) {
			c.ob("error-stays-error", at, pos, true, "")
			continue
		}
		// the lookup this answer is based on
		var eval *CallRec
		n := 0
		for _, e := range st.calls(names(fnEvaluate)) {
			eval = e
			n++
		}
		if !c.ob("decision-completed", at, pos, n == 1 && (eval.Args[0] == target || own[eval.Instr.Pos()]) && st.isNil(extract(eval.Result, 1)),
			"answered although the policy lookup for the request's own target did not complete without error; path: %s", st.describeFacts()) {
			continue
		}
		action := extract(eval.Result, 0)
		typ := initial(action, "Type")
		strat := st.calls(names(fnStrategy))
		passed := len(strat) == 1 && len(o.res) == 2 && o.res[0] == extract(strat[0].Result, 0) &&
			(o.res[1] == extract(strat[0].Result, 1)) && strat[0].Args[0] == req && strat[0].Args[1] == action
		k, known := st.constInt(typ)
		switch {
		case passed:
			want := (known && k == 0 && strat[0].Recv == jwt) || (known && k == 1 && strat[0].Recv == oidc)
			c.ob("handler-of-policy-type", at, pos, want, "the answer comes from a handler other than that of the policy's type; path: %s", st.describeFacts())
		default:
			rp := decodeReply(o)
			if rp.kind == "deny" {
				c.ob("handler-of-policy-type", at, pos, false, "an answer is not the one its handler produced; path: %s", st.describeFacts())
				continue
			}
			unprotected := known && k == 2
			if !known {
				unprotected = st.refuted(mkEq(typ, mkInt(0))) && st.refuted(mkEq(typ, mkInt(1)))
			}
			c.ob("admission-only-without-policy", at, pos, unprotected && len(strat) == 0, "admitted although the lookup may have found a policy (type JWT or OIDC), or after its handler answered; path: %s", st.describeFacts())
		}
	}
	c.atLeast("admission-only-without-policy", 1)
	c.atLeast("handler-of-policy-type", 2)
	c.atLeast("decision-completed", 3)
	// well-formedness: the lookup is reached only with a complete request
	r := &Run{P: c.P, Record: names(fnEvaluate, fnStrategy)}
	r.OnCall = func(st *St, rec *CallRec) {
		if rec.Name != fnEvaluate {
			return
		}
		for _, p := range []string{"", "Instance", "Instance.Request", "Instance.Target", "Instance.Request.Params", "Instance.Request.Headers"} {
			t := req
			if p != "" {
				t = initial(req, p)
			}
			c.ob("well-formed-first", at+" "+p, c.P.posOf(rec.Instr.Pos()), t != nil && st.isNonNil(t), "the policy lookup is reached although %q may be absent", "r."+p)
		}
	}
	r.Root(a.fn, nil, c.P.initialState())
	c.account(r, a.fn, 0)
	c.atLeast("well-formed-first", 6)
}

// ownTargets are the lookup calls whose target is the request's own: its service, namespace and method, and its path
// without trailing slashes. Every policy lookup is an obligation of rule lookup-of-own-target when judge is set.
func (c *Check) ownTargets(a *adapterRun) map[token.Pos]bool {
	return c.lookupTargets(a, false)
}

func (c *Check) lookupTargets(a *adapterRun, judge bool) map[token.Pos]bool {
	req := rootParam(a.fn, 2)
	target := initial(req, "Instance.Target")
	out := map[token.Pos]bool{}
	r := &Run{P: c.P, Record: names(fnEvaluate, fnStrategy)}
	r.OnCall = func(st *St, rec *CallRec) {
		if rec.Name != fnEvaluate || len(rec.Args) != 1 {
			return
		}
		ns, svc, m, p := st.get(rec.Args[0], "Namespace"), st.get(rec.Args[0], "Service"), st.get(rec.Args[0], "Method"), st.get(rec.Args[0], "Path")
		ok := ns == initial(target, "Namespace") && svc == initial(target, "Service") && p != nil && m != nil &&
			(m == initial(target, "Method") || isCallTo(m, "strings.ToUpper") && m.args[0] == initial(target, "Method")) &&
			(unslashed(st, p, initial(target, "Path"), 0) || (p.kind == KLoop || p.kind == KHavoc) && c.onlyUnslashes(a.fn))
		pos := rec.Instr.Pos()
		if was, seen := out[pos]; !seen || was {
			out[pos] = ok
		}
		if judge {
			c.ob("lookup-of-own-target", ssaName(a.fn), c.P.posOf(pos), ok, "policies are looked up for service %v in %v, method %v and path %v, which are not the request's own (its path without trailing slashes); path: %s", svc, ns, m, p, st.describeFacts())
		}
	}
	r.Root(a.fn, nil, c.P.initialState())
	c.account(r, a.fn, 0)
	return out
}

// onlyUnslashes: every value this package stores as a target's path is such a path with trailing slashes cut off, one
// or several at a time (for paths rewritten in a loop).
func (c *Check) onlyUnslashes(root *ssa.Function) bool {
	isPath := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && typeName(derefType(fa.X.Type())) == "~/config/template.TargetMsg" && fieldName(derefType(fa.X.Type()), fa.Field) == "Path"
	}
	var trimmed func(v ssa.Value, seen map[ssa.Value]bool) bool
	trimmed = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			return v.Op == token.MUL && isPath(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !trimmed(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Slice: // x[:len(x)-1]
			if v.Low != nil || v.Max != nil {
				return false
			}
			b, ok := v.High.(*ssa.BinOp)
			if !ok || b.Op != token.SUB || b.Y.String() != "1:int" {
				return false
			}
			n, ok := b.X.(*ssa.Call)
			if !ok || len(n.Call.Args) != 1 {
				return false
			}
			if bi, ok := n.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
			same := n.Call.Args[0] == v.X
			if l, ok := n.Call.Args[0].(*ssa.UnOp); ok && !same {
				x, ok := v.X.(*ssa.UnOp)
				same = ok && isPath(l.X) && isPath(x.X)
			}
			return same && trimmed(v.X, seen)
		case *ssa.Call:
			f := v.Call.StaticCallee()
			if f == nil || len(v.Call.Args) != 2 || (f.String() != "strings.TrimRight" && f.String() != "strings.TrimSuffix") {
				return false
			}
			k, ok := v.Call.Args[1].(*ssa.Const)
			return ok && k.Value != nil && k.Value.ExactString() == `"/"` && trimmed(v.Call.Args[0], seen)
		}
		return false
	}
	ok := true
	for _, f := range c.P.Fns {
		if fnPkgPath(f) != fnPkgPath(root) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, is := in.(*ssa.Store); is && isPath(s.Addr) && !trimmed(s.Val, map[ssa.Value]bool{}) {
					ok = false
				}
			}
		}
	}
	return ok
}

// unslashed: t is p with nothing but trailing slashes removed.
func unslashed(st *St, t, p *Term, depth int) bool {
	switch {
	case t == nil || depth > 6:
		return false
	case t == p:
		return true
	case t.kind == KPure && (t.op == "strings.TrimRight" || t.op == "strings.TrimSuffix") && sameStr(t.args[1], "/"):
		return unslashed(st, t.args[0], p, depth+1)
	case t.kind == KExtract && t.op == "0" && isCallTo(t.args[0], "strings.CutSuffix") && sameStr(t.args[0].args[1], "/"):
		return unslashed(st, t.args[0].args[0], p, depth+1)
	case t.kind == KSlice && t.op == "010" && lenMinus(t.args[1], t.args[0], 1):
		return st.holds(mkPure("strings.HasSuffix", types.Typ[types.Bool], t.args[0], mkStr("/"))) && unslashed(st, t.args[0], p, depth+1)
	case sameStr(t, "/"):
		return st.holds(mkEq(p, t))
	}
	return false
}

func isErrorReply(o Outcome) bool {
	if len(o.res) != 2 {
		return false
	}
	e := o.res[1]
	if o.st.isNil(e) {
		return false
	}
	return o.st.isNonNil(e)
}

func init() {
	checks["C02"] = func(c *Check) { c.apiAdmission() }
	explain["C02"] = "Path-sensitive dataflow from (*APIStrategy).HandleAuthnZRequest through every helper it calls. On every abstract path that returns an admission the analysis looks for a validation of the header's second word (access) and third word (ID) with the action's own key set and rules whose error result that path has established to be nil; every other path must return a response with a non-OK status."
	checks["C01"] = func(c *Check) {
		c.dispatch()
		c.engineDecisions("C01")
		c.atLeast("unprotected-only-without-policy", 1)
	}
	explain["C01"] = "Path-sensitive dataflow from (*AppidAdapter).HandleAuthnZ: every returning path is classified by the facts it established about the policy lookup's error and the action's type; admissions require a completed lookup with a type that is neither JWT nor OIDC, other answers must be the unmodified result of that type's handler."
}
