package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The OIDC strategy: one analysis from (*WebStrategy).HandleAuthnZRequest serves
// C03, C04, C09, C10, C12, C13, C30 and C32.

const (
	fnClientID     = "(~/adapter/client.Client).ID"
	fnClientScope  = "(~/adapter/client.Client).Scope"
	fnClientServer = "(~/adapter/client.Client).AuthorizationServer"
	svc            = "(~/adapter/authserver.AuthorizationServerService)."
	fnReqCookie    = "(*net/http.Request).Cookie"
	fnCookieString = "(*net/http.Cookie).String"
	fnBsonMarshal  = "gopkg.in/mgo.v2/bson.Marshal"
	fnBsonUnmarsh  = "gopkg.in/mgo.v2/bson.Unmarshal"
	callbackPath   = "/oidc/callback"
	logoutPath     = "/oidc/logout"
)

func isEncode(n string) bool {
	return n == "(*github.com/gorilla/securecookie.SecureCookie).Encode" || n == "(~/adapter/strategy/web.Encryptor).Encode" || n == "github.com/gorilla/securecookie.EncodeMulti"
}
func isDecode(n string) bool {
	return n == "(*github.com/gorilla/securecookie.SecureCookie).Decode" || n == "(~/adapter/strategy/web.Encryptor).Decode"
}
func isSessionLoad(n string) bool { return n == "(*sync.Map).Load" }
func isSessionStore(n string) bool {
	switch n {
	case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync.Map).CompareAndSwap":
		return true
	}
	return false
}
func isSessionDelete(n string) bool {
	switch n {
	case "(*sync.Map).Delete", "(*sync.Map).LoadAndDelete":
		return true
	}
	return false
}

// isStore: the call puts something into the session cache, or a token response anywhere.
func (w *webRun) isStore(st *St, c *CallRec) bool {
	if !isSessionStore(c.Name) || len(c.Args) < 2 {
		return false
	}
	return c.Recv == w.cache || w.sessionOf(st, c.Args[len(c.Args)-1]) != nil
}

func (w *webRun) stores(st *St) []*CallRec {
	var out []*CallRec
	for _, c := range st.calls(isSessionStore) {
		if w.isStore(st, c) {
			out = append(out, c)
		}
	}
	return out
}

type webOb struct {
	prop, rule, at, pos string
	ok                  bool
	detail              string
}

type webRun struct {
	fn     *ssa.Function
	r      *Run
	outs   []Outcome
	obs    []webOb
	act    *Term
	client *Term
	req    *Term
	cache  *Term
	enc    map[*Term]*Term // bson.Marshal call -> struct encoded
	state  *St             // scratch
	names  map[string]map[*Term]bool
	ends   []map[*Term]bool // the locks held at each removal of a session
	repls  []replacement
}

// replacement: a store of new tokens for an existing session.
type replacement struct {
	in, pos, facts string
	locks          map[*Term]bool // held since before the session was found to exist
	swap           bool           // a compare-and-swap with the session's present tokens
}

// locksHeld are the shared mutexes held exclusively, with the index of the call that acquired each.
func locksHeld(cs []*CallRec) map[*Term]int {
	held := map[*Term]int{}
	for i, c := range cs {
		if !strings.HasPrefix(c.Name, "(*sync.Mutex).") && !strings.HasPrefix(c.Name, "(*sync.RWMutex).") || c.Recv == nil || addrRoot(c.Recv).kind == KAlloc {
			continue
		}
		switch c.Name[strings.LastIndex(c.Name, ".")+1:] {
		case "Lock":
			held[c.Recv] = i
		case "Unlock":
			delete(held, c.Recv)
		}
	}
	return held
}

func (w *webRun) onSessionEnd(st *St, rec *CallRec) {
	if rec.Recv != w.cache {
		return
	}
	m := map[*Term]bool{}
	for l := range locksHeld(st.calls(func(string) bool { return true })) {
		m[l] = true
	}
	w.ends = append(w.ends, m)
}

func (w *webRun) onReplace(st *St, rec *CallRec, s *session, in, pos string) {
	r := replacement{in: in, pos: pos, facts: st.describeFacts(), locks: map[*Term]bool{}}
	if rec.Name == "(*sync.Map).CompareAndSwap" && len(rec.Args) == 3 && s.from != nil {
		r.swap = unbox(rec.Args[1]) == s.from.term || unboxConv(rec.Args[1]) == unboxConv(s.from.term)
	}
	cs := st.calls(func(string) bool { return true })
	for l, since := range locksHeld(cs) {
		for i, c := range cs {
			if i > since && c.Name == "(*sync.Map).Load" && c.Recv == w.cache && len(c.Args) == 1 && unbox(c.Args[0]) == unbox(rec.Args[0]) && st.holds(extract(c.Result, 1)) {
				r.locks[l] = true
			}
		}
	}
	w.repls = append(w.repls, r)
}

// endIsFinal: a session that has ended is not brought back by a request that was refreshing its tokens.
func (w *webRun) endIsFinal() {
	for _, r := range w.repls {
		ok := r.swap
		for l := range r.locks {
			all := true
			for _, e := range w.ends {
				all = all && e[l]
			}
			ok = ok || all
		}
		w.ob("C12", "ended-session-stays-ended", r.in, r.pos, ok, "refreshed tokens are stored for a session that may have ended since it was looked up: the session is not found to exist under a lock that every removal of sessions holds, nor replaced by a compare-and-swap; path: "+r.facts)
	}
}

var webCache *webRun

func (w *webRun) ob(prop, rule, at, pos string, ok bool, detail string) bool {
	w.obs = append(w.obs, webOb{prop, rule, at, pos, ok, detail})
	return ok
}

func (w *webRun) path(p string) *Term { return initial(w.req, "Instance.Request."+p) }

// serverOf: t is the client's authorization server.
func (w *webRun) serverOf(t *Term) bool {
	return t != nil && t.kind == KPure && t.op == fnClientServer && len(t.args) == 1 && t.args[0] == w.client
}
func (w *webRun) keySet(t *Term) bool {
	t = unbox(t)
	return isCallTo(t, svc+"KeySet") && w.serverOf(t.args[0])
}
func (w *webRun) userInfo(t *Term) bool {
	return isCallTo(t, svc+"UserInfoEndpoint") && w.serverOf(t.args[0])
}
func (w *webRun) ofClient(t *Term, getter string) bool {
	return t != nil && t.kind == KPure && t.op == getter && len(t.args) == 1 && t.args[0] == w.client
}

// cookieOf: v is the value of a cookie that was found in the request under a name made from the client's id.
func (w *webRun) cookieOf(st *St, v *Term) *Term {
	for _, c := range st.calls(names(fnReqCookie)) {
		if st.get(extract(c.Result, 0), "Value") != v || !st.isNil(extract(c.Result, 1)) {
			continue
		}
		if w.requestCookie(c) {
			return c.Result
		}
	}
	return nil
}

func (w *webRun) requestCookie(c *CallRec) bool {
	cookies := w.path("Headers.Cookies")
	return len(c.Args) == 1 && mentions(c.Result, cookies) && w.ofClientName(c.Args[0])
}

func (w *webRun) ofClientName(n *Term) bool {
	return n != nil && derives(n, func(t *Term) bool { return w.ofClient(t, fnClientID) })
}

// voidName: why net/http may refuse to write or read a cookie of this name ("" if it never does). A
// cookie name is an HTTP token, while a client id may hold any character.
func voidName(n *Term) string {
	if n == nil {
		return "its name is not known"
	}
	for _, p := range parts(n) {
		if s, ok := strOf(p); ok {
			for _, c := range s {
				if c <= ' ' || c >= 0x7f || strings.ContainsRune("()<>@,;:\\\"/[]?={}", c) {
					return "its name contains " + strconv.Quote(string(c))
				}
			}
			continue
		}
		if !isCallTo(p, "net/url.QueryEscape", "encoding/hex.EncodeToString") {
			return "its name contains " + p.String() + " as it is"
		}
	}
	return ""
}

// session describes a token response held by the analysis.
type session struct {
	kind string // loaded, refreshed, exchanged
	id   *Term  // identifier, for loaded and refreshed sessions
	from *session
	term *Term
}

// sessionOf: where the token response s comes from.
func (w *webRun) sessionOf(st *St, s *Term) *session {
	s = unbox(s)
	if s.kind == KAssert {
		x := s.args[0]
		ld := resultOf(x, 0, "(*sync.Map).Load")
		if ld == nil || ld.kind != KCall || len(ld.args) != 2 || ld.args[0] != w.cache {
			return nil
		}
		if !st.holds(extract(ld, 1)) && !st.holds(mkAssertOk(x, s.typ)) {
			return nil
		}
		id := unbox(ld.args[1])
		if w.cookieOf(st, id) == nil {
			return nil
		}
		return &session{kind: "loaded", id: id, term: s}
	}
	if c := resultOf(s, 0, fnRefresh); c != nil && c.kind == KCall && s != c {
		if len(c.args) != 2 || c.args[0] != w.client || !st.isNil(extract(c, 1)) {
			return nil
		}
		from := w.ownerOf(st, c.args[1], "RefreshToken")
		if from == nil {
			return nil
		}
		return &session{kind: "refreshed", id: from.id, from: from, term: s}
	}
	if c := resultOf(s, 0, fnExchange); c != nil && c.kind == KCall && s != c {
		if c.args[0] != w.client || !st.isNil(extract(c, 1)) {
			return nil
		}
		return &session{kind: "exchanged", term: s}
	}
	return nil
}

// ownerOf: the session whose given field t is.
func (w *webRun) ownerOf(st *St, t *Term, field string) *session {
	if t.kind != KField || t.args[0].kind != KDeref {
		return nil
	}
	p := t.args[0].args[0]
	if st.get(p, field) != t {
		return nil
	}
	return w.sessionOf(st, p)
}

func (w *webRun) fullyValidated(st *St, s *session) (access, id bool) {
	rules := initial(w.act, "Rules")
	access = st.validated(st.get(s.term, "AccessToken"), 0, w.keySet, rules, w.userInfo)
	id = st.validated(st.get(s.term, "IdentityToken"), 1, w.keySet, rules, w.userInfo)
	return
}

// suffix: whether the request's path ends with suf, as established on this path.
func (w *webRun) suffix(st *St, suf string) (val, known bool) {
	p := w.path("Path")
	typ := types.Typ[types.Bool]
	if v, ok := st.truth(mkPure("strings.HasSuffix", typ, p, mkStr(suf))); ok {
		return v, true
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		if f.kind == KPure && f.op == "strings.HasSuffix" && f.args[0] == p {
			if s, ok := strOf(f.args[1]); ok && !strings.HasSuffix(s, suf) && !strings.HasSuffix(suf, s) {
				return false, true
			}
		}
	}
	trim := mkPure("strings.TrimSuffix", types.Typ[types.String], p, mkStr(suf))
	if v, ok := st.truth(mkEq(trim, p)); ok {
		return !v, true
	}
	return false, false
}

// structOf follows pointers to the struct a value refers to.
func (s *St) structOf(t *Term) *Term {
	for i := 0; i < 4; i++ {
		t = unbox(t)
		if t.typ == nil {
			return t
		}
		if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
			return t
		}
		t = s.load(t)
	}
	return t
}

// future: t is a time after the moment it was computed (or before it, with past set).
func future(t *Term, past bool) bool {
	if t == nil || t.kind != KPure || len(t.args) == 0 || !isCallTo(t.args[0], "time.Now") {
		return false
	}
	if t.op == "(time.Time).AddDate" && len(t.args) == 4 {
		some := false
		for _, a := range t.args[1:] {
			n, ok := constInt64(a)
			if !ok || n != 0 && (n > 0) == past {
				return false
			}
			some = some || n != 0
		}
		return some
	}
	if t.op != "(time.Time).Add" {
		return false
	}
	n, ok := constInt64(t.args[1])
	return ok && (n > 0) != past && n != 0
}

// notExpired: the path established that the time exp is not over.
func notExpired(st *St, exp *Term) bool {
	now := func(t *Term) bool { return isCallTo(t, "time.Now") }
	for f, v := range st.facts {
		switch {
		case f.kind == KPure && f.op == "(time.Time).Equal" && len(f.args) == 2 && v:
			// the very moment it expires
			if f.args[0] == exp && now(f.args[1]) || f.args[1] == exp && now(f.args[0]) {
				return true
			}
		case f.kind == KPure && (f.op == "(time.Time).Before" || f.op == "(time.Time).After") && len(f.args) == 2:
			before := f.op == "(time.Time).Before"
			if f.args[0] == exp && now(f.args[1]) && v != before {
				return true
			}
			if f.args[1] == exp && now(f.args[0]) && v == before {
				return true
			}
		case f.kind == KBin && f.op == "<":
			// 0 < exp.Sub(now), 0 < time.Until(exp), or the negation of exp.Sub(now) < 0
			left := func(t *Term) bool {
				return t.kind == KPure && ((t.op == "(time.Time).Sub" && t.args[0] == exp && now(t.args[1])) || (t.op == "time.Until" && t.args[0] == exp)) ||
					isCallTo(t, "time.Until") && len(t.args) == 1 && t.args[0] == exp
			}
			for k := 0; k < 2; k++ {
				n, ok := constInt64(f.args[k])
				if !ok || !left(f.args[1-k]) {
					continue
				}
				if k == 0 && v && n >= 0 { // n < left
					return true
				}
				if k == 1 && !v && n >= 0 { // !(left < n)
					return true
				}
			}
		}
	}
	return false
}

// equals lists the values a is established to equal on this path.
func equals(st *St, a *Term) []*Term {
	var out []*Term
	strip := func(t *Term) *Term {
		for t.kind == KConv {
			t = t.args[0]
		}
		return t
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		x, y := (*Term)(nil), (*Term)(nil)
		switch {
		case f.kind == KBin && f.op == "==":
			x, y = f.args[0], f.args[1]
			for k := 0; k < 2; k++ {
				if n, ok := intOf(y); ok && n == 1 && x.kind == KPure && x.op == "crypto/subtle.ConstantTimeCompare" {
					x, y = strip(x.args[0]), strip(x.args[1])
					break
				}
				if n, ok := intOf(y); ok && n == 0 && x.kind == KPure && x.op == "strings.Compare" {
					x, y = x.args[0], x.args[1]
					break
				}
				x, y = y, x
			}
		case f.kind == KPure && f.op == "bytes.Equal":
			x, y = strip(f.args[0]), strip(f.args[1])
		}
		if x == a && y != nil {
			out = append(out, y)
		}
		if y == a && x != nil {
			out = append(out, x)
		}
	}
	return out
}

// stateMatched: the request's state parameter equals the value in this client's unexpired, authenticated state cookie.
func (w *webRun) stateMatched(st *St) string {
	state := w.path("Params.State")
	if !st.refuted(mkEq(state, mkStr(""))) {
		return "the state parameter may be empty"
	}
	reason := "the state parameter was not compared with the state cookie's value"
	for _, v := range equals(st, state) {
		un := findCall(v, fnBsonUnmarsh)
		if v.kind != KField || un == nil {
			continue
		}
		if !st.isNil(un) {
			reason = "the state cookie's content may not have been decoded"
			continue
		}
		dec := findOut(un.args[0], isDecode)
		if dec == nil {
			for _, s := range un.snap {
				if dec = findOut(s, isDecode); dec != nil {
					break
				}
			}
		}
		if dec == nil || len(dec.args) != 4 {
			reason = "the compared value was not decrypted and authenticated"
			continue
		}
		if !st.isNil(dec) {
			reason = "decryption of the state cookie may have failed"
			continue
		}
		ck := resultOf(derefBase(dec.args[2]), 0, fnReqCookie)
		if ck == nil || !st.isNil(extract(ck, 1)) || w.cookieOf(st, dec.args[2]) == nil {
			reason = "the decrypted value is not that of this client's cookie in the request"
			continue
		}
		if !w.ofClientName(dec.args[1]) && dec.args[1] != st.get(extract(ck, 0), "Name") {
			reason = "the state cookie is authenticated under a name not made from the client's id"
			continue
		}
		exp := siblingTime(v)
		if exp == nil || !notExpired(st, exp) {
			reason = "the state cookie's expiry was not checked"
			continue
		}
		return ""
	}
	return reason
}

// siblingTime is the time.Time field of the struct v is a field of.
func siblingTime(v *Term) *Term {
	b := v.args[0]
	if b.typ == nil {
		return nil
	}
	s, ok := b.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "time.Time" {
			return mkField(b, i)
		}
	}
	return nil
}

// derefBase: the pointer whose field t is.
func derefBase(t *Term) *Term {
	for t.kind == KField || t.kind == KDeref {
		k := t.kind
		t = t.args[0]
		if k == KDeref {
			return t
		}
	}
	return t
}

func findCall(t *Term, name string) *Term {
	var found *Term
	walk(t, func(x *Term) bool {
		if found == nil && x.kind == KCall && x.callee == name {
			found = x
		}
		return found == nil
	})
	return found
}

func findOut(t *Term, is func(string) bool) *Term {
	var found *Term
	walk(t, func(x *Term) bool {
		if found == nil && x.kind == KCall && is(x.callee) {
			found = x
		}
		return found == nil
	})
	return found
}

func mkConcat(ts []*Term) *Term {
	out := ts[0]
	for _, t := range ts[1:] {
		out = mkBin(token.ADD, out, t, types.Typ[types.String])
	}
	return out
}

func parts(t *Term) []*Term {
	if t.kind == KBin && t.op == "cat" {
		return t.args
	}
	return []*Term{t}
}

// peelURL peels the removal of suffixes off a URL: the URL itself and the constants removed.
func peelURL(t *Term) (*Term, []string) {
	var removed []string
	for {
		switch {
		case t.kind == KPure && t.op == "strings.TrimSuffix":
			s, ok := strOf(t.args[1])
			if !ok {
				return t, removed
			}
			removed = append(removed, s)
			t = t.args[0]
		case t.kind == KExtract && t.op == "0" && t.args[0].kind == KPure && t.args[0].op == "strings.CutSuffix":
			s, ok := strOf(t.args[0].args[1])
			if !ok || !strings.HasPrefix(s, "/oidc") {
				return t, removed
			}
			removed = append(removed, s)
			t = t.args[0].args[0]
		case t.kind == KSlice && len(t.args) == 2 && t.op == "010":
			// x[:len(x)-n] or x[:strings.LastIndex(x, s)]
			hi := t.args[1]
			if hi.kind == KBin && hi.op == "+" && hi.args[0] == mkLen(t.args[0]) {
				if n, ok := intOf(hi.args[1]); ok && n == -int64(len(callbackPath)) {
					removed = append(removed, callbackPath)
					t = t.args[0]
					continue
				} else if ok && n == -int64(len(logoutPath)) {
					removed = append(removed, logoutPath)
					t = t.args[0]
					continue
				}
			}
			if hi.kind == KPure && hi.op == "strings.LastIndex" && hi.args[0] == t.args[0] {
				if s, ok := strOf(hi.args[1]); ok && strings.HasPrefix(s, "/oidc") {
					removed = append(removed, s)
					t = t.args[0]
					continue
				}
			}
			return t, removed
		default:
			return t, removed
		}
	}
}

// requestedSite: t is an absolute URL on the request's scheme and host; rest is what follows.
func (w *webRun) requestedSite(t *Term) (rest []*Term, ok bool) {
	ps := parts(t)
	if len(ps) < 3 || ps[0] != w.path("Scheme") || !sameStr(ps[1], "://") || ps[2] != w.path("Host") {
		return nil, false
	}
	if len(ps) > 3 {
		p, _ := peelURL(ps[3])
		if s, isC := strOf(p); isC {
			if !strings.HasPrefix(s, "/") {
				return nil, false
			}
		} else if p != w.path("Path") {
			return nil, false
		}
	}
	return ps[3:], true
}

// callbackURL: t is the requested URL with exactly one callback segment at its end.
func (w *webRun) callbackURL(st *St, t *Term) bool {
	on, known := w.suffix(st, callbackPath)
	ps := parts(t)
	last := ps[len(ps)-1]
	whole := func(t *Term) bool { // the requested URL without the callback segment it may end with
		base, removed := peelURL(t)
		rest, ok := w.requestedSite(base)
		if !ok || len(rest) != 1 {
			return false
		}
		p, rm := peelURL(rest[0])
		cut := false
		for _, s := range append(removed, rm...) {
			if s != callbackPath {
				return false
			}
			cut = true
		}
		if v, ok := st.truth(mkPure("strings.HasSuffix", types.Typ[types.Bool], base, mkStr(callbackPath))); ok && !v {
			cut = true // there is none to remove
		}
		return p == w.path("Path") && (cut || known && !on)
	}
	if sameStr(last, callbackPath) && len(ps) > 1 {
		return whole(mkConcat(ps[:len(ps)-1]))
	}
	rest, ok := w.requestedSite(t)
	if v, k := st.truth(mkPure("strings.HasSuffix", types.Typ[types.Bool], t, mkStr(callbackPath))); k {
		on, known = v, true
	}
	return ok && len(rest) == 1 && rest[0] == w.path("Path") && known && on
}

// authorizationURL decodes a login URL: the endpoint it is built on and its parameters.
func (w *webRun) authorizationURL(st *St, loc *Term) (params map[string]*Term, why string) {
	var query, endpoint *Term
	if isCallTo(loc, "(*net/url.URL).String") && loc.kind == KPure {
		u := loc.args[0]
		if u.kind != KStruct {
			return nil, "the location is not built on a parsed endpoint"
		}
		var base *Term
		us := u.typ.Underlying().(*types.Struct)
		for i := 0; i < us.NumFields(); i++ {
			fv := mkField(u, i)
			if us.Field(i).Name() == "RawQuery" {
				query = fv
				continue
			}
			if fv.kind != KField || fv.args[0].kind != KDeref || (base != nil && base != fv.args[0].args[0]) {
				if fv.kind == KConst || fv.kind == KZero || fv.kind == KNil {
					if us.Field(i).Name() == "Fragment" || us.Field(i).Name() == "RawFragment" {
						continue
					}
				}
				return nil, "part of the parsed authorization endpoint is replaced: " + us.Field(i).Name()
			}
			base = fv.args[0].args[0]
		}
		call := resultOf(base, 0, "net/url.Parse", "net/url.ParseRequestURI")
		if call == nil || call.kind != KCall || !st.isNil(extract(call, 1)) {
			return nil, "the authorization endpoint may not have been parsed successfully"
		}
		endpoint = call.args[0]
	} else {
		ps := parts(loc)
		if len(ps) != 3 || !sameStr(ps[1], "?") {
			return nil, "the location has an unknown form"
		}
		endpoint, query = ps[0], ps[2]
	}
	if !isCallTo(endpoint, svc+"AuthorizationEndpoint") || !w.serverOf(endpoint.args[0]) {
		return nil, "the location does not start at the client's authorization endpoint"
	}
	if !st.refuted(mkEq(endpoint, mkStr(""))) {
		return nil, "the authorization endpoint may be empty"
	}
	params = map[string]*Term{}
	switch {
	case query != nil && query.kind == KPure && query.op == "(net/url.Values).Encode":
		for i := 0; i+1 < len(query.args); i += 2 {
			k, _ := strOf(query.args[i])
			v := query.args[i+1]
			if v.kind != KList || len(v.args) != 1 {
				return nil, "query parameter " + k + " has not exactly one value"
			}
			params[k] = v.args[0]
		}
	case query != nil:
		// key=QueryEscape(value)&...
		ps := parts(query)
		key := ""
		for _, p := range ps {
			if s, ok := strOf(p); ok {
				segs := strings.Split(strings.TrimPrefix(s, "&"), "&")
				for i, sg := range segs {
					k, v, has := strings.Cut(sg, "=")
					if !has {
						return nil, "the query has an unknown form"
					}
					if i == len(segs)-1 && v == "" {
						key = k
					} else {
						params[k] = mkStr(v)
					}
				}
				continue
			}
			if key == "" || p.kind != KPure || p.op != "net/url.QueryEscape" {
				return nil, "a query parameter is not escaped"
			}
			params[key] = p.args[0]
			key = ""
		}
	}
	return params, ""
}

func freshRandom(t *Term) bool {
	return derives(t, func(x *Term) bool {
		return x.kind == KCall && (strings.HasPrefix(x.callee, "crypto/rand.") || strings.HasPrefix(x.callee, "(crypto/rand") || x.callee == "github.com/gorilla/securecookie.GenerateRandomKey" || x.callee == "io.ReadFull")
	})
}

// cookieStruct: the cookie a Set-Cookie text is made from.
func cookieStruct(t *Term) *Term {
	if t != nil && t.kind == KPure && t.op == fnCookieString {
		return t.args[0]
	}
	return nil
}

// cookieLives: the browser will keep the cookie.
func cookieLives(c *Term) bool {
	exp, age := fieldOf(c, "Expires"), fieldOf(c, "MaxAge")
	if n, ok := constInt64(age); ok && n < 0 {
		return false
	} else if ok && n > 0 {
		return true
	} else if !ok {
		return false
	}
	return future(exp, false) || exp.kind == KZero || (exp.kind == KStruct && exp == mkZero(exp.typ))
}

func cookieDies(c *Term) bool {
	if n, ok := constInt64(fieldOf(c, "MaxAge")); ok && n < 0 {
		return true
	}
	exp := fieldOf(c, "Expires")
	if future(exp, true) {
		return true
	}
	// a fixed moment in the past
	return isCallTo(exp, "time.Unix", "time.Date") && len(exp.args) > 0 && func() bool { n, ok := constInt64(exp.args[0]); return ok && n < 1000000000 && n > -1 }()
}

func fieldOf(t *Term, name string) *Term { return newSt().get(t, name) }

func (p *Prog) web() *webRun {
	if webCache != nil {
		return webCache
	}
	fn := p.Method(pkgWeb, "WebStrategy", "HandleAuthnZRequest")
	if fn == nil {
		return nil
	}
	w := &webRun{fn: fn, enc: map[*Term]*Term{}, names: map[string]map[*Term]bool{}}
	recv := rootParam(fn, 0)
	w.req, w.act = rootParam(fn, 1), rootParam(fn, 2)
	w.client = initial(w.act, "Client")
	w.cache = initial(recv, "tokenCache")
	rec := func(n string) bool {
		switch n {
		case fnValidate, fnExchange, fnRefresh, fnReqCookie, fnBsonMarshal, fnBsonUnmarsh:
			return true
		}
		return isEncode(n) || isDecode(n) || strings.HasPrefix(n, "(*sync.Map).") || strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex).")
	}
	w.r = &Run{P: p, Record: rec}
	w.r.OnCall = w.onCall(p)
	w.r.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) {
		if w.sharedSession(st, addr) {
			w.ob("C04", "stored-session-immutable", ssaName(in.Parent()), p.posOf(in.Pos()), false, "writes into a session object that other requests may be using and whose tokens were accepted as they were: "+addr.String())
		}
	}
	w.outs = w.r.Root(fn, nil, p.initialState())
	w.endIsFinal()
	for _, o := range w.outs {
		w.outcome(p, o)
	}
	webCache = w
	return w
}

// sharedSession: addr lies in an object loaded from the session cache, or stored there earlier on the path.
func (w *webRun) sharedSession(st *St, addr *Term) bool {
	root := addrRoot(addr)
	if root == addr {
		return false
	}
	for _, c := range w.stores(st) {
		if unbox(c.Args[len(c.Args)-1]) == unbox(root) {
			return true
		}
	}
	for t := root; t != nil && len(t.args) > 0; t = t.args[0] {
		switch t.kind {
		case KCall:
			return isCallTo(t, "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync.Map).Swap")
		case KExtract, KAssert, KConv, KIface, KField, KDeref, KIndex:
		default:
			return false
		}
	}
	return false
}

func (w *webRun) onCall(p *Prog) func(st *St, rec *CallRec) {
	at := ssaName(w.fn)
	return func(st *St, rec *CallRec) {
		pos := p.posOf(rec.Instr.Pos())
		in := at + " → " + ssaName(rec.Fn)
		switch {
		case rec.Name == fnBsonMarshal && len(rec.Args) == 1:
			w.enc[rec.Result] = st.structOf(rec.Args[0])
		case rec.Name == fnExchange:
			why := w.stateMatched(st)
			w.ob("C09", "state-before-exchange", in, pos, why == "", "an authorization code is sent to the provider although "+why+"; path: "+st.describeFacts())
			w.ob("C09", "code-of-this-callback", in, pos, rec.Recv == w.client && len(rec.Args) == 2 && unboxConv(rec.Args[0]) == w.path("Params.Code"), "the code exchanged is not this request's code, or not at the policy's own client")
			w.ob("C10", "exchange-redirect-uri", in, pos, w.callbackURL(st, rec.Args[1]), "the redirect URI sent with the code is not the callback under the requested URL, by which the code was requested")
		case rec.Name == fnRefresh:
			w.onRefresh(st, rec, in, pos)
		case isSecretCreate(rec.Name):
			w.generatedKeys(st, rec, in, pos)
		case isSessionDelete(rec.Name):
			w.onSessionEnd(st, rec)
		case w.isStore(st, rec):
			w.onSessionStore(st, rec, in, pos)
		case rec.Name == fnValidate && len(rec.Args) == 5:
			ok := w.keySet(rec.Args[2]) && rec.Args[3] == initial(w.act, "Rules") && w.userInfo(rec.Args[4])
			w.ob("C03", "validation-inputs", in, pos, ok, "a token is validated with something other than the client's key set, the policy's rules and the client's user-info endpoint")
		}
	}
}

func unboxConv(t *Term) *Term {
	t = unbox(t)
	for t.kind == KConv || t.kind == KAssert {
		t = unbox(t.args[0])
	}
	return t
}

func (w *webRun) onRefresh(st *St, rec *CallRec, in, pos string) {
	owner := (*session)(nil)
	if len(rec.Args) == 1 {
		owner = w.ownerOf(st, rec.Args[0], "RefreshToken")
	}
	w.ob("C13", "own-refresh-token", in, pos, owner != nil && owner.kind == "loaded" && rec.Recv == w.client, "a refresh is attempted with something other than the refresh token of the session named by the request's cookie")
	if len(rec.Args) == 1 {
		w.ob("C13", "non-empty-refresh-token", in, pos, st.refuted(mkEq(rec.Args[0], mkStr(""))), "a refresh is attempted although the session's refresh token may be empty")
	}
	expired := false
	if owner != nil {
		for _, v := range st.calls(names(fnValidate)) {
			if w.rejectedAsExpired(st, v, owner) {
				expired = true
			}
		}
	}
	w.ob("C13", "refresh-only-when-expired", in, pos, expired, "a refresh is attempted although no token of the session was rejected as expired; path: "+st.describeFacts())
}

func (w *webRun) rejectedAsExpired(st *St, v *CallRec, s *session) bool {
	if len(v.Args) != 5 || !w.tokenOf(st, v.Args[0], s) || !st.isNonNil(v.Result) {
		return false
	}
	msg := st.get(v.Result, "Msg")
	return msg != nil && st.holds(mkEq(msg, mkStr("Token is expired")))
}

func (w *webRun) tokenOf(st *St, t *Term, s *session) bool {
	return t == st.get(s.term, "AccessToken") || t == st.get(s.term, "IdentityToken")
}

func (w *webRun) onSessionStore(st *St, rec *CallRec, in, pos string) {
	n := len(rec.Args)
	if n < 2 {
		return
	}
	s := w.sessionOf(st, rec.Args[n-1])
	if !w.ob("C04", "stored-value-is-token-response", in, pos, s != nil && s.kind != "loaded", "something other than the answer of a successful code exchange or refresh of this client is stored as a session") {
		return
	}
	a, i := w.fullyValidated(st, s)
	w.ob("C04", "access-token-validated-before-store", in, pos, a, "a session is stored before its access token was accepted; path: "+st.describeFacts())
	w.ob("C04", "id-token-validated-before-store", in, pos, i, "a session is stored before its ID token was accepted; path: "+st.describeFacts())
	w.onRenewable(st, s, in, pos)
	key := unbox(rec.Args[0])
	if s.kind == "refreshed" {
		w.onReplace(st, rec, s, in, pos)
		w.ob("C04", "session-identifier", in, pos, key == s.id, "a refreshed session is not stored under the identifier of the session it replaces")
	} else {
		foreign := derives(key, func(t *Term) bool { return t == w.req || t == s.term })
		w.ob("C04", "session-identifier", in, pos, freshRandom(key) && !foreign, "a new session is stored under an identifier that is not freshly generated")
		why := unpredictable(st, key)
		w.ob("C11", "session-identifier-random", in, pos, why == "", "a new session's identifier is predictable: "+why)
	}
}

func (w *webRun) role(r string, n *Term) {
	if w.names[r] == nil {
		w.names[r] = map[*Term]bool{}
	}
	w.names[r][n] = true
}

func (w *webRun) outcome(p *Prog, o Outcome) {
	st := o.st
	at := ssaName(w.fn)
	pos := p.posOf(o.ret.Pos())
	rp := decodeReply(o)
	facts := "; path: " + st.describeFacts()
	logout, kl := w.suffix(st, logoutPath)
	callback, kc := w.suffix(st, callbackPath)

	w.ob("C30", "answered", at, pos, rp.kind != "nil", "no answer is produced"+facts)
	w.ob("C12", "logout-recognised", at, pos, kl || (kc && callback), "the request may be a logout that was not recognised"+facts)
	isLogout := kl && logout
	if rp.kind == "allow" {
		w.ob("C03", "no-admission-on-callback-or-logout", at, pos, kl && !logout && kc && !callback, "a login callback or logout may be answered with an admission"+facts)
		w.ob("C30", "denial-status", at, pos, rp.auth != nil && !sameStr(rp.auth, "") && rp.auth.kind != KZero, "an answer that admits no session carries an OK status")
		w.admission(st, rp, at, pos, facts)
	}
	if rp.kind == "deny" {
		w.ob("C30", "denial-status", at, pos, rp.code != 0, "")
	}
	// logout
	if isLogout {
		w.ob("C12", "logout-is-denial", at, pos, rp.kind == "deny", "a logout is not answered with a denial-type redirect"+facts)
		w.logout(st, rp, at, pos, facts)
	}
	// stores: the cookie sent back names the stored session
	for _, c := range w.stores(st) {
		key := unbox(c.Args[0])
		var ck *Term
		if rp.kind == "allow" {
			ck = cookieStruct(rp.cookie)
			if empty := rp.cookie; ck == nil && (empty == nil || sameStr(empty, "") || empty.kind == KZero) {
				// an answer that carries the cookie's text whenever it has one
				for f, v := range st.facts {
					if !v || f.kind != KBin || f.op != "==" {
						continue
					}
					for i := 0; i < 2; i++ {
						if sameStr(f.args[i], "") && cookieStruct(f.args[1-i]) != nil {
							ck = cookieStruct(f.args[1-i])
						}
					}
				}
			}
		} else if rp.kind == "deny" {
			h, _ := rp.header(st, "Set-Cookie")
			ck = cookieStruct(h)
		}
		ok := ck != nil && fieldOf(ck, "Value") == key && w.ofClientName(fieldOf(ck, "Name")) && cookieLives(ck)
		if ck != nil {
			why := voidName(fieldOf(ck, "Name"))
			w.ob("C10", "cookie-name-valid", at, pos, why == "", "the session cookie may not be a cookie any browser gets or returns: "+why+facts)
		}
		w.ob("C04", "cookie-names-stored-session", at, pos, ok, "a session is stored but the answer carries no live cookie of this client with its identifier"+facts)
		if ck != nil {
			w.role("session", fieldOf(ck, "Name"))
		}
	}
	// rejected sessions
	w.rejected(st, rp, at, pos, facts)
	w.renewed(st, rp, at, pos, facts)
	// redirects
	if rp.kind == "deny" && rp.http != nil {
		loc, known := rp.header(st, "location")
		if !known {
			w.ob("C32", "redirect-target", at, pos, false, "the redirect's headers are not known")
			return
		}
		if loc != nil {
			n, ok := st.constInt(rp.httpCode)
			w.ob("C30", "redirect-status", at, pos, ok && n == 302, "a redirect does not use HTTP 302")
			w.redirect(st, rp, loc, at, pos, facts, isLogout, kc && callback)
		}
	}
}

func (w *webRun) admission(st *St, rp *reply, at, pos, facts string) {
	ps := []*Term{}
	if rp.auth != nil {
		ps = parts(rp.auth)
	}
	if !w.ob("C03", "forwarded-header", at, pos, len(ps) == 4 && sameStr(ps[0], "Bearer ") && sameStr(ps[2], " "), "the value handed to the service is not 'Bearer <access token> <ID token>'"+facts) {
		return
	}
	s := w.ownerOf(st, ps[1], "AccessToken")
	if !w.ob("C03", "session-of-cookie", at, pos, s != nil && s.kind != "exchanged", "admitted with a token that is not the access token of the session named by this client's cookie, or of that session's refresh"+facts) {
		return
	}
	w.ob("C03", "forwarded-id-token", at, pos, ps[3] == st.get(s.term, "IdentityToken"), "the ID token handed to the service is not that of the same session"+facts)
	a, i := w.fullyValidated(st, s)
	w.ob("C03", "access-token-validated", at, pos, a, "admitted although the session's access token was not accepted by validation while handling this request"+facts)
	w.ob("C03", "id-token-validated", at, pos, i, "admitted although the session's ID token was not accepted by validation while handling this request"+facts)
	if s.kind == "refreshed" {
		stored := false
		for _, c := range w.stores(st) {
			stored = stored || unbox(c.Args[len(c.Args)-1]) == s.term
		}
		w.ob("C04", "refresh-replaces-session", at, pos, stored, "a refreshed session is used without replacing the stored one"+facts)
	}
	for _, c := range st.calls(names(fnReqCookie)) {
		w.role("session", c.Args[0])
	}
}

func (w *webRun) logout(st *St, rp *reply, at, pos, facts string) {
	found := false
	for _, c := range st.calls(names(fnReqCookie)) {
		if !w.requestCookie(c) {
			continue
		}
		found = true
		w.role("session", c.Args[0])
		if st.isNonNil(extract(c.Result, 1)) {
			w.ob("C12", "logout-removes-session", at, pos, true, "")
			continue
		}
		id := st.get(extract(c.Result, 0), "Value")
		del := false
		for _, d := range st.calls(isSessionDelete) {
			del = del || (d.Recv == w.cache && unbox(d.Args[0]) == id)
		}
		w.ob("C12", "logout-removes-session", at, pos, del, "a logout request with a session cookie does not remove that session"+facts)
	}
	w.ob("C12", "logout-reads-session-cookie", at, pos, found, "a logout does not look for this client's session cookie"+facts)
	if rp.kind == "deny" {
		h, _ := rp.header(st, "Set-Cookie")
		ck := cookieStruct(h)
		ok := ck != nil && w.ofClientName(fieldOf(ck, "Name")) && cookieDies(ck) && sameStr(fieldOf(ck, "Path"), "/")
		if ck != nil {
			why := voidName(fieldOf(ck, "Name"))
			w.ob("C10", "cookie-name-valid", at, pos, why == "", "the cookie that ends the session may be rendered as nothing: "+why+facts)
		}
		w.ob("C12", "logout-drops-cookie", at, pos, ok, "a logout does not tell the browser to drop the session cookie"+facts)
		if ck != nil {
			w.role("session", fieldOf(ck, "Name"))
		}
		loc, _ := rp.header(st, "location")
		w.ob("C12", "logout-redirects", at, pos, loc != nil, "a logout is not answered with a redirect"+facts)
	}
	started := st.calls(func(n string) bool {
		return n == fnValidate || n == fnExchange || n == fnRefresh
	})
	started = append(started, w.stores(st)...)
	w.ob("C12", "logout-starts-nothing", at, pos, len(started) == 0, "a logout starts a token validation, refresh, code exchange or session"+facts)
}

func (w *webRun) rejected(st *St, rp *reply, at, pos, facts string) {
	for _, v := range st.calls(names(fnValidate)) {
		if len(v.Args) != 5 || st.isNil(v.Result) {
			continue
		}
		s := w.ownerOf(st, v.Args[0], "AccessToken")
		if s == nil {
			s = w.ownerOf(st, v.Args[0], "IdentityToken")
		}
		if s == nil || s.kind != "loaded" {
			continue
		}
		if msg := st.get(v.Result, "Msg"); msg == nil || !st.refuted(mkEq(msg, mkStr(expiryText))) {
			empty := st.holds(mkEq(st.get(s.term, "RefreshToken"), mkStr("")))
			tried := len(st.calls(names(fnRefresh))) > 0
			w.ob("C39", "expired-session-refreshed", at, pos, empty || tried, "a session that may be expired and has a refresh token is not refreshed"+facts)
		}
		if w.rejectedAsExpired(st, v, s) {
			// with a refresh token: refresh; without: new login
			empty := st.holds(mkEq(st.get(s.term, "RefreshToken"), mkStr("")))
			tried := len(st.calls(names(fnRefresh))) > 0
			w.ob("C13", "expired-session-refreshed", at, pos, empty || tried, "an expired session with a refresh token is not refreshed"+facts)
			continue
		}
		del := false
		for _, d := range st.calls(isSessionDelete) {
			del = del || (d.Recv == w.cache && unbox(d.Args[0]) == s.id)
		}
		w.ob("C13", "rejected-session-dropped", at, pos, del, "a session whose token was rejected for a reason other than expiry stays stored"+facts)
		w.ob("C13", "rejected-session-logs-in-again", at, pos, rp.kind != "allow", "a session whose token was rejected is admitted"+facts)
	}
}

func (w *webRun) redirect(st *St, rp *reply, loc *Term, at, pos, facts string, isLogout, isCallback bool) {
	if derives(loc, func(t *Term) bool { return isCallTo(t, svc+"AuthorizationEndpoint") }) {
		w.ob("C32", "redirect-target", at, pos, true, "")
		w.login(st, rp, loc, at, pos, facts)
		return
	}
	base, removed := peelURL(loc)
	if base == initial(w.act, "RedirectUri") {
		w.ob("C32", "redirect-target", at, pos, st.refuted(mkEq(base, mkStr(""))), "the policy's redirect URI may be empty"+facts)
		w.ob("C32", "policy-uri-after-login-only", at, pos, isCallback && len(w.stores(st)) > 0, "")
		return
	}
	rest, ok := w.requestedSite(base)
	if ok && (len(rest) != 1 || rest[0] != w.path("Path")) {
		page := false
		if len(rest) == 1 {
			p, _ := peelURL(rest[0])
			page = p == w.path("Path")
		}
		w.ob("C32", "page-of-request", at, pos, page, "a redirect back to the requested site leads to "+loc.String()+" instead of the requested page"+facts)
	}
	w.ob("C32", "redirect-target", at, pos, ok, "a redirect leads to "+loc.String()+", which is not the provider, the policy's URI or a URL on the requested scheme and host"+facts)
	if !ok {
		return
	}
	for _, q := range rest {
		if q != w.path("Path") {
			b, rm := peelURL(q)
			removed = append(removed, rm...)
			_ = b
		}
	}
	want := callbackPath
	if isLogout {
		want = logoutPath
	}
	has := false
	for _, s := range removed {
		has = has || s == want
	}
	w.ob("C32", "own-segment-removed", at, pos, has, "a redirect back to the requested site keeps the adapter's own "+want+" segment"+facts)
	// after a login, the policy's own redirect URI takes precedence
	if isCallback {
		w.ob("C32", "policy-uri-honoured", at, pos, st.holds(mkEq(initial(w.act, "RedirectUri"), mkStr(""))), "the policy's redirect URI is not used after login"+facts)
	}
}

func (w *webRun) login(st *St, rp *reply, loc *Term, at, pos, facts string) {
	ob := func(rule string, ok bool, why string) bool { return w.ob("C10", rule, at, pos, ok, why+facts) }
	params, why := w.authorizationURL(st, loc)
	if !ob("login-url", why == "", why) {
		return
	}
	ob("login-client-id", w.ofClient(params["client_id"], fnClientID), "client_id is not the client's id")
	ob("login-scope", w.ofClient(params["scope"], fnClientScope), "scope is not the client's scope")
	ob("login-response-type", params["response_type"] != nil && sameStr(params["response_type"], "code"), "response_type is not code")
	ruri := params["redirect_uri"]
	okURI := ruri != nil && w.callbackURL(st, ruri)
	ob("login-redirect-uri", okURI, "redirect_uri is not the callback under the requested URL")
	state := params["state"]
	if !ob("login-state", state != nil && state.kind != KConst, "the authorization URL carries no state") {
		return
	}
	foreign := derives(state, func(t *Term) bool { return t == w.req || t == w.act })
	ob("login-state-fresh", freshRandom(state) && !foreign, "the state is not freshly generated from the cryptographic random source")
	why = unpredictable(st, state)
	w.ob("C11", "login-state-random", at, pos, why == "", "the login state is predictable: "+why)
	// the cookie
	h, _ := rp.header(st, "Set-Cookie")
	ck := cookieStruct(h)
	if !ob("login-cookie", ck != nil, "no state cookie is sent with the login redirect") {
		return
	}
	ob("login-cookie-name", w.ofClientName(fieldOf(ck, "Name")), "the state cookie's name is not made from the client's id")
	void := voidName(fieldOf(ck, "Name"))
	ob("cookie-name-valid", void == "", "the state cookie may be rendered as nothing, so that the browser never gets the state: "+void)
	ob("login-cookie-lives", cookieLives(ck) && sameStr(fieldOf(ck, "Path"), "/"), "the state cookie is not kept by the browser for the callback")
	val := fieldOf(ck, "Value")
	var enc *Term
	if val.kind == KExtract && val.op == "0" && val.args[0].kind == KCall && isEncode(val.args[0].callee) {
		enc = val.args[0]
	}
	if !ob("login-cookie-encrypted", enc != nil && st.isNil(extract(enc, 1)), "the state cookie's value is not the successful result of encryption") {
		return
	}
	ob("login-cookie-bound-to-name", len(enc.args) == 3 && enc.args[1] == fieldOf(ck, "Name"), "the state is encrypted for another cookie name")
	m := resultOf(unbox(enc.args[2]), 0, fnBsonMarshal)
	if !ob("login-cookie-content", m != nil && m.kind == KCall && st.isNil(extract(m, 1)) && w.enc[m] != nil, "the encrypted content is not the encoded state") {
		return
	}
	body := w.enc[m]
	var v, exp *Term
	if s, ok := body.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if typeName(s.Field(i).Type()) == "time.Time" {
				exp = mkField(body, i)
			} else if mkField(body, i) == state {
				v = state
			}
		}
	}
	ob("login-same-state", v == state, "the state in the cookie is not the state in the authorization URL")
	ob("login-state-expiry", future(exp, false), "the state's expiry does not lie in the future")
	w.role("session", fieldOf(ck, "Name"))
}

// web replays the obligations of one property.
func (c *Check) web(min map[string]int) {
	w := c.P.web()
	if !c.need(w != nil, "(*WebStrategy).HandleAuthnZRequest") {
		return
	}
	for _, o := range w.obs {
		if o.prop == c.ID {
			c.ob(o.rule, o.at, o.pos, o.ok, "%s", o.detail)
		}
	}
	c.account(w.r, w.fn, len(w.outs))
	for rule, n := range min {
		c.atLeast(rule, n)
	}
}

func init() {
	reg := func(id, ex string, min map[string]int, more ...func(*Check)) {
		checks[id] = func(c *Check) {
			c.web(min)
			for _, f := range more {
				f(c)
			}
		}
		explain[id] = "Path-sensitive interprocedural dataflow from (*WebStrategy).HandleAuthnZRequest through every helper and closure. " + ex
	}
	reg("C03", "Every abstract path that returns an admission must have refuted the callback and logout suffixes, loaded the session under the value of the client's cookie (or refreshed that session), established a nil validation error for exactly the access and ID tokens concatenated into the Authorization output, with the client's key set, user-info endpoint and the policy's rules.",
		map[string]int{"access-token-validated": 2, "id-token-validated": 2, "validation-inputs": 6, "no-admission-on-callback-or-logout": 2})
	reg("C04", "At every store into the session cache the state must show both tokens of the stored response validated; every path on which a store happened must answer with a cookie carrying the store's key; no store may write into an object loaded from the cache.",
		map[string]int{"access-token-validated-before-store": 2, "cookie-names-stored-session": 2}, func(c *Check) { c.sessionStoresVisited() })
	reg("C09", "At every call of Client.ExchangeGrantCode the state must hold: state parameter non-empty and equal to the field decoded from the decrypted cookie found in the request under the client's name, with nil decode errors and an expiry check.",
		map[string]int{"state-before-exchange": 1, "code-of-this-callback": 1}, func(c *Check) { c.exchangeCallers() })
	reg("C10", "Every returned redirect that mentions the authorization endpoint is decomposed symbolically into endpoint, query parameters and cookie; the state in the URL must be the very value encoded in the encrypted cookie, whose expiry is time.Now plus a positive constant.",
		map[string]int{"login-same-state": 1, "login-url": 1, "login-state-expiry": 1})
	reg("C12", "Every path on which the logout suffix holds must look up the client's cookie, delete the session it names, answer with a denial redirect and an expired cookie of the same name, and contain no validation, refresh or exchange; every other path must have refuted the suffix.",
		map[string]int{"logout-removes-session": 2, "logout-drops-cookie": 2, "ended-session-stays-ended": 1}, func(c *Check) { c.cookieNames() })
	reg("C13", "For every path on which a validation of a loaded session's token may have failed: either the message was established to be the expiry message (then refresh with that session's own non-empty refresh token, or re-login), or the session was deleted; refresh calls are examined where they happen.",
		map[string]int{"rejected-session-dropped": 2, "refresh-only-when-expired": 1})
	reg("C11", "The identifier of every stored new session and the state of every login redirect are decomposed symbolically into characters; each must be computed from a draw of its own from crypto/rand whose error was nil, and there must be at least ten. Keys put into a generated key secret must be random too.",
		map[string]int{"session-identifier-random": 1, "login-state-random": 1, "generated-key-random": 2})
	reg("C30", "Every abstract path of the OIDC strategy and of the API strategy that does not admit must answer with a constant non-OK status; redirects use 302; the API refusal's HTTP status is evaluated for each error code and its challenge decomposed.",
		map[string]int{"denial-status": 6, "redirect-status": 3}, func(c *Check) { c.apiDenials(); c.statusMapping() })
	reg("C32", "The location header of every returned redirect is decomposed: authorization endpoint of the client's server, the policy's redirect URI, or the request's scheme://host with the path appended and the adapter's own segment removed.",
		map[string]int{"redirect-target": 3, "own-segment-removed": 2, "policy-uri-honoured": 1}, func(c *Check) { c.apiNoRedirect() })
}

// sessionStoresVisited: every store into a sync.Map in the package was seen by the analysis.
func (c *Check) sessionStoresVisited() {
	w := c.P.web()
	for _, fn := range c.P.Fns {
		if short(fnPkgPath(fn)) != pkgWeb {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				o, ok := ci.Common().StaticCallee().Object().(*types.Func)
				if !ok || !isSessionStore(funcName(o)) {
					continue
				}
				args := ci.Common().Args
				if mi, ok := args[len(args)-1].(*ssa.MakeInterface); ok {
					if pt, ok := mi.X.Type().(*types.Pointer); !ok || typeName(pt.Elem()) != typeName(c.P.Type("adapter/authserver", "TokenResponse")) {
						continue // not a session
					}
				}
				c.ob("session-store-analysed", ssaName(fn), c.P.posOf(in.Pos()), w.r.FnSeen[fn], "a session is stored outside the request handling that was analysed")
			}
		}
	}
	c.atLeast("session-store-analysed", 1)
}

// exchangeCallers: codes are exchanged only where the analysis looked.
func (c *Check) exchangeCallers() {
	w := c.P.web()
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() {
					continue
				}
				if n := funcName(ci.Common().Method); n != fnExchange {
					continue
				}
				c.ob("exchange-analysed", ssaName(fn), c.P.posOf(in.Pos()), w.r.FnSeen[fn], "an authorization code is exchanged outside the request handling that was analysed")
			}
		}
	}
	c.atLeast("exchange-analysed", 1)
}

// cookieNames: sessions are read, set and dropped under one name.
func (c *Check) cookieNames() {
	w := c.P.web()
	var ns []*Term
	for n := range w.names["session"] {
		ns = append(ns, n)
	}
	var d []string
	for _, n := range ns {
		d = append(d, n.String())
	}
	c.ob("one-session-cookie-name", ssaName(w.fn), c.P.posOf(w.fn.Pos()), len(ns) == 1, "the session cookie is read, set and dropped under different names: %s", strings.Join(d, ", "))
}
