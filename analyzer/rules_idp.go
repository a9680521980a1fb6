package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19, C20, C21: the exchange with identity providers.

const (
	fnDecode    = "(*encoding/json.Decoder).Decode"
	fnUnmarshal = "encoding/json.Unmarshal"
	fnBasicAuth = "(*net/http.Request).SetBasicAuth"
)

// idpTags: what must be present in a decoded answer.
var idpTags = []string{"issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint", "keys", "access_token"}

// endpointTag: the discovery entry behind each endpoint method.
var endpointTag = map[string]string{
	"JwksEndpoint":          "jwks_uri",
	"TokenEndpoint":         "token_endpoint",
	"AuthorizationEndpoint": "authorization_endpoint",
	"UserInfoEndpoint":      "userinfo_endpoint",
}

func isExchange(n string) bool {
	switch n {
	case fnHTTPDo, "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head", "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head":
		return true
	}
	return false
}

func isShared(n string) bool { return strings.HasSuffix(n, "singleflight.Group).Do(shared)") }

func isJSONDecode(n string) bool { return n == fnDecode || n == fnUnmarshal }

// decodeParts: source and target of a recorded decoding.
func decodeParts(rec *CallRec) (src, dst *Term) {
	switch {
	case rec.Name == fnDecode && len(rec.Args) == 1:
		return rec.Recv, unboxConv(rec.Args[0])
	case rec.Name == fnUnmarshal && len(rec.Args) == 2:
		return rec.Args[0], unboxConv(rec.Args[1])
	}
	return nil, nil
}

// request describes the request of a recorded exchange.
func (s *St) request(do *CallRec) (method string, url, body, req *Term) {
	if do.Name != fnHTTPDo {
		n := do.Name[strings.LastIndex(do.Name, ".")+1:]
		if len(do.Args) > 0 {
			url = do.Args[0]
		}
		if n == "Get" {
			method = "GET"
		}
		if n == "Post" || n == "PostForm" {
			method = "POST"
			body = do.Args[len(do.Args)-1]
		}
		return
	}
	req = do.Args[0]
	if s.reshaped(req) != "" {
		return "", nil, nil, req
	}
	x := req
	if x.kind != KExtract {
		return "", nil, nil, req
	}
	x = x.args[0]
	a := x.args
	switch {
	case isCallTo(x, "net/http.NewRequest") && len(a) == 3:
	case isCallTo(x, "net/http.NewRequestWithContext") && len(a) == 4:
		a = a[1:]
	default:
		return "", nil, nil, req
	}
	method, _ = strOf(a[0])
	return method, a[1], a[2], req
}

// reshaped: what of a request, other than its headers, was written after it was built ("" if nothing).
func (s *St) reshaped(req *Term) string {
	for a := range s.writes {
		last := ""
		x := a
	chain:
		for x != req {
			switch x.kind {
			case KFieldAddr:
				if n, err := strconv.Atoi(x.op); err == nil && x.args[0].typ != nil {
					last = fieldName(x.args[0].typ, n)
				} else {
					last = x.op
				}
				x = x.args[0]
			case KField:
				last = x.op
				if n, err := strconv.Atoi(x.op); err == nil {
					last = fieldName(x.args[0].typ, n)
				}
				x = x.args[0]
			case KIndexAddr, KMapAddr, KSliceOf, KDeref:
				x = x.args[0]
			default:
				break chain
			}
		}
		if x != req {
			continue
		}
		switch last {
		case "Header", "Trailer", "Close", "ContentLength", "GetBody", "TransferEncoding":
			continue
		}
		if last == "" {
			last = "content"
		}
		return last
	}
	return ""
}

// tagged lists the fields of struct type t (through embedded and nested structs) by JSON name.
func tagged(t types.Type, path string, out map[string]string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || strings.Count(path, ".") > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := f.Name()
		if path != "" {
			p = path + "." + p
		}
		if tag := reflect.StructTag(s.Tag(i)).Get("json"); tag != "" && tag != "-" {
			out[strings.Split(tag, ",")[0]] = p
			continue
		}
		x := f.Type()
		if pt, ok := x.(*types.Pointer); ok {
			x = pt.Elem()
		}
		if n, ok := x.(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				tagged(f.Type(), p, out)
			}
		}
	}
}

func tagsOf(t types.Type) map[string]string {
	out := map[string]string{}
	if t != nil {
		tagged(t, "", out)
	}
	return out
}

// answer is an accepted answer of an identity provider.
type answer struct {
	do  *CallRec
	obj *Term
	why string
}

// answers lists the exchanges whose transport, status and decoding the path has found good.
func (s *St) answers() (out []answer, last string) {
	last = "no request was answered"
	recs := s.calls(func(n string) bool { return isExchange(n) || isJSONDecode(n) })
	for i, do := range recs {
		if !isExchange(do.Name) {
			continue
		}
		resp := extract(do.Result, 0)
		if !s.isNil(extract(do.Result, 1)) {
			last = "the request may have failed"
			continue
		}
		code := s.get(resp, "StatusCode")
		if code == nil || !s.holds(mkEq(code, mkInt(200))) {
			last = "the answer's status may differ from 200"
			continue
		}
		last = "the answer was not decoded successfully"
		for _, d := range recs[i+1:] {
			if !isJSONDecode(d.Name) {
				continue
			}
			src, dst := decodeParts(d)
			if src == nil || dst == nil || !contains(src, func(t *Term) bool { return t == do.Result }) {
				continue
			}
			if !s.isNil(d.Result) {
				continue
			}
			why := ""
			n := 0
			tags := tagsOf(dst.typ)
			for _, tag := range idpTags {
				p, ok := tags[tag]
				if !ok {
					continue
				}
				n++
				v := s.get(dst, p)
				present := v != nil && (isStringTyped(v) && s.refuted(mkEq(v, mkStr(""))) || !isStringTyped(v) && s.isNonNil(v))
				if !present {
					why = "`" + tag + "` may be missing in the answer"
				}
			}
			if n == 0 {
				why = "nothing in the decoded object is known to be required"
			}
			if why != "" {
				last = why
				continue
			}
			out = append(out, answer{do: do, obj: dst})
		}
	}
	return
}

func (c *Check) idpTypes() (out []types.Type) {
	out = append(c.implsIn(pkgAuth, "AuthorizationServerService"), c.implsIn(pkgKeyset, "KeySet")...)
	return
}

// isService: memory of an object that stands for an identity provider.
func serviceRoot(svc map[string]bool, addr *Term, recv *Term) bool {
	root := addrRoot(addr)
	if root == recv {
		return true
	}
	return root.kind == KAlloc && svc[typeName(pointerTo(root))]
}

func (c *Check) serviceNames() map[string]bool {
	svc := map[string]bool{}
	for _, t := range c.idpTypes() {
		svc[strings.TrimPrefix(typeName(t), "*")] = true
	}
	return svc
}

// guardType: locks, call groups, counters and times carry no adopted data.
func guardType(t types.Type) bool {
	if t == nil {
		return false
	}
	n := typeName(t)
	if strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.Contains(n, "singleflight.") || n == "time.Time" || n == "time.Duration" {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isKeySetType(t types.Type) bool {
	return t != nil && strings.HasSuffix(typeName(t), "adapter/authserver/keyset.KeySet")
}

type idpRun struct {
	typ  types.Type
	name string
	fn   *ssa.Function
	recv *Term
	r    *Run
	outs []Outcome
}

func idpEvents(n string) bool {
	return isExchange(n) || isJSONDecode(n) || isShared(n) || n == fnBasicAuth || n == "net/http.NewRequest" || n == "(*sync.Once).Do"
}

// idpRuns analyses every operation of every identity-provider object.
func (c *Check) idpRuns(hook func(*idpRun, *Run)) (out []*idpRun) {
	for _, t := range c.idpTypes() {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if !m.Exported() {
				continue
			}
			fn := c.P.methodOf(t, m.Name())
			if fn == nil || len(fn.Params) == 0 || !c.P.handwritten(fn) {
				continue
			}
			x := &idpRun{typ: t, name: m.Name(), fn: fn, recv: rootParam(fn, 0)}
			x.r = &Run{P: c.P, Record: idpEvents}
			if hook != nil {
				hook(x, x.r)
			}
			x.outs = c.run(x.r, fn, nil, nil)
			out = append(out, x)
		}
	}
	for _, pkg := range []string{pkgAuth, pkgKeyset} {
		fn := c.P.Func(pkg, "New")
		if !c.need(fn != nil, pkg+".New") {
			continue
		}
		x := &idpRun{name: "New", fn: fn}
		x.r = &Run{P: c.P, Record: idpEvents}
		if hook != nil {
			hook(x, x.r)
		}
		x.outs = c.run(x.r, fn, nil, nil)
		out = append(out, x)
	}
	return
}

// C19
func (c *Check) adoption() {
	svc := c.serviceNames()
	runs := c.idpRuns(func(x *idpRun, r *Run) {
		judge := func(st *St, addr, val *Term, in ssa.Instruction, typ types.Type) {
			if !serviceRoot(svc, addr, x.recv) || guardType(typ) {
				return
			}
			// an object under construction is not shared yet
			if addrRoot(addr) != x.recv && (x.recv != nil || len(st.calls(func(n string) bool { return isExchange(n) || isShared(n) })) == 0) {
				return
			}
			if isKeySetType(typ) || st.load(addr) == val {
				return
			}
			as, why := st.answers()
			c.ob("adopted-only-if-valid", ssaName(in.Parent()), c.P.posOf(in.Pos()), len(as) > 0, "%s takes over %v although %s; path: %s", ssaName(x.fn), val, why, st.describeFacts())
		}
		r.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) { judge(st, addr, val, in, pointee(addr)) }
		r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
			for a, b := range st.heap {
				if b == m && serviceRoot(svc, a, x.recv) {
					judge(st, a, v, in, nil)
					return
				}
			}
			if m.typ != nil && (strings.HasSuffix(m.typ.String(), "net/http.Header") || strings.HasSuffix(m.typ.String(), "net/url.Values")) {
				return // part of a message
			}
			if x.recv != nil && derives(m, func(t *Term) bool { return t == x.recv }) {
				c.ob("adopted-only-if-valid", ssaName(in.Parent()), c.P.posOf(in.Pos()), false, "%s changes the adopted table %v in place", ssaName(x.fn), m)
			}
		}
		r.OnCall = func(st *St, rec *CallRec) {
			if rec.Name == "builtin.delete" && len(rec.Args) > 0 && x.recv != nil && derives(rec.Args[0], func(t *Term) bool { return t == x.recv }) {
				c.ob("adopted-only-if-valid", ssaName(rec.Fn), c.P.posOf(rec.Pos()), false, "%s removes entries of the adopted table in place", ssaName(x.fn))
			}
			if !isJSONDecode(rec.Name) {
				return
			}
			_, dst := decodeParts(rec)
			if dst == nil {
				c.ob("decoded-apart", ssaName(rec.Fn), c.P.posOf(rec.Pos()), false, "the target of the decoding is unknown")
				return
			}
			root := addrRoot(dst)
			fresh := root.kind == KAlloc && !serviceRoot(svc, dst, x.recv)
			c.ob("decoded-apart", ssaName(rec.Fn), c.P.posOf(rec.Pos()), fresh, "%s decodes an answer directly into %v, which other requests can see", ssaName(x.fn), dst)
		}
	})
	for _, x := range runs {
		at := ssaName(x.fn)
		tags := map[string]string{}
		if x.typ != nil {
			tags = tagsOf(x.typ)
		}
		for _, o := range x.outs {
			pos := c.P.posOf(o.ret.Pos())
			as, why := o.st.answers()
			switch {
			case x.recv == nil:
				continue
			case strings.HasSuffix(at, ".GetTokens"):
				c.tokensReturned(x, o, as, why)
				continue
			}
			// what is in force afterwards
			shared := len(o.st.calls(isShared)) > 0
			for _, tag := range idpTags {
				p, ok := tags[tag]
				if !ok {
					continue
				}
				now, before := o.st.get(x.recv, p), initial(x.recv, p)
				good := now == before || shared && now != nil && contains(now, func(t *Term) bool { return t.op == "shared" })
				for _, a := range as {
					if q, ok := tagsOf(a.obj.typ)[tag]; ok && o.st.get(a.obj, q) == now {
						good = true
					}
				}
				c.ob("in-force-as-published", at+" "+tag, pos, good, "%s leaves %v in force as %s; path: %s", at, now, tag, o.st.describeFacts())
			}
			// a valid answer is taken over as a whole
			for _, a := range as {
				for tag, q := range tagsOf(a.obj.typ) {
					p, ok := tags[tag]
					if !ok {
						continue
					}
					c.ob("adopted-completely", at+" "+tag, pos, o.st.get(x.recv, p) == o.st.get(a.obj, q), "%s was answered validly but does not take over %s", at, tag)
				}
			}
		}
	}
	c.keysReplaced()
	c.atLeast("adopted-only-if-valid", 2)
	c.atLeast("decoded-apart", 3)
	c.atLeast("in-force-as-published", 8)
	c.atLeast("adopted-completely", 4)
	c.atLeast("tokens-from-valid-answer", 1)
	c.atLeast("keys-replaced", 1)
	c.atLeast("every-usable-key", 1)
	c.Assume = append(c.Assume, "encoding/json decodes as documented; net/http reports the status it received")
}

func (c *Check) tokensReturned(x *idpRun, o Outcome, as []answer, why string) {
	at, pos := ssaName(x.fn), c.P.posOf(o.ret.Pos())
	res, err := unboxConv(o.res[0]), o.res[1]
	if o.st.isNonNil(err) || isErrorValue(err) {
		c.ob("no-tokens-with-error", at, pos, o.st.isNil(res), "tokens are returned together with an error: %v", res)
		return
	}
	ok := false
	for _, a := range as {
		if a.obj == res && tagsOf(a.obj.typ)["access_token"] != "" {
			ok = true
			// still what was decoded
			for tag, q := range tagsOf(a.obj.typ) {
				v := o.st.get(a.obj, q)
				if v == nil || !contains(v, func(t *Term) bool { return t.kind == KOut }) && !contains(v, func(t *Term) bool { return isJSONDecode(calleeName(t)) }) {
					ok, why = false, "`"+tag+"` is not the one received"
				}
				if v != nil && v.kind == KField && v.op != q {
					ok, why = false, "`"+tag+"` is taken from another field"
				}
			}
		}
	}
	c.ob("tokens-from-valid-answer", at, pos, ok, "tokens are returned although %s; path: %s", why, o.st.describeFacts())
}

// keysReplaced: a valid key document replaces the held keys as a whole.
func (c *Check) keysReplaced() {
	for _, t := range c.implsIn(pkgKeyset, "KeySet") {
		fn := c.P.methodOf(t, "PublicKey")
		if !c.need(fn != nil, "KeySet.PublicKey") {
			continue
		}
		at := ssaName(fn)
		recv := rootParam(fn, 0)
		field := ""
		if s, ok := derefType(t).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && typeName(m.Elem()) == "crypto.PublicKey" {
					field = s.Field(i).Name()
				}
			}
		}
		if !c.need(field != "", "the key table of "+typeName(t)) {
			continue
		}
		decoder := map[string]bool{}
		for _, f := range c.P.Fns {
			if strings.HasPrefix(short(fnPkgPath(f)), pkgKeyset) && f.Signature.Results().Len() == 2 && typeName(f.Signature.Results().At(0).Type()) == "crypto.PublicKey" && len(f.Params) > 0 && f != fn {
				decoder[ssaName(f)] = true
			}
		}
		r := &Run{P: c.P, Models: map[string]modelFn{}, Record: func(n string) bool { return idpEvents(n) || decoder[n] }}
		for n := range decoder {
			r.Models[n] = contentModel
		}
		var e edges
		e.attach(r)
		outs := c.run(r, fn, nil, nil)
		for _, o := range outs {
			pos := c.P.posOf(o.ret.Pos())
			as, _ := o.st.answers()
			if len(as) == 0 {
				continue
			}
			a := as[len(as)-1]
			q, ok := tagsOf(a.obj.typ)["keys"]
			if !c.need(ok, "the key list of a key document") {
				continue
			}
			list := o.st.get(a.obj, q)
			now := o.st.get(recv, field)
			if !c.ob("keys-replaced", at, pos, now != nil && now.kind == KAlloc, "a valid key document does not replace the held keys: %v; path: %s", now, o.st.describeFacts()) {
				continue
			}
			// every usable key of the document is in the new table
			found := false
			for _, l := range o.st.loops(list) {
				found = true
				ok, b := e.forall(o.st, l, func(b *BackEdge, el *Term) bool {
					kid := b.St.get(el, "Kid")
					if kid == nil {
						return false
					}
					if b.St.holds(mkEq(kid, mkStr(""))) {
						return true
					}
					for _, d := range b.St.calls(func(n string) bool { return decoder[n] }) {
						if d.Recv != el && (len(d.Args) == 0 || d.Args[0] != el) {
							continue
						}
						if b.St.isNonNil(extract(d.Result, 1)) {
							return true
						}
						for ad, v := range b.St.heap {
							if ad.kind == KMapAddr && ad.args[0] == now && ad.args[1] == kid && v == extract(d.Result, 0) {
								return true
							}
						}
					}
					return false
				})
				c.ob("every-usable-key", at, pos, ok, "a usable key of the document may be left out: %s", backDetail(b))
			}
			c.ob("every-usable-key", at+" document", pos, found, "the new key table does not cover the whole document; path: %s", o.st.describeFacts())
		}
	}
}

// contentModel makes a module function an uninterpreted function of what its arguments hold.
func contentModel(r *Run, f *frame, st *St, c *CallRec) ([]Outcome, bool) {
	d := *c
	d.Args = append([]*Term(nil), c.Args...)
	load := func(t *Term) *Term {
		if _, ok := t.typ.(*types.Pointer); ok {
			return st.load(t)
		}
		return t
	}
	if d.Recv != nil {
		d.Recv = load(d.Recv)
	}
	for i, a := range d.Args {
		d.Args[i] = load(a)
	}
	outs, ok := pureModel(r, f, st, &d)
	c.Result = d.Result
	return outs, ok
}

// loops: the completed loops of the path over this list.
func (s *St) loops(over *Term) (out []*LoopRec) {
	for _, ev := range s.events() {
		if ev.loop != nil && ev.loop.Over == over {
			out = append(out, ev.loop)
		}
	}
	return
}

// ---- C20 ----

// urlField is the field in which an identity-provider object keeps the URL it was made for.
func (c *Check) urlField(pkg string, outs []Outcome, fn *ssa.Function) (path string, dyn types.Type) {
	for _, o := range outs {
		obj := unboxConv(o.res[0])
		if obj == nil || obj.kind != KAlloc {
			continue
		}
		s, ok := pointerTo(obj).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isString(s.Field(i).Type()) && o.st.get(obj, s.Field(i).Name()) == rootParam(fn, 0) {
				return s.Field(i).Name(), obj.typ
			}
		}
	}
	c.need(false, "the URL an object made by "+pkg+".New is bound to")
	return "", nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// attempted: the path has sent a GET to url, or joined another caller doing so.
func (s *St) attempted(url *Term) bool {
	for _, rec := range s.calls(func(n string) bool { return isExchange(n) || isShared(n) }) {
		if isShared(rec.Name) {
			return true
		}
		if m, u, _, _ := s.request(rec); m == "GET" && u == url {
			return true
		}
	}
	// the request could not even be formed
	for _, rec := range s.calls(names("net/http.NewRequest")) {
		if len(rec.Args) == 3 && rec.Args[1] == url && s.isNonNil(extract(rec.Result, 1)) {
			return true
		}
	}
	return false
}

// discovered: the path knows that discovery data is in force already.
func (s *St) discovered(recv *Term, t types.Type) bool {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && s.holds(initial(recv, st.Field(i).Name())) {
			return true
		}
	}
	tags := tagsOf(t)
	for _, tag := range endpointTag {
		if p, ok := tags[tag]; ok && s.refuted(mkEq(initial(recv, p), mkStr(""))) {
			return true
		}
	}
	return false
}

func (c *Check) healing() {
	svc := c.serviceNames()
	sites := map[ssa.Instruction]bool{}
	field := map[string]string{}
	var runs []*idpRun
	var made []func()
	runs = c.idpRuns(func(x *idpRun, r *Run) {
		r.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) {
			t := pointee(addr)
			if t == nil || !serviceRoot(svc, addr, x.recv) {
				return
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if v, ok := boolOf(val); ok && !v {
					return
				}
				as, why := st.answers()
				c.ob("success-only-after-success", ssaName(in.Parent()), c.P.posOf(in.Pos()), len(as) > 0, "%s remembers success although %s; path: %s", ssaName(x.fn), why, st.describeFacts())
			}
			if isKeySetType(t) {
				x := x
				st := st.clone()
				made = append(made, func() { c.storedKeySet(x, st, addr, val, in, field) })
			}
		}
	})
	for _, x := range runs {
		if x.name == "New" {
			pkg := short(fnPkgPath(x.fn))
			f, dyn := c.urlField(pkg, x.outs, x.fn)
			field[pkg] = f
			for _, o := range x.outs {
				pos := c.P.posOf(o.ret.Pos())
				obj := unboxConv(o.res[0])
				ok := obj != nil && obj.kind == KAlloc && f != "" && o.st.get(obj, f) == rootParam(x.fn, 0)
				c.ob("usable-despite-outage", ssaName(x.fn), pos, ok, "no usable object for the given URL is returned: %v; path: %s", o.res[0], o.st.describeFacts())
				if !ok {
					continue
				}
				as, _ := o.st.answers()
				if len(as) > 0 || len(o.st.calls(isShared)) > 0 {
					continue
				}
				s, _ := derefType(dyn).Underlying().(*types.Struct)
				for i := 0; s != nil && i < s.NumFields(); i++ {
					if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						v := o.st.get(obj, s.Field(i).Name())
						bv, known := boolOf(v)
						c.ob("success-only-after-success", ssaName(x.fn)+" initial", pos, v.kind == KZero || known && !bv, "a new object counts as loaded although nothing was loaded: %s=%v", s.Field(i).Name(), v)
					}
				}
			}
		}
	}
	for _, f := range made {
		f()
	}
	for _, x := range runs {
		if x.recv == nil {
			continue
		}
		at := ssaName(x.fn)
		pkg := short(fnPkgPath(x.fn))
		f := field[pkg]
		if f == "" {
			continue
		}
		url := initial(x.recv, f)
		tags := tagsOf(x.typ)
		for _, o := range x.outs {
			pos := c.P.posOf(o.ret.Pos())
			tag := endpointTag[x.name]
			switch {
			case tag != "":
				c.ob("discovery-retried", at, pos, o.st.discovered(x.recv, x.typ) || o.st.attempted(url), "the endpoint is answered without discovery having succeeded or been tried; path: %s", o.st.describeFacts())
				p := tags[tag]
				c.ob("endpoint-as-discovered", at, pos, p != "" && o.res[0] == o.st.get(x.recv, p), "the answer %v is not the discovered %s", o.res[0], tag)
			case x.name == "KeySet":
				c.ob("discovery-retried", at, pos, o.st.discovered(x.recv, x.typ) || o.st.attempted(url), "the key set is answered without discovery having succeeded or been tried; path: %s", o.st.describeFacts())
				p := tags["jwks_uri"]
				res := o.res[0]
				ok := o.st.isNonNil(res) || o.st.holds(mkEq(o.st.get(x.recv, p), mkStr("")))
				if !ok && !o.st.isNil(res) {
					// the stored key set, when it may be absent only before discovery
					ok = false
				}
				c.ob("keys-once-discovered", at, pos, ok, "no key set is returned although its URL may be known; path: %s", o.st.describeFacts())
			case x.name == "PublicKey":
				if o.st.isNonNil(o.res[0]) && len(o.st.calls(isShared)) == 0 && !o.st.attempted(url) {
					c.ob("unknown-key-downloaded", at, pos, true, "")
					continue
				}
				tried := o.st.attempted(url)
				c.ob("unknown-key-downloaded", at, pos, tried, "an unknown key id is answered without downloading the keys; path: %s", o.st.describeFacts())
				if !tried {
					continue
				}
				// the answer is looked up in the table in force after the download
				res := o.res[0]
				if res.kind == KExtract {
					res = res.args[0]
				}
				ok := false
				if res.kind == KLookup && res.args[1] == rootParam(x.fn, 1) {
					for a, v := range o.st.heap {
						if addrRoot(a) == x.recv && a.kind == KFieldAddr && contains(res.args[0], func(t *Term) bool { return t == v }) {
							ok = true
						}
					}
					if !ok && heldBy(res.args[0], x.recv) {
						// unchanged table
						as, _ := o.st.answers()
						ok = len(as) == 0
					}
				} else if o.st.isNil(res) {
					// known to be absent from the table in force
					ok = o.st.knownAbsent(x.recv, rootParam(x.fn, 1))
				}
				c.ob("looked-up-after-download", at, pos, ok, "the answer %v does not come from the keys in force after the download; path: %s", o.res[0], o.st.describeFacts())
			case x.name == "PublicKeyURL":
				c.ob("bound-url", at, pos, o.res[0] == url, "%v", o.res[0])
			}
		}
	}
	// wherever a key set is created for discovered keys, its URL is known
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && ssaName(f) == fnKeysetNew {
						sites[in] = true
					}
				}
			}
		}
	}
	for in := range sites {
		c.keySetSite(in)
	}
	c.atLeast("discovery-retried", 5)
	c.atLeast("endpoint-as-discovered", 4)
	c.atLeast("keys-once-discovered", 1)
	c.atLeast("unknown-key-downloaded", 2)
	c.atLeast("looked-up-after-download", 1)
	c.atLeast("usable-despite-outage", 2)
	c.atLeast("success-only-after-success", 1)
	c.atLeast("key-set-url-known", 2)
	c.Assume = append(c.Assume, "singleflight.Do runs the function or waits for a concurrent run of it")
}

// heldBy: the value is content of the object.
func heldBy(t, obj *Term) bool {
	return t != nil && derives(t, func(x *Term) bool { return x == obj })
}

// knownAbsent: the table in force was found to hold no key under id.
func (s *St) knownAbsent(recv, id *Term) bool {
	for _, f := range s.factTerms() {
		found := false
		walk(f, func(t *Term) bool {
			if t.kind == KLookup && t.args[1] == id {
				for a, v := range s.heap {
					if addrRoot(a) == recv && contains(t.args[0], func(y *Term) bool { return y == v }) {
						found = true
					}
				}
				if heldBy(t.args[0], recv) {
					found = true
				}
			}
			return true
		})
		if found {
			return true
		}
	}
	return false
}

// storedKeySet: only the key set given, or one made for a known URL, is kept.
func (c *Check) storedKeySet(x *idpRun, st *St, addr, val *Term, in ssa.Instruction, field map[string]string) {
	at, pos := ssaName(in.Parent()), c.P.posOf(in.Pos())
	v := unboxConv(val)
	if x.recv == nil || addrRoot(addr) != x.recv {
		c.ob("kept-key-set", at, pos, v.kind == KNil || v.kind == KZero, "a new object starts with the key set %v", val)
		return
	}
	if len(x.fn.Params) > 1 && val == rootParam(x.fn, 1) {
		c.ob("kept-key-set", at, pos, true, "")
		return
	}
	f := field[pkgKeyset]
	ok := false
	if v.kind == KAlloc && f != "" {
		u := st.get(v, f)
		p := tagsOf(x.typ)["jwks_uri"]
		ok = u != nil && u == st.get(x.recv, p) && st.refuted(mkEq(u, mkStr("")))
	}
	c.ob("kept-key-set", at, pos, ok, "%s keeps a key set whose URL is not the discovered one or may be unknown: %v; path: %s", ssaName(x.fn), val, st.describeFacts())
}

// keySetSite: a key set made from a discovered URL is made only when the URL is known.
func (c *Check) keySetSite(in ssa.Instruction) {
	fn := in.Parent()
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	at, pos := ssaName(fn), c.P.posOf(in.Pos())
	reached := 0
	svc := "(~/adapter/authserver.AuthorizationServerService)."
	opaque := func(n string) bool {
		return strings.HasPrefix(n, svc) || strings.HasSuffix(n, ".JwksEndpoint") || n == fnKeysetNew || n == "~/adapter/authserver.New"
	}
	r := &Run{P: c.P, Opaque: opaque}
	r.OnCall = func(st *St, rec *CallRec) {
		if rec.Name != fnKeysetNew || rec.Instr != in || len(rec.Args) == 0 {
			return
		}
		reached++
		u := rec.Args[0]
		discovered := contains(u, func(t *Term) bool { return strings.HasSuffix(calleeName(t), ".JwksEndpoint") }) || derives(u, func(t *Term) bool { return t.kind == KParam && strings.HasPrefix(at, "(*~/adapter/authserver.") })
		if !discovered {
			c.ob("key-set-url-known", at, pos, true, "")
			return
		}
		c.ob("key-set-url-known", at, pos, st.refuted(mkEq(u, mkStr(""))), "a key set is created although its URL %v may be unknown: it stays unusable after discovery succeeds; path: %s", u, st.describeFacts())
	}
	c.run(r, fn, nil, nil)
	c.ob("key-set-url-known", at+" reached", pos, reached > 0, "the creation of a key set was not reached by the analysis")
}

// ---- C21 ----

func (c *Check) tokenRequests() {
	for _, t := range c.implsIn(pkgAuth, "AuthorizationServerService") {
		fn := c.P.methodOf(t, "GetTokens")
		if !c.need(fn != nil && len(fn.Params) == 7, "AuthorizationServerService.GetTokens") {
			continue
		}
		recv := rootParam(fn, 0)
		at := ssaName(fn)
		r := &Run{P: c.P, Record: func(n string) bool {
			return idpEvents(n) || strings.HasPrefix(n, "(*net/http.Request).") || strings.HasPrefix(n, "(net/http.Header).")
		}}
		sent := func(st *St, do *CallRec) {
			m, url, body, req := st.request(do)
			pos := c.P.posOf(do.Pos())
			tok := tagsOf(t)["token_endpoint"]
			if m == "GET" && url != nil && heldBy(url, recv) && url != st.get(recv, tok) {
				return // discovery
			}
			c.ob("posted-to-token-endpoint", at, pos, m == "POST" && url != nil && tok != "" && url == st.get(recv, tok), "a %s request is sent to %s; path: %s", m, termText(url), st.describeFacts())
			p := func(i int) *Term { return rootParam(fn, i) }
			want := map[string]*Term{}
			refresh := mkEq(p(6), mkStr(""))
			switch {
			case st.refuted(refresh):
				want["grant_type"], want["refresh_token"] = mkStr("refresh_token"), p(6)
			case st.holds(refresh):
				want["grant_type"], want["code"], want["redirect_uri"] = mkStr("authorization_code"), p(4), p(5)
			default:
				c.ob("one-grant", at, pos, false, "the grant does not depend on the refresh token; path: %s", st.describeFacts())
				return
			}
			post := mkEq(p(1), mkStr("client_secret_post"))
			basic := 0
			basicOK := true
			declared := strings.HasSuffix(do.Name, ".PostForm")
			for _, rec := range st.calls(func(n string) bool {
				return strings.HasPrefix(n, "(*net/http.Request).") || strings.HasPrefix(n, "(net/http.Header).")
			}) {
				switch {
				case rec.Name == fnBasicAuth:
					if rec.Recv == req || req != nil && rec.Recv == unboxConv(req) {
						basic++
						basicOK = basicOK && len(rec.Args) == 2 && rec.Args[0] == p(2) && rec.Args[1] == p(3)
					}
				case strings.HasPrefix(rec.Name, "(net/http.Header).") && len(rec.Args) == 2:
					k, ok := strOf(rec.Args[0])
					if ok && strings.EqualFold(k, "Content-Type") {
						declared = sameStr(rec.Args[1], "application/x-www-form-urlencoded")
					}
					if !ok || strings.EqualFold(k, "Authorization") {
						basic, basicOK = basic+1, false
					}
				}
			}
			switch {
			case st.holds(post):
				want["client_id"], want["client_secret"] = p(2), p(3)
				c.ob("one-client-authentication", at, pos, basic == 0, "credentials are sent both in the body and in the Authorization header; path: %s", st.describeFacts())
			case st.refuted(post):
				c.ob("one-client-authentication", at, pos, basic >= 1 && basicOK, "the request does not carry exactly the client's id and secret as HTTP Basic authentication; path: %s", st.describeFacts())
			default:
				c.ob("one-client-authentication", at, pos, false, "the client authentication does not depend on the configured method; path: %s", st.describeFacts())
				return
			}
			c.ob("form-declared", at, pos, declared, "the body is not declared as a form")
			got, ok := formOf(st, body)
			why := ""
			if !ok {
				why = "the body " + termText(body) + " is not a form that can be decided"
			}
			for k, v := range want {
				if why == "" && got[k] != v {
					why = "`" + k + "` is " + termText(got[k]) + " instead of " + termText(v)
				}
			}
			for k := range got {
				if why == "" && want[k] == nil {
					why = "`" + k + "` is sent too"
				}
			}
			c.ob("one-grant", at, pos, why == "", "%s; path: %s", why, st.describeFacts())
		}
		n := 0
		r.OnCall = func(st *St, rec *CallRec) {
			if isExchange(rec.Name) {
				n++
				sent(st, rec)
			}
		}
		c.run(r, fn, nil, nil)
	}
	c.atLeast("posted-to-token-endpoint", 4)
	c.atLeast("one-grant", 4)
	c.atLeast("one-client-authentication", 4)
	// every client asks its own server, with its own credentials
	const fnGetTokens = "(~/adapter/authserver.AuthorizationServerService).GetTokens"
	for _, t := range c.implsIn(pkgClient, "Client") {
		own := map[string]*Term{}
		recvOf := func(fn *ssa.Function) *Term { return rootParam(fn, 0) }
		for _, m := range []string{"ID", "Secret", "AuthorizationServer"} {
			fn := c.P.methodOf(t, m)
			if !c.need(fn != nil, "Client."+m) {
				return
			}
			r := &Run{P: c.P}
			outs := c.run(r, fn, nil, nil)
			if c.need(len(outs) == 1, "the single answer of Client."+m) {
				own[m] = outs[0].res[0]
			}
		}
		method := ""
		if s, ok := derefType(t).Underlying().(*types.Struct); ok {
			for tag, p := range tagsOf(s) {
				if tag == "authMethod" {
					method = p
				}
			}
		}
		if !c.need(method != "" && own["AuthorizationServer"] != nil && own["Secret"] != nil && own["ID"] != nil, "the authentication method of "+typeName(t)) {
			continue
		}
		for _, m := range []string{"ExchangeGrantCode", "RefreshToken"} {
			fn := c.P.methodOf(t, m)
			if !c.need(fn != nil, "Client."+m) {
				continue
			}
			at := ssaName(fn)
			recv := recvOf(fn)
			rebase := func(x *Term) *Term {
				// the receivers of the methods are the same object
				return x
			}
			r := &Run{P: c.P, Record: names(fnGetTokens)}
			outs := c.run(r, fn, nil, nil)
			n := 0
			for _, o := range outs {
				pos := c.P.posOf(o.ret.Pos())
				recs := o.st.calls(names(fnGetTokens))
				if o.st.isNil(o.res[0]) && (o.st.isNonNil(o.res[1]) || isErrorValue(o.res[1])) {
					bad := false
					for _, rec := range recs {
						bad = bad || o.st.isNil(extract(rec.Result, 1))
					}
					c.ob("answer-passed-on", at+" error", pos, !bad, "an error is returned although tokens were received; path: %s", o.st.describeFacts())
					continue
				}
				if !c.ob("own-credentials", at+" asks once", pos, len(recs) >= 1, "tokens are returned without asking the identity provider") {
					continue
				}
				for _, rec := range recs {
					n++
					want := []*Term{initial(recv, method), rebase(own["ID"]), rebase(own["Secret"]), mkStr(""), mkStr(""), mkStr("")}
					if m == "RefreshToken" {
						want[5] = rootParam(fn, 1)
					} else {
						want[3], want[4] = rootParam(fn, 1), rootParam(fn, 2)
					}
					ok := unboxConv(rec.Recv) == own["AuthorizationServer"] || rec.Recv == own["AuthorizationServer"]
					why := "another server is asked"
					for i := range want {
						if ok && rec.Args[i] != want[i] && !(m == "RefreshToken" && (i == 3 || i == 4)) {
							ok, why = false, "argument "+itoa(i)+" is "+termText(rec.Args[i])+" instead of "+termText(want[i])
						}
					}
					c.ob("own-credentials", at, pos, ok, "%s", why)
				}
				last := recs[len(recs)-1]
				r0, r1 := extract(last.Result, 0), extract(last.Result, 1)
				okErr := o.res[1] == r1 || o.st.isNil(r1) && o.st.isNil(o.res[1])
				c.ob("answer-passed-on", at, pos, o.res[0] == r0 && okErr, "the caller gets %v, %v instead of the answer", o.res[0], o.res[1])
			}
			c.ob("own-credentials", at+" reached", c.P.posOf(fn.Pos()), n > 0, "the identity provider is never asked")
		}
	}
	c.atLeast("own-credentials", 4)
	c.Assume = append(c.Assume, "net/http sends the request as built; url.Values.Encode encodes exactly its entries")
}

func termText(t *Term) string {
	if t == nil {
		return "absent"
	}
	return t.String()
}

// formOf reads a request body as a form with single values.
func formOf(st *St, body *Term) (map[string]*Term, bool) {
	if body == nil {
		return nil, false
	}
	x := unboxConv(body)
	for i := 0; i < 4; i++ {
		if isCallTo(x, "strings.NewReader", "bytes.NewReader") && len(x.args) == 1 {
			x = unboxConv(x.args[0])
		} else if cell := x; cell.kind == KAlloc {
			if s, ok := pointerTo(cell).Underlying().(*types.Struct); ok && typeName(pointerTo(cell)) == "bytes.Buffer" {
				_ = s
				x = st.get(cell, "buf")
			}
		}
		for x != nil && x.kind == KConv {
			x = x.args[0]
		}
		if x == nil {
			return nil, false
		}
	}
	out := map[string]*Term{}
	if x.kind == KAlloc { // a url.Values handed over as such
		b, ok := st.base[x]
		if !ok || b.kind != KZero {
			return nil, false
		}
		for a, v := range st.heap {
			if a.kind == KMapAddr && a.args[0] == x {
				k, ok := strOf(a.args[1])
				es, okE := st.elems(v)
				if !ok || !okE || len(es) != 1 {
					return nil, false
				}
				out[k] = es[0]
			}
		}
		return out, len(out) > 0
	}
	if !isCallTo(x, "(net/url.Values).Encode") {
		return nil, false
	}
	if x.kind != KPure {
		return nil, false
	}
	for i := 0; i+1 < len(x.args); i += 2 {
		k, ok := strOf(x.args[i])
		if !ok || x.args[i+1].kind != KList || len(x.args[i+1].args) != 1 {
			return nil, false
		}
		out[k] = x.args[i+1].args[0]
	}
	return out, len(out) > 0
}

func init() {
	checks["C19"] = func(c *Check) { c.adoption() }
	explain["C19"] = "Every operation and constructor of the identity-provider objects (authorization server, key set) is run over all abstract paths through networking. Each store into such an object must lie behind: transport error nil, status 200, decoding without error, every required entry present; answers are decoded into fresh memory; on all other paths the data in force at the end is the data in force before; tokens are returned only from such an answer, with a nil error; a valid key document replaces the key table by one that holds every usable key of it."
	checks["C20"] = func(c *Check) { c.healing() }
	explain["C20"] = "Every endpoint, key-set and public-key operation is run over all abstract paths: each path either knows that discovery succeeded (or the key is present), or has sent the discovery (key) request or joined a concurrent one before answering from the data then in force. Flags of success are set only behind a valid answer; constructors return a usable, not-yet-loaded object on failure; a key set is created only with a known URL."
	checks["C21"] = func(c *Check) { c.tokenRequests() }
	explain["C21"] = "Every path of GetTokens that sends a request is inspected at the sending call: method, URL, the exact set of form entries (decided symbolically from the url.Values built on the path), Basic credentials and their exclusiveness, against the grant and authentication method the path has established. Every client passes its own method, id and secret."
}
