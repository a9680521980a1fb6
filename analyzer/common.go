package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgClient    = "adapter/client"
	pkgAuth      = "adapter/authserver"
	pkgKeyset    = "adapter/authserver/keyset"
	pkgEngine    = "adapter/policy/engine"
	pkgStore     = "adapter/policy/store/policy"
	pkgTrie      = "adapter/policy/store/pathtrie"
	pkgPolicy    = "adapter/policy"
	pkgV1        = "adapter/pkg/apis/policies/v1"
	pkgWeb       = "adapter/strategy/web"
	pkgAPI       = "adapter/strategy/api"
	pkgValidator = "adapter/validator"
	pkgNet       = "adapter/networking"
	pkgErrors    = "adapter/errors"
	pkgCtrl      = "adapter/policy/controller"
	pkgHandler   = "adapter/policy/handler"
	pkgCrd       = "adapter/policy/handler/crdeventhandler"
	pkgInit      = "adapter/policy/initializer"
	pkgConfig    = "adapter/config"
)

const (
	fnValidate  = "(~/adapter/validator.TokenValidator).Validate"
	fnEvaluate  = "(~/adapter/policy/engine.PolicyEngine).Evaluate"
	fnStrategy  = "(~/adapter/strategy.Strategy).HandleAuthnZRequest"
	fnExchange  = "(~/adapter/client.Client).ExchangeGrantCode"
	fnRefresh   = "(~/adapter/client.Client).RefreshToken"
	fnPublicKey = "(~/adapter/authserver/keyset.KeySet).PublicKey"
)

// ---- initial content of package variables ----

var initSt *St

// initialState gives the content of package-level variables that nothing changes after initialisation.
func (p *Prog) initialState() *St {
	if initSt != nil {
		return initSt.clone()
	}
	frozen := p.frozenGlobals()
	st := newSt()
	var paths []string
	for path := range p.SPkgs {
		if !generated(path) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		fn := p.SPkgs[path].Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		r := &Run{P: p}
		outs := r.call(fn, nil, nil, newSt(), "init:"+path, nil)
		if len(outs) != 1 {
			continue
		}
		o := outs[0].st
		keep := map[*Term]bool{}
		for c := range o.heap {
			if root := addrRoot(c); root.kind == KGlobal && frozen[root.op] {
				keep[root] = true
			}
		}
		var work []*Term
		for k := range keep {
			work = append(work, k)
		}
		var add func(t *Term)
		add = func(t *Term) {
			if t.kind == KAlloc && !keep[t] {
				keep[t] = true
				work = append(work, t)
			}
			for _, a := range t.args {
				add(a)
			}
		}
		for len(work) > 0 {
			k := work[len(work)-1]
			work = work[:len(work)-1]
			for c, v := range o.heap {
				if addrRoot(c) == k {
					add(v)
					add(c)
				}
			}
			if b, ok := o.base[k]; ok {
				add(b)
			}
		}
		for c, v := range o.heap {
			if keep[addrRoot(c)] {
				st.heap[c] = v
			}
		}
		for c, v := range o.base {
			if keep[c] {
				st.base[c] = v
			}
		}
	}
	initSt = st
	return st.clone()
}

// frozenGlobals: package variables of handwritten code whose content (and what it refers to)
// is only ever read outside package initialisation.
func (p *Prog) frozenGlobals() map[string]bool {
	name := func(g *ssa.Global) string { return strings.ReplaceAll(g.String(), modPath+"/", "~/") }
	out := map[string]bool{}
	bad := map[string]bool{}
	for path, sp := range p.SPkgs {
		if generated(path) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				out[name(g)] = true
			}
		}
	}
	seenParam := map[ssa.Value]bool{}
	var readOnly func(v ssa.Value) bool
	readOnly = func(v ssa.Value) bool {
		if seenParam[v] {
			return true
		}
		seenParam[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, ref := range *refs {
			switch x := ref.(type) {
			case *ssa.UnOp:
				if !immutable(x.Type()) && !readOnly(x) {
					return false
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Slice, *ssa.Extract, *ssa.Phi, *ssa.ChangeType:
				if y := x.(ssa.Value); !immutable(y.Type()) && !readOnly(y) {
					return false
				}
			case *ssa.Range:
				if !readOnly(x) {
					return false
				}
			case *ssa.Next, *ssa.DebugRef, *ssa.If, *ssa.BinOp:
				if n, ok := x.(*ssa.Next); ok {
					for _, e := range *n.Referrers() {
						if ex, ok := e.(*ssa.Extract); ok && !immutable(ex.Type()) && !readOnly(ex) {
							return false
						}
					}
				}
			case *ssa.Call:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" {
						continue
					}
					return false
				}
				if c.IsInvoke() {
					return false
				}
				f, ok := c.Value.(*ssa.Function)
				if !ok {
					if c.Value == v {
						continue
					}
					return false
				}
				if !p.handwritten(f) {
					o, ok := f.Object().(*types.Func)
					if ok && isPure(funcName(o)) {
						continue
					}
					return false
				}
				for i, a := range c.Args {
					if a == v && i < len(f.Params) && !readOnly(f.Params[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok || !out[name(g)] {
						continue
					}
					okUse := false
					switch x := in.(type) {
					case *ssa.UnOp:
						okUse = immutable(x.Type()) || readOnly(x)
					case *ssa.FieldAddr:
						okUse = readOnly(x)
					case *ssa.IndexAddr:
						okUse = readOnly(x)
					}
					if !okUse {
						bad[name(g)] = true
					}
				}
			}
		}
	}
	for k := range bad {
		delete(out, k)
	}
	return out
}

func immutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return immutable(u.Elem())
	case *types.Interface:
		return false
	}
	return false
}

// ---- access paths ----

// get reads the (possibly promoted) field name of a struct or pointer value.
func (s *St) get(t *Term, name string) *Term {
	for _, n := range strings.Split(name, ".") {
		t = s.get1(t, n)
		if t == nil {
			return nil
		}
	}
	return t
}

func (s *St) get1(t *Term, name string) *Term {
	if t == nil || t.typ == nil {
		return nil
	}
	obj, idx, _ := types.LookupFieldOrMethod(t.typ, true, pkgOfType(t.typ), name)
	if v, ok := obj.(*types.Var); !ok || !v.IsField() {
		return nil
	}
	for _, i := range idx {
		if _, ok := t.typ.Underlying().(*types.Pointer); ok {
			ft := fieldType(t.typ, i)
			a := mkFieldAddr(t, i, t.typ)
			t = s.load(a)
			if t.typ == nil {
				t = withType(t, ft)
			}
		} else {
			t = mkField(t, i)
		}
	}
	return t
}

func pkgOfType(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// initial is the value of a path at the start of the analysis.
func initial(t *Term, path string) *Term { return newSt().get(t, path) }

// isCallTo: t is the (i-th) result of a call to one of the named functions.
func isCallTo(t *Term, names ...string) bool {
	if t == nil || (t.kind != KCall && t.kind != KPure) {
		return false
	}
	n := t.callee
	if t.kind == KPure {
		n = t.op
	}
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

// resultOf: t is result i of a call satisfying f.
func resultOf(t *Term, i int, names ...string) *Term {
	if t != nil && t.kind == KExtract && t.op == strconv.Itoa(i) && isCallTo(t.args[0], names...) {
		return t.args[0]
	}
	if i == 0 && isCallTo(t, names...) {
		return t
	}
	return nil
}

func extract(t *Term, i int) *Term {
	sig, ok := t.typ.(*types.Tuple)
	if !ok {
		return t
	}
	return intern(KExtract, strconv.Itoa(i), sig.At(i).Type(), t)
}

func sameStr(t *Term, s string) bool { x, ok := strOf(t); return ok && x == s }

func constInt64(t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	t = unbox(t)
	for t.kind == KConv {
		t = t.args[0]
	}
	return intOf(t)
}

// ---- responses ----

// reply is a decoded authorization response.
type reply struct {
	kind     string // error, nil, deny, allow
	code     int64
	resp     *Term
	message  *Term
	http     *Term // direct HTTP response, when there is one
	httpCode *Term
	body     *Term
	auth     *Term // Authorization header to forward
	cookie   *Term // session cookie to forward
}

const statusPkg = "istio.io/istio/mixer/pkg/status."

var statusCodes = map[string]int64{
	"WithPermissionDenied": 7, "WithUnauthenticated": 16, "WithInternal": 13, "WithCancelled": 1,
	"WithInvalidArgument": 3, "WithResourceExhausted": 8, "WithDeadlineExceeded": 4, "WithUnknown": 2,
	"WithNotFound": 5, "WithFailedPrecondition": 9, "WithError": 13,
}

func (s *St) statusCode(status *Term) (int64, bool) {
	if status == nil {
		return 0, false
	}
	switch {
	case status.kind == KDeref && status.args[0].kind == KGlobal && strings.HasSuffix(status.args[0].op, "mixer/pkg/status.OK"):
		return 0, true
	case (status.kind == KPure || status.kind == KCall) && strings.HasPrefix(calleeName(status), statusPkg):
		n := strings.TrimPrefix(calleeName(status), statusPkg)
		if n == "WithMessage" || n == "New" {
			return s.constInt(status.args[0])
		}
		c, ok := statusCodes[n]
		return c, ok
	}
	c := s.get(status, "Code")
	if c == nil {
		return 0, false
	}
	return s.constInt(c)
}

func (s *St) constInt(t *Term) (int64, bool) {
	if n, ok := constInt64(t); ok {
		return n, ok
	}
	for t.kind == KConv || t.kind == KIface {
		t = t.args[0]
	}
	if k := s.constOf(t); k != nil {
		return intOf(k)
	}
	return 0, false
}

func calleeName(t *Term) string {
	if t.kind == KCall {
		return t.callee
	}
	if t.kind == KPure {
		return t.op
	}
	return ""
}

func decodeReply(o Outcome) *reply {
	st := o.st
	r := &reply{}
	if len(o.res) == 2 && !st.isNil(o.res[1]) {
		if st.isNonNil(o.res[1]) || isErrorValue(o.res[1]) {
			r.kind = "error"
			return r
		}
		// an error value of unknown nilness: only a response that denies is safe
	}
	resp := o.res[0]
	if st.isNil(resp) {
		r.kind = "nil"
		return r
	}
	r.resp = resp
	r.kind = "allow"
	result := st.get(resp, "Result")
	if result == nil {
		return r
	}
	status := st.get(result, "Status")
	if status == nil {
		return r
	}
	r.auth = st.get(resp, "Output.Authorization")
	r.cookie = st.get(resp, "Output.SessionCookie")
	if out := st.get(resp, "Output"); out != nil && st.isNil(out) {
		r.auth, r.cookie = mkStr(""), mkStr("")
	}
	code, ok := st.statusCode(status)
	if ok && code != 0 {
		r.kind = "deny"
		r.code = code
	}
	r.message = st.get(status, "Message")
	if d := st.get(status, "Details"); d != nil {
		if es, ok := st.elems(d); ok {
			for _, e := range es {
				if isCallTo(e, statusPkg+"PackErrorDetail") {
					h := unbox(e.args[0])
					r.http = h
					r.httpCode = st.get(h, "Code")
					r.body = st.get(h, "Body")
				}
			}
		}
	}
	return r
}

func isErrorValue(t *Term) bool {
	return t.kind == KIface
}

// header reads a header of the direct response; nil when absent, and ok=false when unknown.
func (r *reply) header(st *St, name string) (*Term, bool) {
	if r.http == nil {
		return nil, true
	}
	m := st.get(r.http, "Headers")
	if m == nil || m.kind == KNil {
		return nil, true
	}
	if m.kind != KAlloc {
		return nil, false
	}
	var found *Term
	for c, v := range st.heap {
		if c.kind != KMapAddr || c.args[0] != m {
			continue
		}
		k, ok := strOf(c.args[1])
		if !ok {
			return nil, false
		}
		if strings.EqualFold(k, name) {
			found = v
		}
	}
	if b, ok := st.base[m]; found == nil && ok && b.kind != KZero {
		return nil, false
	}
	return found, true
}

// ---- helpers over recorded calls ----

func names(ns ...string) func(string) bool {
	m := map[string]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return func(s string) bool { return m[s] }
}

// validated: a recorded token validation of tok with this type, key set and rule list reported no error.
func (s *St) validated(tok *Term, typ int64, ks func(*Term) bool, rules *Term, info func(*Term) bool) bool {
	for _, c := range s.calls(names(fnValidate)) {
		if len(c.Args) != 5 {
			continue
		}
		if c.Args[0] != tok {
			continue
		}
		if n, ok := s.constInt(c.Args[1]); !ok || n != typ {
			continue
		}
		if !ks(c.Args[2]) || c.Args[3] != rules || (info != nil && !info(c.Args[4])) {
			continue
		}
		if s.isNil(c.Result) {
			return true
		}
	}
	return false
}

func constString(v constant.Value) string { return constant.StringVal(v) }
