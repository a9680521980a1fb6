package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: requests to identity providers end, and give their connection back.

const httpClientType = "net/http.Client"

// openViol is something wrong that the caller of the function can still put right.
type openViol struct {
	Viol
	callers bool
}

// climb decides f at a function by itself and, for what depends on its callers, at those.
func (c *Check) climb(fn *ssa.Function, depth int, judge func(root *ssa.Function) []openViol) []Viol {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var out []Viol
	up := false
	for _, v := range judge(fn) {
		cs := c.P.callGraph().callers(fn)
		if v.callers && depth > 0 && len(cs) > 0 {
			up = true
		} else {
			out = append(out, v.Viol)
		}
	}
	if up {
		for _, x := range c.P.callGraph().callers(fn) {
			out = append(out, c.climb(x, depth-1, judge)...)
		}
	}
	return out
}

// given: the value depends on what the root's caller passes.
func given(t *Term) bool {
	return t != nil && contains(t, func(x *Term) bool { return x.kind == KParam })
}

func sendsRequest(in ssa.Instruction) (string, bool) {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", false
	}
	var o types.Object
	if call.Common().IsInvoke() {
		o = call.Common().Method
	} else if f := call.Common().StaticCallee(); f != nil {
		o = f.Object()
	}
	f, ok := o.(*types.Func)
	if !ok {
		return "", false
	}
	n := funcName(f)
	return n, isExchange(n) || n == "(net/http.RoundTripper).RoundTrip" || n == "(*net/http.Transport).RoundTrip"
}

// clientPaths: where a value of type t holds an http.Client.
func clientPaths(t types.Type, prefix string, depth int) []string {
	if typeName(t) == httpClientType {
		return []string{prefix}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth == 0 {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		p := s.Field(i).Name()
		if prefix != "" {
			p = prefix + "." + p
		}
		out = append(out, clientPaths(s.Field(i).Type(), p, depth-1)...)
	}
	return out
}

func (c *Check) timeBounded() {
	cg := c.P.callGraph()
	judged := map[string][]openViol{}
	// 1. every client that exists has a timeout
	var makers []*ssa.Function
	sends := map[ssa.Instruction]string{}
	var senders []*ssa.Function
	for _, fn := range c.P.Fns {
		maker, sender := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					maker = maker || len(clientPaths(derefType(x.Type()), "", 3)) > 0
				case *ssa.Store:
					t := x.Val.Type()
					if p, ok := t.(*types.Pointer); ok {
						t = p.Elem()
					}
					maker = maker || typeName(t) == httpClientType
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && typeName(derefType(fa.X.Type())) == httpClientType {
						maker = true
					}
				}
				if n, ok := sendsRequest(in); ok {
					sends[in] = n
					sender = true
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok && (g.String() == "net/http.DefaultClient" || g.String() == "net/http.DefaultTransport") {
						c.ob("client-has-timeout", ssaName(fn)+" "+g.String(), c.P.posOf(in.Pos()), false, "%s has no timeout", g)
					}
				}
			}
		}
		if maker {
			makers = append(makers, fn)
		}
		if sender {
			senders = append(senders, fn)
		}
	}
	positive := func(st *St, t *Term) bool {
		if t == nil {
			return false
		}
		return st.holds(mkLess(mkInt(0), t))
	}
	// a client already checked where it was made
	var known func(st *St, t *Term) bool
	known = func(st *St, t *Term) bool {
		t = unboxConv(t)
		switch t.kind {
		case KNil, KZero:
			return true
		case KFieldAddr:
			return true
		case KField, KDeref, KIndex, KLookup, KExtract:
			return !contains(t, func(x *Term) bool { return x.kind == KGlobal && strings.HasPrefix(x.op, "net/http.") }) && t.kind != KExtract
		case KCall:
			// made by a function of this module, checked there
			return strings.HasPrefix(t.callee, "~/") || strings.HasPrefix(t.callee, "(~/") || strings.HasPrefix(t.callee, "(*~/")
		case KAlloc:
			for _, p := range clientPaths(pointerTo(t), "", 3) {
				q := "Timeout"
				if p != "" {
					q = p + ".Timeout"
				}
				if !positive(st, st.get(t, q)) {
					return false
				}
			}
			return true
		}
		return false
	}
	judgeMaker := func(root *ssa.Function) []openViol {
		if v, ok := judged["m"+ssaName(root)]; ok {
			return v
		}
		var vs []openViol
		bad := func(at, pos string, t *Term, d string) {
			vs = append(vs, openViol{Viol{Rule: "client-has-timeout", At: at, Pos: pos, Detail: d}, given(t)})
		}
		r := &Run{P: c.P}
		r.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) {
			if addr.kind == KFieldAddr && typeName(derefType(addr.args[0].typ)) == httpClientType && fieldName(derefType(addr.args[0].typ), fieldIndex(addr)) == "Timeout" && !positive(st, val) {
				bad(ssaName(root), c.P.posOf(in.Pos()), val, "the timeout is set to "+val.String()+", which may not be positive")
			}
			if pt, ok := val.typ.(*types.Pointer); ok && typeName(pt.Elem()) == httpClientType && addrRoot(addr).kind != KAlloc && addrRoot(val).kind != KAlloc && !known(st, val) {
				bad(ssaName(root), c.P.posOf(in.Pos()), val, "a client of unknown timeout is stored: "+val.String())
			}
		}
		outs := c.run(r, root, nil, nil)
		for _, o := range outs {
			seen := map[*Term]bool{}
			chk := func(a *Term) {
				root := addrRoot(a)
				if root.kind != KAlloc || seen[root] {
					return
				}
				seen[root] = true
				t := pointerTo(root)
				if t == nil {
					return
				}
				if _, isPtr := t.(*types.Pointer); isPtr {
					return
				}
				if len(clientPaths(t, "", 3)) > 0 && !known(o.st, root) {
					var tv *Term
					for _, p := range clientPaths(t, "", 3) {
						tv = o.st.get(root, strings.TrimPrefix(p+".Timeout", "."))
					}
					bad(ssaName(root2(o)), c.P.posOf(o.ret.Pos()), tv, "an HTTP client without a positive timeout is made")
				}
			}
			for a := range o.st.base {
				chk(a)
			}
			for a := range o.st.heap {
				chk(a)
			}
			for _, x := range o.res {
				if pt, ok := x.typ.(*types.Pointer); ok && typeName(pt.Elem()) == httpClientType && !known(o.st, x) {
					bad(ssaName(root2(o)), c.P.posOf(o.ret.Pos()), x, "a client of unknown timeout is returned: "+x.String())
				}
			}
		}
		judged["m"+ssaName(root)] = vs
		return vs
	}
	for _, fn := range makers {
		vs := c.climb(fn, 3, judgeMaker)
		for _, v := range vs {
			c.ob(v.Rule, v.At, v.Pos, false, "%s", v.Detail)
		}
		if len(vs) == 0 {
			c.ob("client-has-timeout", ssaName(fn), c.P.posOf(fn.Pos()), true, "")
		}
	}
	// 2. every request uses such a client, and every body received is closed
	judgeSender := func(root *ssa.Function) []openViol {
		if v, ok := judged["s"+ssaName(root)]; ok {
			return v
		}
		var vs []openViol
		r := &Run{P: c.P, Record: func(n string) bool {
			return isExchange(n) || strings.HasSuffix(n, ".RoundTrip") || strings.HasSuffix(n, ".Close")
		}}
		r.OnCall = func(st *St, rec *CallRec) {
			if !isExchange(rec.Name) && !strings.HasSuffix(rec.Name, ".RoundTrip") {
				return
			}
			ok := strings.HasPrefix(rec.Name, "(*net/http.Client).") && rec.Recv != nil && known(st, rec.Recv)
			if !ok {
				vs = append(vs, openViol{Viol{"client-has-timeout", ssaName(rec.Fn), c.P.posOf(rec.Pos()), "a request is sent by " + rec.Name + " on " + termText(rec.Recv) + ", whose timeout is not known to be positive"}, rec.Recv != nil && rec.Recv.kind == KParam})
			}
		}
		open := func(st *St) *CallRec {
			recs := st.calls(func(n string) bool { return isExchange(n) || strings.HasSuffix(n, ".Close") })
			for i, do := range recs {
				if !isExchange(do.Name) || st.isNonNil(extract(do.Result, 1)) {
					continue
				}
				body := st.get(extract(do.Result, 0), "Body")
				closed := false
				for _, cl := range recs[i+1:] {
					if strings.HasSuffix(cl.Name, ".Close") && cl.Recv != nil && (cl.Recv == body || unboxConv(cl.Recv) == body || contains(cl.Recv, func(t *Term) bool { return t == do.Result })) {
						closed = true
					}
				}
				if !closed {
					return do
				}
			}
			return nil
		}
		outs := c.run(r, root, nil, nil)
		closes := false
		for _, o := range outs {
			closes = closes || len(o.st.calls(func(n string) bool { return strings.HasSuffix(n, ".Close") })) > 0
		}
		for _, o := range outs {
			if do := open(o.st); do != nil {
				passedOn := false
				for _, x := range o.res {
					passedOn = passedOn || contains(x, func(t *Term) bool { return t == do.Result })
				}
				vs = append(vs, openViol{Viol{"body-closed", ssaName(do.Fn), c.P.posOf(o.ret.Pos()), "the body of the answer to the request at " + c.P.posOf(do.Pos()) + " is not closed on a path that ends here; path: " + o.st.describeFacts()}, passedOn && !closes})
			}
		}
		judged["s"+ssaName(root)] = vs
		return vs
	}
	for _, fn := range senders {
		vs := c.climb(fn, 3, judgeSender)
		for _, v := range vs {
			c.ob(v.Rule, v.At, v.Pos, false, "%s", v.Detail)
		}
		if len(vs) == 0 {
			c.ob("body-closed", ssaName(fn), c.P.posOf(fn.Pos()), true, "")
		}
	}
	c.atLeast("client-has-timeout", 1)
	c.atLeast("body-closed", 1)
	// the request leaves through a client that is there
	_ = cg
	c.boundedRetries()
	c.Assume = append(c.Assume, "http.Client.Timeout bounds the whole exchange including reading the body", "requests to the Kubernetes API are outside the property: client-go sets no timeout")
}

func root2(o Outcome) *ssa.Function { return o.ret.Parent() }

// fieldIndex is the number of the field a field address selects.
func fieldIndex(a *Term) int {
	s, ok := derefType(a.args[0].typ).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if mkFieldAddr(a.args[0], i, a.args[0].typ) == a {
			return i
		}
	}
	return -1
}

// boundedRetries: code that repeats calls to the outside does so a bounded number of times.
func (c *Check) boundedRetries() {
	cg := c.P.callGraph()
	outside := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := sendsRequest(in); ok {
					return true
				}
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() {
					if p := call.Common().Method.Pkg(); p != nil && strings.HasPrefix(p.Path(), "k8s.io/client-go/kubernetes/typed/") {
						return true
					}
				}
			}
		}
		return false
	}
	reach := cg.reaching(outside, func(e callEdge) bool { return e.spawn })
	c.ob("retries-bounded", "outward calls", "-", len(reach) > 5, "only %d functions reach an outward call", len(reach))
	for _, fn := range c.P.Fns {
		if !reach[fn] || short(fnPkgPath(fn)) == pkgCtrl {
			continue
		}
		at := ssaName(fn)
		outward := map[ssa.Instruction]bool{}
		recursive := false
		for _, e := range cg.out[fn] {
			if reach[e.callee] && !e.spawn {
				outward[e.site] = true
			}
			if e.callee == fn && !e.spawn {
				recursive = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := sendsRequest(in); ok {
					outward[in] = true
				}
			}
		}
		// loops
		for _, l := range naturalLoops(fn) {
			found := false
			for b := range l.body {
				for _, in := range b.Instrs {
					found = found || outward[in]
				}
			}
			if !found || strings.HasPrefix(l.header.Comment, "rangeindex") || strings.HasPrefix(l.header.Comment, "rangeiter") {
				continue
			}
			n := 0
			r := &Run{P: c.P, NoPeel: true}
			r.OnBackEdge = func(st *St, b *BackEdge) {
				if b.Header != l.header {
					return
				}
				n++
				c.ob("retries-bounded", at+" loop", c.P.posOf(fn.Pos()), bounded(st, b), "a loop calls out again without a bound on the number of rounds; path: %s", st.describeFacts())
			}
			root := fn
			for root.Parent() != nil {
				root = root.Parent()
			}
			c.run(r, root, nil, nil)
			c.ob("retries-bounded", at+" loop reached", c.P.posOf(fn.Pos()), n > 0, "a loop that calls out was not reached by the analysis")
		}
		if recursive {
			n := 0
			r := &Run{P: c.P, Opaque: func(x string) bool { return x == at }}
			r.OnCall = func(st *St, rec *CallRec) {
				if rec.Name != at || rec.Opened {
					return
				}
				n++
				ok := false
				args := rec.Args
				if rec.Recv != nil {
					args = append([]*Term{rec.Recv}, args...)
				}
				for i, a := range args {
					if i >= len(fn.Params) || a.kind != KBin || a.op != "+" || a.args[0] != rootParam(fn, i) {
						continue
					}
					d, isC := intOf(a.args[1])
					if !isC {
						continue
					}
					lo, hi, _ := st.intRange(a)
					if d < 0 && lo != nil || d > 0 && hi != nil {
						ok = true
					}
				}
				c.ob("retries-bounded", at+" recursion", c.P.posOf(rec.Pos()), ok, "%s calls itself again without a decreasing bound on the number of rounds; path: %s", at, st.describeFacts())
			}
			root := fn
			for root.Parent() != nil {
				root = root.Parent()
			}
			c.run(r, root, nil, nil)
			c.ob("retries-bounded", at+" recursion reached", c.P.posOf(fn.Pos()), n > 0, "a recursion that calls out was not reached by the analysis")
		}
		// longer cycles
		for _, e := range cg.out[fn] {
			if e.callee != fn && !e.spawn && reach[e.callee] && cg.reachableNow(e.callee)[fn] {
				c.ob("retries-bounded", at+" cycle", c.P.posOf(e.site.Pos()), false, "%s and %s call each other while calling out", at, ssaName(e.callee))
			}
		}
	}
}

// reachableNow follows calls made synchronously.
func (g *callGraph) reachableNow(from *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	work := []*ssa.Function{from}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if out[f] {
			continue
		}
		out[f] = true
		for _, e := range g.out[f] {
			if !e.spawn {
				work = append(work, e.callee)
			}
		}
	}
	return out
}

// bounded: this round moves a counter towards a bound that the path has compared it with.
func bounded(st *St, b *BackEdge) bool {
	for ph, in := range b.In {
		out := b.Out[ph]
		if out == nil || out.kind != KBin || out.op != "+" || out.args[0] != in {
			continue
		}
		d, ok := intOf(out.args[1])
		if !ok || d == 0 {
			continue
		}
		fixed := func(t *Term) bool {
			return !contains(t, func(x *Term) bool { return x.kind == KLoop })
		}
		for f, v := range st.facts {
			if f.kind != KBin || (f.op != "<" && f.op != "==") {
				continue
			}
			l, r := f.args[0], f.args[1]
			if f.op == "==" {
				// counting in steps of one to a fixed value cannot be decided to stop in general
				continue
			}
			near := func(t *Term) bool {
				return t == in || t == out || t.kind == KBin && t.op == "+" && t.args[0] == in && t.args[1].kind == KConst
			}
			up := v && near(l) && fixed(r) || !v && near(r) && fixed(l)
			down := v && near(r) && fixed(l) || !v && near(l) && fixed(r)
			if d > 0 && up || d < 0 && down {
				return true
			}
		}
	}
	return false
}

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func naturalLoops(fn *ssa.Function) (out []natLoop) {
	by := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := by[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				by[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for h, body := range by {
		out = append(out, natLoop{h, body})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.Index < out[j].header.Index })
	return
}

func init() {
	checks["C22"] = func(c *Check) { c.timeBounded() }
	explain["C22"] = "Every place of the handwritten code that makes or changes an http.Client is run over all abstract paths: the client's Timeout must be positive when the place is left. Every place that sends a request must use such a client (never a package-level default), and on every path on which an answer arrived its body must have been closed by the time the function (or the caller it hands the answer to) returns. Every loop and recursion from which an outward call is reachable must count towards a bound."
}
