package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: a policy's targets are translated into exactly the endpoints they describe.

// accum is a list that a loop extends: a loop-carried slice or a local variable.
type accum struct {
	phi  *ssa.Phi
	cell *Term
	in   *Term // its value at the start of an arbitrary iteration
}

func sliceOf(t types.Type, elem string) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(s.Elem()) == elem
}

// accums finds the lists of the element type that the loop with these ends may extend.
func accums(bs []*BackEdge, elem string) []*accum {
	var out []*accum
	for ph := range bs[0].In {
		if sliceOf(ph.Type(), elem) {
			out = append(out, &accum{phi: ph, in: bs[0].In[ph]})
		}
	}
	cells := map[*Term]bool{}
	for _, b := range bs {
		for a := range b.St.heap {
			cells[a] = true
		}
		for a := range b.St.base {
			cells[a] = true
		}
	}
	for a := range cells {
		if a.kind != KAlloc || !sliceOf(pointee(a), elem) {
			continue
		}
		var in *Term
		for _, b := range bs {
			base, _ := flatChain(b.St.load(a))
			if base == nil || base.kind != KHavoc || (in != nil && in != base) {
				in = nil
				break
			}
			in = base
		}
		if in != nil {
			out = append(out, &accum{cell: a, in: in})
		}
	}
	return out
}

func (a *accum) out(b *BackEdge) *Term {
	if a.phi != nil {
		return b.Out[a.phi]
	}
	return b.St.load(a.cell)
}

// flatChain splits nested appends into the list extended and the elements or lists added.
func flatChain(t *Term) (base *Term, els []*Term) {
	b, es := chainOf(t)
	for _, e := range es {
		if e.kind == KPure && e.op == "append" || e.kind == KList {
			ib, ie := flatChain(e)
			if ib != nil && !emptyList(ib) {
				els = append(els, ib)
			}
			els = append(els, ie...)
			continue
		}
		if !emptyList(e) {
			els = append(els, e)
		}
	}
	return b, els
}

// emptyList: t is a list without elements.
func emptyList(t *Term) bool {
	if t == nil {
		return true
	}
	if n, ok := intOf(mkLen(t)); ok {
		return n == 0
	}
	return t.kind == KNil || t.kind == KZero
}

// suffixForm evaluates a text built from P by adding and removing constant suffixes, where P is
// B followed by end; it answers what follows B.
func suffixForm(t, p *Term, end string) (string, bool) {
	if t == p {
		return end, true
	}
	if t.kind == KBin && t.op == "cat" {
		s, ok := suffixForm(t.args[0], p, end)
		for _, a := range t.args[1:] {
			x, isC := strOf(a)
			ok = ok && isC
			s += x
		}
		return s, ok
	}
	if t.kind == KPure && len(t.args) == 2 && (t.op == "strings.TrimSuffix" || t.op == "strings.TrimRight") {
		s, ok := suffixForm(t.args[0], p, end)
		x, isC := strOf(t.args[1])
		if !ok || !isC {
			return "", false
		}
		if t.op == "strings.TrimRight" {
			if len(x) != 1 || strings.Trim(s, x) == "" { // may eat into B
				return "", false
			}
			return strings.TrimRight(s, x), true
		}
		if len(x) > len(s) && strings.HasSuffix(x, s) && s == "" {
			// B itself ends in none of the suffixes considered
			return s, true
		}
		return strings.TrimSuffix(s, x), true
	}
	if t.kind == KSlice && t.op == "010" {
		s, ok := suffixForm(t.args[0], p, end)
		if d := sub(t.args[1], mkLen(t.args[0])); ok && d != nil && *d <= 0 && int(-*d) <= len(s) {
			return s[:len(s)+int(*d)], true
		}
	}
	return "", false
}

// prefixPath: t is the prefix p in its stored form, which ends in "/*".
func prefixPath(st *St, t, p *Term) bool {
	has := func(s string) *bool {
		f := mkPure("strings.HasSuffix", types.Typ[types.Bool], p, mkStr(s))
		if v, ok := st.facts[f]; ok {
			return &v
		}
		return nil
	}
	star, slash := has("/*"), has("/")
	n := 0
	for _, end := range []string{"/*", "/", ""} {
		if star != nil && *star != (end == "/*") {
			continue
		}
		if slash != nil && *slash != (end == "/") {
			continue
		}
		n++
		s, ok := suffixForm(t, p, end)
		if !ok || s != "/*" {
			return false
		}
	}
	return n > 0
}

func exactPath(st *St, t, p *Term) bool {
	if t == p {
		return st.holds(mkEq(p, mkStr("/")))
	}
	return t.kind == KPure && (t.op == "strings.TrimRight" || t.op == "strings.TrimSuffix") && t.args[0] == p && sameStr(t.args[1], "/") && st.refuted(mkEq(p, mkStr("/")))
}

func (c *Check) parseTargets() {
	fn := c.P.Func(pkgCrd, "ParseTarget")
	if !c.need(fn != nil && len(fn.Params) == 2, "crdeventhandler.ParseTarget") {
		return
	}
	at := ssaName(fn)
	target, ns := rootParam(fn, 0), rootParam(fn, 1)
	r := &Run{P: c.P, NoPeel: true, Models: map[string]modelFn{fnMethod: pureModel}, Record: names("builtin.append")}
	var e edges
	e.attach(r)
	outs := c.run(r, fn, nil, nil)
	const elem = "~/adapter/policy.PolicyMapping"

	// mapping: x is what the path p of target t describes, with the given stored path
	mapping := func(st *St, x, t, p *Term) (path *Term, why string) {
		if x == nil || x.typ == nil || typeName(x.typ) != elem {
			return nil, "something that is not an endpoint is added"
		}
		g := func(f string) *Term { return st.get(x, f) }
		switch {
		case g("Endpoint.Service.Namespace") != ns || g("Endpoint.Service.Name") != st.get(t, "ServiceName"):
			return nil, "the endpoint belongs to another service than the target's in the policy's namespace"
		case p != nil && !(isCallTo(g("Endpoint.Method"), fnMethod) && g("Endpoint.Method").args[0] == st.get(p, "Method")):
			return nil, "the endpoint has another method than the one declared"
		case p != nil && g("Actions") != st.get(p, "Policies"):
			return nil, "the endpoint has other actions than those declared"
		}
		return g("Endpoint.Path"), ""
	}
	// pathEnd checks what the iteration ending in b adds for path p of target t
	pathEnd := func(b *BackEdge, els []*Term, t, p *Term) string {
		st := b.St
		exact, prefix := st.get(p, "Exact"), st.get(p, "Prefix")
		noExact, noPrefix := st.holds(mkEq(exact, mkStr(""))), st.holds(mkEq(prefix, mkStr("")))
		gotE, gotP, gotA := 0, 0, 0
		trimmed := false
		for f, v := range st.facts {
			if v && f.kind == KBin && f.op == "==" {
				for i := 0; i < 2; i++ {
					if sameStr(f.args[i], "") && f.args[1-i].kind == KPure && strings.HasPrefix(f.args[1-i].op, "strings.Trim") && f.args[1-i].args[0] == exact {
						trimmed = true // the exact path consists of slashes only
					}
				}
			}
		}
		for _, x := range els {
			path, why := mapping(st, x, t, p)
			switch {
			case why != "":
				return why
			case exactPath(st, path, exact):
				if !st.refuted(mkEq(exact, mkStr(""))) {
					return "an exact path is stored although none may be declared"
				}
				gotE++
			case prefixPath(st, path, prefix):
				if !st.refuted(mkEq(prefix, mkStr(""))) {
					return "a prefix is stored although none may be declared"
				}
				gotP++
			case sameStr(path, "/*"):
				if !(noExact || trimmed) || !noPrefix {
					return "the whole service is covered although a path may be declared"
				}
				gotA++
			default:
				return "the path stored (" + path.String() + ") is not the declared one in its normal form"
			}
		}
		switch {
		case !noExact && gotE == 0:
			return "a declared exact path may be left out"
		case !noPrefix && gotP == 0:
			return "a declared prefix may be left out"
		case noExact && noPrefix && gotA == 0:
			return "a target without a path may be left out"
		}
		return ""
	}

	var outer *LoopRec
	for _, o := range outs {
		if ls := loopsOver(o.st, target); len(ls) > 0 {
			outer = ls[0]
		}
	}
	if !c.need(outer != nil, "the loop over the targets in "+at) {
		return
	}
	pos := c.P.posOf(fn.Pos())
	ok := loopKey(outer.Header, outer.Ctx)
	obs := e.back[ok]
	var acc *accum
	var why string
	for _, a := range accums(obs, elem) {
		why = ""
		for _, x := range e.entry[ok] {
			if b, els := flatChain(a.out(x)); !emptyList(b) || len(els) > 0 {
				why = "the list of endpoints does not start empty"
			}
		}
		for _, b := range obs {
			t := outer.elem(b)
			paths := b.St.get(t, "Paths")
			base, els := flatChain(a.out(b))
			if ls := loopsOver(b.St, paths); len(ls) > 0 {
				l := ls[len(ls)-1]
				k := loopKey(l.Header, l.Ctx)
				good := false
				for _, ia := range accums(e.back[k], elem) {
					// the inner list continues the outer one, or starts empty and is added as a whole
					cont := base == ia.in && len(els) == 0
					own := base == a.in && len(els) == 1 && els[0] == ia.in
					if own && ia.phi != nil && ia.in == nil {
						own = false
					}
					if !cont && !own {
						continue
					}
					good = true
					for _, x := range e.entry[k] {
						ib, ie := flatChain(ia.out(x))
						if cont && !(ib == a.in && len(ie) == 0) || own && !(emptyList(ib) && len(ie) == 0) {
							good = false
						}
					}
				}
				if !good {
					why = "the endpoints of a target's paths may be lost"
				}
				continue
			}
			if !knownEmpty(b.St, paths) {
				why = "a target's paths may be skipped: " + b.St.describeFacts()
				continue
			}
			if base != a.in {
				why = "endpoints collected before may be lost"
			}
			for _, x := range els { // a target without paths may cover its whole service
				if p, w := mapping(b.St, x, t, nil); w != "" || !sameStr(p, "/*") {
					why = "a target without paths yields another endpoint than its whole service"
				}
			}
		}
		if why == "" {
			acc = a
			break
		}
	}
	c.ob("every-target-translated", at, pos, acc != nil, "%s", why)
	// the loops over a target's paths
	n := 0
	for k, bs := range e.back {
		if k == ok {
			continue
		}
		var rec *LoopRec
		for _, b := range obs {
			for _, ev := range b.St.events() {
				if ev.loop != nil && loopKey(ev.loop.Header, ev.loop.Ctx) == k {
					rec = ev.loop
				}
			}
		}
		if rec == nil || rec.Over == nil || rec.Over.kind != KField {
			continue
		}
		t := rec.Over.args[0]
		if !elementOf(t, target) {
			continue
		}
		as := accums(bs, elem)
		c.ob("path-translated", at, pos, len(as) > 0, "the loop over a target's paths collects nothing")
		for _, a := range as {
			for _, b := range bs {
				base, els := flatChain(a.out(b))
				w := ""
				if base != a.in {
					w = "endpoints collected before may be lost"
				} else {
					w = pathEnd(b, els, t, rec.elem(b))
				}
				c.ob("path-translated", at, pos, w == "", "%s; iteration: %s", w, b.St.describeFacts())
				n++
			}
		}
	}
	c.ob("path-translated", at+" cases", pos, n >= 3, "only %d cases of path declarations found", n)
	for _, o := range outs {
		rpos := c.P.posOf(o.ret.Pos())
		res := o.res[0]
		good := false
		if acc != nil && len(loopsOver(o.st, target)) > 0 {
			good = res == acc.in
			if acc.phi != nil && !good {
				good = outer.Phis[acc.phi] == res
			}
		}
		if !good && knownEmpty(o.st, target) {
			b, els := flatChain(res)
			good = emptyList(b) && len(els) == 0
		}
		c.ob("translation-returned", at, rpos, good, "answers %v, not the endpoints collected; path: %s", res, o.st.describeFacts())
	}
	c.atLeast("path-translated", 4)
	c.atLeast("translation-returned", 1)
}
