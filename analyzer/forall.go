package main

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// edges collects the ends of loop iterations of a run, by loop and calling context.
type edges struct {
	back  map[string][]*BackEdge
	entry map[string][]*BackEdge
}

func loopKey(h *ssa.BasicBlock, ctx string) string {
	return ssaName(h.Parent()) + "/" + strconv.Itoa(h.Index) + "/" + ctx
}

func (e *edges) attach(r *Run) {
	e.back, e.entry = map[string][]*BackEdge{}, map[string][]*BackEdge{}
	r.OnBackEdge = func(st *St, b *BackEdge) {
		b.St = st.clone()
		e.back[loopKey(b.Header, b.Ctx)] = append(e.back[loopKey(b.Header, b.Ctx)], b)
	}
	r.OnLoopEntry = func(st *St, b *BackEdge) {
		b.St = st.clone()
		e.entry[loopKey(b.Header, b.Ctx)] = append(e.entry[loopKey(b.Header, b.Ctx)], b)
	}
}

// elem is the element of rec.Over that the iteration ending in b worked on.
func (rec *LoopRec) elem(b *BackEdge) *Term {
	if rec.Over == nil || rec.Phi == nil || b.In[rec.Phi] == nil {
		return nil
	}
	return mkIndex(rec.Over, addInt(b.In[rec.Phi], rec.Pre))
}

func addInt(t *Term, n int64) *Term {
	if n == 0 {
		return t
	}
	return mkBin(token.ADD, t, mkInt(n), types.Typ[types.Int])
}

// forall: whenever the loop of rec ends the way it did in st, every element of rec.Over satisfied cond.
// Iterations that do not satisfy it are tolerated if they set a loop-carried flag that the
// path to st has found unset.
func (e *edges) forall(st *St, rec *LoopRec, cond func(b *BackEdge, elem *Term) bool) (bool, *BackEdge) {
	all := e.back[loopKey(rec.Header, rec.Ctx)]
	for _, b := range all {
		el := rec.elem(b)
		if el == nil {
			return false, b
		}
		if cond(b, el) {
			continue
		}
		if !e.latched(st, rec, b, all) && !e.deferred(st, rec, b, el, all, cond) {
			return false, b
		}
	}
	return true, nil
}

// deferred: the iteration b put its element on a list from which nothing is removed and all of
// which a later loop of the path to st dealt with.
func (e *edges) deferred(st *St, rec *LoopRec, b *BackEdge, el *Term, all []*BackEdge, cond func(b *BackEdge, elem *Term) bool) bool {
	for ph, t := range rec.Phis {
		if t == nil || !isSlice(ph.Type()) {
			continue
		}
		ok := true
		for _, x := range all {
			if _, grows := added(x, ph); !grows {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		on, at := false, false
		part := -1
		xs, _ := added(b, ph)
		for _, x := range xs {
			x = unbox(x)
			on = on || x == el
			if x.kind == KField && x.args[0] == el && el.typ != nil {
				if u, ok := el.typ.Underlying().(*types.Struct); ok {
					for i := 0; i < u.NumFields(); i++ {
						if mkField(el, i) == x {
							part = i
						}
					}
				}
			}
			at = at || x.kind == KIndexAddr && el.kind == KIndex && x.args[0] == el.args[0] && x.args[1] == el.args[1]
		}
		if len(xs) > 0 && knownEmpty(st, t) {
			return true // the path to st found the list empty
		}
		if !on && !at && part < 0 {
			continue
		}
		later := cond
		if !on && !at { // the list holds a field of the elements
			u := el.typ.Underlying().(*types.Struct)
			later = func(b *BackEdge, p *Term) bool {
				fs := make([]*Term, u.NumFields())
				for i := range fs {
					fs[i] = internX(KOpaque, "other field "+u.Field(i).Name(), u.Field(i).Type(), nil, p)
				}
				fs[part] = p
				return cond(b, intern(KStruct, "", el.typ, fs...))
			}
		} else if !on { // the list holds the elements' addresses
			later = func(b *BackEdge, p *Term) bool { return cond(b, b.St.load(p)) }
		}
		for _, ev := range st.events() {
			if ev.loop == nil || ev.loop == rec || ev.loop.Over != t {
				continue
			}
			if good, _ := e.forall(st, ev.loop, later); good {
				return true
			}
		}
	}
	return false
}

// origin is one way a list element came about.
type origin struct {
	st *St
	t  *Term
}

// origins: t is an element of a list that a loop before st appended to; what it may be, each with
// the state in which it was appended.
func (e *edges) origins(st *St, t *Term) []origin {
	self := []origin{{st, t}}
	if t.kind != KIndex || t.args[0].kind != KLoop {
		return self
	}
	l := t.args[0]
	var out []origin
	for k, bs := range e.back {
		for _, b := range bs {
			for ph, in := range b.In {
				if in != l {
					continue
				}
				for _, x := range bs {
					xs, ok := added(x, ph)
					if !ok {
						return self
					}
					for _, y := range xs {
						out = append(out, origin{x.St, unbox(y)})
					}
				}
				for _, x := range e.entry[k] {
					if x.In[ph] != l || x.Out[ph] == nil {
						continue
					}
					es, ok := x.St.elems(x.Out[ph])
					if !ok {
						return self
					}
					for _, y := range es {
						out = append(out, origin{x.St, unbox(y)})
					}
				}
				if len(e.entry[k]) == 0 {
					return self
				}
				return out
			}
		}
	}
	return self
}

// added: what the iteration appended to a loop-carried list; not ok if it did anything else to it.
func added(b *BackEdge, ph *ssa.Phi) ([]*Term, bool) {
	in, out := b.In[ph], b.Out[ph]
	switch {
	case in == nil || out == nil:
		return nil, false
	case in == out:
		return nil, true
	case out.kind == KPure && out.op == "append" && len(out.args) == 2 && out.args[0] == in && out.args[1].kind == KList:
		return out.args[1].args, true
	case out.kind == KList:
		es, ok := b.St.elems(in)
		if !ok || len(es) > len(out.args) {
			return nil, false
		}
		for i, e := range es {
			if e != out.args[i] {
				return nil, false
			}
		}
		return out.args[len(es):], true
	}
	return nil, false
}

func sameVal(st *St, a, b *Term) bool { return a == b || st.holds(mkEq(a, b)) }

func differs(st *St, a, b *Term) bool { return st.refuted(mkEq(a, b)) }

func (e *edges) latched(st *St, rec *LoopRec, b *BackEdge, all []*BackEdge) bool {
	for ph := range rec.Phis {
		v := e.exitValue(st, rec, ph)
		if v == nil || b.Out[ph] == nil || !differs(b.St, b.Out[ph], v) {
			continue
		}
		ok := true
		for _, x := range all {
			if x.In[ph] == nil || x.Out[ph] == nil {
				ok = false
				break
			}
			if !sameVal(x.St, x.In[ph], v) && !differs(x.St, x.Out[ph], v) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	for ph := range rec.Phis {
		if e.counted(st, rec, ph, b, all) || e.tallied(st, rec, ph, b, all) {
			return true
		}
	}
	return false
}

// counted: ph counts upwards from a constant, the iteration b counted, and the path to st found
// the counter still at its start.
func (e *edges) counted(st *St, rec *LoopRec, ph *ssa.Phi, b *BackEdge, all []*BackEdge) bool {
	t := rec.Phis[ph]
	entry := e.entry[loopKey(rec.Header, rec.Ctx)]
	if t == nil || len(entry) == 0 {
		return false
	}
	var start *Term // the lowest value the counter starts with
	first := func(v *Term) bool {
		if v == nil {
			return false
		}
		n, ok := intOf(v)
		if !ok {
			return false
		}
		if start != nil {
			if m, _ := intOf(start); m <= n {
				return true
			}
		}
		start = v
		return true
	}
	for _, x := range entry {
		if !first(x.Out[ph]) {
			return false
		}
	}
	for _, x := range all {
		if x.Peeled && !first(x.In[ph]) {
			return false
		}
	}
	if v := e.exitValue(st, rec, ph); v != start && !st.refuted(mkBin(token.LSS, start, t, types.Typ[types.Bool])) {
		return false
	}
	up := func(x *BackEdge) (step, ok bool) {
		in, out := x.In[ph], x.Out[ph]
		if in == nil || out == nil {
			return false, false
		}
		if in == out {
			return false, true
		}
		d := mkBin(token.SUB, out, in, types.Typ[types.Int])
		n, isInt := intOf(d)
		if !isInt {
			for _, k := range []int64{1, 2} {
				if out == addInt(in, k) {
					n, isInt = k, true
				}
			}
		}
		return n > 0, isInt && n > 0
	}
	for _, x := range all {
		if _, ok := up(x); !ok {
			return false
		}
	}
	step, ok := up(b)
	return ok && step
}

// tallied: ph counts iterations, b did not count, and the path to st found as many counted as
// there are elements.
func (e *edges) tallied(st *St, rec *LoopRec, ph *ssa.Phi, b *BackEdge, all []*BackEdge) bool {
	t := rec.Phis[ph]
	entry := e.entry[loopKey(rec.Header, rec.Ctx)]
	if t == nil || rec.Over == nil || rec.Phi == nil || ph == rec.Phi || len(entry) == 0 {
		return false
	}
	n := st.lenOf(rec.Over)
	if !st.holds(mkEq(t, n)) && !st.refuted(mkBin(token.LSS, t, n, types.Typ[types.Bool])) {
		return false
	}
	// at most as many counted as iterations done
	atMost := func(m map[*ssa.Phi]*Term) bool {
		v, i := m[ph], m[rec.Phi]
		if v == nil || i == nil {
			return false
		}
		a, ok := intOf(v)
		k, ok2 := intOf(i)
		return ok && ok2 && a <= k+rec.Pre
	}
	for _, x := range entry {
		if !atMost(x.Out) {
			return false
		}
	}
	for _, x := range all {
		in, out := x.In[ph], x.Out[ph]
		if in == nil || out == nil || x.Peeled && !atMost(x.In) || out != in && out != addInt(in, 1) {
			return false
		}
	}
	return b.In[ph] == b.Out[ph]
}

// exitValue is the nil, boolean or integer constant the flag had when the loop ended.
func (e *edges) exitValue(st *St, rec *LoopRec, ph *ssa.Phi) *Term {
	t := rec.Phis[ph]
	if t == nil {
		return nil
	}
	if t.kind == KConst || t.kind == KNil {
		return t
	}
	if st.isNil(t) {
		return mkNil(nil)
	}
	return st.constOf(t)
}

// exists: the path to st shows that some iteration of the loop satisfied cond, because a
// loop-carried flag has a value only such iterations give it.
func (e *edges) exists(st *St, rec *LoopRec, cond func(b *BackEdge, elem *Term) bool) bool {
	k := loopKey(rec.Header, rec.Ctx)
	for ph := range rec.Phis {
		v := e.exitValue(st, rec, ph)
		if v == nil || len(e.back[k]) == 0 || len(e.entry[k]) == 0 {
			continue
		}
		ok := true
		for _, x := range e.entry[k] {
			if x.Out[ph] == nil || (!differs(x.St, x.Out[ph], v) && !e.peeledSet(k, x, ph, v, rec, cond)) {
				ok = false
			}
		}
		for _, x := range e.back[k] {
			if x.In[ph] == nil || x.Out[ph] == nil {
				ok = false
				break
			}
			if differs(x.St, x.Out[ph], v) || sameVal(x.St, x.In[ph], v) {
				continue
			}
			el := rec.elem(x)
			if el == nil || !cond(x, el) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// peeledSet: the flag already had the value after the unrolled iterations, which set it properly.
func (e *edges) peeledSet(k string, entry *BackEdge, ph *ssa.Phi, v *Term, rec *LoopRec, cond func(b *BackEdge, elem *Term) bool) bool {
	found := false
	for _, x := range e.back[k] {
		if !x.Peeled || x.Out[ph] == nil || x.In[ph] == nil || differs(x.St, x.Out[ph], v) {
			continue
		}
		el := rec.elem(x)
		if !sameVal(x.St, x.In[ph], v) && (el == nil || !cond(x, el)) {
			return false
		}
		found = true
	}
	return found
}
