package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The path trie: every operation must walk from the root along exactly the segments of its key.

const fnSegment = "~/adapter/policy/store/pathtrie.PathSegmenter"

type trieRun struct {
	fn   *ssa.Function
	r    *Run
	e    edges
	outs []Outcome
	recv *Term
	key  *Term

	loop  string
	node  *ssa.Phi
	idx   *ssa.Phi
	part  *ssa.Phi // nil when the segment is cut inside the iteration
	vals  *ssa.Phi
	cell  *Term // the collected values' variable, when they are not a loop variable
	valIn *Term // their value at the start of an iteration
	calls []*CallRec
}

func (c *Check) trie(method string) []*trieRun {
	var out []*trieRun
	for _, t := range c.implsIn(pkgTrie, "Trie") {
		fn := c.P.methodOf(t, method)
		if !c.need(fn != nil && len(fn.Params) >= 2, "Trie."+method) {
			continue
		}
		w := &trieRun{fn: fn, recv: rootParam(fn, 0), key: rootParam(fn, 1)}
		w.r = &Run{P: c.P, Record: names("builtin.append"), Models: map[string]modelFn{fnSegment: pureModel}}
		w.e.attach(w.r)
		out = append(out, w)
	}
	c.need(len(out) > 0, "an implementation of Trie")
	return out
}

func (w *trieRun) run(c *Check) {
	w.outs = w.r.Root(w.fn, nil, c.P.initialState())
	c.account(w.r, w.fn, len(w.outs))
}

// seg: t is result i of cutting the key at position pos.
func (w *trieRun) seg(t *Term, i int) (pos *Term, ok bool) {
	if t == nil || t.kind != KExtract || t.op != itoa(i) {
		return nil, false
	}
	call := t.args[0]
	n := calleeName(call)
	if n != fnSegment && !(strings.HasPrefix(n, "dynamic:") && isSegmenter(call)) {
		return nil, false
	}
	k := len(call.args)
	if k < 2 || call.args[k-2] != w.key {
		return nil, false
	}
	return call.args[k-1], true
}

// isSegmenter: the function called has the segmenter's type.
func isSegmenter(call *Term) bool {
	in, ok := call.instr.(ssa.CallInstruction)
	return ok && in.Common().Value != nil && strings.HasSuffix(typeName(in.Common().Value.Type()), "pathtrie.StringSegmenter")
}

// child: t is n's child for the segment p.
func child(t, n *Term) (p *Term, ok bool) {
	if t != nil && t.kind == KLookup && n != nil && tableField(t.args[0], n) != nil {
		return t.args[1], true
	}
	return nil, false
}

func isMinusOne(st *St, x *Term) bool {
	return st.holds(mkEq(x, mkInt(-1))) || st.holds(mkLess(x, mkInt(0)))
}

// absent: the path shows that the child looked up does not exist.
func absent(st *St, ch *Term) bool {
	if st.isNil(ch) {
		return true
	}
	return ch.kind == KLookup && st.refuted(intern(KLookupOk, ch.op, nil, ch.args...))
}

func notMinusOne(st *St, x *Term) bool {
	return st.refuted(mkEq(x, mkInt(-1))) || st.refuted(mkLess(x, mkInt(0)))
}

// step: the term the walk moves to in the iteration with these loop-carried values, and the position after its segment.
func (w *trieRun) segmentOf(p *Term, in, out map[*ssa.Phi]*Term) (next *Term, ok bool) {
	if w.part != nil && in[w.part] != nil && p == in[w.part] {
		return in[w.idx], true
	}
	if pos, ok := w.seg(p, 0); ok && pos == in[w.idx] {
		return extract(p.args[0], 1), true
	}
	return nil, false
}

// find recognises the walk in the collected loop edges; "" if it is one.
func (w *trieRun) find(created func(*BackEdge, *Term) bool) string {
	why := "no loop walks from the root along the key's segments"
	for k, bs := range w.e.back {
		for ph := range bs[0].In {
			w.loop, w.node, w.idx, w.part = k, ph, nil, nil
			if !w.isNode(bs, created) {
				continue
			}
			// index and segment variables
			for ix := range bs[0].In {
				if pos, ok := w.seg(bs[0].Out[ix], 1); ok && (pos == bs[0].In[ix]) {
					w.idx = ix
				}
			}
			for pt := range bs[0].In {
				if _, ok := w.seg(bs[0].Out[pt], 0); ok {
					w.part = pt
				}
			}
			if w.idx == nil {
				continue
			}
			if why = w.verify(bs, created); why == "" {
				return ""
			}
		}
	}
	return why
}

func (w *trieRun) isNode(bs []*BackEdge, created func(*BackEdge, *Term) bool) bool {
	for _, b := range bs {
		n, o := b.In[w.node], b.Out[w.node]
		if n == nil || o == nil {
			return false
		}
		if _, ok := child(o, n); !ok && (created == nil || !created(b, o)) {
			return false
		}
	}
	return true
}

func (w *trieRun) verify(bs []*BackEdge, created func(*BackEdge, *Term) bool) string {
	es := w.e.entry[w.loop]
	if len(es) == 0 {
		return "the walk's start is not known"
	}
	for _, x := range es {
		if x.Out[w.node] != w.recv {
			return "the walk does not start at the root"
		}
		if w.part != nil {
			p0, ok0 := w.seg(x.Out[w.part], 0)
			p1, ok1 := w.seg(x.Out[w.idx], 1)
			if !ok0 || !ok1 || p0 != p1 || !isConstInt(p0, 0) || x.Out[w.part].args[0] != x.Out[w.idx].args[0] {
				return "the walk does not start with the key's first segment"
			}
		} else if !isConstInt(x.Out[w.idx], 0) {
			return "the walk does not start with the key's first segment"
		}
	}
	for _, b := range bs {
		if b.Peeled {
			continue
		}
		p, ok := child(b.Out[w.node], b.In[w.node])
		if !ok {
			p = nil
			for m, v := range b.St.heap {
				if m.kind == KMapAddr && v == b.Out[w.node] && (tableField(m.args[0], b.In[w.node]) != nil) {
					p = m.args[1]
				}
			}
			if p == nil {
				return "a step goes to a node that is not the current node's child"
			}
		}
		next, ok := w.segmentOf(p, b.In, b.Out)
		if !ok {
			return "a step does not follow the key's next segment"
		}
		if !notMinusOne(b.St, next) && !(w.part == nil && notMinusOne(b.St, b.In[w.idx])) {
			return "the walk goes on behind the last segment"
		}
		if o := b.Out[w.node]; !b.St.isNonNil(o) && !w.checksFirst(b) && !(o.kind == KLookup && b.St.holds(intern(KLookupOk, o.op, nil, o.args...))) {
			return "the walk goes on from a missing node"
		}
		if w.part != nil {
			q0, ok0 := w.seg(b.Out[w.part], 0)
			q1, ok1 := w.seg(b.Out[w.idx], 1)
			if !ok0 || !ok1 || q0 != b.In[w.idx] || q1 != q0 || b.Out[w.part].args[0] != b.Out[w.idx].args[0] {
				return "the walk does not advance to the key's next segment"
			}
		} else if b.Out[w.idx] != next {
			return "the walk does not advance to the key's next segment"
		}
	}
	return ""
}

// checksFirst: the iteration began by checking the node it starts at.
func (w *trieRun) checksFirst(b *BackEdge) bool {
	n := b.In[w.node]
	return n.kind == KLoop && b.St.refuted(mkEq(n, mkNil(nil)))
}

// last decodes where the walk ended on a path: the child looked up last and whether the key was used up.
func (w *trieRun) last(st *St, extra ...*Term) (n, ch, next *Term) {
	bs := w.e.back[w.loop]
	if len(bs) == 0 {
		return nil, nil, nil
	}
	in := bs[0].In
	n = in[w.node]
	look := func(f *Term) {
		contains(f, func(t *Term) bool {
			if t.kind == KLookupOk {
				t = intern(KLookup, t.op, nil, t.args...)
			}
			if p, ok := child(t, n); ok {
				if nx, ok := w.segmentOf(p, in, nil); ok {
					ch, next = t, nx
				}
			}
			return ch != nil
		})
	}
	for _, f := range extra {
		if ch == nil {
			look(f)
		}
	}
	for f := range st.facts {
		if ch == nil {
			look(f)
		}
	}
	for a, v := range st.heap {
		if ch == nil && a.kind == KMapAddr && tableField(a.args[0], n) != nil {
			if nx, ok := w.segmentOf(a.args[1], in, nil); ok {
				ch, next = v, nx
			}
		}
	}
	return
}

// valueOf: t is the value stored at node n.
func valueOf(t, n *Term) bool {
	return t != nil && t.kind == KField && t.args[0].kind == KDeref && t.args[0].args[0] == n && t.typ != nil && types.IsInterface(t.typ)
}

func chainOf(t *Term) (base *Term, els []*Term) {
	if t.kind == KPure && t.op == "append" {
		if t.args[0].kind == KList && t.args[1].kind == KLoop {
			return t, nil // what a loop-carried list held at first, and what was added since
		}
		b, e := chainOf(t.args[0])
		if t.args[1].kind == KList {
			return b, append(append([]*Term(nil), e...), t.args[1].args...)
		}
		return b, append(append([]*Term(nil), e...), t.args[1])
	}
	if t.kind == KList {
		return nil, t.args
	}
	return t, nil
}

// takeWild consumes the value at n's wildcard child from els, unless the path shows there is none.
func takeWild(st *St, n *Term, els []*Term) ([]*Term, bool) {
	isWild := func(x *Term) bool {
		p, ok := child(x, n)
		return ok && sameStr(p, "/*")
	}
	isVal := func(x *Term) bool {
		return x.kind == KField && x.args[0].kind == KDeref && isWild(x.args[0].args[0]) && valueOf(x, x.args[0].args[0])
	}
	if len(els) > 0 && isVal(unboxConv(els[0])) {
		return els[1:], true
	}
	for f, v := range st.facts {
		if v && f.kind == KBin && f.op == "==" {
			for i := 0; i < 2; i++ {
				if f.args[1-i].kind == KNil && (isWild(f.args[i]) || isVal(f.args[i])) {
					return els, true
				}
			}
		}
		if !v && f.kind == KLookupOk && sameStr(f.args[1], "/*") && tableField(f.args[0], n) != nil {
			return els, true
		}
	}
	return els, false
}

func takeValue(st *St, n *Term, els []*Term) ([]*Term, bool) {
	if len(els) > 0 && valueOf(unboxConv(els[0]), n) {
		return els[1:], true
	}
	for f, v := range st.facts {
		if v && f.kind == KBin && f.op == "==" {
			for i := 0; i < 2; i++ {
				if f.args[1-i].kind == KNil && valueOf(f.args[i], n) {
					return els, true
				}
			}
		}
	}
	return els, false
}

// findVals finds what collects the values.
func (w *trieRun) findVals(bs []*BackEdge) {
	for ph := range bs[0].In {
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			for _, b := range bs {
				if in := b.In[ph]; in != nil && (w.valIn == nil || in.kind == KLoop) {
					w.vals, w.valIn = ph, in
				}
			}
			return
		}
	}
	cells := map[*Term]bool{}
	for a := range bs[0].St.heap {
		cells[a] = true
	}
	for a := range bs[0].St.base {
		cells[a] = true
	}
	for a := range cells {
		if a.kind != KAlloc || pointee(a) == nil {
			continue
		}
		if _, ok := pointee(a).Underlying().(*types.Slice); !ok {
			continue
		}
		var in *Term
		for _, b := range bs {
			base, _ := chainOf(b.St.load(a))
			if base == nil || base.kind != KHavoc || (in != nil && in != base) {
				in = nil
				break
			}
			in = base
		}
		if in != nil && (w.cell == nil || a.id < w.cell.id) {
			w.cell, w.valIn = a, in
		}
	}
}

// isBase: a chain with this base extends the values collected before the iteration (of edge b, if given).
func (w *trieRun) isBase(base *Term, b *BackEdge) bool {
	if b != nil && w.vals != nil {
		in := b.In[w.vals]
		return base == in || (in.kind == KNil && base == nil)
	}
	if base == w.valIn {
		return true
	}
	if w.vals != nil && base != nil && base.kind == KPure {
		for _, b := range w.e.back[w.loop] {
			if b.In[w.vals] == base {
				return true
			}
		}
	}
	if w.vals != nil && (base == nil || base.kind == KNil) {
		for _, b := range w.e.back[w.loop] {
			if b.In[w.vals] != nil && b.In[w.vals].kind == KNil {
				return true
			}
		}
	}
	return false
}

func (w *trieRun) valOut(b *BackEdge) *Term {
	if w.vals != nil {
		return b.Out[w.vals]
	}
	return b.St.load(w.cell)
}

func (c *Check) trieWalks() {
	c.segmenter()
	for _, w := range c.trie("GetAll") {
		w.run(c)
		at := ssaName(w.fn)
		pos := c.P.posOf(w.fn.Pos())
		why := w.find(nil)
		if !c.ob("walk-follows-key", at, pos, why == "", "%s", why) {
			continue
		}
		// the collected values: the loop-carried slice or local variable the result is built on
		bs := w.e.back[w.loop]
		w.findVals(bs)
		if !c.ob("walk-collects", at, pos, w.valIn != nil, "the values met on the walk are not collected") {
			continue
		}
		style := 0
		for _, x := range w.e.entry[w.loop] {
			b, els := chainOf(w.valOut(x))
			empty := b == nil || x.St.holds(mkEq(mkLen(b), mkInt(0))) || x.St.isNil(b)
			c.ob("collection-starts-empty", at, pos, empty, "the collected values do not start empty")
			rest, ok := takeWild(x.St, w.recv, els)
			s := 1
			if !ok || len(rest) > 0 {
				s = 2
				c.ob("root-wildcard", at, pos, len(els) == 0, "the collection starts with values that are not the root's wildcard value")
			}
			if style != 0 && style != s {
				s = 3
			}
			style = s
		}
		if style == 0 || style == 3 {
			c.ob("root-wildcard", at, pos, false, "the whole-service prefix may be left out of the collected values")
			continue
		}
		for _, b := range bs {
			if b.Peeled {
				continue
			}
			base, els := chainOf(w.valOut(b))
			n := b.Out[w.node]
			if style == 2 {
				n = b.In[w.node]
			}
			rest, ok := takeWild(b.St, n, els)
			c.ob("enclosing-prefix-collected", at, pos, w.isBase(base, b) && ok && len(rest) == 0,
				"a prefix enclosing the key may be left out of, or something else added to, the collected values; iteration: %s", b.St.describeFacts())
		}
		for _, o := range w.outs {
			n, ch, next := w.last(o.st)
			rpos := c.P.posOf(o.ret.Pos())
			facts := o.st.describeFacts()
			if in := bs[0].In[w.idx]; ch == nil && w.part == nil && isMinusOne(o.st, in) {
				// the key was used up before this iteration
				base, els := chainOf(o.res[0])
				k1 := true
				if style == 2 {
					els, k1 = takeWild(o.st, n, els)
				}
				els, k2 := takeValue(o.st, n, els)
				c.ob("final-values-collected", at, rpos, w.isBase(base, nil) && k1 && k2 && len(els) == 0, "returns values other than those of all enclosing prefixes, then the key's own (%v); path: %s", o.res[0], facts)
				continue
			}
			if ch == nil && absent(o.st, bs[0].In[w.node]) {
				// the walk had left the tree before this iteration
				base, els := chainOf(o.res[0])
				c.ob("final-values-collected", at, rpos, w.isBase(base, nil) && len(els) == 0, "returns values other than those of all enclosing prefixes, then the key's own (%v); path: %s", o.res[0], facts)
				continue
			}
			if ch == nil {
				c.ob("final-values-collected", at, rpos, false, "returns without having walked the key; path: %s", facts)
				continue
			}
			base, els := chainOf(o.res[0])
			ok := w.isBase(base, nil)
			if style == 2 {
				var k bool
				els, k = takeWild(o.st, n, els)
				ok = ok && k
			}
			if !absent(o.st, ch) {
				var k1, k2 bool
				els, k1 = takeWild(o.st, ch, els)
				els, k2 = takeValue(o.st, ch, els)
				ok = ok && k1 && k2 && isMinusOne(o.st, next)
			}
			c.ob("final-values-collected", at, rpos, ok && len(els) == 0, "returns values other than those of all enclosing prefixes, then the key's own (%v); path: %s", o.res[0], facts)
		}
	}
	c.atLeast("final-values-collected", 3)
	c.atLeast("enclosing-prefix-collected", 2)
}

// segmenter: consecutive cuts partition the key, and every trie uses this segmenter.
func (c *Check) segmenter() {
	fn := c.P.Func(pkgTrie, "PathSegmenter")
	if !c.need(fn != nil, "pathtrie.PathSegmenter") {
		return
	}
	at := ssaName(fn)
	path, start := rootParam(fn, 0), rootParam(fn, 1)
	for _, o := range c.run(&Run{}, fn, nil, nil) {
		st := o.st
		pos := c.P.posOf(o.ret.Pos())
		segm, next := o.res[0], o.res[1]
		switch {
		case sameStr(segm, ""):
			ok := st.holds(mkEq(mkLen(path), mkInt(0))) || st.holds(mkEq(path, mkStr(""))) || st.holds(mkLess(start, mkInt(0)))
			if !ok { // start beyond the end
				for f, v := range st.facts {
					if f.kind == KBin && f.op == "<" && mentions(f, start) && mentions(f, path) && (v || !v) {
						ok = true
					}
				}
			}
			c.ob("segment-empty-only-outside", at, pos, ok && isConstInt(next, -1), "an empty segment is cut although the key has more text; path: %s", st.describeFacts())
		case isConstInt(next, -1):
			ok := segm.kind == KSlice && segm.op == "100" && segm.args[0] == path && segm.args[1] == start && noMoreSlash(st, path, start)
			c.ob("last-segment-whole-rest", at, pos, ok, "the last segment is not the rest of the key after the last slash (%v); path: %s", segm, st.describeFacts())
		default:
			ok := segm.kind == KSlice && segm.op == "110" && segm.args[0] == path && segm.args[1] == start
			if ok {
				d := segm.args[2]
				ok = d == next || (sub(d, next) != nil && *sub(d, next) == 0) || sameSum(d, next)
				ok = ok && nextSlash(st, next, path, start)
			}
			c.ob("segment-up-to-next-slash", at, pos, ok, "a segment does not end where the next begins, at the next slash (%v, %v); path: %s", segm, next, st.describeFacts())
		}
	}
	c.atLeast("last-segment-whole-rest", 1)
	c.atLeast("segment-up-to-next-slash", 1)
	// every trie node is cut by it
	n := 0
	for _, f := range c.P.Fns {
		if !c.P.handwritten(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(typeName(derefType(fa.Type())), "pathtrie.StringSegmenter") {
					continue
				}
				v := s.Val
				for {
					if x, ok := v.(*ssa.ChangeType); ok {
						v = x.X
						continue
					}
					break
				}
				g, ok := v.(*ssa.Function)
				n++
				c.ob("tries-use-segmenter", ssaName(f), c.P.posOf(in.Pos()), ok && g == fn, "a trie node uses another segmenter")
			}
		}
	}
}

// indexIn: t is the position of the next slash in path behind start.
func indexIn(t, path, start *Term) bool {
	if t.kind != KPure || (t.op != "strings.IndexRune" && t.op != "strings.IndexByte" && t.op != "strings.Index") {
		return false
	}
	s := t.args[0]
	if s.kind != KSlice || s.op != "100" || s.args[0] != path {
		return false
	}
	d := sub(s.args[1], start)
	if d == nil || *d != 1 {
		return false
	}
	n, ok := constInt64(t.args[1])
	return (ok && n == '/') || sameStr(t.args[1], "/")
}

func noMoreSlash(st *St, path, start *Term) bool {
	ok := false
	for f := range st.facts {
		contains(f, func(t *Term) bool {
			if indexIn(t, path, start) && isMinusOne(st, t) {
				ok = true
			}
			return ok
		})
	}
	return ok
}

func flatSum(t *Term, sgn int64, m map[*Term]int64, n *int64) {
	if k, ok := intOf(t); ok {
		*n += sgn * k
		return
	}
	if t.kind == KBin && len(t.args) == 2 && (t.op == "+" || t.op == "-") {
		flatSum(t.args[0], sgn, m, n)
		if t.op == "-" {
			sgn = -sgn
		}
		flatSum(t.args[1], sgn, m, n)
		return
	}
	m[t] += sgn
}

func sameSum(a, b *Term) bool {
	m := map[*Term]int64{}
	var n int64
	flatSum(a, 1, m, &n)
	flatSum(b, -1, m, &n)
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return n == 0
}

// nextSlash: next is start+1+index of the next slash, which exists.
func nextSlash(st *St, next, path, start *Term) bool {
	m := map[*Term]int64{}
	var n int64
	flatSum(next, 1, m, &n)
	ok := n == 1 && m[start] == 1
	idx := false
	for t, k := range m {
		if k == 0 || t == start {
			continue
		}
		if k == 1 && indexIn(t, path, start) && notMinusOne(st, t) {
			idx = true
		} else {
			return false
		}
	}
	return ok && idx
}
