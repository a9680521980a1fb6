package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: objects handed out by the shared informer cache are read, never written.

// partOf: the value is root, or was read out of memory reachable from root; fresh copies made by
// allocation or by calls are not.
func partOf(t *Term, root func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if root(t) {
		return true
	}
	switch t.kind {
	case KFieldAddr, KIndexAddr, KMapAddr, KField, KIndex, KDeref, KConv, KIface, KAssert, KSlice, KSliceOf, KLookup, KExtract, KHavoc:
		return len(t.args) > 0 && partOf(t.args[0], root)
	case KTuple, KList:
		for _, a := range t.args {
			if partOf(a, root) {
				return true
			}
		}
	case KRangeV, KRangeK:
		return len(t.args) > 0 && partOf(t.args[0], root)
	case KPure:
		return t.op == "append" && partOf(t.args[0], root)
	}
	return false
}

// isMemory: values of this type refer to memory that other holders see.
func isMemory(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// writes reports every write into memory reachable from the roots.
type writes struct {
	c    *Check
	at   string
	what string
	root func(*Term) bool
	n    int
	r    *Run
}

func (w *writes) attach(r *Run) {
	w.r = r
	depth := 0
	// what loop-carried values start from
	flows, busy := map[*Term][]*Term{}, map[*Term]bool{}
	r.OnLoopEntry = func(st *St, b *BackEdge) {
		for ph, v := range b.Out {
			flows[b.In[ph]] = append(flows[b.In[ph]], v)
		}
	}
	root := w.root
	w.root = func(t *Term) bool {
		if root(t) {
			return true
		}
		if t.kind != KLoop || busy[t] {
			return false
		}
		busy[t] = true
		defer delete(busy, t)
		for _, v := range flows[t] {
			if partOf(v, w.root) {
				return true
			}
		}
		return false
	}
	fresh := func(a *Term) bool {
		base := addrRoot(a)
		return base.kind == KAlloc || base.kind == KGlobal
	}
	r.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) {
		w.n++
		bad := !fresh(addr) && partOf(addr, w.root)
		w.c.ob("cache-object-unchanged", w.at, w.c.P.posOf(in.Pos()), !bad, "writes %v, which belongs to %s, in %s; path: %s", addr, w.what, ssaName(in.Parent()), st.describeFacts())
	}
	r.OnMapUpdate = func(st *St, m, k, v *Term, in ssa.Instruction) {
		w.n++
		w.c.ob("cache-object-unchanged", w.at, w.c.P.posOf(in.Pos()), !partOf(m, w.root), "writes into the map %v, which belongs to %s, in %s", m, w.what, ssaName(in.Parent()))
	}
	prev := r.OnCall
	r.OnCall = func(st *St, rec *CallRec) {
		if prev != nil {
			prev(st, rec)
		}
		if strings.HasPrefix(rec.Name, "go:") && depth < 3 {
			depth++
			spawned(r, spawn{rec, st.clone()})
			depth--
			return
		}
		for _, a := range w.mutated(rec) {
			if a == nil {
				continue
			}
			x := unboxConv(a)
			if x == nil || !isMemory(x.typ) {
				continue
			}
			w.n++
			w.c.ob("cache-object-unchanged", w.at, w.c.P.posOf(rec.Pos()), !partOf(x, w.root), "%s writes into %v, which belongs to %s", rec.Name, x, w.what)
		}
	}
}

func (c *CallRec) Pos() (p token.Pos) {
	if c.Instr != nil {
		return c.Instr.Pos()
	}
	return 0
}

// mutated: the arguments a library function writes into.
func (w *writes) mutated(rec *CallRec) []*Term {
	n := rec.Name
	short := n[strings.LastIndex(n, ".")+1:]
	switch {
	case n == "builtin.append":
		// writes behind the end of the slice: only a slice capped to its length keeps its memory
		b := rec.Args[0]
		if b.kind == KSlice && strings.HasSuffix(b.op, "1") && len(b.op) == 3 {
			return nil
		}
		return rec.Args[:1]
	case n == "builtin.copy", n == "builtin.delete":
		return rec.Args[:1]
	case strings.HasPrefix(n, "sort."), strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse", strings.HasPrefix(n, "slices.Compact"), strings.HasPrefix(n, "slices.Delete"):
		if len(rec.Args) > 0 {
			return rec.Args[:1]
		}
	case short == "Unmarshal" || strings.HasPrefix(short, "Unmarshal") || short == "Decode" || short == "DecodeInto":
		return append([]*Term{rec.Recv}, rec.Args...)
	case short == "DeepCopyInto":
		return rec.Args[len(rec.Args)-1:]
	case strings.HasPrefix(n, "(") && (strings.HasPrefix(short, "Set") || strings.HasPrefix(short, "Reset") || strings.HasPrefix(short, "Add") || strings.HasPrefix(short, "Delete") || strings.HasPrefix(short, "Merge")):
		return []*Term{rec.Recv}
	}
	return nil
}

// parsedRules: a rule list that the parsed target shares with the object it was parsed from.
func parsedRules(t *Term) bool {
	s, ok := t.typ, false
	if s != nil {
		if sl, is := s.Underlying().(*types.Slice); is {
			ok = strings.HasSuffix(sl.Elem().String(), "policies/v1.Rule")
		}
	}
	return ok && derives(t, func(x *Term) bool { return isCallTo(x, fnParse) })
}

func (c *Check) cacheObjects() {
	for _, kind := range []string{"JwtConfig", "OidcConfig", "Policy"} {
		t := c.P.Type(pkgV1, kind)
		if !c.need(t != nil, "v1."+kind) {
			return
		}
		obj := symbol("cached", types.NewPointer(t))
		for _, m := range []string{"HandleAddUpdateEvent"} {
			for _, it := range c.implsIn(pkgHandler, "PolicyHandler") {
				fn := c.P.methodOf(it, m)
				if !c.need(fn != nil && len(fn.Params) == 2, "PolicyHandler."+m) {
					continue
				}
				r := &Run{P: c.P, Models: map[string]modelFn{fnKeysetNew: pureModel, fnAuthNew: pureModel, fnParse: pureModel}}
				w := &writes{c: c, at: ssaName(fn) + " " + kind, what: "the informer cache's object", root: func(t *Term) bool { return t == obj || parsedRules(t) }}
				w.attach(r)
				outs := r.Root(fn, map[string]*Term{"#1": mkIface(obj, obj.typ)}, c.P.initialState())
				c.account(r, fn, len(outs))
				c.ob("event-handled", ssaName(fn)+" "+kind, c.P.posOf(fn.Pos()), len(outs) > 0, "the handler never returns")
				c.ob("cache-object-unchanged", ssaName(fn)+" "+kind+" writes", c.P.posOf(fn.Pos()), true, "")
			}
		}
	}
	if fn := c.P.Func(pkgCrd, "ParseTarget"); c.need(fn != nil && len(fn.Params) == 2, "crdeventhandler.ParseTarget") {
		targets := rootParam(fn, 0)
		r := &Run{P: c.P, NoPeel: true, Models: map[string]modelFn{fnMethod: pureModel}}
		w := &writes{c: c, at: ssaName(fn), what: "the informer cache's object", root: func(t *Term) bool { return t == targets }}
		w.attach(r)
		outs := r.Root(fn, nil, c.P.initialState())
		c.account(r, fn, len(outs))
		c.ob("event-handled", ssaName(fn), c.P.posOf(fn.Pos()), len(outs) > 0, "the parser never returns")
	}
	c.atLeast("cache-object-unchanged", 6)
	c.atLeast("event-handled", 3)
}

// storedPolicies: what the store holds shares memory with the informer cache's objects, so the
// readers of the store do not write into it either.
func (c *Check) storedPolicies() {
	for _, it := range c.implsIn(pkgEngine, "PolicyEngine") {
		fn := c.P.methodOf(it, "Evaluate")
		if !c.need(fn != nil, "PolicyEngine.Evaluate") {
			continue
		}
		r := &Run{P: c.P}
		w := &writes{c: c, at: ssaName(fn), what: "the policy store", root: func(t *Term) bool { return strings.HasPrefix(calleeName(t), ifcStore) }}
		w.attach(r)
		outs := r.Root(fn, nil, c.P.initialState())
		c.account(r, fn, len(outs))
		c.ob("readers-analysed", ssaName(fn), c.P.posOf(fn.Pos()), len(outs) > 0, "the engine never returns")
	}
	for _, it := range c.implsIn("adapter/strategy", "Strategy") {
		fn := c.P.methodOf(it, "HandleAuthnZRequest")
		if !c.need(fn != nil && len(fn.Params) == 3, "Strategy.HandleAuthnZRequest") {
			continue
		}
		rules := initial(rootParam(fn, 2), "Rules")
		r := &Run{P: c.P}
		w := &writes{c: c, at: ssaName(fn), what: "the policy's rules", root: func(t *Term) bool { return t == rules }}
		w.attach(r)
		outs := r.Root(fn, nil, c.P.initialState())
		c.account(r, fn, len(outs))
		c.ob("readers-analysed", ssaName(fn), c.P.posOf(fn.Pos()), len(outs) > 0, "the strategy never returns")
	}
	for _, it := range c.implsIn(pkgValidator, "TokenValidator") {
		fn := c.P.methodOf(it, "Validate")
		if !c.need(fn != nil && len(fn.Params) == 6, "TokenValidator.Validate") {
			continue
		}
		rules := rootParam(fn, 4)
		r := &Run{P: c.P}
		w := &writes{c: c, at: ssaName(fn), what: "the policy's rules", root: func(t *Term) bool { return t == rules }}
		w.attach(r)
		outs := r.Root(fn, nil, c.P.initialState())
		c.account(r, fn, len(outs))
		c.ob("readers-analysed", ssaName(fn), c.P.posOf(fn.Pos()), len(outs) > 0, "the validator never returns")
	}
	c.atLeast("readers-analysed", 5)
}

func init() {
	checks["C18"] = func(c *Check) {
		c.cacheObjects()
		c.storedPolicies()
	}
	explain["C18"] = "Ownership analysis: every store, map update, deletion, in-place append, copy, sort and decoding on every path of the event handlers is attributed to the memory it writes; memory reached from the received object through fields, elements, conversions and slices is owned by the cache and may not be written, fresh allocations and deep copies may. The readers of the stored policies, which share that memory, are analysed the same way."
}
