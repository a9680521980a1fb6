package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lock-set analysis: an interprocedural, context-sensitive dataflow over SSA. Starting from every
// operation that runs concurrently (request handler, go statements, callbacks handed to libraries),
// calls are followed with their argument values; the state carries the locks held, the registered
// defers, and which freshly allocated objects have become reachable for other goroutines.

// lval is the abstract value of an SSA value: an identity plus where it came from.
type lval struct {
	id    string
	fresh bool  // allocated by this operation (private until published)
	owned bool  // reachable only from this operation's own message
	nilc  bool  // the nil constant
	root  *lval // address inside the object root points to
	rtype types.Type
	path  string // field path below root
	elem  *lval  // address of an element of this slice

	own  string // loaded from own.fld of the object base
	fld  string
	base string

	fn    *ssa.Function
	binds []*lval
	tuple []*lval
	alts  []*lval
	snap  map[string]*lval // a copied struct: what its fields held, by path
	rlock bool             // RLocker() of the lock
}

func (v *lval) key() string {
	if v == nil {
		return "_"
	}
	if len(v.alts) > 0 {
		var ks []string
		for _, a := range v.alts {
			ks = append(ks, a.key())
		}
		return "{" + strings.Join(ks, "|") + "}"
	}
	if len(v.tuple) > 0 {
		var ks []string
		for _, a := range v.tuple {
			ks = append(ks, a.key())
		}
		return "(" + strings.Join(ks, ",") + ")"
	}
	s := v.id
	for _, f := range sortedSnap(v.snap) {
		s += "," + f + "=" + v.snap[f].key()
	}
	if v.fn != nil {
		s += "#" + v.fn.String()
		for _, b := range v.binds {
			s += "," + b.key()
		}
	}
	return s
}

func sortedSnap(m map[string]*lval) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func joinVal(a, b *lval, site string) *lval {
	if a == nil || a.nilc {
		if b == nil {
			return a
		}
		return b
	}
	if b == nil || b.nilc || a.key() == b.key() {
		return a
	}
	if len(a.tuple) > 0 && len(a.tuple) == len(b.tuple) {
		r := &lval{id: site}
		for i := range a.tuple {
			r.tuple = append(r.tuple, joinVal(a.tuple[i], b.tuple[i], fmt.Sprintf("%s.%d", site, i)))
		}
		return r
	}
	m := map[string]*lval{}
	add := func(v *lval) {
		if len(v.alts) > 0 {
			for _, x := range v.alts {
				m[x.key()] = x
			}
			return
		}
		m[v.key()] = v
	}
	add(a)
	add(b)
	if len(m) > 24 {
		own := true
		for _, x := range m {
			own = own && (x.owned || x.nilc)
		}
		return &lval{id: "?" + site, owned: own}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := &lval{id: site}
	for _, k := range ks {
		r.alts = append(r.alts, m[k])
	}
	return r
}

func (v *lval) each(f func(*lval)) {
	if v == nil {
		return
	}
	if len(v.alts) > 0 {
		for _, a := range v.alts {
			f(a)
		}
		return
	}
	f(v)
}

type lockID struct {
	owner, field, base string
	kind               byte // 'M' mutex, 'S' shared fetch (singleflight), 'O' once
}

func (l lockID) name() string   { return l.owner + l.field }
func (l lockID) String() string { return l.owner + l.field + "@" + l.base }

// lstate is one disjunct of the state.
type lstate struct {
	held   map[lockID]byte // 'R' or 'W'
	defers []ldefer
	pub    map[string]bool
	mem    map[string]*lval
}

type ldefer struct {
	call ssa.CallInstruction
	fv   *lval
	args []*lval
}

func newLState() *lstate {
	return &lstate{held: map[lockID]byte{}, pub: map[string]bool{}, mem: map[string]*lval{}}
}

func (s *lstate) clone() *lstate {
	n := newLState()
	for k, v := range s.held {
		n.held[k] = v
	}
	n.defers = append([]ldefer(nil), s.defers...)
	for k := range s.pub {
		n.pub[k] = true
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

func (s *lstate) key() string {
	var ks []string
	for k, m := range s.held {
		ks = append(ks, k.String()+string(m))
	}
	sort.Strings(ks)
	for _, d := range s.defers {
		ks = append(ks, fmt.Sprintf("d%p", d.call))
	}
	return strings.Join(ks, ";")
}

// absorb merges another disjunct with the same locks; it reports whether anything changed.
func (s *lstate) absorb(o *lstate) bool {
	ch := false
	for k := range o.pub {
		if !s.pub[k] {
			s.pub[k] = true
			ch = true
		}
	}
	for k, v := range s.mem {
		w := o.mem[k]
		if w == nil {
			delete(s.mem, k)
			ch = true
			continue
		}
		j := joinVal(v, w, "mem:"+k)
		if j.key() != v.key() {
			s.mem[k] = j
			ch = true
		}
	}
	return ch
}

func (s *lstate) isFresh(v *lval) bool {
	ok := true
	n := 0
	v.each(func(a *lval) {
		n++
		switch {
		case a.nilc, a.owned:
		case a.fresh && !s.pub[a.id]:
		default:
			ok = false
		}
	})
	return ok && n > 0
}

// access is one read or write of possibly shared memory.
type access struct {
	region string // type.path, map:type, slice:type, var@…
	path   string
	rtype  string
	write  bool
	base   string
	held   map[lockID]byte
	fn     *ssa.Function
	pos    token.Pos
	thread string
}

type lockEvent struct {
	what   string // double, unheld, blocking, exit
	lock   lockID
	other  string
	fn     *ssa.Function
	pos    token.Pos
	thread string
}

type lockOrder struct{ a, b string }

type lroot struct {
	fn    *ssa.Function
	args  []*lval
	binds []*lval
	pub   map[string]bool
	name  string
}

type lockAnalysis struct {
	p        *Prog
	g        *callGraph
	edges    map[ssa.Instruction][]*ssa.Function
	accesses []access
	seenAcc  map[string]bool
	events   []lockEvent
	seenEv   map[string]bool
	order    map[lockOrder]lockEvent
	acquires map[string]int // lock name -> acquisition sites
	roots    []lroot
	rootSeen map[string]bool
	visited  map[*ssa.Function]bool
	steps    int
	over     bool
	shared   map[string]bool // type strings reachable from shared state
	thread   string
	base     string
	record   bool
	contains map[string][]*lval
	nCalls   int
	ends     int
}

type lframe struct {
	fn   *ssa.Function
	args []*lval
	free []*lval
	env  map[ssa.Value]*lval
	path string // call string
	up   *lframe
	deep int
}

func (p *Prog) lockAnalysis() *lockAnalysis {
	if p.la != nil {
		return p.la
	}
	a := &lockAnalysis{p: p, g: p.callGraph(), edges: map[ssa.Instruction][]*ssa.Function{}, seenAcc: map[string]bool{}, seenEv: map[string]bool{},
		order: map[lockOrder]lockEvent{}, acquires: map[string]int{}, rootSeen: map[string]bool{}, visited: map[*ssa.Function]bool{}, shared: map[string]bool{}, contains: map[string][]*lval{}}
	p.la = a
	for _, es := range a.g.out {
		for _, e := range es {
			if !e.later {
				a.edges[e.site] = append(a.edges[e.site], e.callee)
			}
		}
	}
	a.sharedTypes()
	// the request handler
	for _, t := range p.Impls("config/template", "HandleAuthnZServiceServer") {
		if fn := p.methodOf(t, "HandleAuthnZ"); fn != nil && p.handwritten(fn) {
			var args []*lval
			for i := range fn.Params {
				args = append(args, &lval{id: fmt.Sprintf("req%d", i), owned: i > 0})
			}
			a.addRoot(lroot{fn: fn, args: args, name: "request"})
		}
	}
	// the start-up thread
	if sp := p.SPkgs["cmd"]; sp != nil {
		if m := sp.Func("main"); m != nil {
			a.addRoot(lroot{fn: m, name: "start"})
		}
	}
	a.record = true
	a.drain()
	// functions nothing reached: exported operations used by nobody yet; only lock discipline matters
	a.record = false
	for _, fn := range p.Fns {
		if a.visited[fn] || fn.Parent() != nil || fn.Name() == "init" {
			continue
		}
		a.addRoot(lroot{fn: fn, name: "unused"})
		a.drain()
	}
	return a
}

func (a *lockAnalysis) drain() {
	for len(a.roots) > 0 {
		r := a.roots[0]
		a.roots = a.roots[1:]
		a.thread = r.name
		st := newLState()
		for k := range r.pub {
			st.pub[k] = true
		}
		fr := &lframe{fn: r.fn, args: r.args, free: r.binds, env: map[ssa.Value]*lval{}, path: r.name + ":" + r.fn.Name()}
		for _, o := range a.function(fr, st) {
			a.ends++
			for l := range o.st.held {
				if l.kind == 'M' {
					a.event(lockEvent{what: "exit", lock: l, fn: r.fn, pos: r.fn.Pos()})
				}
			}
		}
	}
}

func (a *lockAnalysis) addRoot(r lroot) {
	k := r.fn.String()
	for _, b := range append(append([]*lval(nil), r.args...), r.binds...) {
		k += "|" + b.key()
	}
	if a.rootSeen[k] {
		return
	}
	a.rootSeen[k] = true
	a.roots = append(a.roots, r)
}

// sharedTypes collects the types reachable from the server object, the globals and cached values.
func (a *lockAnalysis) sharedTypes() {
	p := a.p
	seen := map[string]bool{}
	var concrete []types.Type
	for path, pk := range p.Pkgs {
		if generated(path) {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() && !types.IsInterface(tn.Type()) {
				concrete = append(concrete, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		k := typeName(t)
		if seen[k] {
			return
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		case *types.Map:
			visit(u.Key())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		case *types.Interface:
			if u.NumMethods() == 0 || types.Identical(u, types.Universe.Lookup("error").Type().Underlying()) {
				return // what is stored there is found by its own type below
			}
			for _, c := range concrete {
				if types.Implements(c, u) {
					visit(c)
				}
			}
		}
	}
	for _, t := range p.Impls("config/template", "HandleAuthnZServiceServer") {
		visit(t)
	}
	for path, sp := range p.SPkgs {
		if generated(path) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				visit(g.Type())
			}
		}
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				// values put into an any-typed slot (caches, tries) and receivers of goroutines
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if i, ok := mi.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 && !forLogging(mi) {
						if t := mi.X.Type(); inModuleType(t) {
							visit(t)
						}
					}
				}
				if g, ok := in.(*ssa.Go); ok {
					for _, x := range g.Call.Args {
						visit(x.Type())
					}
					if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
						for _, x := range mc.Bindings {
							visit(x.Type())
						}
					}
				}
			}
		}
	}
	a.shared = seen
}

func inModuleType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path())
}

// forLogging: the boxed value is only handed to a call outside the module (decoders, loggers, formatters).
func forLogging(mi *ssa.MakeInterface) bool {
	refs := mi.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && inModule(fnPkgPath(f)) {
				continue // e.g. HTTPClient.Do's decode targets
			} else if f == nil || strings.HasPrefix(f.String(), "(*sync.Map)") || strings.HasPrefix(f.String(), "(*sync/atomic") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (a *lockAnalysis) event(e lockEvent) {
	e.thread = a.thread
	k := e.what + "|" + e.lock.name() + "|" + e.other + "|" + e.fn.String()
	if !a.seenEv[k] {
		a.seenEv[k] = true
		a.events = append(a.events, e)
	}
}

func (a *lockAnalysis) note(fr *lframe, st *lstate, v *lval, rtype types.Type, path, region string, write bool, pos token.Pos) {
	if !a.record {
		return
	}
	h := map[lockID]byte{}
	var hs []string
	for k, m := range st.held {
		if b := k.base; k.owner == "lock " {
			b = k.field
			if strings.HasPrefix(b, "new@") && !st.pub[b] {
				continue
			}
		} else if strings.HasPrefix(b, "new@") && !strings.ContainsAny(b, "|*") && !st.pub[b] {
			continue // a lock no other goroutine can reach: a copy
		}
		h[k] = m
		hs = append(hs, k.String()+string(m))
	}
	sort.Strings(hs)
	base := a.base
	if base == "" && v != nil {
		base = v.id
	}
	rt := ""
	if rtype != nil {
		rt = typeName(rtype)
	}
	k := fmt.Sprintf("%s|%v|%s|%s|%d|%s", region+path, write, base, strings.Join(hs, ","), pos, a.thread)
	if a.seenAcc[k] {
		return
	}
	a.seenAcc[k] = true
	a.accesses = append(a.accesses, access{region: region, path: path, rtype: rt, write: write, base: base, held: h, fn: fr.fn, pos: pos, thread: a.thread})
}

// touch records a load or store through addr.
func (a *lockAnalysis) touch(fr *lframe, st *lstate, addr *lval, t types.Type, write bool, pos token.Pos) {
	a.base = ""
	if len(addr.alts) > 0 {
		bases := map[string]bool{}
		addr.each(func(v *lval) {
			if v.root != nil {
				bases[v.root.id] = true
			}
		})
		a.base = strings.Join(sortedKeys(bases), "|")
	}
	defer func() { a.base = "" }()
	addr.each(func(v *lval) {
		switch {
		case v.root != nil:
			if st.isFresh(v.root) || v.root.elem != nil && st.isFresh(holderOf(v.root)) {
				return
			}
			if v.root.elem != nil && v.rtype == nil {
				return
			}
			if strings.HasPrefix(v.root.id, "G:") {
				a.note(fr, st, v.root, v.rtype, v.path, v.root.id, write, pos)
				return
			}
			if v.rtype == nil || !a.shared[typeName(v.rtype)] {
				return
			}
			a.note(fr, st, v.root, v.rtype, v.path, typeName(v.rtype), write, pos)
		case v.elem != nil:
			if st.isFresh(v.elem) {
				return
			}
			k := "slice:[]" + typeName(t)
			if a.shared["[]"+typeName(t)] {
				a.note(fr, st, v.elem, nil, "", k, write, pos)
			}
		case strings.HasPrefix(v.id, "G:"):
			a.note(fr, st, v, nil, "", v.id, write, pos)
		case strings.HasPrefix(v.id, "new@"):
			if st.pub[v.id] {
				if _, ok := t.Underlying().(*types.Struct); ok {
					if a.shared[typeName(t)] {
						a.note(fr, st, v, t, "", typeName(t), write, pos)
					}
					return
				}
				a.note(fr, st, v, nil, "", "variable "+v.id, write, pos)
			}
		default:
			if v.owned || v.nilc {
				return
			}
			if _, ok := t.Underlying().(*types.Struct); ok && a.shared[typeName(t)] {
				a.note(fr, st, v, t, "", typeName(t), write, pos)
			}
		}
	})
}

func (a *lockAnalysis) publish(st *lstate, v *lval) {
	if v == nil {
		return
	}
	for _, t := range v.tuple {
		a.publish(st, t)
	}
	v.each(func(x *lval) {
		for _, b := range x.binds {
			a.publish(st, b)
		}
		for _, f := range x.snap {
			a.publish(st, f)
		}
		if x.root != nil {
			a.publish(st, x.root)
		}
		if x.elem != nil {
			a.publish(st, x.elem)
		}
		if x.fresh && !st.pub[x.id] {
			st.pub[x.id] = true
			for _, c := range a.contains[x.id] {
				a.publish(st, c)
			}
		}
	})
}

// keep remembers that val is reachable from the object holder.
func (a *lockAnalysis) keep(st *lstate, holder, val *lval) {
	if val == nil || val.nilc {
		return
	}
	if !st.isFresh(holder) || holder.owned {
		a.publish(st, val)
		return
	}
	holder.each(func(h *lval) {
		for _, x := range a.contains[h.id] {
			if x.key() == val.key() {
				return
			}
		}
		a.contains[h.id] = append(a.contains[h.id], val)
	})
}

func holderOf(addr *lval) *lval {
	for addr.root != nil {
		addr = addr.root
	}
	if addr.elem != nil {
		return holderOf(addr.elem)
	}
	return addr
}

type lout struct {
	st  *lstate
	ret *lval
}

const lockStepLimit = 4000000

// function analyses one call and returns its exits.
func (a *lockAnalysis) function(fr *lframe, in *lstate) []lout {
	a.visited[fr.fn] = true
	if fr.fn.Blocks == nil {
		return []lout{{in, &lval{id: "?" + fr.path}}}
	}
	saved := in.defers
	start := in.clone()
	start.defers = nil
	ins := make([]map[string]*lstate, len(fr.fn.Blocks))
	for i := range ins {
		ins[i] = map[string]*lstate{}
	}
	type item struct {
		b int
		k string
	}
	queued := map[item]bool{}
	var work []item
	push := func(b int, s *lstate) {
		k := s.key()
		if old := ins[b][k]; old != nil {
			if !old.absorb(s) {
				return
			}
		} else {
			ins[b][k] = s.clone()
		}
		it := item{b, k}
		if !queued[it] {
			queued[it] = true
			work = append(work, it)
		}
	}
	push(0, start)
	exits := map[string]*lout{}
	var order []string
	for len(work) > 0 && !a.over {
		// lowest block first keeps the number of revisits small
		bi := 0
		for i := range work {
			if work[i].b < work[bi].b {
				bi = i
			}
		}
		it := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		queued[it] = false
		sts := []*lstate{ins[it.b][it.k].clone()}
		blk := fr.fn.Blocks[it.b]
		for _, instr := range blk.Instrs {
			a.steps++
			if a.steps > lockStepLimit {
				a.over = true
			}
			switch x := instr.(type) {
			case *ssa.Return:
				for _, s := range sts {
					r := &lval{id: "ret:" + fr.path}
					switch len(x.Results) {
					case 0:
					case 1:
						r = a.val(fr, s, x.Results[0])
					default:
						for _, v := range x.Results {
							r.tuple = append(r.tuple, a.val(fr, s, v))
						}
					}
					o := s.clone()
					o.defers = saved
					k := o.key()
					if old := exits[k]; old != nil {
						old.st.absorb(o)
						old.ret = joinVal(old.ret, r, "ret:"+fr.path)
					} else {
						exits[k] = &lout{o, r}
						order = append(order, k)
					}
				}
				sts = nil
			case *ssa.Panic:
				sts = nil
			case *ssa.Jump:
				for _, s := range sts {
					a.phis(fr, s, blk, blk.Succs[0])
					push(blk.Succs[0].Index, s)
				}
			case *ssa.If:
				for _, s := range sts {
					for i, sc := range blk.Succs {
						n := s.clone()
						if tl, neg := tryLock(x.Cond); tl != nil && (i == 0) != neg {
							a.lockOp(fr, n, tl, a.val(fr, n, tl.Call.Args[0]), strings.TrimPrefix(tl.Call.StaticCallee().Name(), "Try"))
						}
						a.phis(fr, n, blk, sc)
						push(sc.Index, n)
					}
				}
			case *ssa.RunDefers:
				var next []*lstate
				for _, s := range sts {
					cur := []*lstate{s}
					ds := s.defers
					for i := len(ds) - 1; i >= 0; i-- {
						var nn []*lstate
						for _, c := range cur {
							c.defers = nil
							for _, o := range a.call(fr, c, ds[i].call, ds[i].fv, ds[i].args) {
								nn = append(nn, o.st)
							}
						}
						cur = nn
					}
					next = append(next, cur...)
				}
				sts = mergeStates(next)
			case *ssa.Defer:
				for _, s := range sts {
					dup := false
					for _, d := range s.defers {
						dup = dup || d.call == ssa.CallInstruction(x)
					}
					if !dup {
						fv, args := a.operands(fr, s, x)
						s.defers = append(s.defers, ldefer{x, fv, args})
					}
				}
			case *ssa.Call:
				var next []*lstate
				for _, s := range sts {
					fv, args := a.operands(fr, s, x)
					for _, o := range a.call(fr, s, x, fv, args) {
						r := o.ret
						if r == nil {
							r = &lval{id: "?" + fr.path + "/" + x.Name()}
						}
						fr.set(x, r)
						next = append(next, o.st)
					}
				}
				sts = mergeStates(next)
			default:
				for _, s := range sts {
					a.instr(fr, s, instr)
				}
			}
		}
	}
	var out []lout
	for _, k := range order {
		out = append(out, *exits[k])
	}
	return out
}

func mergeStates(in []*lstate) []*lstate {
	m := map[string]*lstate{}
	var out []*lstate
	for _, s := range in {
		k := s.key()
		if o := m[k]; o != nil {
			o.absorb(s)
		} else {
			m[k] = s
			out = append(out, s)
		}
	}
	return out
}

func tryLock(v ssa.Value) (*ssa.Call, bool) {
	neg := false
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			v = u.X
			continue
		}
		break
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && (f.Name() == "TryLock" || f.Name() == "TryRLock") && strings.HasPrefix(f.String(), "(*sync.") {
			return c, neg
		}
	}
	return nil, false
}

func (fr *lframe) set(v ssa.Value, x *lval) {
	if old, ok := fr.env[v]; ok {
		x = joinVal(old, x, fr.path+"/"+v.Name())
	}
	fr.env[v] = x
}

func (a *lockAnalysis) phis(fr *lframe, st *lstate, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.set(ph, a.val(fr, st, ph.Edges[idx]))
	}
}

func (a *lockAnalysis) val(fr *lframe, st *lstate, v ssa.Value) *lval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &lval{id: "nil", nilc: true}
		}
		return &lval{id: "c:" + x.String(), owned: true}
	case *ssa.Global:
		return &lval{id: "G:" + strings.ReplaceAll(x.String(), modPath, "~")}
	case *ssa.Function:
		return &lval{id: "fn", fn: x}
	case *ssa.Builtin:
		return &lval{id: "builtin"}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.args) && fr.args[i] != nil {
				return fr.args[i]
			}
		}
		return &lval{id: "P:" + fr.path + ":" + x.Name()}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.free) && fr.free[i] != nil {
				return fr.free[i]
			}
		}
		return &lval{id: "F:" + fr.fn.String() + ":" + x.Name()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return &lval{id: "?" + fr.path + "/" + v.Name()}
}

func (a *lockAnalysis) operands(fr *lframe, st *lstate, c ssa.CallInstruction) (*lval, []*lval) {
	cc := c.Common()
	fv := a.val(fr, st, cc.Value)
	var args []*lval
	if cc.IsInvoke() {
		args = append(args, fv)
	}
	for _, x := range cc.Args {
		args = append(args, a.val(fr, st, x))
	}
	return fv, args
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (a *lockAnalysis) load(st *lstate, addr *lval, site string) *lval {
	var r *lval
	n := 0
	addr.each(func(v *lval) {
		var x *lval
		if m := st.mem[v.id]; m != nil {
			x = m
		} else {
			h := holderOf(v)
			x = &lval{id: v.id + "*", owned: h.owned}
			if len(x.id) > 200 {
				x.id = "?" + site
			}
			if v.root != nil && v.rtype != nil {
				x.own, x.fld, x.base = typeName(v.rtype), v.path, v.root.id
			} else if strings.HasPrefix(v.id, "G:") {
				x.own, x.fld = "", v.id
			}
		}
		n++
		if n == 1 {
			r = x
		} else {
			r = joinVal(r, x, site)
		}
	})
	return r
}

func (a *lockAnalysis) instr(fr *lframe, st *lstate, in ssa.Instruction) {
	site := ""
	if v, ok := in.(ssa.Value); ok {
		site = fr.path + "/" + v.Name()
	}
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		id := "new@" + site
		delete(st.pub, id)
		for k := range st.mem {
			if k == id || strings.HasPrefix(k, id+".") {
				delete(st.mem, k)
			}
		}
		fr.set(x, &lval{id: id, fresh: true})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		id := "new@" + site
		delete(st.pub, id)
		fr.set(in.(ssa.Value), &lval{id: id, fresh: true})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		v := &lval{id: "fn", fn: f}
		for _, b := range x.Bindings {
			v.binds = append(v.binds, a.val(fr, st, b))
		}
		fr.set(x, v)
	case *ssa.MakeInterface:
		fr.set(x, a.val(fr, st, x.X))
	case *ssa.ChangeType:
		fr.set(x, a.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		fr.set(x, a.val(fr, st, x.X))
	case *ssa.TypeAssert:
		v := a.val(fr, st, x.X)
		if x.CommaOk {
			v = &lval{id: site, tuple: []*lval{v, {id: "ok", owned: true}}}
		}
		fr.set(x, v)
	case *ssa.Extract:
		t := a.val(fr, st, x.Tuple)
		var v *lval
		t.each(func(y *lval) {
			if x.Index < len(y.tuple) {
				v = joinVal(v, y.tuple[x.Index], site)
			} else {
				v = joinVal(v, &lval{id: y.id + fmt.Sprintf("#%d", x.Index), owned: y.owned}, site)
			}
		})
		if v == nil {
			v = &lval{id: "?" + site}
		}
		fr.set(x, v)
	case *ssa.FieldAddr:
		b := a.val(fr, st, x.X)
		stt := derefT(x.X.Type()).Underlying().(*types.Struct)
		f := "." + stt.Field(x.Field).Name()
		var r *lval
		b.each(func(v *lval) {
			var y *lval
			if v.root != nil {
				y = &lval{id: v.id + f, root: v.root, rtype: v.rtype, path: v.path + f}
			} else {
				y = &lval{id: v.id + f, root: v, rtype: derefT(x.X.Type()), path: f}
			}
			r = joinVal(r, y, site)
		})
		fr.set(x, r)
	case *ssa.Field:
		b := a.val(fr, st, x.X)
		stt := x.X.Type().Underlying().(*types.Struct)
		f := stt.Field(x.Field).Name()
		if y := b.snap["."+f]; y != nil && len(b.alts) == 0 {
			fr.set(x, y)
			break
		}
		fr.set(x, &lval{id: b.id + "." + f + "*", owned: st.isFresh(b) && b.owned, own: typeName(x.X.Type()), fld: "." + f, base: b.id})
	case *ssa.IndexAddr:
		b := a.val(fr, st, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
			var r *lval
			b.each(func(v *lval) {
				y := &lval{id: v.id + "[]", root: v.root, rtype: v.rtype, path: v.path}
				if v.root == nil {
					y.elem = v
				}
				r = joinVal(r, y, site)
			})
			fr.set(x, r)
			break
		}
		fr.set(x, &lval{id: b.id + "[]", elem: b, fresh: false, owned: b.owned})
	case *ssa.Slice:
		b := a.val(fr, st, x.X)
		fr.set(x, b)
	case *ssa.Index:
		b := a.val(fr, st, x.X)
		fr.set(x, &lval{id: b.id + "[]*", owned: b.owned})
	case *ssa.UnOp:
		v := a.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			a.touch(fr, st, v, x.Type(), false, x.Pos())
			r := a.load(st, v, site)
			if _, ok := x.Type().Underlying().(*types.Struct); ok && len(r.alts) == 0 {
				y := *r
				y.snap = nil // the fields as they are now, as far as the object is this operation's own
				own := len(v.alts) == 0 && v.elem == nil && st.isFresh(holderOf(v))
				for k, f := range st.mem {
					if own && strings.HasPrefix(k, v.id+".") {
						if y.snap == nil {
							y.snap = map[string]*lval{}
						}
						y.snap[k[len(v.id):]] = f
					}
				}
				r = &y
			}
			fr.set(x, r)
		case token.ARROW:
			a.blocking(fr, st, "channel receive", x.Pos())
			fr.set(x, &lval{id: "?" + site})
		default:
			fr.set(x, &lval{id: site, owned: true})
		}
	case *ssa.Store:
		ad, v := a.val(fr, st, x.Addr), a.val(fr, st, x.Val)
		a.touch(fr, st, ad, x.Val.Type(), true, x.Pos())
		if v.fn != nil {
			switch x.Addr.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				if a.isModuleFn(v.fn) && x.Parent().Name() != "init" {
					a.spawn(fr, st, v, nil, "callback")
				}
			}
		}
		a.keep(st, holderOf(ad), v)
		if len(ad.alts) == 0 && st.isFresh(holderOf(ad)) && ad.elem == nil {
			for k := range st.mem {
				if strings.HasPrefix(k, ad.id+".") {
					delete(st.mem, k)
				}
			}
			st.mem[ad.id] = v
			for f, y := range v.snap {
				st.mem[ad.id+f] = y
			}
		} else {
			ad.each(func(y *lval) { delete(st.mem, y.id) })
		}
	case *ssa.MapUpdate:
		m := a.val(fr, st, x.Map)
		a.mapTouch(fr, st, m, x.Map.Type(), true, x.Pos())
		a.keep(st, m, a.val(fr, st, x.Value))
		a.keep(st, m, a.val(fr, st, x.Key))
	case *ssa.Lookup:
		m := a.val(fr, st, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.mapTouch(fr, st, m, x.X.Type(), false, x.Pos())
		}
		v := &lval{id: "elem:" + site, owned: m.owned}
		if x.CommaOk {
			v = &lval{id: site, tuple: []*lval{v, {id: "ok", owned: true}}}
		}
		fr.set(x, v)
	case *ssa.Range:
		m := a.val(fr, st, x.X)
		fr.set(x, &lval{id: "range", elem: m})
	case *ssa.Next:
		r := a.val(fr, st, x.Iter)
		if rg, ok := x.Iter.(*ssa.Range); ok && r.elem != nil {
			if _, ok := rg.X.Type().Underlying().(*types.Map); ok {
				a.mapTouch(fr, st, r.elem, rg.X.Type(), false, x.Pos())
			}
			own := r.elem.owned
			fr.set(x, &lval{id: site, tuple: []*lval{{id: "ok", owned: true}, {id: "k:" + site, owned: own}, {id: "v:" + site, owned: own}}})
		} else {
			fr.set(x, &lval{id: "?" + site})
		}
	case *ssa.Go:
		fv, args := a.operands(fr, st, x)
		a.goCall(fr, st, x, fv, args)
	case *ssa.Send:
		a.publish(st, a.val(fr, st, x.X))
		a.blocking(fr, st, "channel send", x.Pos())
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send != nil {
				a.publish(st, a.val(fr, st, s.Send))
			}
		}
		if x.Blocking {
			a.blocking(fr, st, "select", x.Pos())
		}
		fr.set(x, &lval{id: "?" + site})
	default:
		if v, ok := in.(ssa.Value); ok {
			own := true
			var ops [8]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil {
					y := a.val(fr, st, *o)
					own = own && (y.owned || y.nilc)
				}
			}
			fr.set(v, &lval{id: site, owned: own})
		}
	}
}

func (a *lockAnalysis) mapTouch(fr *lframe, st *lstate, m *lval, t types.Type, write bool, pos token.Pos) {
	if st.isFresh(m) {
		return
	}
	k := typeName(t)
	if !a.shared[k] {
		if u := typeName(t.Underlying()); a.shared[u] {
			k = u
		} else {
			return
		}
	}
	a.note(fr, st, m, nil, "", "map:"+k, write, pos)
}

func (a *lockAnalysis) isModuleFn(f *ssa.Function) bool {
	return a.p.handwritten(unthunk(a.p, f))
}

// spawn starts a new concurrent operation running the function value.
func (a *lockAnalysis) spawn(fr *lframe, st *lstate, fv *lval, args []*lval, kind string) {
	a.publish(st, fv)
	for _, x := range args {
		a.publish(st, x)
	}
	fv.each(func(v *lval) {
		if v.fn == nil {
			return
		}
		f, binds, ar := a.bound(v, args)
		if f == nil || !a.p.handwritten(f) {
			return
		}
		pub := map[string]bool{}
		for k := range st.pub {
			pub[k] = true
		}
		if a.record {
			a.addRoot(lroot{fn: f, args: ar, binds: binds, pub: pub, name: kind + " " + ssaName(f)})
		} else {
			a.addRoot(lroot{fn: f, args: ar, binds: binds, pub: pub, name: "unused"})
		}
	})
}

// bound resolves bound-method wrappers: their first binding is the receiver.
func (a *lockAnalysis) bound(v *lval, args []*lval) (*ssa.Function, []*lval, []*lval) {
	f := v.fn
	if strings.HasSuffix(f.Name(), "$bound") && len(v.binds) == 1 {
		return unthunk(a.p, f), nil, append([]*lval{v.binds[0]}, args...)
	}
	if g := unthunk(a.p, f); g != f {
		return g, v.binds, args
	}
	return f, v.binds, args
}

func (a *lockAnalysis) goCall(fr *lframe, st *lstate, c ssa.CallInstruction, fv *lval, args []*lval) {
	for _, x := range args {
		a.publish(st, x)
	}
	a.publish(st, fv)
	done := false
	if !c.Common().IsInvoke() {
		fv.each(func(v *lval) {
			if v.fn != nil {
				done = true
				a.spawn(fr, st, v, args, "goroutine")
			}
		})
	}
	if !done {
		for _, f := range a.edges[c] {
			a.spawn(fr, st, &lval{id: "fn", fn: f}, args, "goroutine")
		}
	}
	if done || len(a.edges[c]) > 0 {
		// a library function started as goroutine may call functions it is given
	}
	for _, x := range args {
		x.each(func(v *lval) {
			if v.fn != nil && a.isModuleFn(v.fn) {
				a.spawn(fr, st, v, nil, "goroutine")
			}
		})
	}
}

func (a *lockAnalysis) blocking(fr *lframe, st *lstate, what string, pos token.Pos) {
	for l := range st.held {
		if l.kind == 'M' {
			a.event(lockEvent{what: "blocking", lock: l, other: what, fn: fr.fn, pos: pos})
		}
	}
}

// lockIDOf names the lock behind a *sync.Mutex value.
func lockIDOf(v *lval, kind byte) lockID {
	switch {
	case len(v.alts) > 0:
		x := lockIDOf(v.alts[0], kind)
		bases := map[string]bool{}
		for _, y := range v.alts {
			bases[lockIDOf(y, kind).base] = true
		}
		x.base = strings.Join(sortedKeys(bases), "|")
		return x
	case v.root != nil && strings.HasPrefix(v.root.id, "G:"):
		return lockID{v.root.id, v.path, "", kind}
	case v.root != nil && v.rtype != nil:
		return lockID{typeName(v.rtype), v.path, v.root.id, kind}
	case strings.HasPrefix(v.id, "G:"):
		return lockID{v.id, "", "", kind}
	case v.own != "" || v.fld != "":
		return lockID{v.own, v.fld, v.base, kind}
	}
	return lockID{"lock ", v.id, "", kind}
}

func (a *lockAnalysis) acquire(fr *lframe, st *lstate, l lockID, mode byte, pos token.Pos) {
	a.acquires[l.name()]++
	for h := range st.held {
		if h == l && h.kind != 'O' {
			a.event(lockEvent{what: "double", lock: l, fn: fr.fn, pos: pos})
			continue
		}
		if h.name() != l.name() && h.kind != 'O' {
			k := lockOrder{h.name(), l.name()}
			if _, ok := a.order[k]; !ok {
				a.order[k] = lockEvent{what: "order", lock: l, other: h.name(), fn: fr.fn, pos: pos}
			}
		}
	}
	st.held[l] = mode
}

func (a *lockAnalysis) lockOp(fr *lframe, st *lstate, c ssa.CallInstruction, recv *lval, op string) {
	l := lockIDOf(recv, 'M')
	if recv.rlock {
		op = "R" + op
	}
	switch op {
	case "Lock":
		a.acquire(fr, st, l, 'W', c.Pos())
	case "RLock":
		a.acquire(fr, st, l, 'R', c.Pos())
	case "Unlock", "RUnlock":
		m, ok := st.held[l]
		if !ok && l.base != "" {
			// the same lock under another name (joined values)
			for h, hm := range st.held {
				if h.name() == l.name() && (strings.Contains(h.base, "|") || strings.Contains(l.base, "|")) {
					l, m, ok = h, hm, true
				}
			}
		}
		if !ok || (m == 'W') != (op == "Unlock") {
			a.event(lockEvent{what: "unheld", lock: l, fn: fr.fn, pos: c.Pos()})
		}
		delete(st.held, l)
	}
}

var asyncCalls = []string{"time.AfterFunc", "AddEventHandler", "AddEventHandlerWithResyncPeriod", "net/http.Handle", "RegisterHandle"}

func (a *lockAnalysis) call(fr *lframe, st *lstate, c ssa.CallInstruction, fv *lval, args []*lval) []lout {
	cc := c.Common()
	a.nCalls++
	site := fr.path + "/" + fmt.Sprintf("%s:%d", fr.fn.Name(), instrIndex(c))
	unknown := func() *lval { return &lval{id: "?" + site} }
	// builtins
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		switch b.Name() {
		case "delete":
			a.mapTouch(fr, st, args[0], cc.Args[0].Type(), true, c.Pos())
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				a.mapTouch(fr, st, args[0], cc.Args[0].Type(), false, c.Pos())
			}
		case "append":
			if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil && !st.isFresh(args[0]) {
				if e, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && a.shared["[]"+typeName(e.Elem())] {
					a.note(fr, st, args[0], nil, "", "slice:[]"+typeName(e.Elem()), true, c.Pos())
				}
			}
			if len(args) > 1 {
				a.keep(st, args[0], args[1])
			}
			if st.isFresh(args[0]) {
				if args[0].nilc || isNilSlice(cc.Args[0]) {
					return []lout{{st, &lval{id: "new@" + site, fresh: true}}}
				}
				return []lout{{st, args[0]}}
			}
			return []lout{{st, args[0]}}
		case "copy":
			if e, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && !st.isFresh(args[0]) && a.shared["[]"+typeName(e.Elem())] {
				a.note(fr, st, args[0], nil, "", "slice:[]"+typeName(e.Elem()), true, c.Pos())
			}
		}
		return []lout{{st, &lval{id: site, owned: true}}}
	}
	name := ""
	if sc := cc.StaticCallee(); sc != nil {
		name = ssaName(sc)
	} else if cc.IsInvoke() {
		name = funcName(cc.Method)
	}
	// locks
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Lock", "(sync.Locker).Unlock":
		a.lockOp(fr, st, c, args[0], name[strings.LastIndex(name, ".")+1:])
		return []lout{{st, unknown()}}
	case "(*sync.RWMutex).RLocker":
		v := *args[0]
		v.rlock = true
		return []lout{{st, &v}}
	case "(*sync.Once).Do":
		l := lockIDOf(args[0], 'O')
		var out []lout
		n := st.clone()
		n.held[l] = 'W'
		for _, o := range a.callback(fr, n, c, args[1], site) {
			o.st.held[l] = 'R'
			out = append(out, o)
		}
		st.held[l] = 'R'
		return append(out, lout{st, unknown()})
	case "(*golang.org/x/sync/singleflight.Group).Do", "(*github.com/golang/groupcache/singleflight.Group).Do", "(*golang.org/x/sync/singleflight.Group).DoChan":
		a.blocking(fr, st, "a shared fetch (singleflight)", c.Pos())
		l := lockIDOf(args[0], 'S')
		outs := []lout{}
		n := st.clone()
		a.acquire(fr, n, l, 'W', c.Pos())
		for _, o := range a.callback(fr, n, c, args[2], site) {
			delete(o.st.held, l)
			outs = append(outs, lout{o.st, unknown()})
		}
		return append(outs, lout{st, unknown()})
	case "(*sync.Cond).Wait", "(*sync.WaitGroup).Wait", "time.Sleep":
		a.blocking(fr, st, name, c.Pos())
		return []lout{{st, unknown()}}
	}
	if netCall(name) {
		a.blocking(fr, st, "a network request ("+name+")", c.Pos())
	}
	// handwritten callees
	type target struct {
		fn    *ssa.Function
		binds []*lval
		args  []*lval
	}
	var ts []target
	if !cc.IsInvoke() {
		fv.each(func(v *lval) {
			if v.fn != nil {
				f, binds, ar := a.bound(v, args)
				if a.p.handwritten(f) && len(f.Blocks) > 0 {
					ts = append(ts, target{f, binds, ar})
				}
			}
		})
	}
	if len(ts) == 0 && (cc.IsInvoke() || cc.StaticCallee() == nil) {
		for _, f := range a.edges[c] {
			ts = append(ts, target{f, nil, args})
		}
	}
	if len(ts) > 0 {
		var out []lout
		for _, t := range ts {
			depth := 0
			for f := fr; f != nil; f = f.up {
				if f.fn == t.fn {
					depth++
				}
			}
			if depth >= 2 || fr.deep > 60 {
				out = append(out, lout{st.clone(), unknown()})
				continue
			}
			nf := &lframe{fn: t.fn, args: t.args, free: t.binds, env: map[ssa.Value]*lval{}, path: pathOf(site), up: fr, deep: fr.deep + 1}
			for _, o := range a.function(nf, st.clone()) {
				o.st.defers = st.defers
				out = append(out, o)
			}
		}
		return mergeOuts(out, site)
	}
	// code outside the handwritten part
	publishing := strings.HasPrefix(name, "(*sync.Map).") || strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync.Pool).")
	if publishing {
		for _, x := range args[1:] {
			a.publish(st, x)
		}
	}
	async := false
	for _, s := range asyncCalls {
		async = async || strings.Contains(name, s)
	}
	outs := []lout{{st, a.libResult(c, name, args, site)}}
	for _, x := range args {
		x.each(func(v *lval) {
			if v.fn == nil || !a.isModuleFn(v.fn) {
				return
			}
			if async {
				a.spawn(fr, st, v, nil, "callback")
				return
			}
			var next []lout
			for _, o := range outs {
				next = append(next, o)
				for _, p := range a.callback(fr, o.st.clone(), c, v, site) {
					next = append(next, lout{p.st, o.ret})
				}
			}
			outs = mergeOuts(next, site)
		})
	}
	return outs
}

var pathIDs = map[string]string{}

// pathOf shortens call strings.
func pathOf(s string) string {
	if r, ok := pathIDs[s]; ok {
		return r
	}
	r := fmt.Sprintf("c%d", len(pathIDs))
	pathIDs[s] = r
	return r
}

func isNilSlice(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func mergeOuts(in []lout, site string) []lout {
	m := map[string]int{}
	var out []lout
	for _, o := range in {
		k := o.st.key()
		if i, ok := m[k]; ok {
			out[i].st.absorb(o.st)
			out[i].ret = joinVal(out[i].ret, o.ret, "ret:"+site)
		} else {
			m[k] = len(out)
			out = append(out, o)
		}
	}
	return out
}

func (a *lockAnalysis) callback(fr *lframe, st *lstate, c ssa.CallInstruction, fv *lval, site string) []lout {
	var out []lout
	fv.each(func(v *lval) {
		if v.fn == nil {
			return
		}
		f, binds, ar := a.bound(v, nil)
		if !a.p.handwritten(f) || len(f.Blocks) == 0 || fr.deep > 60 {
			return
		}
		nf := &lframe{fn: f, args: ar, free: binds, env: map[ssa.Value]*lval{}, path: pathOf(site + "!" + f.Name()), up: fr, deep: fr.deep + 1}
		for _, o := range a.function(nf, st.clone()) {
			o.st.defers = st.defers
			out = append(out, o)
		}
	})
	if len(out) == 0 {
		out = []lout{{st, &lval{id: "?" + site}}}
	}
	return out
}

func (a *lockAnalysis) libResult(c ssa.CallInstruction, name string, args []*lval, site string) *lval {
	i := strings.LastIndex(name, ".")
	m := name[i+1:]
	if strings.HasPrefix(m, "DeepCopy") {
		return &lval{id: "new@" + site, owned: true}
	}
	// accessors of a message only this operation knows
	if cc := c.Common(); len(args) > 0 && args[0].owned && !args[0].nilc && (cc.IsInvoke() || cc.Signature().Recv() != nil) {
		return &lval{id: site, owned: true}
	}
	return &lval{id: "?" + site}
}

func instrIndex(in ssa.Instruction) int {
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if x == in {
				return n
			}
			n++
		}
	}
	return -1
}

// netCall names the calls that wait for the network.
func netCall(name string) bool {
	switch {
	case strings.HasPrefix(name, "(*net/http.Client)."), strings.HasPrefix(name, "net/http.Get"), strings.HasPrefix(name, "net/http.Post"), strings.HasPrefix(name, "net/http.Head"),
		strings.HasPrefix(name, "(net/http.RoundTripper)"), strings.HasPrefix(name, "(*net/http.Transport).RoundTrip"), strings.HasPrefix(name, "net.Dial"), strings.HasPrefix(name, "(*net.Dialer)"):
		return true
	case strings.HasPrefix(name, "(k8s.io/client-go/kubernetes/typed/"):
		for _, m := range []string{"Get", "Create", "Update", "Delete", "List", "Watch", "Patch"} {
			if strings.HasSuffix(name, ")."+m) {
				return true
			}
		}
	}
	return false
}
