package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokenADD = token.ADD

// Run is one interprocedural, path-sensitive dataflow analysis from a root function.
//
// Abstract states are sets of (value numbers, memory cells, branch literals,
// certain past calls). At control-flow joins states that agree on everything
// but one literal are merged exactly; loops are analysed once under an arbitrary
// iteration after forgetting whatever their bodies may change (small constant
// loops are unrolled). Nothing is executed and no solver is involved.
type Run struct {
	P      *Prog
	Opaque func(name string) bool // module functions to treat as contracts
	Record func(name string) bool // opaque calls to keep as events

	OnCall      func(st *St, c *CallRec)
	OnStore     func(st *St, addr, val *Term, in ssa.Instruction)
	OnMapUpdate func(st *St, m, k, v *Term, in ssa.Instruction)
	OnDeref     func(st *St, ptr *Term, in ssa.Instruction)
	OnBackEdge  func(st *St, b *BackEdge)
	OnLoopEntry func(st *St, b *BackEdge) // Out: the loop-carried values before the first summarised iteration

	OnFault func(st *St, f *Fault) // an operation that panics unless its operands are right

	TrackDeref bool
	NoPeel     bool // treat every iteration alike
	Models     map[string]func(r *Run, f *frame, st *St, c *CallRec) ([]Outcome, bool)

	recovering bool // a deferred call is running because of a panic

	spec      int
	undecided []string
	Stats     struct{ Blocks, States, Calls, Inlined, Merges int }
	FnSeen    map[*ssa.Function]bool
	steps     int
}

// Fault is one operation that panics for some operands.
type Fault struct {
	Kind string // nil, assert, index, slice, map, panic, exit, div
	Ops  []*Term
	In   ssa.Instruction
	Fn   *ssa.Function
}

func (r *Run) fault(f *frame, st *St, kind string, in ssa.Instruction, ops ...*Term) {
	if r.spec == 0 && r.OnFault != nil {
		r.OnFault(st, &Fault{Kind: kind, Ops: ops, In: in, Fn: f.fn})
	}
}

// BackEdge is one abstract end of a loop iteration.
type BackEdge struct {
	Header *ssa.BasicBlock
	Ctx    string
	In     map[*ssa.Phi]*Term
	Out    map[*ssa.Phi]*Term
	St     *St
	Peeled bool // an unrolled iteration
}

// Outcome is one abstract return.
type Outcome struct {
	st  *St
	res []*Term
	ret *ssa.Return
}

type frame struct {
	fn     *ssa.Function
	ctx    string
	params map[ssa.Value]*Term
	stack  []*ssa.Function
	outer  map[*Term]bool
	info   *fnInfo
	out    []Outcome
}

type deferred struct {
	in    *ssa.Defer
	recv  *Term
	fnv   *Term
	args  []*Term
	iface bool
}

type pst struct {
	env    map[ssa.Value]*Term
	st     *St
	mode   map[*ssa.BasicBlock]int
	defers []deferred
	entry  map[*ssa.BasicBlock]map[*ssa.Phi]*Term // loop-carried values at the start of the current iteration
	first  map[*ssa.BasicBlock]map[*ssa.Phi]*Term // loop-carried values when the loop was entered
}

func (p *pst) clone() *pst {
	n := &pst{env: make(map[ssa.Value]*Term, len(p.env)+8), st: p.st.clone(), mode: map[*ssa.BasicBlock]int{}, entry: map[*ssa.BasicBlock]map[*ssa.Phi]*Term{}, first: map[*ssa.BasicBlock]map[*ssa.Phi]*Term{}}
	for k, v := range p.first {
		n.first[k] = v
	}
	for k, v := range p.env {
		n.env[k] = v
	}
	for k, v := range p.mode {
		n.mode[k] = v
	}
	for k, v := range p.entry {
		n.entry[k] = v
	}
	n.defers = append([]deferred(nil), p.defers...)
	return n
}

// ---- per-function static information ----

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	order  map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loop
	liveIn []map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}
var instrIDs = map[ssa.Instruction]int{}

func instrID(i ssa.Instruction) int {
	if n, ok := instrIDs[i]; ok {
		return n
	}
	n := len(instrIDs) + 1
	instrIDs[i] = n
	return n
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
		return false
	}
	return true
}

func infoOf(fn *ssa.Function) *fnInfo {
	if i := fnInfos[fn]; i != nil {
		return i
	}
	in := &fnInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	fnInfos[fn] = in
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	innermost := func(b *ssa.BasicBlock) *loop {
		var best *loop
		for _, l := range in.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		return best
	}
	// reverse postorder, loop exits last
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		l := innermost(b)
		var inside, outside []*ssa.BasicBlock
		for _, s := range b.Succs {
			if l != nil && !l.blocks[s] {
				outside = append(outside, s)
			} else {
				inside = append(inside, s)
			}
		}
		for _, s := range outside {
			dfs(s)
		}
		for _, s := range inside {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		in.order[b] = len(post) - i
	}
	// liveness
	n := len(fn.Blocks)
	in.liveIn = make([]map[ssa.Value]bool, n)
	for i := range in.liveIn {
		in.liveIn[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in.liveIn[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for pi, pb := range s.Preds {
					if pb != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isLocal(ph.Edges[pi]) {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if o != nil && *o != nil && isLocal(*o) {
						live[*o] = true
					}
				}
			}
			for v := range live {
				if !in.liveIn[i][v] {
					in.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
	return in
}

// ---- entry points ----

// Root analyses fn with parameters named after their position/name, under extra initial facts.
func (r *Run) Root(fn *ssa.Function, args map[string]*Term, st *St) []Outcome {
	if st == nil {
		st = newSt()
	}
	var ts []*Term
	for i, p := range fn.Params {
		t := args[p.Name()]
		if t == nil {
			t = args["#"+strconv.Itoa(i)]
		}
		if t == nil {
			t = rootParam(fn, i)
		}
		ts = append(ts, t)
	}
	for _, fv := range fn.FreeVars {
		ts = append(ts, intern(KParam, fv.Name(), fv.Type()))
	}
	return r.call(fn, ts[:len(fn.Params)], ts[len(fn.Params):], st, "", nil)
}

func rootParam(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	nm := p.Name()
	if fn.Signature.Recv() != nil && i == 0 {
		nm = "recv"
	}
	t := intern(KParam, fmt.Sprintf("%s", nm), nil)
	// parameters of different roots may share a name: qualify on type mismatch
	if t.typ == nil {
		t.typ = p.Type()
	} else if !types.Identical(t.typ, p.Type()) {
		t = intern(KParam, nm+"@"+typeName(p.Type()), nil)
		t.typ = p.Type()
	}
	return t
}

func (r *Run) fail(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	for _, u := range r.undecided {
		if u == m {
			return
		}
	}
	r.undecided = append(r.undecided, m)
}

const (
	maxDepth  = 24
	maxStates = 300
	maxSteps  = 3000000
)

func (r *Run) call(fn *ssa.Function, args, free []*Term, st *St, ctx string, stack []*ssa.Function) []Outcome {
	if len(fn.Blocks) == 0 {
		r.fail("no body for %s", ssaName(fn))
		return nil
	}
	if r.FnSeen == nil {
		r.FnSeen = map[*ssa.Function]bool{}
	}
	r.FnSeen[fn] = true
	f := &frame{fn: fn, ctx: ctx, params: map[ssa.Value]*Term{}, stack: append(append([]*ssa.Function(nil), stack...), fn), outer: map[*Term]bool{}, info: infoOf(fn)}
	for i, p := range fn.Params {
		f.params[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.params[p] = free[i]
	}
	for k := range st.heap {
		f.outer[addrRoot(k)] = true
	}
	for k := range st.base {
		f.outer[k] = true
	}
	p := &pst{env: map[ssa.Value]*Term{}, st: st.clone(), mode: map[*ssa.BasicBlock]int{}, entry: map[*ssa.BasicBlock]map[*ssa.Phi]*Term{}, first: map[*ssa.BasicBlock]map[*ssa.Phi]*Term{}}
	r.runBlocks(f, fn.Blocks[0], []*pst{p}, nil, nil)
	return r.mergeOutcomes(f, f.out)
}

// runBlocks propagates states through the function, in reverse postorder.
// With region set only those blocks are entered and back edges to start are handed to onBack.
func (r *Run) runBlocks(f *frame, start *ssa.BasicBlock, init []*pst, region map[*ssa.BasicBlock]bool, onBack func(*pst)) {
	pending := map[*ssa.BasicBlock][]*pst{start: init}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || f.info.order[c] < f.info.order[b] {
				b = c
			}
		}
		ps := pending[b]
		delete(pending, b)
		ps = r.merge(f, b, ps)
		r.Stats.Blocks++
		r.Stats.States += len(ps)
		for _, p := range ps {
			if r.steps++; r.steps > maxSteps {
				r.fail("analysis budget exhausted in %s", ssaName(f.fn))
				return
			}
			r.execBlock(f, b, 0, p, func(to *ssa.BasicBlock, q *pst) {
				r.edge(f, b, to, q, region, start, onBack, func(to *ssa.BasicBlock, q *pst) {
					pending[to] = append(pending[to], q)
				})
			})
		}
	}
}

// edge moves a state along from->to, evaluating phis and handling loops.
func (r *Run) edge(f *frame, from, to *ssa.BasicBlock, p *pst, region map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, onBack func(*pst), add func(*ssa.BasicBlock, *pst)) {
	// leaving loops
	for h := range p.mode {
		l := f.info.loops[h]
		if l != nil && !l.blocks[to] {
			if p.mode[h] < 0 && from == h {
				r.loopDone(f, l, p)
			}
			delete(p.mode, h)
			delete(p.entry, h)
			delete(p.first, h)
		}
	}
	if region != nil && !region[to] {
		return
	}
	// phis, in parallel
	idx := -1
	for i, pb := range to.Preds {
		if pb == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = r.val(f, p, ph.Edges[idx])
	}
	l := f.info.loops[to]
	if l == nil {
		for ph, v := range vals {
			p.env[ph] = v
		}
		add(to, p)
		return
	}
	back := l.blocks[from]
	if back {
		m := p.mode[to]
		if m < 0 {
			if region != nil && to == start && onBack != nil {
				onBack(p)
				return
			}
			if r.spec == 0 && r.OnBackEdge != nil {
				r.OnBackEdge(p.st, &BackEdge{Header: to, Ctx: f.ctx, In: p.entry[to], Out: vals, St: p.st})
			}
			return
		}
		if r.spec == 0 && r.OnBackEdge != nil {
			r.OnBackEdge(p.st, &BackEdge{Header: to, Ctx: f.ctx, In: p.entry[to], Out: vals, St: p.st, Peeled: true})
		}
		for ph, v := range vals {
			p.env[ph] = v
		}
		if m < 40 && r.headerConst(f, to, p) {
			p.mode[to] = m + 1
			p.entry[to] = vals
			add(to, p)
			return
		}
		// give up unrolling: continue as an arbitrary iteration
		r.enterHavoc(f, l, p, vals, add)
		return
	}
	// entering the loop
	p.first[to] = vals
	q := p.clone()
	for ph, v := range vals {
		q.env[ph] = v
	}
	q.mode[to] = 0
	q.entry[to] = vals
	if !r.NoPeel && counted(l) && r.headerConst(f, to, q) {
		add(to, q)
		return
	}
	r.enterHavoc(f, l, p, vals, add)
}

// counted: some loop-carried value is stepped by a constant on every back edge and decides the header's branch.
func counted(l *loop) bool {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, side := range []ssa.Value{b.X, b.Y} {
		if stepOf(l, side) != nil || growing(l, side) {
			return true
		}
	}
	return false
}

// growing: v is the length of a loop-carried list that every back edge has appended to.
func growing(l *loop, v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	ph, ok := c.Call.Args[0].(*ssa.Phi)
	if !ok || ph.Block() != l.header {
		return false
	}
	for i, e := range ph.Edges {
		if !l.blocks[l.header.Preds[i]] {
			continue
		}
		a, ok := e.(*ssa.Call)
		if !ok || len(a.Call.Args) == 0 || a.Call.Args[0] != ssa.Value(ph) {
			return false
		}
		if b, ok := a.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			return false
		}
	}
	return true
}

type stepInfo struct {
	phi   *ssa.Phi
	entry ssa.Value
	step  int64
	pre   int64 // v = phi + pre
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	t := mkConst(c.Value, c.Type())
	return intOf(t)
}

func stepOf(l *loop, v ssa.Value) *stepInfo {
	pre := int64(0)
	if b, ok := v.(*ssa.BinOp); ok {
		n, ok := constInt(b.Y)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil
		}
		if b.Op == token.SUB {
			n = -n
		}
		pre = n
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != l.header {
		return nil
	}
	si := &stepInfo{phi: ph, pre: pre}
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			if si.entry != nil && si.entry != e {
				return nil
			}
			si.entry = e
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(ph) {
			return nil
		}
		n, ok := constInt(b.Y)
		if !ok {
			return nil
		}
		switch b.Op {
		case token.ADD:
		case token.SUB:
			n = -n
		default:
			return nil
		}
		if si.step != 0 && si.step != n {
			return nil
		}
		si.step = n
	}
	if si.step == 0 || si.entry == nil {
		return nil
	}
	return si
}

// headerConst: does the header's branch condition evaluate to a constant here?
func (r *Run) headerConst(f *frame, h *ssa.BasicBlock, p *pst) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	q := p.clone()
	r.spec++
	defer func() { r.spec-- }()
	for _, ins := range h.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.If:
			continue
		case *ssa.BinOp, *ssa.UnOp, *ssa.Call, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType:
		default:
			return false
		}
		if c, ok := ins.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || len(c.Call.Args) != 1 {
				return false
			}
			outs := r.builtin(f, q, c, "len", []*Term{r.val(f, q, c.Call.Args[0])})
			if len(outs) != 1 || len(outs[0].res) != 1 {
				return false
			}
			q.env[c] = outs[0].res[0]
			continue
		}
		r.simple(f, q, ins)
	}
	_, known := q.st.truth(r.val(f, q, iff.Cond))
	return known
}

// enterHavoc starts the analysis of one arbitrary iteration.
func (r *Run) enterHavoc(f *frame, l *loop, p *pst, vals map[*ssa.Phi]*Term, add func(*ssa.BasicBlock, *pst)) {
	h := l.header
	ctx := f.ctx + iterCtx(f, p, h)
	mk := func(ph *ssa.Phi) *Term {
		return internX(KLoop, ctx+"/"+strconv.Itoa(instrID(ph)), ph.Type(), nil)
	}
	if r.spec == 0 && r.OnLoopEntry != nil {
		in := map[*ssa.Phi]*Term{}
		for ph := range vals {
			in[ph] = mk(ph)
		}
		r.OnLoopEntry(p.st, &BackEdge{Header: h, Ctx: f.ctx, In: in, Out: vals, St: p.st})
	}
	delete(p.entry, h)
	W := map[*Term]bool{}
	var variants []*pst
	for round := 0; ; round++ {
		q := p.clone()
		q.mode[h] = -1
		keys := make([]*Term, 0, len(W))
		for a := range W {
			keys = append(keys, a)
		}
		sortTerms(keys)
		for _, a := range keys {
			if a.kind == KMapAddr {
				m := a.args[0]
				q.st.havoc(m, internX(KHavoc, ctx+"/"+strconv.Itoa(h.Index), m.typ, nil, m))
				continue
			}
			q.st.havoc(a, internX(KHavoc, ctx+"/"+strconv.Itoa(h.Index), pointee(a), nil, a))
		}
		variants = []*pst{q}
		for _, ins := range h.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			invariant := true
			for i, e := range ph.Edges {
				if l.blocks[h.Preds[i]] && e != ssa.Value(ph) {
					invariant = false
				}
			}
			ev := vals[ph]
			if invariant {
				for _, v := range variants {
					v.env[ph] = ev
				}
				continue
			}
			isBool := ev.kind == KConst && ev.val.Kind().String() == "Bool"
			if isBool || ev.kind == KNil {
				var nv []*pst
				for _, v := range variants {
					w := v.clone()
					v.env[ph] = ev
					if isBool {
						w.env[ph] = mkNot(ev)
					} else {
						t := mk(ph)
						w.env[ph] = t
						w.st.assume(mkEq(t, mkNil(nil)), false)
					}
					nv = append(nv, v, w)
				}
				variants = nv
				continue
			}
			if ev.kind == KList && len(ev.args) > 0 && isSlice(ph.Type()) && grows(l, ph) {
				// what the list already holds stays at its front
				t := internX(KPure, "append", ph.Type(), nil, ev, mk(ph))
				for _, v := range variants {
					v.env[ph] = t
				}
				continue
			}
			for _, v := range variants {
				v.env[ph] = mk(ph)
				if si := stepOf(l, ph); si != nil {
					// the counter never goes back over its start
					if n, ok := intOf(ev); ok {
						if si.step > 0 {
							v.st.assume(mkLess(mk(ph), mkInt(n)), false)
						} else {
							v.st.assume(mkLess(mkInt(n), mk(ph)), false)
						}
					} else if r.OnFault != nil {
						if si.step > 0 {
							v.st.assume(mkLess(mk(ph), ev), false)
						} else {
							v.st.assume(mkLess(ev, mk(ph)), false)
						}
					}
				}
			}
		}
		for _, v := range variants {
			m := map[*ssa.Phi]*Term{}
			for ph := range vals {
				m[ph] = v.env[ph]
			}
			v.entry[h] = m
		}
		// collect what an iteration may write
		r.spec++
		grown := false
		var init []*pst
		for _, v := range variants {
			c := v.clone()
			c.st.writes = map[*Term]bool{}
			init = append(init, c)
		}
		saved := f.out
		r.runBlocks(f, h, init, l.blocks, func(b *pst) {
			for a := range b.st.writes {
				if W[a] || !existing(p, f, a) {
					continue
				}
				W[a] = true
				grown = true
			}
		})
		f.out = saved
		r.spec--
		if !grown {
			break
		}
		if round > 8 {
			r.fail("loop effects do not stabilise in %s", ssaName(f.fn))
			break
		}
	}
	for _, v := range variants {
		add(h, v)
	}
}

// grows: every iteration of the loop leaves the list as it is or appends to it.
func grows(l *loop, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if v == ssa.Value(ph) || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			b, ok := v.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && len(v.Call.Args) > 0 && from(v.Call.Args[0])
		case *ssa.Phi:
			if !l.blocks[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] && !from(e) {
			return false
		}
	}
	return true
}

func existing(p *pst, f *frame, a *Term) bool {
	root := addrRoot(a)
	if root.kind != KAlloc {
		return true
	}
	if _, ok := p.st.base[root]; ok {
		return true
	}
	for c := range p.st.heap {
		if addrRoot(c) == root {
			return true
		}
	}
	for _, v := range p.env {
		if mentionsArg(v, root) {
			return true
		}
	}
	return f.outer[root]
}

func mentionsArg(t, x *Term) bool { return contains(t, func(y *Term) bool { return y == x }) }

func iterCtx(f *frame, p *pst, except *ssa.BasicBlock) string {
	if len(p.mode) == 0 {
		return ""
	}
	var hs []*ssa.BasicBlock
	for h := range p.mode {
		if h != except {
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	var b strings.Builder
	for _, h := range hs {
		if p.mode[h] >= 0 {
			fmt.Fprintf(&b, "@%d.%d", h.Index, p.mode[h])
		}
	}
	return b.String()
}

// loopDone records that the loop ended because its condition became false.
func (r *Run) loopDone(f *frame, l *loop, p *pst) {
	h := l.header
	rec := &LoopRec{Header: h, Ctx: f.ctx, Phis: map[*ssa.Phi]*Term{}}
	for _, ins := range h.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			rec.Phis[ph] = p.env[ph]
		}
	}
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		var si *stepInfo
		rec.Over, rec.Elem, si = r.rangeOf(f, l, p, iff)
		if si != nil {
			rec.Phi, rec.Pre = si.phi, si.pre
		}
	}
	key := fmt.Sprintf("loop:%s:%d", f.ctx, h.Index)
	if rec.Over != nil {
		key += fmt.Sprintf(":%d", rec.Over.id)
	}
	for _, ins := range h.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			if t := rec.Phis[ph]; t != nil && t.kind != KLoop {
				key += fmt.Sprintf(":%d", t.id)
			}
		}
	}
	p.st.push(&event{loop: rec, key: key})
}

func (r *Run) rangeOf(f *frame, l *loop, p *pst, iff *ssa.If) (*Term, func(*Term) bool, *stepInfo) {
	// map / string iteration
	if ex, ok := iff.Cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				x := r.val(f, p, rg)
				if x.kind == KPure && x.op == "range" {
					m := x.args[0]
					return m, func(t *Term) bool { return t.kind == KRangeV && t.args[0] == m }, nil
				}
			}
		}
		return nil, nil, nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, nil
	}
	for _, side := range []ssa.Value{b.X, b.Y} {
		si := stepOf(l, side)
		if si == nil {
			continue
		}
		other := b.Y
		if side == b.Y {
			other = b.X
		}
		lenT := r.val(f, p, other)
		entry := p.first[l.header][si.phi]
		if entry == nil {
			continue
		}
		if !sameBranch(l, iff, true) {
			continue
		}
		op := b.Op
		if side == b.Y {
			op = mirrored(op)
		}
		// the counter's values in the iterations: from lo to hi
		var lo, hi *Term
		switch {
		case si.step == 1 && (op == token.LSS || op == token.NEQ):
			lo, hi = entry, addInt(lenT, -si.pre-1)
		case si.step == 1 && op == token.LEQ:
			lo, hi = entry, addInt(lenT, -si.pre)
		case si.step == -1 && (op == token.GTR || op == token.NEQ):
			lo, hi = addInt(lenT, -si.pre+1), entry
		case si.step == -1 && op == token.GEQ:
			lo, hi = addInt(lenT, -si.pre), entry
		default:
			continue
		}
		n, ok := intOf(lo)
		size, k := linear(hi)
		if !ok || size == nil || size.kind != KPure || size.op != "len" || k-n != -1 {
			continue
		}
		x := size.args[0]
		idx := addInt(r.val(f, p, si.phi), -n)
		return x, func(t *Term) bool { return t.kind == KIndex && t.args[0] == x && t.args[1] == idx }, &stepInfo{phi: si.phi, pre: -n, step: si.step, entry: si.entry}
	}
	return nil, nil, nil
}

func mirrored(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func sameBranch(l *loop, iff *ssa.If, whenTrue bool) bool {
	return l.blocks[iff.Block().Succs[0]] == whenTrue
}

// ---- merging ----

func (r *Run) merge(f *frame, b *ssa.BasicBlock, ps []*pst) []*pst {
	live := f.info.liveIn[b.Index]
	for _, p := range ps {
		for v := range p.env {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
				continue
			}
			if !live[v] {
				delete(p.env, v)
			}
		}
	}
	if len(ps) < 2 {
		return ps
	}
	groups := map[string][]*pst{}
	var order []string
	for _, p := range ps {
		r.gc(f, p)
		k := r.pstKey(p)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	var out []*pst
	for _, k := range order {
		g := groups[k]
		sts := make([]*St, len(g))
		for i, p := range g {
			sts[i] = p.st
		}
		keep := r.resolve(sts)
		for i, p := range g {
			if keep[i] {
				out = append(out, p)
			}
		}
	}
	if len(out) > maxStates {
		// lossy join: per group keep only the literals all members agree on
		out = out[:0]
		for _, k := range order {
			g := groups[k]
			j := g[0]
			for _, p := range g[1:] {
				for fct, v := range j.st.facts {
					if w, ok := p.st.facts[fct]; !ok || w != v {
						delete(j.st.facts, fct)
					}
				}
				for a := range p.st.writes {
					j.st.writes[a] = true
				}
			}
			out = append(out, j)
		}
		if len(out) > 4*maxStates {
			r.fail("too many distinct states in %s", ssaName(f.fn))
			out = out[:maxStates]
		}
	}
	return out
}

// resolve merges states exactly: equal or implied states are dropped, and two
// states that differ only in the sign of one literal lose that literal.
func (r *Run) resolve(sts []*St) []bool {
	keep := make([]bool, len(sts))
	for i := range keep {
		keep[i] = true
	}
	for changed := true; changed; {
		changed = false
		for i := range sts {
			if !keep[i] {
				continue
			}
			for j := range sts {
				if i == j || !keep[j] || !keep[i] {
					continue
				}
				a, b := sts[i].facts, sts[j].facts
				if len(a) > len(b) {
					continue
				}
				var diff *Term
				n := 0
				ok := true
				for f, v := range a {
					w, has := b[f]
					if !has {
						ok = false
						break
					}
					if w != v {
						n++
						diff = f
						if n > 1 {
							ok = false
							break
						}
					}
				}
				if !ok {
					continue
				}
				if n == 0 { // a is weaker: it covers b
					keep[j] = false
				} else if len(a) == len(b) {
					delete(a, diff)
					keep[j] = false
				} else {
					// a={x,..}, b={!x,..,more}: b's literal x is redundant
					delete(b, diff)
					changed = true
					continue
				}
				for w := range sts[j].writes {
					sts[i].writes[w] = true
				}
				r.Stats.Merges++
				changed = true
			}
		}
	}
	return keep
}

func (r *Run) pstKey(p *pst) string {
	var b strings.Builder
	var vs []ssa.Value
	for v := range p.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		b.WriteString(v.Name())
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(p.env[v].id))
		b.WriteByte(';')
	}
	b.WriteByte('|')
	var hs []*ssa.BasicBlock
	for h := range p.mode {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for _, h := range hs {
		fmt.Fprintf(&b, "%d:%d,", h.Index, p.mode[h])
		var phs []*ssa.Phi
		for ph := range p.entry[h] {
			phs = append(phs, ph)
		}
		sort.Slice(phs, func(i, j int) bool { return phs[i].Name() < phs[j].Name() })
		for _, ph := range phs {
			fmt.Fprintf(&b, "%d.", p.entry[h][ph].id)
			if t := p.first[h][ph]; t != nil {
				fmt.Fprintf(&b, "f%d.", t.id)
			}
		}
	}
	b.WriteByte('|')
	for _, d := range p.defers {
		fmt.Fprintf(&b, "%d,", instrID(d.in))
		for _, a := range d.args {
			fmt.Fprintf(&b, "%d.", a.id)
		}
	}
	b.WriteByte('|')
	p.st.memKey(&b)
	return b.String()
}

// gc drops cells of objects nothing refers to any more.
func (r *Run) gc(f *frame, p *pst) {
	var ts []*Term
	for _, v := range p.env {
		ts = append(ts, v)
	}
	for _, m := range p.entry {
		for _, t := range m {
			if t != nil {
				ts = append(ts, t)
			}
		}
	}
	for _, d := range p.defers {
		ts = append(ts, d.args...)
		if d.recv != nil {
			ts = append(ts, d.recv)
		}
		if d.fnv != nil {
			ts = append(ts, d.fnv)
		}
	}
	r.gcSt(f, p.st, ts)
}

func (r *Run) gcSt(f *frame, st *St, ts []*Term) {
	for _, t := range f.params {
		ts = append(ts, t)
	}
	for e := st.ev; e != nil; e = e.prev {
		if e.call != nil {
			ts = append(ts, e.call.Args...)
			if e.call.Recv != nil {
				ts = append(ts, e.call.Recv)
			}
			if e.call.Result != nil {
				ts = append(ts, e.call.Result)
			}
		}
		if e.arg != nil {
			ts = append(ts, e.arg)
		}
		if e.val != nil {
			ts = append(ts, e.val)
		}
	}
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var work []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KAlloc && !live[t] {
			live[t] = true
			work = append(work, t)
		}
		for _, a := range t.args {
			add(a)
		}
	}
	for _, t := range ts {
		add(t)
	}
	for o := range f.outer {
		add(o)
	}
	cellsOf := map[*Term][]*Term{}
	for c, v := range st.heap {
		root := addrRoot(c)
		if root.kind != KAlloc {
			add(v)
			add(c)
			continue
		}
		cellsOf[root] = append(cellsOf[root], c)
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if b, ok := st.base[a]; ok {
			add(b)
		}
		for _, c := range cellsOf[a] {
			add(st.heap[c])
			for _, x := range c.args {
				add(x)
			}
		}
	}
	for root, cs := range cellsOf {
		if !live[root] {
			for _, c := range cs {
				delete(st.heap, c)
			}
			delete(st.base, root)
		}
	}
	for b := range st.base {
		if b.kind == KAlloc && !live[b] {
			delete(st.base, b)
		}
	}
}

func (r *Run) mergeOutcomes(f *frame, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]int{}
	var order []string
	for i := range outs {
		o := &outs[i]
		r.gcSt(f, o.st, append([]*Term(nil), o.res...))
		var b strings.Builder
		if len(f.stack) == 1 && o.ret != nil {
			fmt.Fprintf(&b, "r%d|", instrID(o.ret))
		}
		for _, t := range o.res {
			fmt.Fprintf(&b, "%d,", t.id)
		}
		o.st.memKey(&b)
		k := b.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var out []Outcome
	for _, k := range order {
		g := groups[k]
		sts := make([]*St, len(g))
		for i, x := range g {
			sts[i] = outs[x].st
		}
		keep := r.resolve(sts)
		for i, x := range g {
			if keep[i] {
				out = append(out, outs[x])
			}
		}
	}
	return out
}

// ---- instructions ----

func (r *Run) val(f *frame, p *pst, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return mkZero(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return internX(KGlobal, strings.ReplaceAll(v.String(), modPath+"/", "~/"), v.Type(), nil)
	case *ssa.Function:
		return internX(KFunc, ssaName(v), v.Type(), func(t *Term) { t.fn = v })
	case *ssa.Parameter, *ssa.FreeVar:
		return f.params[v]
	case *ssa.Builtin:
		return internX(KFunc, "builtin."+v.Name(), v.Type(), nil)
	}
	if t := p.env[v]; t != nil {
		return t
	}
	return internX(KOpaque, "undef:"+f.ctx+ssaName(f.fn)+v.Name(), v.Type(), nil)
}

func (r *Run) execBlock(f *frame, b *ssa.BasicBlock, i int, p *pst, next func(*ssa.BasicBlock, *pst)) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := r.val(f, p, in.Cond)
			if v, known := p.st.truth(c); known {
				to := b.Succs[1]
				if v {
					to = b.Succs[0]
				}
				next(to, p)
				return
			}
			q := p.clone()
			if p.st.assume(c, true) {
				next(b.Succs[0], p)
			}
			if q.st.assume(c, false) {
				next(b.Succs[1], q)
			}
			return
		case *ssa.Jump:
			next(b.Succs[0], p)
			return
		case *ssa.Return:
			var res []*Term
			for _, x := range in.Results {
				res = append(res, r.val(f, p, x))
			}
			f.out = append(f.out, Outcome{st: p.st, res: res, ret: in})
			return
		case *ssa.Panic:
			r.fault(f, p.st, "panic", in)
			r.recovered(f, p)
			return
		case *ssa.RunDefers:
			r.recovered(f, p)
			r.runDefers(f, p, func(q *pst) { r.execBlock(f, b, i+1, q, next) })
			return
		case *ssa.Defer:
			d := deferred{in: in}
			r.callParts(f, p, &in.Call, &d.recv, &d.fnv, &d.args)
			p.defers = append(p.defers, d)
			r.recovered(f, p)
		case *ssa.Go:
			rec := &CallRec{Name: "go:" + r.calleeName(f, p, &in.Call), Instr: in, Fn: f.fn}
			var fnv *Term
			r.callParts(f, p, &in.Call, &rec.Recv, &fnv, &rec.Args)
			if fnv != nil {
				rec.Result = fnv
			}
			r.hookCall(p.st, rec)
		case *ssa.Call:
			var recv, fnv *Term
			var args []*Term
			r.callParts(f, p, &in.Call, &recv, &fnv, &args)
			r.recovered(f, p)
			outs := r.doCall(f, p, in, recv, fnv, args)
			if len(outs) == 1 {
				p.st = outs[0].st
				p.env[in] = tupleOf(outs[0].res, in.Type())
				continue
			}
			for _, o := range outs {
				q := p.clone()
				q.st = o.st
				q.env[in] = tupleOf(o.res, in.Type())
				r.execBlock(f, b, i+1, q, next)
			}
			return
		case *ssa.Lookup:
			if ks := p.st.tableKeys(r.val(f, p, in.X), r.val(f, p, in.Index)); ks != nil {
				k := r.val(f, p, in.Index)
				for j := 0; j <= len(ks); j++ {
					q := p.clone()
					ok := true
					for n, c := range ks {
						if n == j || j == len(ks) {
							ok = ok && q.st.assume(mkEq(k, c), n == j)
						}
					}
					if !ok {
						continue
					}
					if j < len(ks) {
						q.env[in.Index] = ks[j]
					}
					saved, had := p.env[in.Index]
					r.simple(f, q, in)
					if had {
						q.env[in.Index] = saved
					} else {
						delete(q.env, in.Index)
					}
					r.execBlock(f, b, i+1, q, next)
				}
				return
			}
			r.simple(f, p, in)
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if !r.deref(f, p, r.val(f, p, in.X), in) {
					return
				}
			}
			r.simple(f, p, in)
		case *ssa.FieldAddr:
			if !r.deref(f, p, r.val(f, p, in.X), in) {
				return
			}
			r.simple(f, p, in)
		case *ssa.Store:
			if !r.deref(f, p, r.val(f, p, in.Addr), in) {
				return
			}
			r.simple(f, p, in)
			r.recovered(f, p)
		case *ssa.TypeAssert:
			x := r.val(f, p, in.X)
			if !in.CommaOk {
				r.fault(f, p.st, "assert", in, x, mkAssertOk(x, in.AssertedType))
				if !p.st.assume(mkAssertOk(x, in.AssertedType), true) {
					return
				}
			}
			r.simple(f, p, in)
		default:
			r.simple(f, p, b.Instrs[i])
		}
	}
}

func (r *Run) deref(f *frame, p *pst, ptr *Term, in ssa.Instruction) bool {
	if r.spec == 0 && r.OnDeref != nil {
		r.OnDeref(p.st, ptr, in)
	}
	r.fault(f, p.st, "nil", in, ptr)
	if ptr.kind == KNil {
		return false
	}
	switch ptr.kind {
	case KAlloc, KFieldAddr, KGlobal, KIndexAddr:
		return true
	}
	eq := mkEq(ptr, mkNil(nil))
	if r.TrackDeref {
		return p.st.assume(eq, false)
	}
	if v, ok := p.st.truth(eq); ok && v {
		return false
	}
	return true
}

func tupleOf(res []*Term, typ types.Type) *Term {
	if len(res) == 1 {
		return res[0]
	}
	return internX(KTuple, "", typ, nil, res...)
}

func (r *Run) alloc(f *frame, p *pst, in ssa.Instruction, typ types.Type) *Term {
	t := internX(KAlloc, fmt.Sprintf("%s%s/%d", f.ctx, iterCtx(f, p, nil), instrID(in)), typ, nil)
	// a fresh object: forget what an earlier activation stored
	for c := range p.st.heap {
		if addrRoot(c) == t {
			delete(p.st.heap, c)
		}
	}
	delete(p.st.base, t)
	p.st.epoch[t]++
	return t
}

func (r *Run) simple(f *frame, p *pst, ins ssa.Instruction) {
	switch in := ins.(type) {
	case *ssa.Alloc:
		t := r.alloc(f, p, in, in.Type())
		p.st.base[t] = mkZero(pointee(t))
		p.env[in] = t
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			r.fault(f, p.st, "div", in, r.val(f, p, in.Y))
		}
		p.env[in] = mkBin(in.Op, r.val(f, p, in.X), r.val(f, p, in.Y), in.Type())
	case *ssa.UnOp:
		x := r.val(f, p, in.X)
		switch in.Op {
		case token.MUL:
			v := p.st.load(x)
			if v.typ == nil {
				v = withType(v, in.Type())
			}
			p.env[in] = v
		case token.NOT:
			p.env[in] = mkNot(x)
		case token.ARROW:
			t := internX(KOpaque, "recv:"+f.ctx+strconv.Itoa(instrID(in)), in.Type(), nil, x)
			p.env[in] = t
			r.hookCall(p.st, &CallRec{Name: "chan.recv", Recv: x, Instr: nil, Fn: f.fn, Result: t})
		default:
			if x.kind == KConst && in.Op == token.SUB {
				if n, ok := intOf(x); ok {
					p.env[in] = mkConst(mkInt(-n).val, in.Type())
					return
				}
			}
			p.env[in] = intern(KUn, in.Op.String(), in.Type(), x)
		}
	case *ssa.FieldAddr:
		p.env[in] = mkFieldAddr(r.val(f, p, in.X), in.Field, in.X.Type())
	case *ssa.Field:
		v := r.val(f, p, in.X)
		if v.typ == nil {
			v = withType(v, in.X.Type())
		}
		p.env[in] = mkField(v, in.Field)
	case *ssa.IndexAddr:
		x := r.val(f, p, in.X)
		if x.typ == nil {
			x = withType(x, in.X.Type())
		}
		r.fault(f, p.st, "index", in, x, r.val(f, p, in.Index))
		p.env[in] = mkIndexAddr(x, p.st.position(r.val(f, p, in.Index)), in.X.Type())
	case *ssa.Index:
		x := r.val(f, p, in.X)
		if x.typ == nil {
			x = withType(x, in.X.Type())
		}
		r.fault(f, p.st, "index", in, x, r.val(f, p, in.Index))
		p.env[in] = mkIndex(x, p.st.position(r.val(f, p, in.Index)))
	case *ssa.Store:
		a, v := r.val(f, p, in.Addr), r.val(f, p, in.Val)
		if r.spec == 0 && r.OnStore != nil {
			r.OnStore(p.st, a, v, in)
		}
		p.st.store(a, v)
	case *ssa.ChangeType:
		p.env[in] = r.val(f, p, in.X)
	case *ssa.ChangeInterface:
		p.env[in] = r.val(f, p, in.X)
	case *ssa.MakeInterface:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok && types.Identical(in.Type(), types.Universe.Lookup("error").Type()) {
			r.fault(f, p.st, "typed-nil", in, r.val(f, p, in.X))
		}
		p.env[in] = mkIface(r.val(f, p, in.X), in.X.Type())
	case *ssa.Convert:
		x := r.val(f, p, in.X)
		if isSlice(x.typ) && isStringType(in.Type()) {
			x = p.st.contentOf(x)
		}
		p.env[in] = convert(x, in.Type())
	case *ssa.MultiConvert:
		p.env[in] = convert(r.val(f, p, in.X), in.Type())
	case *ssa.SliceToArrayPointer:
		p.env[in] = convert(r.val(f, p, in.X), in.Type())
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, r.val(f, p, b))
		}
		p.env[in] = internX(KClosure, ssaName(fn), in.Type(), func(t *Term) { t.fn = fn }, bs...)
	case *ssa.MakeMap:
		p.env[in] = r.alloc(f, p, in, in.Type())
		p.st.base[p.env[in]] = internX(KZero, "map", in.Type(), nil)
	case *ssa.MakeChan:
		p.env[in] = r.alloc(f, p, in, in.Type())
	case *ssa.MakeSlice:
		t := r.alloc(f, p, in, in.Type())
		p.env[in] = t
		p.st.base[t] = internX(KZero, "slice", in.Type(), nil)
		p.st.heap[internX(KFieldAddr, "len", nil, nil, t)] = r.val(f, p, in.Len)
	case *ssa.Slice:
		x := r.val(f, p, in.X)
		if in.Low == nil && in.High == nil && in.Max == nil {
			if x.kind == KAlloc && pointee(x) != nil {
				if _, ok := pointee(x).Underlying().(*types.Array); ok {
					p.env[in] = intern(KSliceOf, "", in.Type(), x)
					return
				}
			}
			p.env[in] = x
			return
		}
		args := []*Term{x}
		op := ""
		for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
			if v != nil {
				op += "1"
				args = append(args, r.val(f, p, v))
			} else {
				op += "0"
			}
		}
		if r.spec == 0 && r.OnFault != nil {
			ops := []*Term{x, nil, nil, nil}
			for i, v := range []ssa.Value{in.Low, in.High, in.Max} {
				if v != nil {
					ops[i+1] = r.val(f, p, v)
				}
			}
			r.fault(f, p.st, "slice", in, ops...)
		}
		// x[0:] is x
		if op == "100" {
			if n, ok := intOf(args[1]); ok && n == 0 {
				p.env[in] = x
				return
			}
		}
		p.env[in] = intern(KSlice, op, in.Type(), args...)
	case *ssa.Lookup:
		m, k := r.val(f, p, in.X), r.val(f, p, in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			r.fault(f, p.st, "index", in, m, k)
			p.env[in] = mkIndex(m, k)
			return
		}
		v, ok := r.mapLookup(p.st, m, k, elemType(in.X.Type()))
		if in.CommaOk {
			p.env[in] = internX(KTuple, "", in.Type(), nil, v, ok)
		} else if b, known := boolOf(ok); known && !b {
			p.env[in] = mkZero(elemType(in.X.Type()))
		} else {
			p.env[in] = v
		}
	case *ssa.MapUpdate:
		m, k, v := r.val(f, p, in.Map), r.val(f, p, in.Key), r.val(f, p, in.Value)
		if r.spec == 0 && r.OnMapUpdate != nil {
			r.OnMapUpdate(p.st, m, k, v, in)
		}
		r.fault(f, p.st, "map", in, m)
		a := intern(KMapAddr, "", nil, m, k)
		for c := range p.st.heap {
			if c != a && c.kind == KMapAddr && c.args[0] == m && !staticDistinct(c.args[1], k) {
				delete(p.st.heap, c) // may be the same entry
				p.st.writes[c] = true
			}
		}
		p.st.heap[a] = v
		p.st.writes[a] = true
		p.st.epoch[m]++
	case *ssa.TypeAssert:
		x := r.val(f, p, in.X)
		ok := mkAssertOk(x, in.AssertedType)
		v := x
		if x.kind == KIface && !types.IsInterface(in.AssertedType) {
			if b, known := boolOf(ok); known && b {
				v = x.args[0]
			} else if known {
				v = mkZero(in.AssertedType)
			}
		} else if x.kind != KIface {
			v = internX(KAssert, "", in.AssertedType, nil, x)
			if types.IsInterface(in.AssertedType) {
				v = x
			}
		}
		if in.CommaOk {
			p.env[in] = internX(KTuple, "", in.Type(), nil, v, ok)
		} else {
			p.env[in] = v
		}
	case *ssa.Extract:
		p.env[in] = mkExtract(r.val(f, p, in.Tuple), in.Index, in.Type())
	case *ssa.Range:
		x := r.val(f, p, in.X)
		p.env[in] = intern(KPure, "range", in.Type(), x)
	case *ssa.Next:
		it := r.val(f, p, in.Iter)
		m := it
		if it.kind == KPure && it.op == "range" {
			m = it.args[0]
		}
		tt := in.Type().(*types.Tuple)
		id := f.ctx + iterCtx(f, p, nil) + "/" + strconv.Itoa(instrID(in))
		ok := internX(KOpaque, "next:"+id, types.Typ[types.Bool], nil, m)
		k := internX(KRangeK, id, tt.At(1).Type(), nil, m)
		v := internX(KRangeV, id, tt.At(2).Type(), nil, m)
		if in.IsString {
			v = internX(KRangeV, id+"s", tt.At(2).Type(), nil, m)
		}
		p.env[in] = internX(KTuple, "", in.Type(), nil, ok, k, v)
	case *ssa.Send:
		r.hookCall(p.st, &CallRec{Name: "chan.send", Recv: r.val(f, p, in.Chan), Args: []*Term{r.val(f, p, in.X)}, Fn: f.fn})
	case *ssa.Select:
		t := internX(KOpaque, "select:"+f.ctx+strconv.Itoa(instrID(in)), in.Type(), nil)
		p.env[in] = t
		if in.Blocking {
			r.hookCall(p.st, &CallRec{Name: "select", Fn: f.fn, Result: t})
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			p.env[v] = internX(KOpaque, "i:"+f.ctx+strconv.Itoa(instrID(ins)), v.Type(), nil)
		}
	}
}

// position is an index counted from the end, from the start if the length is known.
func (s *St) position(i *Term) *Term {
	if i.kind == KBin && i.op == "+" && i.args[0].kind == KPure && i.args[0].op == "len" {
		if n, ok := intOf(i.args[1]); ok {
			if l := s.constOf(i.args[0]); l != nil {
				if m, ok := intOf(l); ok {
					return mkInt(m + n)
				}
			}
		}
	}
	return i
}

// contentOf is the current content of a slice, as a value.
func (s *St) contentOf(x *Term) *Term {
	if es, ok := s.elems(x); ok && x.kind != KNil {
		return internX(KList, "", x.typ, nil, es...)
	}
	if src := s.copyOf(x); src != nil {
		return src
	}
	if sn := s.reach(x); len(sn) > 0 {
		return internX(KOpaque, "content", x.typ, nil, append([]*Term{x}, sn...)...)
	}
	return x
}

// copyOf returns the slice that x is a complete and unmodified copy of (made
// with copy, or by appending to nothing), provided that slice is not one the
// analysed code writes to.
func (s *St) copyOf(x *Term) *Term {
	x = unbox(x)
	var src *Term
	switch {
	case x.kind == KAlloc && isSlice(x.typ):
		b, ok := s.base[x]
		if !ok || b.kind != KOut || len(b.args) != 2 || b.args[1] != x {
			return nil
		}
		by := b.args[0]
		if by.kind != KCall || by.callee != "builtin.copy" || len(by.args) != 2 || unbox(by.args[0]) != x {
			return nil
		}
		src = by.args[1]
		size := internX(KFieldAddr, "len", nil, nil, x)
		if l, ok := s.heap[size]; !ok || l.kind != KPure || l.op != "len" || l.args[0] != src {
			return nil
		}
		for c := range s.heap {
			if c != size && (c == x || under(c, x)) {
				return nil
			}
		}
	case x.kind == KPure && x.op == "append" && len(x.args) == 2:
		if es, ok := s.elems(x.args[0]); !ok || len(es) != 0 {
			return nil
		}
		src = x.args[1]
	default:
		return nil
	}
	if !isSlice(src.typ) || len(s.reach(src)) > 0 {
		return nil
	}
	if deeper := s.copyOf(src); deeper != nil {
		return deeper
	}
	return src
}

func convert(x *Term, to types.Type) *Term {
	if x.kind == KConst {
		tb, ok := to.Underlying().(*types.Basic)
		if ok {
			switch {
			case tb.Info()&types.IsInteger != 0 && x.val.Kind().String() == "Int":
				return mkConst(x.val, to)
			case tb.Info()&types.IsString != 0 && x.val.Kind().String() == "String":
				return mkConst(x.val, to)
			}
		}
	}
	if x.typ != nil && types.Identical(x.typ.Underlying(), to.Underlying()) {
		return x
	}
	// []byte(string) and back
	if x.kind == KConv && x.args[0].typ != nil && types.Identical(x.args[0].typ.Underlying(), to.Underlying()) && (isStringTyped(x) || isStringTyped(x.args[0])) {
		return x.args[0]
	}
	// integer width changes are value preserving for the comparisons we make
	return intern(KConv, "", to, x)
}

func (r *Run) mapLookup(st *St, m, k *Term, et types.Type) (*Term, *Term) {
	if m.kind == KNil {
		return mkZero(et), mkBool(false)
	}
	a := intern(KMapAddr, "", nil, m, k)
	if v, ok := st.heap[a]; ok {
		return v, mkBool(true)
	}
	if k.kind != KConst && m.kind == KAlloc {
		if kc := st.constOf(k); kc != nil {
			if v, ok := st.heap[intern(KMapAddr, "", nil, m, kc)]; ok {
				return v, mkBool(true)
			}
		}
	}
	allConst := true
	for c := range st.heap {
		if c.kind == KMapAddr && c.args[0] == m {
			if st.distinctKey(c.args[1], k) {
				continue
			}
			allConst = false
		}
	}
	if allConst {
		for c := range st.writes {
			if c.kind == KMapAddr && c.args[0] == m && !st.distinctKey(c.args[1], k) {
				if _, ok := st.heap[c]; !ok {
					allConst = false // deleted or forgotten
				}
			}
		}
	}
	if b, ok := st.base[m]; ok && b.kind == KZero && allConst {
		return mkZero(et), mkBool(false)
	}
	op := ""
	if !allConst || m.kind == KAlloc {
		op = strconv.Itoa(st.epoch[m])
	}
	src := m
	if b, ok := st.base[m]; ok && b.kind != KZero {
		src = b
	}
	return internX(KLookup, op, et, nil, src, k), internX(KLookupOk, op, types.Typ[types.Bool], nil, src, k)
}

// tableKeys: the keys of a completely known map with constant keys, when key k is not constant.
func (s *St) tableKeys(m, k *Term) []*Term {
	if m.kind != KAlloc || k.kind == KConst {
		return nil
	}
	if b, ok := s.base[m]; !ok || b.kind != KZero {
		return nil
	}
	var ks []*Term
	for c := range s.heap {
		if c.kind != KMapAddr || c.args[0] != m {
			continue
		}
		if c.args[1] == k || c.args[1].kind != KConst {
			return nil
		}
		ks = append(ks, c.args[1])
	}
	for c := range s.writes {
		if c.kind == KMapAddr && c.args[0] == m {
			if _, ok := s.heap[c]; !ok {
				return nil
			}
		}
	}
	if len(ks) == 0 || len(ks) > 16 {
		return nil
	}
	sortTerms(ks)
	return ks
}

func (s *St) distinctKey(a, b *Term) bool { return staticDistinct(a, b) || s.refuted(mkEq(a, b)) }

func staticDistinct(a, b *Term) bool {
	v, ok := staticEq(a, b)
	return ok && !v
}

// ---- calls ----

func (r *Run) callParts(f *frame, p *pst, c *ssa.CallCommon, recv, fnv **Term, args *[]*Term) {
	if c.IsInvoke() {
		*recv = r.val(f, p, c.Value)
	} else {
		*fnv = r.val(f, p, c.Value)
	}
	for _, a := range c.Args {
		*args = append(*args, r.val(f, p, a))
	}
}

func (r *Run) calleeName(f *frame, p *pst, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return funcName(c.Method)
	}
	t := r.val(f, p, c.Value)
	return calleeOf(t)
}

func calleeOf(t *Term) string {
	if t.fn != nil {
		if o, ok := t.fn.Object().(*types.Func); ok && t.fn.Synthetic == "" {
			return funcName(o)
		}
		return ssaName(t.fn)
	}
	return "dynamic:" + t.String()
}

func (r *Run) hookCall(st *St, rec *CallRec) {
	if r.spec == 0 && r.OnCall != nil {
		r.OnCall(st, rec)
	}
	if r.Record != nil && r.Record(rec.Name) {
		key := "c:" + rec.Name
		if rec.Result != nil {
			key += ":" + strconv.Itoa(rec.Result.id)
		}
		for _, a := range rec.Args {
			key += "," + strconv.Itoa(a.id)
		}
		st.push(&event{call: rec, key: key})
	}
}

func (r *Run) doCall(f *frame, p *pst, in ssa.CallInstruction, recv, fnv *Term, args []*Term) []Outcome {
	c := in.Common()
	r.Stats.Calls++
	// builtins
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return r.builtin(f, p, in, b.Name(), args)
	}
	var fn *ssa.Function
	var free []*Term
	callArgs := args
	name := ""
	if c.IsInvoke() {
		name = funcName(c.Method)
		r.fault(f, p.st, "nil", in.(ssa.Instruction), recv)
		if recv.kind == KNil || p.st.isNil(recv) {
			if r.spec == 0 && r.OnDeref != nil {
				r.OnDeref(p.st, recv, in.(ssa.Instruction))
			}
			return nil // nil interface: panics
		}
		if r.spec == 0 && r.OnDeref != nil {
			r.OnDeref(p.st, recv, in.(ssa.Instruction))
		}
		if recv.kind == KIface && recv.typ != nil {
			if m := r.P.SSA.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				fn = m
				callArgs = append([]*Term{recv.args[0]}, args...)
				if o, ok := m.Object().(*types.Func); ok {
					name = funcName(o)
				}
			}
		}
	} else {
		if fnv.fn == nil {
			r.fault(f, p.st, "nil", in.(ssa.Instruction), fnv)
		}
		if fnv.kind == KNil {
			return nil
		}
		name = calleeOf(fnv)
		fn = fnv.fn
		if fnv.kind == KClosure {
			free = fnv.args
		}
	}
	if noReturn(name) {
		rec := &CallRec{Name: name, Recv: recv, Args: args, Instr: in, Fn: f.fn}
		if recv == nil && fn != nil && fn.Signature.Recv() != nil && len(args) > 0 {
			rec.Recv, rec.Args = args[0], args[1:]
		}
		r.fault(f, p.st, "exit", in.(ssa.Instruction))
		r.hookCall(p.st, rec)
		return nil
	}
	return r.invoke(f, p, in, name, fn, recv, free, args, callArgs)
}

func (r *Run) invoke(f *frame, p *pst, in ssa.CallInstruction, name string, fn *ssa.Function, recv *Term, free, args, callArgs []*Term) []Outcome {
	rec := &CallRec{Name: name, Recv: recv, Args: args, Instr: in, Fn: f.fn}
	if recv == nil && fn != nil && fn.Signature.Recv() != nil && len(args) > 0 {
		rec.Recv, rec.Args = args[0], args[1:]
	}
	if m := r.Models[name]; m != nil {
		if outs, ok := m(r, f, p.st, rec); ok {
			return outs
		}
	}
	if m := baseModels[name]; m != nil {
		if outs, ok := m(r, f, p, in, rec); ok {
			return outs
		}
	}
	if fn != nil && len(fn.Blocks) > 0 && (r.P.handwritten(fn) || inlinable(fn)) && !(r.Opaque != nil && r.Opaque(name)) && len(f.stack) < maxDepth && count(f.stack, fn) < 2 {
		r.Stats.Inlined++
		if r.spec == 0 && r.OnCall != nil {
			rec.Opened = true
			r.OnCall(p.st, rec)
		}
		ctx := fmt.Sprintf("%s%s>%d", f.ctx, iterCtx(f, p, nil), instrID(in.(ssa.Instruction)))
		outs := r.call(fn, callArgs, free, p.st, ctx, f.stack)
		return outs
	}
	return []Outcome{r.opaque(f, p, in, rec)}
}

func inlinable(fn *ssa.Function) bool {
	pp := fnPkgPath(fn)
	return inModule(pp) && fn.Synthetic != "" && !generated(short(pp))
}

func count(s []*ssa.Function, fn *ssa.Function) int {
	n := 0
	for _, x := range s {
		if x == fn {
			n++
		}
	}
	return n
}

// isPure: library functions without side effects whose result depends on their arguments alone.
func isPure(name string) bool {
	switch name {
	case "(~/adapter/client.Client).ID", "(~/adapter/client.Client).Name", "(~/adapter/client.Client).Secret",
		"(~/adapter/client.Client).Scope", "(~/adapter/client.Client).AuthorizationServer":
		return true // a client never changes once created (checked by C21/C16 rules)
	}
	for _, p := range []string{"strings.", "strconv.", "path.", "unicode.", "errors.New", "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "(time.Time).", "(time.Duration).", "net/url.QueryEscape", "net/url.PathEscape", "math.", "bytes.Equal", "crypto/subtle.ConstantTimeCompare", "istio.io/istio/mixer/pkg/status.WithMessage", "istio.io/istio/mixer/pkg/status.PackErrorDetail", "time.Duration", "encoding/base64.", "(*encoding/base64.Encoding).EncodeToString", "encoding/hex.EncodeToString"} {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "strings.New") && !strings.HasPrefix(name, "path/filepath") {
			return true
		}
	}
	return false
}

// readsOnly: opaque calls that do not modify what their pointer arguments refer to.
func readsOnly(name string) bool {
	if strings.HasSuffix(name, "singleflight.Group).Do(shared)") {
		return true // what the other caller writes is modelled separately
	}
	if strings.HasPrefix(name, "(~/") {
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Decode", "Unmarshal", "Do":
			return false
		}
	}
	for _, p := range []string{"go.uber.org/zap", "(*go.uber.org/zap", "(go.uber.org/zap", "fmt.", "log.", "(*net/http.Cookie).String", "(*net/http.Request).Cookie", "(*net/http.Request).BasicAuth", "(net/url.Values).Encode", "(*net/url.URL).String", "encoding/json.Marshal", "gopkg.in/mgo.v2/bson.Marshal", "istio.io/istio/mixer/pkg/status", "net/http.NewRequest", "(*sync.Mutex)", "(*sync.RWMutex)", "(net/http.Header).Get", "(*sync.Map)", "k8s.io/client-go/tools/cache.", "(k8s.io/client-go/kubernetes/typed/", "k8s.io/apimachinery/pkg/util/runtime", "net/url.Parse", "(~/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (r *Run) opaque(f *frame, p *pst, in ssa.CallInstruction, rec *CallRec) Outcome {
	st := p.st
	sig := in.Common().Signature()
	var rt types.Type
	switch sig.Results().Len() {
	case 0:
	case 1:
		rt = sig.Results().At(0).Type()
	default:
		rt = sig.Results()
	}
	all := append([]*Term(nil), rec.Args...)
	if rec.Recv != nil {
		all = append([]*Term{rec.Recv}, all...)
	}
	if isPure(rec.Name) {
		na := make([]*Term, len(all))
		for i, a := range all {
			na[i] = a
			if es, ok := st.elems(a); ok && (a.kind == KSliceOf || a.kind == KList || (a.kind == KNil && isSlice(a.typ))) {
				na[i] = internX(KList, "", a.typ, nil, es...)
			} else if isSlice(a.typ) {
				// snapshot of partly known slices: value identity must cover content
				if src := st.copyOf(a); src != nil {
					na[i] = src
				} else if sn := st.reach(a); len(sn) > 0 {
					na[i] = internX(KOpaque, "content", a.typ, nil, append([]*Term{a}, sn...)...)
				}
			}
		}
		var t *Term
		if sig.Results().Len() > 1 {
			t = intern(KPure, rec.Name, rt, na...)
			rec.Result = t
			r.hookCall(st, rec)
			var rs []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, intern(KExtract, strconv.Itoa(i), sig.Results().At(i).Type(), t))
			}
			return Outcome{st: st, res: rs}
		}
		t = mkPure(rec.Name, rt, na...)
		rec.Result = t
		r.hookCall(st, rec)
		return Outcome{st: st, res: []*Term{t}}
	}
	snap := st.reach(all...)
	key := fmt.Sprintf("%s|%s%s|%d|", rec.Name, f.ctx, iterCtx(f, p, nil), instrID(in.(ssa.Instruction)))
	for _, s := range snap {
		key += strconv.Itoa(s.id) + "."
	}
	t := internX(KCall, key, rt, func(t *Term) { t.callee = rec.Name; t.snap = snap; t.instr = in.(ssa.Instruction) }, all...)
	rec.Result = t
	r.hookCall(st, rec)
	if !readsOnly(rec.Name) {
		for _, a := range all {
			r.havocArg(st, a, t)
		}
	}
	if rt == nil {
		return Outcome{st: st, res: nil}
	}
	if sig.Results().Len() > 1 {
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, intern(KExtract, strconv.Itoa(i), sig.Results().At(i).Type(), t))
		}
		return Outcome{st: st, res: rs}
	}
	return Outcome{st: st, res: []*Term{t}}
}

// noReturn: calls after which the function does not go on.
func noReturn(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	if strings.HasPrefix(name, "(*go.uber.org/zap.") {
		m := name[strings.LastIndex(name, ".")+1:]
		return strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic")
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (r *Run) havocArg(st *St, a, by *Term) {
	a = unbox(a)
	switch a.kind {
	case KSliceOf:
		a = a.args[0]
	case KClosure:
		for i, b := range a.args {
			if i < len(a.fn.FreeVars) && storesTo(a.fn, a.fn.FreeVars[i]) {
				r.havocArg(st, b, by)
			}
		}
		return
	case KPure:
		if a.op == "append" {
			return
		}
	}
	root := addrRoot(a)
	if root.kind != KAlloc {
		return
	}
	if a == root {
		typ := a.typ
		if pt := pointee(a); pt != nil {
			typ = pt
		}
		st.havoc(root, internX(KOut, "", typ, nil, by, root))
		return
	}
	st.havoc(a, internX(KOut, "", pointee(a), nil, by, a))
}

func storesTo(fn *ssa.Function, v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == v {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure, ssa.CallInstruction:
			return true
		}
	}
	return false
}

func (r *Run) builtin(f *frame, p *pst, in ssa.CallInstruction, name string, args []*Term) []Outcome {
	st := p.st
	one := func(t *Term) []Outcome { return []Outcome{{st: st, res: []*Term{t}}} }
	var typ types.Type
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	switch name {
	case "len":
		x := args[0]
		if x.kind == KAlloc {
			if l, ok := st.heap[internX(KFieldAddr, "len", nil, nil, x)]; ok {
				return one(l)
			}
			if x.typ != nil {
				if _, ok := x.typ.Underlying().(*types.Map); ok {
					if b, ok := st.base[x]; ok && b.kind == KZero {
						n := 0
						exact := true
						var keys []*Term
						for c := range st.heap {
							if c.kind == KMapAddr && c.args[0] == x {
								for _, k := range keys {
									if !staticDistinct(k, c.args[1]) {
										exact = false
									}
								}
								keys = append(keys, c.args[1])
								n++
							}
						}
						if exact {
							return one(mkInt(int64(n)))
						}
					}
					return one(internX(KPure, "len", types.Typ[types.Int], nil, x, mkInt(int64(st.epoch[x]))))
				}
			}
		}
		return one(mkLen(x))
	case "cap":
		return one(intern(KPure, "cap", typ, args...))
	case "append":
		base := args[0]
		if len(args) == 1 {
			return one(base)
		}
		add, okA := st.elems(args[1])
		if es, ok := st.elems(base); ok && okA {
			return one(internX(KList, "", typ, nil, append(append([]*Term(nil), es...), add...)...))
		}
		var tail *Term
		if okA {
			tail = internX(KList, "", typ, nil, add...)
		} else {
			tail = args[1]
		}
		t := internX(KPure, "append", typ, nil, base, tail)
		r.hookCall(st, &CallRec{Name: "builtin.append", Args: []*Term{base, tail}, Instr: in, Fn: f.fn, Result: t})
		return one(t)
	case "copy":
		t := internX(KCall, fmt.Sprintf("copy|%s|%d", f.ctx, instrID(in.(ssa.Instruction))), types.Typ[types.Int], func(t *Term) { t.callee = "builtin.copy" }, args...)
		r.hookCall(st, &CallRec{Name: "builtin.copy", Args: args, Instr: in, Fn: f.fn, Result: t})
		r.havocArg(st, args[0], t)
		return one(t)
	case "delete":
		rec := &CallRec{Name: "builtin.delete", Args: args, Instr: in, Fn: f.fn}
		r.hookCall(st, rec)
		a := intern(KMapAddr, "", nil, args[0], args[1])
		delete(st.heap, a)
		st.writes[a] = true
		st.epoch[args[0]]++
		return []Outcome{{st: st}}
	case "close":
		r.hookCall(st, &CallRec{Name: "builtin.close", Args: args, Instr: in, Fn: f.fn})
		return []Outcome{{st: st}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "recover":
		if r.recovering {
			t := internX(KOpaque, "recovered", typ, nil)
			if !st.assume(mkEq(t, mkNil(typ)), false) {
				return nil
			}
			return one(t)
		}
		return one(mkNil(typ))
	}
	if typ == nil {
		return []Outcome{{st: st}}
	}
	t := intern(KPure, "builtin."+name, typ, args...)
	return one(t)
}

func (r *Run) runDefers(f *frame, p *pst, k func(*pst)) {
	if len(p.defers) == 0 {
		k(p)
		return
	}
	d := p.defers[len(p.defers)-1]
	p.defers = p.defers[:len(p.defers)-1]
	outs := r.doCall(f, p, d.in, d.recv, d.fnv, d.args)
	for _, o := range outs {
		q := p.clone()
		q.st = o.st
		r.runDefers(f, q, k)
	}
}

// recovered follows a panic raised here by an operation of the function or by anything it calls,
// where a deferred function of the frame recovers: the deferred calls run with the memory as it is
// here, and the function returns what its results hold then.
func (r *Run) recovered(f *frame, p *pst) {
	n := -1
	for i, d := range p.defers {
		if d.fnv != nil && recovers(d.fnv.fn) {
			n = i
		}
	}
	if n < 0 || f.fn.Recover == nil {
		return
	}
	q := p.clone()
	var unwind func(q *pst)
	unwind = func(q *pst) {
		if len(q.defers) == 0 {
			r.execBlock(f, f.fn.Recover, 0, q, func(*ssa.BasicBlock, *pst) {})
			return
		}
		k := len(q.defers) - 1
		d := q.defers[k]
		q.defers = q.defers[:k]
		was := r.recovering
		r.recovering = k == n
		outs := r.doCall(f, q, d.in, d.recv, d.fnv, d.args)
		r.recovering = was
		for _, o := range outs {
			w := q.clone()
			w.st = o.st
			unwind(w)
		}
	}
	unwind(q)
}

// recovers reports whether a function, deferred, calls recover.
func recovers(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// ---- models of library functions that call back ----

var baseModels map[string]func(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool)

func init() {
	single := func(nres int) func(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
		return func(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
			if len(c.Args) != 2 || c.Args[1].fn == nil {
				return nil, false
			}
			cl := c.Args[1]
			var free []*Term
			if cl.kind == KClosure {
				free = cl.args
			}
			// this caller runs the function
			st0 := p.st.clone()
			ctx := fmt.Sprintf("%s%s>%d", f.ctx, iterCtx(f, p, nil), instrID(in.(ssa.Instruction)))
			outs := r.call(cl.fn, nil, free, p.st, ctx, f.stack)
			for i := range outs {
				if nres == 3 {
					outs[i].res = append(outs[i].res, mkBool(false))
				}
			}
			// or another caller does, concurrently: memory it writes is unknown here
			q := p.clone()
			q.st = st0
			before := map[*Term]bool{}
			for _, o := range outs {
				for a := range o.st.writes {
					before[a] = true
				}
			}
			rec := &CallRec{Name: c.Name + "(shared)", Recv: c.Recv, Args: c.Args, Instr: in, Fn: f.fn}
			o := r.opaque(f, q, in, rec)
			ks := make([]*Term, 0)
			for a := range before {
				if !p.st.writes[a] && addrRoot(a).kind != KAlloc {
					ks = append(ks, a)
				}
			}
			sortTerms(ks)
			for _, a := range ks {
				o.st.havoc(a, internX(KOut, "shared", pointee(a), nil, rec.Result, a))
			}
			return append(outs, o), true
		}
	}
	baseModels = map[string]func(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool){
		"(*net/http.Cookie).String":                             snapshotOf,
		"(*net/url.URL).String":                                 snapshotOf,
		"(net/url.Values).Encode":                               encodeValues,
		"(net/url.Values).Set":                                  setValue,
		"(net/url.Values).Add":                                  setValue,
		"(*github.com/golang/groupcache/singleflight.Group).Do": single(2),
		"(*golang.org/x/sync/singleflight.Group).Do":            single(3),
	}
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		for _, m := range []string{"WriteString", "WriteByte", "WriteRune", "Write", "String", "Grow", "Len", "Reset"} {
			baseModels[t+m] = builder
		}
	}
	baseModels["bytes.NewBufferString"] = newBuffer
	baseModels["bytes.NewBuffer"] = newBuffer
}

func bufferCell(p *pst, recv *Term) (*Term, *Term) {
	if recv == nil {
		return nil, nil
	}
	st, ok := derefType(recv.typ).Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "buf" {
			continue
		}
		cell := mkFieldAddr(recv, i, recv.typ)
		v := p.st.load(cell)
		switch {
		case v.kind == KZero || v.kind == KNil:
			return cell, mkStr("")
		case v.typ != nil && isStringType(v.typ):
			return cell, v
		}
	}
	return nil, nil
}

// builder models strings.Builder and bytes.Buffer as a cell holding the text written so far.
func builder(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
	cell, old := bufferCell(p, c.Recv)
	if cell == nil || addrRoot(c.Recv).kind != KAlloc {
		return nil, false
	}
	str := types.Typ[types.String]
	add := func(t *Term) { p.st.store(cell, mkBin(token.ADD, old, t, str)) }
	ok := mkNil(types.Universe.Lookup("error").Type())
	switch c.Name[strings.LastIndex(c.Name, ".")+1:] {
	case "WriteString":
		add(c.Args[0])
		c.Result = mkLen(c.Args[0])
		r.hookCall(p.st, c)
		return []Outcome{{st: p.st, res: []*Term{c.Result, ok}}}, true
	case "Write":
		add(convert(p.st.contentOf(c.Args[0]), str))
		c.Result = mkLen(c.Args[0])
		r.hookCall(p.st, c)
		return []Outcome{{st: p.st, res: []*Term{c.Result, ok}}}, true
	case "WriteByte":
		add(byteString(c.Args[0]))
		r.hookCall(p.st, c)
		return []Outcome{{st: p.st, res: []*Term{ok}}}, true
	case "WriteRune":
		add(byteString(c.Args[0]))
		r.hookCall(p.st, c)
		return []Outcome{{st: p.st, res: []*Term{mkInt(1), ok}}}, true
	case "String":
		c.Result = old
		r.hookCall(p.st, c)
		return []Outcome{{st: p.st, res: []*Term{old}}}, true
	case "Len":
		return []Outcome{{st: p.st, res: []*Term{mkLen(old)}}}, true
	case "Reset":
		p.st.store(cell, mkStr(""))
		return []Outcome{{st: p.st}}, true
	case "Grow":
		return []Outcome{{st: p.st}}, true
	}
	return nil, false
}

// byteString is the text of one character.
func byteString(b *Term) *Term {
	if n, ok := intOf(b); ok && n > 0 && n < 128 {
		return mkStr(string(rune(n)))
	}
	return mkPure("char", types.Typ[types.String], b)
}

func newBuffer(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
	v, ok := in.(*ssa.Call)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	t := r.alloc(f, p, v, v.Type())
	p.st.base[t] = mkZero(pointee(t))
	cell, _ := bufferCell(p, t)
	if cell == nil {
		return nil, false
	}
	a := c.Args[0]
	if a.kind == KNil {
		a = mkStr("")
	}
	p.st.store(cell, convert(p.st.contentOf(a), types.Typ[types.String]))
	c.Result = t
	r.hookCall(p.st, c)
	return []Outcome{{st: p.st, res: []*Term{t}}}, true
}

// snapshotOf models a method whose result is a function of the receiver's content.
func snapshotOf(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
	if c.Recv == nil {
		return nil, false
	}
	c.Result = intern(KPure, c.Name, types.Typ[types.String], p.st.load(c.Recv))
	r.hookCall(p.st, c)
	return []Outcome{{st: p.st, res: []*Term{c.Result}}}, true
}

// encodeValues models url.Values.Encode on a locally built map with constant keys.
func encodeValues(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
	m := c.Recv
	if m == nil {
		return nil, false
	}
	for m.kind == KConv {
		m = m.args[0]
	}
	if m.kind != KAlloc {
		return nil, false
	}
	if b, ok := p.st.base[m]; !ok || b.kind != KZero {
		return nil, false
	}
	kv := map[string]*Term{}
	for a, v := range p.st.heap {
		if a.kind != KMapAddr || a.args[0] != m {
			continue
		}
		k, ok := strOf(a.args[1])
		if !ok {
			return nil, false
		}
		if es, ok := p.st.elems(v); ok {
			v = internX(KList, "", v.typ, nil, es...)
		}
		kv[k] = v
	}
	var ks []string
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var args []*Term
	for _, k := range ks {
		args = append(args, mkStr(k), kv[k])
	}
	c.Result = intern(KPure, c.Name, types.Typ[types.String], args...)
	r.hookCall(p.st, c)
	return []Outcome{{st: p.st, res: []*Term{c.Result}}}, true
}

func setValue(r *Run, f *frame, p *pst, in ssa.CallInstruction, c *CallRec) ([]Outcome, bool) {
	m := c.Recv
	if m == nil || len(c.Args) != 2 {
		return nil, false
	}
	for m.kind == KConv {
		m = m.args[0]
	}
	if m.kind != KAlloc {
		return nil, false
	}
	if _, ok := strOf(c.Args[0]); !ok {
		return nil, false
	}
	slice := types.NewSlice(types.Typ[types.String])
	val := internX(KList, "", slice, nil, c.Args[1])
	a := intern(KMapAddr, "", nil, m, c.Args[0])
	if strings.HasSuffix(c.Name, ".Add") {
		if old, ok := p.st.heap[a]; ok {
			es, known := p.st.elems(old)
			if !known {
				return nil, false
			}
			val = internX(KList, "", slice, nil, append(append([]*Term(nil), es...), c.Args[1])...)
		} else if b, ok := p.st.base[m]; !ok || b.kind != KZero {
			return nil, false
		}
	}
	r.hookCall(p.st, c)
	if r.spec == 0 && r.OnMapUpdate != nil {
		r.OnMapUpdate(p.st, m, c.Args[0], val, in.(ssa.Instruction))
	}
	p.st.store(a, val)
	p.st.epoch[m]++
	return []Outcome{{st: p.st}}, true
}
