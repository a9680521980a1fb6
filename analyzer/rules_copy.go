package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: a deep copy of a configuration object is complete and independent of the original.

func init() {
	checks["C40"] = c40
	explain["C40"] = "Forward dataflow over the compiler's SSA form of every DeepCopyInto, DeepCopy and DeepCopyObject of the policy API types (and the helpers they hand the objects to): for every field path of the copy it tracks whether it was written, still shares a slice, map or pointer with the original, is fresh but not filled, or is an independent copy; a field whose original is nil on the path counts as copied; a loop counts only if it visits every element. At every return every field must be an independent copy."
}

const (
	cpUnset  = iota // not written
	cpShared        // refers to the original's memory, or is nil: right only if the original's is nil
	cpFresh         // own memory, contents not filled
	cpCopied
)

// place is an access path from one of the two objects, with the indices on it.
type place struct {
	s   string
	idx []ssa.Value
}

type cpState struct {
	leaf map[string]int
	null map[string]bool // paths of the original that are nil (or empty) here
}

func (s *cpState) clone() *cpState {
	n := &cpState{map[string]int{}, map[string]bool{}}
	for k, v := range s.leaf {
		n.leaf[k] = v
	}
	for k := range s.null {
		n.null[k] = true
	}
	return n
}

// join keeps the worst of both; reports whether s changed.
func (s *cpState) join(o *cpState) bool {
	ch := false
	for k, v := range s.leaf {
		if o.leaf[k] < v {
			s.leaf[k] = o.leaf[k]
			ch = true
		}
	}
	for k := range s.null {
		if !o.null[k] {
			delete(s.null, k)
			ch = true
		}
	}
	return ch
}

type copier struct {
	c    *Check
	memo map[string]*copyResult
}

type copyResult struct {
	bad  []string // what is wrong with the copy
	pos  token.Pos
	busy bool
}

func c40(c *Check) {
	pkg := c.P.Type(pkgV1, "Policy")
	if !c.need(pkg != nil, "v1.Policy") {
		return
	}
	cp := &copier{c: c, memo: map[string]*copyResult{}}
	scope := pkg.Obj().Pkg().Scope()
	names := scope.Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for _, m := range []string{"DeepCopyInto", "DeepCopy", "DeepCopyObject"} {
			fn := c.P.methodOf(types.NewPointer(named), m)
			if fn == nil || fn.Blocks == nil || fn.Synthetic != "" {
				continue
			}
			r := cp.function(fn, 0, outOf(fn))
			c.Fns[ssaName(fn)] = true
			c.Roots = append(c.Roots, ssaName(fn))
			c.ob("copy-complete-and-independent", ssaName(fn), c.P.posOf(r.pos), len(r.bad) == 0, "%s", strings.Join(r.bad, "; "))
		}
	}
	for _, n := range []string{"Policy", "PolicyList", "OidcConfig", "OidcConfigList", "JwtConfig", "JwtConfigList"} {
		t := c.P.Type(pkgV1, n)
		fn := (*ssa.Function)(nil)
		if t != nil {
			fn = c.P.methodOf(types.NewPointer(t), "DeepCopyObject")
		}
		c.ob("object-copyable", "v1."+n, "-", fn != nil && fn.Blocks != nil && c.Fns[ssaName(fn)], "no DeepCopyObject of its own was found for v1.%s", n)
	}
	c.atLeast("copy-complete-and-independent", 18)
}

// outOf: the parameter that receives the copy, or -1 when the copy is the result.
func outOf(fn *ssa.Function) int {
	if len(fn.Params) == 2 {
		return 1
	}
	return -1
}

// holdsRefs: a value of the type refers to memory that a copy of the value shares.
func holdsRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRefs(u.Elem())
	case *types.Basic:
		return false
	}
	return true
}

// leaves: the field paths of a type that are tracked separately.
func leaves(t types.Type, pre string, out map[string]types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
		n, named := t.(*types.Named)
		if !named || strings.HasSuffix(n.Obj().Pkg().Path(), "/policies/v1") {
			for i := 0; i < st.NumFields(); i++ {
				leaves(st.Field(i).Type(), pre+"."+st.Field(i).Name(), out)
			}
			return
		}
	}
	out[pre] = t
}

type copyFn struct {
	*copier
	fn     *ssa.Function
	in     ssa.Value
	out    ssa.Value // pointer to the copy (a parameter or an allocation), or nil
	typ    types.Type
	leafT  map[string]types.Type
	alias  map[ssa.Value]string // fresh slices stored in a field
	loops  []*copyLoop
	result *copyResult
}

type copyLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	lat  []*ssa.BasicBlock
	idx  ssa.Value // the index on every element, or nil
	over string    // the list whose length bounds it
}

// function decides whether fn leaves a deep copy of parameter in its parameter out (or its result).
func (cp *copier) function(fn *ssa.Function, in, out int) *copyResult {
	key := fmt.Sprintf("%p/%d/%d", fn, in, out)
	if r := cp.memo[key]; r != nil {
		if r.busy {
			return &copyResult{bad: []string{"recursive copy"}, pos: fn.Pos()}
		}
		return r
	}
	r := &copyResult{pos: fn.Pos(), busy: true}
	cp.memo[key] = r
	defer func() { r.busy = false }()
	if fn.Blocks == nil || in >= len(fn.Params) {
		r.bad = append(r.bad, "the body of "+ssaName(fn)+" is not available")
		return r
	}
	cp.c.Fns[ssaName(fn)] = true
	a := &copyFn{copier: cp, fn: fn, in: fn.Params[in], result: r, alias: map[ssa.Value]string{}}
	a.findLoops()
	if out >= 0 {
		a.analyse(fn.Params[out])
		return r
	}
	// the copy is the result: every allocation that may be returned is one
	roots := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(ret.Results) != 1 {
			r.bad = append(r.bad, "does not return exactly the copy")
			return r
		}
		for _, v := range sources(ret.Results[0], nil) {
			roots[v] = true
		}
	}
	n := 0
	for v := range roots {
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			n++
			a.analyse(v)
			continue
		case *ssa.Call:
			if k, ok := a.copyCall(v); ok && k == "in" {
				n++
				continue
			}
		}
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			continue
		}
		a.bad(v.Pos(), "returns %s, which is not recognised as a deep copy of its argument", v)
	}
	if n == 0 {
		a.bad(fn.Pos(), "returns no copy")
	}
	a.analyse(nil)
	return r
}

// sources follows conversions, interfaces and merges to the values a result may be.
func sources(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return sources(x.X, seen)
	case *ssa.ChangeInterface:
		return sources(x.X, seen)
	case *ssa.ChangeType:
		return sources(x.X, seen)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return sources(x.X, seen)
		}
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, sources(e, seen)...)
		}
		return out
	}
	return []ssa.Value{v}
}

func (a *copyFn) bad(pos token.Pos, f string, args ...interface{}) {
	m := fmt.Sprintf(f, args...)
	for _, x := range a.result.bad {
		if x == m {
			return
		}
	}
	if pos.IsValid() {
		a.result.pos = pos
	}
	a.result.bad = append(a.result.bad, m)
}

// at: the access path a value (or the address of it) stands for.
func (a *copyFn) at(v ssa.Value) (place, bool) {
	if v == a.in {
		return place{s: "in"}, true
	}
	if a.out != nil && v == a.out {
		return place{s: "out"}, true
	}
	if l, ok := a.alias[v]; ok {
		return place{s: l}, true
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if p, ok := a.at(x.X); ok {
			st := derefType(x.X.Type()).Underlying().(*types.Struct)
			return place{p.s + "." + st.Field(x.Field).Name(), p.idx}, true
		}
	case *ssa.Field:
		if p, ok := a.at(x.X); ok {
			st := x.X.Type().Underlying().(*types.Struct)
			return place{p.s + "." + st.Field(x.Field).Name(), p.idx}, true
		}
	case *ssa.IndexAddr:
		if p, ok := a.at(x.X); ok {
			return place{p.s + "[]", append(append([]ssa.Value{}, p.idx...), x.Index)}, true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return a.at(x.X)
		}
	case *ssa.ChangeType:
		return a.at(x.X)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return a.at(x.X)
		}
	case *ssa.Alloc: // a local copy of one of the values
		if src := onlyStore(x); src != nil && !x.Heap {
			return a.at(src)
		} else if src != nil && v != a.out {
			return a.at(src)
		}
	}
	return place{}, false
}

// onlyStore: the value stored into a local exactly once, as a whole.
func onlyStore(x *ssa.Alloc) ssa.Value {
	var src ssa.Value
	for _, r := range *x.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == x {
			if src != nil {
				return nil
			}
			src = st.Val
		}
	}
	return src
}

func underPath(p, leaf string) bool {
	return p == leaf || strings.HasPrefix(leaf, p+".")
}

func outRest(s string) (string, bool) {
	if s == "out" || strings.HasPrefix(s, "out.") || strings.HasPrefix(s, "out[") {
		return s[3:], true
	}
	return "", false
}

func inRest(s string) (string, bool) {
	if s == "in" || strings.HasPrefix(s, "in.") || strings.HasPrefix(s, "in[") {
		return s[2:], true
	}
	return "", false
}

// contract: the function is a deep copy by name: one of a library's types, or one checked by itself.
func contract(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && strings.HasPrefix(fn.Name(), "DeepCopy") || fn.Blocks == nil
}

// copyCall: the call's result is a deep copy of what the returned path names.
func (a *copyFn) copyCall(v ssa.Value) (string, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() != "append" || len(cc.Args) != 2 {
			return "", false
		}
		st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok || holdsRefs(st.Elem()) || !emptyFresh(cc.Args[0]) {
			return "", false
		}
		p, ok := a.at(cc.Args[1])
		return p.s, ok && len(p.idx) == 0
	}
	fn := cc.StaticCallee()
	if fn == nil {
		return "", false
	}
	if contract(fn) {
		if (fn.Name() == "DeepCopy" || fn.Name() == "DeepCopyObject") && len(cc.Args) == 1 {
			p, ok := a.at(cc.Args[0])
			return p.s, ok
		}
		return "", false
	}
	for i, arg := range cc.Args {
		if p, ok := a.at(arg); ok {
			if _, isIn := inRest(p.s); isIn {
				if r := a.function(fn, i, -1); len(r.bad) == 0 {
					return p.s, true
				}
			}
		}
	}
	return "", false
}

// emptyFresh: nil, or a list made without elements.
func emptyFresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		k, ok := x.Len.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0
	case *ssa.Slice: // make([]T, 0, constant) or []T{}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		if k, isK := x.High.(*ssa.Const); isK && k.Value != nil && constant.Sign(k.Value) == 0 {
			return true
		}
		arr, ok := derefType(al.Type()).Underlying().(*types.Array)
		return ok && arr.Len() == 0
	case *ssa.ChangeType:
		return emptyFresh(x.X)
	}
	return false
}

func (a *copyFn) findLoops() {
	heads := map[*ssa.BasicBlock]*copyLoop{}
	for _, b := range a.fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := heads[h]
			if l == nil {
				l = &copyLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				heads[h] = l
				a.loops = append(a.loops, l)
			}
			l.lat = append(l.lat, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range a.loops {
		for b := range l.body {
			for _, s := range b.Succs {
				if b != l.head && !l.body[s] {
					l.head = nil // another way out
				}
			}
			if l.head == nil {
				break
			}
		}
	}
}

// every: the list all of whose elements the loop visits, and the index.
func (a *copyFn) every(l *copyLoop) (list string, idx ssa.Value) {
	if l.head == nil {
		return "", nil
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return "", nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return "", nil
	}
	in := l.body[l.head.Succs[0]]
	if in == l.body[l.head.Succs[1]] {
		return "", nil
	}
	op, x, y := cond.Op, cond.X, cond.Y
	if !in {
		op = negated(op)
	}
	if _, isLen := a.lenOf(x); isLen {
		x, y = y, x
		op = swapped(op)
	}
	num := func(v ssa.Value, n int64) bool {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		i, ok := constant.Int64Val(constant.ToInt(k.Value))
		return ok && i == n
	}
	// the phi of the index, its start and its step
	phi, ok := x.(*ssa.Phi)
	shift := int64(0)
	if !ok {
		if b, isB := x.(*ssa.BinOp); isB && b.Op == token.ADD && num(b.Y, 1) {
			phi, ok = b.X.(*ssa.Phi)
			shift = 1
		}
	}
	if !ok || phi.Block() != l.head {
		return "", nil
	}
	var start ssa.Value
	step := int64(0)
	for i, e := range phi.Edges {
		if !l.body[l.head.Preds[i]] {
			if start != nil && start != e {
				return "", nil
			}
			start = e
			continue
		}
		b, isB := e.(*ssa.BinOp)
		if !isB || b.X != ssa.Value(phi) || !num(b.Y, 1) {
			return "", nil
		}
		switch {
		case b.Op == token.ADD && step >= 0:
			step = 1
		case b.Op == token.SUB && step <= 0:
			step = -1
		default:
			return "", nil
		}
	}
	if step == 1 && num(start, -shift) {
		if p, isLen := a.lenOf(y); isLen && (op == token.LSS || op == token.NEQ) {
			return p, x
		}
	}
	if step == -1 && shift == 0 && (op == token.GEQ && num(y, 0) || op == token.GTR && num(y, -1)) {
		if b, isB := start.(*ssa.BinOp); isB && b.Op == token.SUB && num(b.Y, 1) {
			if p, isLen := a.lenOf(b.X); isLen {
				return p, x
			}
		}
	}
	return "", nil
}

func negated(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func swapped(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// lenOf: v is the length of a list of one of the objects.
func (a *copyFn) lenOf(v ssa.Value) (string, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	if b, ok := call.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return "", false
	}
	p, ok := a.at(call.Common().Args[0])
	return p.s, ok && len(p.idx) == 0
}

// fills: in every iteration of l that continues, each element of the list named gets its own copy.
func (a *copyFn) fills(l *copyLoop) map[string]bool {
	list, idx := a.every(l)
	out := map[string]bool{}
	if idx == nil {
		return out
	}
	always := func(b *ssa.BasicBlock) bool {
		for _, x := range l.lat {
			if !b.Dominates(x) {
				return false
			}
		}
		return l.body[b] && b != l.head
	}
	elem := func(dst, src place) (string, bool) {
		if len(dst.idx) != 1 || len(src.idx) != 1 || dst.idx[0] != idx || src.idx[0] != idx || !strings.HasSuffix(dst.s, "[]") {
			return "", false
		}
		d, ok1 := outRest(dst.s)
		s, ok2 := inRest(src.s)
		n := strings.TrimSuffix(d, "[]")
		return n, ok1 && ok2 && d == s && (list == "in"+n || list == "out"+n)
	}
	for b := range l.body {
		if !always(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				dst, ok := a.at(x.Addr)
				if !ok {
					continue
				}
				if src, ok := a.at(x.Val); ok && !holdsRefs(x.Val.Type()) {
					if n, ok := elem(dst, src); ok {
						out[n] = true
					}
				}
				if src, ok := a.copied(x.Val); ok {
					if n, ok := elem(dst, src); ok {
						out[n] = true
					}
				}
			case *ssa.Call:
				if src, dst, ok := a.copyInto(x); ok {
					if n, ok := elem(dst, src); ok {
						out[n] = true
					}
				}
			}
		}
	}
	return out
}

// copied: v is a deep copy of the value at a place of the original.
func (a *copyFn) copied(v ssa.Value) (place, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return place{}, false
	}
	s, ok := a.copyCall(call)
	if !ok {
		return place{}, false
	}
	for _, arg := range call.Common().Args {
		if p, ok := a.at(arg); ok && p.s == s {
			return p, true
		}
	}
	return place{}, false
}

// copyInto: the call writes a deep copy of src into dst.
func (a *copyFn) copyInto(call *ssa.Call) (src, dst place, ok bool) {
	cc := call.Common()
	fn := cc.StaticCallee()
	if fn == nil {
		return
	}
	si, di := -1, -1
	for i, arg := range cc.Args {
		p, ok := a.at(arg)
		if !ok {
			continue
		}
		if _, isPtr := arg.Type().Underlying().(*types.Pointer); !isPtr {
			continue
		}
		if _, isIn := inRest(p.s); isIn {
			if si >= 0 {
				return src, dst, false
			}
			src, si = p, i
		} else {
			if di >= 0 {
				return src, dst, false
			}
			dst, di = p, i
		}
	}
	if si < 0 || di < 0 {
		return src, dst, false
	}
	if contract(fn) {
		return src, dst, fn.Name() == "DeepCopyInto" && si == 0 && di == 1
	}
	return src, dst, len(a.function(fn, si, di).bad) == 0
}

// analyse runs the dataflow for one copy; out nil checks only the results that are not copies.
func (a *copyFn) analyse(out ssa.Value) {
	a.out = out
	a.leafT = map[string]types.Type{}
	a.alias = map[ssa.Value]string{}
	if out != nil {
		a.typ = derefType(out.Type())
		if _, isSlice := out.(*ssa.MakeSlice); isSlice {
			a.typ = out.Type()
		}
		leaves(a.typ, "out", a.leafT)
	}
	// fresh lists stored in a field stand for that field
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, isMake := st.Val.(*ssa.MakeSlice); isMake {
					if p, ok := a.at(st.Addr); ok && len(p.idx) == 0 {
						if _, isOut := outRest(p.s); isOut {
							a.alias[st.Val] = p.s
						}
					}
				}
			}
		}
	}
	fill := map[*ssa.BasicBlock]map[string]bool{}
	body := map[*ssa.BasicBlock]*copyLoop{}
	for _, l := range a.loops {
		if l.head != nil {
			fill[l.head] = a.fills(l)
			body[l.head] = l
		}
	}
	states := map[*ssa.BasicBlock]*cpState{}
	first := &cpState{map[string]int{}, map[string]bool{}}
	for l := range a.leafT {
		first.leaf[l] = cpUnset
	}
	if _, ok := out.(*ssa.MakeSlice); ok {
		first.leaf["out"] = cpFresh
	}
	states[a.fn.Blocks[0]] = first
	work := []*ssa.BasicBlock{a.fn.Blocks[0]}
	rets := map[*ssa.Return]*cpState{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := states[b].clone()
		for _, in := range b.Instrs {
			a.step(s, in)
			if r, ok := in.(*ssa.Return); ok {
				rets[r] = s.clone()
			}
		}
		for i, n := range b.Succs {
			e := s.clone()
			a.edge(e, b, i)
			if l := body[b]; l != nil && !l.body[n] {
				for f := range fill[b] {
					if e.leaf["out"+f] >= cpFresh {
						e.leaf["out"+f] = cpCopied
					}
				}
			}
			if old := states[n]; old == nil {
				states[n] = e
				work = append(work, n)
			} else if old.join(e) {
				work = append(work, n)
			}
		}
	}
	a.c.States += len(states)
	for r, s := range rets {
		a.c.Paths++
		if out == nil {
			if len(r.Results) == 1 {
				if k, ok := plainValue(r.Results[0]).(*ssa.Const); ok && k.Value == nil && !s.null["in"] {
					a.bad(r.Pos(), "returns nil although the original may not be nil")
				}
			}
			continue
		}
		if _, isParam := out.(*ssa.Parameter); !isParam {
			is := false
			for _, v := range sources(r.Results[0], nil) {
				is = is || v == out
			}
			if !is {
				continue
			}
		}
		var ls []string
		for l := range s.leaf {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			switch s.leaf[l] {
			case cpUnset:
				a.bad(r.Pos(), "%s is not copied on every path", strings.TrimPrefix(l, "out."))
			case cpShared:
				a.bad(r.Pos(), "%s of the copy shares its elements with the original (or is dropped)", strings.TrimPrefix(l, "out."))
			case cpFresh:
				a.bad(r.Pos(), "%s of the copy is not filled with copies of all its elements", strings.TrimPrefix(l, "out."))
			}
		}
	}
}

func plainValue(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (a *copyFn) set(s *cpState, p string, rank func(types.Type) int) {
	for l, t := range a.leafT {
		if underPath(p, l) {
			s.leaf[l] = rank(t)
		} else if strings.HasPrefix(p, l+".") || strings.HasPrefix(p, l+"[") {
			// part of a leaf: only ever makes it worse
			if k := rank(nil); k < s.leaf[l] {
				s.leaf[l] = k
			}
		}
	}
}

func (a *copyFn) step(s *cpState, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if al, ok := x.Addr.(*ssa.Alloc); ok && ssa.Value(al) != a.out {
			return // a local variable
		}
		p, ok := a.at(x.Addr)
		if !ok {
			return
		}
		if _, isIn := inRest(p.s); isIn {
			a.bad(x.Pos(), "writes into the original's %s", strings.TrimPrefix(p.s, "in."))
			return
		}
		rest, _ := outRest(p.s)
		if len(p.idx) > 0 {
			if holdsRefs(x.Val.Type()) {
				if _, ok := a.copied(x.Val); !ok {
					a.set(s, p.s, func(types.Type) int { return cpShared })
				}
			}
			return
		}
		if src, ok := a.at(x.Val); ok && src.s == "in"+rest {
			a.set(s, p.s, func(t types.Type) int {
				if t != nil && holdsRefs(t) {
					return cpShared
				}
				return cpCopied
			})
			for l := range a.leafT { // what is nil is not shared
				if underPath(p.s, l) && s.null["in"+l[3:]] {
					s.leaf[l] = cpCopied
				}
			}
			return
		}
		if src, ok := a.copied(x.Val); ok && src.s == "in"+rest {
			a.set(s, p.s, func(types.Type) int { return cpCopied })
			return
		}
		if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
			rank := cpShared // right only where the original's is nil
			if s.null["in"+rest] {
				rank = cpCopied
			}
			a.set(s, p.s, func(types.Type) int { return rank })
			return
		}
		if m, ok := x.Val.(*ssa.MakeSlice); ok {
			if n, isLen := a.lenOf(m.Len); isLen && n == "in"+rest {
				a.set(s, p.s, func(types.Type) int { return cpFresh })
				return
			}
		}
		if lit, ok := x.Val.(*ssa.UnOp); ok && lit.Op == token.MUL {
			if al, isA := lit.X.(*ssa.Alloc); isA && ssa.Value(al) != a.out {
				// a composite literal: its parts
				if a.literal(s, al, p.s, rest) {
					return
				}
			}
		}
		a.set(s, p.s, func(types.Type) int { return cpUnset })
	case *ssa.Call:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" {
				dst, ok1 := a.at(cc.Args[0])
				src, ok2 := a.at(cc.Args[1])
				if ok1 && ok2 && len(dst.idx) == 0 && len(src.idx) == 0 {
					if r, isOut := outRest(dst.s); isOut && src.s == "in"+r && s.leaf[dst.s] >= cpFresh {
						if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && !holdsRefs(st.Elem()) {
							s.leaf[dst.s] = cpCopied
						} else {
							s.leaf[dst.s] = cpShared
						}
					}
				}
			}
			return
		}
		if src, dst, ok := a.copyInto(x); ok {
			if r, isOut := outRest(dst.s); isOut && len(dst.idx) == 0 && src.s == "in"+r {
				a.set(s, dst.s, func(types.Type) int { return cpCopied })
			} else if isOut && len(dst.idx) == 0 {
				a.set(s, dst.s, func(types.Type) int { return cpUnset })
			}
			return
		}
		if fn := cc.StaticCallee(); fn != nil && fn.Blocks != nil {
			for _, arg := range cc.Args {
				if p, ok := a.at(arg); ok {
					if _, isOut := outRest(p.s); isOut && len(p.idx) == 0 {
						if _, isPtr := arg.Type().Underlying().(*types.Pointer); isPtr {
							a.set(s, p.s, func(types.Type) int { return cpUnset })
						}
					}
				}
			}
		}
	}
}

// literal: a struct literal assigned as a whole, judged field by field.
func (a *copyFn) literal(s *cpState, al *ssa.Alloc, dst, rest string) bool {
	st, ok := derefType(al.Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	got := map[string]ssa.Value{}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u := range *fa.Referrers() {
			if w, ok := u.(*ssa.Store); ok && w.Addr == ssa.Value(fa) {
				got[st.Field(fa.Field).Name()] = w.Val
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		rank := cpUnset
		if v := got[n]; v != nil {
			if src, ok := a.at(v); ok && src.s == "in"+rest+"."+n {
				rank = cpCopied
				if holdsRefs(v.Type()) && !s.null[src.s] {
					rank = cpShared
				}
			} else if src, ok := a.copied(v); ok && src.s == "in"+rest+"."+n {
				rank = cpCopied
			}
		}
		a.set(s, dst+"."+n, func(types.Type) int { return rank })
	}
	return true
}

// edge: what taking successor i of b says about the original.
func (a *copyFn) edge(s *cpState, b *ssa.BasicBlock, i int) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	op := cond.Op
	if i == 1 {
		op = negated(op)
	}
	x, y := cond.X, cond.Y
	if _, isK := x.(*ssa.Const); isK {
		x, y = y, x
		op = swapped(op)
	}
	k, isK := y.(*ssa.Const)
	if !isK {
		return
	}
	null := ""
	if k.Value == nil && op == token.EQL {
		if p, ok := a.at(x); ok && len(p.idx) == 0 {
			null = p.s
		} else if p, ok := a.copyCall(x); ok {
			null = p
		}
	}
	if n, isLen := a.lenOf(x); isLen && k.Value != nil {
		if v, ok := constant.Int64Val(constant.ToInt(k.Value)); ok && (v == 0 && (op == token.EQL || op == token.LEQ) || v == 1 && op == token.LSS) {
			null = n
		}
	}
	r, isIn := inRest(null)
	if !isIn {
		return
	}
	s.null[null] = true
	for l := range a.leafT {
		if underPath("out"+r, l) && s.leaf[l] == cpShared {
			s.leaf[l] = cpCopied
		}
	}
}
