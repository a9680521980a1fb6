package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallRec describes one call that is not looked into.
type CallRec struct {
	Name   string
	Recv   *Term // receiver of a method call, nil otherwise
	Args   []*Term
	Instr  ssa.CallInstruction
	Fn     *ssa.Function // enclosing function
	Result *Term
	Opened bool // followed into its body; recorded for information only
}

// LoopRec describes a loop whose normal exit (its condition turned false) was taken.
type LoopRec struct {
	Header *ssa.BasicBlock
	Ctx    string
	Phi    *ssa.Phi // Over is a slice: the element of an iteration is Over[Phi+Pre]
	Pre    int64
	Over   *Term // collection ranged over completely, from the first to the last element; nil if not of that shape
	Elem   func(*Term) bool
	Phis   map[*ssa.Phi]*Term // loop-carried values at the exit
}

// event is one entry of the (persistent) list of things that certainly happened.
type event struct {
	prev *event
	n    int
	call *CallRec
	loop *LoopRec
	note string
	arg  *Term
	val  *Term
	key  string
}

// St is one abstract state: what is known about memory, branch conditions and past calls.
type St struct {
	heap   map[*Term]*Term
	base   map[*Term]*Term
	epoch  map[*Term]int
	facts  map[*Term]bool
	ev     *event
	writes map[*Term]bool // addresses written (loop-effect collection)
}

func newSt() *St {
	return &St{heap: map[*Term]*Term{}, base: map[*Term]*Term{}, epoch: map[*Term]int{}, facts: map[*Term]bool{}, writes: map[*Term]bool{}}
}

func (s *St) clone() *St {
	n := &St{heap: make(map[*Term]*Term, len(s.heap)+4), base: make(map[*Term]*Term, len(s.base)+2), epoch: make(map[*Term]int, len(s.epoch)), facts: make(map[*Term]bool, len(s.facts)+2), ev: s.ev, writes: make(map[*Term]bool, len(s.writes)+2)}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.base {
		n.base[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k := range s.writes {
		n.writes[k] = true
	}
	return n
}

func (s *St) push(e *event) {
	e.prev = s.ev
	if s.ev != nil {
		e.n = s.ev.n + 1
	} else {
		e.n = 1
	}
	s.ev = e
}

// events lists what happened, oldest first.
func (s *St) events() []*event {
	if s.ev == nil {
		return nil
	}
	out := make([]*event, s.ev.n)
	for e := s.ev; e != nil; e = e.prev {
		out[e.n-1] = e
	}
	return out
}

// calls lists the recorded calls whose resolved name satisfies f.
func (s *St) calls(f func(string) bool) []*CallRec {
	var out []*CallRec
	for _, e := range s.events() {
		if e.call != nil && f(e.call.Name) {
			out = append(out, e.call)
		}
	}
	return out
}

// ---- memory ----

func addrRoot(a *Term) *Term {
	for a.kind == KFieldAddr || a.kind == KIndexAddr || a.kind == KMapAddr {
		a = a.args[0]
	}
	if a.kind == KSliceOf {
		return addrRoot(a.args[0])
	}
	return a
}

func under(a, root *Term) bool {
	for {
		if a == root {
			return true
		}
		if a.kind == KFieldAddr || a.kind == KIndexAddr || a.kind == KMapAddr || a.kind == KSliceOf {
			a = a.args[0]
			continue
		}
		return false
	}
}

func pointee(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// lookup reads the content of addr ignoring cells strictly below it.
func (s *St) lookup(a *Term) *Term {
	if v, ok := s.heap[a]; ok {
		return v
	}
	switch a.kind {
	case KFieldAddr:
		i, _ := strconv.Atoi(a.op)
		b := s.lookup(a.args[0])
		if b.typ == nil {
			if pt := pointee(a.args[0]); pt != nil {
				b = withType(b, pt)
			}
		}
		return mkField(b, i)
	case KIndexAddr:
		x := a.args[0]
		if x.kind == KSliceOf {
			return s.lookup(mkIndexAddr(x.args[0], a.args[1], x.args[0].typ))
		}
		if x.typ != nil {
			if _, isPtr := x.typ.Underlying().(*types.Pointer); isPtr || x.kind == KAlloc {
				// possible aliasing with symbolic indices
				var al *Term
				for c := range s.heap {
					if c.kind == KIndexAddr && c.args[0] == x && c != a && !s.distinct(c.args[1], a.args[1]) && (al == nil || c.id < al.id) {
						al = c
					}
				}
				if l := s.wholeList(x); al != nil && l != nil {
					return mkIndex(l, a.args[1])
				}
				if al != nil {
					return intern(KOpaque, "alias", elemType(x.typ), a, s.heap[al])
				}
				return mkIndex(s.lookup(x), a.args[1])
			}
		}
		return mkIndex(x, a.args[1])
	case KAlloc:
		if b, ok := s.base[a]; ok {
			return b
		}
		if pt := pointee(a); pt != nil {
			return mkZero(pt)
		}
	case KSliceOf:
		return s.lookup(a.args[0])
	}
	return internX(KDeref, "", pointee(a), nil, a)
}

// wholeList: the elements of a slice all of whose cells are known.
func (s *St) wholeList(x *Term) *Term {
	if x.kind != KAlloc {
		return nil
	}
	l, ok := s.heap[internX(KFieldAddr, "len", nil, nil, x)]
	if !ok {
		return nil
	}
	n, ok := intOf(l)
	if !ok || n <= 0 || n > 64 {
		return nil
	}
	es := make([]*Term, n)
	for c, v := range s.heap {
		if c.kind == KIndexAddr && c.args[0] == x {
			i, ok := intOf(c.args[1])
			if !ok || i < 0 || i >= n {
				return nil
			}
			es[i] = v
		} else if c != x && under(c, x) && c.op != "len" {
			return nil // part of an element
		}
	}
	for _, e := range es {
		if e == nil {
			return nil
		}
	}
	return internX(KList, "", x.typ, nil, es...)
}

func withType(t *Term, typ types.Type) *Term {
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

// load reads the content of addr, composing aggregates from their cells.
func (s *St) load(a *Term) *Term {
	hasBelow := false
	for c := range s.heap {
		if c != a && under(c, a) && c.kind != KMapAddr {
			hasBelow = true
			break
		}
	}
	if !hasBelow {
		return s.lookup(a)
	}
	pt := pointee(a)
	if pt == nil {
		return s.lookup(a)
	}
	switch u := pt.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = s.load(mkFieldAddr(a, i, pt))
		}
		return intern(KStruct, "", pt, fs...)
	case *types.Array:
		if u.Len() <= 64 {
			fs := make([]*Term, u.Len())
			for i := range fs {
				fs[i] = s.load(mkIndexAddr(a, mkInt(int64(i)), pt))
			}
			return internX(KList, typeName(pt), pt, nil, fs...)
		}
	}
	return s.lookup(a)
}

func (s *St) store(a, v *Term) {
	for c := range s.heap {
		if c != a && under(c, a) {
			delete(s.heap, c)
		}
	}
	if a.kind == KIndexAddr && a.args[0].kind == KSliceOf {
		a = mkIndexAddr(a.args[0].args[0], a.args[1], a.args[0].args[0].typ)
	}
	s.heap[a] = v
	s.writes[a] = true
	// a store through one index may change the element another index names
	for b := a; b.kind == KFieldAddr || b.kind == KIndexAddr; b = b.args[0] {
		if b.kind != KIndexAddr {
			continue
		}
		for c, old := range s.heap {
			for d := c; d.kind == KFieldAddr || d.kind == KIndexAddr; d = d.args[0] {
				if d.kind == KIndexAddr && d != b && d.args[0] == b.args[0] && !s.distinct(d.args[1], b.args[1]) {
					t := intern(KOpaque, "alias", old.typ, c, old, v)
					if t.typ == nil {
						t.typ = pointee(c)
					}
					s.heap[c] = t
					break
				}
			}
		}
	}
}

// distinct: two indices certainly differ.
func (s *St) distinct(a, b *Term) bool {
	if v, ok := staticEq(a, b); ok {
		return !v
	}
	la, ha, _ := s.intRange(a)
	lb, hb, _ := s.intRange(b)
	if (ha != nil && lb != nil && *ha < *lb) || (hb != nil && la != nil && *hb < *la) {
		return true
	}
	return s.refuted(mkEq(a, b))
}

// havoc forgets the content of the object rooted at root.
func (s *St) havoc(root, by *Term) {
	size := internX(KFieldAddr, "len", nil, nil, root) // a made slice keeps its length
	for c := range s.heap {
		if c != size && (c == root || under(c, root)) {
			delete(s.heap, c)
		}
	}
	if root.kind == KAlloc {
		s.base[root] = by
	} else {
		s.heap[root] = by
	}
	s.epoch[root]++
	s.writes[root] = true
}

// elems resolves a slice/array value whose elements are all known.
func (s *St) elems(t *Term) ([]*Term, bool) {
	t = unbox(t)
	switch t.kind {
	case KNil:
		return nil, true
	case KList:
		return t.args, true
	case KAlloc: // make([]T, n) with constant n
		if !isSlice(t.typ) {
			return nil, false
		}
		if b, ok := s.base[t]; !ok || b.kind != KZero {
			return nil, false
		}
		l, ok := s.heap[internX(KFieldAddr, "len", nil, nil, t)]
		if !ok {
			return nil, false
		}
		n, ok := intOf(l)
		if !ok || n < 0 || n > 64 {
			return nil, false
		}
		out := make([]*Term, n)
		for i := range out {
			out[i] = mkZero(elemType(t.typ))
		}
		for c, v := range s.heap {
			if c.kind == KFieldAddr && c.op == "len" && c.args[0] == t || !under(c, t) {
				continue
			}
			if c.kind != KIndexAddr || c.args[0] != t {
				return nil, false
			}
			i, ok := intOf(c.args[1])
			if !ok || i < 0 || i >= n {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case KSlice: // make([]T, 0, n) with constant n
		if t.op == "010" && t.args[0].kind == KAlloc && t.args[1] == mkInt(0) {
			return nil, true
		}
	case KSliceOf:
		n, ok := arrayLen(t.args[0].typ)
		if !ok || n > 64 {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			out = append(out, s.load(mkIndexAddr(t.args[0], mkInt(i), t.args[0].typ)))
		}
		return out, true
	}
	return nil, false
}

// reach lists heap values reachable from the given terms through memory allocated in the analysis.
func (s *St) reach(ts ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var roots []*Term
	outside := map[*Term]bool{} // objects from outside the analysis it has written to
	for c := range s.heap {
		if r := addrRoot(c); r.kind != KAlloc && r != c {
			outside[r] = true
		}
	}
	var addTerm func(t *Term)
	addTerm = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KAlloc || outside[t] {
			roots = append(roots, t)
		}
		for _, a := range t.args {
			addTerm(a)
		}
	}
	for _, t := range ts {
		addTerm(t)
	}
	cells := make([]*Term, 0, len(s.heap))
	for c := range s.heap {
		cells = append(cells, c)
	}
	sortTerms(cells)
	inOut := map[*Term]bool{}
	for i := 0; i < len(roots); i++ {
		r := roots[i]
		if b, ok := s.base[r]; ok && !inOut[b] {
			inOut[b] = true
			out = append(out, b)
			addTerm(b)
		}
		for _, c := range cells {
			if addrRoot(c) == r {
				v := s.heap[c]
				if c.kind == KMapAddr {
					if k := c.args[1]; !inOut[k] {
						inOut[k] = true
						out = append(out, k)
						addTerm(k)
					}
				}
				if !inOut[v] {
					inOut[v] = true
					out = append(out, v)
				}
				addTerm(v)
			}
		}
	}
	return out
}

// ---- branch facts ----

func litOf(t *Term) (*Term, bool) {
	pos := true
	for t.kind == KUn && t.op == "!" {
		t = t.args[0]
		pos = !pos
	}
	// a result that is nil exactly when the error beside it is not
	if t.kind == KBin && t.op == "==" {
		for i := 0; i < 2; i++ {
			x := t.args[i]
			if t.args[1-i].kind != KNil || x.kind != KExtract || x.op != "0" || x.args[0].kind != KCall || !valueOrError(x.args[0].callee) {
				continue
			}
			if tt, ok := x.args[0].typ.(*types.Tuple); ok && tt.Len() == 2 {
				return mkEq(mkExtract(x.args[0], 1, tt.At(1).Type()), mkNil(nil)), !pos
			}
		}
	}
	return t, pos
}

var valueOrError = names("(*net/http.Request).Cookie")

// constOf finds a constant (or nil) the facts pin t to.
func (s *St) constOf(t *Term) *Term {
	if t.kind == KConst || t.kind == KNil {
		return t
	}
	for f, v := range s.facts {
		if v && f.kind == KBin && f.op == "==" && f.args[0] == t && (f.args[1].kind == KConst || f.args[1].kind == KNil) {
			return f.args[1]
		}
	}
	if v, ok := s.facts[t]; ok {
		return mkBool(v)
	}
	if lo, hi, ex := s.intRange(t); lo != nil && hi != nil && *lo == *hi && !ex[*lo] {
		return mkInt(*lo)
	}
	return nil
}

func (s *St) intRange(t *Term) (lo, hi *int64, excl map[int64]bool) {
	excl = map[int64]bool{}
	setLo := func(n int64) {
		if lo == nil || n > *lo {
			lo = &n
		}
	}
	setHi := func(n int64) {
		if hi == nil || n < *hi {
			hi = &n
		}
	}
	if n, ok := intOf(t); ok {
		setLo(n)
		setHi(n)
		return
	}
	if t.kind == KPure && t.op == "len" {
		setLo(0)
		x := t.args[0]
		if x.kind == KPure && (x.op == "strings.Split" || x.op == "strings.SplitN") {
			if sep, ok := strOf(x.args[1]); ok && sep != "" {
				if x.op == "strings.Split" {
					setLo(1)
				} else if n, ok := intOf(x.args[2]); ok && n > 0 {
					setLo(1)
					setHi(n)
				}
			}
		}
	}
	if t.kind == KBin && t.op == "+" {
		if c, ok := intOf(t.args[1]); ok {
			l, h, ex := s.intRange(t.args[0])
			if l != nil {
				setLo(*l + c)
			}
			if h != nil {
				setHi(*h + c)
			}
			for e := range ex {
				excl[e+c] = true
			}
		}
	}
	if t.kind == KBin && t.op == "/" {
		if c, ok := intOf(t.args[1]); ok && c > 0 {
			l, h, _ := s.intRange(t.args[0])
			if l != nil {
				setLo(*l / c)
			}
			if h != nil {
				setHi(*h / c)
			}
		}
	}
	for f, v := range s.facts {
		if f.kind != KBin {
			continue
		}
		// x/c compared with a positive constant
		if q := f.args[0]; q.kind == KBin && q.op == "/" && q.args[0] == t && (f.op == "==" || f.op == "<") {
			c, ok1 := intOf(q.args[1])
			k, ok2 := intOf(f.args[1])
			if ok1 && ok2 && c > 0 && k > 0 {
				switch {
				case f.op == "==" && v:
					setLo(k * c)
					setHi(k*c + c - 1)
				case f.op == "<" && v:
					setHi(k*c - 1)
				case f.op == "<":
					setLo(k * c)
				}
			}
		}
		switch f.op {
		case "==":
			if f.args[0] == t {
				if c, ok := intOf(f.args[1]); ok {
					if v {
						setLo(c)
						setHi(c)
					} else {
						excl[c] = true
					}
				}
			}
		case "<":
			if f.args[0] == t {
				if c, ok := intOf(f.args[1]); ok {
					if v {
						setHi(c - 1)
					} else {
						setLo(c)
					}
				}
			} else if f.args[1] == t {
				if c, ok := intOf(f.args[0]); ok {
					if v {
						setLo(c + 1)
					} else {
						setHi(c)
					}
				}
			}
		}
	}
	for lo != nil && excl[*lo] && (hi == nil || *lo <= *hi) {
		n := *lo + 1
		lo = &n
	}
	for hi != nil && excl[*hi] && (lo == nil || *lo <= *hi) {
		n := *hi - 1
		hi = &n
	}
	return
}

// truth evaluates a condition under the known facts.
func (s *St) truth(c *Term) (val, known bool) {
	c, pos := litOf(c)
	if b, ok := boolOf(c); ok {
		return b == pos, true
	}
	if v, ok := s.truth1(c, 3); ok {
		return v == pos, true
	}
	return false, false
}

func (s *St) truth1(c *Term, depth int) (bool, bool) {
	if b, ok := boolOf(c); ok {
		return b, true
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	switch c.kind {
	case KBin:
		switch c.op {
		case "==":
			a, b := c.args[0], c.args[1]
			if v, ok := staticEq(a, b); ok {
				return v, true
			}
			if b.kind == KConst {
				if k := s.constOf(a); k != nil && k.kind == KConst && k.val.Kind() == b.val.Kind() {
					if v, ok := staticEq(k, b); ok {
						return v, true
					}
				}
				if n, ok := intOf(b); ok {
					lo, hi, ex := s.intRange(a)
					if ex[n] || (lo != nil && n < *lo) || (hi != nil && n > *hi) {
						return false, true
					}
					if lo != nil && hi != nil && *lo == *hi && *lo == n {
						return true, true
					}
				}
			}
			if b.kind == KNil {
				// x known equal to something that cannot be nil, or dereferenced
				if a.kind == KAssert {
					if v, ok := s.facts[mkAssertOk(a.args[0], a.typ)]; ok && v {
						if _, isI := a.typ.Underlying().(*types.Interface); isI {
							return false, true
						}
					}
				}
				// len(x) known to be positive
				lo, _, _ := s.intRange(mkLen(a))
				if lo != nil && *lo > 0 {
					return false, true
				}
			}
			if b.kind != KConst && b.kind != KNil {
				ka, kb := s.constOf(a), s.constOf(b)
				if ka != nil && kb != nil {
					if v, ok := staticEq(ka, kb); ok {
						return v, true
					}
				}
			}
		case "<":
			la, ha, _ := s.intRange(c.args[0])
			lb, hb, _ := s.intRange(c.args[1])
			if ha != nil && lb != nil && *ha < *lb {
				return true, true
			}
			if la != nil && hb != nil && *la >= *hb {
				return false, true
			}
		}
	case KAssertOk:
		x := c.args[0]
		if x.kind == KNil {
			return false, true
		}
		if v, ok := s.facts[mkEq(x, mkNil(nil))]; ok && v {
			return false, true
		}
		if !types.IsInterface(c.typ) {
			for f, v := range s.facts {
				if v && f.kind == KAssertOk && f.args[0] == x && f != c && !types.IsInterface(f.typ) && !types.Identical(f.typ, c.typ) {
					return false, true
				}
			}
		}
	case KPure:
		if (c.op == "strings.HasSuffix" || c.op == "strings.HasPrefix") && len(c.args) == 2 {
			if want, ok := strOf(c.args[1]); ok {
				if x := c.args[0]; x.kind == KBin && x.op == "cat" && depth > 0 {
					// the part at that end decides when it has the whole affix
					end := x.args[len(x.args)-1]
					if c.op == "strings.HasPrefix" {
						end = x.args[0]
					}
					if have, ok := strOf(end); ok && len(have) >= len(want) {
						if c.op == "strings.HasPrefix" {
							return strings.HasPrefix(have, want), true
						}
						return strings.HasSuffix(have, want), true
					}
					if v, ok := s.truth1(mkPure(c.op, c.typ, end, c.args[1]), depth-1); ok && v {
						return true, true
					}
				}
				for f, v := range s.facts {
					if f.kind == KPure && f.op == c.op && f.args[0] == c.args[0] {
						have, ok := strOf(f.args[1])
						if !ok {
							continue
						}
						has := strings.HasSuffix
						if c.op == "strings.HasPrefix" {
							has = strings.HasPrefix
						}
						if v && has(have, want) {
							return true, true
						}
						if v && !has(have, want) && !has(want, have) {
							return false, true
						}
						if !v && has(want, have) {
							return false, true
						}
					}
				}
			}
		}
	}
	// rewrite with known constants
	if depth > 0 && (c.kind == KBin || c.kind == KPure) {
		changed := false
		na := make([]*Term, len(c.args))
		for i, a := range c.args {
			na[i] = a
			if a.kind == KConst || a.kind == KNil {
				continue
			}
			if k := s.constOf(a); k != nil && k.kind == KConst {
				na[i] = k
				changed = true
			}
		}
		if changed {
			var n *Term
			if c.kind == KBin && c.op == "==" {
				n = mkEq(na[0], na[1])
			} else if c.kind == KBin && c.op == "<" {
				n = mkLess(na[0], na[1])
			} else if c.kind == KPure && c.op != "len" {
				n = mkPure(c.op, c.typ, na...)
			}
			if n != nil && n != c {
				n, pos := litOf(n)
				if v, ok := s.truth1(n, depth-1); ok {
					return v == pos, true
				}
			}
		}
	}
	return false, false
}

// operands: what a condition compares, including the operands of divisions.
func operands(t *Term) []*Term {
	out := t.args
	for _, a := range t.args {
		if a.kind == KBin && a.op == "/" {
			out = append(append([]*Term(nil), out...), a.args...)
		}
	}
	return out
}

// assume records that cond has value v; it reports false when that contradicts what is known.
func (s *St) assume(c *Term, v bool) bool {
	c, pos := litOf(c)
	v = v == pos
	if k, ok := s.truth1(c, 3); ok {
		return k == v
	}
	s.facts[c] = v
	// re-check literals about the same terms
	for f, fv := range s.facts {
		if f == c || (f.kind != KBin && f.kind != KPure) {
			continue
		}
		share := false
		for _, a := range operands(f) {
			for _, b := range operands(c) {
				if a == b && a.kind != KConst && a.kind != KNil {
					share = true
				}
			}
		}
		if !share {
			continue
		}
		delete(s.facts, f)
		k, ok := s.truth1(f, 2)
		s.facts[f] = fv
		if ok && k != fv {
			return false
		}
	}
	return true
}

func (s *St) holds(c *Term) bool   { v, ok := s.truth(c); return ok && v }
func (s *St) refuted(c *Term) bool { v, ok := s.truth(c); return ok && !v }

func (s *St) isNil(t *Term) bool    { return s.holds(mkEq(t, mkNil(nil))) }
func (s *St) isNonNil(t *Term) bool { return s.refuted(mkEq(t, mkNil(nil))) }

func mkAssertOk(x *Term, typ types.Type) *Term {
	if x.kind == KIface {
		if types.IsInterface(typ) {
			if it, ok := typ.Underlying().(*types.Interface); ok && x.typ != nil {
				return mkBool(types.Implements(x.typ, it))
			}
		} else if x.typ != nil {
			return mkBool(types.Identical(x.typ, typ))
		}
	}
	if x.kind == KNil {
		return mkBool(false)
	}
	return intern(KAssertOk, "", typ, x)
}

// ---- pure library functions ----

func mkPure(op string, typ types.Type, args ...*Term) *Term {
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return strOf(args[i])
	}
	s0, ok0 := str(0)
	s1, ok1 := str(1)
	if ok0 && ok1 && len(args) == 2 {
		switch op {
		case "strings.HasSuffix":
			return mkBool(strings.HasSuffix(s0, s1))
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(s0, s1))
		case "strings.Contains":
			return mkBool(strings.Contains(s0, s1))
		case "strings.EqualFold":
			return mkBool(strings.EqualFold(s0, s1))
		case "strings.TrimRight":
			return mkStr(strings.TrimRight(s0, s1))
		case "strings.TrimLeft":
			return mkStr(strings.TrimLeft(s0, s1))
		case "strings.TrimSuffix":
			return mkStr(strings.TrimSuffix(s0, s1))
		case "strings.TrimPrefix":
			return mkStr(strings.TrimPrefix(s0, s1))
		case "strings.Trim":
			return mkStr(strings.Trim(s0, s1))
		}
	}
	if ok0 && len(args) == 1 {
		switch op {
		case "strings.ToUpper":
			return mkStr(strings.ToUpper(s0))
		case "strings.ToLower":
			return mkStr(strings.ToLower(s0))
		case "strings.TrimSpace":
			return mkStr(strings.TrimSpace(s0))
		}
	}
	switch op {
	case "strings.Join":
		if len(args) == 2 && args[0].kind == KList {
			if len(args[0].args) == 0 {
				return mkStr("")
			}
			r := args[0].args[0]
			for _, a := range args[0].args[1:] {
				r = mkBin(tokenADD, mkBin(tokenADD, r, args[1], types.Typ[types.String]), a, types.Typ[types.String])
			}
			return r
		}
	case "fmt.Sprintf":
		if f, ok := strOf(args[0]); ok && len(args) == 2 && args[1].kind == KList {
			if t := sprintfTerm(f, args[1].args); t != nil {
				return t
			}
		}
	case "strings.SplitN":
		if n, ok := intOf(args[2]); ok && n < 0 {
			return mkPure("strings.Split", typ, args[0], args[1])
		}
	}
	return intern(KPure, op, typ, args...)
}

// sprintfTerm turns a format with only %s/%v of strings into a concatenation.
func sprintfTerm(f string, args []*Term) *Term {
	r := mkStr("")
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			lit += "%"
		case 's', 'v':
			if k >= len(args) {
				return nil
			}
			a := unbox(args[k])
			if !isStringTyped(a) {
				return nil
			}
			k++
			r = mkBin(tokenADD, mkBin(tokenADD, r, mkStr(lit), types.Typ[types.String]), a, types.Typ[types.String])
			lit = ""
		default:
			return nil
		}
	}
	if k != len(args) {
		return nil
	}
	return mkBin(tokenADD, r, mkStr(lit), types.Typ[types.String])
}

// ---- canonical keys for merging ----

func (s *St) memKey(b *strings.Builder) {
	ks := make([]*Term, 0, len(s.heap))
	for k := range s.heap {
		ks = append(ks, k)
	}
	sortTerms(ks)
	for _, k := range ks {
		b.WriteString(strconv.Itoa(k.id))
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(s.heap[k].id))
		b.WriteByte(';')
	}
	b.WriteByte('/')
	ks = ks[:0]
	for k := range s.base {
		ks = append(ks, k)
	}
	sortTerms(ks)
	for _, k := range ks {
		b.WriteString(strconv.Itoa(k.id))
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(s.base[k].id))
		b.WriteByte(';')
	}
	b.WriteByte('/')
	for e := s.ev; e != nil; e = e.prev {
		b.WriteString(e.key)
		b.WriteByte(';')
	}
}

func sortedFacts(m map[*Term]bool) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (s *St) describeFacts() string {
	var out []string
	for _, f := range sortedFacts(s.facts) {
		if s.facts[f] {
			out = append(out, f.String())
		} else {
			out = append(out, "not "+f.String())
		}
	}
	return strings.Join(out, "; ")
}

var _ = constant.Bool
