package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: nothing a request, a provider's answer or a cluster object contains makes the adapter panic.
//
// Every operation that panics for some operands is an obligation on every path that reaches it. Operands are
// judged by where they come from: what the code itself made, what a successful call returned and what every
// constructor of a component sets is there; parts of messages, decoded answers, map entries, unchecked results
// and fields set later must have been checked on the path. What an operation needs of its parameters is asked of
// its callers.

type crash struct {
	c        *Check
	demands  map[*ssa.Function][]*Fault
	has      map[string]bool
	dirty    map[*ssa.Function]bool // to be looked at again
	callers  map[*ssa.Function]map[*ssa.Function]bool
	final    bool
	root     *ssa.Function
	entry    map[*ssa.Function]bool // called by code outside the module: nobody can be asked
	called   map[*ssa.Function]bool
	found    map[*ssa.Function]bool
	work     []*ssa.Function
	loops    map[*Term][]loopVal // loop variable -> what it may become
	pending  []pendingLoop
	ctorMemo map[string]bool
	strict   bool                     // only what the constructing function itself sets counts
	retNil   map[*ssa.Function]string // why the single result may be missing
}

type loopVal struct {
	st *St
	t  *Term
}

type pendingLoop struct {
	v      *Term
	report func(why string)
}

// judge says why the operation may panic, or "". A demand is made of the callers of the root instead when it depends on parameters alone.
func (k *crash) judge(st *St, f *Fault) (why string) {
	switch f.Kind {
	case "nil", "map", "typed-nil":
		return k.nilable(st, f.Ops[0])
	case "assert":
		if st.holds(f.Ops[1]) {
			return ""
		}
		if it, ok := f.Ops[1].typ.Underlying().(*types.Interface); ok && f.Ops[0].typ != nil && types.Implements(f.Ops[0].typ, it) {
			return k.nilable(st, f.Ops[0])
		}
		if k.storedType(st, f.Ops[0], f.Ops[1].typ) {
			return k.nilable(st, f.Ops[0])
		}
		return fmt.Sprintf("the value asserted to be %s is not known to be one", typeName(f.Ops[1].typ))
	case "index":
		x, i := f.Ops[0], f.Ops[1]
		n := st.lenOf(x)
		if st.leq(mkInt(0), i) && st.less(i, n) {
			return ""
		}
		return fmt.Sprintf("index %s is not known to be within %s", i, x)
	case "slice":
		x, lo, hi := f.Ops[0], f.Ops[1], f.Ops[2]
		n := st.lenOf(x)
		if hi == nil {
			hi = n
		} else if !st.leq(hi, n) {
			return fmt.Sprintf("upper bound %s is not known to be within %s", hi, x)
		}
		if lo == nil {
			lo = mkInt(0)
		} else if !st.leq(mkInt(0), lo) {
			return fmt.Sprintf("lower bound %s may be negative", lo)
		}
		if !st.leq(lo, hi) {
			return fmt.Sprintf("lower bound %s is not known to be at most %s", lo, hi)
		}
		return ""
	case "div":
		if st.refuted(mkEq(f.Ops[0], mkInt(0))) || isFloat(f.Ops[0]) {
			return ""
		}
		return fmt.Sprintf("divisor %s may be zero", f.Ops[0])
	case "short", "small":
		if st.leq(f.Ops[1], f.Ops[0]) {
			return ""
		}
		return fmt.Sprintf("%s is not known to be at least %s", f.Ops[0], f.Ops[1])
	case "panic", "exit":
		if randomnessFailed(st) {
			return ""
		}
		return "the adapter is stopped here"
	}
	return ""
}

// randomnessFailed: the operating system's random source failed on this path (neither a request nor an answer causes that).
func randomnessFailed(st *St) bool {
	for f, v := range st.facts {
		if v || f.kind != KBin || f.op != "==" || f.args[1].kind != KNil {
			continue
		}
		t := f.args[0]
		if t.kind == KExtract {
			t = t.args[0]
		}
		n := calleeName(t)
		if strings.HasPrefix(n, "crypto/rand.") {
			return true
		}
		if (n == "io.ReadFull" || n == "io.ReadAtLeast") && len(t.args) > 0 && contains(t.args[0], func(x *Term) bool { return x.kind == KGlobal && strings.Contains(x.op, "crypto/rand") }) {
			return true
		}
	}
	return false
}

// storedType: every value the module puts in the containers the value was read from has the type.
func (k *crash) storedType(st *St, x *Term, typ types.Type) bool {
	if x.kind == KExtract {
		x = x.args[0]
	}
	n := calleeName(x)
	var put func(c *ssa.CallCommon) ssa.Value
	get := func(c *ssa.CallCommon) bool { return false }
	method := func(c *ssa.CallCommon) string {
		if c.IsInvoke() {
			return funcName(c.Method)
		}
		if f := c.StaticCallee(); f != nil {
			if o, ok := f.Object().(*types.Func); ok {
				return funcName(o)
			}
		}
		return ""
	}
	switch {
	case strings.HasPrefix(n, ifcQueue) && strings.HasSuffix(n, ".Get"):
		put = func(c *ssa.CallCommon) ssa.Value {
			m := method(c)
			if !strings.HasPrefix(m, ifcQueue) || !strings.Contains(m, ".Add") || len(c.Args) == 0 {
				return nil
			}
			return c.Args[0]
		}
		get = func(c *ssa.CallCommon) bool {
			m := method(c)
			return strings.HasPrefix(m, ifcQueue) && strings.HasSuffix(m, ".Get")
		}
	case strings.HasPrefix(n, "(*sync.Map)."):
		put = func(c *ssa.CallCommon) ssa.Value {
			switch method(c) {
			case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
				return c.Args[2]
			case "(*sync.Map).CompareAndSwap":
				return c.Args[3]
			}
			return nil
		}
		get = func(c *ssa.CallCommon) bool { return strings.HasPrefix(method(c), "(*sync.Map).Load") }
	default:
		return false
	}
	puts := 0
	for _, fn := range k.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				v := put(call.Common())
				if v == nil {
					continue
				}
				puts++
				if !k.holdsType(v, typ, get, 0) {
					return false
				}
			}
		}
	}
	return puts > 0
}

// holdsType: the value has the type, or was read from such a container itself.
func (k *crash) holdsType(v ssa.Value, typ types.Type, get func(*ssa.CallCommon) bool, depth int) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return types.Identical(v.X.Type(), typ)
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		return ok && get(&c.Call)
	case *ssa.Parameter: // what every caller passes
		if depth > 3 {
			return false
		}
		idx := -1
		for i, p := range v.Parent().Params {
			if p == v {
				idx = i
			}
		}
		n := 0
		for _, fn := range k.c.P.callGraph().callers(v.Parent()) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != v.Parent() {
						continue
					}
					n++
					if !k.holdsType(call.Common().Args[idx], typ, get, depth+1) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// nilable says why t may be nil here, or "".
func (k *crash) nilable(st *St, t *Term) string {
	if t.kind == KIface {
		return ""
	}
	if nonNilTerm(t) || t.kind == KIndexAddr || st.isNonNil(t) {
		return ""
	}
	if t.kind == KNil || t.kind == KZero || st.isNil(t) {
		return "nil on this path"
	}
	switch t.kind {
	case KParam:
		if k.isRecv(t) || k.entry[k.root] {
			return ""
		}
		return "parameter " + t.op + " may be nil"
	case KDeref:
		a := t.args[0]
		if a.kind == KGlobal {
			return ""
		}
		return k.part(st, a, t)
	case KField:
		return k.part(st, t, t)
	case KIndex, KRangeV:
		return k.element(t)
	case KExtract:
		return k.result(st, t)
	case KAssert:
		if st.holds(mkAssertOk(t.args[0], t.typ)) {
			return ""
		}
		return "the type assertion yielding it is not known to have succeeded"
	case KLookup:
		if st.holds(intern(KLookupOk, t.op, nil, t.args...)) && k.filled(t.args[0].typ) {
			return ""
		}
		return "the map entry may be missing"
	case KOut, KHavoc, KOpaque:
		if t.kind == KOut && k.fromDecode(t) {
			return "part of a decoded message"
		}
		return ""
	case KCall, KPure:
		return k.single(st, t)
	}
	return ""
}

func (k *crash) isRecv(t *Term) bool {
	return k.root.Signature.Recv() != nil && t == rootParam(k.root, 0)
}

func (k *crash) fromDecode(t *Term) bool {
	return contains(t, func(x *Term) bool { return x.kind == KOut && len(x.args) > 0 && isJSONDecode(calleeName(x.args[0])) })
}

// part: a field of an object, given by its address or as part of a value.
func (k *crash) part(st *St, a, t *Term) string {
	var owner types.Type
	name := ""
	switch a.kind {
	case KFieldAddr:
		owner = pointee(a.args[0])
		name = a.op
	case KField:
		owner = a.args[0].typ
		name = a.op
	case KIndexAddr:
		return k.element(t)
	default:
		return ""
	}
	n, _ := derefNamed(owner)
	if n == nil {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	idx := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name || (a.kind == KFieldAddr && fmt.Sprint(i) == name) {
			idx = i
		}
	}
	if idx < 0 || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
		return ""
	}
	name = s.Field(idx).Name()
	if k.byKind(st, a, n, s, name) || k.alwaysSet(n, idx) {
		return ""
	}
	return fmt.Sprintf("field %s of %s may be unset", name, typeName(n))
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// byKind: the engine's decision carries the object its type calls for (C14).
func (k *crash) byKind(st *St, a *Term, n *types.Named, s *types.Struct, name string) bool {
	if short(n.Obj().Pkg().Path()) != pkgEngine {
		return false
	}
	kind := int64(-1)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != name {
			continue
		}
		if fn, ok := derefNamed(f.Type()); ok && fn.Obj().Pkg() != nil {
			switch short(fn.Obj().Pkg().Path()) {
			case pkgClient:
				kind = 1
			case pkgKeyset:
				kind = 0
			}
		}
	}
	if kind < 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		fn, ok := s.Field(i).Type().(*types.Named)
		if !ok || fn.Obj().Pkg() == nil || short(fn.Obj().Pkg().Path()) != pkgPolicy {
			continue
		}
		var v *Term
		if a.kind == KFieldAddr {
			v = st.load(mkFieldAddr(a.args[0], i, types.NewPointer(n)))
		} else {
			v = mkField(a.args[0], i)
		}
		if st.holds(mkEq(v, mkConst(mkInt(kind).val, v.typ))) {
			return true
		}
	}
	return false
}

func (k *crash) element(t *Term) string {
	if k.fromDecode(t) && pointerLike(t.typ) {
		return "element of a decoded message"
	}
	return ""
}

// result of a call with several results: needs the error to be nil, or the flag to be set.
func (k *crash) result(st *St, t *Term) string {
	call := t.args[0]
	tt, ok := call.typ.(*types.Tuple)
	if !ok {
		if call.kind == KTuple || call.kind == KRangeK {
			return ""
		}
		return ""
	}
	n := tt.Len()
	last := intern(KExtract, fmt.Sprint(n-1), tt.At(n-1).Type(), call)
	if last == t {
		if types.Identical(tt.At(n-1).Type(), types.Universe.Lookup("error").Type()) {
			return "the error is not known to be non-nil"
		}
		return ""
	}
	if types.Identical(tt.At(n-1).Type(), types.Universe.Lookup("error").Type()) || k.isOwnError(tt.At(n-1).Type()) {
		if st.isNil(last) {
			return ""
		}
		return fmt.Sprintf("result of %s used although it may have failed", calleeName(call))
	}
	if b, ok := tt.At(n - 1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		if strings.HasPrefix(calleeName(call), ifcQueue) { // (item, shutdown)
			if st.refuted(last) {
				return ""
			}
		} else if st.holds(last) {
			return ""
		}
		return fmt.Sprintf("result of %s used although it may be absent", calleeName(call))
	}
	if calleeName(call) == "encoding/pem.Decode" {
		return "there may be no PEM block"
	}
	return ""
}

func (k *crash) isOwnError(t types.Type) bool {
	n, _ := derefNamed(t)
	return n != nil && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) && types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// single result of a call that was not looked into.
func (k *crash) single(st *St, t *Term) string {
	n := calleeName(t)
	switch n {
	case "net.ParseIP", "(context.Context).Value", "flag.Lookup", "errors.Unwrap", "(*net/http.Request).BasicAuth":
		return n + " may find nothing"
	}
	for _, m := range k.implementations(n, t) {
		k.watch(m)
		if k.callers[m] == nil {
			k.callers[m] = map[*ssa.Function]bool{}
		}
		k.callers[m][k.root] = true
		if why := k.retNil[m]; why != "" {
			return "result of " + ssaName(m) + ": " + why
		}
	}
	if strings.HasPrefix(n, "(~/") || strings.HasPrefix(n, "~/") || strings.HasPrefix(n, "(*~/") {
		if k.isOwnError(t.typ) || types.Identical(t.typ, types.Universe.Lookup("error").Type()) {
			return "the error is not known to be non-nil"
		}
	}
	return ""
}

// implementations of the callee of an unopened call.
func (k *crash) implementations(n string, t *Term) (out []*ssa.Function) {
	if strings.HasPrefix(n, "(~/") {
		i := strings.LastIndex(n, ").")
		q := n[3:i]
		j := strings.LastIndex(q, ".")
		if i < 0 || j < 0 {
			return nil
		}
		for _, ty := range k.c.P.Impls(q[:j], q[j+1:]) {
			if m := k.c.P.methodOf(ty, n[i+2:]); m != nil && k.c.P.handwritten(m) && len(m.Blocks) > 0 {
				out = append(out, m)
			}
		}
		return
	}
	if c, ok := t.instr.(ssa.CallInstruction); ok {
		if f := c.Common().StaticCallee(); f != nil && k.c.P.handwritten(f) && len(f.Blocks) > 0 && len(f.FreeVars) == 0 && k.opaque(n) {
			out = append(out, f)
		}
	}
	return
}

// watch adds a function to the ones judged on their own.
func (k *crash) watch(m *ssa.Function) {
	if !k.called[m] {
		k.called[m] = true
		k.dirty[m] = true
	}
	if !k.found[m] {
		k.found[m] = true
		k.work = append(k.work, m)
		k.dirty[m] = true
	}
}

// alwaysSet: every construction of the type gives the field a value and nothing takes it away.
func (k *crash) alwaysSet(n *types.Named, idx int) bool {
	key := typeName(n) + fmt.Sprint("#", idx)
	if v, ok := k.ctorMemo[key]; ok {
		return v
	}
	k.ctorMemo[key] = false
	v := k.constructed(n, idx)
	k.ctorMemo[key] = v
	return v
}

func (k *crash) constructed(n *types.Named, idx int) bool {
	if generated(short(n.Obj().Pkg().Path())) {
		return false
	}
	made := 0
	for _, fn := range k.c.P.Fns {
		allocs := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if types.Identical(pointee2(in.Type()), n) {
						allocs = true
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.Field == idx && types.Identical(pointee2(fa.X.Type()), n) {
						if c, ok := in.Val.(*ssa.Const); ok && c.IsNil() {
							return false
						}
					}
				}
			}
		}
		if !allocs {
			continue
		}
		ok, seen := k.setsField(fn, n, idx, 0)
		if !ok {
			return false
		}
		made += seen
	}
	return made > 0
}

func pointee2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// setsField: whenever fn, or else everyone that calls it, returns, the objects it made have the field.
func (k *crash) setsField(fn *ssa.Function, n *types.Named, idx, depth int) (bool, int) {
	good, seen, used := true, 0, false
	r := &Run{P: k.c.P}
	if depth > 0 {
		r.OnFault = func(st *St, f *Fault) {
			if f.Kind == "nil" && (f.Ops[0].kind == KNil || f.Ops[0].kind == KZero) {
				used = true // unfinished
			}
		}
	}
	unset := func(st *St, a *Term) bool {
		v := st.load(mkFieldAddr(a, idx, types.NewPointer(n)))
		return v.kind == KNil || v.kind == KZero || st.isNil(v)
	}
	// what is given to unknown code must be complete before
	r.OnCall = func(st *St, rec *CallRec) {
		for _, a := range append([]*Term{rec.Recv}, rec.Args...) {
			if a = unboxOrNil(a); a != nil && a.kind == KAlloc && a.typ != nil && types.Identical(pointee2(a.typ), n) && unset(st, a) {
				good = false
			}
		}
	}
	outs := r.Root(fn, nil, k.c.P.initialState())
	for _, o := range outs {
		var all []*Term
		kept := false
		for a := range o.st.base {
			if a.kind != KAlloc || a.typ == nil || !types.Identical(pointee2(a.typ), n) {
				continue
			}
			reach := false
			for _, res := range o.res {
				if contains(res, func(x *Term) bool { return x == a }) {
					reach = true
				}
			}
			for _, v := range o.st.heap {
				if contains(v, func(x *Term) bool { return x == a }) {
					reach = true
				}
			}
			if reach && !kept {
				kept = true
				all = nil
			}
			if reach || !kept {
				all = append(all, a)
			}
		}
		for _, a := range all {
			seen++
			if unset(o.st, a) {
				good = false
			}
		}
	}
	if used || depth > 0 && seen == 0 {
		return false, seen
	}
	if good || depth >= 2 || k.strict {
		return good, seen
	}
	callers := k.c.P.callGraph().callers(fn)
	if len(callers) == 0 {
		return false, seen
	}
	for _, c := range callers {
		if ok, _ := k.setsField(c, n, idx, depth+1); !ok {
			return false, seen
		}
	}
	return true, seen
}

func unboxOrNil(t *Term) *Term {
	if t == nil {
		return nil
	}
	return unbox(t)
}

// demandable: the operands depend on the parameters of the root alone.
func (k *crash) demandable(f *Fault) bool {
	if k.entry[k.root] || !k.called[k.root] {
		return false
	}
	any := false
	for _, o := range f.Ops {
		if o == nil {
			continue
		}
		ok := true
		contains(o, func(x *Term) bool {
			switch x.kind {
			case KParam:
				if k.isRecv(x) {
					ok = false
				} else {
					any = true
				}
			case KConst, KDeref, KFieldAddr, KField, KNil, KList, KStruct, KAssertOk:
			case KPure:
				if x.op != "len" {
					ok = false
				}
			case KBin:
				if x.op != "+" {
					ok = false
				}
			default:
				ok = false
			}
			return !ok
		})
		if !ok {
			return false
		}
	}
	return any && (f.Kind == "nil" || f.Kind == "map" || f.Kind == "index" || f.Kind == "assert")
}

func (k *crash) demand(fn *ssa.Function, f *Fault) {
	key := ssaName(fn) + f.Kind
	for _, o := range f.Ops {
		if o != nil {
			key += fmt.Sprint(",", o.id)
		}
	}
	if k.has[key] {
		return
	}
	k.has[key] = true
	k.demands[fn] = append(k.demands[fn], f)
	for c := range k.callers[fn] {
		k.dirty[c] = true
	}
}

// at the caller: the operand in terms of the arguments.
func subst(st *St, t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if v, ok := m[t]; ok {
		return v
	}
	switch t.kind {
	case KConst, KNil, KList, KStruct:
		return t
	case KDeref:
		if a := subst(st, t.args[0], m); a != nil {
			return withType(st.load(a), t.typ)
		}
	case KAssertOk:
		if a := subst(st, t.args[0], m); a != nil {
			return mkAssertOk(a, t.typ)
		}
	case KFieldAddr:
		if a := subst(st, t.args[0], m); a != nil {
			i := 0
			fmt.Sscan(t.op, &i)
			return mkFieldAddr(a, i, t.args[0].typ)
		}
	case KField:
		if a := subst(st, t.args[0], m); a != nil {
			if s, ok := t.args[0].typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == t.op {
						return mkField(withType(a, t.args[0].typ), i)
					}
				}
			}
		}
	case KPure:
		if a := subst(st, t.args[0], m); a != nil && t.op == "len" {
			return st.lenOf(a)
		}
	case KBin:
		a, b := subst(st, t.args[0], m), subst(st, t.args[1], m)
		if a != nil && b != nil {
			return mkBin(tokenADD, a, b, t.typ)
		}
	}
	return nil
}

func (k *crash) onFault(st *St, f *Fault) {
	why := k.judge(st, f)
	at := f.Kind + "@" + ssaName(f.Fn)
	pos := k.c.P.posOf(f.In.Pos())
	if why == "" {
		if len(f.Ops) > 0 && f.Ops[0].kind == KLoop && (f.Kind == "nil" || f.Kind == "map") && !st.isNonNil(f.Ops[0]) {
			if k.final {
				k.pending = append(k.pending, pendingLoop{f.Ops[0], func(why string) {
					k.c.ob("no-"+f.Kind, at, pos, why == "", "%s: %s (%s)", what(f.Kind), why, f.Ops[0])
				}})
			}
			return
		}
		if k.final {
			k.c.ob("no-"+f.Kind, at, pos, true, "")
		}
		return
	}
	if k.demandable(f) {
		k.demand(k.root, f)
		if k.final {
			k.c.ob("no-"+f.Kind, at, pos, true, "")
		}
		return
	}
	if k.final {
		k.c.ob("no-"+f.Kind, at+" "+k.opName(f), pos, false, "%s: %s. On the path: %s", what(f.Kind), why, st.describeFacts())
	}
}

func (k *crash) opName(f *Fault) string { return "" }

func what(kind string) string {
	switch kind {
	case "nil":
		return "dereference of an object that may be missing"
	case "map":
		return "write to a map that may be missing"
	case "assert":
		return "type assertion that may fail"
	case "typed-nil":
		return "an error that holds nothing"
	case "short":
		return "read beyond the end of the bytes"
	case "small":
		return "count below what the library accepts"
	case "index", "slice":
		return "access that may be out of range"
	case "div":
		return "division by zero"
	case "panic":
		return "panic"
	}
	return "exit"
}

func (k *crash) onCall(r *Run) func(st *St, rec *CallRec) {
	return func(st *St, rec *CallRec) {
		if rec.Opened || rec.Instr == nil {
			return
		}
		com := rec.Instr.Common()
		k.library(st, rec)
		var impls []*ssa.Function
		off := 0
		if com.IsInvoke() {
			off = 1
			held, known := k.held(rec.Recv)
			for _, e := range k.c.P.callGraph().out[rec.Fn] {
				if e.site != rec.Instr.(ssa.Instruction) || e.later {
					continue
				}
				if known && e.callee.Signature.Recv() != nil {
					some := false
					for _, t := range held {
						some = some || types.Identical(t, e.callee.Signature.Recv().Type())
					}
					if !some {
						continue
					}
				}
				impls = append(impls, e.callee)
			}
		} else if strings.HasPrefix(rec.Name, "dynamic:") {
			for _, e := range k.c.P.callGraph().out[rec.Fn] {
				if e.site == rec.Instr.(ssa.Instruction) && !e.later && e.callee.Signature.Recv() == nil && len(e.callee.FreeVars) == 0 {
					impls = append(impls, e.callee)
				}
			}
		} else if f := com.StaticCallee(); f != nil && k.c.P.handwritten(f) && len(f.FreeVars) == 0 && k.opaque(ssaName(f)) {
			impls = append(impls, f)
			if f.Signature.Recv() != nil {
				off = 1
			}
		} else {
			// functions handed to the library are called there
			for _, a := range rec.Args {
				cl := unboxConv(a)
				if cl == nil || cl.fn == nil || !k.c.P.handwritten(cl.fn) || len(cl.fn.Blocks) == 0 {
					continue
				}
				var args []*Term
				for i := range cl.fn.Params {
					args = append(args, internX(KOpaque, fmt.Sprintf("handed:%s/%d", ssaName(cl.fn), i), cl.fn.Params[i].Type(), nil))
				}
				r.apply(cl, args, st.clone())
			}
		}
		for _, m := range impls {
			if !k.c.P.handwritten(m) {
				continue
			}
			if k.callers[m] == nil {
				k.callers[m] = map[*ssa.Function]bool{}
			}
			k.callers[m][k.root] = true
			k.watch(m)
			mm := map[*Term]*Term{}
			for i, a := range rec.Args {
				if i+off < len(m.Params) {
					mm[rootParam(m, i+off)] = a
				}
			}
			for _, d := range k.demands[m] {
				g := &Fault{Kind: d.Kind, In: rec.Instr.(ssa.Instruction), Fn: rec.Fn}
				ok := true
				for _, o := range d.Ops {
					v := subst(st, o, mm)
					if o != nil && v == nil {
						ok = false
					}
					g.Ops = append(g.Ops, v)
				}
				if !ok {
					if k.final {
						k.c.ob("asked-of-caller", ssaName(rec.Fn)+" calling "+ssaName(m), k.c.P.posOf(rec.Instr.Pos()), false, "cannot decide what %s needs: %v", ssaName(m), d.Ops)
					}
					continue
				}
				k.onFault(st, g)
			}
		}
	}
}

// filled: the module puts nothing but made objects into maps of this type.
func (k *crash) filled(m types.Type) bool {
	if m == nil {
		return false
	}
	writes := 0
	for _, fn := range k.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type().Underlying(), m.Underlying()) {
					writes++
					if !made(u.Value, 0) {
						return false
					}
				}
			}
		}
	}
	return writes > 0
}

func made(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.MakeInterface:
		return !pointerLike(v.X.Type()) || made(v.X, depth+1)
	case *ssa.ChangeInterface:
		return made(v.X, depth)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !made(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !made(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// held: the types the field of a component can hold, from everything the module stores there.
func (k *crash) held(recv *Term) ([]types.Type, bool) {
	if recv == nil {
		return nil, false
	}
	fa := recv
	if recv.kind == KDeref {
		fa = recv.args[0]
	}
	if fa.kind != KField && fa.kind != KFieldAddr {
		return nil, false
	}
	n, ok := derefNamed(fa.args[0].typ)
	if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) || generated(short(n.Obj().Pkg().Path())) {
		return nil, false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fa.op || fmt.Sprint(i) == fa.op {
			idx = i
		}
	}
	var out []types.Type
	for _, fn := range k.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if f, ok := in.Addr.(*ssa.FieldAddr); ok && f.Field == idx && types.Identical(pointee2(f.X.Type()), n) {
						ts, ok := concrete(in.Val, 0)
						if !ok {
							return nil, false
						}
						out = append(out, ts...)
					} else if types.Identical(in.Val.Type(), n) {
						if c, ok := in.Val.(*ssa.Const); !ok || c.Value != nil {
							if _, ok := in.Val.(*ssa.UnOp); !ok {
								return nil, false // made elsewhere
							}
						}
					}
				case *ssa.FieldAddr:
					if in.Field == idx && types.Identical(pointee2(in.X.Type()), n) {
						for _, ref := range *in.Referrers() {
							switch ref := ref.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if ref.Val == ssa.Value(in) {
									return nil, false
								}
							default:
								return nil, false // its address is handed out
							}
						}
					}
				}
			}
		}
	}
	return out, len(out) > 0
}

// concrete types an interface value can have.
func concrete(v ssa.Value, depth int) ([]types.Type, bool) {
	if depth > 4 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{v.X.Type()}, true
	case *ssa.ChangeInterface:
		return concrete(v.X, depth)
	case *ssa.Const:
		return nil, true
	case *ssa.Phi:
		var out []types.Type
		for _, e := range v.Edges {
			ts, ok := concrete(e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return concreteResult(c, v.Index, depth)
		}
	case *ssa.Call:
		return concreteResult(v, 0, depth)
	}
	return nil, false
}

func concreteResult(c *ssa.Call, i, depth int) ([]types.Type, bool) {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return nil, false
	}
	var out []types.Type
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			ts, ok := concrete(r.Results[i], depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
	}
	return out, true
}

// library: what functions of the library demand of their operands.
func (k *crash) library(st *St, rec *CallRec) {
	com := rec.Instr.Common()
	f := com.StaticCallee()
	if f == nil || k.c.P.handwritten(f) {
		return
	}
	in := rec.Instr.(ssa.Instruction)
	atLeast := func(kind string, x, n *Term) {
		k.onFault(st, &Fault{Kind: kind, Ops: []*Term{x, n}, In: in, Fn: rec.Fn})
	}
	n := rec.Name
	arg := func(i int) *Term {
		if i < len(rec.Args) {
			return rec.Args[i]
		}
		return nil
	}
	switch {
	case strings.HasPrefix(n, "(encoding/binary."):
		for suffix, size := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			if strings.HasSuffix(n, suffix) && !strings.Contains(n, "Append") {
				if x := arg(0); x != nil {
					atLeast("short", st.lenOf(x), mkInt(size))
				}
			}
		}
	case n == "strings.Repeat" || n == "bytes.Repeat":
		atLeast("small", arg(1), mkInt(0))
	case strings.HasPrefix(n, "math/rand.") && (strings.HasSuffix(n, "Intn") || strings.HasSuffix(n, "Int31n") || strings.HasSuffix(n, "Int63n")):
		atLeast("small", arg(0), mkInt(1))
	case n == "regexp.MustCompile" || n == "regexp.MustCompilePOSIX" || n == "text/template.Must" || n == "html/template.Must":
		if x := arg(0); x != nil && x.kind != KConst {
			k.onFault(st, &Fault{Kind: "panic", In: in, Fn: rec.Fn})
		}
	}
	// methods look into the object they are called on
	if ptr := f.Signature.Recv(); ptr != nil && rec.Recv != nil {
		if _, ok := ptr.Type().Underlying().(*types.Pointer); ok && !nilTolerant[n] && !generated(short(fnPkgPath(f))) {
			k.onFault(st, &Fault{Kind: "nil", Ops: []*Term{rec.Recv}, In: in, Fn: rec.Fn})
		}
	}
}

// methods of the library that answer when called on nothing.
var nilTolerant = map[string]bool{
	"(*net/http.Cookie).String":                     true,
	"(*net/url.Userinfo).String":                    true,
	"(*go.uber.org/zap/zapcore.CheckedEntry).Write": true,
}

// returned notes that a single result may be missing.
func (k *crash) returned(fn *ssa.Function, o Outcome) {
	if len(o.res) != 1 || k.retNil[fn] != "" || !pointerLike(fn.Signature.Results().At(0).Type()) {
		return
	}
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
		return
	}
	if fn.Signature.Recv() != nil && o.st.isNil(rootParam(fn, 0)) {
		return // nothing called on nothing
	}
	if why := k.nilable(o.st, o.res[0]); why != "" {
		k.retNil[fn] = why
		for c := range k.callers[fn] {
			k.dirty[c] = true
		}
	}
}

func (k *crash) outcome(fn *ssa.Function, o Outcome) {
	sig := fn.Signature.Results()
	if sig.Len() != 2 {
		return
	}
	last := sig.At(1).Type()
	if !(types.Identical(last, types.Universe.Lookup("error").Type()) || k.isOwnError(last)) {
		return
	}
	switch sig.At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
	default:
		return
	}
	if !o.st.isNil(o.res[1]) {
		return
	}
	why := k.nilable(o.st, o.res[0])
	pos := ""
	if o.ret != nil {
		pos = k.c.P.posOf(o.ret.Pos())
	}
	k.c.ob("result-or-error", ssaName(fn), pos, why == "", "returns no error and a result that may be missing: %s. On the path: %s", why, o.st.describeFacts())
}

func (c *Check) crashFree() {
	k := &crash{c: c, demands: map[*ssa.Function][]*Fault{}, has: map[string]bool{}, dirty: map[*ssa.Function]bool{}, callers: map[*ssa.Function]map[*ssa.Function]bool{}, entry: map[*ssa.Function]bool{}, called: map[*ssa.Function]bool{}, found: map[*ssa.Function]bool{}, ctorMemo: map[string]bool{}, retNil: map[*ssa.Function]string{}}
	for _, fn := range c.crashEntries() {
		k.entry[fn] = true
		k.dirty[fn] = true
		if !k.found[fn] {
			k.found[fn] = true
			k.work = append(k.work, fn)
		}
	}
	if !c.need(len(k.work) > 0, "the request handler") {
		return
	}
	one := func(fn *ssa.Function) {
		k.root = fn
		k.loops = map[*Term][]loopVal{}
		k.pending = nil
		r := &Run{P: c.P, TrackDeref: true, OnFault: k.onFault, Opaque: k.opaque, NoPeel: modular(ssaName(fn))}
		r.OnCall = k.onCall(r)
		edge := func(st *St, b *BackEdge) {
			for ph, v := range b.Out {
				if in := b.In[ph]; in != nil && pointerLike(ph.Type()) {
					k.loops[in] = append(k.loops[in], loopVal{st, v})
				}
			}
		}
		r.OnLoopEntry, r.OnBackEdge = edge, edge
		if !k.final {
			for _, o := range r.Root(fn, nil, c.P.initialState()) {
				k.returned(fn, o)
			}
			return
		}
		for _, o := range c.run(r, fn, nil, nil) {
			k.outcome(fn, o)
		}
		for _, p := range k.pending {
			why := ""
			for _, v := range k.loops[p.v] {
				if v.t == p.v {
					continue
				}
				if w := k.nilable(v.st, v.t); w != "" {
					why = w + " when the loop goes on"
				}
			}
			p.report(why)
		}
	}
	for round := 0; round < 12; round++ {
		some := false
		for i := 0; i < len(k.work); i++ {
			if fn := k.work[i]; k.dirty[fn] {
				k.dirty[fn] = false
				some = true
				one(fn)
			}
		}
		if !some {
			break
		}
	}
	k.final = true
	sort.SliceStable(k.work, func(i, j int) bool { return ssaName(k.work[i]) < ssaName(k.work[j]) })
	for _, fn := range k.work {
		one(fn)
	}
}

// opaque: callees judged on their own.
func (k *crash) opaque(name string) bool {
	return modular(name) || (modular(ssaName(k.root)) && !strings.Contains(name, "$") && !strings.Contains(name, "~/"+fnPkgPath(k.root)[len(modPath)+1:]+".") && (strings.HasPrefix(name, "~/") || strings.HasPrefix(name, "(~/") || strings.HasPrefix(name, "(*~/")))
}

// modular: the functions that process cluster events are judged one by one; what they need of their parameters is asked of their callers.
func modular(name string) bool {
	if strings.Contains(name, "$") {
		return false
	}
	for _, p := range []string{pkgHandler, pkgCrd, pkgCtrl, pkgInit} {
		if strings.Contains(name, "~/"+p+".") {
			return true
		}
	}
	return false
}

func (c *Check) crashEntries() (out []*ssa.Function) {
	if a := c.adapter(); a != nil {
		out = append(out, a.fn)
	}
	g := c.P.callGraph()
	seen := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		for _, e := range g.out[fn] {
			if (e.spawn || e.later) && !seen[e.callee] && len(e.callee.FreeVars) == 0 {
				seen[e.callee] = true
				out = append(out, e.callee)
			}
		}
		if strings.HasSuffix(ssaName(fn), ").Run") {
			out = append(out, fn)
		}
	}
	return
}

func init() {
	checks["C27"] = func(c *Check) { c.crashFree() }
	explain["C27"] = "Every dereference, type assertion, index, slice, map write, division, explicit panic and exit reached from the request handler, from the functions started concurrently or handed to libraries, and from the processing of cluster objects is an obligation on every abstract path that reaches it. Operands are judged by provenance and by the facts of the path (nil tests, error results found nil, assertions found true, linear bounds on lengths and indexes); what an operation needs of parameters is asked of every caller. Functions returning (result, error) must not return a missing result without an error."
}
