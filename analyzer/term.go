package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind classifies value numbers.
type Kind uint8

const (
	KConst Kind = iota
	KNil
	KZero   // zero value of an aggregate type
	KParam  // parameter (or free variable) of the analysed root
	KGlobal // address of a package-level variable
	KAlloc  // address of an object allocated in this analysis
	KFieldAddr
	KIndexAddr
	KMapAddr
	KField // field of a struct value
	KIndex // element of an array/slice/string value
	KDeref // content of memory outside the analysis
	KBin
	KUn
	KConv
	KIface // concrete value boxed in an interface
	KAssert
	KAssertOk
	KLookup
	KLookupOk
	KSliceOf // slice of a whole locally allocated array
	KSlice   // general slicing
	KList    // slice/array value with known elements
	KStruct  // struct value with known fields
	KTuple
	KExtract
	KFunc
	KClosure
	KCall  // result of a call that is not looked into
	KOut   // content written by such a call through a pointer
	KPure  // result of a known side-effect free library function
	KLoop  // loop-carried value
	KHavoc // content of memory modified by a loop
	KRangeK
	KRangeV
	KOpaque
)

// Term is a hash-consed value number.
type Term struct {
	id     int
	kind   Kind
	op     string
	args   []*Term
	typ    types.Type
	val    constant.Value
	fn     *ssa.Function
	instr  ssa.Instruction
	snap   []*Term // for KCall/KPure: heap content reachable from the arguments at the call
	callee string
	key    string
}

var (
	terms   = map[string]*Term{}
	termSeq int
)

func intern(k Kind, op string, typ types.Type, args ...*Term) *Term {
	return internX(k, op, typ, nil, args...)
}

func internX(k Kind, op string, typ types.Type, extra func(*Term), args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(k)))
	b.WriteByte('|')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if typ != nil && (k == KConst || k == KNil || k == KZero || k == KIface || k == KAssert || k == KAssertOk || k == KConv || k == KStruct) {
		b.WriteByte('#')
		b.WriteString(types.TypeString(typ, nil))
	}
	key := b.String()
	if t := terms[key]; t != nil {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, kind: k, op: op, args: args, typ: typ, key: key}
	if extra != nil {
		extra(t)
	}
	terms[key] = t
	return t
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		typ = types.Default(typ)
	}
	return internX(KConst, v.ExactString(), typ, func(t *Term) { t.val = v })
}
func mkBool(b bool) *Term  { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkInt(i int64) *Term  { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkNil(typ types.Type) *Term {
	return intern(KNil, "", typ)
}

func isNilTerm(t *Term) bool { return t.kind == KNil }

func mkZero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), typ)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), typ)
		}
		return mkNil(typ)
	case *types.Struct, *types.Array:
		return intern(KZero, "", typ)
	}
	return mkNil(typ)
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return nil
}

func fieldName(t types.Type, i int) string {
	if t == nil {
		return strconv.Itoa(i)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

func mkField(v *Term, i int) *Term {
	ft := fieldType(v.typ, i)
	switch v.kind {
	case KStruct:
		if i < len(v.args) {
			return v.args[i]
		}
	case KZero:
		if ft != nil {
			return mkZero(ft)
		}
	}
	return internX(KField, fieldName(v.typ, i), ft, nil, v)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

func mkIndex(v, i *Term) *Term {
	if v.kind == KList {
		if n, ok := intOf(i); ok && n >= 0 && int(n) < len(v.args) {
			return v.args[n]
		}
	}
	if v.kind == KPure && v.op == "append" && len(v.args) == 2 && v.args[0].kind == KList {
		if n, ok := intOf(i); ok && n >= 0 && int(n) < len(v.args[0].args) {
			return v.args[0].args[n]
		}
	}
	if v.kind == KZero {
		if e := elemType(v.typ); e != nil {
			return mkZero(e)
		}
	}
	if v.kind == KConst && v.val.Kind() == constant.String {
		if n, ok := intOf(i); ok {
			s := constant.StringVal(v.val)
			if n >= 0 && int(n) < len(s) {
				return mkConst(constant.MakeInt64(int64(s[n])), types.Typ[types.Byte])
			}
		}
	}
	if n, ok := intOf(i); ok {
		i = mkInt(n)
	}
	return intern(KIndex, "", elemType(v.typ), v, i)
}

func mkFieldAddr(p *Term, i int, structPtr types.Type) *Term {
	ft := fieldType(structPtr, i)
	var pt types.Type
	if ft != nil {
		pt = types.NewPointer(ft)
	}
	return internX(KFieldAddr, strconv.Itoa(i), pt, nil, p)
}

func mkIndexAddr(p, i *Term, xt types.Type) *Term {
	if n, ok := intOf(i); ok {
		i = mkInt(n) // whatever integer type it is written in
	}
	et := elemType(xt)
	var pt types.Type
	if et != nil {
		pt = types.NewPointer(et)
	}
	return intern(KIndexAddr, "", pt, p, i)
}

func intOf(t *Term) (int64, bool) {
	if t.kind == KConst && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}

func strOf(t *Term) (string, bool) {
	t = unbox(t)
	if t.kind == KConst && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

func boolOf(t *Term) (bool, bool) {
	if t.kind == KConst && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

// unbox strips interface boxing and value-preserving conversions.
func unbox(t *Term) *Term {
	for t.kind == KIface {
		t = t.args[0]
	}
	return t
}

func mkIface(x *Term, dyn types.Type) *Term {
	if x.kind == KIface {
		return x
	}
	return internX(KIface, "", dyn, nil, x)
}

func mkNot(t *Term) *Term {
	if b, ok := boolOf(t); ok {
		return mkBool(!b)
	}
	if t.kind == KUn && t.op == "!" {
		return t.args[0]
	}
	return intern(KUn, "!", types.Typ[types.Bool], t)
}

func isStringTyped(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mkEq(a, b *Term) *Term {
	if a == b && !isFloat(a) {
		return mkBool(true)
	}
	if v, ok := staticEq(a, b); ok {
		return mkBool(v)
	}
	// a concatenation with constant parts
	for k := 0; k < 2; k++ {
		if v, ok := strOf(b); ok && a.kind == KBin && a.op == "cat" {
			n := 0
			for _, p := range a.args {
				x, _ := strOf(p)
				n += len(x)
			}
			f, ok1 := strOf(a.args[0])
			l, ok2 := strOf(a.args[len(a.args)-1])
			if n > len(v) || ok1 && !strings.HasPrefix(v, f) || ok2 && !strings.HasSuffix(v, l) {
				return mkBool(false)
			}
		}
		a, b = b, a
	}
	// len(s)==0 for strings is s==""
	for k := 0; k < 2; k++ {
		if n, ok := intOf(b); ok && n == 0 && a.kind == KPure && a.op == "len" && isStringTyped(a.args[0]) {
			return mkEq(a.args[0], mkStr(""))
		}
		a, b = b, a
	}
	// comparison of a boolean with a constant
	for k := 0; k < 2; k++ {
		if v, ok := boolOf(b); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	// put a constant second
	if a.kind == KConst || a.kind == KNil {
		a, b = b, a
	}
	// normalise typed/untyped string & int constants so that defined string types compare alike
	if b.kind == KConst {
		switch b.val.Kind() {
		case constant.String:
			b = mkStr(constant.StringVal(b.val))
		case constant.Int:
			if n, ok := constant.Int64Val(b.val); ok {
				b = mkInt(n)
			}
		}
	}
	if b.kind == KNil {
		b = intern(KNil, "", nil)
	}
	return intern(KBin, "==", types.Typ[types.Bool], a, b)
}

func isFloat(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func staticEq(a, b *Term) (bool, bool) {
	if a.kind == KConst && b.kind == KConst && a.val.Kind() == b.val.Kind() {
		return constant.Compare(a.val, token.EQL, b.val), true
	}
	if a.kind == KNil && b.kind == KNil {
		return true, true
	}
	if a.kind == KNil {
		a, b = b, a
	}
	if b.kind == KNil {
		if nonNilTerm(a) {
			return false, true
		}
		return false, false
	}
	if a.kind == KIface && b.kind == KIface {
		if a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
			return false, true
		}
		return staticEq(a.args[0], b.args[0])
	}
	if a.kind == KAlloc && b.kind == KAlloc {
		return a == b, true
	}
	return false, false
}

// nonNilTerm: values that cannot be nil.
func nonNilTerm(t *Term) bool {
	switch t.kind {
	case KAlloc, KGlobal, KFieldAddr, KFunc, KClosure, KIface, KSliceOf:
		return true
	case KList:
		return true
	case KPure:
		switch t.op {
		case "errors.New", "fmt.Errorf":
			return true
		case "append":
			return len(t.args) == 2 && t.args[0].kind == KList && len(t.args[0].args) > 0
		}
	case KCall:
		return nonNilCall[t.callee]
	}
	return false
}

var nonNilCall = map[string]bool{
	"k8s.io/client-go/util/workqueue.NewRateLimitingQueue": true,
	"google.golang.org/grpc.NewServer":                     true,
	"github.com/gorilla/securecookie.New":                  true,
}

func mkLess(a, b *Term) *Term {
	if a.kind == KConst && b.kind == KConst && a.val.Kind() == b.val.Kind() {
		return mkBool(constant.Compare(a.val, token.LSS, b.val))
	}
	// 0 < len(x) is len(x) != 0 ; len(x) < 1 is len(x) == 0
	if n, ok := intOf(a); ok && n == 0 && b.kind == KPure && b.op == "len" {
		return mkNot(mkEq(b, a))
	}
	if n, ok := intOf(b); ok && n == 1 && a.kind == KPure && a.op == "len" {
		return mkEq(a, mkInt(0))
	}
	return intern(KBin, "<", types.Typ[types.Bool], a, b)
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkLess(a, b)
	case token.GTR:
		return mkLess(b, a)
	case token.LEQ:
		return mkNot(mkLess(b, a))
	case token.GEQ:
		return mkNot(mkLess(a, b))
	}
	if a.kind == KConst && b.kind == KConst {
		func() {
			defer func() { recover() }()
			switch op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(b.val); ok {
					a = mkConst(constant.Shift(a.val, op, uint(n)), typ)
					b = nil
				}
			case token.QUO:
				o := op
				if a.val.Kind() == constant.Int {
					o = token.QUO_ASSIGN
				}
				a = mkConst(constant.BinaryOp(a.val, o, b.val), typ)
				b = nil
			default:
				a = mkConst(constant.BinaryOp(a.val, op, b.val), typ)
				b = nil
			}
		}()
		if b == nil {
			return a
		}
	}
	if op == token.ADD && isStringTyped(a) {
		// flatten string concatenation, folding adjacent constants
		var parts []*Term
		add := func(t *Term) {
			if t.kind == KBin && t.op == "cat" {
				parts = append(parts, t.args...)
			} else {
				parts = append(parts, t)
			}
		}
		add(a)
		add(b)
		var out []*Term
		for _, q := range parts {
			s, ok := strOf(q)
			if ok && s == "" {
				continue
			}
			if ok && len(out) > 0 {
				if l, ok2 := strOf(out[len(out)-1]); ok2 {
					out[len(out)-1] = mkStr(l + s)
					continue
				}
			}
			out = append(out, q)
		}
		if len(out) == 0 {
			return mkStr("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return intern(KBin, "cat", typ, out...)
	}
	// (x + c1) + c2
	if op == token.SUB {
		if n, ok := intOf(b); ok {
			op, b = token.ADD, mkConst(constant.MakeInt64(-n), b.typ)
		}
	}
	if op == token.ADD {
		if _, ok := intOf(a); ok {
			a, b = b, a
		}
		if n, ok := intOf(b); ok {
			if n == 0 {
				return a
			}
			if a.kind == KBin && a.op == "+" {
				if m, ok := intOf(a.args[1]); ok {
					return mkBin(token.ADD, a.args[0], mkConst(constant.MakeInt64(n+m), b.typ), typ)
				}
			}
		}
	}
	return intern(KBin, op.String(), typ, a, b)
}

func mkLen(x *Term) *Term {
	switch x.kind {
	case KList:
		return mkInt(int64(len(x.args)))
	case KNil:
		return mkInt(0)
	case KConst:
		if s, ok := strOf(x); ok {
			return mkInt(int64(len(s)))
		}
	case KSliceOf:
		if n, ok := arrayLen(x.args[0].typ); ok {
			return mkInt(n)
		}
	case KSlice:
		if len(x.op) == 3 && x.op[1] == '1' {
			if x.op[0] == '0' {
				return x.args[1]
			}
			lo, ok1 := intOf(x.args[1])
			hi, ok2 := intOf(x.args[2])
			if ok1 && ok2 {
				return mkInt(hi - lo)
			}
		}
	case KZero:
		if n, ok := arrayLen(x.typ); ok {
			return mkInt(n)
		}
	case KPure:
		if x.op == "append" && len(x.args) == 2 && isSlice(x.typ) && x.args[1].typ != nil && isSlice(x.args[1].typ) {
			if n, ok := intOf(mkLen(x.args[0])); ok {
				return mkBin(token.ADD, mkLen(x.args[1]), mkInt(n), types.Typ[types.Int])
			}
		}
	}
	if x.typ != nil {
		if n, ok := arrayLen(x.typ); ok {
			return mkInt(n)
		}
	}
	return intern(KPure, "len", types.Typ[types.Int], x)
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	if t.kind == KTuple {
		return t.args[i]
	}
	return intern(KExtract, strconv.Itoa(i), typ, t)
}

// ---- queries over terms ----

// walk visits t and everything it is computed from, including heap content
// that was reachable by calls it results from. f returning false prunes.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, a := range t.snap {
			rec(a)
		}
	}
	rec(t)
}

func derives(t *Term, pred func(*Term) bool) bool {
	found := false
	walk(t, func(x *Term) bool {
		if found {
			return false
		}
		if pred(x) {
			found = true
		}
		return !found
	})
	return found
}

// mentions reports whether x occurs in t.
func mentions(t, x *Term) bool { return derives(t, func(y *Term) bool { return y == x }) }

// contains walks only syntactic arguments (not call snapshots).
func contains(t *Term, pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if contains(a, pred) {
			return true
		}
	}
	return false
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.kind {
	case KConst:
		return t.val.String()
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + typeName(t.typ) + ")"
	case KParam:
		return t.op
	case KGlobal:
		return "&" + t.op
	case KAlloc:
		return "new#" + strconv.Itoa(t.id)
	case KFieldAddr:
		n := t.op
		if t.args[0].typ != nil {
			i, _ := strconv.Atoi(t.op)
			n = fieldName(t.args[0].typ, i)
		}
		return "&" + t.args[0].str(d-1) + "." + n
	case KIndexAddr:
		return "&" + t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case KField:
		return t.args[0].str(d-1) + "." + t.op
	case KIndex:
		return t.args[0].str(d-1) + "[" + t.args[1].str(d-1) + "]"
	case KDeref:
		return "*" + t.args[0].str(d-1)
	case KBin:
		if t.op == "cat" {
			var s []string
			for _, a := range t.args {
				s = append(s, a.str(d-1))
			}
			return strings.Join(s, "+")
		}
		return "(" + t.args[0].str(d-1) + " " + t.op + " " + t.args[1].str(d-1) + ")"
	case KUn:
		return t.op + t.args[0].str(d-1)
	case KIface:
		return t.args[0].str(d)
	case KCall:
		return t.callee + "(" + as() + ")"
	case KPure:
		return t.op + "(" + as() + ")"
	case KExtract:
		return t.args[0].str(d-1) + "#" + t.op
	case KLoop:
		return "loopvar#" + strconv.Itoa(t.id)
	case KFunc, KClosure:
		return ssaName(t.fn)
	}
	return fmt.Sprintf("k%d[%s](%s)", t.kind, t.op, as())
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
