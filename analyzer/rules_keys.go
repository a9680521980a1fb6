package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: the sizes of cookie keys, and the keys that cookies are made with.

const (
	pkgCfg      = "adapter/config"
	pkgWebStrat = "adapter/strategy/web"
	codecNew    = "github.com/gorilla/securecookie.New"
	codecType   = "github.com/gorilla/securecookie.SecureCookie"
	genKey      = "github.com/gorilla/securecookie.GenerateRandomKey"
	secretIfc   = "(k8s.io/client-go/kubernetes/typed/core/v1.SecretInterface)."
	secretsOf   = "(k8s.io/client-go/kubernetes/typed/core/v1.SecretsGetter).Secrets"
	fnRetry     = "~/adapter/networking.Retry"

	keySecretName = "appidentityandaccessadapter-cookie-sig-enc-keys"
	keySecretNs   = "istio-system"
	hashKeyName   = "HASH_KEY"
	blockKeyName  = "BLOCK_KEY"
)

func init() {
	checks["C29"] = c29
	explain["C29"] = "The size options are executed abstractly from the configuration's initial state on an arbitrary text: an accepted value must be known to be the parsed number and one of the permitted sizes, a refusal must leave the value; the command line must bind each flag to its own option of the configuration the adapter is built with; every construction of the cookie codec is followed over all paths of the operation that reaches it: both keys must be the entries HASH_KEY and BLOCK_KEY of one secret, read successfully under the documented name or, after that failed, created successfully under that name with keys of the configured sizes."
}

func c29(c *Check) {
	c.sizeOptions()
	c.keyFlags()
	c.retryContract()
	c.cookieCodecs()
	c.atLeast("size-permitted", 5)
	c.atLeast("keys-of-secret", 2)
	c.atLeast("generated-size", 2)
	c.atLeast("flag-bound", 2)
}

var keySizes = []struct {
	field string
	flag  string
	sizes []int64
}{
	{"HashKeySize", "hash-key", []int64{32, 64}},
	{"BlockKeySize", "block-key", []int64{16, 24, 32}},
}

// oneOf: the number t is known to be one of the sizes.
func (s *St) oneOf(t *Term, sizes []int64) bool {
	if k := s.constOf(t); k != nil {
		t = k
	}
	if n, ok := intOf(t); ok {
		for _, x := range sizes {
			if n == x {
				return true
			}
		}
		return false
	}
	lo, hi, excl := s.intRange(t)
	if lo == nil || hi == nil || *hi-*lo > 128 {
		return false
	}
	ok := map[int64]bool{}
	for _, x := range sizes {
		ok[x] = true
	}
	for n := *lo; n <= *hi; n++ {
		if !ok[n] && !excl[n] {
			return false
		}
	}
	return true
}

// parsedFrom: t is the number written in inp, read without error.
func (s *St) parsedFrom(t, inp *Term) bool {
	var seen *Term
	walk(t, func(x *Term) bool {
		if x.kind == KExtract && x.op == "0" && isNumberReader(x.args[0]) {
			seen = x
			return false
		}
		return true
	})
	return seen != nil && s.parsedNumber(seen, inp) && s.sameNumber(t, seen)
}

func isNumberReader(c *Term) bool {
	n := calleeName(c)
	return strings.HasPrefix(n, "strconv.") && n != "strconv.Itoa"
}

func (s *St) parsedNumber(x, inp *Term) bool {
	c := x.args[0]
	switch calleeName(c) {
	case "strconv.Atoi":
	case "strconv.ParseInt", "strconv.ParseUint":
		if b, ok := constInt64(c.args[1]); !ok || b != 10 {
			return false
		}
	default:
		return false
	}
	return unboxConv(c.args[0]) == inp && s.isNil(extract(c, 1))
}

// sameNumber: t is x, seen through conversions that keep every permitted size.
func (s *St) sameNumber(t, x *Term) bool {
	for t.kind == KConv {
		b, ok := t.typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
		if b.Kind() == types.Int8 || b.Kind() == types.Uint8 || b.Kind() == types.Int16 || b.Kind() == types.Uint16 {
			lo, hi, _ := s.intRange(t.args[0])
			if lo == nil || hi == nil || *lo < 0 || *hi > 127 {
				if p := x.args[0]; len(p.args) < 3 || !isNumber(p.args[2], 8) || b.Kind() == types.Int8 && calleeName(p) == "strconv.ParseUint" {
					return false
				}
			}
		}
		t = t.args[0]
	}
	return t == x
}

func isNumber(t *Term, n int64) bool { x, ok := intOf(t); return ok && x == n }

func (c *Check) sizeOptions() {
	newCfg := c.P.Func(pkgCfg, "NewConfig")
	set := c.P.Method(pkgCfg, "IntOptions", "Set")
	if !c.need(newCfg != nil && set != nil && len(set.Params) == 2, "config.NewConfig and (*config.IntOptions).Set") {
		return
	}
	for _, o := range c.run(&Run{}, newCfg, nil, nil) {
		if !c.need(len(o.res) == 1 && o.st.get(o.res[0], "HashKeySize") != nil, "the new configuration") {
			return
		}
		cfg := o.res[0]
		for _, k := range keySizes {
			at := k.field
			pos := c.P.posOf(newCfg.Pos())
			def := o.st.get(cfg, k.field+".Value")
			if !c.need(def != nil, "config.Config."+k.field+".Value") {
				continue
			}
			c.ob("size-permitted", at+" default", pos, o.st.oneOf(def, k.sizes), "the default of %s (%s) is not one of %v", k.field, def, k.sizes)
			recv := fieldAddrOf(cfg, k.field)
			if !c.need(recv != nil, "config.Config."+k.field) {
				continue
			}
			inp := rootParam(set, 1)
			acc := map[int64]bool{}
			for _, q := range c.run(&Run{}, set, map[string]*Term{set.Params[0].Name(): recv}, o.st.clone()) {
				qpos := c.P.posOf(q.ret.Pos())
				now := q.st.get(cfg, k.field+".Value")
				if len(q.res) != 1 {
					continue
				}
				if q.st.isNil(q.res[0]) {
					ok := q.st.oneOf(now, k.sizes)
					c.ob("size-permitted", at+" Set", qpos, ok, "%s accepts a size (%s) that is not known to be one of %v; path: %s", k.field, now, k.sizes, q.st.describeFacts())
					from := q.st.parsedFrom(now, inp)
					if !from {
						// a permitted constant, known to be the parsed number
						if n, isN := q.st.constInt(now); isN {
							from = q.st.parsedIs(inp, n)
						}
					}
					c.ob("size-as-written", at, qpos, from, "%s is set to %s, which is not known to be the number the user wrote; path: %s", k.field, now, q.st.describeFacts())
					if n, isN := q.st.constInt(now); isN {
						acc[n] = true
					} else if from {
						for _, n := range k.sizes {
							r := q.st.clone()
							if r.assume(mkEq(now, mkInt(n)), true) {
								acc[n] = true
							}
						}
					}
					continue
				}
				c.ob("refusal-reported", at, qpos, q.st.isNonNil(q.res[0]), "Set may report success or failure for the same path; path: %s", q.st.describeFacts())
				c.ob("refusal-keeps-size", at, qpos, now == def, "a refused size leaves %s at %s; path: %s", k.field, now, q.st.describeFacts())
			}
			for _, n := range k.sizes {
				c.ob("size-accepted", at, pos, acc[n], "the documented size %d is accepted on no path of Set for %s", n, k.field)
			}
		}
	}
	// nobody else changes the options
	for _, fn := range c.P.Fns {
		if fn == set || fn == newCfg || !c.P.handwritten(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					addr = x.Addr
				case *ssa.MapUpdate:
					addr = x.Map
				default:
					continue
				}
				if !c.writesOption(addr, 6) {
					continue
				}
				inSet := c.calledOnlyFrom(fn, map[*ssa.Function]bool{set: true, newCfg: true}, 4)
				c.ob("size-set-in-one-place", ssaName(fn), c.P.posOf(in.Pos()), inSet, "%s changes a key size option outside NewConfig and Set", ssaName(fn))
			}
		}
	}
}

func (c *Check) calledOnlyFrom(fn *ssa.Function, ok map[*ssa.Function]bool, depth int) bool {
	if ok[fn] {
		return true
	}
	if depth == 0 {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
		if ok[fn] {
			return true
		}
	}
	cs := c.P.callGraph().callers(fn)
	if len(cs) == 0 {
		return fn.Object() != nil && !fn.Object().Exported()
	}
	for _, x := range cs {
		if !c.calledOnlyFrom(x, ok, depth-1) {
			return false
		}
	}
	return true
}

func (c *Check) writesOption(v ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := typeName(derefType(x.X.Type()))
		if t == "~/adapter/config.IntOptions" {
			return true
		}
		if t == "~/adapter/config.Config" && typeName(derefType(x.Type())) == "~/adapter/config.IntOptions" {
			return true
		}
		return c.writesOption(x.X, depth-1)
	case *ssa.UnOp:
		return c.writesOption(x.X, depth-1)
	case *ssa.IndexAddr:
		return c.writesOption(x.X, depth-1)
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok && typeName(p.Elem()) == "~/adapter/config.IntOptions" {
		_, fresh := v.(*ssa.Alloc)
		return !fresh
	}
	return false
}

// parsedIs: the number written in inp is known to be n.
func (s *St) parsedIs(inp *Term, n int64) bool {
	found := false
	for f := range s.facts {
		walk(f, func(x *Term) bool {
			if x.kind == KExtract && x.op == "0" && isNumberReader(x.args[0]) && s.parsedNumber(x, inp) {
				if k, ok := s.constInt(x); ok && k == n {
					found = true
				}
			}
			if x.kind == KConv && contains(x, func(y *Term) bool { return y == inp }) {
				if k, ok := s.constInt(x); ok && k == n && s.parsedFrom(x, inp) {
					found = true
				}
			}
			return true
		})
	}
	return found
}

// fieldAddrOf: the address of a field of the object p points to.
func fieldAddrOf(p *Term, name string) *Term {
	st, ok := derefType(p.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(p, i, p.typ)
		}
	}
	return nil
}

func isFlagVar(n string) bool {
	return n == "(*github.com/spf13/pflag.FlagSet).VarP" || n == "(*github.com/spf13/pflag.FlagSet).Var" || n == "(*github.com/spf13/pflag.FlagSet).VarPF"
}

// keyFlags: each flag sets its own option of the configuration that the adapter gets.
func (c *Check) keyFlags() {
	fn := c.P.Func("cmd", "getCmd")
	na := c.P.Func("adapter", "NewAppIDAdapter")
	if !c.need(fn != nil && na != nil, "cmd.getCmd and adapter.NewAppIDAdapter") {
		return
	}
	bound := map[string]int{}
	r := &Run{P: c.P, Record: isFlagVar}
	r.OnCall = func(st *St, rec *CallRec) {
		if !isFlagVar(rec.Name) || len(rec.Args) < 2 {
			return
		}
		name, _ := strOf(rec.Args[1])
		pos := c.P.posOf(rec.Instr.Pos())
		v := unboxConv(rec.Args[0])
		for _, k := range keySizes {
			fits := v.kind == KFieldAddr && fieldName(v.args[0].typ, mustInt(v.op)) == k.field
			if name == k.flag {
				bound[k.flag]++
				c.ob("flag-bound", k.flag, pos, fits, "the flag --%s sets %s, not %s", k.flag, v, k.field)
			} else if fits {
				c.ob("flag-bound", k.field, pos, false, "%s is set by the flag --%s", k.field, name)
			}
		}
	}
	var runs []*Term
	r.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) {
		if addr.kind == KFieldAddr && typeName(derefType(addr.args[0].typ)) == "github.com/spf13/cobra.Command" && val.fn != nil {
			if n := fieldName(addr.args[0].typ, mustInt(addr.op)); n == "Run" || n == "RunE" {
				runs = append(runs, val)
			}
		}
	}
	outs := c.run(r, fn, nil, nil)
	for _, k := range keySizes {
		c.ob("flag-bound", k.flag+" exists", c.P.posOf(fn.Pos()), bound[k.flag] > 0, "no flag --%s is declared", k.flag)
	}
	// the command hands the same configuration to the adapter
	for _, o := range outs {
		if len(o.res) != 1 {
			continue
		}
		var cfg *Term
		for _, e := range o.st.calls(isFlagVar) {
			if v := unboxConv(e.Args[0]); v.kind == KFieldAddr {
				cfg = v.args[0]
			}
		}
		if !c.need(cfg != nil, "the configuration bound to the command line") {
			return
		}
		n := 0
		for _, op := range runs {
			q := &Run{P: c.P, Opaque: func(n string) bool { return strings.HasPrefix(n, "~/adapter.") }}
			q.OnCall = func(st *St, rec *CallRec) {
				if rec.Name != "~/adapter.NewAppIDAdapter" {
					return
				}
				n++
				pos := c.P.posOf(rec.Instr.Pos())
				c.ob("configuration-used", "command", pos, rec.Args[0] == cfg, "the adapter is built with a configuration other than the command line's: %s", rec.Args[0])
				for _, k := range keySizes {
					v := st.get(rec.Args[0], k.field+".Value")
					d := o.st.get(cfg, k.field+".Value")
					c.ob("configuration-used", "command "+k.field, pos, v == d, "%s is changed to %s before the adapter is built", k.field, v)
				}
			}
			var args []*Term
			for _, p := range op.fn.Params {
				args = append(args, intern(KParam, "cmd "+p.Name(), p.Type()))
			}
			qo, ok := q.apply(op, args, o.st.clone())
			if ok {
				c.account(q, op.fn, len(qo))
			}
		}
		c.ob("configuration-used", "command reaches the adapter", c.P.posOf(fn.Pos()), n > 0, "running the command never builds the adapter")
	}
	// the adapter hands it to the login strategy
	cfg := rootParam(na, 0)
	nr := &Run{P: c.P, Models: map[string]func(*Run, *frame, *St, *CallRec) ([]Outcome, bool){fnRetry: retryModel}}
	n := 0
	nr.Opaque = func(n string) bool { return strings.Contains(n, "policy/initializer") }
	nr.OnStore = func(st *St, addr, val *Term, in ssa.Instruction) {
		if addr.kind != KFieldAddr || typeName(derefType(addr.args[0].typ)) != "~/adapter.AppidAdapter" || fieldName(addr.args[0].typ, mustInt(addr.op)) != "webstrategy" {
			return
		}
		n++
		ctx := st.get(unboxConv(val), "ctx")
		c.ob("configuration-used", "adapter", c.P.posOf(in.Pos()), ctx == cfg, "the login strategy works with a configuration other than the adapter's: %s", ctx)
	}
	c.run(nr, na, nil, nil)
	c.ob("configuration-used", "adapter built", c.P.posOf(na.Pos()), n > 0, "no path builds the adapter with a login strategy")
}

func mustInt(s string) int {
	n := 0
	for _, ch := range s {
		if ch < '0' || ch > '9' {
			return 1 << 20
		}
		n = n*10 + int(ch-'0')
	}
	return n
}

// retryModel: the operation's own successful result, or its failure.
func retryModel(r *Run, f *frame, st *St, rec *CallRec) ([]Outcome, bool) {
	if len(rec.Args) == 0 {
		return nil, false
	}
	outs, ok := r.apply(rec.Args[len(rec.Args)-1], nil, st)
	if !ok {
		return nil, false
	}
	var res []Outcome
	for _, o := range outs {
		if len(o.res) != 2 {
			return nil, false
		}
		e := mkEq(o.res[1], mkNil(nil))
		a := o.st.clone()
		if a.assume(e, true) {
			res = append(res, Outcome{st: a, res: []*Term{o.res[0], mkNil(o.res[1].typ)}, ret: o.ret})
		}
		b := o.st.clone()
		if b.assume(e, false) {
			res = append(res, Outcome{st: b, res: o.res, ret: o.ret})
		}
	}
	return res, true
}

// retryContract: what the model says of Retry holds of its code.
func (c *Check) retryContract() {
	fn := c.P.Func("adapter/networking", "Retry")
	if fn == nil || len(fn.Params) == 0 {
		return
	}
	op := rootParam(fn, len(fn.Params)-1)
	isOp := func(t *Term) bool {
		if t.kind != KCall {
			return false
		}
		if t.callee == fnRetry {
			return t.args[len(t.args)-1] == op
		}
		return t.callee == "dynamic:"+op.String()
	}
	// results: v and err are the two results of one call of the operation
	results := func(v, err *Term) bool {
		return v != nil && err != nil && v.kind == KExtract && v.op == "0" && err.kind == KExtract && err.op == "1" && v.args[0] == err.args[0] && isOp(v.args[0])
	}
	var e edges
	r := &Run{}
	e.attach(r)
	// carried: v and an error known to be nil are carried together through a loop around calls of the operation
	carried := func(st *St, v *Term) bool {
		for key, back := range e.back {
			for pv, t := range back[0].In {
				for pe, te := range back[0].In {
					if t != v || pe == pv || te == nil || !st.isNil(te) {
						continue
					}
					ok := len(e.entry[key]) > 0
					for _, x := range append(append([]*BackEdge(nil), e.entry[key]...), back...) {
						ok = ok && (results(x.Out[pv], x.Out[pe]) || x.St.isNonNil(x.Out[pe]) || x.Out[pv] == x.In[pv] && x.Out[pe] == x.In[pe])
					}
					if ok {
						return true
					}
				}
			}
		}
		return false
	}
	for _, o := range c.run(r, fn, nil, nil) {
		if len(o.res) != 2 {
			continue
		}
		if o.st.isNonNil(o.res[1]) {
			continue
		}
		v := o.res[0]
		ok := v.kind == KExtract && v.op == "0" && isOp(v.args[0]) && o.st.isNil(extract(v.args[0], 1))
		if !ok && o.res[1].kind == KExtract && o.res[1].op == "1" && isOp(o.res[1].args[0]) {
			ok = v.kind == KExtract && v.op == "0" && v.args[0] == o.res[1].args[0]
		}
		ok = ok || v.kind == KLoop && carried(o.st, v)
		c.ob("retry-result", ssaName(fn), c.P.posOf(o.ret.Pos()), ok, "Retry may report success with something other than its operation's successful result: %s, %s; path: %s", o.res[0], o.res[1], o.st.describeFacts())
	}
}

func isSecretOp(n string) bool { return strings.HasPrefix(n, secretIfc) }

// secretEntry: t is the entry named key of the data of a secret.
func secretEntry(t *Term) (secret *Term, key string) {
	t = unboxConv(t)
	if t.kind != KLookup {
		return nil, ""
	}
	k, ok := strOf(t.args[1])
	if !ok {
		return nil, ""
	}
	m := unboxConv(t.args[0])
	switch {
	case m.kind == KField && m.args[0].kind == KDeref:
		d := m.args[0]
		if m.op == "Data" {
			return unboxConv(d.args[0]), k
		}
	case m.kind == KDeref && m.args[0].kind == KFieldAddr:
		a := m.args[0]
		if fieldName(a.args[0].typ, mustInt(a.op)) == "Data" {
			return unboxConv(a.args[0]), k
		}
	}
	return nil, ""
}

// secretAt: the call works on the secrets of the documented namespace.
func secretAt(st *St, rec *CallRec) bool {
	if rec.Recv == nil {
		return false
	}
	r := unboxConv(rec.Recv)
	return r.kind == KCall && r.callee == secretsOf && sameStr(knownValue(st, r.args[len(r.args)-1]), keySecretNs)
}

func knownValue(st *St, t *Term) *Term {
	if k := st.constOf(t); k != nil {
		return k
	}
	return t
}

func readsKeySecret(st *St, rec *CallRec) bool {
	return rec.Name == secretIfc+"Get" && secretAt(st, rec) && len(rec.Args) > 0 && sameStr(knownValue(st, rec.Args[0]), keySecretName)
}

func failedRead(st *St) bool {
	for _, e := range st.calls(isSecretOp) {
		if readsKeySecret(st, e) && st.isNonNil(extract(e.Result, 1)) {
			return true
		}
	}
	return false
}

// cookieCodecs decides every construction of the cookie codec.
func (c *Check) cookieCodecs() {
	roots := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	var up func(fn *ssa.Function, depth int)
	up = func(fn *ssa.Function, depth int) {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		n := len(fn.Params)
		if fn.Signature.Recv() != nil {
			n--
		}
		cs := c.P.callGraph().callers(fn)
		if n > 0 && len(cs) > 0 && depth > 0 {
			for _, x := range cs {
				up(x, depth-1)
			}
			return
		}
		roots[fn] = true
	}
	for _, fn := range c.P.Fns {
		if !c.P.handwritten(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && typeName(derefType(al.Type())) == codecType {
					c.ob("codec-constructed", ssaName(fn), c.P.posOf(in.Pos()), false, "%s makes a cookie codec without its constructor", ssaName(fn))
				}
				mi, ok := in.(*ssa.MakeInterface)
				if ok && c.isEncryptor(mi.Type()) {
					c.ob("codec-kind", ssaName(fn), c.P.posOf(in.Pos()), typeName(derefType(mi.X.Type())) == codecType, "cookies are made with a %s, not with the cookie codec", mi.X.Type())
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := call.Common().StaticCallee()
				if cal == nil || cal.Object() == nil {
					continue
				}
				f, ok := cal.Object().(*types.Func)
				if !ok {
					continue
				}
				switch n := funcName(f); n {
				case codecNew:
					sites[in] = true
					up(fn, 8)
				case "github.com/gorilla/securecookie.CodecsFromPairs", "(*" + codecType + ").HashFunc", "(*" + codecType + ").BlockFunc":
					c.ob("codec-constructed", ssaName(fn), c.P.posOf(in.Pos()), false, "%s changes how cookies are protected (%s)", ssaName(fn), n)
				}
			}
		}
	}
	if !c.need(len(sites) > 0, "a construction of the cookie codec ("+codecNew+")") {
		return
	}
	seen := map[ssa.Instruction]bool{}
	for _, fn := range c.P.Fns {
		if !roots[fn] {
			continue
		}
		c.codecRoot(fn, seen)
	}
	for in := range sites {
		c.ob("site-analysed", ssaName(in.Parent()), c.P.posOf(in.Pos()), seen[in], "the construction of the cookie codec in %s is on no analysed path", ssaName(in.Parent()))
	}
}

func (c *Check) isEncryptor(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && short(n.Obj().Pkg().Path()) == pkgWebStrat && n.Obj().Name() == "Encryptor"
}

func (c *Check) codecRoot(fn *ssa.Function, seen map[ssa.Instruction]bool) {
	r := &Run{P: c.P, Models: map[string]func(*Run, *frame, *St, *CallRec) ([]Outcome, bool){fnRetry: retryModel}}
	rec0 := func(n string) bool { return isSecretOp(n) || n == genKey }
	r.Record = rec0
	// what was stored as the secret, by the call that stored it
	stored := map[*Term]*Term{}
	at := ssaName(fn)
	ctxSize := func(st *St, field string) *Term {
		if len(fn.Params) == 0 {
			return nil
		}
		return st.get(rootParam(fn, 0), "ctx."+field+".Value")
	}
	r.OnCall = func(st *St, rec *CallRec) {
		pos := c.P.posOf(rec.Instr.Pos())
		if isSecretOp(rec.Name) {
			switch rec.Name[len(secretIfc):] {
			case "Create":
				if len(rec.Args) == 0 {
					return
				}
				s := unboxConv(rec.Args[0])
				stored[rec.Result] = s
				c.ob("secret-created-there", at, pos, secretAt(st, rec) && sameStr(knownValue(st, st.get(s, "ObjectMeta.Name")), keySecretName) && (sameStr(knownValue(st, st.get(s, "ObjectMeta.Namespace")), keySecretNs) || sameStr(knownValue(st, st.get(s, "ObjectMeta.Namespace")), "")), "the generated keys are not stored as %s/%s", keySecretNs, keySecretName)
				c.ob("secret-missing-first", at, pos, failedRead(st), "keys are generated although reading the key secret has not failed; path: %s", st.describeFacts())
				c.generatedSizes(st, s, at, pos, ctxSize)
			case "Update", "Patch", "Delete", "DeleteCollection":
				c.ob("secret-kept", at, pos, false, "the adapter changes or removes a stored secret (%s)", rec.Name)
			}
			return
		}
		if rec.Name != codecNew || len(rec.Args) != 2 {
			return
		}
		if in, ok := rec.Instr.(ssa.Instruction); ok {
			seen[in] = true
		}
		h, b := rec.Args[0], rec.Args[1]
		hs, hk := secretEntry(h)
		bs, bk := secretEntry(b)
		if hs != nil || bs != nil {
			c.ob("key-roles", at, pos, hk == hashKeyName && bk == blockKeyName, "cookies are signed with the entry %q and encrypted with the entry %q of the secret", hk, bk)
			ok := c.ob("keys-of-secret", at, pos, hs == bs && hs != nil && hs.kind == KExtract && hs.op == "0", "the two cookie keys are not entries of one secret read from the cluster: %s, %s", h, b)
			if !ok {
				return
			}
			call := hs.args[0]
			good := false
			for _, e := range st.calls(isSecretOp) {
				if e.Result != call || !st.isNil(extract(call, 1)) {
					continue
				}
				if readsKeySecret(st, e) || e.Name == secretIfc+"Create" {
					good = true
				}
			}
			c.ob("secret-obtained", at, pos, good, "the cookie keys come from a secret that is not the successfully read or created %s/%s (%s); path: %s", keySecretNs, keySecretName, call, st.describeFacts())
			return
		}
		// the generated keys themselves, after they were stored
		good := false
		for _, e := range st.calls(isSecretOp) {
			if e.Name != secretIfc+"Create" || !st.isNil(extract(e.Result, 1)) || stored[e.Result] == nil {
				continue
			}
			d := st.get(stored[e.Result], "Data")
			if d != nil && st.heap[intern(KMapAddr, "", nil, d, mkStr(hashKeyName))] == h && st.heap[intern(KMapAddr, "", nil, d, mkStr(blockKeyName))] == b {
				good = true
			}
		}
		c.ob("keys-of-secret", at, pos, good, "cookie keys (%s, %s) are neither of a secret read from the cluster nor of one stored successfully; path: %s", h, b, st.describeFacts())
	}
	c.run(r, fn, nil, nil)
}

func (c *Check) generatedSizes(st *St, s *Term, at, pos string, size func(*St, string) *Term) {
	d := st.get(s, "Data")
	for _, k := range []struct{ name, field string }{{hashKeyName, "HashKeySize"}, {blockKeyName, "BlockKeySize"}} {
		var v *Term
		if d != nil {
			v = st.heap[intern(KMapAddr, "", nil, d, mkStr(k.name))]
		}
		want := size(st, k.field)
		ok := v != nil && want != nil
		if ok {
			ok = false
			for _, e := range st.calls(func(n string) bool { return n == genKey }) {
				if e.Result == v && e.Args[0] == want {
					ok = true
				}
			}
			if !ok {
				ok = mkLen(v) == want || st.holds(mkEq(mkLen(v), want))
			}
		}
		c.ob("generated-size", at+" "+k.name, pos, ok, "the generated %s is not a random key of the configured %s: %s", k.name, k.field, v)
	}
}
