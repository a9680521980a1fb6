package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17, C31: from a change in the cluster to the policy handler.

const (
	fnQueueGet     = "(k8s.io/client-go/util/workqueue.Interface).Get"
	fnQueueAdd     = "(k8s.io/client-go/util/workqueue.Interface).Add"
	fnQueueDone    = "(k8s.io/client-go/util/workqueue.Interface).Done"
	ifcQueue       = "(k8s.io/client-go/util/workqueue."
	fnGetByKey     = "(k8s.io/client-go/tools/cache.Store).GetByKey"
	fnAddHandler   = "(k8s.io/client-go/tools/cache.SharedInformer).AddEventHandler"
	fnInformerRun  = "(k8s.io/client-go/tools/cache.SharedInformer).Run"
	fnSynced       = "(k8s.io/client-go/tools/cache.SharedInformer).HasSynced"
	fnWaitSync     = "k8s.io/client-go/tools/cache.WaitForCacheSync"
	fnMetaKey      = "k8s.io/client-go/tools/cache.MetaNamespaceKeyFunc"
	fnDelKey       = "k8s.io/client-go/tools/cache.DeletionHandlingMetaNamespaceKeyFunc"
	ifcHandler     = "(~/adapter/policy/handler.PolicyHandler)."
	fnHandleAdd    = ifcHandler + "HandleAddUpdateEvent"
	fnHandleDelete = ifcHandler + "HandleDeleteEvent"
)

// apply runs a function value on arguments.
func (r *Run) apply(fnv *Term, args []*Term, st *St) ([]Outcome, bool) {
	fnv = unboxConv(fnv)
	if fnv == nil || fnv.fn == nil || len(fnv.fn.Blocks) == 0 || (fnv.kind != KFunc && fnv.kind != KClosure) {
		return nil, false
	}
	var free []*Term
	if fnv.kind == KClosure {
		free = fnv.args
	}
	if len(fnv.fn.Params) != len(args) {
		return nil, false
	}
	return r.call(fnv.fn, args, free, st, "", nil), true
}

func queueOp(rec *CallRec) string {
	if !strings.HasPrefix(rec.Name, ifcQueue) {
		return ""
	}
	return rec.Name[strings.LastIndex(rec.Name, ".")+1:]
}

func isExternal(n string) bool {
	return strings.HasPrefix(n, ifcQueue) || strings.HasPrefix(n, ifcHandler) || strings.HasPrefix(n, "chan.") || n == "select" || strings.HasPrefix(n, "(k8s.io/client-go/tools/cache.") || strings.HasPrefix(n, "k8s.io/client-go/tools/cache.") || strings.HasPrefix(n, "k8s.io/apimachinery/pkg/util/wait.") || strings.HasPrefix(n, "go:")
}

// worker finds what the controller keeps running, as the function value given to wait.*.
type workerStart struct {
	rec *CallRec
	st  *St
}

func (c *Check) controllerRun() (fn *ssa.Function, starts []workerStart, outs []Outcome) {
	fn = c.P.Method(pkgCtrl, "Controller", "Run")
	if !c.need(fn != nil && len(fn.Params) == 2, "controller.Controller.Run") {
		return nil, nil, nil
	}
	r := &Run{P: c.P, Record: isExternal}
	r.OnCall = func(st *St, rec *CallRec) {
		if strings.Contains(rec.Name, "k8s.io/apimachinery/pkg/util/wait.") {
			starts = append(starts, workerStart{rec, st.clone()})
		}
	}
	outs = c.run(r, fn, nil, nil)
	return
}

func funcArg(rec *CallRec) *Term {
	for _, a := range rec.Args {
		if a = unboxConv(a); a.fn != nil {
			return a
		}
	}
	return nil
}

func (c *Check) workerLoop() {
	fn, starts, _ := c.controllerRun()
	if fn == nil {
		return
	}
	recv := rootParam(fn, 0)
	c.ob("worker-started", ssaName(fn), c.P.posOf(fn.Pos()), len(starts) > 0, "the controller never starts its worker")
	seen := map[string]bool{}
	for _, s := range starts {
		w := funcArg(s.rec)
		pos := c.P.posOf(s.rec.Instr.Pos())
		name := s.rec.Name[strings.LastIndex(s.rec.Name, ".")+1:]
		period, _ := int64(1), 0
		for _, a := range s.rec.Args {
			if n, ok := constInt64(a); ok {
				period = n
			}
		}
		stop := len(s.rec.Args) > 0 && s.rec.Args[len(s.rec.Args)-1] == rootParam(fn, 1)
		if !c.ob("worker-started", ssaName(fn)+" "+name, pos, w != nil && strings.HasPrefix(name, "Until") && period > 0 && (stop || name != "Until"), "the worker is not kept running until shutdown (%s)", s.rec.Name) {
			continue
		}
		if seen[ssaName(w.fn)] {
			continue
		}
		seen[ssaName(w.fn)] = true
		r := &Run{P: c.P, Record: isExternal}
		var e edges
		e.attach(r)
		outs, ok := r.apply(w, nil, s.st)
		if !c.need(ok, "the worker function") {
			continue
		}
		c.account(r, w.fn, len(outs))
		at := "worker " + ssaName(w.fn)
		n := 0
		for _, bs := range e.back {
			for _, b := range bs {
				if get := lastGet(b.St); get != nil {
					c.item(b.St, recv, get, at, c.P.posOf(w.fn.Pos()))
					n++
				}
			}
		}
		for _, o := range outs {
			rpos := c.P.posOf(o.ret.Pos())
			get := lastGet(o.st)
			if get == nil {
				c.ob("runs-until-shutdown", at, rpos, false, "the worker ends without having asked the queue; path: %s", o.st.describeFacts())
				continue
			}
			c.ob("runs-until-shutdown", at, rpos, o.st.holds(extract(get.Result, 1)), "the worker stops although the queue was not shut down; path: %s", o.st.describeFacts())
		}
		c.ob("item-processed", at+" cases", c.P.posOf(w.fn.Pos()), n >= 3, "only %d ways of processing a dequeued key were found", n)
	}
	c.atLeast("item-processed", 3)
	c.atLeast("runs-until-shutdown", 1)
}

func lastGet(st *St) *CallRec {
	gets := st.calls(names(fnQueueGet))
	if len(gets) == 0 {
		return nil
	}
	return gets[len(gets)-1]
}

// item checks one processed key.
func (c *Check) item(st *St, recv *Term, get *CallRec, at, pos string) {
	key := extract(get.Result, 0)
	isKey := func(t *Term) bool {
		for t != nil && (t.kind == KIface || t.kind == KAssert || t.kind == KConv || t.kind == KExtract && t.args[0].kind == KAssert && t.op == "0") {
			t = t.args[0]
		}
		return t == key
	}
	facts := st.describeFacts()
	queue := get.Recv
	c.ob("own-queue", at, pos, queue == initial(recv, "Queue"), "keys are taken from %v, not from the controller's queue", queue)
	var after []*CallRec
	found := false
	for _, ev := range st.events() {
		if ev.call == get {
			found = true
		} else if found && ev.call != nil {
			after = append(after, ev.call)
		}
	}
	done, forgotten, requeued := false, false, false
	var read *CallRec
	var adds, dels []*CallRec
	for _, rec := range after {
		switch op := queueOp(rec); op {
		case "Done":
			if isKey(rec.Args[0]) && rec.Recv == queue {
				done = true
			}
		case "Forget":
			forgotten = forgotten || isKey(rec.Args[0]) && rec.Recv == queue
		case "AddRateLimited", "AddAfter", "Add":
			requeued = requeued || isKey(rec.Args[0]) && rec.Recv == queue
		}
		switch rec.Name {
		case fnGetByKey:
			read = rec
		case fnHandleAdd:
			adds = append(adds, rec)
		case fnHandleDelete:
			dels = append(dels, rec)
		}
	}
	c.ob("marked-done", at, pos, done, "a dequeued key is not marked done, so the object is never processed again; path: %s", facts)
	if read == nil {
		// the key was not usable
		usable := true
		for f, v := range st.facts {
			if !v && f.kind == KAssertOk && isKey(f.args[0]) {
				usable = false
			}
		}
		c.ob("item-processed", at, pos, !usable && len(adds)+len(dels) == 0, "a dequeued key is not looked up in the cache; path: %s", facts)
		return
	}
	idx := read.Recv
	own := idx != nil && derives(idx, func(t *Term) bool { return t == initial(recv, "Informer") })
	c.ob("reads-own-cache", at, pos, own && isKey(read.Args[0]), "the cache of another informer or another key is read (%v)", read.Args)
	err := extract(read.Result, 2)
	exists := extract(read.Result, 1)
	c.ob("handler-is-own", at, pos, allRecv(append(adds, dels...), initial(recv, "Handler")), "the event is given to another handler")
	for _, d := range dels {
		k := unbox(d.Args[0])
		ok := st.isNil(err) && st.refuted(exists)
		c.ob("deletion-only-if-absent", at, pos, ok, "a key is handled as deleted although the cache did not answer that the object is absent; path: %s", facts)
		id, typ := st.get(k, "Id"), st.get(k, "CrdType")
		c.ob("deletion-of-own-key", at, pos, id != nil && isKey(id) && typ == initial(recv, "CrdType"), "the deletion names %v of kind %v, not the dequeued key of the controller's kind", id, typ)
	}
	for _, a := range adds {
		ok := st.isNil(err) && st.holds(exists) && a.Args[0] == extract(read.Result, 0)
		c.ob("update-only-if-present", at, pos, ok, "an object is handled as added although the cache did not answer with it; path: %s", facts)
	}
	switch {
	case st.isNil(err):
		c.ob("item-processed", at, pos, len(adds)+len(dels) == 1, "a change is handled %d times; path: %s", len(adds)+len(dels), facts)
		c.ob("retries-reset", at, pos, forgotten, "a processed key keeps its retry count; path: %s", facts)
	case st.refuted(mkEq(err, mkNil(nil))) || st.isNonNil(err):
		limit := false
		for f, v := range st.facts {
			if f.kind == KBin && f.op == "<" {
				for i := 0; i < 2; i++ {
					if n := f.args[i]; (n.kind == KCall || n.kind == KPure) && strings.HasSuffix(calleeName(n), ".NumRequeues") {
						m, ok := constInt64(f.args[1-i])
						// requeues are at least one
						limit = limit || ok && (i == 0 && !v && m >= 1 || i == 1 && v && m >= 0)
						if requeued {
							c.ob("retries-bounded", at, pos, ok && (i == 0 && v || i == 1 && !v), "a key is retried although its retries are used up; path: %s", facts)
						}
					}
				}
			}
		}
		c.ob("read-error-retried", at, pos, requeued || limit, "after a failed read the key is dropped; path: %s", facts)
		bounded := false
		for f := range st.facts {
			bounded = bounded || contains(f, func(t *Term) bool { return strings.HasSuffix(calleeName(t), ".NumRequeues") })
		}
		c.ob("retries-bounded", at, pos, !requeued || bounded, "a key is retried without bound; path: %s", facts)
	default:
		c.ob("item-processed", at, pos, false, "a dequeued key is handled without looking at the cache's error; path: %s", facts)
	}
}

func allRecv(rs []*CallRec, t *Term) bool {
	for _, r := range rs {
		if r.Recv != t {
			return false
		}
	}
	return true
}

// ---- wiring ----

type spawn struct {
	rec *CallRec
	st  *St
}

// spawned runs what a go statement starts.
func spawned(r *Run, s spawn) ([]Outcome, bool) {
	in, ok := s.rec.Instr.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	args := s.rec.Args
	if s.rec.Result != nil && s.rec.Result.fn != nil {
		if outs, ok := r.apply(s.rec.Result, args, s.st); ok {
			return outs, true
		}
		return r.apply(s.rec.Result, append([]*Term{s.rec.Recv}, args...), s.st)
	}
	fn := in.Common().StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, false
	}
	if len(fn.Params) == len(args)+1 && s.rec.Recv != nil {
		args = append([]*Term{s.rec.Recv}, args...)
	}
	if len(fn.Params) != len(args) {
		return nil, false
	}
	return r.call(fn, args, nil, s.st, "", nil), true
}

func (c *Check) wiring() {
	fn := c.P.Func(pkgInit, "New")
	ct := c.P.Type(pkgV1, "CrdType")
	if !c.need(fn != nil && len(fn.Params) == 1 && ct != nil, "initializer.New") {
		return
	}
	kinds := map[string]string{"JwtConfigs": "JWTCONFIG", "OidcConfigs": "OIDCCONFIG", "Policies": "POLICY"}
	var ss []spawn
	r := &Run{P: c.P, Record: isExternal}
	r.OnCall = func(st *St, rec *CallRec) {
		if strings.HasPrefix(rec.Name, "go:") {
			ss = append(ss, spawn{rec, st.clone()})
		}
	}
	outs := c.run(r, fn, nil, nil)
	store := rootParam(fn, 0)
	// every success outcome started the controllers; look at each spawn once per outcome set
	started := map[*CallRec]string{}
	done := map[string]bool{}
	for _, s := range ss {
		key := s.rec.Name
		for _, a := range s.rec.Args {
			key += a.String()
		}
		kind := c.controller(s, store, kinds, ct, done, key)
		started[s.rec] = kind
	}
	for _, o := range outs {
		if !o.st.isNil(o.res[len(o.res)-1]) {
			continue
		}
		have := map[string]bool{}
		for _, rec := range o.st.calls(func(n string) bool { return strings.HasPrefix(n, "go:") }) {
			have[started[rec]] = true
		}
		for k, v := range kinds {
			c.ob("kind-controlled", ssaName(fn)+" "+v, c.P.posOf(o.ret.Pos()), have[k], "no controller is started for %s; path: %s", k, o.st.describeFacts())
		}
	}
	c.atLeast("kind-controlled", 3)
	c.atLeast("notification-enqueues", 3)
}

// controller analyses one started controller: which resource it watches.
func (c *Check) controller(s spawn, store *Term, kinds map[string]string, ct *types.Named, done map[string]bool, key string) string {
	var hs, rs []spawn
	r := &Run{P: c.P, Record: isExternal}
	r.Opaque = func(n string) bool { return strings.HasPrefix(n, "(*~/adapter/policy/controller.Controller).") }
	nested := 0
	r.OnCall = func(st *St, rec *CallRec) {
		switch {
		case strings.HasSuffix(rec.Name, "controller.Controller).Run"):
			rs = append(rs, spawn{rec, st.clone()})
		case strings.HasPrefix(rec.Name, "go:") && rec.Result != nil && rec.Result.fn != nil && nested < 3:
			nested++
			spawned(r, spawn{rec, st.clone()})
			nested--
		case rec.Name == fnAddHandler:
			hs = append(hs, spawn{rec, st.clone()})
		case rec.Name == "builtin.close" || strings.HasSuffix(rec.Name, ".ShutDown"):
			// only after something has been waited for
			waited := false
			for _, w := range st.calls(func(n string) bool { return n == "chan.recv" || n == "select" }) {
				waited = waited || w.Name != ""
			}
			for _, w := range st.events() {
				waited = waited || w.call != nil && strings.HasSuffix(w.call.Name, "controller.Controller).Run") && !strings.HasPrefix(w.call.Name, "go:")
			}
			c.ob("runs-until-stopped", "controller "+rec.Name, c.P.posOf(rec.Instr.Pos()), waited, "the controller is stopped without waiting for anything; path: %s", st.describeFacts())
		}
	}
	outs, ok := spawned(r, s)
	pos := c.P.posOf(s.rec.Instr.Pos())
	if !ok {
		return ""
	}
	if len(hs) == 0 {
		return ""
	}
	c.account(r, s.rec.Fn, len(outs))
	kind := ""
	for _, h := range hs {
		inf := h.rec.Recv
		for k := range kinds {
			if contains(inf, func(t *Term) bool { return strings.HasSuffix(calleeName(t), ")."+k) }) {
				kind = k
			}
		}
	}
	at := "controller of " + kind
	if !c.ob("kind-controlled", at, pos, kind != "", "a controller watches an informer of no known kind") {
		return ""
	}
	c.ob("one-handler", at, pos, len(hs) == len(outs) || len(hs) == 1, "the informer gets %d handlers", len(hs))
	h := hs[0]
	var queue *Term
	for _, x := range rs {
		ctl := x.rec.Recv
		if ctl == nil && len(x.rec.Args) > 0 {
			ctl = x.rec.Args[0]
		}
		if !c.need(ctl != nil, "the started controller") {
			continue
		}
		q, inf, hd, tp := x.st.get(ctl, "Queue"), x.st.get(ctl, "Informer"), x.st.get(ctl, "Handler"), x.st.get(ctl, "CrdType")
		queue = q
		k, _ := ct.Obj().Pkg().Scope().Lookup(kinds[kind]).(*types.Const)
		okT := false
		if k != nil && tp != nil {
			n, isC := constInt64(tp)
			m, _ := constInt64(mkConst(k.Val(), ct))
			okT = isC && n == m || tp == mkConst(k.Val(), ct)
		}
		c.ob("controller-wired", at, c.P.posOf(x.rec.Instr.Pos()), okT, "the controller of %s works on the kind %v", kind, tp)
		c.ob("controller-wired", at+" informer", c.P.posOf(x.rec.Instr.Pos()), inf != nil && unbox(inf) == unbox(h.rec.Recv), "the controller reads another informer than the one that notifies it")
		hdx := unbox(hd)
		c.ob("controller-wired", at+" handler", c.P.posOf(x.rec.Instr.Pos()), hdx != nil && contains(x.st.load(hdx), func(t *Term) bool { return t == store }) || hdx != nil && reachesStore(x.st, hdx, store), "the controller's handler does not work on the store")
		before := false
		for _, rec := range x.st.calls(names(fnAddHandler)) {
			before = before || rec == h.rec || rec.Instr == h.rec.Instr
		}
		c.ob("controller-wired", at+" order", c.P.posOf(x.rec.Instr.Pos()), before, "the controller runs before its notifications are registered")
	}
	if !c.ob("controller-wired", at+" run", pos, len(rs) > 0, "the controller is never run") {
		return kind
	}
	if done[kind] {
		return kind
	}
	done[kind] = true
	// notifications
	f := unbox(h.rec.Args[0])
	for _, nf := range []struct {
		field string
		n     int
	}{{"AddFunc", 1}, {"UpdateFunc", 2}, {"DeleteFunc", 1}} {
		fv := h.st.get(f, nf.field)
		if fv == nil || unboxConv(fv).fn == nil {
			c.ob("notification-enqueues", at+" "+nf.field, pos, false, "changes of %s are not noticed (%s)", kind, nf.field)
			continue
		}
		var args []*Term
		for i := 0; i < nf.n; i++ {
			args = append(args, symbol("notified"+itoa(i), types.NewInterfaceType(nil, nil)))
		}
		nr := &Run{P: c.P, Record: isExternal}
		nouts, ok := nr.apply(fv, args, h.st)
		if !c.need(ok, nf.field) {
			continue
		}
		c.account(nr, unboxConv(fv).fn, len(nouts))
		last := args[nf.n-1]
		for _, o := range nouts {
			np := c.P.posOf(o.ret.Pos())
			added := false
			for _, rec := range o.st.calls(func(n string) bool { return strings.HasPrefix(n, ifcQueue) }) {
				if op := queueOp(rec); op == "Add" || op == "AddRateLimited" {
					k := unbox(rec.Args[0])
					src := resultOf(k, 0, fnMetaKey, fnDelKey)
					ok := src != nil && src.args[len(src.args)-1] == last || src != nil && src.args[len(src.args)-1] == args[0]
					okQ := rec.Recv == queue
					c.ob("notification-enqueues", at+" "+nf.field, np, ok && okQ, "enqueues %v instead of the changed object's key in the controller's queue", k)
					added = added || ok && okQ
				}
			}
			failed := false
			fnOK := true
			for _, f := range o.st.factTerms() {
				contains(f, func(t *Term) bool {
					if n := calleeName(t); n == fnMetaKey || n == fnDelKey {
						if nf.field == "DeleteFunc" && n != fnDelKey {
							fnOK = false
						}
						if o.st.isNonNil(extract(t, 1)) || o.st.refuted(mkEq(extract(t, 1), mkNil(nil))) {
							failed = true
						}
					}
					return false
				})
			}
			unchanged := nf.field == "UpdateFunc" && sameVersion(o.st, args)
			c.ob("notification-enqueues", at+" "+nf.field, np, added || failed || unchanged, "a change of %s is not enqueued; path: %s", kind, o.st.describeFacts())
			c.ob("deletion-key", at+" "+nf.field, np, fnOK, "the key of a missed deletion cannot be computed this way")
		}
	}
	return kind
}

func (s *St) factTerms() []*Term {
	var out []*Term
	for f := range s.facts {
		out = append(out, f)
	}
	return out
}

// sameVersion: the path shows that the old and the new object are the same version.
func sameVersion(st *St, args []*Term) bool {
	if len(args) != 2 {
		return false
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		if f.kind == KBin && f.op == "==" && contains(f.args[0], func(t *Term) bool { return t == args[0] || t == args[1] }) && contains(f.args[1], func(t *Term) bool { return t == args[0] || t == args[1] }) {
			s := f.args[0].String() + f.args[1].String()
			if strings.Contains(s, "ResourceVersion") {
				return true
			}
		}
		if f.kind == KPure && f.op == "reflect.DeepEqual" {
			x, y := unbox(f.args[0]), unbox(f.args[1])
			if x == args[0] && y == args[1] || x == args[1] && y == args[0] {
				return true
			}
		}
	}
	return false
}

// reachesStore: the object holds the store directly.
func reachesStore(st *St, obj, store *Term) bool {
	e := pointee(obj)
	if e == nil {
		return false
	}
	s, ok := e.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if v := st.get(obj, s.Field(i).Name()); v != nil && unbox(v) == unbox(store) {
			return true
		}
	}
	return false
}

// oneStore: the adapter's engine reads the store the controllers write.
func (c *Check) oneStore() {
	fn := c.P.Func("adapter", "NewAppIDAdapter")
	if !c.need(fn != nil, "adapter.NewAppIDAdapter") {
		return
	}
	in, en := "~/"+pkgInit+".New", "~/"+pkgEngine+".New"
	r := &Run{P: c.P, Record: names(in, en), Opaque: func(n string) bool {
		return n == in || n == en || strings.HasPrefix(n, "~/adapter/strategy/")
	}}
	for _, o := range c.run(r, fn, nil, nil) {
		if !o.st.isNil(o.res[len(o.res)-1]) {
			continue
		}
		is, es := o.st.calls(names(in)), o.st.calls(names(en))
		ok := len(is) == 1 && len(es) >= 1
		for _, x := range es {
			ok = ok && unbox(x.Args[0]) == unbox(is[0].Args[0])
		}
		c.ob("engine-reads-controlled-store", ssaName(fn), c.P.posOf(o.ret.Pos()), ok, "the engine does not read the store the controllers write; path: %s", o.st.describeFacts())
	}
	c.atLeast("engine-reads-controlled-store", 1)
}

// ---- C31 ----

// synchronised: on this path the controller's own cache is known to be synchronised; starts tells
// that its informer was started before it was waited for.
func (c *Check) synchronised(st *St, recv *Term) (ok, started bool, why string) {
	inf := initial(recv, "Informer")
	own := func(f *Term, st *St) bool {
		f = unboxConv(f)
		if f == nil {
			return false
		}
		if f.fn != nil {
			r := &Run{P: c.P, Record: isExternal}
			outs, ran := r.apply(f, nil, st)
			if !ran {
				return c.boundSynced(f, inf)
			}
			if len(outs) == 0 {
				return false
			}
			for _, o := range outs {
				if o.st.refuted(o.res[0]) {
					continue
				}
				if x := resultOf(o.res[0], 0, fnSynced); (x == nil || x.args[0] != inf) && !heldSynced(o.st, inf) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, ev := range st.events() {
		rec := ev.call
		if rec == nil {
			continue
		}
		switch {
		case rec.Name == "go:"+fnInformerRun:
			t := rec.Recv
			if t == nil && len(rec.Args) > 0 {
				t = rec.Args[0]
			}
			started = started || t == inf
		case strings.HasPrefix(rec.Name, "go:") && rec.Result != nil && rec.Result.fn != nil:
			r := &Run{P: c.P, Record: isExternal}
			outs, _ := spawned(r, spawn{rec, st})
			all := len(outs) > 0
			for _, o := range outs {
				one := false
				for _, x := range o.st.calls(names(fnInformerRun)) {
					one = one || x.Recv == inf
				}
				all = all && one
			}
			started = started || all
		case rec.Name == fnWaitSync:
			if !st.holds(rec.Result) {
				continue
			}
			fs, known := st.elems(rec.Args[1])
			if !known {
				why = "the caches waited for are not known"
				continue
			}
			for _, f := range fs {
				if own(f, st) {
					ok = true
				} else {
					why = "another cache is waited for"
				}
			}
		}
	}
	if heldSynced(st, inf) {
		ok = true
	}
	return
}

func heldSynced(st *St, inf *Term) bool {
	for f, v := range st.facts {
		if v {
			if x := resultOf(f, 0, fnSynced); x != nil && x.args[0] == inf {
				return true
			}
		}
	}
	return false
}

// boundSynced: the function is the informer's own HasSynced.
func (c *Check) boundSynced(f, inf *Term) bool {
	return f.kind == KClosure && len(f.args) == 1 && f.args[0] == inf && strings.Contains(f.fn.Name(), "HasSynced")
}

func (c *Check) loadedFirst() {
	fn, starts, outs := c.controllerRun()
	if fn == nil {
		return
	}
	recv := rootParam(fn, 0)
	for _, s := range starts {
		ok, started, why := c.synchronised(s.st, recv)
		pos := c.P.posOf(s.rec.Instr.Pos())
		c.ob("processing-after-sync", ssaName(fn), pos, ok, "processing starts without the controller's cache being synchronised (%s); path: %s", why, s.st.describeFacts())
		c.ob("informer-started", ssaName(fn), pos, started, "the informer is not started before its cache is waited for; path: %s", s.st.describeFacts())
	}
	for _, o := range outs {
		// nothing is processed outside the worker
		for _, rec := range o.st.calls(func(n string) bool { return strings.HasPrefix(n, ifcHandler) || n == fnQueueGet }) {
			ok, _, why := c.synchronised(o.st, recv)
			c.ob("processing-after-sync", ssaName(fn)+" direct", c.P.posOf(rec.Instr.Pos()), ok, "a change is processed before the cache is synchronised (%s)", why)
		}
	}
	c.atLeast("processing-after-sync", 1)

	// the adapter is returned, and with it served, only after the initial lists were read
	nf := c.P.Func("adapter", "NewAppIDAdapter")
	if !c.need(nf != nil, "adapter.NewAppIDAdapter") {
		return
	}
	r := &Run{P: c.P, Record: func(n string) bool {
		return isExternal(n) || strings.HasSuffix(n, ".HasSynced") || strings.HasSuffix(n, ".WaitForCacheSync") || strings.HasSuffix(n, ".Serve")
	}, Opaque: func(n string) bool {
		return n == "~/"+pkgEngine+".New" || strings.HasPrefix(n, "~/adapter/strategy/")
	}}
	served := false
	r.OnCall = func(st *St, rec *CallRec) { served = served || strings.HasSuffix(rec.Name, "grpc.Server).Serve") }
	n := 0
	for _, o := range c.run(r, nf, nil, nil) {
		if !o.st.isNil(o.res[len(o.res)-1]) {
			continue
		}
		n++
		loaded := len(o.st.calls(func(n string) bool {
			return n == fnWaitSync || strings.HasSuffix(n, ".WaitForCacheSync") || strings.HasSuffix(n, ".HasSynced") || n == "chan.recv" || n == "select"
		})) > 0
		c.ob("served-before-loaded", "startup", c.P.posOf(o.ret.Pos()), loaded, "the adapter is handed out for serving without waiting for any cluster list to be read; path: %s", o.st.describeFacts())
	}
	c.ob("startup", ssaName(nf), c.P.posOf(nf.Pos()), !served, "requests are served while the adapter is still being built")
	c.atLeast("served-before-loaded", 1)
}

func init() {
	checks["C31"] = func(c *Check) { c.loadedFirst() }
	explain["C31"] = "Path-sensitive dataflow over the controller's run function: the worker is started only on paths on which the wait for the controller's own informer answered true, after that informer was started; and over the adapter's construction: its success paths must contain a wait for the initial lists."
	checks["C17"] = func(c *Check) {
		c.workerLoop()
		c.wiring()
		c.oneStore()
	}
	explain["C17"] = "Path-sensitive dataflow from the worker function the controller keeps running: every iteration is one dequeued key and is classified by the cache's answer on the path (absent, present, error) against the handler and queue calls made; the start of each controller is followed into its goroutine, where the three notification closures must enqueue the object's key into the controller's own queue on every path, and the controller's kind, informer, handler and store must match."
}
