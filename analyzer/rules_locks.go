package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"
)

func init() {
	checks["C23"] = c23
	explain["C23"] = "Lock-set analysis over SSA: from every concurrent operation (the request handler, every go statement, every callback handed to a library, start-up) calls are followed with their argument values; each read and write of a field, map or slice of a type reachable from the server object, or of a global or captured variable, is recorded with the locks held, unless the object was allocated by the same operation and has not been published. Every region written after publication must have one lock common to all its accesses, held exclusively by the writes."
	checks["C24"] = c24
	explain["C24"] = "The same traversal decides lock discipline: per path state of held locks and registered defers; no operation ends with a lock it acquired, releases a lock it does not hold, or acquires one it holds (shared fetches count as locks); the order in which locks are acquired is acyclic; no lock of an implementation of the policy store, key set or authorization server, nor one guarding their state, is held at a network call, shared fetch, channel operation, sleep or wait."
}

func (c *Check) locks() *lockAnalysis {
	a := c.P.lockAnalysis()
	for f := range a.visited {
		c.Fns[ssaName(f)] = true
	}
	c.States += a.steps
	c.Calls += a.nCalls
	c.Paths += a.ends
	c.ob("decidable", "lock analysis", "-", !a.over, "the lock analysis did not finish within %d steps", lockStepLimit)
	rs := 0
	for k := range a.rootSeen {
		_ = k
		rs++
	}
	c.Roots = append(c.Roots, fmt.Sprintf("%d operations", rs))
	c.need(rs >= 8, "concurrent operations (request handler, goroutines, callbacks)")
	return a
}

func lockNames(h map[lockID]byte) string {
	var s []string
	for l, m := range h {
		s = append(s, l.name()+"("+string(m)+")")
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "no lock"
	}
	return strings.Join(s, ", ")
}

// protects: the lock as held by this access protects it.
func protects(x access, name string, write bool) bool {
	for l, m := range x.held {
		if l.name() != name || l.kind == 'S' {
			continue
		}
		if write && m != 'W' {
			continue
		}
		if l.kind == 'M' && x.rtype == l.owner && l.base != x.base {
			continue // the lock of another instance
		}
		return true
	}
	return false
}

type regionReport struct {
	region string
	accs   []access
	writes []access
	lock   string
	bad    []access
}

// regions groups the accesses; a path prefix touches everything below it.
func (a *lockAnalysis) regions() []regionReport {
	by := map[string][]access{}
	for _, x := range a.accesses {
		by[x.region] = append(by[x.region], x)
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []regionReport
	for _, k := range keys {
		paths := map[string]bool{}
		for _, x := range by[k] {
			if x.write {
				paths[x.path] = true
			}
		}
		var ps []string
		for p := range paths {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		if len(ps) == 0 {
			out = append(out, regionReport{region: k, accs: by[k]})
			continue
		}
		for _, p := range ps {
			r := regionReport{region: k + p}
			for _, x := range by[k] {
				if x.path == p || strings.HasPrefix(x.path, p+".") || strings.HasPrefix(p, x.path+".") || x.path == "" || p == "" {
					r.accs = append(r.accs, x)
					if x.write {
						r.writes = append(r.writes, x)
					}
				}
			}
			// the lock that protects most accesses
			cand := map[string]bool{}
			for _, x := range r.accs {
				for l := range x.held {
					if l.kind != 'S' {
						cand[l.name()] = true
					}
				}
			}
			best := -1
			for _, l := range sortedKeys(cand) {
				n := 0
				for _, x := range r.accs {
					if protects(x, l, x.write) {
						n++
					}
				}
				if n > best {
					best, r.lock = n, l
				}
			}
			for _, x := range r.accs {
				if r.lock == "" || !protects(x, r.lock, x.write) {
					r.bad = append(r.bad, x)
				}
			}
			out = append(out, r)
		}
	}
	return out
}

func c23(c *Check) {
	a := c.locks()
	locked := 0
	for _, r := range a.regions() {
		if len(r.writes) == 0 {
			c.ob("read-only-once-shared", r.region, c.P.posOf(r.accs[0].pos), true, "")
			continue
		}
		w := r.writes[0]
		bad := map[string]bool{}
		for _, x := range r.bad {
			at := r.region + " in " + ssaName(x.fn)
			if bad[at] {
				continue
			}
			bad[at] = true
			how := "read"
			if x.write {
				how = "written"
			}
			lk := "no lock protects the other accesses either"
			if r.lock != "" {
				lk = "the other accesses hold " + r.lock
			}
			c.ob("common-lock", at, c.P.posOf(x.pos), false, "%s is %s here (by %s) holding %s, while it is written at %s (%s, by %s); %s", r.region, how, x.thread, lockNames(x.held), c.P.posOf(w.pos), ssaName(w.fn), w.thread, lk)
		}
		fns := map[string]bool{}
		for _, x := range r.accs {
			at := r.region + " in " + ssaName(x.fn)
			if !bad[at] && !fns[at] {
				fns[at] = true
				c.ob("common-lock", at, c.P.posOf(x.pos), true, "")
			}
		}
		if r.lock != "" && len(r.bad) == 0 {
			locked++
		}
	}
	// the state the property names must have been seen
	seen := func(types_ []string, what string) {
		for _, x := range a.accesses {
			for _, t := range types_ {
				if strings.HasPrefix(x.region, t) {
					return
				}
			}
		}
		c.need(false, what)
	}
	for _, k := range [][3]string{
		{"adapter/policy/store/policy", "PolicyStore", "accesses of the policy store"},
		{"adapter/authserver/keyset", "KeySet", "accesses of a key set"},
		{"adapter/authserver", "AuthorizationServerService", "accesses of the discovery data"},
		{"adapter/strategy", "Strategy", "accesses of the login strategy"},
	} {
		var ts []string
		for _, t := range c.P.Impls(k[0], k[1]) {
			ts = append(ts, typeName(derefT(t)))
		}
		seen(ts, k[2])
	}
	c.Assume = append(c.Assume,
		"library types (sync.Map, singleflight groups, workqueues, informers, loggers, HTTP clients) are safe for concurrent use as documented",
		"a request message is known only to the operation that handles it",
		"a region is a field path of a struct type, a map or slice by type, a global or a captured variable; a lock of the same struct type protects only its own instance")
}

func c24(c *Check) {
	a := c.locks()
	names := map[string]bool{}
	for n, k := range a.acquires {
		names[n] = true
		_ = k
	}
	c.need(len(names) > 0, "lock acquisitions")
	evs := map[string][]lockEvent{}
	for _, e := range a.events {
		evs[e.what] = append(evs[e.what], e)
	}
	// locks whose holders must not wait for the network
	guard := map[string]string{}
	var owners []string
	for _, k := range [][2]string{{"adapter/policy/store/policy", "PolicyStore"}, {"adapter/authserver/keyset", "KeySet"}, {"adapter/authserver", "AuthorizationServerService"}} {
		for _, t := range c.P.Impls(k[0], k[1]) {
			owners = append(owners, typeName(derefT(t)))
		}
	}
	owned := func(region string) bool {
		for _, o := range owners {
			if region == o || strings.HasPrefix(region, o+".") {
				return true
			}
		}
		return false
	}
	for n := range names {
		if owned(n) {
			guard[n] = "a field of the guarded object"
		}
	}
	for _, r := range a.regions() {
		if len(r.writes) > 0 && r.lock != "" && owned(r.region) {
			guard[r.lock] = "guards " + r.region
		}
	}
	for _, n := range sortedKeys(names) {
		for _, k := range []struct{ what, rule, msg string }{
			{"exit", "released-on-every-path", "the operation %s can end while %s is still held"},
			{"double", "not-reacquired", "%s acquires %s, which it already holds"},
			{"unheld", "releases-what-it-holds", "%s releases %s without holding it in that mode"},
		} {
			ok := true
			for _, e := range evs[k.what] {
				if e.lock.name() == n {
					ok = false
					c.ob(k.rule, n+" in "+ssaName(e.fn), c.P.posOf(e.pos), false, k.msg, ssaName(e.fn), n)
				}
			}
			if ok {
				c.ob(k.rule, n, "-", true, "")
			}
		}
		if why, g := guard[n]; g {
			ok := true
			for _, e := range evs["blocking"] {
				if e.lock.name() == n {
					ok = false
					c.ob("not-held-while-waiting", n+" in "+ssaName(e.fn), c.P.posOf(e.pos), false, "%s waits for %s while holding %s (%s)", ssaName(e.fn), e.other, n, why)
				}
			}
			if ok {
				c.ob("not-held-while-waiting", n, "-", true, "")
			}
		}
	}
	// released locks that are never acquired anywhere
	for _, e := range evs["unheld"] {
		if !names[e.lock.name()] {
			c.ob("releases-what-it-holds", e.lock.name()+" in "+ssaName(e.fn), c.P.posOf(e.pos), false, "%s releases %s, which is acquired nowhere", ssaName(e.fn), e.lock.name())
		}
	}
	c.need(len(guard) > 0, "a lock guarding the policy store, a key set or the discovery data")
	// order
	succ := map[string][]string{}
	for o := range a.order {
		succ[o.a] = append(succ[o.a], o.b)
	}
	var froms []string
	for f := range succ {
		froms = append(froms, f)
	}
	sort.Strings(froms)
	for o := range a.order {
		// b ->* a means a cycle
		seen := map[string]bool{}
		work := []string{o.b}
		cyc := false
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == o.a {
				cyc = true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			work = append(work, succ[x]...)
		}
		e := a.order[o]
		c.ob("acyclic-order", o.a+" then "+o.b, c.P.posOf(e.pos), !cyc, "%s acquires %s while %s is held, and elsewhere %s is acquired while %s is held: two operations can wait for each other", ssaName(e.fn), o.b, o.a, o.a, o.b)
	}
	c.atLeast("released-on-every-path", 1)
	c.Assume = append(c.Assume,
		"paths are distinguished by the locks held, not by the values of conditions",
		"a shared fetch (singleflight) is treated as a lock per group, whatever the key")
	_ = types.Typ
}
