package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C41: serving and the processing of configuration end together.

func init() {
	checks["C41"] = c41
	explain["C41"] = "Every registration for an operating-system signal (which takes away the signal's default of ending the process) is found; for each termination signal registered anywhere, one registered channel must have receivers, and from every one of them every path through the control-flow and call graph must reach a stop of the gRPC server or the end of the process, following closures, goroutines and the channels that are closed or sent to, and taking only the selected case of a select. From the return of the gRPC server's Serve, every path must reach the end of the process in the same way."
}

type stopper struct {
	c       *Check
	g       *callGraph
	parent  map[interface{}]interface{} // alias classes of channels
	recvs   map[interface{}][]recvPoint
	busy    map[stopKey]bool
	memo    map[stopKey]bool
	server  bool // stopping the server is enough
	explain string
}

type recvPoint struct {
	fn  *ssa.Function
	in  ssa.Instruction
	sel int // case of a select, -1 otherwise
}

type stopKey struct {
	in     ssa.Instruction
	fn     *ssa.Function
	sel    int
	server bool
}

type fieldCell struct {
	t string
	i int
}

const fnServe = "(*google.golang.org/grpc.Server).Serve"

func c41(c *Check) {
	s := &stopper{c: c, g: c.P.callGraph(), parent: map[interface{}]interface{}{}, recvs: map[interface{}][]recvPoint{}, busy: map[stopKey]bool{}, memo: map[stopKey]bool{}}
	s.channels()
	main := c.P.Func("cmd", "main")
	if !c.need(main != nil, "main.main") {
		return
	}
	live := s.g.reachable(main)
	for fn := range live {
		c.Fns[ssaName(fn)] = true
	}
	c.Roots = append(c.Roots, ssaName(main))

	// registrations
	type registration struct {
		fn   *ssa.Function
		in   ssa.Instruction
		ch   ssa.Value
		sigs map[int64]bool
		all  bool
	}
	var regs []registration
	taken := map[int64]string{}
	serves := 0
	for _, fn := range c.P.Fns {
		if !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil {
					continue
				}
				pos := c.P.posOf(in.Pos())
				switch ssaName(callee) {
				case "os/signal.Notify":
					args := call.Common().Args
					r := registration{fn: fn, in: in, ch: args[0]}
					r.sigs, r.all, ok = signalsOf(args[1])
					if !c.ob("signals-known", ssaName(fn), pos, ok, "registers for signals that cannot be determined") {
						continue
					}
					regs = append(regs, r)
					for _, n := range terminations {
						if r.all || r.sigs[n] {
							taken[n] = pos
						}
					}
				case "os/signal.Ignore":
					sigs, all, ok := signalsOf(call.Common().Args[0])
					for _, n := range terminations {
						c.ob("termination-stops-serving", "signal "+signalName(n), pos, ok && !all && !sigs[n], "the signal to terminate is ignored")
					}
				case fnServe:
					serves++
					s.server = false
					c.ob("process-ends-with-server", ssaName(fn), pos, s.ends(fn, in, -1), "when serving ends the process may live on: %s", s.explain)
				}
			}
		}
	}
	for _, n := range terminations {
		at := "signal " + signalName(n)
		if taken[n] == "" {
			c.ob("termination-stops-serving", at, "-", true, "") // the default ends the process
			continue
		}
		ok, why := false, ""
		for _, r := range regs {
			if !r.all && !r.sigs[n] {
				continue
			}
			if early := blockedBefore(r.fn, r.in); early != "" {
				why = early
				continue
			}
			pts := s.recvs[s.find(s.cell(r.ch))]
			all := len(pts) > 0
			if !all {
				why = "nothing receives from the channel registered in " + ssaName(r.fn)
			}
			for _, p := range pts {
				s.server = true
				if early := blockedBefore(p.fn, p.in); early != "" {
					all = false
					why = early
				} else if !s.ends(p.fn, p.in, p.sel) {
					all = false
					why = "after its receipt in " + ssaName(p.fn) + " " + s.explain
				}
			}
			ok = ok || all
		}
		c.ob("termination-stops-serving", at, taken[n], ok, "the signal is caught, but serving may go on: %s", why)
	}
	c.atLeast("termination-stops-serving", 2)
	c.need(serves > 0, "the call of grpc.Server.Serve")
}

var terminations = []int64{2, 15}

func signalName(n int64) string {
	if n == 2 {
		return "SIGINT"
	}
	return "SIGTERM"
}

// signalsOf decodes the variadic list of a registration.
func signalsOf(v ssa.Value) (sigs map[int64]bool, all, ok bool) {
	if k, isK := v.(*ssa.Const); isK && k.Value == nil {
		return nil, true, true
	}
	sl, isS := v.(*ssa.Slice)
	if !isS {
		return nil, false, false
	}
	al, isA := sl.X.(*ssa.Alloc)
	if !isA {
		return nil, false, false
	}
	sigs = map[int64]bool{}
	for _, r := range *al.Referrers() {
		ia, isI := r.(*ssa.IndexAddr)
		if !isI {
			continue
		}
		for _, u := range *ia.Referrers() {
			st, isStore := u.(*ssa.Store)
			if !isStore {
				continue
			}
			switch x := plainValue(st.Val).(type) {
			case *ssa.Const:
				if x.Value == nil || x.Value.Kind() != constant.Int {
					return nil, false, false
				}
				n, _ := constant.Int64Val(x.Value)
				sigs[n] = true
			case *ssa.UnOp:
				g, isG := x.X.(*ssa.Global)
				if !isG || g.Pkg == nil || g.Pkg.Pkg.Path() != "os" {
					return nil, false, false
				}
				switch g.Name() {
				case "Interrupt":
					sigs[2] = true
				case "Kill":
				default:
					return nil, false, false
				}
			default:
				return nil, false, false
			}
		}
	}
	return sigs, false, true
}

// blockedBefore: something the registration has to wait for.
func blockedBefore(fn *ssa.Function, at ssa.Instruction) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if in == at || !before(in, at) {
				continue
			}
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return ssaName(fn) + " turns to the signal only after waiting for something else"
				}
			case *ssa.Select:
				if x.Blocking {
					return ssaName(fn) + " turns to the signal only after waiting for something else"
				}
			case *ssa.Call:
				if f := x.Common().StaticCallee(); f != nil && ssaName(f) == fnServe {
					return ssaName(fn) + " turns to the signal only after serving has ended"
				}
			}
		}
	}
	return ""
}

// before: a is executed on every path that reaches b.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func (s *stopper) find(x interface{}) interface{} {
	for s.parent[x] != nil {
		x = s.parent[x]
	}
	return x
}

func (s *stopper) join(a, b interface{}) {
	if a == nil || b == nil {
		return
	}
	a, b = s.find(a), s.find(b)
	if a != b {
		s.parent[a] = b
	}
}

// cell: what stands for a channel value, or for the variable at an address.
func (s *stopper) cell(v ssa.Value) interface{} {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return s.cell(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.cell(x.X)
		}
	case *ssa.FieldAddr:
		return fieldCell{derefType(x.X.Type()).String(), x.Field}
	case *ssa.Field:
		return fieldCell{x.X.Type().String(), x.Field}
	}
	return v
}

func isChan(t types.Type) bool {
	_, ok := derefType(t).Underlying().(*types.Chan)
	return ok
}

// channels computes the alias classes of all channels and where they are received from.
func (s *stopper) channels() {
	for _, fn := range s.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					if isChan(x.Type()) {
						for _, e := range x.Edges {
							s.join(s.cell(e), s.cell(x))
						}
					}
				case *ssa.Store:
					if isChan(x.Val.Type()) {
						s.join(s.cell(x.Val), s.cell(x.Addr))
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					for i, v := range x.Bindings {
						if isChan(v.Type()) {
							s.join(s.cell(v), s.cell(f.FreeVars[i]))
						}
					}
				case *ssa.Return:
					for i, v := range x.Results {
						if !isChan(v.Type()) {
							continue
						}
						for _, e := range s.g.in[fn] {
							call, ok := e.site.(*ssa.Call)
							if !ok {
								continue
							}
							if len(x.Results) == 1 {
								s.join(s.cell(v), s.cell(call))
								continue
							}
							for _, r := range *call.Referrers() {
								if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
									s.join(s.cell(v), s.cell(ex))
								}
							}
						}
					}
				}
			}
		}
		for _, e := range s.g.out[fn] {
			call, ok := e.site.(ssa.CallInstruction)
			if !ok || e.later {
				continue
			}
			args := call.Common().Args
			params := e.callee.Params
			if call.Common().IsInvoke() && len(params) > 0 {
				params = params[1:]
			}
			if len(args) != len(params) {
				continue
			}
			for i := range args {
				if isChan(args[i].Type()) {
					s.join(s.cell(args[i]), s.cell(params[i]))
				}
			}
		}
	}
	for _, fn := range s.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						k := s.find(s.cell(x.X))
						s.recvs[k] = append(s.recvs[k], recvPoint{fn, in, -1})
					}
				case *ssa.Select:
					for i, st := range x.States {
						if st.Dir == types.RecvOnly {
							k := s.find(s.cell(st.Chan))
							s.recvs[k] = append(s.recvs[k], recvPoint{fn, in, i})
						}
					}
				}
			}
		}
	}
}

// ends: on every path after the instruction (nil: from the function's start) the goal is reached.
func (s *stopper) ends(fn *ssa.Function, after ssa.Instruction, sel int) bool {
	key := stopKey{after, fn, sel, s.server}
	if r, ok := s.memo[key]; ok {
		return r
	}
	if s.busy[key] || fn.Blocks == nil {
		s.explain = "it cannot be followed further than " + ssaName(fn)
		return false
	}
	s.busy[key] = true
	r := s.walk(fn, after, sel)
	s.busy[key] = false
	s.memo[key] = r
	return r
}

func (s *stopper) walk(fn *ssa.Function, after ssa.Instruction, sel int) bool {
	type node struct {
		b *ssa.BasicBlock
	}
	seen := map[*ssa.BasicBlock]bool{}
	exits := map[*ssa.BasicBlock]bool{} // blocks with a goal
	edges := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	type item struct {
		b    *ssa.BasicBlock
		from int
	}
	var work []item
	if after == nil {
		work = []item{{fn.Blocks[0], 0}}
	} else {
		b := after.Block()
		for i, in := range b.Instrs {
			if in == after {
				work = []item{{b, i + 1}}
			}
		}
	}
	s.c.States++
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.from == 0 {
			if seen[it.b] {
				continue
			}
			seen[it.b] = true
		}
		goal := false
		for _, in := range it.b.Instrs[it.from:] {
			if s.goal(in, after) {
				goal = true
				break
			}
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && !timed(x.X) {
					s.explain = "it waits again at " + s.c.P.posOf(in.Pos())
					return false
				}
			case *ssa.Select:
				if x.Blocking && !anyTimed(x) {
					s.explain = "it waits again at " + s.c.P.posOf(in.Pos())
					return false
				}
			case *ssa.Return:
				if !s.returnEnds(fn) {
					return false
				}
				goal = true
			}
			if goal {
				break
			}
		}
		if goal {
			exits[it.b] = true
			continue
		}
		succs := it.b.Succs
		if iff, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
			if v, known := decided(iff.Cond, after, sel); known {
				if v {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, n := range succs {
			edges[it.b] = append(edges[it.b], n)
			work = append(work, item{n, 0})
		}
	}
	// no endless loop without the goal
	reach := map[*ssa.BasicBlock]bool{}
	for b := range exits {
		reach[b] = true
	}
	for ch := true; ch; {
		ch = false
		for b, ns := range edges {
			for _, n := range ns {
				if reach[n] && !reach[b] {
					reach[b] = true
					ch = true
				}
			}
		}
	}
	for b := range seen {
		_, isPanic := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		if !reach[b] && !isPanic {
			s.explain = "it goes on in " + ssaName(fn)
			return false
		}
	}
	return true
}

// decided: branches on the selected case, and on whether there is a server at all.
func decided(cond ssa.Value, after ssa.Instruction, sel int) (bool, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false, false
	}
	if ex, ok := b.X.(*ssa.Extract); ok && sel >= 0 && ex.Index == 0 {
		if in, isIn := ex.Tuple.(ssa.Instruction); isIn && in == after {
			if k, isK := b.Y.(*ssa.Const); isK && k.Value != nil {
				n, _ := constant.Int64Val(constant.ToInt(k.Value))
				return (n == int64(sel)) == (b.Op == token.EQL), true
			}
		}
	}
	for i := 0; i < 2; i++ {
		x, y := b.X, b.Y
		if i == 1 {
			x, y = y, x
		}
		if k, isK := y.(*ssa.Const); isK && k.Value == nil && strings.HasSuffix(x.Type().String(), "grpc.Server") {
			return b.Op == token.NEQ, true
		}
	}
	return false, false
}

func timed(ch ssa.Value) bool {
	call, ok := ch.(*ssa.Call)
	if ok {
		f := call.Common().StaticCallee()
		return f != nil && strings.HasPrefix(ssaName(f), "time.")
	}
	if u, ok := ch.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return strings.HasPrefix(derefType(fa.X.Type()).String(), "time.")
		}
	}
	return false
}

func anyTimed(x *ssa.Select) bool {
	for _, st := range x.States {
		if st.Dir == types.RecvOnly && timed(st.Chan) {
			return true
		}
	}
	return false
}

// returnEnds: what follows the function's return reaches the goal, too.
func (s *stopper) returnEnds(fn *ssa.Function) bool {
	if fn.Name() == "main" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" && fn.Signature.Recv() == nil {
		return true
	}
	if len(s.g.in[fn]) == 0 {
		s.explain = ssaName(fn) + " returns"
		return false
	}
	for _, e := range s.g.in[fn] { // e.callee is the caller
		if e.spawn {
			s.explain = "the goroutine of " + ssaName(fn) + " ends and nothing else does"
			return false
		}
		if st, ok := e.site.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(derefType(fa.X.Type()).String(), "cobra.Command") {
				if !s.afterCommands() {
					return false
				}
				continue
			}
		}
		if _, ok := e.site.(ssa.CallInstruction); !ok {
			s.explain = ssaName(fn) + " returns to an unknown caller"
			return false
		}
		if !s.ends(e.callee, e.site, -1) {
			return false
		}
	}
	return true
}

// afterCommands: the command line's function has returned.
func (s *stopper) afterCommands() bool {
	n := 0
	for _, fn := range s.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if f := call.Common().StaticCallee(); f != nil && strings.Contains(ssaName(f), "cobra.Command).Execute") {
						n++
						if !s.ends(fn, in, -1) {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

// goal: the instruction stops the server or ends the process, now or through what it triggers.
func (s *stopper) goal(in, after ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Panic:
		return true
	case *ssa.Send:
		return s.triggers(x.Chan, nil)
	case *ssa.Select:
		if x.Blocking {
			all := len(x.States) > 0
			for _, st := range x.States {
				all = all && st.Dir == types.SendOnly && s.triggers(st.Chan, nil)
			}
			return all
		}
	case *ssa.RunDefers:
		for _, b := range in.Parent().Blocks {
			for _, d := range b.Instrs {
				if df, ok := d.(*ssa.Defer); ok && before(d, in) && s.stops(df) {
					return true
				}
			}
		}
	case *ssa.Call:
		return s.stops(x)
	case *ssa.Go:
		return s.stops(x)
	}
	return false
}

// triggers: every receiver of what is sent to or closed reaches the goal.
func (s *stopper) triggers(ch ssa.Value, _ ssa.Instruction) bool {
	pts := s.recvs[s.find(s.cell(ch))]
	ok := len(pts) > 0
	for _, p := range pts {
		ok = ok && s.ends(p.fn, p.in, p.sel)
	}
	return ok
}

func (s *stopper) stops(call ssa.CallInstruction) bool {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "close":
			return s.triggers(cc.Args[0], nil)
		case "panic":
			return true
		}
		return false
	}
	if f := cc.StaticCallee(); f != nil {
		n := ssaName(f)
		switch {
		case n == "os.Exit", strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"):
			return true
		case strings.HasPrefix(n, "(*go.uber.org/zap.") && (strings.Contains(n, ").Fatal") || strings.Contains(n, ").Panic")):
			return true
		case n == "(*google.golang.org/grpc.Server).Stop", n == "(*google.golang.org/grpc.Server).GracefulStop":
			return s.server
		case n == "(*sync.Once).Do":
			// its argument is among the callees below
		}
	}
	// every function it may call must do so
	var fns []*ssa.Function
	for _, e := range s.g.out[call.Parent()] {
		if e.site == ssa.Instruction(call) && (!e.later || strings.Contains(calleeText(cc), "sync.Once).Do")) {
			fns = append(fns, e.callee)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return ssaName(fns[i]) < ssaName(fns[j]) })
	for _, f := range fns {
		if !s.always(f) {
			return false
		}
	}
	return len(fns) > 0
}

func calleeText(cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		return ssaName(f)
	}
	return ""
}

// always: every path through the function reaches the goal before it returns.
func (s *stopper) always(fn *ssa.Function) bool {
	key := stopKey{nil, fn, -2, s.server}
	if r, ok := s.memo[key]; ok {
		return r
	}
	if s.busy[key] || fn.Blocks == nil {
		return false
	}
	s.busy[key] = true
	was := s.explain
	r := s.through(fn)
	s.explain = was
	s.busy[key] = false
	s.memo[key] = r
	return r
}

func (s *stopper) through(fn *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	found := false
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		goal := false
		for _, in := range b.Instrs {
			if s.goal(in, nil) {
				goal = true
				break
			}
			switch x := in.(type) {
			case *ssa.Return:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW && !timed(x.X) {
					return false
				}
			case *ssa.Select:
				if x.Blocking && !anyTimed(x) {
					return false
				}
			}
		}
		if goal {
			found = true
			continue
		}
		succs := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, known := decided(iff.Cond, nil, -1); known {
				if v {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		work = append(work, succs...)
	}
	return found
}
