package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A call graph of the handwritten code: static calls, interface calls resolved to the module's own
// types, calls of function values resolved by signature, and functions handed to library code.

type callEdge struct {
	site   ssa.Instruction
	callee *ssa.Function
	spawn  bool // go statement
	later  bool // handed over as a value: called by someone else
}

type callGraph struct {
	out map[*ssa.Function][]callEdge
	in  map[*ssa.Function][]callEdge // callee -> sites
	p   *Prog
}

func (p *Prog) callGraph() *callGraph {
	if p.cg != nil {
		return p.cg
	}
	g := &callGraph{out: map[*ssa.Function][]callEdge{}, in: map[*ssa.Function][]callEdge{}, p: p}
	// concrete handwritten types
	var concrete []types.Type
	for path, pk := range p.Pkgs {
		if generated(path) {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() && !types.IsInterface(tn.Type()) {
				concrete = append(concrete, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	implCache := map[types.Type]map[string][]*ssa.Function{}
	resolve := func(it types.Type, m string) []*ssa.Function {
		i, ok := it.Underlying().(*types.Interface)
		if !ok || i.Empty() {
			return nil
		}
		if r, ok := implCache[it][m]; ok {
			return r
		}
		var out []*ssa.Function
		seen := map[*ssa.Function]bool{}
		for _, t := range concrete {
			if types.Implements(t, i) {
				if f := p.methodOf(t, m); f != nil && !seen[f] && p.handwritten(f) {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
		if implCache[it] == nil {
			implCache[it] = map[string][]*ssa.Function{}
		}
		implCache[it][m] = out
		return out
	}
	// functions used as values
	var values []*ssa.Function
	isVal := map[*ssa.Function]bool{}
	target := func(v ssa.Value) *ssa.Function {
		switch x := v.(type) {
		case *ssa.Function:
			return unthunk(p, x)
		case *ssa.MakeClosure:
			if f, ok := x.Fn.(*ssa.Function); ok {
				return unthunk(p, f)
			}
		}
		return nil
	}
	type use struct {
		fn *ssa.Function
		in ssa.Instruction
		f  *ssa.Function
	}
	var uses []use
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				call, isCall := in.(ssa.CallInstruction)
				for _, o := range in.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					f := target(*o)
					if f == nil || !p.handwritten(f) {
						continue
					}
					if isCall && *o == call.Common().Value {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					if !isVal[f] {
						isVal[f] = true
						values = append(values, f)
					}
					uses = append(uses, use{fn, in, f})
				}
			}
		}
	}
	add := func(fn *ssa.Function, e callEdge) {
		g.out[fn] = append(g.out[fn], e)
		r := e
		r.callee = fn
		g.in[e.callee] = append(g.in[e.callee], r)
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				_, spawn := in.(*ssa.Go)
				c := call.Common()
				switch {
				case c.IsInvoke():
					for _, f := range resolve(c.Value.Type(), c.Method.Name()) {
						add(fn, callEdge{in, f, spawn, false})
					}
				case target(c.Value) != nil:
					if f := target(c.Value); p.handwritten(f) {
						add(fn, callEdge{in, f, spawn, false})
					}
				default:
					if _, ok := c.Value.(*ssa.Builtin); ok {
						break
					}
					sig, _ := c.Value.Type().Underlying().(*types.Signature)
					for _, f := range values {
						if sig != nil && sameSig(sig, f) {
							add(fn, callEdge{in, f, spawn, false})
						}
					}
				}
			}
		}
	}
	for _, u := range uses {
		// handed to code outside the handwritten part: assume it is called there
		if call, ok := u.in.(ssa.CallInstruction); ok {
			sc := call.Common().StaticCallee()
			if sc != nil && p.handwritten(sc) {
				continue // the callee's own dynamic call is resolved
			}
			_, spawn := u.in.(*ssa.Go)
			add(u.fn, callEdge{u.in, u.f, spawn, true})
			continue
		}
		add(u.fn, callEdge{u.in, u.f, false, true})
	}
	p.cg = g
	return g
}

// unthunk resolves bound methods and method expressions.
func unthunk(p *Prog, f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") || strings.HasPrefix(f.Synthetic, "wrapper") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						return unthunk(p, g)
					}
				}
			}
		}
	}
	return f
}

func sameSig(sig *types.Signature, f *ssa.Function) bool {
	s := f.Signature
	if sig.Results().Len() != s.Results().Len() || sig.Params().Len() != s.Params().Len() {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if !types.Identical(s.Params().At(i).Type(), sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		if !types.Identical(s.Results().At(i).Type(), sig.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// reaching lists the functions from which a function satisfying leaf can be reached.
func (g *callGraph) reaching(leaf func(*ssa.Function) bool, skip func(callEdge) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range g.p.Fns {
		if leaf(fn) {
			out[fn] = true
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range g.in[f] {
			if (skip == nil || !skip(e)) && !out[e.callee] {
				out[e.callee] = true
				work = append(work, e.callee)
			}
		}
	}
	return out
}

// reachable lists the functions reachable from the given ones.
func (g *callGraph) reachable(from ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), from...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || out[f] {
			continue
		}
		out[f] = true
		for _, e := range g.out[f] {
			work = append(work, e.callee)
		}
	}
	return out
}

// callers lists the handwritten functions that call fn directly.
func (g *callGraph) callers(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, e := range g.in[fn] {
		if !e.later && !seen[e.callee] && e.callee != fn {
			seen[e.callee] = true
			out = append(out, e.callee)
		}
	}
	return out
}
