package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A taint analysis: flow-insensitive, field- and context-sensitive (calls are followed with their own
// frames), over abstract objects. Labels start at typed sources (fields, library results) and follow
// assignments, calls, containers and library conversions; sinks read the labels of everything
// reachable from a value.

type labs [2]uint64

func (a labs) or(b labs) labs  { return labs{a[0] | b[0], a[1] | b[1]} }
func (a labs) and(b labs) labs { return labs{a[0] & b[0], a[1] & b[1]} }
func (a labs) zero() bool      { return a[0] == 0 && a[1] == 0 }

type tloc struct {
	obj  int
	path string
}

type tfn struct {
	fn    *ssa.Function
	binds []*tv
	key   string
}

// tv is an abstract value.
type tv struct {
	lab  labs
	load labs // labels obtained by loading through this address
	locs map[tloc]bool
	fns  map[string]*tfn
	tup  []*tv
}

func (v *tv) add(o *tv) bool {
	if o == nil || v == o {
		return false
	}
	ch := false
	if n := v.lab.or(o.lab); n != v.lab {
		v.lab, ch = n, true
	}
	if n := v.load.or(o.load); n != v.load {
		v.load, ch = n, true
	}
	for l := range o.locs {
		if !v.locs[l] {
			if v.locs == nil {
				v.locs = map[tloc]bool{}
			}
			v.locs[l] = true
			ch = true
		}
	}
	for k, f := range o.fns {
		if v.fns[k] == nil {
			if v.fns == nil {
				v.fns = map[string]*tfn{}
			}
			v.fns[k] = f
			ch = true
		}
	}
	for i, t := range o.tup {
		for len(v.tup) <= i {
			v.tup = append(v.tup, &tv{})
			ch = true
		}
		if v.tup[i].add(t) {
			ch = true
		}
	}
	return ch
}

type tframe struct {
	fn   *ssa.Function
	env  map[ssa.Value]*tv
	args []*tv
	free []*tv
	ret  *tv
	path string
	up   *tframe
	deep int
	pass int
}

type tsink struct {
	kind string // log, panic, response, request
	fn   *ssa.Function
	pos  token.Pos
	lab  labs
	url  labs
	arg  string
}

type trequest struct {
	obj int
	url *tv
	fn  *ssa.Function
	pos token.Pos
}

type taint struct {
	p       *Prog
	edges   map[ssa.Instruction][]*ssa.Function
	objIDs  map[string]int
	objs    []string
	otype   []types.Type
	heap    map[tloc]*tv
	byObj   map[int][]tloc
	frames  map[string]*tframe
	names   []string
	bits    map[string]int
	src     map[string]string // type.field -> label
	changed bool
	pass    int
	steps   int
	over    bool
	sinks   map[string]*tsink
	reqs    map[int]*trequest
	keys    labs // labels of session cache keys
	visited map[*ssa.Function]bool
	roots   []string
	nCalls  int
	rndSite map[string]bool
	logs    int
	deepMem map[string]labs
}

const taintStepLimit = 6000000

func (t *taint) label(n string) labs {
	i, ok := t.bits[n]
	if !ok {
		i = len(t.names)
		if i > 126 {
			i, n = 127, "(more random values)"
		} else {
			t.names = append(t.names, n)
		}
		t.bits[n] = i
	}
	var l labs
	l[i/64] |= 1 << uint(i%64)
	return l
}

func (t *taint) labelNames(l labs) []string {
	var out []string
	for n, i := range t.bits {
		if l[i/64]&(1<<uint(i%64)) != 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func (t *taint) obj(id string, typ types.Type) int {
	if i, ok := t.objIDs[id]; ok {
		return i
	}
	i := len(t.objs)
	t.objIDs[id] = i
	t.objs = append(t.objs, id)
	t.otype = append(t.otype, typ)
	return i
}

func (t *taint) at(l tloc) *tv {
	v := t.heap[l]
	if v == nil {
		v = &tv{}
		t.heap[l] = v
		t.byObj[l.obj] = append(t.byObj[l.obj], l)
	}
	return v
}

func (t *taint) put(l tloc, v *tv) {
	before := t.at(l).lab
	if t.at(l).add(v) {
		t.changed = true
		t.debug(before, t.at(l).lab, "heap "+t.objs[l.obj]+l.path)
	}
}

func fieldByTag(st *types.Struct, tag string) string {
	for i := 0; i < st.NumFields(); i++ {
		v := reflect.StructTag(st.Tag(i)).Get("json")
		if n, _, _ := strings.Cut(v, ","); n == tag {
			return st.Field(i).Name()
		}
	}
	return ""
}

func (p *Prog) taintAnalysis() *taint {
	if p.ta != nil {
		return p.ta
	}
	t := &taint{p: p, edges: map[ssa.Instruction][]*ssa.Function{}, objIDs: map[string]int{}, heap: map[tloc]*tv{}, byObj: map[int][]tloc{}, frames: map[string]*tframe{},
		bits: map[string]int{}, src: map[string]string{}, sinks: map[string]*tsink{}, reqs: map[int]*trequest{}, visited: map[*ssa.Function]bool{}, rndSite: map[string]bool{}}
	p.ta = t
	for _, es := range p.callGraph().out {
		for _, e := range es {
			if !e.later {
				t.edges[e.site] = append(t.edges[e.site], e.callee)
			}
		}
	}
	t.sources()
	type root struct {
		fn   *ssa.Function
		name string
	}
	var roots []root
	for _, ty := range p.Impls("config/template", "HandleAuthnZServiceServer") {
		if fn := p.methodOf(ty, "HandleAuthnZ"); fn != nil && p.handwritten(fn) {
			roots = append(roots, root{fn, "request"})
		}
	}
	if sp := p.SPkgs["cmd"]; sp != nil {
		if m := sp.Func("main"); m != nil {
			roots = append(roots, root{m, "start"})
		}
	}
	for _, sp := range p.SPkgs {
		if f := sp.Func("init"); f != nil && p.handwritten(f) {
			roots = append(roots, root{f, "init"})
		}
	}
	run := func() {
		for i := 0; i < 40 && !t.over; i++ {
			t.changed = false
			t.pass++
			for _, r := range roots {
				fr := t.frame("root:"+r.fn.String(), r.fn, nil)
				t.function(fr)
				if r.name == "request" {
					t.returned(fr)
				}
			}
			if !t.changed {
				return
			}
		}
		t.over = true
		println("OVER passes", t.steps)
	}
	run()
	// functions nothing reached are operations of their own
	for _, fn := range p.Fns {
		if !t.visited[fn] && fn.Parent() == nil && fn.Name() != "init" {
			roots = append(roots, root{fn, "unused"})
		}
	}
	if !t.over {
		run()
	}
	for _, r := range roots {
		if r.name != "init" {
			t.roots = append(t.roots, ssaName(r.fn))
		}
	}
	return t
}

// sources names the fields that hold sensitive values.
func (t *taint) sources() {
	p := t.p
	add := func(pkg, typ, field, label string) {
		if n := p.Type(pkg, typ); n != nil {
			if st, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == field {
						t.src[typeName(n)+"."+field] = label
					}
				}
			}
		}
	}
	add("config/template", "HeadersMsg", "Authorization", "Authorization header")
	add("config/template", "HeadersMsg", "Cookies", "Cookie header")
	add("config/template", "QueryParamsMsg", "Code", "authorization code")
	// by the message's own structure
	if n := p.Type("config/template", "RequestMsg"); n != nil {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if pt, ok := f.Type().(*types.Pointer); ok {
					if nn, ok := pt.Elem().(*types.Named); ok {
						k := typeName(nn)
						switch f.Name() {
						case "Headers":
							t.src[k+".Authorization"], t.src[k+".Cookies"] = "Authorization header", "Cookie header"
						case "Params":
							t.src[k+".Code"] = "authorization code"
						}
					}
				}
			}
		}
	}
	tags := map[string]string{"access_token": "access token", "id_token": "ID token", "refresh_token": "refresh token",
		"clientSecret": "client secret", "client_secret": "client secret",
		"authorization_endpoint": "endpoint authorization", "token_endpoint": "endpoint token", "jwks_uri": "endpoint keys", "userinfo_endpoint": "endpoint user-info"}
	for path, pk := range p.Pkgs {
		if path == "tests" || strings.HasPrefix(path, "tests/") {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for tag, l := range tags {
				if f := fieldByTag(st, tag); f != "" {
					t.src[typeName(tn.Type())+"."+f] = l
				}
			}
		}
	}
	t.src["k8s.io/api/core/v1.Secret.Data"] = "cluster secret"
	t.src["k8s.io/api/core/v1.Secret.StringData"] = "cluster secret"
	t.src["github.com/dgrijalva/jwt-go/v4.Token.Raw"] = "access token"
	t.src["github.com/dgrijalva/jwt-go/v4.Token.Signature"] = "access token"
}

func (t *taint) srcLabel(st types.Type, field string) labs {
	if l, ok := t.src[typeName(st)+"."+field]; ok {
		return t.label(l)
	}
	return labs{}
}

func (t *taint) frame(key string, fn *ssa.Function, up *tframe) *tframe {
	fr := t.frames[key]
	if fr == nil {
		fr = &tframe{fn: fn, env: map[ssa.Value]*tv{}, ret: &tv{}, path: pathOf(key), up: up}
		for range fn.Params {
			fr.args = append(fr.args, &tv{})
		}
		for range fn.FreeVars {
			fr.free = append(fr.free, &tv{})
		}
		if up != nil {
			fr.deep = up.deep + 1
		}
		t.frames[key] = fr
		t.changed = true
	}
	return fr
}

func (t *taint) set(fr *tframe, v ssa.Value, x *tv) {
	o := fr.env[v]
	if o == nil {
		o = &tv{}
		fr.env[v] = o
	}
	before := o.lab
	if o.add(x) {
		t.changed = true
		t.debug(before, o.lab, fr.fn.String()+" "+v.Name()+" = "+v.String())
	}
}

func (t *taint) debug(before, after labs, what string) {
	if d := os.Getenv("TAINT_DEBUG"); d != "" {
		m := t.mask(d)
		if before.and(m).zero() && !after.and(m).zero() {
			fmt.Println("TAINT", what)
		}
	}
}

func (t *taint) val(fr *tframe, v ssa.Value) *tv {
	switch x := v.(type) {
	case nil:
		return &tv{}
	case *ssa.Const, *ssa.Builtin:
		return &tv{}
	case *ssa.Global:
		o := t.obj("G:"+x.String(), derefT(x.Type()))
		return &tv{locs: map[tloc]bool{{o, ""}: true}}
	case *ssa.Function:
		return &tv{fns: map[string]*tfn{x.String(): {fn: x, key: x.String()}}}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return fr.free[i]
			}
		}
	}
	if o := fr.env[v]; o != nil {
		return o
	}
	return &tv{}
}

// targets are the objects a pointer-like value may denote; unknown ones are summarised by type.
func (t *taint) targets(v *tv, typ types.Type) map[tloc]bool {
	if len(v.locs) > 0 {
		return v.locs
	}
	el := derefT(typ)
	if el == typ {
		return nil
	}
	return map[tloc]bool{{t.obj("T:"+typeName(el), el), ""}: true}
}

func (t *taint) loadLoc(l tloc, typ types.Type) *tv {
	r := &tv{}
	found := false
	if v := t.heap[l]; v != nil {
		r.add(v)
		found = len(v.locs) > 0 || len(v.fns) > 0
	}
	for _, k := range t.byObj[l.obj] {
		if n := len(k.path) - 1; n >= 0 && k.path[n] == '*' && strings.HasPrefix(l.path, k.path[:n]) {
			r.add(&tv{lab: t.heap[k].lab})
		}
	}
	if _, ok := typ.Underlying().(*types.Struct); ok {
		r.add(&tv{locs: map[tloc]bool{l: true}})
		return r
	}
	if !found && len(l.path) < 80 {
		switch u := typ.Underlying().(type) {
		case *types.Pointer:
			if inModuleType(u.Elem()) {
				r.add(&tv{locs: map[tloc]bool{{t.obj("T:"+typeName(u.Elem()), u.Elem()), ""}: true}})
			} else {
				r.add(&tv{locs: map[tloc]bool{{l.obj, into(l.path)}: true}})
			}
		case *types.Map, *types.Slice:
			r.add(&tv{locs: map[tloc]bool{{l.obj, into(l.path)}: true}})
		case *types.Interface:
			r.add(&tv{locs: map[tloc]bool{{l.obj, into(l.path)}: true}})
		}
	}
	return r
}

// into is the path of what is found behind a path; a step repeated over and over is one step.
func into(path string) string {
	step := path[strings.LastIndexByte(path, '^')+1:] + "^"
	if strings.HasSuffix(path, step+step+step[:len(step)-1]) {
		return path[:len(path)-len(step)+1]
	}
	return path + "^"
}

func (t *taint) loadAll(v *tv, typ types.Type, elem string, styp types.Type) *tv {
	r := &tv{lab: v.load}
	for l := range t.targets(v, typ) {
		r.add(t.loadLoc(tloc{l.obj, l.path + elem}, styp))
	}
	r.lab = r.lab.or(v.lab.and(t.contentMask(v)))
	return r
}

// contentMask: labels on a container or pointer value itself cover its content.
func (t *taint) contentMask(v *tv) labs { return labs{^uint64(0), ^uint64(0)} }

func (t *taint) store(dst tloc, v *tv, typ types.Type) {
	if _, ok := typ.Underlying().(*types.Struct); ok {
		for s := range v.locs {
			if s == dst {
				continue
			}
			t.copyTree(s, dst)
		}
		if !v.lab.zero() {
			t.put(tloc{dst.obj, dst.path}, &tv{lab: v.lab})
			t.put(tloc{dst.obj, "*"}, &tv{lab: v.lab})
		}
		return
	}
	t.put(dst, v)
}

func (t *taint) copyTree(s, d tloc) {
	for _, l := range append([]tloc(nil), t.byObj[s.obj]...) {
		if l.path == "*" {
			t.put(tloc{d.obj, "*"}, &tv{lab: t.heap[l].lab})
			continue
		}
		if strings.HasPrefix(l.path, s.path) && len(d.path)+len(l.path)-len(s.path) < 100 {
			t.put(tloc{d.obj, d.path + l.path[len(s.path):]}, t.heap[l])
		}
	}
	if ty := t.otype[s.obj]; ty != nil && s.path == "" {
		if st, ok := ty.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if l := t.srcLabel(ty, st.Field(i).Name()); !l.zero() {
					t.put(tloc{d.obj, d.path + "." + st.Field(i).Name()}, &tv{lab: l})
				}
			}
		}
	}
}

// deep is the union of the labels of everything reachable from a value.
func (t *taint) deep(v *tv, typ types.Type) labs {
	r := v.lab
	seen := map[tloc]bool{}
	var work []tloc
	push := func(x *tv) {
		for l := range x.locs {
			if !seen[l] {
				seen[l] = true
				work = append(work, l)
			}
		}
	}
	push(v)
	for _, x := range v.tup {
		r = r.or(t.deep(x, nil))
	}
	if len(v.locs) == 0 && typ != nil {
		r = r.or(t.typeLabels(typ, map[string]bool{}, 0))
	}
	for len(work) > 0 {
		l := work[len(work)-1]
		work = work[:len(work)-1]
		ty := t.otype[l.obj]
		if ty != nil && l.path == "" {
			r = r.or(t.typeLabels(ty, map[string]bool{}, 0))
		}
		for _, k := range t.byObj[l.obj] {
			if k.path == "*" || strings.HasPrefix(k.path, l.path) {
				h := t.heap[k]
				r = r.or(h.lab)
				push(h)
				if strings.HasSuffix(k.path, "*") {
					continue
				}
			}
		}
	}
	return r
}

func (t *taint) typeLabels(ty types.Type, seen map[string]bool, depth int) labs {
	var r labs
	k := typeName(ty)
	if seen[k] || depth > 4 {
		return r
	}
	seen[k] = true
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return t.typeLabels(u.Elem(), seen, depth)
	case *types.Slice:
		return t.typeLabels(u.Elem(), seen, depth)
	case *types.Map:
		return t.typeLabels(u.Elem(), seen, depth)
	case *types.Struct:
		if n, ok := ty.(*types.Named); ok && n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg().Path()) && !strings.Contains(k, ".Secret") && !strings.HasSuffix(k, "jwt-go/v4.Token") {
			return r
		}
		for i := 0; i < u.NumFields(); i++ {
			r = r.or(t.srcLabel(ty, u.Field(i).Name()))
			r = r.or(t.typeLabels(u.Field(i).Type(), seen, depth+1))
		}
	}
	return r
}

func (t *taint) function(fr *tframe) {
	if fr.pass == t.pass && fr.deep > 0 {
		// reached again in this pass through another site of the same frame: no need to repeat
		return
	}
	fr.pass = t.pass
	t.visited[fr.fn] = true
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			t.steps++
			if t.steps > taintStepLimit {
				t.over = true
				return
			}
			t.instr(fr, in)
		}
	}
}

func fldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (t *taint) instr(fr *tframe, in ssa.Instruction) {
	site := ""
	if v, ok := in.(ssa.Value); ok {
		site = fr.path + "/" + v.Name()
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t.set(fr, x, &tv{locs: map[tloc]bool{{t.obj("A:"+site, derefT(x.Type())), ""}: true}})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		t.set(fr, in.(ssa.Value), &tv{locs: map[tloc]bool{{t.obj("A:"+site, nil), ""}: true}})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		k := f.String() + "@" + site
		o := t.val(fr, x)
		var c *tfn
		if o != nil && o.fns[k] != nil {
			c = o.fns[k]
		} else {
			c = &tfn{fn: f, key: k}
			for range x.Bindings {
				c.binds = append(c.binds, &tv{})
			}
		}
		for i, b := range x.Bindings {
			if c.binds[i].add(t.val(fr, b)) {
				t.changed = true
			}
		}
		t.set(fr, x, &tv{fns: map[string]*tfn{k: c}})
	case *ssa.MakeInterface:
		v := t.val(fr, x.X)
		if len(v.locs) == 0 {
			r := &tv{}
			r.add(v)
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && inModuleType(pt.Elem()) {
				r.add(&tv{locs: t.targets(v, x.X.Type())})
			} else {
				r.lab = r.lab.or(t.typeLabels(x.X.Type(), map[string]bool{}, 0))
			}
			v = r
		}
		t.set(fr, x, v)
	case *ssa.ChangeType:
		t.set(fr, x, t.val(fr, x.X))
	case *ssa.ChangeInterface:
		t.set(fr, x, t.val(fr, x.X))
	case *ssa.Convert:
		v := t.val(fr, x.X)
		r := &tv{lab: v.lab}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			r.lab = r.lab.or(t.deep(v, nil))
		} else {
			r.add(v)
		}
		t.set(fr, x, r)
	case *ssa.Slice:
		t.set(fr, x, t.val(fr, x.X))
	case *ssa.TypeAssert:
		v := t.val(fr, x.X)
		if x.CommaOk {
			v = &tv{tup: []*tv{v, {}}}
		}
		t.set(fr, x, v)
	case *ssa.Extract:
		v := t.val(fr, x.Tuple)
		if x.Index < len(v.tup) {
			t.set(fr, x, v.tup[x.Index])
		} else {
			t.set(fr, x, &tv{lab: v.lab})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.set(fr, x, t.val(fr, e))
		}
	case *ssa.FieldAddr:
		b := t.val(fr, x.X)
		st := derefT(x.X.Type())
		f := fldName(st, x.Field)
		r := &tv{load: b.load.or(t.srcLabel(st, f)).or(b.lab)}
		for l := range t.targets(b, x.X.Type()) {
			r.add(&tv{locs: map[tloc]bool{{l.obj, l.path + "." + f}: true}})
		}
		t.set(fr, x, r)
	case *ssa.Field:
		b := t.val(fr, x.X)
		f := fldName(x.X.Type(), x.Field)
		r := &tv{lab: b.lab.or(t.srcLabel(x.X.Type(), f))}
		for l := range b.locs {
			r.add(t.loadLoc(tloc{l.obj, l.path + "." + f}, x.Type()))
		}
		t.set(fr, x, r)
	case *ssa.IndexAddr:
		b := t.val(fr, x.X)
		r := &tv{load: b.load.or(b.lab)}
		for l := range b.locs {
			r.add(&tv{locs: map[tloc]bool{{l.obj, l.path + "[]"}: true}})
		}
		if len(b.locs) == 0 {
			r.add(&tv{locs: map[tloc]bool{{t.obj("A:"+site, nil), "[]"}: true}})
		}
		t.set(fr, x, r)
	case *ssa.Index:
		b := t.val(fr, x.X)
		r := t.loadAll(b, x.X.Type(), "[]", x.Type())
		r.lab = r.lab.or(t.val(fr, x.Index).lab)
		t.set(fr, x, r)
	case *ssa.UnOp:
		v := t.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			r := t.loadAll(v, x.X.Type(), "", x.Type())
			t.set(fr, x, r)
		case token.ARROW:
			t.set(fr, x, t.loadAll(v, x.X.Type(), "[]", x.Type()))
		case token.NOT:
		default:
			t.set(fr, x, &tv{lab: v.lab})
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			t.set(fr, x, &tv{lab: t.val(fr, x.X).lab.or(t.val(fr, x.Y).lab)})
		}
	case *ssa.Store:
		a, v := t.val(fr, x.Addr), t.val(fr, x.Val)
		for l := range t.targets(a, x.Addr.Type()) {
			t.store(l, v, x.Val.Type())
		}
		t.stored(fr, v)
	case *ssa.MapUpdate:
		m, k, v := t.val(fr, x.Map), t.val(fr, x.Key), t.val(fr, x.Value)
		for l := range m.locs {
			t.store(tloc{l.obj, l.path + "[]"}, v, x.Value.Type())
			t.put(tloc{l.obj, l.path + "[k]"}, &tv{lab: k.lab})
		}
	case *ssa.Lookup:
		m := t.val(fr, x.X)
		var r *tv
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			r = t.loadAll(m, x.X.Type(), "[]", mt.Elem())
		} else { // string
			r = &tv{lab: m.lab.or(t.val(fr, x.Index).lab)}
		}
		if x.CommaOk {
			r = &tv{tup: []*tv{r, {}}}
		}
		t.set(fr, x, r)
	case *ssa.Range:
		t.set(fr, x, t.val(fr, x.X))
	case *ssa.Next:
		m := t.val(fr, x.Iter)
		r := &tv{tup: []*tv{{}, {}, {}}}
		if rg, ok := x.Iter.(*ssa.Range); ok {
			if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
				r.tup[1] = t.loadAll(m, rg.X.Type(), "[k]", mt.Key())
				r.tup[2] = t.loadAll(m, rg.X.Type(), "[]", mt.Elem())
			} else {
				r.tup[2] = &tv{lab: m.lab}
			}
		}
		t.set(fr, x, r)
	case *ssa.Send:
		c := t.val(fr, x.Chan)
		for l := range c.locs {
			t.put(tloc{l.obj, l.path + "[]"}, t.val(fr, x.X))
		}
	case *ssa.Return:
		r := &tv{}
		switch len(x.Results) {
		case 0:
		case 1:
			r = t.val(fr, x.Results[0])
		default:
			for _, v := range x.Results {
				r.tup = append(r.tup, t.val(fr, v))
			}
		}
		if fr.ret.add(r) {
			t.changed = true
		}
	case *ssa.Panic:
		t.sink("panic", fr, x.Pos(), "panic", t.deep(t.val(fr, x.X), x.X.Type()), labs{})
	case ssa.CallInstruction:
		r := t.call(fr, x)
		if v, ok := in.(ssa.Value); ok && r != nil {
			t.set(fr, v, r)
		}
	}
}

// stored: functions put into memory may be called by anyone.
func (t *taint) stored(fr *tframe, v *tv) {
	for _, f := range v.fns {
		t.invoke(fr, "stored", f, nil)
	}
}

func (t *taint) sink(kind string, fr *tframe, pos token.Pos, arg string, l, url labs) {
	k := fmt.Sprintf("%s|%s|%d|%s", kind, fr.fn, pos, arg)
	s := t.sinks[k]
	if s == nil {
		s = &tsink{kind: kind, fn: fr.fn, pos: pos, arg: arg}
		t.sinks[k] = s
	}
	s.lab = s.lab.or(l)
	s.url = s.url.or(url)
}

func (t *taint) returned(fr *tframe) {
	for i, x := range fr.ret.tup {
		ty := fr.fn.Signature.Results().At(i).Type()
		t.sink("response", fr, fr.fn.Pos(), fmt.Sprintf("result %d", i), t.deep(x, ty), labs{})
	}
}

func (t *taint) invoke(fr *tframe, site string, f *tfn, args []*tv) *tv {
	fn := f.fn
	binds := f.binds
	if strings.HasSuffix(fn.Name(), "$bound") && len(binds) == 1 {
		args = append([]*tv{binds[0]}, args...)
		binds = nil
		fn = unthunk(t.p, fn)
	} else if g := unthunk(t.p, fn); g != fn {
		fn = g
	}
	if !t.p.handwritten(fn) || len(fn.Blocks) == 0 {
		return nil
	}
	depth := 0
	for u := fr; u != nil; u = u.up {
		if u.fn == fn {
			depth++
		}
	}
	if depth >= 2 || fr.deep > 50 {
		r := &tv{}
		for _, a := range args {
			r.lab = r.lab.or(a.lab)
		}
		return r
	}
	n := t.frame(fr.path+"/"+site+"/"+fn.String(), fn, fr)
	for i, a := range args {
		if i < len(n.args) && n.args[i].add(a) {
			t.changed = true
		}
	}
	for i, b := range binds {
		if i < len(n.free) && n.free[i].add(b) {
			t.changed = true
		}
	}
	t.function(n)
	return n.ret
}

func isLogging(name string) (level string, ok bool) {
	for _, p := range []string{"(*go.uber.org/zap.Logger).", "(*go.uber.org/zap.SugaredLogger)."} {
		if strings.HasPrefix(name, p) {
			return name[len(p):], true
		}
	}
	for _, p := range []string{"log.", "(*log.Logger).", "github.com/golang/glog.", "k8s.io/klog.", "istio.io/pkg/log.", "istio.io/istio/pkg/log."} {
		if strings.HasPrefix(name, p) {
			return name[len(p):], true
		}
	}
	if strings.HasPrefix(name, "fmt.Print") {
		return "Print", true
	}
	return "", false
}

func (t *taint) call(fr *tframe, c ssa.CallInstruction) *tv {
	cc := c.Common()
	t.nCalls++
	site := fmt.Sprintf("%d", instrIndex(c))
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return t.builtin(fr, c, b.Name(), site)
	}
	var args []*tv
	var argT []types.Type
	fv := t.val(fr, cc.Value)
	if cc.IsInvoke() {
		args = append(args, fv)
		argT = append(argT, cc.Value.Type())
	}
	for _, x := range cc.Args {
		args = append(args, t.val(fr, x))
		argT = append(argT, x.Type())
	}
	name := ""
	if sc := cc.StaticCallee(); sc != nil {
		name = ssaName(sc)
	} else if cc.IsInvoke() {
		name = funcName(cc.Method)
	}
	// handwritten callees
	r := &tv{}
	done := false
	if !cc.IsInvoke() {
		for _, k := range sortedFns(fv.fns) {
			if t.p.handwritten(unthunk(t.p, fv.fns[k].fn)) {
				if x := t.invoke(fr, site, fv.fns[k], args); x != nil {
					r.add(x)
				}
				done = true
			}
		}
	}
	if !done && (cc.IsInvoke() || cc.StaticCallee() == nil) {
		es := t.edges[c]
		var known []*ssa.Function
		if cc.IsInvoke() {
			for _, f := range es {
				for l := range fv.locs {
					if ty := t.otype[l.obj]; ty != nil && l.path == "" && len(f.Params) > 0 && types.Identical(derefT(f.Params[0].Type()), ty) {
						known = append(known, f)
						break
					}
				}
			}
		}
		if len(known) > 0 {
			es = known
		}
		for _, f := range es {
			ar := append([]*tv(nil), args...)
			if cc.IsInvoke() && len(f.Params) > 0 {
				rt := derefT(f.Params[0].Type())
				rv := &tv{lab: fv.lab}
				for l := range fv.locs {
					if ty := t.otype[l.obj]; ty != nil && l.path == "" && types.Identical(ty, rt) {
						rv.add(&tv{locs: map[tloc]bool{l: true}})
					}
				}
				if len(rv.locs) == 0 {
					rv.locs = map[tloc]bool{{t.obj("T:"+typeName(rt), rt), ""}: true}
				}
				ar[0] = rv
			}
			if x := t.invoke(fr, site, &tfn{fn: f, key: f.String()}, ar); x != nil {
				r.add(x)
			}
			done = true
		}
	}
	if done {
		return r
	}
	return t.library(fr, c, name, args, argT, site)
}

func sortedFns(m map[string]*tfn) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (t *taint) builtin(fr *tframe, c ssa.CallInstruction, name, site string) *tv {
	cc := c.Common()
	switch name {
	case "append":
		a := t.val(fr, cc.Args[0])
		o := t.obj("A:"+fr.path+"/app"+site, nil)
		r := &tv{lab: a.lab, locs: map[tloc]bool{{o, ""}: true}}
		st, _ := cc.Args[0].Type().Underlying().(*types.Slice)
		for l := range a.locs {
			if l.obj != o {
				t.copyTree(tloc{l.obj, l.path + "[]"}, tloc{o, "[]"})
			}
			r.add(&tv{locs: map[tloc]bool{l: true}})
		}
		if len(cc.Args) > 1 {
			b := t.val(fr, cc.Args[1])
			r.lab = r.lab.or(b.lab)
			for l := range b.locs {
				for d := range r.locs {
					if l == d {
						continue
					}
					if st != nil {
						t.put(tloc{d.obj, d.path + "[]"}, t.loadLoc(tloc{l.obj, l.path + "[]"}, st.Elem()))
					}
					t.copyTree(tloc{l.obj, l.path + "[]"}, tloc{d.obj, d.path + "[]"})
				}
			}
		}
		return r
	case "copy":
		a, b := t.val(fr, cc.Args[0]), t.val(fr, cc.Args[1])
		l := t.deep(b, nil)
		for d := range a.locs {
			t.put(tloc{d.obj, d.path + "[]"}, &tv{lab: l})
		}
	case "print", "println":
		for i, x := range cc.Args {
			t.sink("log", fr, c.Pos(), fmt.Sprintf("%s argument %d", name, i), t.deep(t.val(fr, x), x.Type()), labs{})
		}
	case "min", "max":
		r := &tv{}
		for _, x := range cc.Args {
			r.add(t.val(fr, x))
		}
		return r
	}
	return &tv{}
}

var cleanLib = []string{
	"(*net/http.Client).", "net/http.Get", "net/http.Post", "(net/http.RoundTripper)",
	"crypto/sha", "crypto/md5", "crypto/hmac.Equal", "crypto/subtle", "(hash.Hash)", "hash/",
	"time.", "(time.", "k8s.io/client-go/tools/cache.", "(k8s.io/", "(*k8s.io/", "google.golang.org/grpc", "(*google.golang.org/grpc",
	"(*sync.Mutex)", "(*sync.RWMutex)", "os/signal", "net.Listen",
	"unicode/utf8.",
}

func (t *taint) library(fr *tframe, c ssa.CallInstruction, name string, args []*tv, argT []types.Type, site string) *tv {
	cc := c.Common()
	full := fr.path + "/" + site
	// function arguments are called by the library, which passes on their errors
	errT := types.Universe.Lookup("error").Type()
	var failures labs
	for i, a := range args {
		for _, k := range sortedFns(a.fns) {
			ret := t.invoke(fr, fmt.Sprintf("%s#%d", site, i), a.fns[k], nil)
			rs := a.fns[k].fn.Signature.Results()
			for j := 0; ret != nil && j < rs.Len(); j++ {
				if !types.Identical(rs.At(j).Type(), errT) {
					continue
				}
				x := ret
				if rs.Len() > 1 {
					if j >= len(ret.tup) {
						continue
					}
					x = ret.tup[j]
				}
				failures = failures.or(t.deep(x, nil))
			}
		}
	}
	// logging
	if lv, ok := isLogging(name); ok {
		switch {
		case strings.HasPrefix(lv, "Debug"), lv == "Sync", lv == "Core", lv == "Named", lv == "Desugar", lv == "Sugar", lv == "WithOptions", lv == "Check" && isDebugCheck(cc):
		case lv == "With", lv == "Check":
			// carried by the logger it returns
			var l labs
			for i, a := range args {
				l = l.or(t.deep(a, argT[i]))
			}
			o := t.obj("L:"+full, nil)
			return &tv{lab: l, locs: map[tloc]bool{{o, ""}: true}}
		default:
			t.logs++
			for i, a := range args {
				t.sink("log", fr, c.Pos(), fmt.Sprintf("argument %d", i), t.deep(a, argT[i]), labs{})
			}
		}
		var l labs
		if len(args) > 0 {
			l = args[0].lab
		}
		return &tv{lab: l}
	}
	if strings.HasPrefix(name, "(*go.uber.org/zap/zapcore.CheckedEntry).Write") {
		for i, a := range args {
			t.sink("log", fr, c.Pos(), fmt.Sprintf("argument %d", i), t.deep(a, argT[i]), labs{})
		}
		return &tv{}
	}
	if strings.HasPrefix(name, "fmt.Fprint") && len(args) > 0 {
		if u, ok := stripIface(cc.Args[0]).(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
				for i, a := range args[1:] {
					t.sink("log", fr, c.Pos(), fmt.Sprintf("argument %d", i+1), t.deep(a, argT[i+1]), labs{})
				}
			}
		}
	}
	res := cc.Signature().Results()
	mk := func(l labs) *tv {
		var out []*tv
		for i := 0; i < res.Len(); i++ {
			v := t.libValue(name, res.At(i).Type(), l, full, i, args, argT)
			if types.Identical(res.At(i).Type(), errT) && !failures.zero() {
				v = &tv{lab: v.lab.or(failures), locs: v.locs, fns: v.fns}
			}
			out = append(out, v)
		}
		switch len(out) {
		case 0:
			return &tv{}
		case 1:
			return out[0]
		}
		return &tv{tup: out}
	}
	switch {
	case strings.HasPrefix(name, "(*sync.Map)."):
		m := args[0]
		switch name {
		case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
			t.keys = t.keys.or(t.deep(args[1], nil))
			for l := range t.targets(m, argT[0]) {
				t.put(tloc{l.obj, l.path + "[]"}, args[2])
			}
		}
		r := &tv{}
		for l := range t.targets(m, argT[0]) {
			if v := t.heap[tloc{l.obj, l.path + "[]"}]; v != nil {
				r.add(v)
			}
		}
		switch name {
		case "(*sync.Map).Range":
			for _, k := range sortedFns(args[1].fns) {
				t.invoke(fr, site+"#range", args[1].fns[k], []*tv{{lab: t.label("Cookie header")}, r})
			}
			return &tv{}
		}
		return &tv{tup: []*tv{r, {}}}
	case strings.HasSuffix(name, "singleflight.Group).Do"):
		r := &tv{}
		for _, k := range sortedFns(args[2].fns) {
			if x := t.invoke(fr, site+"#do", args[2].fns[k], nil); x != nil {
				r.add(x)
			}
		}
		for len(r.tup) < res.Len() {
			r.tup = append(r.tup, &tv{})
		}
		return r
	case name == "net/http.NewRequest", name == "net/http.NewRequestWithContext":
		off := 0
		if strings.HasSuffix(name, "Context") {
			off = 1
		}
		r := mk(labs{})
		o := t.obj("L:"+full+"#0", derefT(res.At(0).Type()))
		u := t.obj("L:"+full+"#url", nil)
		t.put(tloc{o, ".URL"}, &tv{locs: map[tloc]bool{{u, ""}: true}})
		t.put(tloc{u, "*"}, &tv{lab: t.deep(args[1+off], nil)})
		t.put(tloc{o, ".URL*"}, &tv{lab: t.deep(args[1+off], nil)})
		t.put(tloc{o, ".Body*"}, &tv{lab: t.deep(args[2+off], nil)})
		if t.reqs[o] == nil {
			t.reqs[o] = &trequest{obj: o, url: &tv{}, fn: fr.fn, pos: c.Pos()}
		}
		t.reqs[o].url.add(args[1+off])
		t.reqs[o].url.add(&tv{locs: map[tloc]bool{{u, ""}: true}})
		return r
	case name == "(*net/http.Client).Do": // its error quotes the address
		r := mk(labs{})
		q := &tv{}
		for d := range args[1].locs {
			if v := t.heap[tloc{d.obj, d.path + ".URL"}]; v != nil {
				q.add(v)
			}
		}
		if len(r.tup) == 2 {
			r.tup[1].add(&tv{lab: t.deep(q, nil)})
		}
		return r
	case name == "(*net/http.Client).PostForm", name == "net/http.PostForm", name == "(*net/http.Client).Post", name == "net/http.Post", name == "(*net/http.Client).Get", name == "net/http.Get":
		off := 0
		if cc.Signature().Recv() != nil {
			off = 1
		}
		var l labs
		for i := off; i < len(args); i++ {
			l = l.or(t.deep(args[i], nil))
		}
		o := t.obj("L:"+full+"#req", nil)
		t.put(tloc{o, "*"}, &tv{lab: l})
		if t.reqs[o] == nil {
			t.reqs[o] = &trequest{obj: o, url: &tv{}, fn: fr.fn, pos: c.Pos()}
		}
		t.reqs[o].url.add(args[off])
		r := mk(labs{})
		if len(r.tup) == 2 { // its error quotes the address
			r.tup[1].add(&tv{lab: t.deep(args[off], nil)})
		}
		return r
	}
	if p := name; strings.Contains(p, "rand.") || strings.Contains(p, "bson.NewObjectId") || strings.Contains(p, "uuid.") || strings.HasSuffix(p, "GenerateRandomKey") {
		n := "random value " + full
		if strings.HasSuffix(p, "GenerateRandomKey") {
			n = "cookie key"
		} else {
			t.rndSite[n] = true
		}
		l := t.label(n)
		for i, a := range args {
			if _, ok := argT[i].Underlying().(*types.Slice); ok {
				for d := range a.locs {
					t.put(tloc{d.obj, d.path + "[]"}, &tv{lab: l})
				}
			}
		}
		return mk(l)
	}
	for _, p := range cleanLib {
		if strings.HasPrefix(name, p) {
			return mk(labs{})
		}
	}
	if strings.Contains(name, "dgrijalva/jwt-go") {
		return mk(labs{})
	}
	if name == "(*net/http.Request).SetBasicAuth" || name == "(*net/http.Request).AddCookie" {
		for d := range args[0].locs {
			for _, a := range args[1:] {
				t.put(tloc{d.obj, d.path + ".Header*"}, &tv{lab: t.deep(a, nil)})
			}
		}
		return &tv{}
	}
	var l labs
	for i, a := range args {
		l = l.or(t.deep(a, nil))
		_ = i
	}
	if strings.HasSuffix(name, ").Encode") && (strings.Contains(name, "securecookie") || cc.IsInvoke()) {
		l = t.label("cookie value") // encrypted: what goes in stays hidden, what comes out is a cookie
	}
	if strings.HasSuffix(name, "securecookie.New") {
		return mk(labs{})
	}
	// library code that writes into what it is given
	base := name[strings.LastIndex(name, ".")+1:]
	writesArgs := false
	for _, w := range []string{"Decode", "Unmarshal", "Read", "Scan", "Copy", "Fprint", "SetCookie"} {
		writesArgs = writesArgs || strings.HasPrefix(base, w)
	}
	hasRecv := cc.IsInvoke() || cc.Signature().Recv() != nil
	for i, a := range args {
		recv := hasRecv && i == 0
		if !(recv || writesArgs) {
			continue
		}
		if recv && (strings.HasPrefix(name, "(*math/big.") || strings.HasPrefix(name, "(encoding/base64") || strings.HasPrefix(name, "(*encoding/base64") || len(args) == 1) {
			continue
		}
		if recv && (strings.HasPrefix(base, "Decode") || strings.HasPrefix(base, "Read") || strings.HasPrefix(base, "Scan")) {
			continue // what it fills does not flow back into the reader
		}
		switch argT[i].Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
		default:
			continue
		}
		var m labs
		for j, b := range args {
			if j != i {
				m = m.or(t.deep(b, nil))
			}
		}
		if m.zero() {
			continue
		}
		for d := range a.locs {
			if strings.HasPrefix(t.objs[d.obj], "G:") {
				continue
			}
			t.put(tloc{d.obj, d.path + "*"}, &tv{lab: m})
			if d.path == "" {
				t.put(tloc{d.obj, "*"}, &tv{lab: m})
			} else {
				t.put(d, &tv{lab: m})
				t.put(tloc{d.obj, d.path + "[]"}, &tv{lab: m})
			}
		}
	}
	return mk(l)
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func isDebugCheck(cc *ssa.CallCommon) bool {
	if len(cc.Args) > 1 {
		if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil {
			return strings.HasPrefix(k.Value.String(), "-")
		}
	}
	return false
}

func (t *taint) libValue(name string, ty types.Type, l labs, full string, i int, args []*tv, argT []types.Type) *tv {
	if types.Identical(ty, types.Universe.Lookup("error").Type()) {
		carries := false
		for _, p := range []string{"fmt.", "errors.", "strconv.", "net/url.", "github.com/pkg/errors."} {
			carries = carries || strings.HasPrefix(name, p)
		}
		if !carries {
			return &tv{}
		}
		r := &tv{lab: l}
		return r
	}
	if b, ok := ty.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return &tv{}
		}
		if b.Info()&types.IsNumeric != 0 {
			for _, a := range argT {
				if s, ok := a.Underlying().(*types.Basic); ok && s.Info()&types.IsString != 0 {
					return &tv{}
				}
			}
		}
		return &tv{lab: l}
	}
	r := &tv{lab: l}
	same := false
	for j, a := range argT {
		if types.Identical(a, ty) {
			r.add(&tv{locs: args[j].locs})
			same = same || len(args[j].locs) > 0
		}
	}
	if !same {
		o := t.obj(fmt.Sprintf("L:%s#%d", full, i), derefT(ty))
		r.add(&tv{locs: map[tloc]bool{{o, ""}: true}})
		if !l.zero() {
			t.put(tloc{o, "*"}, &tv{lab: l})
		}
	}
	return r
}
