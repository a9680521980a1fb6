package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: the words of the cluster schema and the values of the code.

func init() {
	checks["C28"] = c28
	explain["C28"] = "The cluster schema's enumerations and field names are read from the Helm chart; the conversion functions are evaluated by constant propagation on every word of the schema and path-sensitively on an arbitrary text; every schema word must have its own value that prints as that word again, every other text must be treated as all methods or as no known policy type; schema fields must be the fields the objects are decoded into; the engine's decisions are checked to have the type their policy declares."
}

// crd finds the resource definition of a kind.
func (c *Check) crd(kind string) (*ydoc, *ynode) {
	for _, d := range c.P.yaml() {
		if d.err != nil || d.root == nil {
			continue
		}
		if d.root.get("kind").str() == "CustomResourceDefinition" && d.root.get("spec", "names", "kind").str() == kind {
			sp := d.root.get("spec", "validation", "openAPIV3Schema", "properties", "spec")
			return d, sp
		}
	}
	return nil, nil
}

var yamlCache []*ydoc

func (p *Prog) yaml() []*ydoc {
	if yamlCache == nil {
		yamlCache = yamlDocs(p.Repo, "helm")
	}
	return yamlCache
}

// enums collects the enumerations of a schema by property path.
func enums(n *ynode, path string, out map[string]*ynode) {
	if n == nil {
		return
	}
	if e := n.get("enum"); e != nil {
		out[path] = e
	}
	if ps := n.get("properties"); ps != nil && ps.kind == "map" {
		for _, k := range ps.keys {
			enums(ps.m[k], path+"."+k, out)
		}
	}
	enums(n.get("items"), path, out)
}

func (c *Check) yamlReadable() {
	n := 0
	for _, d := range c.P.yaml() {
		if d.err != nil {
			c.ob("decidable", d.file, d.file, false, "cannot read the cluster file: %v", d.err)
		} else {
			n++
		}
	}
	c.need(n > 0, "the cluster files of the Helm chart")
}

// consts of a named integer type, in its package.
func constsOf(n *types.Named) map[int64]string {
	out := map[int64]string{}
	if n == nil || n.Obj().Pkg() == nil {
		return out
	}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) {
			if v, ok := constant.Int64Val(k.Val()); ok {
				out[v] = nm
			}
		}
	}
	return out
}

func sortedInts(m map[int64]string) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// fold evaluates fn on one constant argument.
func (c *Check) fold(fn *ssa.Function, arg *Term) *Term {
	if fn == nil || len(fn.Params) != 1 {
		return nil
	}
	var res *Term
	for _, o := range c.run(&Run{}, fn, map[string]*Term{fn.Params[0].Name(): arg}, nil) {
		if len(o.res) != 1 {
			return nil
		}
		v := o.st.constOf(o.res[0])
		if v == nil {
			v = o.res[0]
		}
		if _, ok := intOf(v); !ok {
			if _, ok := strOf(v); !ok {
				return nil
			}
		}
		if res != nil && res != v {
			return nil
		}
		res = v
	}
	return res
}

func constTerm(k int64, t types.Type) *Term { return mkConst(constant.MakeInt64(k), t) }

// vocabulary checks one conversion: parse text -> value, print value -> text.
func (c *Check) vocabulary(what string, parse *ssa.Function, typ *types.Named, words []string, pos string) map[int64]string {
	at := ssaName(parse)
	got := map[int64]string{}
	for _, w := range words {
		v := c.fold(parse, mkStr(w))
		k, ok := int64(0), false
		if v != nil {
			k, ok = intOf(v)
		}
		if !c.ob("word-has-a-value", at+" "+w, pos, ok, "the %s %q of the cluster schema has no definite value", what, w) {
			continue
		}
		other, dup := got[k]
		c.ob("own-value", at+" "+w, pos, !dup, "the %ss %q and %q of the cluster schema are the same value", what, other, w)
		got[k] = w
	}
	return got
}

func c28(c *Check) {
	c.yamlReadable()
	// schemas
	doc, spec := c.crd("Policy")
	if !c.need(spec != nil, "the Policy resource definition of the Helm chart") {
		return
	}
	es := map[string]*ynode{}
	enums(spec, "", es)
	enum := func(path string) []string {
		e := es[path]
		if !c.need(e != nil && len(e.seq) > 0, "the enumeration of "+path+" in "+doc.file) {
			return nil
		}
		return e.strs()
	}
	c.methods(enum(".targets.paths.method"))
	c.policyTypes(enum(".targets.paths.policies.policyType"))
	c.sources(enum(".targets.paths.policies.rules.source"))
	set := func(ws []string) string {
		s := append([]string(nil), ws...)
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	ms := enum(".targets.paths.policies.rules.match")
	c.ob("match-modes", doc.file, doc.file, set(ms) == "ALL ANY NOT", "the cluster schema's match modes are {%s}; the rules are decided for ALL, ANY and NOT (C08)", set(ms))
	// fields
	c.schemaFields(doc, spec, c.P.Type("adapter/pkg/apis/policies/v1", "PolicySpec"), "Policy.spec")
	for _, kind := range []string{"OidcConfig", "JwtConfig"} {
		d, sp := c.crd(kind)
		if !c.need(sp != nil, "the "+kind+" resource definition of the Helm chart") {
			continue
		}
		c.schemaFields(d, sp, c.P.Type("adapter/pkg/apis/policies/v1", kind+"Spec"), kind+".spec")
		if kind == "OidcConfig" {
			e2 := map[string]*ynode{}
			enums(sp, "", e2)
			am := set(e2[".authMethod"].strs())
			c.ob("authentication-methods", d.file, d.file, am == "client_secret_basic client_secret_post", "the cluster schema's client authentication methods are {%s}; the token request is decided for client_secret_basic and client_secret_post (C21)", am)
		}
	}
	c.crdNames()
	c.engineDecisions("C28")
	c.atLeast("word-has-a-value", 8)
	c.atLeast("other-text", 2)
	c.atLeast("type-as-declared", 2)
	c.atLeast("schema-field", 15)
}

// otherText: what parse answers for a text known to be none of the words, and only words it knows for others.
func (c *Check) otherText(what string, parse *ssa.Function, words map[int64]string, allowed func(int64) string) {
	arg := rootParam(parse, 0)
	n := 0
	for _, o := range c.run(&Run{}, parse, nil, nil) {
		if len(o.res) != 1 {
			continue
		}
		pos := c.P.posOf(o.ret.Pos())
		v := o.st.constOf(o.res[0])
		if v == nil {
			v = o.res[0]
		}
		k, ok := intOf(v)
		if !c.ob("definite", ssaName(parse), pos, ok, "a text is turned into an indefinite %s; path: %s", what, o.st.describeFacts()) {
			continue
		}
		if lit := o.st.constOf(arg); lit != nil {
			w, _ := strOf(lit)
			c.ob("exact-word", ssaName(parse)+" "+w, pos, words[k] == w, "the text %q means %s %d, which is %q", w, what, k, words[k])
			continue
		}
		n++
		why := allowed(k)
		c.ob("other-text", ssaName(parse), pos, why == "", "a text that is none of the schema's words is treated as %s %q: %s; path: %s", what, words[k], why, o.st.describeFacts())
	}
	c.ob("other-text", ssaName(parse)+" answered", c.P.posOf(parse.Pos()), n > 0, "no path answers a text that is none of the schema's words")
}

func (c *Check) methods(words []string) {
	parse := c.P.Func("adapter/policy", "NewMethod")
	typ := c.P.Type("adapter/policy", "Method")
	if !c.need(parse != nil && typ != nil && len(words) > 0, "policy.NewMethod and policy.Method") {
		return
	}
	print := c.P.methodOf(typ, "String")
	if !c.need(print != nil, "Method.String") {
		return
	}
	pos := c.P.posOf(parse.Pos())
	got := c.vocabulary("method", parse, typ, words, pos)
	all := int64(-1)
	for k, w := range got {
		if w == "ALL" {
			all = k
		}
	}
	c.ob("all-methods", ssaName(parse), pos, all >= 0, "the cluster schema's word ALL has no value")
	ks := constsOf(typ)
	seen := map[string]int64{}
	for _, k := range sortedInts(ks) {
		s := c.fold(print, constTerm(k, typ))
		w, ok := "", false
		if s != nil {
			w, ok = strOf(s)
		}
		at := ssaName(print) + " " + ks[k]
		if !c.ob("value-has-a-word", at, c.P.posOf(print.Pos()), ok, "the method %s prints as no definite text", ks[k]) {
			continue
		}
		o, dup := seen[w]
		c.ob("own-word", at, c.P.posOf(print.Pos()), !dup, "the methods %s and %s print as the same text %q", ks[o], ks[k], w)
		seen[w] = k
		b := c.fold(parse, mkStr(w))
		bk, ok := int64(0), false
		if b != nil {
			bk, ok = intOf(b)
		}
		c.ob("round-trip", at, c.P.posOf(print.Pos()), ok && bk == k, "the method %s prints as %q, which is read as another method", ks[k], w)
	}
	for k, w := range got {
		c.ob("prints-as-written", ssaName(print)+" "+w, c.P.posOf(print.Pos()), seen[w] == k && hasKey(seen, w), "the method %q of the schema is not printed as %q", w, w)
	}
	words2 := map[int64]string{}
	for w, k := range seen {
		words2[k] = w
	}
	c.otherText("method", parse, words2, func(k int64) string {
		if k == all {
			return ""
		}
		return "it must mean all methods"
	})
}

func hasKey(m map[string]int64, k string) bool { _, ok := m[k]; return ok }

func (c *Check) policyTypes(words []string) {
	parse := c.P.Func("adapter/policy", "NewType")
	typ := c.P.Type("adapter/policy", "Type")
	if !c.need(parse != nil && typ != nil && len(words) > 0, "policy.NewType and policy.Type") {
		return
	}
	pos := c.P.posOf(parse.Pos())
	got := c.vocabulary("policy type", parse, typ, words, pos)
	ks := constsOf(typ)
	want := map[string]string{"jwt": "JWT", "oidc": "OIDC"}
	for k, w := range got {
		c.ob("type-by-name", ssaName(parse)+" "+w, pos, want[w] != "" && ks[k] == want[w], "the policy type %q is read as %s", w, ks[k])
	}
	c.otherText("policy type", parse, got, func(k int64) string {
		if w, ok := got[k]; ok {
			return "it is enforced as " + w
		}
		return ""
	})
	if print := c.P.methodOf(typ, "String"); print != nil {
		seen := map[string]bool{}
		for _, k := range sortedInts(ks) {
			s := c.fold(print, constTerm(k, typ))
			w, ok := "", false
			if s != nil {
				w, ok = strOf(s)
			}
			c.ob("value-has-a-word", ssaName(print)+" "+ks[k], c.P.posOf(print.Pos()), ok && !seen[w], "the policy type %s does not print as a text of its own", ks[k])
			seen[w] = true
			if sw, ok := got[k]; ok {
				c.ob("prints-as-written", ssaName(print)+" "+sw, c.P.posOf(print.Pos()), strings.EqualFold(sw, w), "the policy type %q prints as %q", sw, w)
			}
		}
	}
}

func (c *Check) sources(words []string) {
	typ := c.P.Type("adapter/validator", "Token")
	if !c.need(typ != nil && len(words) > 0, "validator.Token") {
		return
	}
	print := c.P.methodOf(typ, "String")
	if !c.need(print != nil, "Token.String") {
		return
	}
	ks := constsOf(typ)
	want := map[string]string{"Access": "access_token", "ID": "id_token"}
	seen := map[string]bool{}
	for _, k := range sortedInts(ks) {
		s := c.fold(print, constTerm(k, typ))
		w, ok := "", false
		if s != nil {
			w, ok = strOf(s)
		}
		c.ob("source-by-name", ssaName(print)+" "+ks[k], c.P.posOf(print.Pos()), ok && want[ks[k]] == w, "the token %s is known to rules as %q", ks[k], w)
		seen[w] = true
	}
	for _, w := range words {
		c.ob("source-understood", ssaName(print)+" "+w, c.P.posOf(print.Pos()), seen[w], "the source %q of the cluster schema names no token", w)
	}
	c.atLeast("source-by-name", 2)
}

// schemaFields: every property of the schema is a field of the object it is decoded into.
func (c *Check) schemaFields(doc *ydoc, n *ynode, t types.Type, at string) {
	if n == nil || t == nil {
		c.need(false, "the type or schema of "+at)
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	pos := fmt.Sprintf("%s:%d", doc.file, n.line)
	kind := n.get("type").str()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.ob("schema-kind", at, pos, kind == "" || kind == "object", "the schema says %s, the adapter reads an object", kind)
		props := n.get("properties")
		if props == nil {
			return
		}
		byTag := map[string]types.Type{}
		for i := 0; i < u.NumFields(); i++ {
			tag, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if tag != "" && tag != "-" {
				_, dup := byTag[tag]
				c.ob("field-name-unique", at+"."+tag, pos, !dup, "two fields of %s are read from %q", typeName(t), tag)
				byTag[tag] = u.Field(i).Type()
			}
		}
		for _, k := range props.keys {
			ft, ok := byTag[k]
			if c.ob("schema-field", at+"."+k, fmt.Sprintf("%s:%d", doc.file, props.m[k].line), ok, "the field %q of the cluster schema is read into no field of %s", k, typeName(t)) {
				c.schemaFields(doc, props.m[k], ft, at+"."+k)
			}
		}
		for tag := range byTag {
			c.ob("field-in-schema", at+"."+tag, pos, props.m[tag] != nil, "the adapter reads %q, which the cluster schema does not know", tag)
		}
	case *types.Slice:
		c.ob("schema-kind", at, pos, kind == "array", "the schema says %q, the adapter reads a list", kind)
		if it := n.get("items"); it != nil {
			c.schemaFields(doc, it, u.Elem(), at+"[]")
		}
	case *types.Basic:
		want := "string"
		if u.Info()&types.IsNumeric != 0 {
			want = "integer"
		} else if u.Info()&types.IsBoolean != 0 {
			want = "boolean"
		}
		c.ob("schema-kind", at, pos, kind == want, "the schema says %q, the adapter reads a %s", kind, want)
	}
}

// crdNames: the definitions' group, version and plural are those the clients ask for.
func (c *Check) crdNames() {
	group := ""
	if sp := c.P.Pkgs["adapter/pkg/apis/policies"]; sp != nil {
		if k, ok := sp.Types.Scope().Lookup("GroupName").(*types.Const); ok {
			group = constant.StringVal(k.Val())
		}
	}
	if !c.need(group != "", "the group name of the cluster resources") {
		return
	}
	for _, kind := range []string{"Policy", "OidcConfig", "JwtConfig"} {
		d, _ := c.crd(kind)
		if d == nil {
			c.need(false, "the "+kind+" resource definition")
			continue
		}
		sp := d.root.get("spec")
		plural := sp.get("names", "plural").str()
		c.ob("resource-group", kind, d.file, sp.get("group").str() == group, "the %s resource is defined in group %q, the adapter reads group %q", kind, sp.get("group").str(), group)
		v1 := sp.get("version").str() == "v1"
		if vs := sp.get("versions"); vs != nil {
			for _, v := range vs.seq {
				v1 = v1 || v.get("name").str() == "v1" && v.get("served").str() != "false"
			}
		}
		c.ob("resource-version", kind, d.file, v1, "the %s resource does not serve version v1, which the adapter reads", kind)
		c.ob("resource-name", kind, d.file, d.root.get("metadata", "name").str() == plural+"."+group, "the definition of %s is named %q", kind, d.root.get("metadata", "name").str())
		c.ob("resource-plural", kind, d.file, c.P.asksFor(plural), "the adapter's client asks for no resource %q", plural)
	}
}

// asksFor: the generated client uses this plural.
func (p *Prog) asksFor(plural string) bool {
	sp := p.SPkgs["adapter/pkg/client/clientset/versioned/typed/policies/v1"]
	if sp == nil {
		return false
	}
	found := false
	look := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if g := cc.StaticCallee(); g != nil && g.Name() == "Resource" && len(cc.Args) == 2 {
						if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == plural {
							found = true
						}
					}
				}
			}
		}
	}
	for _, m := range sp.Members {
		if t, ok := m.(*ssa.Type); ok {
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := p.SSA.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					if fn := p.SSA.MethodValue(ms.At(i)); fn != nil {
						look(fn)
					}
				}
			}
		}
	}
	return found
}
