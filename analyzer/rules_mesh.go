package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// C37: the mesh is told to hand the adapter the real request and to apply its answers.

func init() {
	checks["C37"] = c37
	explain["C37"] = "The Helm chart is read with its default values: every part of the request the adapter decides on must be bound to the mesh attribute of that meaning, in a message field that exists; the rule must send every request to the adapter and apply its output; names, addresses, ports, command-line flags, key names and key sizes must agree between the files and with the program."
}

// values of the chart, by dotted path
func (c *Check) helmValues() map[string]string {
	out := map[string]string{}
	var rec func(n *ynode, p string)
	rec = func(n *ynode, p string) {
		if n == nil {
			return
		}
		if n.kind == "map" {
			for k, v := range n.m {
				rec(v, p+"."+k)
			}
			return
		}
		out[".Values"+p] = n.s
	}
	for _, d := range c.P.yaml() {
		if d.err == nil && strings.HasSuffix(d.file, "/values.yaml") {
			rec(d.root, "")
		}
	}
	return out
}

// render replaces {{ .Values.x }} by its default.
func render(s string, vals map[string]string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "{{")
		j := -1
		if i >= 0 {
			j = strings.Index(s[i:], "}}")
		}
		if i < 0 || j < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		e := strings.Trim(strings.TrimSpace(strings.Trim(s[i+2:i+j], "-")), " ")
		for _, f := range []string{"| quote", "|quote"} {
			e = strings.TrimSpace(strings.TrimSuffix(e, f))
		}
		if v, ok := vals[e]; ok {
			b.WriteString(v)
		} else {
			b.WriteString("{{" + e + "}}")
		}
		s = s[i+j+2:]
	}
}

func (c *Check) resource(kind, api string) (out []*ydoc) {
	for _, d := range c.P.yaml() {
		if d.err == nil && d.root.get("kind").str() == kind && strings.HasPrefix(d.root.get("apiVersion").str(), api) {
			out = append(out, d)
		}
	}
	return
}

// one resource of the kind is needed
func (c *Check) theResource(kind, api string) *ydoc {
	ds := c.resource(kind, api)
	if !c.need(len(ds) == 1, "the one "+kind+" of the Helm chart") {
		return nil
	}
	return ds[0]
}

var attributes = []struct {
	path string
	expr []string // acceptable attribute expressions
}{
	{"target.path", []string{"request.url_path"}},
	{"target.method", []string{"request.method"}},
	{"target.service", []string{"destination.service.name"}},
	{"target.namespace", []string{"destination.service.namespace"}},
	{"request.scheme", []string{"request.scheme"}},
	{"request.host", []string{"request.host"}},
	{"request.path", []string{"request.url_path"}},
	{"request.headers.cookies", []string{`request.headers["cookie"]`}},
	{"request.headers.authorization", []string{`request.headers["authorization"]`}},
	{"request.params.code", []string{`request.query_params["code"]`}},
	{"request.params.error", []string{`request.query_params["error"]`}},
	{"request.params.state", []string{`request.query_params["state"]`}},
}

// protoField: the Go type of the field with that protobuf name.
func protoField(t types.Type, name string) types.Type {
	s, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		for _, p := range strings.Split(reflect.StructTag(s.Tag(i)).Get("protobuf"), ",") {
			if p == "name="+name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

func c37(c *Check) {
	c.yamlReadable()
	vals := c.helmValues()
	c.need(vals[".Values.appName"] != "", "the chart's default values")
	name := func(d *ydoc) string { return render(d.root.get("metadata", "name").str(), vals) }
	nspace := func(d *ydoc) string { return render(d.root.get("metadata", "namespace").str(), vals) }
	at := func(d *ydoc, n *ynode) string {
		if n == nil {
			n = d.root
		}
		return d.file + ":" + strconv.Itoa(n.line)
	}
	const istio = "config.istio.io/"
	inst, rule, hand, adap, tmpl := c.theResource("instance", istio), c.theResource("rule", istio), c.theResource("handler", istio), c.theResource("adapter", istio), c.theResource("template", istio)
	svc, dep, sec := c.theResource("Service", "v1"), c.theResource("Deployment", "apps/"), c.theResource("Secret", "v1")
	if inst == nil || rule == nil || hand == nil || adap == nil || tmpl == nil || svc == nil || dep == nil || sec == nil {
		return
	}
	// 1. the request
	msg := c.P.Type("config/template", "InstanceMsg")
	out := c.P.Type("config/template", "OutputMsg")
	if !c.need(msg != nil && out != nil, "the generated messages of the template") {
		return
	}
	params := inst.root.get("spec", "params")
	want := map[string]bool{}
	for _, a := range attributes {
		want[a.path] = true
		ps := strings.Split(a.path, ".")
		n := params.get(ps...)
		if !c.ob("attribute-bound", a.path, at(inst, params), n != nil && n.kind == "scalar", "the adapter is not told %s", a.path) {
			continue
		}
		e := strings.TrimSpace(n.s)
		def := ""
		if i := strings.Index(e, "|"); i >= 0 {
			e, def = strings.TrimSpace(e[:i]), strings.TrimSpace(e[i+1:])
		}
		ok := false
		for _, x := range a.expr {
			ok = ok || strings.ReplaceAll(e, "'", `"`) == x
		}
		c.ob("attribute-bound", a.path, at(inst, n), ok, "%s is bound to %q instead of %s", a.path, n.s, a.expr[0])
		lit := def == "" || len(def) >= 2 && def[0] == '"' && strings.Count(def, `"`) == 2 && strings.HasSuffix(def, `"`)
		c.ob("attribute-default", a.path, at(inst, n), lit, "%s falls back to %q", a.path, def)
		var t types.Type = msg
		for _, p := range ps {
			if t != nil {
				t = protoField(t, p)
			}
		}
		c.ob("message-field", a.path, at(inst, n), t != nil && isString(t), "the message has no text field %s", a.path)
	}
	// 2. the rule
	rs := rule.root.get("spec")
	m := rs.get("match").str()
	c.ob("every-request", "rule", at(rule, rs.get("match")), m == "" || m == "true", "only requests matching %q are sent to the adapter", m)
	act := ""
	for _, a := range rs.get("actions").elems() {
		h := render(a.get("handler").str(), vals)
		if h != name(hand)+"."+nspace(hand) && !(h == name(hand) && nspace(hand) == nspace(rule)) {
			continue
		}
		for _, i := range a.get("instances").strs() {
			i = render(i, vals)
			if i == name(inst) && nspace(inst) == nspace(rule) || i == name(inst)+"."+nspace(inst) {
				act = render(a.get("name").str(), vals)
			}
		}
	}
	c.ob("every-request", "action", at(rule, rs.get("actions")), act != "", "no action of the rule sends the instance %s to the handler %s", name(inst), name(hand))
	for _, h := range []struct{ list, header, field, op string }{
		{"requestHeaderOperations", "Authorization", "authorization", "REPLACE"},
		{"responseHeaderOperations", "Set-Cookie", "sessionCookie", "APPEND"},
	} {
		n := 0
		for _, o := range rs.get(h.list).elems() {
			if !strings.EqualFold(o.get("name").str(), h.header) {
				c.ob("output-applied", h.list+" "+o.get("name").str(), at(rule, o), false, "the rule changes the header %s", o.get("name").str())
				continue
			}
			n++
			vs := o.get("values").strs()
			ok := len(vs) == 1 && vs[0] == act+".output."+h.field && o.get("operation").str() == h.op
			c.ob("output-applied", h.header, at(rule, o), ok, "%s is changed by %s %v instead of %s [%s.output.%s]", h.header, o.get("operation").str(), vs, h.op, act, h.field)
		}
		c.ob("output-applied", h.header+" once", at(rule, rs.get(h.list)), n == 1, "the header %s is set by %d operations", h.header, n)
		t := protoField(out, h.field)
		c.ob("message-field", "output."+h.field, "config/template", t != nil && isString(t), "the output message has no text field %s", h.field)
	}
	// 3. names and addresses
	c.ob("names-agree", "template", at(inst, nil), render(inst.root.get("spec", "template").str(), vals) == name(tmpl) && nspace(tmpl) == nspace(inst), "the instance is of the template %s; the chart defines %s", inst.root.get("spec", "template").str(), name(tmpl))
	has := false
	for _, t := range adap.root.get("spec", "templates").strs() {
		has = has || t == name(tmpl)
	}
	c.ob("names-agree", "adapter template", at(adap, nil), has, "the adapter does not serve the template %s", name(tmpl))
	c.ob("names-agree", "adapter", at(hand, nil), render(hand.root.get("spec", "adapter").str(), vals) == name(adap), "the handler is of the adapter %s; the chart defines %s", hand.root.get("spec", "adapter").str(), name(adap))
	var ports []*ynode
	for _, p := range svc.root.get("spec", "ports").elems() {
		ports = append(ports, p)
	}
	addr := render(hand.root.get("spec", "connection", "address").str(), vals)
	host, port := addr, ""
	if i := strings.LastIndex(addr, ":"); i >= 0 {
		host, port = addr[:i], addr[i+1:]
	}
	c.ob("address", "handler host", at(hand, nil), host == name(svc) || host == name(svc)+"."+nspace(svc) || strings.HasPrefix(host, name(svc)+"."+nspace(svc)+".svc"), "the handler connects to %s; the service is %s", host, name(svc))
	target := ""
	for _, p := range ports {
		if render(p.get("port").str(), vals) == port {
			target = render(p.get("targetPort").str(), vals)
			if target == "" {
				target = port
			}
		}
	}
	c.ob("address", "service port", at(svc, nil), target != "", "the service has no port %s", port)
	tm := dep.root.get("spec", "template")
	for k, v := range svc.root.get("spec", "selector").entries() {
		c.ob("address", "selector "+k, at(svc, nil), render(v, vals) == render(tm.get("metadata", "labels", k).str(), vals), "the service selects %s=%s, which the deployment does not have", k, v)
	}
	cs := tm.get("spec", "containers").elems()
	if !c.need(len(cs) == 1, "the one container of the deployment") {
		return
	}
	// 4. the command line
	flags := c.declaredFlags()
	got := map[string]string{}
	for _, a := range cs[0].get("args").elems() {
		s := render(a.str(), vals)
		k, v := strings.TrimLeft(s, "-"), ""
		if i := strings.Index(k, "="); i >= 0 {
			k, v = k[:i], k[i+1:]
		}
		got[k] = v
		c.ob("flag-exists", k, at(dep, a), flags[k], "the program has no flag --%s", k)
	}
	c.ob("address", "listening port", at(dep, nil), got["port"] == target, "the program listens on %s; the service sends to %s", got["port"], target)
	// 5. the keys
	c.ob("key-secret", "name", at(sec, nil), name(sec) == keySecretName && nspace(sec) == keySecretNs, "the chart creates the secret %s/%s; the program reads %s/%s", nspace(sec), name(sec), keySecretNs, keySecretName)
	for _, k := range []struct {
		entry, flag string
		sizes       []int64
	}{{hashKeyName, keySizes[0].flag, keySizes[0].sizes}, {blockKeyName, keySizes[1].flag, keySizes[1].sizes}} {
		n, arg := sec.root.get("data", k.entry), ""
		if n == nil {
			n = sec.root.get("stringData", k.entry)
		}
		for _, a := range cs[0].get("args").elems() {
			if s := a.str(); strings.HasPrefix(s, "--"+k.flag+"=") {
				arg = strings.TrimSpace(strings.Trim(s[len(k.flag)+3:], "{}"))
			}
		}
		size, err := strconv.ParseInt(vals[arg], 10, 64)
		ok := false
		for _, s := range k.sizes {
			ok = ok || err == nil && s == size
		}
		c.ob("key-size", k.flag, at(dep, nil), ok, "--%s is %s by default, which is not one of %v", k.flag, vals[arg], k.sizes)
		txt := n.str()
		random := strings.Contains(txt, "randAlphaNum") || strings.Contains(txt, "randAscii") || strings.Contains(txt, "randBytes")
		c.ob("key-secret", k.entry, at(sec, n), n != nil && random && arg != "" && strings.Contains(txt, arg), "the chart's %s is %q, not random text of the size %s", k.entry, txt, arg)
	}
	c.atLeast("attribute-bound", 12)
	c.atLeast("message-field", 14)
	c.atLeast("flag-exists", 4)
}

func (n *ynode) elems() []*ynode {
	if n == nil || n.kind != "seq" {
		return nil
	}
	return n.seq
}

func (n *ynode) entries() map[string]string {
	out := map[string]string{}
	if n != nil && n.kind == "map" {
		for k, v := range n.m {
			out[k] = v.str()
		}
	}
	return out
}

// declaredFlags: the long names of the command's flags.
func (c *Check) declaredFlags() map[string]bool {
	out := map[string]bool{}
	fn := c.P.Func("cmd", "getCmd")
	if !c.need(fn != nil, "cmd.getCmd") {
		return out
	}
	isFlag := func(n string) bool { return strings.HasPrefix(n, "(*github.com/spf13/pflag.FlagSet).") }
	r := &Run{P: c.P, Record: isFlag}
	r.OnCall = func(st *St, rec *CallRec) {
		if !isFlag(rec.Name) {
			return
		}
		sig, _ := rec.Instr.Common().Value.Type().Underlying().(*types.Signature)
		off := 0
		if f := rec.Instr.Common().StaticCallee(); f != nil {
			sig = f.Signature
		}
		if sig == nil {
			return
		}
		for i := 0; i < sig.Params().Len() && i+off < len(rec.Args); i++ {
			if sig.Params().At(i).Name() == "name" {
				if s, ok := strOf(rec.Args[i+off]); ok {
					out[s] = true
				}
			}
		}
	}
	c.run(r, fn, nil, nil)
	return out
}
