package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A reader for the plain YAML of the cluster files: block and flow mappings and sequences of scalars.
// Template expressions stay part of the scalars they occur in; lines that are only a template directive
// are skipped.

type ynode struct {
	kind string // map, seq, scalar
	keys []string
	m    map[string]*ynode
	seq  []*ynode
	s    string
	line int
}

type yline struct {
	indent int
	text   string
	no     int
}

func (n *ynode) get(path ...string) *ynode {
	for _, p := range path {
		if n == nil || n.kind != "map" {
			return nil
		}
		n = n.m[p]
	}
	return n
}

func (n *ynode) str() string {
	if n == nil || n.kind != "scalar" {
		return ""
	}
	return n.s
}

func (n *ynode) strs() []string {
	var out []string
	if n != nil {
		for _, x := range n.seq {
			out = append(out, x.str())
		}
	}
	return out
}

func yamlLines(text string) [][]yline {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	text = strings.ReplaceAll(text, "\r", "\n")
	docs := [][]yline{nil}
	for i, l := range strings.Split(text, "\n") {
		l = strings.ReplaceAll(l, "\t", "    ")
		t := strings.TrimSpace(l)
		if t == "---" || strings.HasPrefix(t, "--- ") {
			docs = append(docs, nil)
			continue
		}
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if strings.HasPrefix(t, "{{") && strings.HasSuffix(t, "}}") && !strings.Contains(t, "}}:") {
			continue
		}
		t = stripComment(t)
		if t == "" {
			continue
		}
		docs[len(docs)-1] = append(docs[len(docs)-1], yline{len(l) - len(strings.TrimLeft(l, " ")), t, i + 1})
	}
	return docs
}

func stripComment(t string) string {
	q := byte(0)
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch {
		case q != 0:
			if c == q {
				q = 0
			}
		case (c == '\'' || c == '"') && (i == 0 || strings.IndexByte(" [{,:", t[i-1]) >= 0):
			q = c
		case c == '#' && i > 0 && t[i-1] == ' ':
			return strings.TrimSpace(t[:i])
		}
	}
	return strings.TrimSpace(t)
}

type yparser struct {
	ls  []yline
	i   int
	err error
}

func (p *yparser) fail(no int, what string) {
	if p.err == nil {
		p.err = fmt.Errorf("line %d: %s", no, what)
	}
}

// splitKey cuts "key: value"; ok is false when the text is no mapping entry.
func splitKey(t string) (k, v string, ok bool) {
	if strings.HasPrefix(t, "\"") || strings.HasPrefix(t, "'") {
		e := strings.IndexByte(t[1:], t[0])
		if e < 0 {
			return "", "", false
		}
		k, t = t[1:1+e], t[e+2:]
		t = strings.TrimLeft(t, " ")
		if !strings.HasPrefix(t, ":") {
			return "", "", false
		}
		return k, strings.TrimSpace(t[1:]), true
	}
	depth := 0
	for i := 0; i < len(t); i++ {
		switch {
		case strings.HasPrefix(t[i:], "{{"):
			depth++
		case strings.HasPrefix(t[i:], "}}"):
			depth--
		case t[i] == ':' && depth <= 0 && (i+1 == len(t) || t[i+1] == ' '):
			return strings.TrimSpace(t[:i]), strings.TrimSpace(t[i+1:]), true
		}
	}
	return "", "", false
}

func (p *yparser) block(indent int) *ynode {
	if p.i >= len(p.ls) {
		return nil
	}
	first := p.ls[p.i]
	if strings.HasPrefix(first.text, "- ") || first.text == "-" {
		n := &ynode{kind: "seq", line: first.no}
		for p.i < len(p.ls) && p.err == nil {
			l := p.ls[p.i]
			if l.indent != first.indent || !(strings.HasPrefix(l.text, "- ") || l.text == "-") {
				if l.indent > first.indent {
					p.fail(l.no, "unexpected indentation")
				}
				break
			}
			rest := strings.TrimLeft(strings.TrimPrefix(l.text, "-"), " ")
			if rest == "" {
				p.i++
				if p.i < len(p.ls) && p.ls[p.i].indent > l.indent {
					n.seq = append(n.seq, p.block(p.ls[p.i].indent))
				} else {
					n.seq = append(n.seq, &ynode{kind: "scalar", line: l.no})
				}
				continue
			}
			if _, _, ok := splitKey(rest); ok && !strings.HasPrefix(rest, "{") {
				off := l.indent + strings.Index(l.text, rest)
				if !strings.HasPrefix(l.text, "- ") {
					off = l.indent + 1
				}
				p.ls[p.i] = yline{off, rest, l.no}
				n.seq = append(n.seq, p.block(off))
				continue
			}
			p.i++
			n.seq = append(n.seq, p.scalar(rest, l, l.indent))
		}
		return n
	}
	n := &ynode{kind: "map", m: map[string]*ynode{}, line: first.no}
	for p.i < len(p.ls) && p.err == nil {
		l := p.ls[p.i]
		if l.indent != first.indent {
			if l.indent > first.indent {
				p.fail(l.no, "unexpected indentation")
			}
			break
		}
		k, v, ok := splitKey(l.text)
		if !ok {
			if strings.HasPrefix(l.text, "-") {
				break
			}
			p.fail(l.no, "not a mapping entry: "+l.text)
			break
		}
		p.i++
		var x *ynode
		switch {
		case v == "":
			if p.i < len(p.ls) && (p.ls[p.i].indent > l.indent || p.ls[p.i].indent == l.indent && (strings.HasPrefix(p.ls[p.i].text, "- ") || p.ls[p.i].text == "-")) {
				x = p.block(p.ls[p.i].indent)
			} else {
				x = &ynode{kind: "scalar", line: l.no}
			}
		default:
			x = p.scalar(v, l, l.indent)
		}
		if _, dup := n.m[k]; dup {
			p.fail(l.no, "duplicate key "+k)
		}
		n.m[k] = x
		n.keys = append(n.keys, k)
	}
	return n
}

func (p *yparser) scalar(v string, l yline, indent int) *ynode {
	if strings.HasPrefix(v, "|") || strings.HasPrefix(v, ">") {
		var b []string
		for p.i < len(p.ls) && p.ls[p.i].indent > indent {
			b = append(b, p.ls[p.i].text)
			p.i++
		}
		return &ynode{kind: "scalar", s: strings.Join(b, "\n"), line: l.no}
	}
	if (strings.HasPrefix(v, "[") || strings.HasPrefix(v, "{")) && !strings.HasPrefix(v, "{{") {
		n, rest := p.flow(v, l.no)
		if strings.TrimSpace(rest) != "" {
			p.fail(l.no, "unexpected text after flow collection")
		}
		return n
	}
	// continuation lines of a plain scalar
	for p.i < len(p.ls) && p.ls[p.i].indent > indent {
		v += " " + p.ls[p.i].text
		p.i++
	}
	return &ynode{kind: "scalar", s: unquoteY(v), line: l.no}
}

func unquoteY(v string) string {
	v = strings.TrimSpace(v)
	if len(v) >= 2 && (v[0] == '\'' || v[0] == '"') && v[len(v)-1] == v[0] {
		return strings.ReplaceAll(v[1:len(v)-1], "''", "'")
	}
	return v
}

func (p *yparser) flow(v string, no int) (*ynode, string) {
	v = strings.TrimLeft(v, " ")
	switch {
	case strings.HasPrefix(v, "[") || strings.HasPrefix(v, "{") && !strings.HasPrefix(v, "{{"):
		isMap := v[0] == '{'
		end := byte(']')
		n := &ynode{kind: "seq", line: no}
		if isMap {
			end = '}'
			n = &ynode{kind: "map", m: map[string]*ynode{}, line: no}
		}
		v = strings.TrimLeft(v[1:], " ")
		for {
			if v == "" {
				p.fail(no, "unterminated flow collection")
				return n, ""
			}
			if v[0] == end {
				return n, v[1:]
			}
			if isMap {
				i := strings.Index(v, ":")
				if i < 0 {
					p.fail(no, "bad flow mapping")
					return n, ""
				}
				k := unquoteY(v[:i])
				x, rest := p.flow(v[i+1:], no)
				n.m[k], v = x, strings.TrimLeft(rest, " ")
				n.keys = append(n.keys, k)
			} else {
				x, rest := p.flow(v, no)
				n.seq, v = append(n.seq, x), strings.TrimLeft(rest, " ")
			}
			if strings.HasPrefix(v, ",") {
				v = strings.TrimLeft(v[1:], " ")
			}
		}
	case v != "" && (v[0] == '\'' || v[0] == '"'):
		e := strings.IndexByte(v[1:], v[0])
		if e < 0 {
			p.fail(no, "unterminated string")
			return &ynode{kind: "scalar"}, ""
		}
		return &ynode{kind: "scalar", s: v[1 : 1+e], line: no}, v[e+2:]
	}
	depth := 0
	for i := 0; i < len(v); i++ {
		if strings.HasPrefix(v[i:], "{{") {
			depth++
		} else if strings.HasPrefix(v[i:], "}}") && depth > 0 {
			depth--
			i++
		} else if depth == 0 && strings.IndexByte(",]}", v[i]) >= 0 {
			return &ynode{kind: "scalar", s: strings.TrimSpace(v[:i]), line: no}, v[i:]
		}
	}
	return &ynode{kind: "scalar", s: strings.TrimSpace(v), line: no}, ""
}

type ydoc struct {
	file string // relative to the repository
	root *ynode
	err  error
}

// yamlDocs reads every YAML document under dir.
func yamlDocs(repo, dir string) []*ydoc {
	var files []string
	_ = filepath.Walk(filepath.Join(repo, dir), func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && (strings.HasSuffix(path, ".yaml") || strings.HasSuffix(path, ".yml")) {
			files = append(files, path)
		}
		return nil
	})
	sort.Strings(files)
	var out []*ydoc
	for _, f := range files {
		b, err := os.ReadFile(f)
		rel, _ := filepath.Rel(repo, f)
		if err != nil {
			out = append(out, &ydoc{file: rel, err: err})
			continue
		}
		for _, ls := range yamlLines(string(b)) {
			if len(ls) == 0 {
				continue
			}
			p := &yparser{ls: ls}
			n := p.block(0)
			if p.err == nil && p.i < len(p.ls) {
				p.fail(p.ls[p.i].no, "unexpected "+p.ls[p.i].text)
			}
			out = append(out, &ydoc{file: rel, root: n, err: p.err})
		}
	}
	return out
}
