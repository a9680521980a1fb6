package main

import (
	"go/types"
	"strings"
)

// Bounds of lengths and positions, from facts and from what library functions promise.

// lenOf is the length of a value in this state.
func (s *St) lenOf(x *Term) *Term {
	if x.kind == KAlloc {
		if l, ok := s.heap[internX(KFieldAddr, "len", nil, nil, x)]; ok {
			return l
		}
	}
	if x.typ != nil {
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			if n, ok := arrayLen(p.Elem()); ok {
				return mkInt(n)
			}
		}
	}
	if x.kind == KSlice && len(x.op) == 3 {
		base := x.args[0]
		var lo, hi *Term
		i := 1
		if x.op[0] == '1' {
			lo = x.args[i]
			i++
		}
		if x.op[1] == '1' {
			hi = x.args[i]
		}
		if hi == nil {
			hi = s.lenOf(base)
		}
		if lo == nil {
			return hi
		}
		if a, ok := intOf(lo); ok {
			return mkBin(tokenADD, hi, mkInt(-a), types.Typ[types.Int])
		}
	}
	if x.kind == KPure && x.op == "append" && len(x.args) == 2 && x.typ != nil && isSlice(x.typ) {
		return mkBin(tokenADD, s.lenOf(x.args[0]), s.lenOf(x.args[1]), types.Typ[types.Int])
	}
	return mkLen(x)
}

// position: t is what a search in s for sub returned.
func searched(t *Term) (in *Term, width int64, ok bool) {
	if t.kind != KPure || len(t.args) != 2 {
		return nil, 0, false
	}
	switch t.op {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		if w, ok := strOf(t.args[1]); ok {
			return t.args[0], int64(len(w)), true
		}
		return t.args[0], 0, true
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndexAny", "strings.IndexFunc":
		return t.args[0], 1, true
	}
	return nil, 0, false
}

// lin is a linear combination of values.
type lin struct {
	c map[*Term]int64
	k int64
}

func (l *lin) add(o lin, f int64) {
	for t, n := range o.c {
		l.c[t] += n * f
		if l.c[t] == 0 {
			delete(l.c, t)
		}
	}
	l.k += o.k * f
}

func (s *St) linOf(t *Term) lin {
	out := lin{c: map[*Term]int64{}}
	if n, ok := intOf(t); ok {
		out.k = n
		return out
	}
	switch {
	case t.kind == KBin && len(t.args) == 2 && (t.op == "+" || t.op == "-"):
		out.add(s.linOf(t.args[0]), 1)
		if t.op == "+" {
			out.add(s.linOf(t.args[1]), 1)
		} else {
			out.add(s.linOf(t.args[1]), -1)
		}
		return out
	case t.kind == KBin && t.op == "*" && len(t.args) == 2:
		for i, a := range t.args {
			if n, ok := intOf(a); ok {
				out.add(s.linOf(t.args[1-i]), n)
				return out
			}
		}
	case t.kind == KPure && t.op == "len" && len(t.args) == 1 && t.args[0].kind == KSlice:
		x := t.args[0]
		var lo, hi *Term
		i := 1
		if x.op[0] == '1' {
			lo = x.args[i]
			i++
		}
		if x.op[1] == '1' {
			hi = x.args[i]
		}
		if hi == nil {
			hi = s.lenOf(x.args[0])
		}
		out.add(s.linOf(hi), 1)
		if lo != nil {
			out.add(s.linOf(lo), -1)
		}
		return out
	}
	if t.kind == KConv && len(t.args) == 1 && isInteger(t.typ) && isInteger(t.args[0].typ) {
		if l, h, _ := s.intRangeX(t.args[0]); l != nil && h != nil && *l >= 0 && *h <= 127 {
			return s.linOf(t.args[0])
		}
	}
	out.c[t] = 1
	return out
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *St) less(a, b *Term) bool { return s.atLeast(b, a, 1) }

// leq: a <= b is known.
func (s *St) leq(a, b *Term) bool { return s.atLeast(b, a, 0) }

// atLeast: b - a >= n is known.
func (s *St) atLeast(b, a *Term, n int64) bool {
	d := lin{c: map[*Term]int64{}}
	d.add(s.linOf(b), 1)
	d.add(s.linOf(a), -1)
	d.k -= n
	if s.nonNegative(d) {
		return true
	}
	// known inequalities: combinations e >= 0
	var known []lin
	for f, v := range s.facts {
		if f.kind != KBin || len(f.args) != 2 {
			continue
		}
		e := lin{c: map[*Term]int64{}}
		switch {
		case f.op == "<" && (isInteger(f.args[0].typ) || isInteger(f.args[1].typ)):
			if v {
				e.add(s.linOf(f.args[1]), 1)
				e.add(s.linOf(f.args[0]), -1)
				e.k--
			} else {
				e.add(s.linOf(f.args[0]), 1)
				e.add(s.linOf(f.args[1]), -1)
			}
			known = append(known, e)
		case f.op == "==" && v && isInteger(f.args[0].typ):
			e.add(s.linOf(f.args[0]), 1)
			e.add(s.linOf(f.args[1]), -1)
			g := lin{c: map[*Term]int64{}}
			g.add(e, -1)
			known = append(known, e, g)
		}
	}
	for t := range s.mentionedIn(d, known) {
		// a search that found something ends within the text
		if in, w, ok := searched(t); ok {
			if l, _, _ := s.intRangeX(t); l != nil && *l >= 0 {
				e := lin{c: map[*Term]int64{}}
				e.add(s.linOf(mkLen(in)), 1)
				e.c[t]--
				e.k -= w
				known = append(known, e)
			}
		}
	}
	return s.derive(d, known, 4)
}

func (s *St) mentionedIn(d lin, known []lin) map[*Term]bool {
	out := map[*Term]bool{}
	for t := range d.c {
		out[t] = true
	}
	for _, e := range known {
		for t := range e.c {
			out[t] = true
		}
	}
	return out
}

// derive: d >= 0 follows by adding up known inequalities.
func (s *St) derive(d lin, known []lin, depth int) bool {
	if s.nonNegative(d) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, e := range known {
		// must cancel something that counts against d
		for t, n := range d.c {
			m := e.c[t]
			if m == 0 || (n > 0) != (m > 0) || n%m != 0 {
				continue
			}
			r := lin{c: map[*Term]int64{}}
			r.add(d, 1)
			r.add(e, -(n / m))
			if len(r.c) <= len(d.c)+1 && s.derive(r, known, depth-1) {
				return true
			}
		}
	}
	return false
}

// nonNegative by the range of each value alone.
func (s *St) nonNegative(d lin) bool {
	sum := d.k
	for t, n := range d.c {
		l, h, _ := s.intRangeX(t)
		switch {
		case n > 0 && l != nil:
			sum += n * *l
		case n < 0 && h != nil:
			sum += n * *h
		default:
			return false
		}
	}
	return sum >= 0
}

// intRangeX adds to the recorded range what the shape of the value promises.
func (s *St) intRangeX(t *Term) (lo, hi *int64, excl map[int64]bool) {
	lo, hi, excl = s.intRange(t)
	low := func(n int64) {
		if lo == nil || n > *lo {
			lo = &n
		}
	}
	high := func(n int64) {
		if hi == nil || n < *hi {
			hi = &n
		}
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				low(0)
				high(255)
			case types.Uint16:
				low(0)
				high(65535)
			case types.Uint, types.Uint32, types.Uint64:
				low(0)
			}
		}
	}
	switch t.kind {
	case KBin:
		switch t.op {
		case "+":
			l1, h1, _ := s.intRangeX(t.args[0])
			l2, h2, _ := s.intRangeX(t.args[1])
			if l1 != nil && l2 != nil {
				low(*l1 + *l2)
			}
			if h1 != nil && h2 != nil {
				high(*h1 + *h2)
			}
		case "-":
			l1, h1, _ := s.intRangeX(t.args[0])
			l2, h2, _ := s.intRangeX(t.args[1])
			if l1 != nil && h2 != nil {
				low(*l1 - *h2)
			}
			if h1 != nil && l2 != nil {
				high(*h1 - *l2)
			}
		case "%":
			if c, ok := intOf(t.args[1]); ok && c > 0 {
				high(c - 1)
				if l, _, _ := s.intRangeX(t.args[0]); l != nil && *l >= 0 {
					low(0)
				} else {
					low(1 - c)
				}
			}
		case "&":
			for _, a := range t.args {
				if c, ok := intOf(a); ok && c >= 0 {
					low(0)
					high(c)
				}
			}
		}
	case KConv:
		if len(t.args) > 0 {
			l, h, _ := s.intRangeX(t.args[0])
			if l != nil && h != nil && *l >= 0 && *h <= 127 {
				low(*l)
				high(*h)
			} else if l != nil && h != nil && t.typ != nil {
				if b, ok := t.typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) && *l > -1<<31 && *h < 1<<31 {
					low(*l)
					high(*h)
				}
			}
		}
	}
	if _, w, ok := searched(t); ok {
		_ = w
		low(-1)
	}
	switch n := calleeName(t); n {
	case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n":
		if c, ok := intOf(t.args[0]); ok {
			low(0)
			high(c - 1)
		}
	case "(*math/big.Int).Int64", "(*math/big.Int).Uint64":
		if len(t.args) > 0 && t.args[0].kind == KExtract {
			if r := t.args[0].args[0]; calleeName(r) == "crypto/rand.Int" && len(r.args) > 1 {
				if b := r.args[1]; calleeName(b) == "math/big.NewInt" && len(b.args) > 0 {
					if c, ok := intOf(b.args[0]); ok {
						low(0)
						high(c - 1)
					}
				}
			}
		}
	}
	// the length of a text with a known prefix or suffix
	if t.kind == KPure && t.op == "len" {
		for f, v := range s.facts {
			if v && f.kind == KPure && (f.op == "strings.HasPrefix" || f.op == "strings.HasSuffix") && f.args[0] == t.args[0] {
				if w, ok := strOf(f.args[1]); ok {
					low(int64(len(w)))
				}
			}
			// a search that found something
			if f.kind == KBin && f.op == "<" {
				for i, a := range f.args {
					if in, w, ok := searched(a); ok && in == t.args[0] {
						if l, _, _ := s.intRange(a); l != nil && *l >= 0 {
							low(*l + w)
						}
						_ = i
					}
				}
			}
		}
		if strings.HasPrefix(t.args[0].op, "strings.Fields") {
			low(0)
		}
	}
	for lo != nil && excl[*lo] && (hi == nil || *lo <= *hi) {
		low(*lo + 1)
	}
	return
}
