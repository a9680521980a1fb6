package main

import (
	"go/token"
	"strings"
)

// C11: identifiers and login states come entirely from the cryptographic random source.

const minRandom = 10

// randomness decomposes a text or byte string into characters and reports how many independent
// draws from the operating system's random source it holds, or why it is not made of them alone.
type randomness struct {
	st    *St
	draws map[*Term]bool // draws already used
	chars int
}

func cryptoReader(t *Term) bool {
	t = unbox(t)
	return t.kind == KDeref && t.args[0].kind == KGlobal && t.args[0].op == "crypto/rand.Reader"
}

func isRandFill(c *Term) bool {
	if c.kind != KCall {
		return false
	}
	switch c.callee {
	case "crypto/rand.Read":
		return true
	case "io.ReadFull", "io.ReadAtLeast":
		return len(c.args) > 0 && cryptoReader(c.args[0])
	}
	return false
}

// succeeded: the call's error is known to be nil.
func (x *randomness) succeeded(call *Term, i int) bool { return x.st.isNil(extract(call, i)) }

// text: t is made of random characters only.
func (x *randomness) text(t *Term) string {
	t = unbox(t)
	switch t.kind {
	case KConv:
		return x.text(t.args[0])
	case KBin:
		if t.op == "cat" {
			for _, a := range t.args {
				if why := x.text(a); why != "" {
					return why
				}
			}
			return ""
		}
	case KList:
		for _, a := range t.args {
			if why := x.char(a); why != "" {
				return why
			}
		}
		return ""
	case KOpaque:
		if t.op == "content" {
			return x.bytes(t)
		}
	case KPure:
		switch t.op {
		case "char":
			return x.char(t.args[0])
		case "(*encoding/base64.Encoding).EncodeToString", "encoding/hex.EncodeToString":
			return x.text(t.args[len(t.args)-1])
		case "fmt.Sprintf":
			if len(t.args) == 2 && (sameStr(t.args[0], "%x") || sameStr(t.args[0], "%X")) {
				if l := t.args[1]; l.kind == KList && len(l.args) == 1 {
					return x.text(unbox(l.args[0]))
				}
			}
		case "strings.TrimRight":
			return x.text(t.args[0])
		}
	case KSlice:
		// a prefix of a random text
		if t.op == "010" || t.op == "011" || t.op == "110" {
			if n, ok := intOf(t.args[len(t.args)-1]); ok {
				y := &randomness{st: x.st, draws: x.draws}
				if why := y.text(t.args[0]); why != "" {
					return why
				}
				if y.chars > int(n) {
					y.chars = int(n)
				}
				x.chars += y.chars
				return ""
			}
		}
	case KCall:
		switch t.callee {
		case "github.com/gorilla/securecookie.GenerateRandomKey":
			n, ok := x.st.constInt(t.args[0])
			if !ok {
				return "the length of the random key is not known"
			}
			if x.draws[t] {
				return "the same random bytes are used twice"
			}
			if x.st.isNil(t) {
				return "the random key may be missing"
			}
			x.draws[t] = true
			x.chars += int(n)
			return ""
		case "crypto/rand.Text":
			if x.draws[t] {
				return "the same random text is used twice"
			}
			x.draws[t] = true
			x.chars += 26
			return ""
		}
	}
	if t.kind == KAlloc || t.kind == KSliceOf {
		return x.text(x.st.contentOf(t))
	}
	return "part of it (" + t.String() + ") is not random"
}

// bytes: a buffer whose whole content was read from the random source.
func (x *randomness) bytes(t *Term) string {
	return "its content (" + t.String() + ") is not known to be random throughout"
}

// char: one character made from one draw of its own.
func (x *randomness) char(t *Term) string {
	d, why := x.draw(t)
	if why != "" {
		return why
	}
	if x.draws[d] {
		return "one random draw is used for several characters"
	}
	x.draws[d] = true
	x.chars++
	return ""
}

// draw: the random draw a character is computed from, with nothing but constants beside it.
func (x *randomness) draw(t *Term) (*Term, string) {
	t = unbox(t)
	switch t.kind {
	case KConv:
		return x.draw(t.args[0])
	case KOut:
		return x.filled(t)
	case KIndex:
		if s, ok := strOf(t.args[0]); ok && len(s) >= 2 {
			return x.draw(t.args[1])
		}
		if t.args[0].kind == KOut {
			if _, why := x.filled(t.args[0]); why != "" {
				return nil, why
			}
			return t, ""
		}
		if t.args[0].kind == KConst || t.args[0].kind == KList {
			return x.draw(t.args[1])
		}
	case KBin:
		if len(t.args) == 2 {
			a, b := t.args[0], t.args[1]
			na, ca := intOf(a)
			nb, cb := intOf(b)
			switch {
			case cb && !ca:
				if (t.op == token.REM.String() && nb < minRandom) || (t.op == token.AND.String() && nb < minRandom-1) || (t.op == token.QUO.String() && nb > 1) || t.op == token.SHR.String() || (t.op == token.MUL.String() && nb == 0) {
					return nil, "too little of the random draw is used"
				}
				return x.draw(a)
			case ca && !cb:
				_ = na
				return x.draw(b)
			}
		}
	case KCall:
		if (t.callee == "(*math/big.Int).Int64" || t.callee == "(*math/big.Int).Uint64") && len(t.args) >= 1 {
			return x.draw(t.args[0])
		}
	case KExtract:
		c := t.args[0]
		if c.kind == KCall && c.callee == "crypto/rand.Int" && t.op == "0" {
			if !cryptoReader(c.args[0]) {
				return nil, "a draw does not read the operating system's random source"
			}
			m := c.args[1]
			if m.kind != KCall || m.callee != "math/big.NewInt" {
				return nil, "the range of a draw is not known"
			}
			n, ok := x.st.constInt(m.args[0])
			if !ok || n < minRandom {
				return nil, "a draw has too few possible values"
			}
			if !x.succeeded(c, 1) {
				return nil, "a draw may have failed"
			}
			return c, ""
		}
	}
	return nil, "a character (" + t.String() + ") is not drawn from the operating system's random source"
}

// filled: content written into a buffer by a successful read of the random source.
func (x *randomness) filled(t *Term) (*Term, string) {
	if t.kind != KOut || !isRandFill(t.args[0]) {
		return nil, "content (" + t.String() + ") does not come from the operating system's random source"
	}
	if t.args[0].callee != "crypto/rand.Read" || true {
		if !x.succeeded(t.args[0], 1) {
			return nil, "reading the random source may have failed"
		}
	}
	return t, ""
}

// unpredictable reports why a text is not an unpredictable identifier ("" when it is).
func unpredictable(st *St, t *Term) string {
	x := &randomness{st: st, draws: map[*Term]bool{}}
	if why := x.text(t); why != "" {
		return why
	}
	if x.chars < minRandom {
		return "it has fewer than ten random characters"
	}
	return ""
}

// generatedKeys: the keys stored in a secret the adapter creates.
func (w *webRun) generatedKeys(st *St, rec *CallRec, in, pos string) {
	if len(rec.Args) != 1 {
		return
	}
	data := st.get(rec.Args[0], "Data")
	n := 0
	if data != nil && data.kind == KAlloc {
		for c, v := range st.heap {
			if c.kind != KMapAddr || c.args[0] != data {
				continue
			}
			k, ok := strOf(c.args[1])
			if !ok {
				k = c.args[1].String()
			}
			n++
			ok = v.kind == KCall && v.callee == "github.com/gorilla/securecookie.GenerateRandomKey"
			if !ok {
				if es, known := st.elems(v); known && len(es) > 0 {
					x := &randomness{st: st, draws: map[*Term]bool{}}
					ok = x.text(internX(KList, "", v.typ, nil, es...)) == ""
				} else if sn := st.load(v); sn != nil && sn.kind == KOut {
					x := &randomness{st: st}
					_, why := x.filled(sn)
					ok = why == ""
				}
			}
			w.ob("C11", "generated-key-random", in, pos, ok, "a generated cookie key ("+k+") does not come from the cryptographic random source: "+v.String())
		}
	}
	w.ob("C11", "generated-keys-known", in, pos, n > 0, "the content of the generated key secret is not known")
}

func isSecretCreate(n string) bool {
	return strings.HasSuffix(n, "core/v1.SecretInterface).Create") || strings.HasSuffix(n, "core/v1.SecretInterface).Update")
}
