package main

// C38: every answer is for its own request only. Mixer keeps an answer and gives it to later requests whose examined
// attributes are equal for as long as the answer's valid duration says, and replaces headers with its output values.

func init() {
	checks["C38"] = c38
	explain["C38"] = "Every answer constructed on an abstract path of the adapter's dispatch, the API strategy and the OIDC strategy is decomposed: its valid duration must be the constant zero, and outside an OIDC session the output that replaces headers must be absent or empty."
}

func c38(c *Check) {
	if a := c.adapter(); a != nil {
		for _, o := range a.outs {
			if len(o.res) == 2 && o.res[0] != nil && o.res[0].kind == KExtract {
				continue // a handler's answer handed on unchanged; judged where it is made
			}
			c.ownAnswer(ssaName(a.fn), o, true)
		}
	}
	if a := c.api(); a != nil {
		for _, o := range a.outs {
			c.ownAnswer(ssaName(a.fn), o, true)
		}
	}
	w := c.P.web()
	if c.need(w != nil, "(*WebStrategy).HandleAuthnZRequest") {
		c.account(w.r, w.fn, len(w.outs))
		for _, o := range w.outs {
			c.ownAnswer(ssaName(w.fn), o, false)
			c.ownCookie(w, o)
		}
	}
	c.atLeast("no-validity", 10)
	c.atLeast("headers-untouched", 2)
	c.atLeast("cookie-of-own-session", 2)
}

func zeroValue(t *Term) bool {
	return t != nil && (t.kind == KZero || isNumber(t, 0) || sameStr(t, ""))
}

func (c *Check) ownAnswer(at string, o Outcome, plain bool) {
	rp := decodeReply(o)
	if rp.kind == "error" || rp.kind == "nil" {
		return
	}
	pos := c.P.posOf(o.ret.Pos())
	res := o.st.get(rp.resp, "Result")
	var d *Term
	if res != nil {
		d = o.st.get(res, "ValidDuration")
	}
	c.ob("no-validity", at, pos, zeroValue(d), "the answer (%s) may be applied to later requests: its valid duration is %v; path: %s", rp.kind, d, o.st.describeFacts())
	if plain && rp.kind == "allow" {
		out := o.st.get(rp.resp, "Output")
		ok := out != nil && o.st.isNil(out) || zeroValue(rp.auth) && zeroValue(rp.cookie)
		c.ob("headers-untouched", at, pos, ok, "a request admitted without an OIDC session has its headers replaced (Authorization %v, cookie %v); path: %s", rp.auth, rp.cookie, o.st.describeFacts())
	}
}

// ownCookie: an admission sets no session cookie but that of the session it is based on.
func (c *Check) ownCookie(w *webRun, o Outcome) {
	rp := decodeReply(o)
	if rp.kind != "allow" {
		return
	}
	ok := zeroValue(rp.cookie)
	if ck := cookieStruct(rp.cookie); !ok && ck != nil && len(w.stores(o.st)) == 0 {
		v := fieldOf(ck, "Value")
		ok = v != nil && w.cookieOf(o.st, unbox(v)) != nil
	} else if ck != nil {
		ok = ok || len(w.stores(o.st)) > 0 // judged by C04
	}
	c.ob("cookie-of-own-session", ssaName(w.fn), c.P.posOf(o.ret.Pos()), ok, "an admission sets the session cookie %v, which names no session of this request; path: %s", rp.cookie, o.st.describeFacts())
}
