package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
)

// C39: an expired session with a refresh token is renewed, and stays renewable.

const expiryText = "Token is expired"

func init() {
	checks["C39"] = c39
	explain["C39"] = "On every abstract path of the OIDC token validator on which the verifying parse of the token may have failed because the token's lifetime is over, the error returned must carry the text by which the OIDC strategy recognises expiry (which must be the JWT library's own). On every path of the strategy, a session token rejected with that text leads to an exchange of the session's refresh token unless there is none; a path that had the refresh succeed, both new tokens accepted and the session still present must admit; every session stored must keep a refresh token: the one just issued or, where that is empty, the one in use."
}

func c39(c *Check) {
	c.web(map[string]int{"expired-session-refreshed": 2, "renewed-session-admitted": 1, "refresh-token-kept": 2})
	c.expiryRecognised()
	c.expiryTextOfLibrary()
}

// expiryRuledOut: the path establishes that the parse error e is something other than expiry.
func expiryRuledOut(st *St, e *Term) bool {
	for f, v := range st.facts {
		text := false
		walk(f, func(t *Term) bool {
			text = text || errText(t, e) && st.refuted(mkEq(t, mkStr(expiryText)))
			return true
		})
		if text {
			return true
		}
		if isCallTo(f, "errors.Is", "errors.As", "golang.org/x/xerrors.As", "golang.org/x/xerrors.Is") && !v && mentions(f, e) {
			return true
		}
		if !v && f.kind == KAssertOk && mentions(f, e) && strings.Contains(f.String(), "ExpiredError") {
			return true
		}
	}
	return false
}

func errText(t, e *Term) bool {
	return t != nil && t.kind == KCall && calleeName(t) == "(error).Error" && len(t.args) > 0 && t.args[0] == e
}

func (c *Check) expiryRecognised() {
	for _, v := range c.validators() {
		if !v.oidc {
			continue
		}
		at := ssaName(v.fn) + " " + tokenNames[v.typ]
		for _, o := range v.outs {
			e := v.failedParse(o.st)
			if e == nil {
				continue
			}
			pos := c.P.posOf(o.ret.Pos())
			if expiryRuledOut(o.st, e) {
				c.ob("expiry-recognised", at, pos, true, "")
				continue
			}
			ok := false
			if o.st.isNonNil(o.res[0]) || o.res[0].kind == KAlloc {
				m := o.st.get(o.res[0], "Msg")
				ok = errText(m, e) || sameStr(m, expiryText)
			}
			c.ob("expiry-recognised", at, pos, ok, "a token whose lifetime is over is reported without saying so, so that its session is ended instead of renewed; path: %s", o.st.describeFacts())
		}
	}
	c.atLeast("expiry-recognised", 2)
}

// failedParse: the error of a verifying parse of the token under validation that may have failed.
func (v *valRun) failedParse(st *St) *Term {
	for _, rec := range st.calls(func(n string) bool { return strings.Contains(n, jwtPkg) }) {
		for _, s := range v.parse {
			if s.rec.Result != rec.Result {
				continue
			}
			if tok, _, ok := isParse(s.st, s.rec); ok && tok == v.p(1) {
				if e := extract(rec.Result, 1); !st.isNil(e) {
					return e
				}
			}
		}
	}
	return nil
}

// expiryTextOfLibrary: the JWT library reports expiry with the text the strategy compares with.
func (c *Check) expiryTextOfLibrary() {
	n := 0
	pkg := c.P.Pkgs[pkgValidator]
	if pkg != nil && pkg.Imports[strings.TrimSuffix(jwtPkg, ".")] != nil {
		for _, file := range pkg.Imports[strings.TrimSuffix(jwtPkg, ".")].GoFiles {
			f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != "Error" || fd.Recv == nil || fd.Body == nil {
					continue
				}
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); !ok || id.Name != "ExpiredError" {
					continue
				}
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					if r, ok := x.(*ast.ReturnStmt); ok {
						l, isL := r.Results[0].(*ast.BasicLit)
						n++
						c.ob("library-expiry-text", "(*jwt.ExpiredError).Error", "", isL && l.Value == strconv.Quote(expiryText), "the JWT library reports expiry with another text than the strategy recognises")
					}
					return true
				})
			}
		}
	}
	c.need(n > 0, "(*jwt.ExpiredError).Error")
}

// onRenewable: a stored session keeps a refresh token if there is one.
func (w *webRun) onRenewable(st *St, s *session, in, pos string) {
	t := st.get(s.term, "RefreshToken")
	issued := initial(s.term, "RefreshToken")
	ok := t != nil && t == issued
	if s.kind == "refreshed" {
		old := w.ownerOf(st, t, "RefreshToken")
		ok = ok && st.refuted(mkEq(t, mkStr(""))) || old != nil && old.kind == "loaded" && st.holds(mkEq(issued, mkStr("")))
	}
	w.ob("C39", "refresh-token-kept", in, pos, ok, "a session is stored without the refresh token it has: the one just issued or, when none was issued, the one in use; path: "+st.describeFacts())
}

// renewed: a successful refresh is an admission.
func (w *webRun) renewed(st *St, rp *reply, at, pos, facts string) {
	for _, c := range st.calls(names(fnRefresh)) {
		if st.isNonNil(extract(c.Result, 1)) {
			continue
		}
		tokens := extract(c.Result, 0)
		gone, rejected := false, false
		after := false
		for _, x := range st.calls(func(string) bool { return true }) {
			if x == c {
				after = true
				continue
			}
			if !after {
				continue
			}
			switch {
			case x.Name == fnValidate && len(x.Args) == 5 && st.isNonNil(x.Result):
				a, i := st.get(tokens, "AccessToken"), st.get(tokens, "IdentityToken")
				rejected = rejected || x.Args[0] == a || x.Args[0] == i
			case x.Name == "(*sync.Map).Load" && x.Recv == w.cache:
				gone = gone || st.refuted(extract(x.Result, 1))
			case x.Name == "(*sync.Map).CompareAndSwap" && x.Recv == w.cache:
				gone = gone || st.refuted(x.Result)
			}
		}
		w.ob("C39", "renewed-session-admitted", at, pos, gone || rejected || rp.kind == "allow", "an expired session whose refresh succeeded is not admitted"+facts)
	}
}
