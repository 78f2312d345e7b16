package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkC08
	checks["C09"] = checkC09
	checks["C10"] = checkC10
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C14"] = checkC14
}

const (
	bcryptCompare  = "golang.org/x/crypto/bcrypt.CompareHashAndPassword"
	bcryptGenerate = "golang.org/x/crypto/bcrypt.GenerateFromPassword"
)

// nilFacts lists the terms known to be nil in a state, in a fixed order.
func nilFacts(st *State) []*Term {
	var l []*Term
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		switch {
		case f.args[0] == tNil:
			l = append(l, f.args[1])
		case f.args[1] == tNil:
			l = append(l, f.args[0])
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// textOf is the text that a byte slice holds.
func textOf(st *State, t *Term) *Term {
	t = stripIface(t)
	if t != nil && t.op == "bytes" {
		return t.args[0]
	}
	return st.asString(t)
}

// matched lists the successful comparisons of a stored hash with a text.
func matched(st *State) (l [][2]*Term) {
	for _, t := range nilFacts(st) {
		if t.op == "call" && t.s == bcryptCompare {
			l = append(l, [2]*Term{textOf(st, t.args[0]), textOf(st, t.args[1])})
		}
	}
	return
}

// off decides that a flag of a record is not set, now or when the operation began.
func (st *State) off(rec *Term, flag string) bool {
	a := fieldAddr2(rec, "", flag)
	return a != nil && (st.fails(entryLoad(a)) || st.fails(st.valueAt(a)))
}

func (st *State) live(rec *Term) bool { return st.off(rec, "Disabled") && st.off(rec, "Expired") }

// ownedBy recognises an element of a list of a user: the user.
func ownedBy(rec *Term, list string) (*Term, bool) {
	coll, _, ok := elemOf(rec)
	if !ok {
		return nil, false
	}
	return fieldVal(coll, list)
}

// liveMatches lists the users for whom, in a state, a text is known to match a
// live password of theirs.
func liveMatches(st *State, pw *Term) (l []*Term) {
	for _, q := range matched(st) {
		p, ok := fieldVal(q[0], "Password.Hash")
		if !ok {
			continue
		}
		u, ok := ownedBy(p, "User.Passwords")
		if !ok || !st.live(p) {
			continue
		}
		x, norm := stripNorm(q[1])
		ok = st.same(x, pw)
		for _, n := range norm {
			if n != "TrimSpace" {
				ok = false
			}
		}
		if ok {
			l = append(l, u)
		}
	}
	return
}

func checkC08(c *Check) {
	x := c.index()
	c.rule("success", 3, "authentication with a password succeeds only on paths on which the supplied password matched the hash of a password, not disabled and not expired, of the user named by the request; without a password only on paths on which a signature was verified")
	c.rule("match", 1, "a password reports a match only if its hash verifies the supplied text")
	if f := c.fn("", "Database.AuthenticateUser"); f != nil {
		name, pw, wa := c.reqVal(f, 1, "User.Username"), c.reqVal(f, 1, "User.Password"), c.reqVal(f, 1, "WebAuthn.Request")
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			ok, how := false, "password"
			for _, u := range liveMatches(st, pw) {
				if x.designates(st, u, name, "username") || x.designates(st, u, name, "email") {
					ok = true
				}
			}
			if !ok && st.same(pw, tEmpty) {
				how = "signature"
				if st.fails(tEq(wa, tEmpty)) {
					for _, s := range c.signatures(st) {
						if s.user != nil && (x.designates(st, s.user, name, "username") || x.designates(st, s.user, name, "email")) {
							ok = true
						}
					}
				}
			}
			c.check(ok, st, "success", "AuthenticateUser by "+how, c.p.pos(f.Pos()), "AuthenticateUser succeeds although no live password of the named user is known to match (nor, without a password, a signature)")
		}
	}
	if f := c.fn("", "User.VerifyPassword"); f != nil {
		user, pw := c.param(f, 0), c.param(f, 1)
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			ok := false
			for _, u := range liveMatches(r.st, pw) {
				ok = ok || u == user
			}
			c.check(ok, r.st, "success", "VerifyPassword", c.p.pos(f.Pos()), "VerifyPassword succeeds although no live password of the user is known to match")
		}
	}
	if f := c.fn("", "Password.Match"); f != nil {
		p, pw := c.param(f, 0), c.param(f, 1)
		for _, r := range c.truths(c.run(f, nil)) {
			ok := false
			for _, q := range matched(r.st) {
				o, is := fieldVal(q[0], "Password.Hash")
				t, _ := stripNorm(q[1])
				ok = ok || is && o == p && t == pw
			}
			c.check(ok, r.st, "match", "Password.Match", c.p.pos(f.Pos()), "Match reports true although the hash is not known to verify the text")
		}
	}
}

// some demands that an entry point can succeed at all.
func (c *Check) some(l []ret, f *ssa.Function) {
	if len(l) == 0 {
		c.undecided("%s has no path that succeeds", funcLabel(f))
	}
}

// truths lists the ways out on which the first result is (or may be) true.
func (c *Check) truths(outs []Outcome) (l []ret) {
	for _, o := range outs {
		if o.panics || len(o.res) == 0 {
			continue
		}
		if v, ok := o.st.decide(o.res[0]); ok {
			if v {
				l = append(l, ret{o.st, o.res})
			}
			continue
		}
		t := o.st.clone()
		if t.learn(o.res[0], true) {
			l = append(l, ret{t, o.res})
		}
	}
	if len(l) == 0 {
		c.undecided("no path reports true")
	}
	return
}

// signature is a successful verification of a signature.
type signature struct {
	token, user *Term
	data, sum   *Term // the authenticator data and the text that was hashed
	sig         *Term
	bad         string
}

// decodedFrom recognises the bytes of a decoded text: (text, true).
func decodedFrom(t *Term) (*Term, bool) {
	if t != nil && t.op == "str" {
		t = t.args[0]
	}
	if t != nil && t.op == "ext" && len(t.args) > 0 {
		t = t.args[0]
	}
	if t != nil && t.op == "call" && strings.HasSuffix(t.s, ".DecodeString") && len(t.args) > 1 {
		return t.args[1], true
	}
	return nil, false
}

// signatures finds the signatures that a state knows to be verified, and the
// token whose registered coordinates make up the key.
func (c *Check) signatures(st *State) (l []signature) {
	add := func(key, data, sig *Term) {
		s := signature{sig: textOf(st, sig)}
		key = stripIface(key)
		var coord [2]*Term
		for i, n := range []string{"X", "Y"} {
			a := fieldAddr2(key, "", n)
			if a == nil {
				s.bad = "the key is not one made from coordinates"
				break
			}
			v := st.valueAt(a)
			if v == nil || v.op != "new" && !isFresh(v) {
				s.bad = "the coordinates of the key are not known"
				break
			}
			b := st.read(mkCell("big", v, types.Typ[types.String]), types.Typ[types.String])
			t, ok := decodedFrom(b)
			if !ok {
				s.bad = "a coordinate of the key is not decoded from a text"
				break
			}
			coord[i] = t
		}
		if s.bad == "" {
			for i, n := range []string{"curve_xcoord", "curve_ycoord"} {
				mp, k, ok := mapVal(coord[i])
				kn, _ := k.strVal()
				o, ok2 := fieldVal(mp, "MfaToken.Parameters")
				switch {
				case !ok || !ok2 || kn != n:
					s.bad = "the " + n + " of the key is not that of a registered token"
				case s.token != nil && s.token != o:
					s.bad = "the coordinates of the key are those of different tokens"
				}
				s.token = o
			}
		}
		if s.token != nil {
			s.user, _ = ownedBy(s.token, "User.MfaTokens")
		}
		d := textOf(st, data)
		if d != nil && d.op == "concat" && len(d.args) == 2 {
			s.data = d.args[0]
			if h := d.args[1]; h.op == "hsum" && len(h.args) == 2 && strings.Contains(h.args[0].String(), "sha256") {
				s.sum = h.args[1]
			}
		}
		if s.bad == "" && (s.data == nil || s.sum == nil) {
			s.bad = fmt.Sprintf("the signed content is not the authenticator data followed by a SHA-256 hash, but %s", d)
		}
		l = append(l, s)
	}
	for _, t := range nilFacts(st) {
		if t.op == "call" && t.s == "(*crypto/x509.Certificate).CheckSignature" {
			if v, ok := t.args[1].intVal(); !ok || v != 10 {
				continue // not ECDSA with SHA-256
			}
			a := fieldAddr2(t.args[0], "", "PublicKey")
			if a == nil {
				continue
			}
			add(st.valueAt(a), t.args[2], t.args[3])
		}
	}
	var v []*Term
	for f, b := range st.facts {
		if b && f.op == "call" && f.s == "crypto/ecdsa.VerifyASN1" {
			v = append(v, f)
		}
	}
	sort.Slice(v, func(i, j int) bool { return v[i].id < v[j].id })
	for _, f := range v {
		h := textOf(st, f.args[1])
		if h != nil && h.op == "hsum" && strings.Contains(h.args[0].String(), "sha256") {
			add(f.args[0], h.args[1], f.args[2])
		}
	}
	return
}

// decodedField recognises a field of a value decoded from a text: (text, field).
func decodedField(t *Term) (content *Term, path string, ok bool) {
	if t == nil || t.op != "dec" {
		return nil, "", false
	}
	return t.args[0], t.s, true
}

func checkC09(c *Check) {
	x := c.index()
	rules := []string{"signature", "user", "live token", "credential id", "signed content", "type", "cross origin", "challenge", "relying party", "user present"}
	for _, r := range rules {
		n := 2
		if r == "user" {
			n = 1
		}
		c.rule(r, n, map[string]string{
			"signature":      "success only after a signature verified with the key whose coordinates are those registered for one token",
			"user":           "that token belongs to the user named by the request",
			"live token":     "that token is a U2F token, not disabled and not expired",
			"credential id":  "the credential id registered for that token equals the asserted one",
			"signed content": "what was signed is the authenticator data of the request followed by the SHA-256 of its client data",
			"type":           "the client data that were signed have the type webauthn.get",
			"cross origin":   "the client data that were signed are not cross-origin",
			"challenge":      "the client data that were signed carry the challenge of the session",
			"relying party":  "the first 32 bytes of the authenticator data that were signed equal the relying-party hash of the token",
			"user present":   "the user-present bit of the authenticator data that were signed is set",
		}[r])
	}
	type entry struct {
		name      string
		req       int
		full      bool
		byRequest bool
	}
	for _, e := range []entry{{"Database.AuthenticateUser", 1, true, true}, {"User.VerifyWebAuthnRequest", 1, true, true}, {"MfaToken.WebAuthnRequest", 1, false, false}} {
		f := c.fn("", e.name)
		if f == nil {
			continue
		}
		lbl := funcLabel(f)
		pos := c.p.pos(f.Pos())
		var body, chal, name, pw *Term
		if e.byRequest {
			body, chal = c.reqVal(f, 1, "WebAuthn.Request"), c.reqVal(f, 1, "WebAuthn.Challenge")
			name, pw = c.reqVal(f, 1, "User.Username"), c.reqVal(f, 1, "User.Password")
		} else {
			body = c.param(f, 1)
		}
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			if pw != nil && e.name == "Database.AuthenticateUser" && len(liveMatches(st, pw)) > 0 {
				continue // by password: C08
			}
			best, why := "", "signature"
			for _, s := range c.signatures(st) {
				rule, text := c.assertion(x, st, s, f, body, chal, name, e.name)
				if rule == "" {
					why = ""
					break
				}
				why, best = rule, text
			}
			for _, q := range rules {
				if q == "user" && e.name != "Database.AuthenticateUser" || !e.byRequest && (q == "challenge" || q == "credential id" || q == "live token") {
					continue
				}
				c.check(why != q, st, q, lbl, pos, "%s succeeds although %s", lbl, map[bool]string{true: "no signature is known to be verified", false: best}[best == ""])
			}
		}
	}
}

// assertion names the first rule that a verified signature does not satisfy.
func (c *Check) assertion(x *Index, st *State, s signature, f *ssa.Function, body, chal, name *Term, entry string) (rule, text string) {
	if s.bad != "" {
		if s.data == nil || s.sum == nil {
			return "signed content", s.bad
		}
		return "signature", s.bad
	}
	full := entry != "MfaToken.WebAuthnRequest"
	switch entry {
	case "Database.AuthenticateUser":
		if s.user == nil || !(x.designates(st, s.user, name, "username") || x.designates(st, s.user, name, "email")) {
			return "user", "the token is not known to be one of the named user"
		}
	case "User.VerifyWebAuthnRequest":
		if s.user != c.param(f, 0) {
			return "signature", "the token is not one of the user"
		}
	default:
		if s.token != c.param(f, 0) {
			return "signature", "the key is not that of the token"
		}
	}
	if full && (!st.live(s.token) || !st.same(st.valueAt(fieldAddr2(s.token, "", "Type")), cstr("u2f"))) {
		return "live token", "the token is not known to be an enabled, unexpired U2F token"
	}
	// the parts of the request
	part := func(t *Term, path string) bool {
		src, ok := decodedFrom(t)
		if !ok {
			return false
		}
		for _, e := range st.eqClass(src) {
			y, norm := stripNorm(e)
			for _, n := range norm {
				if n != "TrimSpace" {
					return false
				}
			}
			if ct, p, ok := decodedField(y); ok && p == path {
				if b, ok := decodedFrom(ct); ok && st.same(b, body) {
					return true
				}
			}
		}
		return false
	}
	if !part(s.data, "AuthDataEncoded") || !part(s.sum, "ClientDataEncoded") || !part(s.sig, "SignatureEncoded") {
		return "signed content", "the signature, the authenticator data or the client data are not those of the request"
	}
	prm := func(k string) *Term {
		mp := st.valueAt(fieldAddr2(s.token, "", "Parameters"))
		return st.read(mkMelem(mp, cstr(k), types.Typ[types.String]), types.Typ[types.String])
	}
	if full {
		ok := false
		for _, e := range st.eqClass(prm("u2f_id")) {
			if ct, p, is := decodedField(e); is && p == "ID" {
				if b, is := decodedFrom(ct); is && st.same(b, body) {
					ok = true
				}
			}
		}
		if !ok {
			return "credential id", "the credential id of the token is not known to equal the asserted one"
		}
	}
	// the client data
	typ, cross, ch := false, false, false
	for t, v := range st.facts {
		if !v && t.op == "dec" && t.s == "CrossOrigin" && t.args[0] == s.sum {
			cross = true
		}
		if !v || t.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			ct, p, ok := decodedField(t.args[i])
			if !ok || ct != s.sum {
				continue
			}
			if p == "Type" && st.same(t.args[1-i], cstr("webauthn.get")) {
				typ = true
			}
			if p == "Challenge" && chal != nil && st.same(t.args[1-i], chal) {
				ch = true
			}
		}
	}
	switch {
	case !typ:
		return "type", "the signed client data are not known to have the type webauthn.get"
	case !cross:
		return "cross origin", "the signed client data are not known not to be cross-origin"
	case full && !ch:
		return "challenge", "the signed client data are not known to carry the challenge of the session"
	}
	rp := false
	for _, e := range st.eqClass(prm("rp_id_hash")) {
		if c.hexOf32(e, s.data) {
			rp = true
		}
	}
	if !rp {
		return "relying party", "the first 32 bytes of the signed authenticator data are not known to be the relying-party hash of the token"
	}
	up := false
	for t, v := range st.facts {
		if v && c.bitOf(t, s.data, 32, 1) {
			up = true
		}
		if !v && t.op == "eq" && (t.args[1] == tZero || t.args[0] == tZero) {
			for i := 0; i < 2; i++ {
				if c.maskOf(t.args[i], s.data, 32, 1) {
					up = true
				}
			}
		}
	}
	if !up {
		return "user present", "the user-present bit of the signed authenticator data is not known to be set"
	}
	return "", ""
}

// hexOf32 recognises the hexadecimal text of the first 32 bytes of a content.
func (c *Check) hexOf32(t, data *Term) bool {
	if t == nil || len(t.args) == 0 {
		return false
	}
	if t.op == "fmt" && t.s != "%x" || t.op == "call" && t.s != "encoding/hex.EncodeToString" || t.op != "fmt" && t.op != "call" {
		return false
	}
	a := t.args[0]
	if a.op == "bytes" {
		a = a.args[0]
	}
	if a.op != "sub" && a.op != "slice" || bareBytes(a.args[0]) != bareBytes(data) {
		return false
	}
	lo := int64(0)
	if a.args[1] != nil {
		v, ok := a.args[1].intVal()
		if !ok {
			return false
		}
		lo = v
	}
	if a.args[2] == nil {
		return false
	}
	hi, ok := a.args[2].intVal()
	return ok && lo == 0 && hi == 32
}

// bitOf recognises the test of a bit of a byte: (data[i]&mask) == mask.
func (c *Check) bitOf(t, data *Term, i, mask int64) bool {
	if t.op != "eq" {
		return false
	}
	for k := 0; k < 2; k++ {
		if v, ok := t.args[k].intVal(); ok && v == mask && c.maskOf(t.args[1-k], data, i, mask) {
			return true
		}
	}
	return false
}

func (c *Check) maskOf(t, data *Term, i, mask int64) bool {
	if t == nil || t.op != "bin&" {
		return false
	}
	for k := 0; k < 2; k++ {
		v, ok := t.args[k].intVal()
		if !ok || v != mask {
			continue
		}
		b := t.args[1-k]
		for b.op == "conv" {
			b = b.args[0]
		}
		coll, ix, ok := elemOf(b)
		if !ok && b.op == "at" {
			coll, ix, ok = b.args[0], b.args[1], true
		}
		if !ok {
			continue
		}
		if n, is := ix.intVal(); is && n == i && bareBytes(coll) == bareBytes(data) {
			return true
		}
	}
	return false
}

func checkC10(c *Check) {
	x := c.index()
	c.rule("success", 2, "the lookup of an API key succeeds only on paths on which the presented key matched the hash of an API key of the owner recorded for the prefix of the presented key, which carries that prefix and is neither disabled nor expired")
	c.rule("owner", 2, "on success the reported username and email address are those of that owner")
	c.rule("match", 1, "an API key reports a match only if its hash verifies the presented key")
	find := func(st *State, payload *Term, prefix func(*Term) bool) (l []*Term) {
		for _, q := range matched(st) {
			k, ok := fieldVal(q[0], "APIKey.Payload")
			if !ok || q[1] != payload && !st.same(q[1], payload) {
				continue
			}
			u, ok := ownedBy(k, "User.APIKeys")
			if !ok || !st.live(k) {
				continue
			}
			if prefix(st.valueAt(fieldAddr2(k, "", "Prefix"))) {
				l = append(l, u)
			}
		}
		return
	}
	if f := c.fn("", "Database.LookupAPIKey"); f != nil {
		payload := c.reqVal(f, 1, "Key.Payload")
		ra := c.param(f, 1)
		var pre *Term
		isPrefix := func(st *State) func(*Term) bool {
			return func(p *Term) bool {
				for _, e := range st.eqClass(p) {
					if b, lo, hi, ok := sliceParts(e); ok && lo == 0 && hi == 24 && st.same(b, payload) {
						pre = e
						return true
					}
				}
				return false
			}
		}
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			var owner *Term
			for _, u := range find(st, payload, isPrefix(st)) {
				for _, e := range st.eqClass(u) {
					if rl, k := x.userBy(st, e); rl == "apikey" && st.same(k, pre) {
						owner = u
					}
				}
			}
			if !c.check(owner != nil, st, "success", "LookupAPIKey", c.p.pos(f.Pos()), "LookupAPIKey succeeds although no live API key with the presented prefix of the owner of that prefix is known to match") {
				continue
			}
			name := st.valueAt(fieldAddr(ra, "User.Username"))
			o, ok := fieldVal(name, "User.Username")
			c.check(ok && st.sameUser(o, owner), st, "owner", "LookupAPIKey username", c.p.pos(f.Pos()), "the username reported, %s, is not that of the owner of the key", name)
			mail := st.valueAt(fieldAddr(ra, "User.Email"))
			c.check(c.mailOf(st, mail, owner), st, "owner", "LookupAPIKey email", c.p.pos(f.Pos()), "the email address reported, %s, is not that of the owner of the key", mail)
		}
	}
	if f := c.fn("", "User.LookupAPIKey"); f != nil {
		user, payload, prefix := c.param(f, 0), c.reqVal(f, 1, "Key.Payload"), c.reqVal(f, 1, "Key.Prefix")
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			ok := false
			for _, u := range find(r.st, payload, func(p *Term) bool { return r.st.same(p, prefix) || c.prefixOf(r.st, p, payload) }) {
				ok = ok || u == user
			}
			c.check(ok, r.st, "success", "User.LookupAPIKey", c.p.pos(f.Pos()), "the lookup succeeds although no live API key of the user with the given prefix is known to match")
		}
	}
	if f := c.fn("", "APIKey.Match"); f != nil {
		k, s := c.param(f, 0), c.param(f, 1)
		for _, r := range c.truths(c.run(f, nil)) {
			ok := false
			for _, q := range matched(r.st) {
				o, is := fieldVal(q[0], "APIKey.Payload")
				ok = ok || is && o == k && q[1] == s
			}
			c.check(ok, r.st, "match", "APIKey.Match", c.p.pos(f.Pos()), "Match reports true although the hash is not known to verify the key")
		}
	}
}

func (c *Check) prefixOf(st *State, p, payload *Term) bool {
	for _, e := range st.eqClass(p) {
		if b, lo, hi, ok := sliceParts(e); ok && lo == 0 && hi == 24 && st.same(b, payload) {
			return true
		}
	}
	return false
}

// mailOf recognises an email address of a user, or an empty text if there is none.
func (c *Check) mailOf(st *State, t, u *Term) bool {
	if s, ok := t.strVal(); ok && s == "" {
		return true
	}
	o, ok := fieldVal(t, "EmailAddress.Address")
	if !ok {
		return false
	}
	if w, ok := fieldVal(o, "User.EmailAddress"); ok && st.sameUser(w, u) {
		return true
	}
	w, ok := ownedBy(o, "User.EmailAddresses")
	return ok && st.sameUser(w, u)
}

func checkC11(c *Check) {
	x := c.index()
	c.rule("authentication", 2, "when AuthenticateUser returns, the response code is 200 if it returns no error and 400 if it returns one")
	c.rule("api key lookup", 2, "when LookupAPIKey returns, the response code is 200 if it returns no error, and it was not set to 200 if it returns one")
	c.rule("identification", 1, "IdentifyUser sets the response code 200 only after the user named by the request was found")
	code := func(f *ssa.Function, st *State) (v *Term, n int64, set bool) {
		a := fieldAddr(c.param(f, 1), "Response.Code")
		v = st.valueAt(a)
		n, ok := st.constOf(v).intVal()
		if !ok {
			n = -1
		}
		return v, n, v != entryLoad(a)
	}
	if f := c.fn("", "Database.AuthenticateUser"); f != nil {
		good, fail := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			v, n, _ := code(f, r.st)
			c.check(n == 200, r.st, "authentication", "success", c.p.pos(f.Pos()), "AuthenticateUser returns no error with the response code %s", v)
		}
		for _, r := range fail {
			v, n, _ := code(f, r.st)
			c.check(n == 400, r.st, "authentication", "error", c.p.pos(f.Pos()), "AuthenticateUser returns an error with the response code %s", v)
		}
	}
	if f := c.fn("", "Database.LookupAPIKey"); f != nil {
		good, fail := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			v, n, _ := code(f, r.st)
			c.check(n == 200, r.st, "api key lookup", "success", c.p.pos(f.Pos()), "LookupAPIKey returns no error with the response code %s", v)
		}
		for _, r := range fail {
			v, n, set := code(f, r.st)
			c.check(!set || n >= 0 && n != 200, r.st, "api key lookup", "error", c.p.pos(f.Pos()), "LookupAPIKey returns an error after setting the response code %s", v)
		}
	}
	if f := c.fn("", "Database.IdentifyUser"); f != nil {
		db, name := c.param(f, 0), c.reqVal(f, 1, "User.Username")
		for _, r := range c.returns(c.run(f, nil)) {
			v, n, set := code(f, r.st)
			ok := !set || n >= 0 && n != 200
			if !ok {
				ok = x.found(r.st, db, "username", name) || x.found(r.st, db, "email", name) || x.scanFound(r.st, name)
			}
			c.check(ok, r.st, "identification", fmt.Sprintf("code set: %v", set), c.p.pos(f.Pos()), "IdentifyUser sets the response code %s although the user is not known to exist", v)
		}
	}
}

// scanFound decides that a scan found a user for a text.
func (x *Index) scanFound(st *State, s *Term) bool {
	for f, v := range st.facts {
		if !v || f.op != "eq" && !(f.op == "call" && f.s == "strings.EqualFold") || len(f.args) < 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, _ := stripNorm(f.args[i])
			k := valKey(a)
			if (k == "User.Username" || k == "EmailAddress.Address") && st.sameFold(f.args[1-i], s) {
				return true
			}
		}
	}
	return false
}

// accountOps are the operations that act on one account.
var accountOps = []string{"GetPublicKeys", "AddPublicKey", "DeletePublicKey", "GetAPIKeys", "AddAPIKey", "DeleteAPIKey", "GetMfaTokens", "AddMfaToken", "DeleteMfaToken", "GetUser", "GetUsers", "ChangeUserPassword"}

func checkC12(c *Check) {
	x := c.index()
	c.rule("identity", 12, "the operation succeeds only on paths on which the username and the email address of the request are known to designate the same user")
	c.rule("own credentials", 10, "the lists of credentials that the operation reads or changes on those paths are those of that user")
	c.rule("payload", 1, "the user handed out is that user")
	for _, n := range accountOps {
		f := c.fn("", "Database."+n)
		if f == nil {
			continue
		}
		name, mail := c.reqVal(f, 1, "User.Username"), c.reqVal(f, 1, "User.Email")
		touch := func(st *State, a *Term, what string) {
			for a != nil && a.op == "fld" {
				if credentialFields[fldKey(a)] {
					st.tags[fmt.Sprintf("cred:%d", a.args[0].id)] = a
					return
				}
				a = a.args[0]
			}
		}
		h := &Hooks{
			Load: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) { touch(st, a, "reads") },
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				for _, y := range expand(a) {
					if persistent(y) {
						touch(st, y, "changes")
					}
				}
			},
		}
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		pos := c.p.pos(f.Pos())
		for _, r := range good {
			st := r.st
			var u *Term
			l := x.usersIn(st)
			for _, e := range l {
				if !x.designates(st, e, name, "username") {
					continue
				}
				for _, g := range l {
					if x.designates(st, g, mail, "email") && st.sameUser(e, g) {
						u = e
					}
				}
			}
			if !c.check(u != nil, st, "identity", n, pos, "%s succeeds although the username and the email address of the request are not known to designate the same user", n) {
				continue
			}
			for k, a := range st.tags {
				if !strings.HasPrefix(k, "cred:") {
					continue
				}
				o := a.args[0]
				c.check(st.sameUser(o, u) || x.sameAs(st, l, o, u), st, "own credentials", n+" "+fldKey(a), pos, "%s touches %s of %s, which is not the user named by the request", n, fldKey(a), o)
			}
			if n == "GetUser" {
				p := stripIface(st.valueAt(fieldAddr(c.param(f, 1), "Response.Payload")))
				c.check(p != nil && (st.sameUser(p, u) || x.sameAs(st, l, p, u)), st, "payload", n, pos, "GetUser hands out %s, which is not the user named by the request", p)
			}
		}
	}
}

// sameAs decides that two users are the same one by way of a third.
func (x *Index) sameAs(st *State, l []*Term, a, b *Term) bool {
	for _, e := range l {
		if st.sameUser(a, e) && st.sameUser(e, b) {
			return true
		}
	}
	return false
}

// within decides that a length lies between two limits of the policy.
func within(st *State, n, lo, hi *Term) bool {
	return st.fails(tLt(hi, n)) && st.fails(tLt(n, lo))
}

// hashed lists the texts that a state knows to have been hashed.
func hashed(st *State) (l []*Term) {
	for _, t := range nilFacts(st) {
		if t.op == "ext" || t.op == "call" {
			y := t
			if y.op == "ext" {
				y = y.args[0]
			}
			if y.op == "call" && y.s == bcryptGenerate {
				l = append(l, textOf(st, y.args[0]))
			}
		}
	}
	return
}

func checkC13(c *Check) {
	c.rule("password", 2, "a password is hashed and kept by a successful operation only on paths on which its length is known to be within the limits of the database's policy")
	c.rule("username", 1, "a user is added only on paths on which the length of the stored username is known to be within the limits of the database's policy")
	c.rule("defaults", 5, "a limit, or the number of kept versions, that is not set when a database is opened gets the documented default, and one that is set keeps its value")
	lim := func(db *Term, f string) *Term { return entryLoad(fieldAddr(db, "Policy."+f)) }
	for _, n := range []string{"AddUser", "ChangeUserPassword"} {
		f := c.fn("", "Database."+n)
		if f == nil {
			continue
		}
		db := c.param(f, 0)
		pos := c.p.pos(f.Pos())
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			l := hashed(st)
			ok := len(l) > 0
			for _, s := range l {
				ok = ok && within(st, tLen(s), lim(db, "Password.MinLength"), lim(db, "Password.MaxLength"))
			}
			c.check(ok, st, "password", n, pos, "%s succeeds although the length of the password is not known to be within the policy", n)
			if n != "AddUser" {
				continue
			}
			seen := false
			for a, v := range st.heap {
				if fldKey(a) != "User.Username" || !isFresh(a.args[0]) {
					continue
				}
				seen = true
				c.check(within(st, tLen(v), lim(db, "User.MinLength"), lim(db, "User.MaxLength")), st, "username", n, pos, "AddUser succeeds although the length of the username is not known to be within the policy")
			}
			if !seen {
				c.bad(st, "username", n, pos, "AddUser succeeds without recording a username")
			}
		}
	}
	if f := c.fn("", "NewDatabase"); f != nil {
		want := map[string]int64{"Password.KeepVersions": 10, "Password.MinLength": 8, "Password.MaxLength": 128, "User.MinLength": 3, "User.MaxLength": 50}
		h := &Hooks{Called: func(m *Machine, st *State, name string, args []*Term, r *Term, in ssa.CallInstruction) {
			if (name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode") && len(args) > 1 && namedType(stripIface(args[1]).typ) == "Database" {
				db := stripIface(args[1])
				for k := range want {
					st.tags["was:"+k] = st.valueAt(fieldAddr2(db, "", "Policy."+k))
				}
			}
		}}
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			for k, n := range want {
				v := st.valueAt(fieldAddr2(r.res[0], "", "Policy."+k))
				was := st.tags["was:"+k]
				if was == nil {
					was = tZero
				}
				isDef := st.same(v, cint(n))
				ok := isDef && st.same(was, tZero) || (v == was || st.same(v, was)) && st.fails(tEq(was, tZero))
				c.check(ok, st, "defaults", k, c.p.pos(f.Pos()), "after opening a database the policy has %s = %s where the file has %s", k, v, was)
			}
		}
	}
}

func checkC14(c *Check) {
	x := c.index()
	c.rule("current password", 2, "a password change succeeds only on paths on which the supplied current password matched a live password of the user")
	c.rule("new password", 3, "after a successful change the list of passwords holds one new password, live, made from the supplied text")
	c.rule("old passwords", 3, "every earlier password that is put into the new list is marked disabled")
	c.rule("never enabled again", 0, "no operation takes back the disabling of a password")
	for _, n := range []string{"Database.ChangeUserPassword", "User.ChangePassword", "User.AddPassword"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		lbl := funcLabel(f)
		pos := c.p.pos(f.Pos())
		old := func(e *Term) bool {
			for e != nil {
				if coll, _, ok := elemOf(e); ok {
					if valKey(coll) == "User.Passwords" || valKey(rootOf(coll)) == "User.Passwords" {
						return true
					}
				}
				if e.op != "conv" && e.op != "iface" {
					return false
				}
				e = e.args[0]
			}
			return false
		}
		oldList := func(t *Term) bool {
			return t != nil && (valKey(t) == "User.Passwords" || t.contains2("User.Passwords"))
		}
		undone := map[*Term]bool{}
		newPw := func(st *State, e *Term) bool { return namedType(e.typ) == "Password" && isFresh(e) }
		put := func(m *Machine, st *State, e *Term, in ssa.Instruction) {
			switch {
			case newPw(st, e):
				st.tags["new"] = e
			case old(e):
				if st.tags["alldis"] == nil {
					st.tags[fmt.Sprintf("old:%d", e.id)] = e
				}
			}
		}
		flush := func(st *State) {
			for k, e := range st.tags {
				if !strings.HasPrefix(k, "old:") {
					continue
				}
				if !st.holds(st.valueAt(fieldAddr2(e, "", "Disabled"))) {
					st.tags["pending"] = tTrue
				}
				delete(st.tags, k)
			}
		}
		h := &Hooks{
			Append: func(m *Machine, st *State, base *Term, elems []*Term, res *Term, in ssa.Instruction) {
				if namedElem(base) != "Password" && namedElem(res) != "Password" || !c.kept(in) {
					return
				}
				if oldList(base) && !isFresh(base) && base.op == "load" && st.tags["alldis"] == nil {
					st.tags["pending"] = tTrue
				}
				for _, e := range elems {
					if e.op == "spread" {
						e = e.args[0]
						if oldList(e) && st.tags["alldis"] == nil {
							st.tags["pending"] = tTrue
						}
						continue
					}
					put(m, st, e, in)
				}
			},
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				if a.op == "idx" && v != nil && namedType(v.typ) == "Password" && c.kept(in) {
					put(m, st, v, in)
				}
				for _, y := range expand(a) {
					if fldKey(y) == "Password.Disabled" && persistent(y) {
						c.check(st.holds(st.valueAt(y)) || st.holds(v), st, "never enabled again", lbl, c.p.instrPos(in), "a password is enabled again")
					}
				}
			},
			BackEdge: func(m *Machine, st *State, l *LoopInfo) {
				if l.coll != nil && valKey(l.coll) == "User.Passwords" && !l.iter {
					e := loopElem(st, l)
					if e == nil || !st.holds(st.valueAt(fieldAddr2(e, "", "Disabled"))) {
						undone[l.ctx] = true
					}
				}
				if !l.iter {
					flush(st)
					return
				}
				// what is disabled stays so
				for k, e := range st.tags {
					if strings.HasPrefix(k, "old:") && st.holds(st.valueAt(fieldAddr2(e, "", "Disabled"))) {
						delete(st.tags, k)
					}
				}
			},
			LoopExit: func(m *Machine, st *State, l *LoopInfo) {
				if l.coll != nil && valKey(l.coll) == "User.Passwords" && !l.iter && !undone[l.ctx] {
					st.tags["alldis"] = tTrue
					delete(st.tags, "pending")
				}
			},
		}
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			flush(st)
			c.check(st.tags["pending"] == nil, st, "old passwords", lbl, pos, "an earlier password is kept without being marked disabled")
			var u *Term
			pw := c.param(f, 1)
			switch n {
			case "Database.ChangeUserPassword", "User.ChangePassword":
				pw = c.reqVal(f, 1, "User.Password")
				var l []*Term
				l = liveMatches(st, c.reqVal(f, 1, "User.OldPassword"))
				for _, e := range l {
					if n == "User.ChangePassword" && e == c.param(f, 0) || n != "User.ChangePassword" && (x.designates(st, e, c.reqVal(f, 1, "User.Username"), "username") || x.designates(st, e, c.reqVal(f, 1, "User.Email"), "email")) {
						u = e
					}
				}
				if !c.check(u != nil, st, "current password", lbl, pos, "%s succeeds although the supplied current password is not known to match a live password of the user", lbl) {
					continue
				}
			default:
				u = c.param(f, 0)
			}
			list := st.valueAt(fieldAddr2(u, "", "Passwords"))
			p := st.tags["new"]
			ok := p != nil && list != entryLoad(fieldAddr2(u, "", "Passwords"))
			why := "no new password is put into the list"
			if ok {
				for _, e := range listParts(st, list) {
					if isFresh(e) && namedType(e.typ) == "Password" && e != p {
						ok, why = false, "more than one new password is put into the list"
					}
				}
				if !st.holds(tNot(st.valueAt(fieldAddr2(p, "", "Disabled")))) || !st.holds(tNot(st.valueAt(fieldAddr2(p, "", "Expired")))) {
					ok, why = false, "the new password is not live"
				}
				hash := st.valueAt(fieldAddr2(p, "", "Hash"))
				fromText := false
				hash.walk(func(y *Term) bool {
					if y.op == "call" && y.s == bcryptGenerate {
						t, norm := stripNorm(textOf(st, y.args[0]))
						fromText = st.same(t, pw)
						for _, q := range norm {
							fromText = fromText && q == "TrimSpace"
						}
						return false
					}
					return true
				})
				if ok && !fromText {
					ok, why = false, "the new password is not made from the supplied text"
				}
				if ok && !c.inList(st, list, p) {
					ok, why = false, "the new password is not in the list"
				}
			}
			c.check(ok, st, "new password", lbl, pos, "%s succeeds, but %s", lbl, why)
		}
	}
}

// namedElem is the module type that the pointers of a slice point to.
func namedElem(t *Term) string {
	if t == nil || t.typ == nil {
		return ""
	}
	if s, ok := t.typ.Underlying().(*types.Slice); ok {
		return namedType(s.Elem())
	}
	return ""
}

// contains2 tells whether a slice is (part of) the value of a field.
func (t *Term) contains2(key string) bool {
	for t != nil {
		if valKey(t) == key {
			return true
		}
		switch t.op {
		case "slice", "append", "appends", "sub":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// listParts lists the elements that a list may consist of, as far as known.
func listParts(st *State, t *Term) (l []*Term) {
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || d > 20 {
			return
		}
		switch {
		case t.op == "append":
			walk(t.args[0], d+1)
			l = append(l, t.args[1:]...)
		case t.op == "appends":
			for _, a := range t.args {
				walk(a, d+1)
			}
		case t.op == "star":
			for _, a := range t.args {
				if isSlice(a.typ) {
					walk(a, d+1)
				} else {
					l = append(l, a)
				}
			}
		case t.op == "slice":
			n, ok := arrayLen(t.args[0])
			if !ok {
				walk(t.args[0], d+1)
				return
			}
			at := elemType(t.args[0].typ)
			if a, is := at.Underlying().(*types.Array); is {
				for i := int64(0); i < n; i++ {
					l = append(l, st.read(mkIdx(t.args[0], cint(i), a.Elem()), a.Elem()))
				}
			}
		}
	}
	walk(t, 0)
	return
}

func (c *Check) inList(st *State, list, e *Term) bool {
	for _, x := range listParts(st, list) {
		if x == e {
			return true
		}
	}
	return false
}

// bareBytes strips the conversions between text and bytes.
func bareBytes(t *Term) *Term {
	for t != nil {
		t = contentRoot(t)
		if t.op != "str" && t.op != "bytes" {
			return t
		}
		t = t.args[0]
	}
	return t
}
