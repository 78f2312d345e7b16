package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = checkC20
	checks["C21"] = checkC21
	checks["C22"] = checkC22
	checks["C40"] = checkC40
}

// bareNum strips the conversions between numbers.
func bareNum(t *Term) *Term {
	for t != nil && t.op == "conv" {
		if w, _, ok := sizeOf(t.typ); ok && w < 32 {
			return t // may lose something
		}
		t = t.args[0]
	}
	return t
}

// addConst splits a number into a term and a constant.
func addConst(t *Term) (*Term, int64) {
	k := int64(0)
	for {
		t = bareNum(t)
		if t == nil || t.op != "bin+" && t.op != "bin-" {
			return t, k
		}
		n, ok := t.args[1].intVal()
		if !ok {
			return t, k
		}
		if t.op == "bin-" {
			n = -n
		}
		k += n
		t = t.args[0]
	}
}

// accepted is a passcode known to equal a computed code.
type accepted struct {
	code           *Term // what was compared with the passcode
	pass           *Term // the passcode, without normalisation
	norm           []string
	kind           string // hash
	secret, digits *Term
	period, at     *Term // the counter is floor(Unix(at)/period)+shift
	shift          int64
	bad            string
}

// acceptedCodes finds the passcodes that a state knows to equal computed codes.
func (c *Check) acceptedCodes(st *State) (l []accepted) {
	var facts []*Term
	for f, v := range st.facts {
		if v {
			facts = append(facts, f)
		}
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].id < facts[j].id })
	for _, f := range facts {
		var a, b *Term
		switch {
		case f.op == "eq":
			for k := 0; k < 2; k++ {
				if n, ok := f.args[k].intVal(); ok && n == 1 && f.args[1-k].op == "call" && f.args[1-k].s == "crypto/subtle.ConstantTimeCompare" {
					a, b = f.args[1-k].args[0], f.args[1-k].args[1]
				}
			}
		case f.op == "call" && f.s == "crypto/hmac.Equal":
			a, b = f.args[0], f.args[1]
		}
		if a == nil {
			continue
		}
		a, b = textOf(st, a), textOf(st, b)
		if !a.any(func(t *Term) bool { return t.op == "hmac" }) {
			a, b = b, a
		}
		l = append(l, c.codeOf(st, a, b))
	}
	return
}

func (c *Check) codeOf(st *State, a, b *Term) accepted {
	r := accepted{code: a}
	r.pass, r.norm = stripNorm(b)
	for _, n := range r.norm {
		if n != "TrimSpace" {
			r.bad = "the passcode is compared after " + n
		}
	}
	if a.op == "sub" || a.op == "slice" {
		r.bad = "only a part of the code is compared"
	}
	var counter *Term
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		switch {
		case t.op == "hsum":
			h := t.args[0]
			if h.op != "hmac" {
				r.bad = "the code is computed with " + h.String()
				return false
			}
			kind := h.args[0].String()
			for _, k := range []string{"sha1", "sha256", "sha512"} {
				if kind == k+".New" {
					if r.kind != "" && r.kind != k {
						r.bad = "the code mixes hashes"
					}
					r.kind = k
				}
			}
			if r.secret != nil && r.secret != h.args[1] || counter != nil && counter != t.args[1] {
				r.bad = "the code mixes several hash values"
			}
			r.secret, counter = h.args[1], t.args[1]
			if r.secret.op == "str" && r.secret.args[0].op == "bytes" {
				r.secret = r.secret.args[0].args[0]
			}
			return false
		case t.op == "load" && t.args[0].any(func(x *Term) bool { return x.op == "hsum" }):
			t.args[0].walk(visit)
			return false
		case t.op == "load" && t.args[0].op == "global" && strings.HasPrefix(t.args[0].s, "encoding/"):
			return false
		case t.op == "load" && isConstTable(st, t):
			t.args[0].args[1].walk(visit)
			return false
		case t.op == "load":
			if r.digits != nil && r.digits != t {
				r.bad = fmt.Sprintf("the code depends on %s", t)
			}
			r.digits = t
			return false
		case t.op == "param" || t.op == "unknown" || t.op == "lvh":
			r.bad = fmt.Sprintf("the code depends on %s", t)
		}
		return true
	}
	a.walk(visit)
	if r.bad != "" {
		return r
	}
	if counter == nil || r.kind == "" {
		r.bad = "the code is not computed with a keyed hash of the token"
		return r
	}
	for counter.op == "str" {
		counter = counter.args[0]
	}
	if counter.op != "be" || !strings.HasPrefix(counter.s, "(encoding/binary.bigEndian).PutUint64") && counter.s != "write" {
		r.bad = fmt.Sprintf("the hashed text %s is not a big-endian counter", counter)
		return r
	}
	n := counter.args[len(counter.args)-1]
	if counter.s == "write" && !strings.Contains(counter.args[0].String(), "BigEndian") {
		r.bad = "the hashed counter is not big-endian"
		return r
	}
	var base *Term
	base, r.shift = addConst(n)
	r.at, r.period = periodOf(base)
	if r.at == nil {
		r.bad = fmt.Sprintf("the counter %s is not the number of periods of a time", base)
	}
	return r
}

// periodOf recognises the number of whole periods since the epoch: (time, period).
func periodOf(t *Term) (at, period *Term) {
	t = bareNum(t)
	if t != nil && t.op == "call" && (t.s == "math.Floor" || t.s == "math.Trunc") {
		t = bareNum(t.args[0])
	}
	if t == nil || t.op != "bin/" {
		return nil, nil
	}
	u, p := bareNum(t.args[0]), bareNum(t.args[1])
	if u == nil || u.op != "call" || u.s != "(time.Time).Unix" {
		return nil, nil
	}
	at = u.args[0]
	for at.op == "call" && (at.s == "(time.Time).UTC" || at.s == "(time.Time).Local") {
		at = at.args[0]
	}
	return at, p
}

func isNow(t *Term) bool { return t != nil && t.op == "call" && strings.HasPrefix(t.s, "time.Now") }

func checkC20(c *Check) {
	c.rule("code", 2, "a passcode is accepted only on paths on which it equals, compared in constant time and in full, a code computed with a keyed hash of a counter")
	c.rule("own parameters", 3, "the key, the hash and the number of digits of that computation are those of the token")
	c.rule("period", 3, "the counter is the number of the token's periods up to the given time, or one more or one less")
	c.rule("length", 3, "the length of the accepted passcode is known to equal the token's digits")
	c.rule("current time", 1, "without an explicit time the current time is used")
	c.rule("type", 1, "without an explicit time only TOTP tokens are validated")
	for _, n := range []string{"MfaToken.ValidateCode", "MfaToken.ValidateCodeWithTime"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		p, code := c.param(f, 0), c.param(f, 1)
		field := func(k string) *Term { return entryLoad(fieldAddr2(p, "", k)) }
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			var a *accepted
			why := "no comparison with a computed code is known to have succeeded"
			for _, q := range c.acceptedCodes(st) {
				q := q
				if q.bad == "" && q.pass != code {
					q.bad = fmt.Sprintf("what is compared is %s, not the passcode", q.pass)
				}
				if q.bad == "" {
					a = &q
					break
				}
				why = q.bad
			}
			if !c.check(a != nil, st, "code", lbl, pos, "%s accepts a passcode although %s", lbl, why) {
				continue
			}
			cons := lbl + " " + a.kind
			own := ""
			switch {
			case a.secret != field("Secret"):
				own = fmt.Sprintf("the key is %s", a.secret)
			case !st.same(field("Algorithm"), cstr(a.kind)):
				own = "the hash " + a.kind + " is not known to be that of the token"
			case a.digits != field("Digits"):
				own = fmt.Sprintf("the digits are %s", a.digits)
			}
			c.check(own == "", st, "own parameters", cons, pos, "the code of %s is not computed from the token: %s", lbl, own)
			ok := a.period == field("Period") && a.shift >= -1 && a.shift <= 1
			if n == "MfaToken.ValidateCode" {
				c.check(isNow(a.at), st, "current time", lbl, pos, "%s validates for the time %s", lbl, a.at)
				c.check(st.same(field("Type"), cstr("totp")), st, "type", lbl, pos, "%s accepts a passcode of a token that is not known to be a TOTP token", lbl)
			} else {
				ok = ok && a.at == c.param(f, 2)
			}
			c.check(ok, st, "period", cons, pos, "%s accepts the code of the period %s/%s%+d", lbl, a.at, a.period, a.shift)
			c.check(st.hasLen(a.pass, a.norm, field("Digits")), st, "length", cons, pos, "%s accepts a passcode whose length is not known to equal the token's digits", lbl)
		}
	}
}

// hasLen decides that a text, normalised in a way or as it is, has a length.
func (st *State) hasLen(t *Term, norm []string, n *Term) bool {
	if st.same(tLen(t), n) {
		return true
	}
	return len(norm) > 0 && st.same(tLen(trimmed(t)), n)
}

// newTokens lists the tokens that a successful operation hands out or enrols.
func (c *Check) newTokens(f *ssa.Function, r ret) []*Term {
	var l []*Term
	if len(r.res) > 0 && namedType(r.res[0].typ) == "MfaToken" {
		return []*Term{r.res[0]}
	}
	var keys []*Term
	for a := range r.st.heap {
		if fldKey(a) == "User.MfaTokens" && (shared(a) || deepRoot(a).op == "param") {
			keys = append(keys, a)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, a := range keys {
		for _, e := range listParts(r.st, r.st.heap[a]) {
			if coll, _, ok := elemOf(e); !ok || coll != entryLoad(a) {
				l = append(l, e)
			}
		}
	}
	return l
}

// enrolments interprets the operations that make tokens.
func (c *Check) enrolments(h *Hooks, each func(f *ssa.Function, lbl, pos string, req func(string) *Term, st *State, tok *Term)) {
	for _, n := range []string{"NewMfaToken", "User.AddMfaToken", "Database.AddMfaToken"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		ri := f.Signature.Params().Len() - 1
		if f.Signature.Recv() != nil {
			ri++
		}
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		seen := false
		for _, r := range good {
			for _, t := range c.newTokens(f, r) {
				seen = true
				each(f, lbl, pos, func(p string) *Term { return c.reqVal(f, ri, p) }, r.st, t)
			}
		}
		if !seen {
			c.undecided("%s makes no token", lbl)
		}
	}
}

func checkC21(c *Check) {
	c.rule("type", 3, "a token that is created is known to be a TOTP or a U2F token")
	c.rule("algorithm", 3, "the algorithm stored is the one requested, sha1, sha256 or sha512, or sha1 if none was requested")
	c.rule("period", 3, "the period stored is the one requested, 30 to 300 seconds")
	c.rule("digits", 3, "the digits stored are those requested, 4 to 8, or 6 if none were requested")
	c.rule("passcode", 3, "the passcode of the request is known to equal a code for the current time computed with exactly the secret, algorithm, period and digits stored")
	c.enrolments(nil, func(f *ssa.Function, lbl, pos string, req func(string) *Term, st *State, tok *Term) {
		val := func(k string) *Term { return st.valueAt(fieldAddr2(tok, "", k)) }
		typ := val("Type")
		if !c.check(st.same(typ, cstr("totp")) || st.same(typ, cstr("u2f")), st, "type", lbl+" "+typ.String(), pos, "%s creates a token of the type %s, which is not known to be totp or u2f", lbl, typ) {
			return
		}
		if !st.same(typ, cstr("totp")) {
			return
		}
		algo, ra := val("Algorithm"), req("MfaToken.Algorithm")
		kind := ""
		for _, k := range []string{"sha1", "sha256", "sha512"} {
			if st.same(algo, cstr(k)) {
				kind = k
			}
		}
		ok := kind != "" && (st.sameFold(algo, ra) || st.sameFold(cstr(kind), ra))
		if !ok && kind == "sha1" {
			for _, q := range []*Term{ra, lower(ra), trimmed(ra), lower(trimmed(ra)), trimmed(lower(ra))} {
				ok = ok || st.same(q, tEmpty)
			}
		}
		if !ok && kind != "" {
			for _, q := range []*Term{trimmed(ra), lower(trimmed(ra)), trimmed(lower(ra))} {
				ok = ok || st.same(q, cstr(kind))
			}
		}
		c.check(ok, st, "algorithm", lbl+" "+kind, pos, "%s stores the algorithm %s for the requested %s", lbl, algo, ra)
		p := val("Period")
		c.check(st.same(p, req("MfaToken.Period")) && within(st, p, cint(30), cint(300)), st, "period", lbl, pos, "%s stores the period %s, which is not known to be the requested one and within 30 to 300", lbl, p)
		d, rd := val("Digits"), req("MfaToken.Digits")
		def := st.same(d, cint(6)) && st.same(rd, tZero)
		c.check(def || st.same(d, rd) && within(st, d, cint(4), cint(8)), st, "digits", lbl, pos, "%s stores %s digits for the requested %s", lbl, d, rd)
		sec := val("Secret")
		why := "no comparison with a computed code is known to have succeeded"
		for _, a := range c.acceptedCodes(st) {
			switch {
			case a.bad != "":
				why = a.bad
			case !st.same(a.pass, req("MfaToken.Passcode")):
				why = "what was compared is not the passcode of the request"
			case !st.same(a.secret, sec) || !st.same(a.secret, req("MfaToken.Secret")):
				why = fmt.Sprintf("the passcode was proven for the secret %s, not the stored %s", a.secret, sec)
			case a.kind != kind:
				why = "the passcode was proven for the algorithm " + a.kind
			case !st.same(a.period, p):
				why = fmt.Sprintf("the passcode was proven for the period %s", a.period)
			case a.digits == nil && !d.isConst() || a.digits != nil && !st.same(a.digits, d):
				why = fmt.Sprintf("the passcode was proven for %s digits", a.digits)
			case a.shift < -1 || a.shift > 1:
				why = fmt.Sprintf("the passcode was proven for the period %+d", a.shift)
			case !nearNow(st, a.at, p):
				why = fmt.Sprintf("the passcode was proven for the time %s", a.at)
			case !st.hasLen(a.pass, a.norm, d):
				why = "the length of the passcode is not known to be the number of digits"
			default:
				why = ""
			}
			if why == "" {
				break
			}
		}
		c.check(why == "", st, "passcode", lbl+" "+kind, pos, "%s creates a TOTP token although %s", lbl, why)
	})
}

// nearNow recognises the current time, or one period before or after it.
func nearNow(st *State, t, period *Term) bool {
	for i := 0; i < 4 && t != nil && t.op == "call"; i++ {
		if isNow(t) {
			return true
		}
		switch {
		case t.s == "(time.Time).UTC" || t.s == "(time.Time).Local":
		case t.s == "(time.Time).Add" && len(t.args) > 1:
			d := bareNum(t.args[1])
			if d.op != "bin*" {
				if n, ok := d.intVal(); !ok || n < -300e9 || n > 300e9 {
					return false
				}
				break
			}
			a, b := bareNum(d.args[0]), bareNum(d.args[1])
			if a.isConst() {
				a, b = b, a
			}
			if a.op == "neg" {
				a = bareNum(a.args[0])
			}
			n, ok := b.intVal()
			if !ok || !st.same(a, period) || n != 1e9 && n != -1e9 {
				return false
			}
		default:
			return false
		}
		t = t.args[0]
	}
	return false
}

func checkC22(c *Check) {
	c.rule("challenge", 1, "a U2F token is created only with a session challenge that is not empty")
	c.rule("payload", 1, "everything checked and stored was decoded from the registration payload of the request")
	c.rule("credential id", 1, "the credential id is not empty")
	c.rule("key type", 1, "the credential type is public-key")
	c.rule("transports", 1, "all transports are among usb, nfc, ble and internal")
	c.rule("relying party", 1, "the attested relying-party hash is not empty")
	c.rule("attestation", 1, "attested flags and public key are present")
	c.rule("public key", 1, "the public key has key type 2 (EC2), algorithm -7 (ES256) and, if it names a curve, curve 1 (P-256)")
	c.rule("stored", 1, "what is stored as credential id, relying-party hash, flags, signature counter and key coordinates is what the payload has")
	allowed := []string{"usb", "nfc", "ble", "internal"}
	isTransports := func(t *Term) bool {
		_, p, ok := decodedField(t)
		return ok && p == "Transports"
	}
	elemOK := func(st *State, e *Term) bool {
		for _, a := range allowed {
			if st.same(e, cstr(a)) {
				return true
			}
		}
		// looked up in a fixed table of names
		for _, f := range sortedFacts(st) {
			if f.op == "has" && f.args[1] == e || f.op == "load" && f.args[0].op == "melem" && f.args[0].args[1] == e {
				mp := f.args[0]
				if f.op == "load" {
					mp = f.args[0].args[0]
				}
				if keys := st.mapKeys(mp); keys != nil {
					in := true
					for _, k := range keys {
						s, ok := k.strVal()
						in = in && ok && contains(allowed, s)
					}
					if in {
						return true
					}
				}
			}
		}
		return false
	}
	h := &Hooks{}
	// Copying the attested flags one by one: each goes where it came from.
	isFlags := func(t *Term) bool {
		_, p, ok := decPath(t)
		return ok && p == "AttestationObject.AuthData.Flags"
	}
	h.MapWrite = func(m *Machine, st *State, mp, key, v *Term, in ssa.Instruction) {
		if key.op == "key" && key.args[0].op == "iter" && isFlags(key.args[0].args[0]) {
			if old, k, ok := mapVal(v); ok && isFlags(old) && k == key {
				st.tags["flag put "+fmt.Sprint(key.args[1].id)] = tTrue
				st.tags["flags into"] = mp
				return
			}
		}
		st.tags["other flags "+mp.String()] = tTrue
	}
	h.BackEdge = func(m *Machine, st *State, l *LoopInfo) {
		if k := fmt.Sprint(l.ctx.id); l.coll != nil && !l.iter && isFlags(l.coll) && st.tags["flag put "+k] == nil {
			st.tags["not flags "+k] = tTrue
		}
	}
	h.LoopExit = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter && isFlags(l.coll) && st.tags["not flags "+fmt.Sprint(l.ctx.id)] == nil {
			st.tags["flags copied"] = tTrue
		}
	}
	scans(h, scanRule{"transports", func(st *State, coll *Term) bool { return isTransports(coll) }, elemOK})
	c.enrolments(h, func(f *ssa.Function, lbl, pos string, req func(string) *Term, st *State, tok *Term) {
		val := func(k string) *Term { return st.valueAt(fieldAddr2(tok, "", k)) }
		if st.same(val("Type"), cstr("totp")) {
			return
		}
		ch := req("WebAuthn.Challenge")
		c.check(st.fails(tEq(ch, tEmpty)), st, "challenge", lbl, pos, "%s creates a U2F token although the session challenge is not known to be set", lbl)
		// the decoded registration
		var content *Term
		for _, t := range nilFacts(st) {
			if t.op == "call" && t.s == "encoding/json.Unmarshal" {
				if b, ok := decodedFrom(t.args[0]); ok && st.same(b, req("WebAuthn.Register")) {
					content = t.args[0]
				}
			}
		}
		if !c.check(content != nil, st, "payload", lbl, pos, "%s creates a U2F token although no registration payload is known to have been decoded", lbl) {
			return
		}
		dec := func(path string) *Term {
			for _, t := range st.decoded(path) {
				if ct, _, _ := decPath(t); sameContentTerm(st, ct, content) || ct == content {
					return t
				}
			}
			return nil
		}
		set := func(path string) bool {
			t := dec(path)
			if t == nil {
				return false
			}
			if isString(t.typ) {
				return st.fails(tEq(t, tEmpty))
			}
			return st.fails(tEq(t, tNil))
		}
		c.check(set("ID"), st, "credential id", lbl, pos, "%s creates a U2F token although the credential id is not known to be set", lbl)
		ty := dec("Type")
		c.check(ty != nil && st.same(ty, cstr("public-key")), st, "key type", lbl, pos, "%s creates a U2F token although the credential type is not known to be public-key", lbl)
		tr := st.tags["transports"]
		c.check(tr != nil || dec("Transports") != nil && st.same(tLen(dec("Transports")), tZero), st, "transports", lbl, pos, "%s creates a U2F token although not all transports are known to be supported", lbl)
		const ad = "AttestationObject.AuthData."
		c.check(set(ad+"RelyingPartyID"), st, "relying party", lbl, pos, "%s creates a U2F token although the relying-party hash is not known to be set", lbl)
		c.check(set(ad+"Flags") && set(ad+"CredentialData.PublicKey"), st, "attestation", lbl, pos, "%s creates a U2F token although flags and public key are not known to be present", lbl)
		pk := dec(ad + "CredentialData.PublicKey")
		entry := func(k string) (v *Term, has int) {
			if pk == nil {
				return nil, 0
			}
			h := mkHas(pk, cstr(k))
			a := mkMelem(pk, cstr(k), types.NewInterfaceType(nil, nil))
			hv := st.read(h, types.Typ[types.Bool])
			if st.holds(hv) {
				has = 1
			} else if st.fails(hv) {
				has = -1
			}
			return st.read(a, types.NewInterfaceType(nil, nil)), has
		}
		num := func(k string, want int64) bool {
			for _, f := range sortedFacts(st) {
				if f.op != "eq" {
					continue
				}
				for i := 0; i < 2; i++ {
					n, ok := f.args[i].intVal()
					x := bareNum(f.args[1-i])
					if !ok || n != want || x.op != "assert" && x.op != "ext" {
						continue
					}
					for x.op == "ext" || x.op == "assert" {
						x = x.args[0]
					}
					if mp, key, ok := mapVal(x); ok && mp == pk {
						if s, _ := key.strVal(); s == k {
							return true
						}
					}
				}
			}
			return false
		}
		_, hasCurve := entry("curve_type")
		c.check(num("key_type", 2), st, "public key", lbl+" key type", pos, "%s creates a U2F token although the key type is not known to be EC2", lbl)
		c.check(num("algorithm", -7), st, "public key", lbl+" algorithm", pos, "%s creates a U2F token although the algorithm is not known to be ES256", lbl)
		c.check(num("curve_type", 1) || hasCurve == -1, st, "public key", lbl+" curve", pos, "%s creates a U2F token although the named curve is not known to be P-256", lbl)
		// what is stored
		params := val("Parameters")
		stored := func(k string) *Term {
			return st.read(mkMelem(params, cstr(k), types.Typ[types.String]), types.Typ[types.String])
		}
		for k, p := range map[string]string{"u2f_id": "ID", "rp_id_hash": ad + "RelyingPartyID"} {
			w := dec(p)
			c.check(w != nil && st.same(stored(k), w), st, "stored", lbl+" "+k, pos, "%s stores %s as %s, which is not what the payload has", lbl, stored(k), k)
		}
		flags := val("Flags")
		if w := dec(ad + "Flags"); w == nil || !st.same(flags, w) {
			into := st.tags["flags into"]
			ok := st.tags["flags copied"] != nil && (into == nil || into == flags) && st.tags["other flags "+flags.String()] == nil
			c.check(ok, st, "stored", lbl+" flags", pos, "%s stores flags that are not known to be those of the payload", lbl)
		}
		w := dec(ad + "SignatureCounter")
		c.check(w != nil && st.same(val("SignatureCounter"), w), st, "stored", lbl+" counter", pos, "%s stores the signature counter %s", lbl, val("SignatureCounter"))
		for k, p := range map[string]string{"curve_xcoord": "curve_x", "curve_ycoord": "curve_y"} {
			v := stored(k)
			_, has := entry(p)
			ok := false
			x := v
			for x.op == "assert" || x.op == "ext" {
				x = x.args[0]
			}
			if mp, key, is := mapVal(x); is && mp == pk {
				s, _ := key.strVal()
				ok = s == p
			}
			ok = ok || has == -1 && st.same(v, tEmpty)
			c.check(ok, st, "stored", lbl+" "+k, pos, "%s stores %s as %s, which is not what the payload has", lbl, v, k)
		}
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// sortedFacts lists the facts that hold, in a fixed order.
func sortedFacts(st *State) []*Term {
	var l []*Term
	for f, v := range st.facts {
		if v {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// decPath recognises a value of the structure decoded from some content.
func decPath(t *Term) (content *Term, path string, ok bool) {
	if t == nil {
		return nil, "", false
	}
	if t.op == "dec" {
		return t.args[0], t.s, true
	}
	if t.op != "load" {
		return nil, "", false
	}
	a, p := t.args[0], ""
	for a.op == "fld" {
		p = "." + a.s + p
		a = a.args[0]
	}
	if p == "" {
		return nil, "", false
	}
	content, q, ok := decPath(a)
	return content, q + p, ok
}

// decoded lists the decoded values of a path that a state mentions.
func (st *State) decoded(path string) []*Term {
	set := map[*Term]bool{}
	add := func(t *Term) {
		t.walk(func(y *Term) bool {
			if _, p, ok := decPath(y); ok && p == path {
				set[y] = true
			}
			return true
		})
	}
	for f := range st.facts {
		add(f)
	}
	for _, v := range st.heap {
		if v != nil {
			add(v)
		}
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// mapKeys lists the keys of a map that the program itself fills with constants,
// nil if they are not all known.
func (st *State) mapKeys(mp *Term) []*Term {
	if mp == nil {
		return nil
	}
	var l []*Term
	for a, v := range st.heap {
		if a.op == "has" && a.args[0] == mp && v == tTrue {
			l = append(l, a.args[1])
		}
	}
	if !isFresh(mp) && mp.op != "mkmap" {
		return nil
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// isConstTable recognises an element of a list of constants.
func isConstTable(st *State, t *Term) bool {
	coll, _, ok := elemOf(t)
	if !ok || !isFresh(rootOf(coll)) {
		return false
	}
	n := 0
	for a, v := range st.heap {
		if a.op == "idx" && a.args[0] == coll {
			if v == nil || !v.isConst() || !a.args[1].isConst() {
				return false
			}
			n++
		}
	}
	return n > 0
}

// bit is one bit of a number: a constant, or a bit of a byte of a hash value.
type bit struct {
	src *Term // index of the byte; nil: constant
	n   int
}

type bits [64]bit

// bitsOf follows where the bits of an integer come from.
func bitsOf(st *State, t *Term, sum *Term, d int) (r bits, ok bool) {
	if t == nil || d > 30 {
		return r, false
	}
	if n, isc := t.intVal(); isc {
		for i := range r {
			r[i].n = int(uint64(n) >> uint(i) & 1)
		}
		return r, true
	}
	trunc := func() {
		w, signed, ok2 := sizeOf(t.typ)
		if !ok2 {
			ok = false
			return
		}
		if signed && w < 64 && r[w-1] != (bit{}) {
			ok = false
		}
		for i := w; i < 64; i++ {
			r[i] = bit{}
		}
	}
	if coll, i, is := elemOf(t); is && hashValue(coll) == sum {
		for k := 0; k < 8; k++ {
			r[k] = bit{i, k}
		}
		return r, true
	}
	switch {
	case t.op == "conv":
		r, ok = bitsOf(st, t.args[0], sum, d+1)
		if ok {
			trunc()
		}
		return r, ok
	case t.op == "call" && strings.HasPrefix(t.s, "(encoding/binary.bigEndian).Uint"):
		w := 4
		if strings.HasSuffix(t.s, "16") {
			w = 2
		} else if !strings.HasSuffix(t.s, "32") {
			return r, false
		}
		x := t.args[len(t.args)-1]
		if x.op != "slice" && x.op != "sub" || hashValue(x.args[0]) != sum {
			return r, false
		}
		base, k0 := addConst(x.args[1])
		for k := 0; k < w; k++ {
			i := cint(k0 + int64(k))
			if base != nil && !base.isConst() {
				i = mkAdd(base, k0+int64(k))
			}
			for j := 0; j < 8; j++ {
				r[(w-1-k)*8+j] = bit{i, j}
			}
		}
		return r, true
	case !strings.HasPrefix(t.op, "bin"):
		return r, false
	}
	x, ok1 := bitsOf(st, t.args[0], sum, d+1)
	if !ok1 {
		return r, false
	}
	op := t.op[3:]
	if op == "<<" || op == ">>" {
		n, isc := t.args[1].intVal()
		if !isc || n < 0 || n > 63 {
			return r, false
		}
		for i := range r {
			if j := i - int(n); op == "<<" && j >= 0 {
				r[i] = x[j]
			}
			if j := i + int(n); op == ">>" && j < 64 {
				r[i] = x[j]
			}
		}
		ok = true
		trunc()
		return r, ok
	}
	y, ok2 := bitsOf(st, t.args[1], sum, d+1)
	if !ok2 {
		return r, false
	}
	isc := func(b bit, n int) bool { return b.src == nil && b.n == n }
	for i := range r {
		a, b := x[i], y[i]
		switch op {
		case "&":
			switch {
			case isc(a, 0) || isc(b, 0):
			case isc(a, 1):
				r[i] = b
			case isc(b, 1) || a == b:
				r[i] = a
			default:
				return r, false
			}
		case "|":
			switch {
			case isc(a, 1) || isc(b, 1):
				r[i].n = 1
			case isc(a, 0):
				r[i] = b
			case isc(b, 0) || a == b:
				r[i] = a
			default:
				return r, false
			}
		case "+", "^":
			switch {
			case isc(a, 0):
				r[i] = b
			case isc(b, 0):
				r[i] = a
			default:
				return r, false
			}
		case "%":
			// by a power of two
			n, isn := t.args[1].intVal()
			if !isn || n <= 0 || n&(n-1) != 0 {
				return r, false
			}
			if n>>uint(i) > 1 {
				r[i] = a
			}
		default:
			return r, false
		}
	}
	ok = true
	trunc()
	return r, ok
}

func hashValue(t *Term) *Term {
	for t != nil && (t.op == "bytes" || t.op == "str") {
		t = t.args[0]
	}
	if t != nil && t.op == "hsum" {
		return t
	}
	return nil
}

func mkAdd(t *Term, k int64) *Term {
	if k == 0 {
		return t
	}
	return mk("bin+", "", types.Typ[types.Int], nil, t, cint(k))
}

// rfcCode compares a code with the truncation that RFC 4226 prescribes.
func rfcCode(st *State, code, digits *Term) string {
	var n, width *Term
	switch {
	case code.op == "fmtw" && (code.s == "%0*d" || code.s == "%0*v"):
		width, n = bareNum(code.args[0]), code.args[1]
	case code.op == "concat" && len(code.args) == 2:
		z, v := code.args[0], code.args[1]
		if z.op == "call" && z.s == "strings.Repeat" && z.args[0] == cstr("0") {
			w := bareNum(z.args[1])
			if w.op == "bin-" && w.args[1].op == "len" && w.args[1].args[0] == v {
				width = w.args[0]
			}
		}
		if (v.op == "fmt" || v.op == "call") && len(v.args) > 0 {
			n = v.args[0]
		}
	}
	if n == nil || width == nil {
		return fmt.Sprintf("the code %s is not padded with zeros", code)
	}
	if width != digits {
		return fmt.Sprintf("the code is padded to %s digits", width)
	}
	n = bareNum(n)
	if n.op != "bin%" {
		return "the code is not a remainder"
	}
	mod := bareNum(n.args[1])
	pow := mod.op == "call" && mod.s == "math.Pow10" && bareNum(mod.args[0]) == digits
	pow = pow || mod.op == "call" && mod.s == "math.Pow" && bareNum(mod.args[1]) == digits && mod.args[0].isConst() && mod.args[0].String() == "10"
	if coll, i, ok := elemOf(mod); ok && isConstTable(st, mod) && bareNum(i) == digits {
		pow = true
		p := int64(1)
		for k := int64(0); k <= 8; k++ {
			if k >= 4 {
				v, ok := st.read(mkIdx(coll, cint(k), mod.typ), mod.typ).intVal()
				pow = pow && ok && v == p
			}
			p *= 10
		}
	}
	if !pow {
		return fmt.Sprintf("the code is the remainder by %s, not by 10^digits", mod)
	}
	var sum *Term
	n.args[0].walk(func(t *Term) bool {
		if t.op == "hsum" && sum == nil {
			sum = t
		}
		return sum == nil
	})
	b, ok := bitsOf(st, n.args[0], sum, 0)
	if !ok {
		return "it cannot be told which bits of the hash value make up the code"
	}
	for i := 0; i < 64; i++ {
		if i >= 31 {
			if b[i] != (bit{}) {
				return fmt.Sprintf("bit %d of the truncated value is not 0", i)
			}
			continue
		}
		if b[i].src == nil || b[i].n != i%8 {
			return fmt.Sprintf("bit %d of the truncated value is not bit %d of a byte", i, i%8)
		}
		base, k := addConst(b[i].src)
		if k != int64(3-i/8) {
			return fmt.Sprintf("bit %d of the truncated value comes from byte %s", i, b[i].src)
		}
		// the low four bits of the last byte
		ob, ok := bitsOf(st, base, sum, 0)
		if !ok {
			return fmt.Sprintf("the offset %s is not the low half of the last byte", base)
		}
		for j := range ob {
			if j >= 4 {
				if ob[j] != (bit{}) {
					return "the offset has more than four bits"
				}
				continue
			}
			if ob[j].src == nil || ob[j].n != j {
				return "the offset is not made of the low bits of a byte"
			}
			lb, lk := addConst(ob[j].src)
			if lb == nil || lb.op != "len" || hashValue(lb.args[0]) != sum || lk != -1 {
				return fmt.Sprintf("the offset is taken from byte %s, not from the last one", ob[j].src)
			}
		}
	}
	return ""
}

func checkC40(c *Check) {
	c.rule("hash", 3, "the code is computed from HMAC, keyed with exactly the secret, of exactly the big-endian 64-bit counter")
	c.rule("truncation", 3, "the number is the 31 low bits of the four bytes of the hash value at the offset in the low half of its last byte, modulo ten to the number of digits, padded with zeros to that number: every bit is traced to the hash value")
	f := c.fn("", "MfaToken.ValidateCodeWithTime")
	if f == nil {
		return
	}
	pos := c.p.pos(f.Pos())
	tok := c.param(f, 0)
	digits := entryLoad(fieldAddr2(tok, "", "Digits"))
	good, _ := c.split(c.run(f, nil))
	c.some(good, f)
	for _, r := range good {
		l := c.acceptedCodes(r.st)
		if !c.check(len(l) > 0, r.st, "hash", "code", pos, "a passcode is accepted that was compared with no code") {
			continue
		}
		for _, a := range l {
			if a.bad == "" && a.secret != entryLoad(fieldAddr2(tok, "", "Secret")) {
				a.bad = fmt.Sprintf("the key is %s", a.secret)
			}
			if c.check(a.bad == "", r.st, "hash", "code "+a.kind, pos, "the code does not follow RFC 6238: %s", a.bad) {
				why := rfcCode(r.st, a.code, digits)
				c.check(why == "", r.st, "truncation", "code "+a.kind, pos, "the code does not follow RFC 4226: %s", why)
			}
		}
	}
}
