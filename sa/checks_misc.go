package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = checkC29
	checks["C36"] = checkC36
	checks["C37"] = checkC37
}

// ---- C29

// nonEmpty decides that a text is not empty.
func (st *State) nonEmpty(s *Term) bool {
	if lo, _, ok, _ := st.bounds(tLen(s)); ok && lo >= 1 {
		return true
	}
	if st.fails(tEq(s, cstr(""))) {
		return true
	}
	for f, v := range st.facts {
		if f.op != "eq" || v {
			continue
		}
		for i := 0; i < 2; i++ {
			if e, ok := f.args[1-i].strVal(); ok && e == "" {
				if k, _ := stripNorm(f.args[i]); k == s {
					return true
				}
			}
		}
	}
	return false
}

// inRange decides that a number lies between two limits.
func (st *State) inRange(t *Term, lo, hi int64) bool {
	l, h, lok, hok := st.bounds(t)
	return lok && hok && l >= lo && h <= hi
}

// getterField is the unexported field that a getter reads.
func (c *Check) getterField(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	for _, o := range c.run(f, nil) {
		if o.panics || len(o.res) != 1 {
			continue
		}
		if k := valKey(o.res[0]); k != "" {
			return k[strings.LastIndex(k, ".")+1:]
		}
	}
	c.undecided("%s reads no field", f)
	return ""
}

// flatText is the list of the pieces that a text is put together from.
func flatText(st *State, t *Term) (l []*Term) {
	if t.op == "concat" {
		for _, a := range t.args {
			l = append(l, flatText(st, a)...)
		}
		return
	}
	if t.op == "str" && len(t.args) > 0 {
		if s := textOf(st, t.args[0]); s != nil && s != t {
			return flatText(st, s)
		}
	}
	if k := st.constOf(t); k != nil {
		t = k
	}
	return []*Term{t}
}

// numberText recognises the decimal digits of a number.
func numberText(t *Term) *Term {
	switch {
	case t.op == "fmt" && (t.s == "%d" || t.s == "%v" || t.s == "%s"):
		return t.args[0]
	case t.op == "fmt" && len(t.args) > 1:
		return t.args[len(t.args)-1]
	case t.op == "call" && (t.s == "strconv.Itoa" || t.s == "fmt.Sprint"):
		return t.args[0]
	case t.op == "call" && (t.s == "strconv.FormatInt" || t.s == "strconv.FormatUint") && len(t.args) == 2:
		if b, ok := t.args[1].intVal(); ok && b == 10 {
			return t.args[0]
		}
	}
	return nil
}

func unconv(t *Term) *Term {
	for t != nil && t.op == "conv" && isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

func checkC29(c *Check) {
	c.rule("valid", 1, "a code is built only on paths on which every field is known to be within the limits")
	c.rule("text", 1, "the text of the code is made only of fixed text, the valid type, algorithm and numbers, the escaped label and issuer and the base32 text of the secret, each under its own name, and none is left out")
	c.rule("encoded", 1, "the encoded form is the base64 of the same text")
	c.rule("failure", 1, "a failed build leaves the text and the encoded form as they were")
	c.rule("only built", 1, "nothing but a build writes the text or the encoded form")
	f := c.fn("pkg/qr", "Code.Build")
	text, enc := c.getterField(c.fn("pkg/qr", "Code.Get")), c.getterField(c.fn("pkg/qr", "Code.GetEncoded"))
	if f == nil || text == "" || enc == "" {
		return
	}
	pos := c.p.pos(f.Pos())
	old := func(p string) *Term { return c.reqVal(f, 0, p) }
	now := func(st *State, p string) *Term { return st.valueAt(fieldAddr(c.param(f, 0), p)) }
	good, fail := c.split(c.run(f, nil))
	c.some(good, f)
	for _, r := range fail {
		c.check(now(r.st, text) == old(text) && now(r.st, enc) == old(enc), r.st, "failure", "Build", pos, "a failed build changes the code to %s", now(r.st, text))
	}
	bad := func(st *State, rule, s string, a ...interface{}) { c.bad(st, rule, "Build", pos, s, a...) }
	for _, r := range good {
		st := r.st
		c.ok("valid", "Build")
		c.ok("text", "Build")
		if !st.nonEmpty(old("Label")) {
			bad(st, "valid", "a code is built although the label may be empty")
		}
		if lo, _, ok, _ := st.bounds(tLen(old("Secret"))); !ok || lo < 6 {
			bad(st, "valid", "a code is built although the secret may have fewer than 6 characters")
		}
		isType := func(s string) bool { return st.same(old("Type"), cstr(s)) }
		if !isType("totp") && !isType("hotp") {
			bad(st, "valid", "a code is built although the type may be neither totp nor hotp")
		}
		if isType("hotp") {
			if lo, _, ok, _ := st.bounds(old("Counter")); !ok || lo < 1 {
				bad(st, "valid", "a code is built although the counter may be less than 1")
			}
		}
		isAlgo := func(s string) bool {
			return st.same(old("Algorithm"), cstr(s)) || st.same(lower(old("Algorithm")), cstr(s)) || st.holds(mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, old("Algorithm"), cstr(s)))
		}
		noAlgo := isAlgo("") || st.same(tLen(old("Algorithm")), tZero)
		if !noAlgo && !isAlgo("sha1") && !isAlgo("sha256") && !isAlgo("sha512") {
			bad(st, "valid", "a code is built although the algorithm may be unsupported")
		}
		num := func(t *Term, field string, def, lo, hi int64) {
			t = unconv(t)
			n, isConst := t.intVal()
			unset := st.same(old(field), tZero)
			switch {
			case !st.inRange(t, lo, hi):
				bad(st, "valid", "a code is built with %s %s, which may be outside %d to %d", strings.ToLower(field), t, lo, hi)
			case unset && (!isConst || n != def), !unset && t != old(field) && !st.same(t, old(field)):
				bad(st, "valid", "a code is built with %s %s", strings.ToLower(field), t)
			}
		}
		// the text
		got := now(st, text)
		var sb strings.Builder
		parts := flatText(st, got)
		for i, t := range parts {
			if s, ok := t.strVal(); ok {
				sb.WriteString(s)
				continue
			}
			fmt.Fprintf(&sb, "\x01%d\x02", i)
		}
		s := sb.String()
		value := func(v string) *Term {
			if strings.Count(v, "\x01") == 1 && strings.HasPrefix(v, "\x01") && strings.HasSuffix(v, "\x02") {
				n := 0
				fmt.Sscanf(v[1:], "%d", &n)
				return parts[n]
			}
			if strings.Contains(v, "\x01") {
				return nil
			}
			return cstr(v)
		}
		head, query, _ := strings.Cut(s, "?")
		kind, label, _ := strings.Cut(strings.TrimPrefix(head, "otpauth://"), "/")
		if !strings.HasPrefix(head, "otpauth://") {
			bad(st, "text", "the text begins with %s", parts[0])
			continue
		}
		if t := value(kind); t == nil || t != old("Type") && !st.same(t, old("Type")) {
			bad(st, "text", "the type is written as %s", t)
		}
		escaped := func(t *Term, p string, path bool) bool {
			if t == nil || t.op != "call" || t.s != "net/url.QueryEscape" && (!path || t.s != "net/url.PathEscape") {
				return false
			}
			k, _ := stripNorm(t.args[0])
			return k == old(p)
		}
		if t := value(label); !escaped(t, "Label", true) {
			bad(st, "text", "the label is written as %s", t)
		}
		seen := map[string]bool{}
		for _, kv := range strings.Split(query, "&") {
			k, v, _ := strings.Cut(kv, "=")
			t := value(v)
			if seen[k] || t == nil {
				bad(st, "text", "the parameter %q is written twice, or of several parts", k)
				continue
			}
			seen[k] = true
			switch k {
			case "secret":
				x, norm := stripNorm(t)
				ok := len(norm) == 0 || len(norm) == 1 && (norm[0] == "TrimRight" || norm[0] == "ReplaceAll")
				if x.op == "call" && strings.HasSuffix(x.s, "base32.Encoding).EncodeToString") && len(x.args) == 2 {
					e := x.args[0]
					for e.op == "call" && strings.HasSuffix(e.s, "base32.Encoding).WithPadding") {
						e = e.args[0]
					}
					ok = ok && strings.Contains(e.String(), "base32.StdEncoding") && textOf(st, x.args[1]) == old("Secret")
				} else {
					ok = false
				}
				if !ok {
					bad(st, "text", "the secret is written as %s", t)
				}
			case "issuer":
				if !escaped(t, "Issuer", false) {
					bad(st, "text", "the issuer is written as %s", t)
				}
			case "algorithm":
				x, norm := stripNorm(t)
				w, isConst := t.strVal()
				if !(x == old("Algorithm") && !(len(norm) > 1) || isConst && isAlgo(w)) || noAlgo {
					bad(st, "text", "the algorithm is written as %s", t)
				}
			case "digits", "period", "counter":
				n := numberText(t)
				if w, ok := t.strVal(); ok {
					var d int64
					if _, err := fmt.Sscanf(w, "%d", &d); err == nil && fmt.Sprint(d) == w {
						n = cint(d)
					}
				}
				if n == nil {
					bad(st, "text", "%s is written as %s", k, t)
					continue
				}
				switch k {
				case "digits":
					num(n, "Digits", 6, 4, 8)
				case "period":
					num(n, "Period", 30, 30, 180)
				case "counter":
					if n = unconv(n); n != old("Counter") && !st.same(n, old("Counter")) {
						bad(st, "text", "the counter is written as %s", t)
					}
				}
			default:
				bad(st, "text", "there is a parameter %q", k)
			}
		}
		for _, k := range []string{"secret", "digits", "period"} {
			if !seen[k] {
				bad(st, "text", "%s is left out", k)
			}
		}
		if !seen["issuer"] && !st.same(old("Issuer"), cstr("")) && !st.same(tLen(old("Issuer")), tZero) {
			bad(st, "text", "the issuer is left out although there may be one")
		}
		if !seen["algorithm"] && !noAlgo {
			bad(st, "text", "the algorithm is left out although there may be one")
		}
		if !seen["counter"] && isType("hotp") {
			bad(st, "text", "the counter is left out")
		}
		e := now(st, enc)
		ok := e.op == "call" && strings.HasSuffix(e.s, "base64.Encoding).EncodeToString") && strings.Contains(e.args[0].String(), "base64.StdEncoding")
		if ok {
			x := textOf(st, e.args[1])
			ok = x == got || x != nil && fmt.Sprint(flatText(st, x)) == fmt.Sprint(parts)
		}
		c.check(ok, st, "encoded", "Build", pos, "the encoded form is %s, which is not known to be the base64 of the text", e)
	}
	for _, g := range c.libAPI() {
		if g == f || g.Pkg != f.Pkg {
			continue
		}
		h := &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			for _, y := range expand(a) {
				if k := fldKey(y); (k == "qr.Code."+text || k == "qr.Code."+enc) && !isFresh(deepRoot(y)) {
					c.bad(st, "only built", funcLabel(g), c.p.instrPos(in), "%s writes %s", funcLabel(g), k)
				}
			}
		}}
		c.run(g, h)
		c.ok("only built", funcLabel(g))
	}
}

// ---- C36

// checkedParts decides that a value is made of a payload and constants only,
// and that no step on the way is known or may be assumed to have failed.
func checkedParts(st *State, t *Term, src func(*Term) bool) (why string) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || why != "" || t.isConst() || strings.HasPrefix(t.op, "ctx") {
			return
		}
		seen[t] = true
		if src(t) {
			return
		}
		switch t.op {
		case "ext":
			call := t.args[0]
			if call.op == "call" && call.typ != nil {
				if tu, ok := call.typ.(*types.Tuple); ok && tu.Len() > 1 {
					n := tu.Len() - 1
					if types.Identical(tu.At(n).Type(), types.Universe.Lookup("error").Type()) {
						if t.s == fmt.Sprint(n) {
							why = fmt.Sprintf("%s is used", t)
							return
						}
						e := mkExt(call, n)
						if !st.same(e, tNil) {
							why = fmt.Sprintf("%s may have failed", call.s)
							return
						}
					}
				}
			}
		case "param", "lv", "lvh", "unknown", "cbval", "cbarg":
			why = fmt.Sprintf("it is made from %s", t)
			return
		case "load":
			// read from something that was parsed
			walk(t.args[0])
			return
		case "global":
			return
		case "alloc", "mkmap", "mkslice":
			for a, w := range st.heap {
				if a != t && rootOf(a) == t {
					walk(w)
				}
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return
}

// mkExt is a result of a call.
func mkExt(call *Term, n int) *Term {
	tu := call.typ.(*types.Tuple)
	return mk("ext", fmt.Sprint(n), tu.At(n).Type(), nil, call)
}

// callsIn lists the calls that a value is made with, by name.
func callsIn(t *Term) map[string][]*Term {
	m := map[string][]*Term{}
	t.walk(func(y *Term) bool {
		if y.op == "call" {
			m[y.s] = append(m[y.s], y)
		}
		return true
	})
	return m
}

const sshPkg = "golang.org/x/crypto/ssh."

// barePrintOf strips what may have removed the prefix of a fingerprint, or
// white space, of which it has none.
func barePrintOf(t *Term) *Term {
	for t != nil && len(t.args) > 0 {
		arg := func(i int, want string) bool {
			if i >= len(t.args) {
				return false
			}
			s, ok := t.args[i].strVal()
			return ok && s == want
		}
		lo := int64(-1)
		if (t.op == "sub" || t.op == "slice") && len(t.args) == 3 && t.args[1] != nil && t.args[2] == nil {
			lo, _ = t.args[1].intVal()
		}
		switch {
		case t.op == "call" && t.s == "strings.TrimSpace":
		case t.op == "call" && t.s == "strings.TrimPrefix" && arg(1, "SHA256:"):
		case t.op == "call" && (t.s == "strings.ReplaceAll" || t.s == "strings.Replace") && arg(1, "SHA256:") && arg(2, ""):
		case lo == 7:
		default:
			return t
		}
		t = t.args[0]
	}
	return t
}

func checkC36(c *Check) {
	c.rule("usage", 3, "a key is accepted only with the usage ssh or gpg, which is kept")
	c.rule("parsed", 3, "a key is accepted only after its payload was parsed, without an error, as the kind of key that its usage calls for")
	c.rule("type", 3, "the type kept is the one of the parsed key")
	c.rule("fingerprint", 3, "the fingerprints kept are those of the parsed key")
	accepted := func(f *ssa.Function, st *State, p *Term, req int) {
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		get := func(k string) *Term { return st.valueAt(fieldAddr2(p, "", k)) }
		usage := c.reqVal(f, req, "Key.Usage")
		payload := c.reqVal(f, req, "Key.Payload")
		kind := ""
		for _, k := range []string{"ssh", "gpg"} {
			if st.same(usage, cstr(k)) {
				kind = k
			}
		}
		if !c.check(kind != "" && st.same(get("Usage"), usage), st, "usage", lbl, pos, "%s accepts a key whose usage is not known to be ssh or gpg, or keeps another", lbl) {
			return
		}
		fp := barePrintOf(get("Fingerprint"))
		isPayload := func(t *Term) bool { return t == payload }
		if kind == "ssh" {
			if !c.check(fp != nil && fp.op == "call" && fp.s == sshPkg+"FingerprintSHA256", st, "fingerprint", lbl, pos, "%s keeps the fingerprint %s", lbl, fp) {
				return
			}
			key := stripIface(fp.args[0])
			md, _ := stripNorm(get("FingerprintMD5"))
			c.check(md.op == "call" && md.s == sshPkg+"FingerprintLegacyMD5" && st.same(stripIface(md.args[0]), key), st, "fingerprint", lbl, pos, "%s keeps the MD5 fingerprint %s, which is not known to be that of %s", lbl, md, key)
			why := checkedParts(st, key, isPayload)
			calls := callsIn(key)
			switch {
			case why != "":
			case len(calls[sshPkg+"ParsePublicKey"]) > 0 || len(calls[sshPkg+"ParseAuthorizedKey"]) > 0:
			case len(calls[sshPkg+"NewPublicKey"]) > 0 && (len(calls["crypto/x509.ParsePKIXPublicKey"]) > 0 || len(calls["crypto/x509.ParsePKCS1PublicKey"]) > 0):
				for _, d := range calls["encoding/pem.Decode"] {
					b := mkExt(d, 0)
					if !st.same(st.valueAt(fieldAddr2(b, "", "Type")), cstr("RSA PUBLIC KEY")) {
						why = "the block is not known to be an RSA public key block"
					}
				}
			default:
				why = "it was not parsed"
			}
			c.check(why == "", st, "parsed", lbl, pos, "%s accepts a key for ssh although its payload is not known to have been parsed: %s", lbl, why)
			typ := get("Type")
			isType := func(t *Term) bool {
				return t.op == "call" && t.s == "("+sshPkg+"PublicKey).Type" && st.same(stripIface(t.args[0]), key)
			}
			ok, rsa := isType(typ), false
			for _, t := range st.eqClass(typ) {
				ok = ok || isType(t)
			}
			for g, v := range st.facts {
				if v && g.op == "eq" {
					for i := 0; i < 2; i++ {
						if w, is := g.args[1-i].strVal(); is && isType(g.args[i]) {
							rsa = rsa || w == "ssh-rsa"
							ok = ok || typ == g.args[1-i]
						}
					}
				}
			}
			c.check(ok && rsa, st, "type", lbl, pos, "%s keeps the type %s, which is not known to be that of the parsed key, an RSA key", lbl, typ)
			return
		}
		x, _ := stripNorm(fp)
		switch {
		case x != nil && x.op == "call" && x.s == "encoding/hex.EncodeToString":
			x = x.args[0]
		case x != nil && x.op == "fmt" && (x.s == "%x" || x.s == "%X"):
			x = stripIface(x.args[0])
		default:
			x = nil
		}
		for x != nil && (x.op == "slice" || x.op == "sub" || x.op == "bytes") {
			x = x.args[0]
		}
		entity := func(t *Term, field string) *Term {
			if t == nil {
				return nil
			}
			a := t
			if a.op == "load" {
				a = a.args[0]
			}
			if a.op == "fld" && strings.HasSuffix(fldKey(a), "PublicKey."+field) {
				return a.args[0]
			}
			return nil
		}
		key := entity(x, "Fingerprint")
		if !c.check(key != nil, st, "fingerprint", lbl, pos, "%s keeps the fingerprint %s", lbl, get("Fingerprint")) {
			return
		}
		why := checkedParts(st, key, isPayload)
		calls := callsIn(key)
		if why == "" && len(calls["golang.org/x/crypto/openpgp.ReadArmoredKeyRing"]) == 0 {
			why = "it was not parsed"
		}
		if why == "" {
			public := false
			for g, v := range st.facts {
				if v && g.op == "call" && g.s == "strings.HasPrefix" {
					k, _ := stripNorm(g.args[0])
					w, _ := g.args[1].strVal()
					public = public || k == payload && strings.HasPrefix(w, "-----BEGIN PGP PUBLIC KEY BLOCK")
				}
			}
			if !public {
				why = "it is not known to be a block of a public key"
			}
		}
		if why == "" {
			single := false
			key.walk(func(y *Term) bool {
				if y.op == "ext" && y.s == "0" && y.args[0].op == "call" && y.args[0].s == "golang.org/x/crypto/openpgp.ReadArmoredKeyRing" {
					lo, hi, l, h := st.bounds(tLen(y))
					single = single || l && h && lo == 1 && hi == 1
				}
				return true
			})
			if !single {
				why = "it may hold several keys"
			}
		}
		c.check(why == "", st, "parsed", lbl, pos, "%s accepts a key for gpg although its payload is not known to have been parsed as one: %s", lbl, why)
		typ := get("Type")
		w, _ := typ.strVal()
		algos := map[string][]int64{"rsa": {1, 2, 3}, "elgamal": {16, 20}, "dsa": {17}, "ecdh": {18}, "ecdsa": {19}, "eddsa": {22}}
		a := entryOr(st, key, "PubKeyAlgo")
		ok := false
		for _, n := range algos[w] {
			for g, v := range st.facts {
				if v && g.op == "eq" {
					for i := 0; i < 2; i++ {
						if k, is := g.args[1-i].intVal(); is && k == n && unconv(g.args[i]) == a {
							ok = true
						}
					}
				}
			}
		}
		c.check(ok, st, "type", lbl, pos, "%s keeps the type %s, which is not known to be that of the parsed key", lbl, typ)
	}
	if f := c.fn("", "NewPublicKey"); f != nil {
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			accepted(f, r.st, r.res[0], 0)
		}
	}
	for _, n := range []string{"User.AddPublicKey", "Database.AddPublicKey"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			k := 0
			var addrs []*Term
			for a := range st.heap {
				if fldKey(a) == "User.PublicKeys" && !isFresh(deepRoot(a)) {
					addrs = append(addrs, a)
				}
			}
			sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
			for _, a := range addrs {
				for _, p := range listParts(st, st.heap[a]) {
					if isFresh(p) {
						k++
						accepted(f, st, p, 1)
					}
				}
			}
			if k == 0 {
				c.bad(st, "parsed", funcLabel(f), c.p.pos(f.Pos()), "%s succeeds without adding a key", funcLabel(f))
			}
		}
	}
}

// entryOr is the value of a field of something that was returned by a call.
func entryOr(st *State, o *Term, field string) *Term {
	a := fieldAddr2(o, "", field)
	if a == nil || a.op != "fld" {
		return nil
	}
	return st.valueAt(a)
}

// ---- C37

// listPieces returns what a list is made of: its elements where they are known
// and the lists it was composed from where they are not.
func listPieces(st *State, t *Term) (l []*Term) {
	if t == nil {
		return nil
	}
	switch {
	case t.op == "appends":
		for _, a := range t.args {
			l = append(l, listPieces(st, a)...)
		}
	case t.op == "append":
		l = append(listPieces(st, t.args[0]), t.args[1:]...)
	case t.op == "slice":
		if _, ok := arrayLen(t.args[0]); ok {
			return listParts(st, t)
		}
		return []*Term{t}
	case t == tNil:
	default:
		return []*Term{t}
	}
	return l
}

func checkC37(c *Check) {
	c.rule("recorded", 2, "an entry is recorded only if it is one of the published list and its name, or an alias of the issuer, is known to match the given string")
	c.rule("refused", 2, "a string is refused only if every entry of the published list is known not to match it")
	c.rule("unchanged", 2, "a refusal leaves the card as it was, and nothing else of it is changed")
	c.rule("lists fixed", 20, "no operation changes the published lists")
	for _, k := range []struct {
		fn, field, global string
		alias             bool
	}{{"CreditCard.AddIssuer", "Issuer", "CreditCardIssuers", true}, {"CreditCard.AddAssociation", "Association", "CreditCardAssociations", false}} {
		k := k
		f := c.fn("", k.fn)
		if f == nil {
			continue
		}
		pos := c.p.pos(f.Pos())
		s := c.param(f, 1)
		isGlobal := func(l *Term) bool {
			return l != nil && l.op == "load" && l.args[0].op == "global" && strings.HasSuffix(l.args[0].String(), "."+k.global)
		}
		match := func(st *State, x *Term) bool {
			if st.same(s, x) || st.same(lower(x), s) || st.same(lower(x), lower(s)) || st.holds(mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, s, x)) || st.holds(mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, x, s)) {
				return true
			}
			return false
		}
		differ := func(st *State, x *Term) bool {
			return st.fails(tEq(s, x)) || st.fails(tEq(lower(s), lower(x))) || st.fails(mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, s, x)) || st.fails(mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, x, s))
		}
		// names tells whether a list consists of the name and the aliases of one
		// entry, and which of the two it holds.
		names := func(st *State, l *Term) (e *Term, name, aliases bool) {
			for _, p := range listPieces(st, l) {
				if p.op != "load" || p.args[0].op != "fld" {
					return nil, false, false
				}
				o := p.args[0].args[0]
				if e != nil && e != o {
					return nil, false, false
				}
				e = o
				switch {
				case strings.HasSuffix(valKey(p), "CreditCardIssuer.Aliases"):
					aliases = true
				case strings.HasSuffix(valKey(p), "CreditCardIssuer.Name"):
					name = true
				default:
					return nil, false, false
				}
			}
			return
		}
		h := &Hooks{}
		scans(h,
			scanRule{"no alias", func(st *State, coll *Term) bool { e, _, _ := names(st, coll); return e != nil }, differ},
			scanRule{"no entry", func(st *State, coll *Term) bool { return isGlobal(coll) }, func(st *State, e *Term) bool {
				name := differ(st, st.valueAt(fieldAddr2(e, "", "Name")))
				if !k.alias {
					return name
				}
				aliases := st.same(tLen(st.valueAt(fieldAddr2(e, "", "Aliases"))), tZero)
				if o, n, a := names(st, st.tags["no alias"]); o == e {
					name, aliases = name || n, aliases || a
				}
				return name && aliases
			}})
		good, fail := c.split(c.run(f, h))
		c.some(good, f)
		addr := fieldAddr(c.param(f, 0), k.field)
		others := func(st *State) string {
			for a, v := range st.heap {
				if a != addr && rootOf(a) == c.param(f, 0) && v != entryLoad(a) {
					return a.String()
				}
			}
			return ""
		}
		for _, r := range good {
			st := r.st
			e := st.valueAt(addr)
			l, _, ok := elemOf(e)
			ok = ok && isGlobal(l)
			if ok && !match(st, st.valueAt(fieldAddr2(e, "", "Name"))) {
				ok = false
				if k.alias {
					for fact := range st.facts {
						fact.walk(func(y *Term) bool {
							if l, i, is := elemOf(y); is && !strings.Contains(i.String(), "*") {
								if o, _, _ := names(st, l); o == e && match(st, y) {
									ok = true
								}
							}
							return !ok
						})
					}
				}
			}
			c.check(ok, st, "recorded", k.fn, pos, "%s records %s, which is not known to be an entry of the list that matches", k.fn, e)
			o := others(st)
			c.check(o == "", st, "unchanged", k.fn, pos, "%s changes %s", k.fn, o)
		}
		for _, r := range fail {
			st := r.st
			c.check(st.tags["no entry"] != nil, st, "refused", k.fn, pos, "%s refuses a string that may match an entry", k.fn)
			o := others(st)
			c.check(o == "" && st.valueAt(addr) == entryLoad(addr), st, "unchanged", k.fn, pos, "%s is refused but changes the card", k.fn)
		}
	}
	for _, f := range c.libAPI() {
		if f.Pkg.Pkg.Path() != modulePath {
			continue
		}
		lbl := funcLabel(f)
		fixed := func(a *Term) bool {
			r := deepRoot(a)
			return r == nil || r.op != "global" || !strings.Contains(r.String(), "CreditCard")
		}
		h := &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			if !fixed(a) {
				c.bad(st, "lists fixed", lbl, c.p.instrPos(in), "%s changes %s", lbl, a)
			}
		}, MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
			if !fixed(mp) {
				c.bad(st, "lists fixed", lbl, c.p.instrPos(in), "%s changes %s", lbl, mp)
			}
		}}
		c.run(f, h)
		c.ok("lists fixed", lbl)
	}
}
