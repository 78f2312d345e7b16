package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C45"] = checkC45
}

// nowUTC tells whether a term is the present time in UTC.
func nowUTC(t *Term) bool {
	for t != nil && t.op == "call" {
		switch t.s {
		case "(time.Time).Round", "(time.Time).Truncate":
			t = t.args[0]
			continue
		case "(time.Time).UTC":
			return nowOnly(t.args[0])
		case "(time.Time).In":
			return len(t.args) == 2 && strings.Contains(t.args[1].String(), "time.UTC") && nowOnly(t.args[0])
		}
		return false
	}
	return false
}

func isTime(t types.Type) bool {
	return t != nil && t.String() == "time.Time"
}

// zeroTime tells whether a term is the time that no one has set.
func zeroTime(t *Term) bool {
	return t == nil || t.op == "zerostruct" || t.op == "nil"
}

// itemLists are the lists whose new items a request describes.
var itemLists = map[string]string{"Users": "user", "APIKeys": "key", "PublicKeys": "key", "MfaTokens": "token", "Passwords": "password"}

// keepItems tags, along each path, the new item that was last put into a list.
func keepItems(h *Hooks) {
	store := h.Store
	h.Store = func(m *Machine, st *State, addr, val *Term, in ssa.Instruction) {
		if store != nil {
			store(m, st, addr, val, in)
		}
		if addr.op != "fld" || val == nil || itemLists[addr.s] == "" {
			return
		}
		for _, e := range listParts(st, val) {
			if isFresh(e) {
				st.tags["new "+addr.s] = e
			}
		}
	}
}

func checkC45(c *Check) {
	c.rule("as asked", 20, "a record that an operation creates has the name, address, usage, type and comment that were asked for")
	c.rule("enabled", 4, "a record that an operation creates is disabled if and only if that was asked for, and then carries the time of it")
	c.rule("every role", 1, "a new user is given every role that was asked for")
	c.rule("clock", 15, "a time that an operation records is the present one, in UTC")
	c.rule("created", 6, "a record that an operation creates carries the time of its creation")
	c.rule("disabling", 4, "disabling a password, key or token always marks it both disabled and expired, with the present time")

	field := func(st *State, o *Term, path string) *Term {
		for _, p := range strings.Split(path, ".") {
			if o == nil {
				return nil
			}
			o = st.valueAt(fieldAddr2(o, "", p))
		}
		return o
	}
	same := func(st *State, a, b *Term) bool {
		return a != nil && (a == b || st.same(a, b))
	}
	common := func(st *State, item *Term, lbl, pos, kind string) {
		created := "CreatedAt"
		if kind == "user" {
			created = "Created"
		}
		v := field(st, item, created)
		c.check(nowUTC(v), st, "created", lbl, pos, "%s makes a record created at %s", lbl, v)
	}
	enabled := func(st *State, item, asked *Term, lbl, pos string) {
		got := field(st, item, "Disabled")
		a, ok1 := st.decide(got)
		b, ok2 := st.decide(asked)
		c.check(got == asked || ok1 && ok2 && a == b, st, "enabled", lbl, pos, "%s makes a record whose being disabled is %s although %s was asked for", lbl, got, asked)
		at := field(st, item, "DisabledAt")
		if ok1 && a {
			c.check(nowUTC(at), st, "enabled", lbl, pos, "%s makes a disabled record with the time %s", lbl, at)
		} else if ok1 {
			c.check(zeroTime(at), st, "enabled", lbl, pos, "%s makes an enabled record with the time of disabling %s", lbl, at)
		}
	}

	type maker struct {
		fn    string
		r     int    // which parameter is the request
		list  string // the list it adds to, or "" if it returns the record
		kind  string
		wants map[string]string // field: part of the request
	}
	api := map[string]string{"Comment": "Key.Comment", "Usage": "Key.Usage"}
	mfa := map[string]string{"Comment": "MfaToken.Comment", "Type": "MfaToken.Type"}
	for _, k := range []maker{
		{"Database.AddUser", 1, "Users", "user", map[string]string{"Username": "User.Username", "EmailAddress.Address": "User.Email"}},
		{"NewAPIKey", 0, "", "key", api},
		{"User.AddAPIKey", 1, "APIKeys", "key", api},
		{"Database.AddAPIKey", 1, "APIKeys", "key", api},
		{"NewPublicKey", 0, "", "key", api},
		{"User.AddPublicKey", 1, "PublicKeys", "key", api},
		{"Database.AddPublicKey", 1, "PublicKeys", "key", api},
		{"NewMfaToken", 0, "", "token", mfa},
		{"User.AddMfaToken", 1, "MfaTokens", "token", mfa},
		{"Database.AddMfaToken", 1, "MfaTokens", "token", mfa},
	} {
		k := k
		f := c.fn("", k.fn)
		if f == nil {
			continue
		}
		pos := c.p.pos(f.Pos())
		h := &Hooks{}
		keepItems(h)
		if k.kind == "user" {
			roles := c.reqVal(f, k.r, "User.Roles")
			addRole, newRole := c.p.lookup(modulePath, "User.AddRole"), c.p.lookup(modulePath, "NewRole")
			enter := h.Enter
			h.Enter = func(m *Machine, st *State, fn *ssa.Function, args []*Term, in ssa.CallInstruction) {
				if enter != nil {
					enter(m, st, fn, args, in)
				}
				if fn == addRole || fn == newRole {
					if e := args[len(args)-1]; st.tags["asked role"] != e {
						st.tags["asked role"] = e
						delete(st.tags, "given role")
					}
				}
			}
			h.Return = func(m *Machine, st *State, fn *ssa.Function, res []*Term) {
				if fn == addRole && len(m.callPos) > 0 && st.same(res[0], tNil) {
					st.tags["given role"] = st.tags["asked role"]
				}
			}
			h.Append = func(m *Machine, st *State, base *Term, elems []*Term, res *Term, in ssa.Instruction) {
				if namedElem(res) != "Role" {
					return
				}
				for _, e := range elems {
					if isFresh(e) {
						st.tags["given role"] = st.tags["asked role"]
					}
				}
			}
			scans(h, scanRule{"roles", func(st *State, coll *Term) bool { return coll == roles }, func(st *State, e *Term) bool {
				ok := st.tags["given role"] == e
				delete(st.tags, "given role")
				delete(st.tags, "asked role")
				return ok
			}})
			// The name is read from the full name.
			parse := c.p.lookup(modulePath, "ParseName")
			full := c.reqVal(f, k.r, "User.FullName")
			e2 := h.Enter
			h.Enter = func(m *Machine, st *State, fn *ssa.Function, args []*Term, in ssa.CallInstruction) {
				e2(m, st, fn, args, in)
				if fn == parse {
					c.check(unwrapText(args[0]) == full, st, "as asked", k.fn+" full name", c.p.instrPos(in), "%s reads the name of the new user from %s", k.fn, args[0])
				}
			}
		}
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			item := st.tags["new "+k.list]
			if k.list == "" {
				item = r.res[0]
			}
			if item == nil || !isFresh(item) {
				c.bad(st, "as asked", k.fn, pos, "%s succeeds, but no new record is known to have been added", k.fn)
				continue
			}
			for fld, path := range k.wants {
				got, want := field(st, item, fld), c.reqVal(f, k.r, path)
				ok := same(st, got, want)
				if !ok && fld == "Comment" && strings.Contains(k.fn, "PublicKey") {
					// A public key may have a comment of its own.
					pay := c.reqVal(f, k.r, "Key.Payload")
					pgp := got.any(func(y *Term) bool { return y.op == "call" && strings.Contains(y.s, "openpgp") })
					ok = got.any(func(y *Term) bool { return y == want || y == pay && !pgp }) || st.holds(tEq(want, tEmpty))
				}
				c.check(ok, st, "as asked", k.fn+" "+fld, pos, "%s makes a record with the %s %s although %s was asked for", k.fn, fld, got, want)
			}
			common(st, item, k.fn, pos, k.kind)
			switch k.kind {
			case "key":
				enabled(st, item, c.reqVal(f, k.r, "Key.Disabled"), k.fn, pos)
			case "token":
				enabled(st, item, c.reqVal(f, k.r, "MfaToken.Disabled"), k.fn, pos)
			case "user":
				roles, full := c.reqVal(f, k.r, "User.Roles"), c.reqVal(f, k.r, "User.FullName")
				c.check(st.tags["roles"] == roles || emptyList(st, roles), st, "every role", k.fn, pos, "%s succeeds although a role that was asked for may not have been given", k.fn)
				name := field(st, item, "Name")
				none := false
				for f, v := range st.facts {
					if v && f.op == "eq" && (f.args[0] == tEmpty || f.args[1] == tEmpty) && (unwrapText(f.args[0]) == full || unwrapText(f.args[1]) == full) {
						none = true
					}
				}
				c.check(none || st.nonNil(name), st, "as asked", k.fn+" name", pos, "%s makes a user without a name although a name may have been asked for", k.fn)
				found := false
				for _, e := range listParts(st, field(st, item, "EmailAddresses")) {
					found = found || same(st, field(st, e, "Address"), c.reqVal(f, k.r, "User.Email"))
				}
				c.check(found, st, "as asked", k.fn+" EmailAddresses", pos, "%s makes a user whose list of email addresses lacks the one that was asked for", k.fn)
			}
		}
	}
	if f := c.fn("", "NewPassword"); f != nil {
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			common(r.st, r.res[0], "NewPassword", c.p.pos(f.Pos()), "password")
		}
	}
	if f := c.fn("", "NewUser"); f != nil {
		for _, r := range c.returns(c.run(f, nil)) {
			common(r.st, r.res[0], "NewUser", c.p.pos(f.Pos()), "user")
			got := field(r.st, r.res[0], "Username")
			c.check(got == c.param(f, 0), r.st, "as asked", "NewUser Username", c.p.pos(f.Pos()), "NewUser names the user %s", got)
		}
	}

	// The times that are recorded.
	recs := c.recordTypes()
	for _, f := range c.libAPI() {
		lbl := funcLabel(f)
		c.run(f, &Hooks{Store: func(m *Machine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != "fld" || !isTime(elemType(addr.typ)) || val == nil {
				return
			}
			key := fldKey(addr)
			if i := strings.IndexByte(key, '.'); i < 0 || !recs[key[:i]] && key[:i] != "Registration" {
				return
			}
			now := val.any(func(y *Term) bool { return y.op == "call" && strings.HasPrefix(y.s, "time.") })
			c.check(!now && val.op != "const" || nowUTC(val), st, "clock", key, c.p.instrPos(in), "%s records the time %s", lbl, val)
		}})
	}
	for _, n := range []string{"Password", "APIKey", "PublicKey", "MfaToken"} {
		f := c.fn("", n+".Disable")
		if f == nil {
			continue
		}
		for _, r := range c.returns(c.run(f, nil)) {
			o := c.param(f, 0)
			ok := true
			for _, b := range []string{"Disabled", "Expired"} {
				v, known := r.st.decide(field(r.st, o, b))
				ok = ok && known && v && nowUTC(field(r.st, o, b+"At"))
			}
			c.check(ok, r.st, "disabling", n, c.p.pos(f.Pos()), "(*%s).Disable may leave the record not disabled or not expired, or with another time", n)
		}
	}
}

// unwrapText gives the text that was trimmed.
func unwrapText(t *Term) *Term {
	for t != nil && t.op == "call" && (t.s == "strings.TrimSpace" || t.s == "strings.Trim") {
		t = t.args[0]
	}
	return t
}
