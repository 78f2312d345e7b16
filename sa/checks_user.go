package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = checkC30
	checks["C31"] = checkC31
	checks["C38"] = checkC38
}

// known decides that a state knows a user that a text names.
func (x *Index) known(st *State, db, name *Term) bool {
	return x.found(st, db, "username", name) || x.found(st, db, "email", name) || x.scanFound(st, name)
}

// leaves calls visit for the parts that a value is made of, following fresh
// objects into their content. visit returns false to stop descending.
func leaves(st *State, v *Term, visit func(t *Term) bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || strings.HasPrefix(t.op, "ctx") {
			return
		}
		seen[t] = true
		if !visit(t) {
			return
		}
		if isFresh(t) {
			for a, w := range st.heap {
				if a != t && rootOf(a) == t {
					walk(w)
				}
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(v)
}

// fromDatabase finds a part of a value that was read from a database.
func fromDatabase(st *State, v *Term) (found *Term) {
	leaves(st, v, func(t *Term) bool {
		if found != nil {
			return false
		}
		switch t.op {
		case "load", "dec":
			if persistent(t) {
				found = t
			}
			return false
		case "param":
			if namedType(t.typ) == "Database" {
				found = t
			}
			return false
		}
		return true
	})
	return
}

func checkC30(c *Check) {
	x := c.index()
	c.rule("identification", 1, "identifying a user who is not known to exist returns no error, the placeholder name and address, and exactly the password challenge")
	c.rule("nothing disclosed", 1, "what the request holds after identifying a user who is not known to exist contains nothing read from the database")
	c.rule("hash", 1, "authentication is refused for a user who is not known to exist only after the supplied password was hashed, or if it is blank")
	if f := c.fn("", "Database.IdentifyUser"); f != nil {
		db, name := c.param(f, 0), c.reqVal(f, 1, "User.Username")
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		get := func(st *State, p string) *Term { return st.valueAt(fieldAddr(c.param(f, 1), p)) }
		good, fail := c.split(c.run(f, nil))
		for _, r := range fail {
			c.check(x.known(r.st, db, name), r.st, "identification", lbl, pos, "%s refuses a user who is not known to exist", lbl)
		}
		n := 0
		for _, r := range good {
			st := r.st
			if x.known(st, db, name) {
				continue
			}
			n++
			u, _ := get(st, "User.Username").strVal()
			e, _ := get(st, "User.Email").strVal()
			c.check(u == "nobody" && e == "nobody@localhost", st, "identification", lbl, pos, "%s reports %s and %s for a user who is not known to exist", lbl, get(st, "User.Username"), get(st, "User.Email"))
			l := listParts(st, get(st, "User.Challenges"))
			ok := len(l) == 1
			if ok {
				s, _ := l[0].strVal()
				ok = s == "password"
			}
			if b := listBase(get(st, "User.Challenges")); b != nil && !emptyList(st, b) && !isFresh(deepRoot(b)) {
				ok = false
			}
			c.check(ok, st, "identification", lbl, pos, "%s demands %s from a user who is not known to exist", lbl, get(st, "User.Challenges"))
			bad := ""
			for a, v := range st.heap {
				if a.op == "cell" || deepRoot(a) != c.param(f, 1) {
					continue
				}
				if t := fromDatabase(st, v); t != nil {
					bad = fmt.Sprintf("%s is made from %s", a, t)
				}
			}
			c.check(bad == "", st, "nothing disclosed", lbl, pos, "%s, for a user who is not known to exist: %s", lbl, bad)
		}
		if n == 0 {
			c.undecided("%s never reports an unknown user", lbl)
		}
	}
	if f := c.fn("", "Database.AuthenticateUser"); f != nil {
		db, name, pw := c.param(f, 0), c.reqVal(f, 1, "User.Username"), c.reqVal(f, 1, "User.Password")
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		h := &Hooks{Call: func(m *Machine, st *State, nm string, args []*Term, in ssa.CallInstruction) {
			i := -1
			switch nm {
			case bcryptGenerate:
				i = 0
			case bcryptCompare:
				i = 1
			}
			if i < 0 {
				return
			}
			s, norm := stripNorm(textOf(st, args[i]))
			if len(norm) <= 1 && st.same(s, pw) {
				st.tags["hashed"] = tTrue
			}
		}}
		n := 0
		_, fail := c.split(c.run(f, h))
		for _, r := range fail {
			st := r.st
			if x.known(st, db, name) {
				continue
			}
			n++
			c.check(st.tags["hashed"] != nil || blank(st, pw), st, "hash", lbl, pos, "%s refuses a user who is not known to exist without hashing the password", lbl)
		}
		if n == 0 {
			c.undecided("%s never refuses an unknown user", lbl)
		}
	}
}

// blank decides that a text is empty or consists of white space.
func blank(st *State, s *Term) bool {
	for f, v := range st.facts {
		if f.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			k, norm := stripNorm(f.args[i])
			if len(norm) > 1 || len(norm) == 1 && norm[0] != "TrimSpace" {
				continue
			}
			if e, ok := f.args[1-i].strVal(); ok && v && e == "" && k == s {
				return true
			}
			if k.op == "len" && v && f.args[1-i] == tZero {
				k, _ = stripNorm(k.args[0])
				if k == s {
					return true
				}
			}
		}
	}
	return st.same(s, cstr("")) || st.same(tLen(s), tZero)
}

// ---- C31

func checkC31(c *Check) {
	x := c.index()
	c.rule("own identity", 4, "what is reported of a user who exists is that user's username, primary address, name and roles")
	c.rule("challenges", 2, "the challenges include the password and, unless all of the user's tokens are known to be disabled, the mfa challenge")
	c.rule("flag raised", 3, "a flag is raised only if a token of that kind was seen that is not disabled")
	c.rule("flag left", 3, "a flag that was asked for is not raised only if no token of that kind is enabled")
	f := c.fn("", "Database.IdentifyUser")
	if f == nil {
		return
	}
	db, name := c.param(f, 0), c.reqVal(f, 1, "User.Username")
	pos := c.p.pos(f.Pos())
	get := func(st *State, p string) *Term { return st.valueAt(fieldAddr(c.param(f, 1), p)) }
	type flag struct{ field, typ, tag string }
	flags := []flag{{"MfaConfigured", "", "any"}, {"MfaApp", "totp", "app"}, {"MfaUniversal", "u2f", "u2f"}}
	isTokens := func(st *State, coll *Term) bool { return isEntryList(coll, "User.MfaTokens") }
	kind := func(st *State, e *Term, k flag) (yes, no bool) {
		d, t := st.valueAt(fieldAddr2(e, "", "Disabled")), st.valueAt(fieldAddr2(e, "", "Type"))
		if k.typ == "" {
			return st.fails(d), st.holds(d)
		}
		q := tEq(t, cstr(k.typ))
		return st.fails(d) && st.holds(q), st.holds(d) || st.fails(q)
	}
	h := &Hooks{}
	rules := []scanRule{{"no primary", func(st *State, coll *Term) bool { return isEntryList(coll, "User.EmailAddresses") }, func(st *State, e *Term) bool { return st.fails(st.valueAt(fieldAddr2(e, "", "isPrimary"))) }}}
	for _, k := range flags {
		k := k
		rules = append(rules, scanRule{"no " + k.tag, isTokens, func(st *State, e *Term) bool { _, no := kind(st, e, k); return no }})
	}
	scans(h, rules...)
	filters(h, filter{"roles", func(st *State, coll *Term) bool { return isEntryList(coll, "User.Roles") }, roleText, func(st *State, e *Term) bool { return true }, func(st *State, e *Term) bool { return false }})
	back := h.BackEdge
	h.BackEdge = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter && isTokens(st, l.coll) {
			if e := loopElem(st, l); e != nil {
				for _, k := range flags {
					if yes, _ := kind(st, e, k); yes {
						st.tags["seen "+k.tag] = l.coll
					}
				}
			}
		}
		back(m, st, l)
	}
	for _, r := range c.returns(c.run(f, h)) {
		st := r.st
		if !x.known(st, db, name) {
			continue
		}
		v := get(st, "User.Username")
		u, ok := fieldVal(v, "User.Username")
		ok = ok && (x.designates(st, u, name, "username") || x.designates(st, u, name, "email"))
		if !c.check(ok, st, "own identity", "username", pos, "IdentifyUser reports %s, which is not known to be the username of the user that the request names", v) {
			continue
		}
		list := func(f string) *Term { return entryLoad(fieldAddr2(u, "", f)) }
		none := func(l *Term) bool { return st.same(tLen(l), tZero) || st.same(l, tNil) }

		v = get(st, "User.Email")
		mails := list("EmailAddresses")
		ok = false
		if s, is := v.strVal(); is && s == "" {
			ok = none(mails)
		} else if o, is := fieldVal(v, "EmailAddress.Address"); is {
			if l, i, is := elemOf(o); is && l == mails {
				ok = st.holds(st.valueAt(fieldAddr2(o, "", "isPrimary"))) || st.same(i, tZero) && st.tags["no primary"] == mails
			}
		}
		c.check(ok, st, "own identity", "email", pos, "IdentifyUser reports %s, which is not known to be the primary address of the user", v)

		v = get(st, "User.FullName")
		nm := list("Name")
		bad := ""
		has := map[string]bool{}
		leaves(st, v, func(t *Term) bool {
			if t.op == "load" {
				k := valKey(t)
				if t.args[0].op != "fld" || t.args[0].args[0] != nm || !strings.HasPrefix(k, "Name.") {
					bad = fmt.Sprintf("the name contains %s", t)
				}
				has[k] = true
				return false
			}
			return true
		})
		if !st.same(nm, tNil) {
			for _, p := range []string{"First", "Last"} {
				if !has["Name."+p] && !st.same(entryLoad(fieldAddr2(nm, "", p)), cstr("")) {
					bad = fmt.Sprintf("the %s name is left out", strings.ToLower(p))
				}
			}
		}
		c.check(bad == "", st, "own identity", "name", pos, "IdentifyUser: %s", bad)

		v = get(st, "User.Roles")
		roles := list("Roles")
		bad = ""
		for _, t := range append(listParts(st, v), v) {
			leaves(st, t, func(t *Term) bool {
				if t.op == "load" {
					if t == roles {
						return false
					}
					if k := valKey(t); k != "Role.Name" && k != "Role.Organization" || !ofList(t, roles) {
						bad = fmt.Sprintf("the roles contain %s", t)
					}
					return false
				}
				return true
			})
		}
		if b := listBase(v); bad == "" && b != nil && !emptyList(st, b) && !filled(st, "roles", b) {
			bad = fmt.Sprintf("the roles begin with %s", b)
		}
		if bad == "" && !none(roles) && st.tags["roles"] != roles {
			bad = "not every role is known to be reported as it is written"
		}
		c.check(bad == "", st, "own identity", "roles", pos, "IdentifyUser: %s", bad)

		tokens := list("MfaTokens")
		has = map[string]bool{}
		for _, t := range listParts(st, get(st, "User.Challenges")) {
			if s, ok := t.strVal(); ok {
				has[s] = true
			}
		}
		c.check(has["password"], st, "challenges", "password", pos, "IdentifyUser does not demand the password")
		c.check(has["mfa"] || none(tokens) || st.tags["no any"] == tokens, st, "challenges", "mfa", pos, "IdentifyUser does not demand a second factor although the user may have an enabled token")

		asked := !st.fails(c.reqVal(f, 1, "Flags.Enabled"))
		for _, k := range flags {
			k := k
			v := get(st, "Flags."+k.field)
			switch {
			case st.holds(v) && v != c.reqVal(f, 1, "Flags."+k.field):
				seen := st.tags["seen "+k.tag] == tokens || c.someElem(st, tokens, func(e *Term) bool { yes, _ := kind(st, e, k); return yes })
				c.check(seen, st, "flag raised", k.field, pos, "IdentifyUser raises %s although the user is not known to have such a token that is not disabled", k.field)
			case asked:
				c.check(none(tokens) || st.tags["no "+k.tag] == tokens, st, "flag left", k.field, pos, "IdentifyUser leaves %s at %s although the user may have such a token that is not disabled", k.field, v)
			default:
				c.check(v == c.reqVal(f, 1, "Flags."+k.field) || st.fails(v), st, "flag left", k.field, pos, "IdentifyUser sets %s to %s", k.field, v)
			}
		}
	}
}

// ofList tells whether a value was read from an element of a list.
func ofList(t, list *Term) bool {
	for t != nil {
		if l, _, ok := elemOf(t); ok && l == list {
			return true
		}
		switch t.op {
		case "load", "fld", "idx", "melem":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// roleText recognises the text of a role: its name, after the organization and
// a slash if it has one.
func roleText(st *State, s, e *Term) bool {
	org, nm := st.valueAt(fieldAddr2(e, "", "Organization")), st.valueAt(fieldAddr2(e, "", "Name"))
	if s == nm {
		return st.same(org, cstr(""))
	}
	var l []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == "concat" {
			for _, a := range t.args {
				flat(a)
			}
			return
		}
		l = append(l, t)
	}
	flat(s)
	if len(l) != 3 {
		return false
	}
	slash, _ := l[1].strVal()
	return l[0] == org && slash == "/" && l[2] == nm
}

// ---- C38

// metadataOf lists, for each field of a metadata record, the fields of a user
// that it may be taken from; an equal one must be taken over as it is.
var metadataOf = map[string][]string{
	"ID": {"=User.ID"}, "Enabled": {"=User.Enabled"}, "Username": {"=User.Username"}, "Title": {"=User.Title"},
	"Created": {"=User.Created"}, "LastModified": {"=User.LastModified"}, "Revision": {"=User.Revision"},
	"Avatar": {"Image.Path"},
	"Email":  {"EmailAddress.Address", "EmailAddress.Domain"},
	"Name":   {"Name.First", "Name.Last", "Name.Middle", "Name.Preferred"},
}

func checkC38(c *Check) {
	c.rule("metadata", 10, "each field of a metadata record holds the like-named metadata of the user it describes, and nothing else")
	c.rule("listing", 1, "what is handed out when users are listed is reached only through metadata records, each of them filled from a single user")
	var fields []string
	f := c.fn("", "User.GetMetadata")
	if f == nil {
		return
	}
	res, ok := elemType(f.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
	if !ok {
		c.undecided("GetMetadata returns no record")
		return
	}
	for i := 0; i < res.NumFields(); i++ {
		n := res.Field(i).Name()
		fields = append(fields, n)
		if metadataOf[n] == nil {
			c.bad(nil, "metadata", n, c.p.pos(res.Field(i).Pos()), "a metadata record has the unknown field %s", n)
		}
	}
	// record decides that a metadata record describes the user and nothing else.
	record := func(st *State, m, u *Term) (string, string) {
		for _, n := range fields {
			v := st.valueAt(fieldAddr2(m, "", n))
			if v == nil {
				continue
			}
			for _, k := range metadataOf[n] {
				if strings.HasPrefix(k, "=") && v != st.valueAt(fieldAddr2(u, "", k[len("=User."):])) {
					return n, fmt.Sprintf("%s holds %s", n, v)
				}
			}
			bad := ""
			leaves(st, v, func(t *Term) bool {
				if t.op != "load" && t.op != "dec" {
					if isPtr(t.typ) && isFresh(t) && !t.isConst() {
						bad = fmt.Sprintf("%s refers to %s", n, t)
					}
					return true
				}
				ok := false
				for _, k := range metadataOf[n] {
					ok = ok || valKey(t) == strings.TrimPrefix(k, "=")
				}
				if !ok || !ofUser(t, u) {
					bad = fmt.Sprintf("%s is made from %s", n, t)
				}
				return false
			})
			if bad != "" {
				return n, bad
			}
		}
		return "", ""
	}
	pos := c.p.pos(f.Pos())
	for _, r := range c.returns(c.run(f, nil)) {
		n, why := record(r.st, r.res[0], c.param(f, 0))
		if n == "" {
			for _, n := range fields {
				c.ok("metadata", n)
			}
			continue
		}
		c.bad(r.st, "metadata", n, pos, "in the metadata of a user, %s", why)
	}
	g := c.fn("", "Database.GetUsers")
	if g == nil {
		return
	}
	pos = c.p.pos(g.Pos())
	isRecord := func(t types.Type) bool { return namedType(t) == "UserMetadata" }
	h := &Hooks{Append: func(m *Machine, st *State, base *Term, elems []*Term, result *Term, in ssa.Instruction) {
		for _, e := range elems {
			if !isRecord(e.typ) {
				continue
			}
			var u *Term
			for i := len(m.loops) - 1; i >= 0 && u == nil; i-- {
				if l := m.loops[i]; l.coll != nil && !l.iter {
					if x := loopElem(st, l); x != nil && namedType(x.typ) == "User" {
						u = x
					}
				}
			}
			if u == nil {
				c.bad(st, "listing", "record", c.p.instrPos(in), "a metadata record is listed outside a loop over the users")
				continue
			}
			_, why := record(st, e, u)
			c.check(why == "", st, "listing", "record", c.p.instrPos(in), "in the listing of users, %s", why)
			if why == "" {
				st.tags["listed "+e.s] = u
			}
		}
	}}
	good, _ := c.split(c.run(g, h))
	c.some(good, g)
	listed := false
	for _, r := range good {
		st := r.st
		bad := ""
		leaves(st, st.valueAt(fieldAddr(c.param(g, 1), "Response.Payload")), func(t *Term) bool {
			switch {
			case isFresh(t) && isRecord(t.typ):
				if st.tags["listed "+t.s] == nil {
					bad = fmt.Sprintf("%s is not known to describe a single user", t)
				}
				listed = true
				return false
			case t.op == "load" || t.op == "dec" || t.op == "param":
				if persistent(t) || t.op == "param" {
					bad = fmt.Sprintf("it contains %s", t)
				}
				return false
			case t.op == "len":
				return false
			}
			return true
		})
		c.check(bad == "", st, "listing", "payload", pos, "what GetUsers hands out: %s", bad)
	}
	if !listed {
		c.undecided("GetUsers lists no metadata records")
	}
}

// ofUser tells whether a value was read from a user or its parts.
func ofUser(t, u *Term) bool {
	for t != nil {
		if t == u {
			return true
		}
		switch t.op {
		case "load", "fld", "idx", "melem":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}
