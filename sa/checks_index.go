package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// emptyColl recognises a collection without elements.
func emptyColl(t *Term) bool {
	if t == nil || t == tNil {
		return true
	}
	switch t.op {
	case "slice":
		if n, ok := arrayLen(t.args[0]); ok && n == 0 {
			return true
		}
	case "mkslice":
		n, ok := tLen(t).intVal()
		return ok && n == 0
	}
	return false
}

// appended takes a slice apart into what it started from and what was appended.
func appended(t *Term) (base *Term, elems []*Term, ok bool) {
	switch {
	case t == nil || emptyColl(t):
		return tNil, nil, true
	case t.op == "append":
		b, e, ok := appended(t.args[0])
		if !ok {
			return t.args[0], t.args[1:], true
		}
		return b, append(append([]*Term(nil), e...), t.args[1:]...), true
	case t.op == "load":
		return t, nil, true
	}
	return t, nil, false
}

// mapHolds decides that a map has a value under a key now.
func (m *Machine) mapHolds(st *State, mp, k, v *Term) bool {
	if mp == nil || k == nil {
		return false
	}
	for _, e := range st.eqClass(k) {
		if st.holds(st.read(mkHas(mp, e), types.Typ[types.Bool])) && st.same(st.read(mkMelem(mp, e, v.typ), v.typ), v) {
			return true
		}
	}
	return false
}

// mapLacks decides that a map has no value under a key now.
func mapLacks(st *State, mp, k *Term, el types.Type) bool {
	for _, e := range st.eqClass(k) {
		if st.fails(st.read(mkHas(mp, e), types.Typ[types.Bool])) || st.same(st.read(mkMelem(mp, e, el), el), tNil) {
			return true
		}
	}
	return false
}

// missed decides that the entry table of a role had no user for a text (which
// is looked up with the given case folding, if the role has one).
func (x *Index) missed(st *State, db *Term, role string, s *Term) bool {
	mp := entryLoad(fieldAddr(db, strings.TrimPrefix(x.field[role], "Database.")))
	for f, v := range st.facts {
		switch {
		case f.op == "load" && f.args[0].op == "has" && f.args[0].args[0] == mp && !v:
			if x.keyIs(st, role, f.args[0].args[1], s) {
				return true
			}
		case f.op == "eq" && v && (f.args[1] == tNil || f.args[0] == tNil):
			a := f.args[0]
			if a == tNil {
				a = f.args[1]
			}
			if m2, k, ok := mapVal(a); ok && m2 == mp && x.keyIs(st, role, k, s) {
				return true
			}
		}
	}
	return false
}

// found decides that the entry table of a role has a user for a text.
func (x *Index) found(st *State, db *Term, role string, s *Term) bool {
	mp := entryLoad(fieldAddr(db, strings.TrimPrefix(x.field[role], "Database.")))
	for f, v := range st.facts {
		switch {
		case f.op == "load" && f.args[0].op == "has" && f.args[0].args[0] == mp && v:
			if x.keyIs(st, role, f.args[0].args[1], s) {
				return true
			}
		case f.op == "eq" && !v && (f.args[1] == tNil || f.args[0] == tNil):
			a := f.args[0]
			if a == tNil {
				a = f.args[1]
			}
			if m2, k, ok := mapVal(a); ok && m2 == mp && x.keyIs(st, role, k, s) {
				return true
			}
		}
	}
	return false
}

func (x *Index) keyIs(st *State, role string, k, s *Term) bool {
	if role == "username" || role == "email" {
		return st.same(lower(k), lower(s))
	}
	return st.same(k, s)
}

// table is the map of a role in a state.
func (x *Index) table(st *State, db *Term, role string) *Term {
	a := fieldAddr(db, strings.TrimPrefix(x.field[role], "Database."))
	if a == nil {
		return nil
	}
	return st.valueAt(a)
}

// inserts watches the insertions into the lookup tables.
func (c *Check) inserts(lbl string) func(m *Machine, st *State, mp, key, val *Term, in ssa.Instruction) {
	x := c.index()
	return func(m *Machine, st *State, mp, key, val *Term, in ssa.Instruction) {
		r := x.roleOf(st, mp)
		if r == "" {
			return
		}
		con := lbl + " " + r
		el := types.Type(nil)
		if t, ok := mp.typ.Underlying().(*types.Map); ok {
			el = t.Elem()
		}
		if val == nil {
			return
		}
		// Two keys of one user must not share a prefix either.
		good := mapLacks(st, mp, key, el) || r != "apikey" && m.mapHolds(st, mp, key, val)
		c.check(good, st, "insert is new", con, c.p.instrPos(in), "%s records a user in the table by %s under %s without knowing that no other user is there", lbl, r, key)
	}
}

var namingFields = map[string]bool{"User.Username": true, "User.ID": true, "EmailAddress.Address": true, "APIKey.Prefix": true}

func persistent(a *Term) bool {
	if shared(a) {
		return true
	}
	r := deepRoot(a)
	return r != nil && r.op == "dec"
}

func checkC05(c *Check) {
	x := c.index()
	c.rule("insert is new", 7, "a user is recorded in a lookup table only under a key that the table is known not to have (keys are compared as they are recorded: names and addresses case-folded)")
	c.rule("names fixed", 20, "no operation changes the username, the id, an email address or a key prefix of a user of the database")
	c.rule("all recorded", 7, "on success every user that was added or loaded, every email address and every API key prefix of it is recorded in the lookup tables, so that later duplicates are noticed")
	x.checkTables(c, true)
	x.checkLoad(c, true)
	x.checkOps(c, "all recorded")
}

// checkTables runs the database operations and watches every table access.
func (x *Index) checkTables(c *Check, c05 bool) {
	for _, f := range c.dbMethods() {
		lbl := funcLabel(f)
		ins := c.inserts(lbl)
		h := &Hooks{
			MapWrite: ins,
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				k := fldKey(a)
				if namingFields[k] && persistent(a) {
					con := lbl + " " + k
					c.check(st.same(v, st.valueAt(a)), st, "names fixed", con, c.p.instrPos(in), "%s changes %s of a user of the database", lbl, a)
				}
			},
		}
		c.run(f, h)
		c.ok("names fixed", lbl)
	}
}

// checkLoad: what loading a database file records.
func (x *Index) checkLoad(c *Check, c05 bool) {
	f := c.fn("", "NewDatabase")
	if f == nil {
		return
	}
	const rule = "all recorded"
	type lk struct {
		loop, role string
	}
	failing := map[lk]*State{}
	seen := map[lk]bool{}
	name := func(l *LoopInfo) string { return fmt.Sprintf("%s#%d", l.fn.Name(), l.head.Index) }
	ins := c.inserts("NewDatabase")
	isUsers := func(st *State, coll *Term) bool { return valKey(coll) == "Database.Users" }
	nested := map[string]string{"User.EmailAddresses": "email", "User.APIKeys": "apikey"}
	h := &Hooks{
		MapWrite: func(m *Machine, st *State, mp, key, val *Term, in ssa.Instruction) {
			ins(m, st, mp, key, val, in)
			if val == nil && x.roleOf(st, mp) != "" {
				c.bad(st, rule, "NewDatabase "+x.roleOf(st, mp), c.p.instrPos(in), "loading removes an entry of a lookup table")
			}
		},
		Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			k := fldKey(a)
			if namingFields[k] && persistent(a) {
				c.check(st.same(v, st.valueAt(a)), st, "names fixed", "NewDatabase "+k, c.p.instrPos(in), "loading changes %s", a)
			}
		},
		BackEdge: func(m *Machine, st *State, l *LoopInfo) {
			if l.iter || l.coll == nil {
				return
			}
			db := x.loadedDB(st)
			if db == nil {
				return
			}
			e := loopElem(st, l)
			if e == nil {
				return
			}
			put := func(role string, good bool) {
				k := lk{name(l), role}
				seen[k] = true
				if !good && failing[k] == nil {
					failing[k] = st.clone()
				}
				if m.quiet == 0 {
					c.ok(rule, "NewDatabase every "+role)
				}
			}
			if isUsers(st, l.coll) {
				u := e
				for role, fl := range map[string]string{"username": "Username", "id": "ID"} {
					k := st.valueAt(fieldAddr2(u, "User", fl))
					if role == "username" {
						k = lower(k)
					}
					put(role, m.mapHolds(st, x.table(st, db, role), k, u))
				}
				for fl, role := range nested {
					coll := st.valueAt(fieldAddr2(u, "User", strings.TrimPrefix(fl, "User.")))
					good := st.tags["scan "+role] != nil && st.same(st.tags["scan "+role], coll) || st.same(tLen(coll), cint(0)) || st.same(coll, tNil)
					put(role, good)
				}
				return
			}
			for fl, role := range nested {
				if valKey(l.coll) != fl {
					continue
				}
				o := l.coll.args[0].args[0] // the user
				k := st.valueAt(fieldAddr2(e, map[string]string{"email": "EmailAddress", "apikey": "APIKey"}[role], map[string]string{"email": "Address", "apikey": "Prefix"}[role]))
				if role == "email" {
					k = lower(k)
				}
				good := m.mapHolds(st, x.table(st, db, role), k, o)
				k2 := lk{name(l), role}
				seen[k2] = true
				if !good && failing[k2] == nil {
					failing[k2] = st.clone()
				}
			}
		},
		LoopExit: func(m *Machine, st *State, l *LoopInfo) {
			if l.iter || l.coll == nil {
				return
			}
			if isUsers(st, l.coll) {
				st.tags["users "+name(l)] = l.coll
			}
			for fl, role := range nested {
				if valKey(l.coll) == fl && failing[lk{name(l), role}] == nil && (seen[lk{name(l), role}]) {
					st.tags["scan "+role] = l.coll
				}
			}
		},
	}
	good, _ := c.split(c.run(f, h))
	n := 0
	for _, r := range good {
		db := r.res[0]
		users := r.st.valueAt(fieldAddr(db, "Users"))
		for _, role := range []string{"username", "id", "email", "apikey"} {
			if emptyColl(users) {
				continue
			}
			n++
			var why *State
			ok := false
			for t, v := range r.st.tags {
				if !strings.HasPrefix(t, "users ") || !r.st.same(v, users) {
					continue
				}
				k := lk{t[6:], role}
				if failing[k] == nil && seen[k] {
					ok = true
				} else if failing[k] != nil {
					why = failing[k]
				}
			}
			if why == nil {
				why = r.st
			}
			c.check(ok, why, rule, "NewDatabase every "+role, c.p.pos(f.Pos()), "loading a database can succeed although some user is not recorded in the table by %s", role)
		}
	}
	if n == 0 {
		c.undecided("loading never succeeds with users")
	}
}

// loadedDB finds the database that is being made in a state.
func (x *Index) loadedDB(st *State) *Term {
	var db *Term
	for a := range st.heap {
		if a.op == "fld" && fldKey(a) == x.field["username"] && isFresh(a.args[0]) {
			db = a.args[0]
		}
	}
	return db
}

// fieldAddr2 is the address of a field of an object whose type may be unknown to
// the term.
func fieldAddr2(o *Term, typ, field string) *Term {
	if a := fieldAddr(o, field); a != nil {
		return a
	}
	return mk("unknown", "", nil, nil, o)
}

// checkOps: at the successful end of every operation what was added is recorded.
func (x *Index) checkOps(c *Check, rule string) {
	added := map[string]bool{}
	for _, f := range c.dbMethods() {
		f := f
		lbl := funcLabel(f)
		db := c.param(f, 0)
		h := &Hooks{}
		outs := c.run(f, h)
		m := newMachine(c.p, nil)
		good, _ := c.split(outs)
		for _, r := range good {
			st := r.st
			users := fieldAddr(db, "Users")
			if v := st.valueAt(users); v != entryLoad(users) {
				base, el, ok := appended(v)
				if !ok || base != entryLoad(users) {
					c.bad(st, rule, lbl+" users", c.p.pos(f.Pos()), "the list of users is replaced by %s, not by itself with users appended", v)
					continue
				}
				for _, u := range el {
					added["user"] = true
					k := lower(st.valueAt(fieldAddr2(u, "User", "Username")))
					c.check(m.mapHolds(st, x.table(st, db, "username"), k, u), st, rule, lbl+" username", c.p.pos(f.Pos()), "the added user is not recorded under its username %s", k)
					k = st.valueAt(fieldAddr2(u, "User", "ID"))
					c.check(m.mapHolds(st, x.table(st, db, "id"), k, u), st, rule, lbl+" id", c.p.pos(f.Pos()), "the added user is not recorded under its id %s", k)
					x.recordedItems(c, m, st, db, u, rule, lbl, c.p.pos(f.Pos()), "", added)
				}
			}
			// users that were there before
			done := map[*Term]bool{}
			for a := range st.heap {
				k := fldKey(a)
				if (k == "User.EmailAddresses" || k == "User.APIKeys") && shared(a) && !done[a] {
					done[a] = true
					x.recordedItems(c, m, st, db, a.args[0], rule, lbl, c.p.pos(f.Pos()), k, added)
				}
			}
		}
	}
	for _, k := range []string{"user", "User.EmailAddresses", "User.APIKeys"} {
		if !added[k] {
			c.undecided("no operation was seen to add to %s", k)
		}
	}
}

func (x *Index) recordedItems(c *Check, m *Machine, st *State, db, u *Term, rule, lbl, pos, only string, added map[string]bool) {
	for _, q := range [][3]string{{"User.EmailAddresses", "email", "Address"}, {"User.APIKeys", "apikey", "Prefix"}} {
		if only != "" && only != q[0] {
			continue
		}
		a := fieldAddr2(u, "User", strings.TrimPrefix(q[0], "User."))
		v := st.valueAt(a)
		if v == entryLoad(a) {
			continue
		}
		if v.op == "star" && only != "" {
			// a selection of the items that were there
			all := true
			for _, e := range v.args {
				if coll, _, ok := elemOf(e); !ok || coll != entryLoad(a) {
					all = false
				}
			}
			if all {
				continue
			}
		}
		base, el, ok := appended(v)
		if !ok || base != tNil && base != entryLoad(a) {
			c.bad(st, rule, lbl+" "+q[1], pos, "the list %s becomes %s, which is not recognised as the old list with items appended", q[0], v)
			continue
		}
		for _, e := range el {
			added[q[0]] = true
			k := st.valueAt(fieldAddr2(e, "", q[2]))
			if q[1] == "email" {
				k = lower(k)
			}
			c.check(m.mapHolds(st, x.table(st, db, q[1]), k, u), st, rule, lbl+" "+q[1], pos, "the user is not recorded under the added %s %s", q[1], k)
		}
	}
}

func checkC06(c *Check) {
	x := c.index()
	c.rule("all recorded", 7, "on success every user that was added or loaded can be found in the lookup tables by username, by each email address and by id, and every API key by its prefix")
	c.rule("unrecorded", 1, "after a deletion of an API key succeeds the table has no entry for its prefix")
	c.rule("never removed", 20, "no entry is removed from a lookup table except the prefix of a deleted API key")
	c.rule("miss", 8, "an operation reports that a user does not exist only if the lookup table of the role has no entry under the case-folded text")
	c.rule("key prefix", 2, "the part of an API key that is looked up is the part that was recorded")
	c.rule("key scan", 1, "a key of the owner is passed over only if it is disabled, expired, has another prefix or does not match")
	x.checkLoad(c, false)
	x.checkOps(c, "all recorded")
	x.checkRemovals(c)
	x.checkMisses(c)
	x.checkPrefix(c)
}

func (x *Index) checkRemovals(c *Check) {
	for _, f := range c.dbMethods() {
		f := f
		lbl := funcLabel(f)
		db := c.param(f, 0)
		var deletesOK = map[string]bool{}
		var deletesBad = map[string]bool{}
		h := &Hooks{
			MapWrite: func(m *Machine, st *State, mp, key, val *Term, in ssa.Instruction) {
				r := x.roleOf(st, mp)
				if r == "" || val != nil {
					return
				}
				con := lbl + " " + r
				good := false
				k, _ := stripNorm(key)
				if st.fails(entryLoad(mkHas(mp, key))) {
					good = true // undoing an insertion
				}
				if r == "apikey" {
					if o, ok := fieldVal(k, "APIKey.Prefix"); ok {
						if idEqRequest(st, o) {
							good = true
						}
					}
				}
				c.check(good, st, "never removed", con, c.p.instrPos(in), "%s removes the entry %s from the table by %s", lbl, key, r)
			},
			BackEdge: func(m *Machine, st *State, l *LoopInfo) {
				if l.coll == nil || valKey(l.coll) != "User.APIKeys" || l.iter {
					return
				}
				e := loopElem(st, l)
				if !idEqRequest(st, e) {
					return
				}
				k := st.valueAt(fieldAddr(e, "Prefix"))
				n := l.fn.Name()
				if mapLacks(st, x.table(st, db, "apikey"), k, nil) {
					deletesOK[n] = true
				} else {
					deletesBad[n] = true
				}
			},
		}
		good, _ := c.split(c.run(f, h))
		for _, r := range good {
			st := r.st
			for a, v := range st.heap {
				if fldKey(a) != "User.APIKeys" || !shared(a) || v == entryLoad(a) {
					continue
				}
				if b, _, ok := appended(v); ok && b == entryLoad(a) {
					continue
				}
				// a filtered list: the prefix of the dropped key must be gone
				ok := false
				for ha, hv := range st.heap {
					if ha.op != "has" || hv != tFalse || x.roleOf(st, ha.args[0]) != "apikey" {
						continue
					}
					if o, is := fieldVal(ha.args[1], "APIKey.Prefix"); is {
						if coll, _, is := elemOf(o); is && coll == entryLoad(a) {
							ok = true
						}
					}
				}
				for n := range deletesOK {
					if !deletesBad[n] {
						ok = true
					}
				}
				c.check(ok, st, "unrecorded", lbl, c.p.pos(f.Pos()), "%s shortens the list of API keys but the prefix of the deleted key still leads to its former owner", lbl)
			}
		}
		c.ok("never removed", lbl)
	}
}

// idEqRequest decides that the id of an object equals an id in the request.
func idEqRequest(st *State, o *Term) bool {
	for f, v := range st.facts {
		if f.op != "eq" || !v {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if strings.HasSuffix(valKey(a), ".ID") && a.args[0].args[0] == o && strings.HasPrefix(valKey(b), "requests.") && strings.HasSuffix(valKey(b), ".ID") {
				return true
			}
		}
	}
	return false
}

// pureLookups are operations that fail only because the account does not exist.
var pureLookups = []string{"GetUser", "GetUsers", "GetPublicKeys", "GetAPIKeys", "GetMfaTokens"}

func (x *Index) checkMisses(c *Check) {
	idMismatch := func(st *State) bool {
		for f, v := range st.facts {
			if f.op == "eq" && !v {
				a, ok1 := fieldVal(f.args[0], "User.ID")
				b, ok2 := fieldVal(f.args[1], "User.ID")
				if ok1 && ok2 {
					r1, _ := x.userBy(st, a)
					r2, _ := x.userBy(st, b)
					if r1 != "" && r2 != "" && r1 != r2 {
						return true
					}
				}
				r1, _ := x.userBy(st, f.args[0])
				r2, _ := x.userBy(st, f.args[1])
				if r1 != "" && r2 != "" && r1 != r2 {
					return true
				}
			}
		}
		return false
	}
	for _, n := range pureLookups {
		f := c.fn("", "Database."+n)
		if f == nil {
			continue
		}
		db, name, mail := c.param(f, 0), c.reqVal(f, 1, "User.Username"), c.reqVal(f, 1, "User.Email")
		good, fail := c.split(c.run(f, nil))
		if len(good) == 0 || len(fail) == 0 {
			c.undecided("%s: %d successful and %d failing ends", n, len(good), len(fail))
		}
		for _, r := range fail {
			ok := x.missed(r.st, db, "username", name) || x.missed(r.st, db, "email", mail) || idMismatch(r.st)
			c.check(ok, r.st, "miss", n, c.p.pos(f.Pos()), "%s fails although neither lookup is known to have missed", n)
		}
	}
	// fullMiss: neither the username nor, if it could be one, the address exists
	fullMiss := func(st *State, db, name *Term) bool {
		noAt := false
		for f, v := range st.facts {
			if f.op == "call" && f.s == "strings.Contains" && !v {
				if s, ok := f.args[1].strVal(); ok && s == "@" && st.same(lower(f.args[0]), lower(name)) {
					noAt = true
				}
			}
			if f.op == "lt" && v && f.args[0].op == "call" && strings.HasPrefix(f.args[0].s, "strings.Index") {
				noAt = true
			}
		}
		return x.missed(st, db, "username", name) && (noAt || x.missed(st, db, "email", name))
	}
	if f := c.fn("", "Database.AuthenticateUser"); f != nil {
		db, name := c.param(f, 0), c.reqVal(f, 1, "User.Username")
		_, fail := c.split(c.run(f, nil))
		miss := 0
		for _, r := range fail {
			full := fullMiss(r.st, db, name)
			if full {
				miss++
			}
			ok := full || x.found(r.st, db, "username", name) || x.found(r.st, db, "email", name)
			c.check(ok, r.st, "miss", "AuthenticateUser", c.p.pos(f.Pos()), "authentication fails before the tables by username and (for a text with @) by email address are known to lack the user")
		}
		if miss == 0 {
			c.undecided("AuthenticateUser has no end for an unknown user")
		}
	}
	if f := c.fn("", "Database.IdentifyUser"); f != nil {
		db, name := c.param(f, 0), c.reqVal(f, 1, "User.Username")
		for _, r := range c.returns(c.run(f, nil)) {
			ok := fullMiss(r.st, db, name)
			if !ok {
				v := r.st.valueAt(fieldAddr(c.param(f, 1), "User.Username"))
				_, ok = fieldVal(v, "User.Username")
			}
			c.check(ok, r.st, "miss", "IdentifyUser", c.p.pos(f.Pos()), "a user is treated as unknown before the tables by username and (for a text with @) by email address are known to lack it")
		}
	}
	// unexported lookups, wherever they are
	for _, f := range c.p.funcsIn(modulePath) {
		s := f.Signature
		if s.Recv() == nil || namedType(s.Recv().Type()) != "Database" || s.Params().Len() != 1 || s.Results().Len() != 2 {
			continue
		}
		if !isString(s.Params().At(0).Type()) || namedType(s.Results().At(0).Type()) != "User" {
			continue
		}
		db, text := c.param(f, 0), c.param(f, 1)
		_, fail := c.split(c.run(f, nil))
		for _, r := range fail {
			ok := false
			for role := range x.field {
				if x.missed(r.st, db, role, text) {
					ok = true
				}
			}
			c.check(ok, r.st, "miss", f.Name(), c.p.pos(f.Pos()), "%s fails although no lookup table is known to lack the text", f.Name())
		}
	}
}

func sliceParts(t *Term) (base *Term, lo, hi int64, ok bool) {
	if t == nil || t.op != "slice" || len(t.args) < 3 {
		return nil, 0, 0, false
	}
	if t.args[1] != nil {
		if lo, ok = t.args[1].intVal(); !ok {
			return nil, 0, 0, false
		}
	}
	if t.args[2] == nil {
		return nil, 0, 0, false
	}
	hi, ok = t.args[2].intVal()
	return t.args[0], lo, hi, ok
}

func (x *Index) checkPrefix(c *Check) {
	add, look := c.fn("", "Database.AddAPIKey"), c.fn("", "Database.LookupAPIKey")
	if add == nil || look == nil {
		return
	}
	lo0, hi0 := int64(-1), int64(-1)
	note := func(st *State, lbl string, k *Term, pos string) {
		_, lo, hi, ok := sliceParts(k)
		if !ok {
			c.bad(st, "key prefix", lbl, pos, "the key %s used by %s is not a fixed part of the API key", k, lbl)
			return
		}
		if hi0 < 0 {
			lo0, hi0 = lo, hi
		}
		c.check(lo == lo0 && hi == hi0, st, "key prefix", lbl, pos, "%s uses characters %d to %d of the key, another operation %d to %d", lbl, lo, hi, lo0, hi0)
	}
	c.run(add, &Hooks{MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
		if m.quiet == 0 && v != nil && x.roleOf(st, mp) == "apikey" {
			note(st, "AddAPIKey", k, c.p.instrPos(in))
		}
	}})
	db := c.param(look, 0)
	payload := c.reqVal(look, 1, "Key.Payload")
	h := &Hooks{
		MapRead: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
			if m.quiet == 0 && x.roleOf(st, mp) == "apikey" {
				note(st, "LookupAPIKey", k, c.p.instrPos(in))
			}
		},
		BackEdge: func(m *Machine, st *State, l *LoopInfo) {
			if l.coll == nil || valKey(l.coll) != "User.APIKeys" || l.iter {
				return
			}
			e := loopElem(st, l)
			c.check(x.keySkipped(st, e) || keptFirst(st, l, e), st, "key scan", "LookupAPIKey", c.p.pos(l.head.Instrs[0].Pos()), "a key of the owner is passed over although it is live and has the prefix")
		},
		LoopExit: func(m *Machine, st *State, l *LoopInfo) {
			if l.coll != nil && valKey(l.coll) == "User.APIKeys" {
				st.tags["scanned"] = tTrue
			}
		},
	}
	_, fail := c.split(c.run(look, h))
	for _, r := range fail {
		st := r.st
		_, hi, _, hok := st.bounds(tLen(payload))
		ok := hok && hi < 72 || st.same(payload, tEmpty)
		why := "although the payload is long enough and the table by prefix is not known to lack it"
		for f, v := range st.facts {
			if ok {
				break
			}
			if f.op == "load" && f.args[0].op == "has" && !v && x.roleOf(st, f.args[0].args[0]) == "apikey" {
				ok = true
			}
			if f.op == "eq" && v && (f.args[0] == tNil || f.args[1] == tNil) {
				a := f.args[0]
				if a == tNil {
					a = f.args[1]
				}
				if rl, _ := x.userBy(st, a); rl == "apikey" {
					ok = true
				}
			}
			if f.op == "eq" && !v && strings.Contains(f.String(), "CompareHashAndPassword") {
				ok = true // the key of that prefix does not match
			}
		}
		if st.tags["scanned"] != nil {
			ok = true
		}
		_ = db
		c.check(ok, st, "miss", "LookupAPIKey", c.p.pos(look.Pos()), "the lookup fails %s", why)
	}
}

// keptFirst tells whether an iteration puts an element into a variable that was
// nil, as it is in all iterations that get to their end: the scan ends here.
func keptFirst(st *State, l *LoopInfo, e *Term) bool {
	if e == nil {
		return false
	}
	for p, old := range l.vars {
		if old == nil || old != tNil && !st.holds(tEq(old, tNil)) {
			continue
		}
		for i, v := range p.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			if t := st.env[v]; t != nil && st.same(t, e) && st.nonNil(e) {
				return true
			}
		}
	}
	return false
}

// keySkipped: why a key may be passed over.
func (x *Index) keySkipped(st *State, e *Term) bool {
	if st.holds(st.valueAt(fieldAddr(e, "Disabled"))) || st.holds(st.valueAt(fieldAddr(e, "Expired"))) {
		return true
	}
	p := st.valueAt(fieldAddr(e, "Prefix"))
	h := st.valueAt(fieldAddr(e, "Payload"))
	for f, v := range st.facts {
		if f.op == "eq" && !v && (f.args[0] == p || f.args[1] == p) {
			return true
		}
		if f.op == "eq" && !v && f.contains(h) && strings.Contains(f.String(), "CompareHashAndPassword") {
			return true
		}
	}
	return false
}

func checkC07(c *Check) {
	x := c.index()
	c.rule("same folding", 15, "every access to the lookup tables by username and by email address uses a key that was case-folded, with the same normalisation everywhere")
	c.rule("compared folded", 1, "usernames and email addresses are compared without regard to case")
	norms := map[string]map[string]string{"username": {}, "email": {}}
	fold := map[string]bool{"ToLower": true, "ToUpper": true, "ToLowerSpecial": true}
	all := append(append([]*ssa.Function(nil), c.dbMethods()...), c.fn("", "NewDatabase"))
	for _, f := range c.libAPI() {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modulePath && f.Signature.Recv() != nil && namedType(f.Signature.Recv().Type()) == "User" {
			all = append(all, f)
		}
	}
	for _, f := range all {
		if f == nil {
			continue
		}
		lbl := funcLabel(f)
		key := func(m *Machine, st *State, mp, k *Term, in ssa.Instruction, what string) {
			r := x.roleOf(st, mp)
			if norms[r] == nil || m.quiet > 0 || k.isConst() {
				return
			}
			_, l := stripNorm(k)
			n := 0
			for i, q := range l {
				if fold[q] && (i == 0 || l[i-1] != q) {
					n++
				}
			}
			con := lbl + " " + what + " " + r
			if n == 0 {
				c.bad(st, "same folding", con, c.p.instrPos(in), "%s %s the table by %s with the key %s, which is not case-folded", lbl, what, r, k)
				return
			}
			c.ok("same folding", con)
			s := strings.Join(l, " of ")
			if norms[r][s] == "" {
				norms[r][s] = con
			}
		}
		h := &Hooks{
			MapRead: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) { key(m, st, mp, k, in, "reads") },
			MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				key(m, st, mp, k, in, "changes")
			},
			Branch: func(m *Machine, st *State, cond *Term, in *ssa.If) {
				if cond.op == "not" {
					cond = cond.args[0]
				}
				if cond.op != "eq" && !(cond.op == "call" && cond.s == "strings.EqualFold") || len(cond.args) < 2 {
					return
				}
				for i := 0; i < 2; i++ {
					a, b := cond.args[i], cond.args[1-i]
					ka, na := stripNorm(a)
					if k := valKey(ka); k != "User.Username" && k != "EmailAddress.Address" {
						if !(len(f.Params) > 1 && k == "" && false) {
							continue
						}
					}
					_, nb := stripNorm(b)
					if b.isConst() {
						continue
					}
					ok := cond.op == "call"
					for _, q := range na {
						for _, p := range nb {
							if q == p && fold[q] {
								ok = true
							}
						}
					}
					c.check(ok, st, "compared folded", lbl+" "+valKey(ka), c.p.instrPos(in), "%s compares %s with regard to case", lbl, cond)
				}
			},
		}
		c.run(f, h)
	}
	for r, l := range norms {
		if len(l) > 1 {
			var d []string
			for s, w := range l {
				d = append(d, s+" ("+w+")")
			}
			sortStrings(d)
			c.bad(nil, "same folding", r, "?", "the table by %s is used with different normalisations: %s", r, strings.Join(d, "; "))
		}
		if len(l) == 0 {
			c.undecided("no access to the table by %s", r)
		}
	}
}
