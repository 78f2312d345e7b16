package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C32"] = checkC32
}

// userOf finds the user whose record an address lies in, and the field of the
// user that leads to it.
func userOf(a *Term) (u *Term, field string) {
	for t := a; t != nil; {
		switch t.op {
		case "fld":
			if k := fldKey(t); strings.HasPrefix(k, "User.") {
				return t.args[0], strings.TrimPrefix(k, "User.")
			}
			t = t.args[0]
		case "load", "idx", "melem", "iface", "assert", "slice", "sub":
			t = t.args[0]
		default:
			return nil, ""
		}
	}
	return nil, ""
}

// grows decides that a number is another one increased by a positive constant.
func grows(st *State, v, old *Term) bool {
	if v.op == "bin+" {
		for i := range v.args {
			if k, ok := v.args[i].intVal(); ok && k >= 1 && k < 1<<20 && v.args[1-i] == old {
				return true
			}
		}
	}
	if o, ok := old.intVal(); ok {
		if n, ok := v.intVal(); ok {
			return n > o
		}
	}
	return false
}

// growsAny decides that a number is a decoded one increased by a constant.
func growsAny(v *Term) bool {
	return v.op == "bin+" && (v.args[0].op == "dec" && grows(nil, v, v.args[0]) || v.args[1].op == "dec" && grows(nil, v, v.args[1]))
}

// nowOnly recognises the present time, in whatever zone and precision.
func nowOnly(t *Term) bool {
	for t != nil && t.op == "call" {
		switch t.s {
		case "time.Now":
			return true
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// revisedFields are the parts of a user whose change a revision records.
var revisedFields = map[string]bool{"Username": true, "Title": true, "Name": true, "Names": true, "EmailAddress": true, "EmailAddresses": true,
	"Passwords": true, "PublicKeys": true, "APIKeys": true, "MfaTokens": true, "Roles": true}

// successes lists the ordinary ways out on which an operation reports no error.
func (c *Check) successes(f *ssa.Function, outs []Outcome) []ret {
	rs := f.Signature.Results()
	if n := rs.Len(); n > 0 && types.Identical(rs.At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		good, _ := c.split(outs)
		return good
	}
	return c.returns(outs)
}

func checkC32(c *Check) {
	c.rule("revised", 10, "an operation that succeeds after changing a user's password, email, name, roles, keys or tokens has increased the revision of that user")
	c.rule("user stamped", 10, "and has set the user's modification time to the present time")
	c.rule("only upwards", 10, "the revision of a user or database of the library is only ever increased, and its modification time only set to the present time")
	c.rule("save counted", 10, "whenever the database is serialised its revision has been increased by this operation")
	c.rule("save stamped", 10, "and its modification time has been set to the present time by this operation")
	revised := func(st *State, lbl, pos, what string) {
		for k := range st.tags {
			if !strings.HasPrefix(k, "changed ") {
				continue
			}
			u := strings.TrimPrefix(k, "changed ")
			c.check(st.tags["revised "+u] != nil, st, "revised", lbl, pos, "%s changes %s and %s without increasing its revision", lbl, u, what)
			c.check(st.tags["stamped "+u] != nil, st, "user stamped", lbl, pos, "%s changes %s and %s without refreshing its modification time", lbl, u, what)
		}
	}
	for _, f := range c.libAPI() {
		if f.Pkg.Pkg.Path() != modulePath {
			continue
		}
		lbl := funcLabel(f)
		h := &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			key := fldKey(a)
			if isFresh(rootOf(a)) {
				return
			}
			old := st.valueAt(a)
			switch key {
			case "User.Revision", "Database.Revision":
				if v == entryLoad(a) {
					// An undone change.
					delete(st.tags, "revised "+a.args[0].String())
					return
				}
				c.check(grows(st, v, old), st, "only upwards", lbl, c.p.instrPos(in), "%s sets the revision %s to %s", lbl, a, v)
				st.tags["revised "+a.args[0].String()] = tTrue
				return
			case "User.LastModified", "Database.LastModified":
				if v == entryLoad(a) {
					delete(st.tags, "stamped "+a.args[0].String())
					return
				}
				c.check(nowOnly(v), st, "only upwards", lbl, c.p.instrPos(in), "%s sets the modification time %s to %s", lbl, a, v)
				st.tags["stamped "+a.args[0].String()] = tTrue
				return
			}
			u, field := userOf(a)
			if r := deepRoot(a); u == nil || !revisedFields[field] || v == old || isFresh(rootOf(u)) || r != nil && r.op == "dec" {
				// What was just decoded is completed, not changed.
				return
			}
			st.tags["changed "+u.String()] = tTrue
		}, Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
			if name != "encoding/json.Marshal" || len(args) == 0 {
				return
			}
			db := stripIface(args[0])
			if db.typ == nil || !strings.HasSuffix(db.typ.String(), "identity.Database") {
				return
			}
			a := fieldAddr2(db, "", "Revision")
			c.check(st.tags["revised "+db.String()] != nil || isFresh(db) && (grows(st, st.valueAt(a), tZero) || growsAny(st.valueAt(a))), st, "save counted", lbl, c.p.instrPos(in), "%s serialises the database without increasing its revision: %s", lbl, st.valueAt(a))
			revised(st, lbl, c.p.instrPos(in), "saves the database")
			c.check(nowOnly(st.valueAt(fieldAddr2(db, "", "LastModified"))), st, "save stamped", lbl, c.p.instrPos(in), "%s serialises the database without refreshing its modification time: %s", lbl, st.valueAt(fieldAddr2(db, "", "LastModified")))
		}}
		good := c.successes(f, c.run(f, h))
		for _, r := range good {
			revised(r.st, lbl, c.p.pos(f.Pos()), "succeeds")
		}
	}
}
