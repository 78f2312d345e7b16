package main

import (
	"go/types"
)

func init() {
	checks["C49"] = checkC49
}

// policyDefaults are the numbers that a policy takes where it sets none.
var policyDefaults = map[string]int64{
	"Policy.Password.KeepVersions": 10,
	"Policy.Password.MinLength":    8,
	"Policy.Password.MaxLength":    128,
	"Policy.User.MinLength":        3,
	"Policy.User.MaxLength":        50,
}

// checkC49: the policy of a database is the one it was saved with.
func checkC49(c *Check) {
	c.rule("kept", 12, "in an opened database every field of the policy is what the file says; a number that the file does not set has its default")
	c.rule("new", 12, "in a new database every number of the policy has its default and every flag is off")
	c.rule("settled", 60, "no operation on a database changes a field of its policy")
	f := c.fn("", "NewDatabase")
	if f == nil {
		return
	}
	var fields []string
	typeOf := map[string]types.Type{}
	var walk func(t types.Type, pre string)
	walk = func(t types.Type, pre string) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x := u.Field(i)
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				walk(x.Type(), pre+x.Name()+".")
				continue
			}
			fields = append(fields, pre+x.Name())
			typeOf[pre+x.Name()] = x.Type()
		}
	}
	if t := elemType(f.Signature.Results().At(0).Type()); t != nil {
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "Policy" {
					walk(u.Field(i).Type(), "Policy.")
				}
			}
		}
	}
	for p := range policyDefaults {
		if typeOf[p] == nil {
			c.undecided("a database has no %s", p)
			return
		}
	}
	pos := c.p.pos(f.Pos())
	good, _ := c.split(c.run(f, nil))
	c.some(good, f)
	for _, r := range good {
		st := r.st
		db := r.res[0]
		// read from a file, or new
		var text *Term
		for _, t := range nilFacts(st) {
			if t.op == "call" && (t.s == "encoding/json.Unmarshal" || t.s == "(*encoding/json.Decoder).Decode") {
				text = t
			}
		}
		for _, p := range fields {
			a := fieldAddr2(db, "", p)
			v := st.valueAt(a)
			def, number := policyDefaults[p]
			what := p[len("Policy."):]
			isDefault := func() bool {
				if number {
					return st.same(v, cint(def))
				}
				k := st.constOf(v)
				return k != nil && (k == tFalse || k == tEmpty || k == tZero)
			}
			if text == nil {
				c.check(isDefault(), st, "new", "NewDatabase "+what, pos, "the policy of a new database has %s for %s", v, what)
				continue
			}
			// what the file says
			said := v
			if v.op != "dec" {
				said = nil
				for t := range st.facts {
					t.walk(func(x *Term) bool {
						if x.op == "dec" && (x.s == p || x.s == p[len("Policy."):]) {
							said = x
						}
						return true
					})
				}
			}
			ok := said != nil && (said.s == p || said.s == p[len("Policy."):])
			switch {
			case !ok:
			case number && v == said:
				ok = st.fails(tEq(said, tZero))
			case number:
				ok = (st.holds(tEq(said, tZero)) || st.holds(tLt(said, cint(1)))) && isDefault()
			default:
				ok = st.same(v, said)
			}
			c.check(ok, st, "kept", "NewDatabase "+what, pos, "the policy of an opened database has %s for %s, which is not what the file says or the default for what it does not say", v, what)
		}
	}
	for _, f := range c.dbMethods() {
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		db := c.param(f, 0)
		for _, r := range c.run(f, nil) {
			if r.panics {
				continue
			}
			for _, p := range fields {
				a := fieldAddr2(db, "", p)
				v := r.st.valueAt(a)
				c.check(r.st.same(v, entryLoad(a)), r.st, "settled", lbl+" "+p[len("Policy."):], pos, "%s sets %s of the policy to %s", lbl, p[len("Policy."):], v)
			}
		}
	}
}
