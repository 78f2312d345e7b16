package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkC04
}

// bookkeeping is what an attempt to save may change.
var bookkeeping = map[string]bool{"Database.Revision": true, "Database.LastModified": true, "Database.Version": true}

func checkC04(c *Check) {
	c.rule("unchanged on error", 15, "when an operation returns an error before it tried to save, every user, credential, lookup table and policy has the value it had on entry")
	c.rule("failed save", 8, "when saving fails, the change is undone before the error is returned")
	x := c.index()
	path := c.pathField()
	recs := c.recordTypes()
	relevant := func(k string) bool {
		i := strings.IndexByte(k, '.')
		if i < 0 || bookkeeping[k] || !recs[k[:i]] {
			return false
		}
		return k != "Database."+path
	}
	for _, f := range c.dbMethods() {
		f := f
		lbl := funcLabel(f)
		db := c.param(f, 0)
		fe := &fileEvents{c: c}
		event := func(m *Machine, st *State, what string) {
			for _, l := range m.loops {
				if !l.iter {
					st.tags["loopstore"] = cstr(what)
				}
			}
		}
		h := &Hooks{
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				for _, y := range expand(a) {
					if persistent(y) && relevant(fldKey(y)) {
						event(m, st, fldKey(y))
					}
				}
				if a.op == "idx" && persistent(a) {
					event(m, st, "an element of "+valKey(a.args[0]))
				}
			},
			MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				if r := x.roleOf(st, mp); r != "" {
					event(m, st, "the table by "+r)
				}
			},
			Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
				if readOnly(name) || isPure(name) || strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "encoding/json.Marshal") {
					return
				}
				for i, a := range args {
					y := stripIface(a)
					if y == nil || y.typ == nil || !(isPtr(y.typ) || isMap(y.typ) || isSlice(y.typ)) || !persistent(y) {
						continue
					}
					if name == "copy" && i == 1 || strings.Contains(typeStr(y.typ), "sync.") {
						continue
					}
					st.tags["loopstore"] = cstr("what " + name + " was given")
				}
			},
			Called: func(m *Machine, st *State, name string, args []*Term, r *Term, in ssa.CallInstruction) {
				if name == "encoding/json.Marshal" && stripIface(args[0]) == db {
					st.tags["text"] = mk("text", "", nil, nil, resAt(r, 0), resAt(r, 1))
				}
				fe.called(m, st, name, args, r, in)
			},
		}
		_, fail := c.split(c.run(f, h))
		pos := c.p.pos(f.Pos())
		for _, r := range fail {
			st := r.st
			what := ""
			if t := st.tags["loopstore"]; t != nil {
				what, _ = t.strVal()
			}
			for a, v := range st.heap {
				k := ""
				switch a.op {
				case "fld":
					k = fldKey(a)
					if !relevant(k) {
						continue
					}
				case "has", "melem":
					k = valKey(a.args[0])
					if !relevant(k) {
						continue
					}
					k = "the table " + k
				case "idx":
					k = "an element of " + valKey(a.args[0])
				default:
					continue
				}
				if !persistent(a) || v == entryLoad(a) || st.same(v, entryLoad(a)) {
					continue
				}
				if a.op == "melem" && st.fails(st.read(mkHas(a.args[0], a.args[1]), nil)) && st.fails(entryLoad(mkHas(a.args[0], a.args[1]))) {
					continue
				}
				if what == "" || k < what {
					what = k
				}
			}
			tried := st.tags["text"] != nil
			saved := st.tags["saved"]
			done := saved != nil && st.knownNil(saved.args[2])
			rule, con := "unchanged on error", lbl
			if tried && !done {
				rule, con = "failed save", lbl+": change retained after failed save"
			}
			if what == "" {
				c.ok(rule, con)
				continue
			}
			if rule == "unchanged on error" {
				con = lbl + " changes " + what
			}
			c.bad(st, rule, con, pos, "%s returns an error although it has changed %s", lbl, what)
		}
		c.ok("unchanged on error", lbl)
	}
}
