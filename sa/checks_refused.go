package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["C47"] = checkC47
}

// answers lists the fields of a request in which an operation answers: the
// identity, the flags and the response, without the response code, which C11
// is about.
func answers(t types.Type) []string {
	var l []string
	var walk func(t types.Type, pre string)
	walk = func(t types.Type, pre string) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := pre + f.Name()
			if pre == "" && p != "User" && p != "Flags" && p != "Response" || p == "Response.Code" {
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				walk(f.Type(), p+".")
				continue
			}
			l = append(l, p)
		}
	}
	walk(t, "")
	return l
}

// checkC47: what is refused is not answered.
func checkC47(c *Check) {
	c.rule("unanswered", 200, "when an operation returns an error, the identity, the flags and the response payload of the request are what they were when it was called, or a constant")
	c.rule("answered", 6, "an operation that hands out a payload does so before it reports success")
	for _, f := range c.libAPI() {
		ri := -1
		for i, p := range f.Params {
			if strings.HasSuffix(types.TypeString(p.Type(), nil), "requests.Request") && isPtr(p.Type()) {
				ri = i
			}
		}
		rs := f.Signature.Results()
		if ri < 0 || rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
			continue
		}
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		req := c.param(f, ri)
		paths := answers(elemType(req.typ))
		if len(paths) < 10 {
			c.undecided("only %d fields of a request in which an operation may answer", len(paths))
		}
		good, fail := c.split(c.run(f, nil))
		for _, r := range fail {
			for _, p := range paths {
				a := fieldAddr(req, p)
				if a == nil {
					c.undecided("no field %s in a request", p)
					continue
				}
				v := r.st.valueAt(a)
				ok := v == entryLoad(a) || r.st.same(v, entryLoad(a)) || fixedAnswer(r.st, v)
				c.check(ok, r.st, "unanswered", lbl+" "+p, pos, "%s returns an error although it has set %s of the request to %s", lbl, p, v)
			}
		}
		for _, r := range good {
			if a := fieldAddr(req, "Response.Payload"); a != nil && r.st.valueAt(a) != entryLoad(a) {
				c.ok("answered", lbl)
			}
		}
	}
}

// fixedAnswer: a constant or nothing.
func fixedAnswer(st *State, v *Term) bool {
	if k := st.constOf(v); k != nil {
		v = k
	}
	if v == tTrue {
		return false
	}
	if v == tNil || v == tZero || v == tEmpty || v == tFalse || st.same(v, tNil) {
		return true
	}
	switch v.op {
	case "const":
		return true
	case "iface":
		return fixedAnswer(st, v.args[0])
	}
	_, isText := v.strVal()
	_, isInt := v.intVal()
	return isText || isInt
}
