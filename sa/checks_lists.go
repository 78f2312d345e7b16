package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkC23
	checks["C24"] = checkC24
	checks["C25"] = checkC25
	checks["C26"] = checkC26
	checks["C28"] = checkC28
}

// ---- filters: loops that carry over some elements of a list to another one

// filter is a demand on a loop that builds a list from another: the elements
// carried over are exactly those to keep.
type filter struct {
	name string
	coll func(st *State, coll *Term) bool
	item func(st *State, x, e *Term) bool // x, which is appended, stands for element e
	keep func(st *State, e *Term) bool    // e is known to be one to keep
	drop func(st *State, e *Term) bool    // e is known to be one to leave out
}

// accumulator names the variable that an append adds to.
func accumulator(in ssa.Instruction) string {
	switch x := in.(type) {
	case ssa.CallInstruction:
		if l := x.Common().Args; len(l) > 0 {
			return accumulated(in, l[0])
		}
	case *ssa.Store:
		return accumulated(in, x.Val)
	}
	return "?"
}

func accumulated(in ssa.Instruction, v ssa.Value) string {
	best := ""
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		n := ""
		switch x := v.(type) {
		case *ssa.Phi:
			n = "phi " + x.Name()
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				n = fmt.Sprintf("field %s.%d", fa.X.Type(), fa.Field)
			} else {
				n = "load " + x.X.Name()
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				visit(x.Call.Args[0])
				return
			}
		case *ssa.Parameter:
			n = "param " + x.Name()
		}
		if n != "" && (best == "" || n < best) {
			best = n
		}
	}
	visit(v)
	return in.Parent().String() + " " + best
}

// filters keeps track, along each path, of the lists that have been carried
// over exactly: the tag of the filter's name then holds the list; the tag
// "some "+name is set if an element was left out.
func filters(h *Hooks, fs ...filter) {
	app, back, exit, store := h.Append, h.BackEdge, h.LoopExit, h.Store
	// a list made with as many places as the other one, filled place by place
	h.Store = func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
		if a.op == "idx" && a.args[0].op == "mkslice" {
			for i := len(m.loops) - 1; i >= 0; i-- {
				l := m.loops[i]
				if l.coll == nil || l.iter || l.elem == nil || a.args[1] != l.elem || !st.same(a.args[0].args[0], tLen(l.coll)) {
					continue
				}
				for _, f := range fs {
					if e := loopElem(st, l); e != nil && f.coll(st, l.coll) && f.item(st, v, e) {
						k := "kept " + f.name + fmt.Sprint(l.ctx.id) + " place"
						if st.tags[k] != nil {
							k = "not " + k
						}
						st.tags[k] = e
						st.tags["into "+f.name] = cstr(a.args[0].s)
					}
				}
			}
		}
		if store != nil {
			store(m, st, a, v, in)
		}
	}
	h.Append = func(m *Machine, st *State, base *Term, elems []*Term, res *Term, in ssa.Instruction) {
		if len(m.loops) > 0 {
			for i := len(m.loops) - 1; i >= 0; i-- {
				l := m.loops[i]
				if l.coll == nil || l.iter {
					continue
				}
				for _, f := range fs {
					if !f.coll(st, l.coll) {
						continue
					}
					e := loopElem(st, l)
					if e == nil {
						continue
					}
					for _, x := range elems {
						if f.item(st, x, e) {
							k := "kept " + f.name + fmt.Sprint(l.ctx.id) + " " + accumulator(in)
							if st.tags[k] != nil {
								k = "not " + k
							}
							st.tags[k] = e
						}
					}
				}
			}
		}
		if app != nil {
			app(m, st, base, elems, res, in)
		}
	}
	h.BackEdge = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter {
			for _, f := range fs {
				if !f.coll(st, l.coll) {
					continue
				}
				e := loopElem(st, l)
				id := f.name + fmt.Sprint(l.ctx.id) + " "
				kept := false
				for k := range st.tags {
					if strings.HasPrefix(k, "kept "+id) && st.tags[k] != nil {
						if e != nil && f.drop(st, e) {
							delete(st.tags, k) // what is left out is collected elsewhere
							continue
						}
						kept = true
						if e == nil || !f.keep(st, e) {
							st.tags["not "+k] = tTrue
						}
						st.tags["acc "+f.name] = cstr(k[len("kept "+id):])
						delete(st.tags, k)
					}
				}
				if e != nil && f.drop(st, e) {
					st.tags["some "+f.name] = tTrue
				} else if !kept {
					st.tags["not kept "+id] = tTrue
				}
			}
		}
		if back != nil {
			back(m, st, l)
		}
	}
	h.LoopExit = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter {
			for _, f := range fs {
				if !f.coll(st, l.coll) {
					continue
				}
				id := f.name + fmt.Sprint(l.ctx.id) + " "
				good := true
				for k := range st.tags {
					if strings.HasPrefix(k, "not kept "+id) {
						good = false
					}
				}
				if good {
					st.tags[f.name] = l.coll
				}
			}
		}
		if exit != nil {
			exit(m, st, l)
		}
	}
}

// filled tells whether a list is the one that a filter filled place by place.
func filled(st *State, name string, list *Term) bool {
	if list == nil || list.op != "mkslice" || st.tags[name] == nil || !st.same(list.args[0], tLen(st.tags[name])) {
		return false
	}
	into := st.tags["into "+name]
	return into == cstr(list.s) || into == nil && st.tags["acc "+name] == nil
}

// listField is a list of a user, and where a request names its items.
type listField struct{ name, field, item, req string }

var listFields = []listField{
	{"PublicKey", "User.PublicKeys", "PublicKey", "Key"},
	{"APIKey", "User.APIKeys", "APIKey", "Key"},
	{"MfaToken", "User.MfaTokens", "MfaToken", "MfaToken"},
}

// isEntryList tells whether a list is a user's, as it was on entry.
func isEntryList(l *Term, field string) bool { return isEntryLoad(l) && valKey(l) == field }

// ---- C23

func checkC23(c *Check) {
	c.rule("exactly the designated", 6, "a deletion carries over exactly the items whose id differs from the one requested, in order")
	c.rule("nothing else", 6, "a deletion changes no other list of credentials and no field of an item")
	c.rule("not found", 6, "a deletion succeeds only if an item has the requested id")
	c.rule("found", 3, "a deletion is not refused when an item has the requested id")
	x := c.index()
	for _, lf := range listFields {
		for _, recv := range []string{"User", "Database"} {
			f := c.fn("", recv+".Delete"+lf.name)
			if f == nil {
				continue
			}
			lbl, pos := funcLabel(f), c.p.pos(f.Pos())
			id := c.reqVal(f, 1, lf.req+".ID")
			idOf := func(st *State, e *Term) *Term { return st.valueAt(fieldAddr2(e, "", "ID")) }
			drop := func(st *State, e *Term) bool { return st.same(idOf(st, e), id) }
			keep := func(st *State, e *Term) bool { return st.fails(tEq(idOf(st, e), id)) }
			isList := func(st *State, coll *Term) bool { return isEntryList(coll, lf.field) }
			h := &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				k := fldKey(a)
				if k == "" || isFresh(deepRoot(a)) {
					return
				}
				if k == lf.field {
					st.tags["stored"] = cstr(accumulator(in))
				}
				own, _, _ := strings.Cut(k, ".")
				bad := credentialFields[k] && k != lf.field
				switch own {
				case "PublicKey", "APIKey", "MfaToken", "Password":
					bad = true
				}
				c.check(!bad, st, "nothing else", lbl, c.p.instrPos(in), "%s writes %s", lbl, k)
			}}
			filters(h, filter{"deleted", isList, func(st *State, y, e *Term) bool { return y == e }, keep, drop})
			scans(h, scanRule{"none", isList, keep})
			good, fail := c.split(c.run(f, h))
			c.some(good, f)
			c.ok("nothing else", lbl)
			for _, r := range good {
				st := r.st
				var u, list *Term
				for a := range st.heap {
					if fldKey(a) == lf.field && !isFresh(deepRoot(a)) {
						if u != nil {
							c.bad(st, "exactly the designated", lbl, pos, "%s changes the lists of several users", lbl)
						}
						u, list = a.args[0], st.heap[a]
					}
				}
				if u == nil {
					c.bad(st, "exactly the designated", lbl, pos, "%s succeeds without changing the list", lbl)
					continue
				}
				if recv == "User" {
					c.check(u == c.param(f, 0), st, "exactly the designated", lbl, pos, "%s changes the list of another user", lbl)
				} else {
					c.check(x.designates(st, u, c.reqVal(f, 1, "User.Username"), "username"), st, "exactly the designated", lbl, pos, "%s changes the list of a user other than the one requested", lbl)
				}
				old := entryLoad(fieldAddr2(u, "", lf.field[len("User."):]))
				why := ""
				if at := splice(st, old, list); at != nil {
					if !drop(st, at) {
						why = "the item that is cut out is not known to have the requested id"
					}
				} else if st.tags["deleted"] != old {
					why = "not exactly the items with another id are known to be carried over"
				} else {
					for _, e := range listParts(st, list) {
						if l, _, ok := elemOf(e); !ok || l != old || !keep(st, e) && (drop(st, e) || st.tags["stored"] == nil || st.tags["stored"] != st.tags["acc deleted"]) {
							why = fmt.Sprintf("the new list contains %s", e)
						}
					}
					if base := listBase(list); base != nil && !emptyList(st, base) {
						why = fmt.Sprintf("the new list begins with %s", base)
					}
				}
				c.check(why == "", st, "exactly the designated", lbl, pos, "%s: %s", lbl, why)
				c.check(st.tags["some deleted"] != nil || c.someElem(st, old, func(e *Term) bool { return drop(st, e) }) || differentLength(st, old) || st.tags["acc deleted"] == nil && st.tags["deleted"] == old && st.fails(tEq(tLen(old), tZero)), st, "not found", lbl, pos, "%s succeeds although no item is known to have the requested id", lbl)
			}
			if recv == "User" {
				for _, r := range fail {
					old := entryLoad(fieldAddr2(c.param(f, 0), "", lf.field[len("User."):]))
					c.check(r.st.tags["none"] == old || r.st.same(tLen(old), tZero) || sameLength(r.st, old) || c.noneCollected(r.st, old), r.st, "found", lbl, pos, "%s is refused although an item may have the requested id", lbl)
				}
			}
		}
	}
}

// someElem tells whether an element of a list is known to satisfy a condition.
func (c *Check) someElem(st *State, list *Term, ok func(e *Term) bool) bool {
	seen := map[*Term]bool{}
	for f, v := range st.facts {
		if !v {
			continue
		}
		found := false
		f.walk(func(y *Term) bool {
			if found {
				return false
			}
			if l, i, is := elemOf(y); is && l == list && !seen[y] && !strings.Contains(i.String(), "*") {
				seen[y] = true
				if ok(y) {
					found = true
				}
			}
			return !found
		})
		if found {
			return true
		}
	}
	return false
}

// noneCollected tells whether a list that elements of another were put into is
// known to be empty.
func (c *Check) noneCollected(st *State, old *Term) bool {
	for f, v := range st.facts {
		var n *Term
		switch {
		case f.op == "eq" && v && f.args[1] == tZero:
			n = f.args[0]
		case f.op == "eq" && v && f.args[0] == tZero:
			n = f.args[1]
		case f.op == "lt" && !v && f.args[0] == tZero:
			n = f.args[1]
		}
		if n == nil || n.op != "len" || n.args[0].op != "star" {
			continue
		}
		for _, e := range n.args[0].args {
			if l, _, ok := elemOf(e); ok && l == old {
				return true
			}
		}
	}
	return false
}

// differentLength and sameLength look at how a list compares in length with
// one that was made from it.
func differentLength(st *State, old *Term) bool { return lengthFact(st, old, false) }
func sameLength(st *State, old *Term) bool      { return lengthFact(st, old, true) }

func lengthFact(st *State, old *Term, same bool) bool {
	n := tLen(old)
	for f, v := range st.facts {
		if len(f.args) != 2 || f.args[0] != n && f.args[1] != n {
			continue
		}
		o := f.args[0]
		if o == n {
			o = f.args[1]
		}
		if !isLen(o) {
			continue
		}
		switch {
		case f.op == "eq" && v == same:
			return true
		case f.op == "lt" && v != same:
			return true
		}
	}
	return false
}

func isLen(t *Term) bool {
	return t.op == "len" || t.op == "lv" || t.op == "lvh"
}

// splice recognises a list made by cutting one element out of another.
func splice(st *State, old, list *Term) *Term {
	if list == nil || list.op != "appends" || len(list.args) != 2 {
		return nil
	}
	a, b := list.args[0], list.args[1]
	if a.op == "appends" && len(a.args) == 2 && emptyList(st, a.args[0]) {
		a = a.args[1]
	}
	if a.op != "slice" || b.op != "slice" || a.args[0] != old || b.args[0] != old || len(a.args) < 3 || len(b.args) < 2 {
		return nil
	}
	if !(a.args[1] == nil || st.same(a.args[1], tZero)) || a.args[2] == nil || b.args[1] == nil || len(b.args) > 2 && b.args[2] != nil && !st.same(b.args[2], tLen(old)) {
		return nil
	}
	if !st.same(b.args[1], tPlus(a.args[2], cint(1))) {
		return nil
	}
	s, ok := old.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return st.read(mkIdx(old, a.args[2], s.Elem()), s.Elem())
}

// listBase is the list that others are appended to.
func listBase(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "append", "appends":
			t = t.args[0]
			continue
		case "star":
			for _, a := range t.args {
				if isSlice(a.typ) && !isSliceElem(a) {
					return a
				}
			}
			return nil
		}
		return t
	}
	return nil
}

func isSliceElem(t *Term) bool { _, _, ok := elemOf(t); return ok }

// emptyList tells whether a list is known to have no elements.
func emptyList(st *State, t *Term) bool {
	if t == nil || t == tNil || t.op == "nil" {
		return true
	}
	return st.same(tLen(t), tZero) || st.same(t, tNil)
}

// ---- C24

// bundleList finds, in a response payload, the list that a bundle holds.
func bundleList(st *State, v *Term) *Term {
	if v == nil {
		return nil
	}
	if v.op == "iface" {
		v = v.args[0]
	}
	t := elemType(v.typ)
	if t == nil {
		return nil
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if isSlice(u.Field(i).Type()) {
			return st.valueAt(mkFld(v, t, i))
		}
	}
	return nil
}

func checkC24(c *Check) {
	c.rule("exactly the enabled", 3, "a listing contains exactly the enabled items with the requested usage")
	c.rule("the user's", 3, "a listing is of the items of the user that the request names")
	c.rule("one per user", 1, "listing users adds exactly one entry per user")
	x := c.index()
	for _, lf := range listFields {
		f := c.fn("", "Database.Get"+lf.name+"s")
		if f == nil {
			continue
		}
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		usage := lf.req == "Key"
		match := func(st *State, e *Term) (keep, drop bool) {
			d := st.valueAt(fieldAddr2(e, "", "Disabled"))
			keep, drop = st.fails(d), st.holds(d)
			if usage {
				eq := tEq(st.valueAt(fieldAddr2(e, "", "Usage")), c.reqVal(f, 1, "Key.Usage"))
				keep = keep && st.holds(eq)
				drop = drop || st.fails(eq)
			}
			return
		}
		isList := func(st *State, coll *Term) bool { return isEntryList(coll, lf.field) }
		h := &Hooks{}
		filters(h, filter{"listed", isList, func(st *State, y, e *Term) bool { return y == e },
			func(st *State, e *Term) bool { k, _ := match(st, e); return k },
			func(st *State, e *Term) bool { _, d := match(st, e); return d }})
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			v := st.valueAt(fieldAddr2(c.param(f, 1), "", "Response.Payload"))
			list := bundleList(st, v)
			if list == nil {
				c.bad(st, "exactly the enabled", lbl, pos, "%s returns no list", lbl)
				continue
			}
			from := st.tags["listed"]
			why := ""
			if from == nil {
				// no loop: fine if the user has no items
				for _, u := range x.usersIn(st) {
					l := entryLoad(fieldAddr2(u, "", lf.field[len("User."):]))
					if emptyList(st, l) {
						from = l
					}
				}
			}
			if from == nil {
				why = "not exactly the items asked for are known to be carried over"
			} else {
				for _, e := range listParts(st, list) {
					k, _ := match(st, e)
					if l, _, ok := elemOf(e); !ok || l != from || !k {
						why = fmt.Sprintf("the list contains %s", e)
					}
				}
				if base := listBase(list); base != nil && !emptyList(st, base) {
					why = fmt.Sprintf("the list begins with %s", base)
				}
			}
			c.check(why == "", st, "exactly the enabled", lbl, pos, "%s: %s", lbl, why)
			if from != nil {
				u := from.args[0].args[0]
				c.check(x.designates(st, u, c.reqVal(f, 1, "User.Username"), "username") || x.designates(st, u, c.reqVal(f, 1, "User.Email"), "email"), st, "the user's", lbl, pos, "%s lists the items of a user other than the one requested", lbl)
			}
		}
	}
	if f := c.fn("", "Database.GetUsers"); f != nil {
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		h := &Hooks{}
		filters(h, filter{"users", func(st *State, coll *Term) bool { return isEntryList(coll, "Database.Users") },
			func(st *State, y, e *Term) bool { return isFresh(y) && namedType(y.typ) == "UserMetadata" || y == e },
			func(st *State, e *Term) bool { return true },
			func(st *State, e *Term) bool { return false }})
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		for _, r := range good {
			st := r.st
			list := bundleList(st, st.valueAt(fieldAddr2(c.param(f, 1), "", "Response.Payload")))
			all := entryLoad(fieldAddr2(c.param(f, 0), "", "Users"))
			ok := list != nil && (st.tags["users"] == all || emptyList(st, all))
			why := "not exactly one entry per user is known to be added"
			if base := listBase(list); ok && base != nil && !emptyList(st, base) {
				ok, why = false, fmt.Sprintf("the list begins with %s", base)
			}
			c.check(ok, st, "one per user", lbl, pos, "%s: %s", lbl, why)
		}
	}
}

// ---- C25

func checkC25(c *Check) {
	c.rule("no twin", 4, "a credential is added only if every one the user already has is known to differ from it")
	c.rule("added", 4, "what is added is the credential that was compared")
	x := c.index()
	for _, lf := range listFields {
		if lf.name == "APIKey" {
			continue
		}
		for _, recv := range []string{"User", "Database"} {
			f := c.fn("", recv+".Add"+lf.name)
			if f == nil {
				continue
			}
			lbl, pos := funcLabel(f), c.p.pos(f.Pos())
			isList := func(st *State, coll *Term) bool { return isEntryList(coll, lf.field) }
			h := &Hooks{}
			// the new item: the only fresh one that this path has made
			newItem := func(st *State) (n *Term) {
				for a := range st.heap {
					r := rootOf(a)
					if isFresh(r) && namedType(r.typ) == lf.item {
						if n != nil && n != r {
							return nil
						}
						n = r
					}
				}
				return
			}
			differs := func(st *State, e *Term) bool {
				n := newItem(st)
				if n == nil {
					return false
				}
				v := func(o *Term, k string) *Term { return st.valueAt(fieldAddr2(o, "", k)) }
				if lf.name == "MfaToken" {
					return st.fails(tEq(v(e, "Secret"), v(n, "Secret"))) && st.fails(tEq(v(e, "Comment"), v(n, "Comment")))
				}
				return st.fails(tEq(v(e, "Type"), v(n, "Type"))) || differentPrints(st, v(e, "Fingerprint"), v(n, "Fingerprint"))
			}
			scans(h, scanRule{"twins", isList, differs})
			good, _ := c.split(c.run(f, h))
			c.some(good, f)
			for _, r := range good {
				st := r.st
				for a, list := range st.heap {
					if fldKey(a) != lf.field || isFresh(deepRoot(a)) {
						continue
					}
					u := a.args[0]
					old := entryLoad(a)
					c.check(st.tags["twins"] == old || emptyList(st, old), st, "no twin", lbl, pos, "%s adds an item although one that the user has may be the same", lbl)
					n := newItem(st)
					ok := n != nil && list.op == "append" && list.args[0] == old && len(list.args) == 2 && list.args[1] == n
					if recv == "User" {
						ok = ok && u == c.param(f, 0)
					} else {
						ok = ok && (x.designates(st, u, c.reqVal(f, 1, "User.Username"), "username") || x.designates(st, u, c.reqVal(f, 1, "User.Email"), "email"))
					}
					c.check(ok, st, "added", lbl, pos, "%s: the list becomes %s", lbl, list)
				}
			}
		}
	}
}

// differentPrints tells whether two fingerprints are known to differ even
// without the prefix that some of them have.
func differentPrints(st *State, a, b *Term) bool {
	const p = "SHA256:"
	bare := func(t *Term) *Term {
		if s, ok := t.strVal(); ok {
			return cstr(strings.TrimPrefix(s, p))
		}
		return mk("call", "strings.TrimPrefix", types.Typ[types.String], nil, t, cstr(p))
	}
	if st.fails(tEq(bare(a), bare(b))) {
		return true
	}
	for f, v := range st.facts {
		if v || f.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			l, r := f.args[i], f.args[1-i]
			if barePrint(l, p) == a && barePrint(r, p) == b {
				return true
			}
		}
	}
	return false
}

// barePrint is the text whose prefix a term has removed.
func barePrint(t *Term, p string) *Term {
	if t.op == "call" && (t.s == "strings.TrimPrefix" || t.s == "strings.ReplaceAll") && len(t.args) >= 2 {
		if s, ok := t.args[1].strVal(); ok && s == p {
			return t.args[0]
		}
	}
	return nil
}

// ---- C26

// rolePart tells which part of the text of a role a term is: "all", "first" (up
// to the first slash) or "rest".
func rolePart(st *State, t, s *Term) string {
	isText := func(x *Term) bool {
		x, norm := stripNorm(x)
		for _, n := range norm {
			if n != "TrimSpace" {
				return false
			}
		}
		return x == s
	}
	isSlash := func(x *Term) bool { v, ok := x.strVal(); return ok && v == "/" }
	split := func(x *Term) (string, bool) { // "Split", "SplitN"
		if x != nil && x.op == "call" && (x.s == "strings.Split" || x.s == "strings.SplitN") && isText(x.args[0]) && isSlash(x.args[1]) {
			if x.s == "strings.SplitN" {
				if n, ok := x.args[2].intVal(); !ok || n != 2 {
					return "", false
				}
			}
			return x.s[len("strings."):], true
		}
		return "", false
	}
	index := func(x *Term) bool {
		return x != nil && x.op == "call" && (x.s == "strings.Index" || x.s == "strings.IndexByte") && isText(x.args[0])
	}
	if t == nil {
		return ""
	}
	if isText(t) {
		return "all"
	}
	if l, i, ok := elemOf(t); ok {
		if k, ok := split(l); ok {
			if st.same(i, tZero) {
				return "first"
			}
			if k == "SplitN" && st.same(i, cint(1)) {
				return "rest"
			}
		}
	}
	if t.op == "call" && t.s == "strings.Join" && isSlash(t.args[1]) {
		if l := t.args[0]; l.op == "slice" && len(l.args) >= 2 && l.args[1] != nil && st.same(l.args[1], cint(1)) && (len(l.args) < 3 || l.args[2] == nil) {
			if k, ok := split(l.args[0]); ok && k == "Split" {
				return "rest"
			}
		}
	}
	if t.op == "ext" && t.args[0].op == "call" && t.args[0].s == "strings.Cut" && isText(t.args[0].args[0]) && isSlash(t.args[0].args[1]) {
		if t.s == "0" {
			return "first"
		}
		if t.s == "1" {
			return "rest"
		}
	}
	if (t.op == "sub" || t.op == "slice") && isText(t.args[0]) {
		lo, hi := t.args[1], t.args[2]
		if (lo == nil || st.same(lo, tZero)) && index(hi) {
			return "first"
		}
		if hi == nil && lo != nil {
			found := false
			lo.walk(func(y *Term) bool {
				if index(y) && st.same(lo, tPlus(y, cint(1))) {
					found = true
				}
				return true
			})
			if found {
				return "rest"
			}
		}
	}
	return ""
}

// hasSlash decides whether the text of a role is known to have (no) slash.
func hasSlash(st *State, s *Term) (has, known bool) {
	texts := []*Term{s, trimmed(s)}
	for _, t := range texts {
		n := tLen(mk("call", "strings.Split", types.NewSlice(types.Typ[types.String]), nil, t, cstr("/")))
		for f := range st.facts {
			f.walk(func(y *Term) bool {
				if y.op == "call" && len(y.args) >= 2 && y.args[0] == t {
					switch y.s {
					case "strings.Split", "strings.SplitN":
						n = tLen(y)
						if v, ok := st.decide(tEq(n, cint(1))); ok {
							has, known = !v, true
						}
						if st.fails(tLt(n, cint(2))) {
							has, known = true, true
						}
						if st.holds(tLt(n, cint(2))) {
							has, known = false, true
						}
					case "strings.Index", "strings.IndexByte":
						if v, ok := st.decide(tLt(y, tZero)); ok {
							has, known = !v, true
						}
						if v, ok := st.decide(tEq(y, cint(-1))); ok {
							has, known = !v, true
						}
					case "strings.Contains", "strings.ContainsRune":
						if v, ok := st.decide(y); ok {
							has, known = v, true
						}
					case "strings.Cut":
						if v, ok := st.decide(mk("ext", "2", types.Typ[types.Bool], nil, y)); ok {
							has, known = v, true
						}
					}
				}
				return true
			})
		}
	}
	return
}

// wantRole tells what is wrong with a name and an organisation as those of the
// role that a text asks for.
func wantRole(st *State, s, name, org *Term) string {
	has, known := hasSlash(st, s)
	n, o := rolePart(st, name, s), rolePart(st, org, s)
	if v, ok := org.strVal(); ok && v == "" {
		o = "none"
	}
	switch {
	case !known:
		return "it is not known whether the text names an organisation"
	case has && (n != "rest" || o != "first"):
		return fmt.Sprintf("the organisation is %s and the name %s", org, name)
	case !has && (n != "all" && n != "first" || o != "none"):
		return fmt.Sprintf("without a slash, the organisation is %s and the name %s", org, name)
	case !st.fails(tEq(name, tEmpty)):
		return "the name may be empty"
	}
	return ""
}

// heldRole looks for an element of the user's roles that is known to be the one
// a text asks for.
func (c *Check) heldRole(st *State, user, s *Term) string {
	list := entryLoad(fieldAddr2(user, "", "Roles"))
	why := "no role of the user is known to be the one asked for"
	if c.someElem(st, list, func(e *Term) bool {
		n, o := st.valueAt(fieldAddr2(e, "", "Name")), st.valueAt(fieldAddr2(e, "", "Organization"))
		for _, a := range st.eqClass(n) {
			for _, b := range st.eqClass(o) {
				w := wantRole(st, s, a, b)
				if w == "" {
					return true
				}
			}
		}
		return false
	}) {
		return ""
	}
	return why
}

func checkC26(c *Check) {
	c.rule("held", 1, "a role is reported as held only if an element of the user's roles has its name and organisation")
	c.rule("skipped", 1, "adding a role does nothing only if an element of the user's roles has its name and organisation")
	c.rule("added", 1, "a role that is added is the parsed one, with a name")
	c.rule("every role", 1, "adding several roles adds every one of them")
	c.rule("refused", 1, "a text that is not a role is refused")
	if f := c.fn("", "User.HasRole"); f != nil {
		n := 0
		for _, r := range c.truths(c.run(f, nil)) {
			n++
			why := c.heldRole(r.st, c.param(f, 0), c.param(f, 1))
			c.check(why == "", r.st, "held", funcLabel(f), c.p.pos(f.Pos()), "HasRole says yes, but %s", why)
		}
		if n == 0 {
			c.undecided("HasRole never says yes")
		}
	}
	if f := c.fn("", "User.AddRole"); f != nil {
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		user, s := c.param(f, 0), c.param(f, 1)
		good, fail := c.split(c.run(f, nil))
		c.some(good, f)
		c.some(fail, f)
		a := fieldAddr2(user, "", "Roles")
		for _, r := range good {
			st := r.st
			list := st.valueAt(a)
			if list == entryLoad(a) {
				why := c.heldRole(st, user, s)
				c.check(why == "", st, "skipped", lbl, pos, "AddRole adds nothing, but %s", why)
				continue
			}
			ok := list.op == "append" && len(list.args) == 2 && list.args[0] == entryLoad(a)
			if !c.check(ok, st, "added", lbl, pos, "AddRole makes the list of roles %s", list) {
				continue
			}
			e := list.args[1]
			why := wantRole(st, s, st.valueAt(fieldAddr2(e, "", "Name")), st.valueAt(fieldAddr2(e, "", "Organization")))
			c.check(why == "" && isFresh(e), st, "added", lbl, pos, "AddRole adds a role, but %s", why)
		}
		for _, r := range fail {
			c.check(r.st.valueAt(a) == entryLoad(a), r.st, "refused", lbl, pos, "AddRole is refused but changes the roles")
		}
	}
	// whoever else adds roles does it through a parse
	for _, f := range c.libAPI() {
		lbl := funcLabel(f)
		if f.Signature.Recv() != nil && f.Name() == "AddRole" {
			continue
		}
		c.run(f, &Hooks{Append: func(m *Machine, st *State, base *Term, elems []*Term, res *Term, in ssa.Instruction) {
			if m.quiet > 0 || namedElem(res) != "Role" {
				return
			}
			for _, e := range elems {
				ok := isFresh(e) && st.fails(tEq(st.valueAt(fieldAddr2(e, "", "Name")), tEmpty))
				c.check(ok, st, "added", in.Parent().Name(), c.p.instrPos(in), "%s adds a role that may have no name", lbl)
			}
		}})
	}
	if f := c.fn("", "User.AddRoles"); f != nil {
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		roles := c.param(f, 1)
		h := &Hooks{}
		user := c.param(f, 0)
		var add *ssa.Function = c.p.lookup(modulePath, "User.AddRole")
		h.Return = func(m *Machine, st *State, fn *ssa.Function, res []*Term) {
			if fn == add && len(m.loops) > 0 && st.same(res[0], tNil) {
				if e := loopElem(st, m.loops[len(m.loops)-1]); e != nil {
					st.tags["role"] = e
				}
			}
		}
		enter := func(m *Machine, st *State, fn *ssa.Function, args []*Term, in ssa.CallInstruction) {
			if fn == add && args[0] == user {
				st.tags["asked"] = args[1]
			}
		}
		h.Enter = enter
		scans(h, scanRule{"roles", func(st *State, coll *Term) bool { return coll == roles }, func(st *State, e *Term) bool {
			ok := st.tags["role"] == e && st.tags["asked"] == e
			delete(st.tags, "role")
			delete(st.tags, "asked")
			return ok
		}})
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		for _, r := range good {
			c.check(r.st.tags["roles"] == roles || emptyList(r.st, roles), r.st, "every role", lbl, pos, "AddRoles succeeds although a role may not have been added")
		}
	}
}

// ---- C28

func checkC28(c *Check) {
	c.rule("new", 4, "a new collection is empty and of size 0")
	c.rule("add", 4, "adding appends the item at the end and keeps the size equal to the number of items")
	c.rule("encapsulated", 4, "the items and the size of a collection are written by its own methods only")
	pk := c.p.ssa[modulePath]
	if pk == nil {
		c.undecided("no root package")
		return
	}
	bundles := map[string]bool{}
	var names []string
	for n, mem := range pk.Members {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		add, get, size := c.p.lookup(modulePath, n+".Add"), c.p.lookup(modulePath, n+".Get"), c.p.lookup(modulePath, n+".Size")
		if add == nil || get == nil || size == nil {
			continue
		}
		_ = t
		names = append(names, n)
		bundles[n] = true
	}
	sortStrings(names)
	for _, n := range names {
		add, get, size := c.fn("", n+".Add"), c.fn("", n+".Get"), c.fn("", n+".Size")
		mk1 := c.fn("", "New"+n)
		if mk1 == nil {
			continue
		}
		observe := func(st *State, b *Term) (list, sz *Term) {
			l := c.runFrom(get, nil, []*Term{b}, st.clone())
			s := c.runFrom(size, nil, []*Term{b}, st.clone())
			if len(l) != 1 || len(s) != 1 || l[0].panics || s[0].panics {
				return nil, nil
			}
			return l[0].res[0], s[0].res[0]
		}
		for _, o := range c.run(mk1, nil) {
			if o.panics {
				continue
			}
			l, s := observe(o.st, o.res[0])
			ok := l != nil && emptyList(o.st, l) && o.st.same(s, tZero)
			c.check(ok, o.st, "new", n, c.p.pos(mk1.Pos()), "a new %s has the items %s and the size %s", n, l, s)
		}
		m := newMachine(c.p, nil)
		args := m.Params(add)
		st := c.p.entryState()
		st.learn(tNot(tEq(args[0], tNil)), true)
		l0, s0 := observe(st, args[0])
		if l0 == nil {
			c.undecided("the items and the size of a %s are not plain", n)
			continue
		}
		c.check(isEntryLoad(l0), st, "add", n, c.p.pos(get.Pos()), "Get of %s returns %s", n, l0)
		for _, o := range c.runFrom(add, nil, args, st) {
			if o.panics {
				continue
			}
			l1, s1 := observe(o.st, args[0])
			ok := l1 != nil && l1.op == "append" && len(l1.args) == 2 && l1.args[0] == l0 && l1.args[1] == args[1]
			c.check(ok, o.st, "add", n, c.p.pos(add.Pos()), "after adding to a %s its items are %s", n, l1)
			if ok {
				want := tPlus(tLen(l0), cint(1))
				s2 := s1
				if s0.op == "load" {
					s2 = replaced(s1, s0, tLen(l0))
				}
				c.check(s2 == want || s1 == tLen(l1) || o.st.same(s2, want), o.st, "add", n, c.p.pos(add.Pos()), "after adding to a %s of size %s its size is %s", n, s0, s1)
			}
		}
	}
	if len(names) < 4 {
		c.undecided("only %d kinds of collections", len(names))
	}
	for _, n := range names {
		c.ok("encapsulated", n)
	}
	for _, f := range c.libAPI() {
		lbl := funcLabel(f)
		c.run(f, &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			own, _, ok := strings.Cut(fldKey(a), ".")
			if m.quiet > 0 || !ok || !bundles[own] {
				return
			}
			inside := false
			for _, g := range m.stack {
				if r := g.Signature.Recv(); r != nil && namedType(r.Type()) == own && g.Name() == "Add" || g.Signature.Recv() == nil && g.Name() == "New"+own {
					inside = true
				}
			}
			c.check(inside, st, "encapsulated", own, c.p.instrPos(in), "%s writes %s outside the methods of the collection", lbl, fldKey(a))
		}})
	}
}

func tPlus(a, b *Term) *Term { return arith(token.ADD, a, b, types.Typ[types.Int]) }

// replaced puts a term in the place of another one.
func replaced(t, from, to *Term) *Term {
	if t == nil || t == from {
		if t == nil {
			return nil
		}
		return to
	}
	if !t.contains(from) {
		return t
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = replaced(a, from, to)
	}
	return rebuild(t, args)
}
