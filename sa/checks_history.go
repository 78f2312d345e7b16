package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C48"] = checkC48
}

// checkC48: the history of passwords is bounded by the policy.
func checkC48(c *Check) {
	c.rule("bounded", 3, "an earlier password is kept by a password change only at a place in the list that is known to be below the policy's number of versions (or the default, where none is set)")
	for _, n := range []string{"Database.ChangeUserPassword", "User.ChangePassword", "User.AddPassword"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		var limit func(st *State) *Term
		if n == "Database.ChangeUserPassword" {
			a := fieldAddr2(c.param(f, 0), "", "Policy.Password.KeepVersions")
			limit = func(st *State) *Term { return st.valueAt(a) }
		} else {
			var k *Term
			for i, p := range f.Params {
				if isInteger(p.Type()) {
					k = c.param(f, i)
				}
			}
			if k == nil {
				c.undecided("%s takes no number of versions", n)
				continue
			}
			limit = func(*State) *Term { return k }
		}
		// below: v + off <= limit. Without a limit, the documented default is one.
		below := func(st *State, v *Term, off int64) bool {
			k := limit(st)
			if st.atMost(v, k, -off) {
				return true
			}
			return st.holds(tLt(k, cint(1))) && st.atMost(v, cint(10), -off)
		}
		isOld := func(e *Term) (*Term, bool) {
			coll, i, ok := elemOf(e)
			return i, ok && (valKey(coll) == "User.Passwords" || coll.contains2("User.Passwords"))
		}
		var puts []*histPut
		loops := map[*Term]*histLoop{}
		over := func(st *State, why string) { st.tags["over"] = cstr(why) }
		put := func(st *State, base, e *Term, in ssa.Instruction) {
			i, ok := isOld(e)
			if !ok || i == nil {
				return
			}
			n := int64(1)
			if t := st.tags["kept"]; t != nil {
				k, _ := t.intVal()
				n += k
			}
			st.tags["kept"] = cint(n)
			if below(st, i, 1) {
				return
			}
			puts = append(puts, &histPut{st.clone(), in, i})
		}
		whole := func(st *State, x *Term) {
			if x == nil || !x.contains2("User.Passwords") && valKey(x) != "User.Passwords" {
				return
			}
			if !below(st, tLen(x), 0) {
				over(st, "earlier passwords are kept although their number is not known to be within the limit")
			}
		}
		h := &Hooks{
			Append: func(m *Machine, st *State, base *Term, elems []*Term, res *Term, in ssa.Instruction) {
				if namedElem(base) != "Password" && namedElem(res) != "Password" || !c.kept(in) {
					return
				}
				if base != nil && !isFresh(base) && base.op != "append" && base.op != "appends" && base.op != "star" {
					whole(st, base)
				}
				for _, e := range elems {
					if e.op == "spread" {
						whole(st, e.args[0])
						continue
					}
					put(st, base, e, in)
				}
			},
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				if a.op == "idx" && v != nil && namedType(v.typ) == "Password" && !ofArray(a.args[0]) && c.kept(in) {
					put(st, nil, v, in)
				}
			},
			BackEdge: func(m *Machine, st *State, l *LoopInfo) {
				if l.iter {
					return
				}
				lp := loops[l.ctx]
				if lp == nil {
					lp = &histLoop{l: l, by: map[string]*histCount{}}
					loops[l.ctx] = lp
				}
				kept := int64(0)
				if t := st.tags["kept"]; t != nil {
					kept, _ = t.intVal()
				}
				delete(st.tags, "kept")
				lp.turn(st, l, kept, below)
			},
		}
		good, _ := c.split(c.run(f, h))
		c.some(good, f)
		loose := false
		for _, p := range puts {
			if !p.bounded(loops, below, limit) {
				loose = true
			}
		}
		for _, r := range good {
			st := r.st
			var u *Term
			if n == "Database.ChangeUserPassword" {
				for a := range st.heap {
					if fldKey(a) == "User.Passwords" && persistent(a) {
						u = a
					}
				}
			} else {
				u = fieldAddr2(c.param(f, 0), "", "Passwords")
			}
			if u == nil {
				continue
			}
			list := st.valueAt(u)
			// the list may also be cut at the end
			ok := list != entryLoad(u) && below(st, tLen(list), -1) ||
				list.op == "append" && list.args[0] == tNil && !list.contains2("User.Passwords")
			why := "the earlier passwords are not cut"
			if !ok {
				ok = !loose
				if t := st.tags["over"]; t != nil {
					ok = false
					why, _ = t.strVal()
				} else if loose {
					why = "an earlier password is kept although neither its place nor the number of those kept is known to be below the limit"
				}
			}
			c.check(ok, st, "bounded", lbl, pos, "%s: %s", lbl, why)
		}
	}
}

// ofArray: the memory of an array, such as the one that an append's elements
// are passed in.
func ofArray(x *Term) bool {
	if x == nil || x.typ == nil {
		return false
	}
	t := x.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// baseOf splits a number into a term and what is added to it.
func (st *State) baseOf(t *Term) (*Term, int64) {
	off := int64(0)
	for {
		if n, ok := t.intVal(); ok {
			return tZero, off + n
		}
		if (t.op == "bin+" || t.op == "bin-") && len(t.args) == 2 {
			if n, ok := t.args[1].intVal(); ok {
				if t.op == "bin-" {
					n = -n
				}
				t, off = t.args[0], off+n
				continue
			}
			if n, ok := t.args[0].intVal(); ok && t.op == "bin+" {
				t, off = t.args[1], off+n
				continue
			}
		}
		if t.op == "len" && t.args[0].op == "append" {
			t, off = tLen(t.args[0].args[0]), off+int64(len(t.args[0].args)-1)
			continue
		}
		if c := st.constOf(t); c != nil && c != t {
			t = c
			continue
		}
		return t, off
	}
}

// atMost: a <= b + d, from what is known about differences.
func (st *State) atMost(a, b *Term, d int64) bool {
	type edge struct {
		x, y *Term
		c    int64
	}
	base := st.baseOf
	var es []edge
	node := map[*Term]bool{tZero: true}
	// x + c1 <= y + c2
	rel := func(x, y *Term, d int64) {
		x, cx := base(x)
		y, cy := base(y)
		node[x], node[y] = true, true
		es = append(es, edge{x, y, cy - cx + d})
	}
	num := func(t *Term) bool { return t.op == "len" || isInteger(t.typ) }
	for f, v := range st.facts {
		if f.op != "lt" && f.op != "eq" || !num(f.args[0]) || !num(f.args[1]) {
			continue
		}
		switch {
		case f.op == "lt" && v:
			rel(f.args[0], f.args[1], -1)
		case f.op == "lt":
			rel(f.args[1], f.args[0], 0)
		case v:
			rel(f.args[0], f.args[1], 0)
			rel(f.args[1], f.args[0], 0)
		}
	}
	from, ca := base(a)
	to, cb := base(b)
	node[from], node[to] = true, true
	for n := range node {
		if n == tZero {
			continue
		}
		lo, hi, lok, hok := st.bounds(n)
		if lok {
			es = append(es, edge{tZero, n, -lo})
		}
		if hok {
			es = append(es, edge{n, tZero, hi})
		}
	}
	dist := map[*Term]int64{from: 0}
	for i := 0; i <= len(node); i++ {
		more := false
		for _, e := range es {
			if dx, ok := dist[e.x]; ok {
				if dy, ok := dist[e.y]; !ok || dx+e.c < dy {
					dist[e.y], more = dx+e.c, true
				}
			}
		}
		if !more {
			break
		}
	}
	have, ok := dist[to]
	return ok && have <= cb-ca+d
}

// differs: a number that starts at init and grows by one at most is known not
// to be one that is within the limit, so that it stays below it.
func (st *State) differs(ctx, m *Term, init int64, below func(*State, *Term, int64) bool) bool {
	x, c := st.baseOf(m)
	for f, v := range st.facts {
		if v || f.op != "eq" {
			continue
		}
		for i, a := range f.args {
			o := f.args[1-i]
			if b, d := st.baseOf(a); b == x && isInteger(a.typ) && !o.hasCtx(ctx) {
				// a + k is m, and not o + k
				k := c - d
				if below(st, o, k-init) && st.atMost(cint(init-k), o, -1) {
					return true
				}
			}
		}
	}
	return false
}

// histPut is a place where an earlier password is kept, with what is known there.
type histPut struct {
	st *State
	in ssa.Instruction
	i  *Term
}

// histCount is a number that counts what a loop has kept so far, or more: what
// it is when a turn starts, and what all turns that go on know.
type histCount struct {
	off       int64 // what it is to begin with
	low       bool  // at the end of each turn it is known to be below the limit
	pre, post bool  // at its start, or at its end, it is known not to have come to a limit
	turns     int
	at        func(st *State) *Term // what it is when a turn started
	first     bool                  // what it is when the first turn starts is known
}

type histLoop struct {
	l     *LoopInfo
	by    map[string]*histCount
	turns int
}

// turn looks at the end of an iteration.
func (lp *histLoop) turn(st *State, l *LoopInfo, kept int64, below func(*State, *Term, int64) bool) {
	lp.turns++
	// what has been kept so far is at most m0 - init
	see := func(id string, at func(st *State) *Term, m0, m1 *Term, init int64, whole, first bool) {
		n := lp.by[id]
		if n == nil {
			n = &histCount{off: init, low: true, pre: true, post: true, at: at}
			lp.by[id] = n
		}
		n.first = n.first || first
		if n.off != init || !whole || !st.atMost(m0, m1, -kept) {
			return
		}
		n.turns++
		if m0 == m1 {
			return
		}
		one := st.atMost(m1, m0, 1)
		n.low = n.low && below(st, m1, 1-init)
		n.pre = n.pre && one && st.differs(l.ctx, m0, init, below)
		n.post = n.post && one && st.differs(l.ctx, m1, init, below)
	}
	if l.elem != nil && !l.mapIt {
		see("", func(*State) *Term { return l.elem }, l.elem, tPlus(l.elem, cint(1)), 0, true, true)
	}
	for p, old := range l.vars {
		p := p
		if old == nil {
			continue
		}
		var next *Term
		init, numbers := int64(0), true
		for i, v := range p.Edges {
			switch n, ok := v.(*ssa.Const); {
			case l.head.Preds[i] == l.back:
				next = st.env[v]
				if ok && n.Value != nil && isInteger(n.Type()) {
					next = cint(n.Int64())
				} else if ok {
					next = tNil
				}
			case l.blocks[l.head.Preds[i]]:
			case ok && n.Value != nil && isInteger(n.Type()) && (numbers || init == n.Int64()):
				init = n.Int64()
			default:
				numbers = false
			}
		}
		if next == nil {
			continue
		}
		if isInteger(p.Type()) {
			if numbers {
				see(p.Name(), func(st *State) *Term { return st.env[p] }, old, next, init, true, true)
			}
		} else if namedElem(old) == "Password" || namedElem(next) == "Password" {
			size := func(st *State) *Term {
				if x := st.env[p]; x != nil {
					return tLen(x)
				}
				return nil
			}
			see(p.Name()+" 0", size, tLen(old), tLen(next), 0, true, true)
			// a list that the new password is in already
			see(p.Name()+" 1", size, tLen(old), tLen(next), 1, old.op == "star" || st.minLen(old) > 0, old.op != "star")
		}
	}
}

// bounded: what is kept here is counted by a number that is below the limit.
func (p *histPut) bounded(loops map[*Term]*histLoop, below func(*State, *Term, int64) bool, limit func(*State) *Term) bool {
	in := func(lp *histLoop) bool { return lp.l.blocks[p.in.Block()] }
	any := false
	for _, lp := range loops {
		if !in(lp) {
			continue
		}
		inner := true
		for _, o := range loops {
			if in(o) && len(o.l.blocks) < len(lp.l.blocks) {
				inner = false
			}
		}
		if !inner {
			continue
		}
		any = true
		ok := false
		for _, n := range lp.by {
			if n.turns != lp.turns || !n.first {
				continue
			}
			ok = ok || (n.low || n.post) && below(p.st, tZero, 1)
			if m := n.at(p.st); m != nil {
				ok = ok || below(p.st, m, 1-n.off) || n.pre && p.st.differs(lp.l.ctx, m, n.off, below)
			}
		}
		if !ok {
			return false
		}
	}
	return any
}
