package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

// lockMode is the mode in which a lock of the database is held.
func lockMode(st *State) string {
	m := ""
	for l, v := range st.locks {
		if r := deepRoot(l); r != nil && r.op == "param" && namedType(r.typ) == "Database" {
			if v == "W" {
				return "W"
			}
			m = v
		}
	}
	return m
}

type access struct {
	fn       *ssa.Function
	write    bool
	key      string
	mode     string
	again    bool
	pos      string
	st       *State
	inLocked bool
}

func shortKey(k string) string {
	pre := ""
	if i := strings.IndexByte(k, '#'); i >= 0 {
		pre, k = "entries of ", k[i+1:]
	}
	return pre + fkey(k)
}

func checkC01(c *Check) {
	c.rule("locked", 60, "every access of an exported Database method to state that some such method changes happens while the database's lock is held: shared mode suffices to read, exclusive mode is needed to write")
	c.rule("one section", 18, "all accesses of one call happen in one critical section")
	c.rule("lock discipline", 18, "the lock is not taken while held, not released while not held, and not held on return")
	c.rule("no handover", 0, "no goroutine is started with access to the database")
	c.rule("lock fixed", 18, "the lock itself is never replaced")

	var acc []access
	seen := map[string]bool{}
	written := map[string]bool{}
	cons := map[string]string{}
	methods := c.dbMethods()
	for _, f := range methods {
		f := f
		lbl := funcLabel(f)
		cons[lbl] = lbl
		note := func(m *Machine, st *State, a *Term, key string, write bool, in ssa.Instruction) {
			mode := lockMode(st)
			again := false
			if mode != "" {
				cs := st.tags["cs"]
				if cs == nil {
					cs = cint(0)
				}
				if old := st.tags["acc"]; old != nil && old != cs {
					again = true
				} else if old == nil {
					st.tags["acc"] = cs
				}
			}
			if m.quiet > 0 {
				return
			}
			if write {
				written[key] = true
			}
			pos := c.p.instrPos(in)
			k := fmt.Sprint(lbl, key, write, mode, again, pos)
			if seen[k] {
				return
			}
			seen[k] = true
			acc = append(acc, access{fn: f, write: write, key: key, mode: mode, again: again, pos: pos, st: st.clone()})
		}
		h := &Hooks{
			Load: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				if !shared(a) {
					return
				}
				for _, x := range expand(a) {
					note(m, st, x, heapKey(x), false, in)
				}
			},
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				if !shared(a) {
					return
				}
				for _, x := range expand(a) {
					note(m, st, x, heapKey(x), true, in)
				}
				if t := elemType(a.typ); t != nil && strings.Contains(t.String(), "sync.") {
					c.bad(st, "lock fixed", lbl, c.p.instrPos(in), "the lock %s is replaced", a)
				}
			},
			MapRead: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				if shared(mp) {
					note(m, st, mp, heapKey(mkMelem(mp, k, nil)), false, in)
				}
			},
			MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				if shared(mp) {
					note(m, st, mp, heapKey(mkMelem(mp, k, nil)), true, in)
				}
			},
			Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
				if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(sync.") {
					return
				}
				for i, a := range args {
					l := []*Term{a}
					if a != nil && a.op == "slice" {
						if el, ok := m.variadic(st, a); ok {
							l = el
						}
					}
					for _, x := range l {
						x = stripIface(x)
						if x == nil || x.typ == nil || !(isPtr(x.typ) || isMap(x.typ) || isSlice(x.typ)) || !shared(x) {
							continue
						}
						if x.op == "fld" || x.op == "idx" {
							x2 := x
							write := !readOnly(name) && !isPure(name)
							for _, y := range expand(x2) {
								note(m, st, y, heapKey(y), write, in)
							}
							continue
						}
						write := !readOnly(name) && !isPure(name) || (name == "copy" || name == "clear") && i == 0
						key := "everything reachable from a " + namedType(x.typ)
						if namedType(x.typ) == "" {
							key = "everything reachable from " + fkey(valKey(x))
						}
						if !write {
							// reading an object that something changes
							written[key] = true
						}
						note(m, st, x, key, write, in)
					}
				}
			},
			Lock: func(m *Machine, st *State, what string, l *Term, in ssa.CallInstruction) {
				pos := c.p.instrPos(in)
				held := st.locks[l]
				switch what {
				case "Lock", "RLock":
					if held != "" {
						c.bad(st, "lock discipline", lbl, pos, "%s while the same lock is held in mode %s", what, held)
					} else {
						c.ok("lock discipline", lbl)
					}
					if cs := st.tags["cs"]; cs == nil {
						st.tags["cs"] = cint(1)
					} else {
						st.tags["cs"] = cint(2)
					}
				case "Unlock":
					c.check(held == "W", st, "lock discipline", lbl, pos, "Unlock while the lock is not held in exclusive mode")
				case "RUnlock":
					c.check(held == "R", st, "lock discipline", lbl, pos, "RUnlock while the lock is not held in shared mode")
				}
			},
			Go: func(m *Machine, st *State, g *ssa.Go) {
				_, args := m.callee(st, g.Common())
				ct, _ := m.callee(st, g.Common())
				bad := false
				for _, a := range append(append([]*Term(nil), args...), ct.free...) {
					if a == nil {
						continue
					}
					if a.any(func(t *Term) bool { return t.op == "param" && namedType(t.typ) == "Database" }) {
						bad = true
					}
					if isFresh(a) && shared(st.read(a, elemType(a.typ))) {
						bad = true
					}
				}
				c.check(!bad, st, "no handover", lbl, c.p.instrPos(g), "a goroutine with access to the database is started: it runs outside the critical section")
			},
		}
		for _, o := range c.run(f, h) {
			if o.panics {
				continue
			}
			c.check(len(o.st.locks) == 0, o.st, "lock discipline", lbl, c.p.pos(f.Pos()), "%s returns while holding a lock", lbl)
		}
		c.ok("lock fixed", lbl)
	}
	// elements of a slice are written by whoever appends to the slice field
	sort.SliceStable(acc, func(i, j int) bool { return acc[i].pos < acc[j].pos })
	for _, a := range acc {
		if !written[a.key] {
			continue
		}
		lbl := funcLabel(a.fn)
		what := "reads"
		good := a.mode != ""
		if a.write {
			what = "writes"
			good = a.mode == "W"
		}
		con := lbl + " " + what + " " + shortKey(a.key)
		mode := map[string]string{"": "without holding the database's lock", "R": "holding the lock in shared mode only", "W": ""}[a.mode]
		c.check(good, a.st, "locked", con, a.pos, "%s %s %s", lbl, con[len(lbl)+1:], mode)
		if a.mode != "" {
			c.check(!a.again, a.st, "one section", lbl, a.pos, "%s %s in a later critical section than an earlier access of the same call", lbl, con[len(lbl)+1:])
		}
	}
	c.notes = append(c.notes, fmt.Sprintf("%d kinds of state are changed by exported methods: %s", len(written), strings.Join(sortedKeys(written), ", ")))
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, shortKey(k))
	}
	sort.Strings(l)
	return l
}

// safeReceivers are types whose methods may be called concurrently.
func safeReceiver(name string) bool {
	for _, p := range []string{"(*regexp.Regexp)", "(*sync.", "(sync.", "(*log.Logger)", "(*github.com/greenpau/versioned.PackageManager)", "(*encoding/base64.Encoding)", "(*encoding/base32.Encoding)", "(*strings.Replacer)", "(*sync/atomic.", "(sync/atomic."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "sync/atomic.")
}

func moduleGlobal(t *Term) *ssa.Global {
	r := deepRoot(t)
	if r == nil || r.op != "global" {
		return nil
	}
	g, _ := r.aux.(*ssa.Global)
	if g == nil || g.Pkg == nil || !inModule(g.Pkg.Pkg.Path()) {
		return nil
	}
	return g
}

func globalLockHeld(st *State) bool {
	for l, v := range st.locks {
		if v == "W" && moduleGlobal(l) != nil {
			return true
		}
	}
	return false
}

func checkC02(c *Check) {
	c.rule("no write", 100, "no exported function of the library writes memory reachable from a package variable, except under a package-level lock or sync.Once")
	c.rule("no unsafe call", 100, "no exported function of the library calls, on an object reachable from a package variable, a function that may change it, unless it is safe for concurrent use or a package-level lock is held")
	for _, f := range c.libAPI() {
		lbl := funcLabel(f)
		inOnce := func(m *Machine) bool {
			for _, in := range m.callPos {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && strings.HasPrefix(s.String(), "(*sync.Once).Do") {
						return true
					}
				}
			}
			return false
		}
		bad := func(m *Machine, st *State, a *Term, in ssa.Instruction, rule, what string) {
			g := moduleGlobal(a)
			if g == nil || globalLockHeld(st) || inOnce(m) {
				return
			}
			c.bad(st, rule, lbl+" "+g.Name(), c.p.instrPos(in), "%s %s the package variable %s (%s) without synchronisation", lbl, what, g.Name(), a)
		}
		h := &Hooks{
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) { bad(m, st, a, in, "no write", "writes") },
			MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				bad(m, st, mp, in, "no write", "writes")
			},
			Append: func(m *Machine, st *State, base *Term, el []*Term, r *Term, in ssa.Instruction) {
				// appending to a shared slice may write to spare capacity: the
				// slices of the package variables are literals, without any,
				// unless something stores to the variable
				if g := moduleGlobal(base); g != nil && c.p.mutGlb[g] != "" {
					bad(m, st, base, in, "no write", "appends to")
				}
				if base.op == "slice" && len(base.args) > 2 && base.args[2] != nil {
					bad(m, st, base, in, "no write", "appends to a part of")
				}
			},
			Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
				if safeReceiver(name) || isPure(name) {
					return
				}
				for i, a := range args {
					x := stripIface(a)
					if x == nil {
						continue
					}
					g := moduleGlobal(x)
					if g == nil {
						continue
					}
					ref := x.op == "global" || x.op == "fld" || x.op == "idx" || x.typ != nil && (isPtr(x.typ) || isSlice(x.typ) || isMap(x.typ) || isIface(x.typ))
					if !ref {
						continue
					}
					recv := strings.HasPrefix(name, "(") && i == 0
					if recv && strings.HasPrefix(name, "(error)") {
						continue
					}
					if recv || !readOnly(name) && !(name == "copy" && i == 1) {
						bad(m, st, x, in, "no unsafe call", "calls "+shortName(name)+" on")
					}
				}
			},
		}
		c.run(f, h)
		c.ok("no write", lbl)
		c.ok("no unsafe call", lbl)
	}
}
