package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = checkC27
}

func isError(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// cannotFail lists the calls whose error is documented to be nil always, and
// the messages to the standard streams.
func cannotFail(name string, args []*Term) bool {
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).Write", "(hash.Hash).Write", "(hash.Hash32).Write", "(hash.Hash64).Write", "fmt.Print", "(*math/rand.Rand).Read"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if (strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || strings.HasSuffix(name, ".Write")) && len(args) > 0 {
		s := args[0].String()
		for _, p := range []string{"os.Stdout", "os.Stderr", "hash", "sha256.New", "sha1.New", "sha512.New", "hmac.New", "strings.Builder", "bytes.Buffer"} {
			if strings.Contains(s, p) {
				return true
			}
		}
	}
	return false
}

func checkC27(c *Check) {
	c.rule("not dropped", 60, "a function returns an ordinary result only if every error that it was given on the way is known to be nil; otherwise it returns an error, or false, nil or nothing found")
	c.rule("refusal", 30, "an error that is built from a message is known not to be nil")
	c.rule("exit", 1, "the command-line tool ends ordinarily only if the command has not failed")

	hooks := func() *Hooks {
		h := &Hooks{}
		key := func(m *Machine, in ssa.CallInstruction, i int) string {
			return fmt.Sprintf("E%d %d %d", len(m.callPos), m.p.instrID(in), i)
		}
		note := func(m *Machine, st *State, d int, k string, name string, e *Term) {
			if e == tNil || st.holds(tEq(e, tNil)) {
				delete(st.tags, k)
				return
			}
			st.tags[k] = e
			st.tags["name "+k] = cstr(name)
		}
		h.Called = func(m *Machine, st *State, name string, args []*Term, res *Term, in ssa.CallInstruction) {
			if p := in.Parent(); p.Pkg == nil || !strings.HasPrefix(p.Pkg.Pkg.Path(), modulePath) {
				return
			}
			rs := in.Common().Signature().Results()
			for i := 0; i < rs.Len(); i++ {
				if !isError(rs.At(i).Type()) || cannotFail(name, args) || harmlessClose(name, args) {
					continue
				}
				c.count("not dropped", funcLabel(in.Parent())+" calls "+name)
				e := res
				if e != nil && rs.Len() > 1 {
					if e.op == "tuple" {
						e = e.args[i]
					} else {
						e = mk("ext", fmt.Sprint(i), rs.At(i).Type(), nil, e)
					}
				}
				if e == nil {
					e = mk("unseen error", name, rs.At(i).Type(), nil, m.site(in))
				}
				note(m, st, len(m.callPos), key(m, in, i), name, e)
			}
		}
		failing := func(st *State, fn *ssa.Function, res []*Term, e *Term) bool {
			if e.op != "unseen error" && st.holds(tEq(e, tNil)) {
				return true
			}
			rs := fn.Signature.Results()
			hasErr := false
			if isNotFound(e) {
				// That nobody has a name is an answer. Somebody may be found in
				// another way, or the request is said to come from nobody.
				if len(res) == 2 && namedType(res[0].typ) == "User" && st.nonNil(res[0]) {
					return true
				}
				// A name that nobody has is free for a new user.
				for _, p := range fn.Params {
					if v := st.env[p]; v != nil && namedType(p.Type()) == "Database" {
						if a := fieldAddr(v, "Users"); a != nil && !st.same(st.valueAt(a), entryLoad(a)) {
							return true
						}
					}
				}
				if len(res) == 1 && isBool(res[0].typ) {
					return true
				}
				for _, p := range fn.Params {
					if v := st.env[p]; v != nil && strings.HasSuffix(types.TypeString(p.Type(), nil), "requests.Request") {
						if n, ok := st.valueAt(fieldAddr(v, "User.Username")).strVal(); ok && n != "" {
							return true
						}
					}
				}
			}
			for i := 0; i < rs.Len(); i++ {
				if isError(rs.At(i).Type()) {
					hasErr = true
					if res[i] == e || st.fails(tEq(res[i], tNil)) {
						return true
					}
				}
			}
			if hasErr || rs.Len() == 0 {
				return false
			}
			for _, r := range res {
				if z := zeroOf(r.typ); r == z || r == tNil || st.same(r, z) {
					continue
				}
				if b, ok := st.decide(r); ok && !b {
					continue
				}
				// an answer that is yes only if nothing failed
				if isBool(r.typ) && e.op != "unseen error" {
					if yes := st.clone(); !yes.learn(r, true) || yes.holds(tEq(e, tNil)) {
						continue
					}
				}
				return false
			}
			return true
		}
		h.Return = func(m *Machine, st *State, fn *ssa.Function, res []*Term) {
			d := len(m.callPos)
			pre := fmt.Sprintf("E%d ", d)
			if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath) {
				lbl := funcLabel(fn)
				for k, e := range st.tags {
					if !strings.HasPrefix(k, pre) {
						continue
					}
					name, _ := st.tags["name "+k].strVal()
					if fn.Signature.Results().Len() == 0 && d > 0 {
						// It cannot tell; what it is a part of has to.
						up := fmt.Sprintf("E%d %s", d-1, k)
						st.tags[up], st.tags["name "+up] = e, st.tags["name "+k]
						continue
					}
					c.check(failing(st, fn, res, e), st, "not dropped", lbl+" calls "+name, c.p.pos(fn.Pos()), "%s may go on as if nothing had happened although %s has failed with %s", lbl, name, e)
				}
				if d > 0 && strings.HasSuffix(lbl, "StandardError).WithArgs") {
					c.check(len(res) == 1 && st.nonNil(res[0]), st, "refusal", caller(c, m), c.p.pos(fn.Pos()), "the error that is built here may be nil: %s", res[0])
				}
			}
			for k := range st.tags {
				if strings.HasPrefix(k, pre) || strings.HasPrefix(k, "name "+pre) || strings.HasPrefix(k, "F"+pre) {
					delete(st.tags, k)
				}
			}
			if d == 0 {
				return
			}
			in, ok := m.callPos[d-1].(ssa.CallInstruction)
			if !ok || in.Parent().Pkg == nil || !strings.HasPrefix(in.Parent().Pkg.Pkg.Path(), modulePath) {
				return
			}
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if isError(rs.At(i).Type()) {
					c.count("not dropped", funcLabel(in.Parent())+" calls "+funcLabel(fn))
					note(m, st, d-1, fmt.Sprintf("E%d %d %d", d-1, m.p.instrID(in), i), funcLabel(fn), res[i])
				}
			}
		}
		// What fails for one element of a list is dropped if the list is then
		// exhausted; a search may end before.
		h.BackEdge = func(m *Machine, st *State, l *LoopInfo) {
			pre := fmt.Sprintf("E%d ", len(m.callPos))
			for k, e := range st.tags {
				if !strings.HasPrefix(k, pre) {
					continue
				}
				if st.holds(tEq(e, tNil)) {
					delete(st.tags, k)
					delete(st.tags, "name "+k)
				} else if l.coll != nil && !l.iter {
					st.tags["F"+k] = st.tags["name "+k]
					delete(st.tags, k)
					delete(st.tags, "name "+k)
				}
			}
		}
		h.LoopExit = func(m *Machine, st *State, l *LoopInfo) {
			pre := fmt.Sprintf("FE%d ", len(m.callPos))
			for k, n := range st.tags {
				if strings.HasPrefix(k, pre) {
					k = k[1:]
					st.tags[k] = mk("unseen error", "earlier", nil, nil, n)
					st.tags["name "+k] = n
				}
			}
		}
		h.Call = func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
			if name != "os.Exit" {
				return
			}
			if n, ok := args[0].intVal(); ok && n != 0 {
				c.ok("exit", funcLabel(in.Parent())+" "+args[0].String())
				return
			}
			for k, e := range st.tags {
				if strings.HasPrefix(k, "E") {
					c.check(st.holds(tEq(e, tNil)), st, "exit", funcLabel(in.Parent()), c.p.instrPos(in), "the program may end with the code %s although %s", args[0], e)
				}
			}
		}
		h.Go = func(m *Machine, st *State, in *ssa.Go) {
			c.bad(st, "not dropped", funcLabel(in.Parent())+" go", c.p.instrPos(in), "%s starts a goroutine whose failure nobody sees", funcLabel(in.Parent()))
		}
		return h
	}
	for _, f := range c.libAPI() {
		c.run(f, hooks())
	}
	for _, n := range []string{"main"} {
		f := c.fn("cmd/authdbctl", n)
		if f == nil {
			continue
		}
		h := hooks()
		c.run(f, h)
		c.ok("exit", n)
	}
}

// harmlessClose: closing what was only read cannot lose anything, and neither
// can an examination of a path.
func harmlessClose(name string, args []*Term) bool {
	if strings.HasSuffix(name, ".Close") && len(args) > 0 {
		return args[0].any(func(y *Term) bool { return y.op == "call" && y.s == "os.Open" })
	}
	return name == "os.Stat" || name == "os.Lstat"
}

func isNotFound(e *Term) bool {
	if e.op == "iface" {
		e = e.args[0]
	}
	s, ok := e.strVal()
	return ok && strings.Contains(s, "not found")
}

func caller(c *Check, m *Machine) string {
	if n := len(m.callPos); n > 0 {
		return funcLabel(m.callPos[n-1].Parent())
	}
	return "any arguments"
}
