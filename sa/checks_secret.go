package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = checkC15
	checks["C17"] = checkC17
}

// recordTypes are the types that the content of a database is made of.
func (c *Check) recordTypes() map[string]bool {
	r := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
		case *types.Map:
			add(u.Elem())
		case *types.Named:
			n := namedType(u)
			if n == "" || r[n] {
				return
			}
			s, ok := u.Underlying().(*types.Struct)
			if !ok {
				return
			}
			r[n] = true
			for i := 0; i < s.NumFields(); i++ {
				add(s.Field(i).Type())
			}
		}
	}
	if f := c.fn("", "NewDatabase"); f != nil {
		add(f.Signature.Results().At(0).Type())
	}
	if len(r) < 8 {
		c.undecided("only %d types of records", len(r))
	}
	return r
}

// secretParams are the parameters that carry a clear-text password or key.
var secretParams = map[string]int{
	"NewPassword": 0, "NewPasswordWithOptions": 0, "Password.Match": 1, "APIKey.Match": 1,
	"User.AddPassword": 1, "User.VerifyPassword": 1, "NewUserWithRoles": 1,
}

// secret describes the clear texts of one entry point.
type secret struct {
	terms map[*Term]bool
	key   *Term // a generated API key
}

// clear tells whether a value is made from a clear text.
func (s *secret) clear(t *Term, d int) bool {
	if t == nil || d > 60 {
		return t != nil
	}
	if s.terms[t] {
		return true
	}
	if t.isConst() || t.typ != nil && (isBool(t.typ) || isNumeric(t.typ)) {
		return false
	}
	switch t.op {
	case "len", "eq", "lt", "not", "has", "hsum", "hmac", "param", "alloc", "global", "func":
		return false
	case "load":
		if t.args[0].op == "idx" {
			return s.clear(t.args[0].args[0], d+1)
		}
		return false
	case "fld", "idx", "melem", "cell":
		return false
	case "call":
		for _, p := range []string{"golang.org/x/crypto/bcrypt.", "crypto/", "(crypto/", "(*crypto/"} {
			if strings.HasPrefix(t.s, p) {
				return false
			}
		}
	}
	for _, a := range t.args {
		if a != nil && !strings.HasPrefix(a.op, "ctx") && s.clear(a, d+1) {
			return true
		}
	}
	return false
}

// reaches tells whether a value is made from a clear text or refers to one.
func (s *secret) reaches(st *State, v *Term) bool {
	seen := map[*Term]bool{}
	var visit func(v *Term) bool
	visit = func(v *Term) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if s.clear(v, 0) {
			return true
		}
		found := false
		v.walk(func(y *Term) bool {
			if found || y.op == "call" && strings.Contains(y.s, "crypto/") || y.op == "load" {
				return false
			}
			if isFresh(y) && !seen[y] {
				seen[y] = true
				for a, w := range st.heap {
					if w != nil && a != y && rootOf(a) == y && visit(w) {
						found = true
					}
				}
			}
			return !found
		})
		return found
	}
	return visit(v)
}

func methodName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return namedType(r.Type()) + "." + f.Name()
	}
	return f.Name()
}

func checkC15(c *Check) {
	recs := c.recordTypes()
	c.rule("stored", 5, "no field of a record holds a clear-text password or API key; only the first 24 characters of a key are kept")
	c.rule("reported", 10, "no error is made from a clear-text password or API key")
	c.rule("logged", 1, "no clear text is printed, logged, written to a file or put into a package variable")
	c.rule("handed out", 1, "a new API key is handed out in the response, and nowhere else")
	n := 0
	for _, f := range c.libAPI() {
		name := methodName(f)
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		s := &secret{terms: map[*Term]bool{}}
		if i, ok := secretParams[name]; ok && f.Pkg.Pkg.Path() == modulePath {
			p := c.param(f, i)
			if !isString(p.typ) {
				c.undecided("parameter %d of %s is no text", i, lbl)
			}
			s.terms[p] = true
		}
		req := -1
		k := 0
		if f.Signature.Recv() != nil {
			k = 1
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if namedType(f.Signature.Params().At(i).Type()) == "requests.Request" {
				req = i + k
			}
		}
		if req >= 0 {
			s.terms[c.reqVal(f, req, "User.Password")] = true
			s.terms[c.reqVal(f, req, "User.OldPassword")] = true
			if name == "Database.LookupAPIKey" {
				s.terms[c.reqVal(f, req, "Key.Payload")] = true
			}
		}
		if len(s.terms) == 0 {
			continue
		}
		n++
		gen := name == "Database.AddAPIKey"
		h := &Hooks{
			Call: func(m *Machine, st *State, nm string, args []*Term, in ssa.CallInstruction) {
				if gen && nm == bcryptGenerate {
					k, _ := stripNorm(textOf(st, args[0]))
					s.terms[k] = true
				}
				if m.quiet > 0 {
					return
				}
				sink := false
				for _, p := range []string{"log.", "(*log.", "log/", "fmt.Print", "fmt.Fprint", "(*os.File).Write", "os.WriteFile", "io.WriteString", "(io.Writer).", "os.Setenv"} {
					sink = sink || strings.HasPrefix(nm, p)
				}
				if nm == "print" || nm == "println" {
					sink = true
				}
				if !sink {
					return
				}
				for _, a := range args {
					good := !s.reaches(st, a)
					c.check(good, st, "logged", lbl+" "+shortName(nm), c.p.instrPos(in), "%s passes a clear text to %s", lbl, nm)
				}
			},
		}
		c.count("logged", lbl)
		outs := c.run(f, h)
		if gen {
			good, _ := c.split(outs)
			c.some(good, f)
			for _, r := range good {
				a := fieldAddr(c.param(f, req), "Response.Payload")
				if a == nil {
					c.undecided("there is no Response.Payload")
					break
				}
				k := stripIface(r.st.valueAt(a))
				hashed := false
				for _, t := range nilFacts(r.st) {
					if t.op == "ext" && t.s == "1" && t.args[0].op == "call" && t.args[0].s == bcryptGenerate {
						x, _ := stripNorm(textOf(r.st, t.args[0].args[0]))
						hashed = hashed || x == k
					}
				}
				c.check(hashed, r.st, "handed out", lbl, pos, "%s responds with %s, which is not the key that was hashed", lbl, k)
			}
		}
		for _, o := range outs {
			if o.panics {
				continue
			}
			st := o.st
			for i, v := range o.res {
				if v != nil && types.TypeString(f.Signature.Results().At(i).Type(), nil) == "error" {
					c.check(!s.reaches(st, v), st, "reported", lbl, pos, "%s returns an error made from a clear text: %s", lbl, v)
				}
			}
			var addrs []*Term
			for a := range st.heap {
				addrs = append(addrs, a)
			}
			sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
			for _, a := range addrs {
				v := st.heap[a]
				if v == nil {
					continue
				}
				if rootOf(a).op == "global" {
					c.check(!s.clear(v, 0), st, "logged", lbl+" "+a.String(), pos, "%s leaves a clear text in %s", lbl, a)
					continue
				}
				if a.op == "idx" || a.op == "melem" {
					if k := recordHolding(st, a.args[0], recs); k != "" {
						c.check(!s.clear(v, 0), st, "stored", lbl+" "+k, pos, "%s stores a clear text in %s", lbl, k)
					}
					continue
				}
				k := fldKey(a)
				if k == "requests.Response.Payload" && gen {
					continue
				}
				i := strings.LastIndex(k, ".")
				if i < 0 || !recs[k[:i]] {
					if k != "" && !strings.HasPrefix(k, "requests.") && gen {
						c.check(!s.clear(v, 0), st, "handed out", lbl+" "+k, pos, "%s leaves the new API key in %s", lbl, k)
					}
					continue
				}
				good := !s.clear(v, 0)
				if !good && k == "APIKey.Prefix" {
					_, lo, hi, ok := sliceParts(v)
					good = ok && lo == 0 && hi == 24
				}
				c.check(good, st, "stored", lbl+" "+k, pos, "%s stores a clear text in %s: %s", lbl, k, v)
			}
		}
		if gen && len(s.terms) < 3 {
			c.undecided("%s hashes no generated key", lbl)
		}
	}
	if n < 20 {
		c.undecided("only %d functions take a clear text", n)
	}
}

// recordHolding is the field of a record that holds a list or map.
func recordHolding(st *State, coll *Term, recs map[string]bool) string {
	for a, v := range st.heap {
		if v == coll {
			k := fldKey(a)
			if i := strings.LastIndex(k, "."); i > 0 && recs[k[:i]] {
				return k
			}
		}
	}
	if k := valKey(coll); k != "" {
		if i := strings.LastIndex(k, "."); i > 0 && recs[k[:i]] {
			return k
		}
	}
	return ""
}

// shape describes how a text was made from what a caller gave.
func shape(t *Term) (base *Term, s string) {
	x, norm := stripNorm(t)
	var l []string
	for i, n := range norm {
		if i > 0 && norm[i-1] == n {
			continue
		}
		l = append(l, n)
	}
	switch x.op {
	case "sub", "slice", "call", "at", "fmt", "ext", "conv", "concat", "str", "hsum":
		// drawn at random, not given
		if !x.any(func(y *Term) bool { return y.op == "call" && strings.HasPrefix(y.s, "crypto/rand") }) {
			l = append(l, x.op)
		}
	}
	return x, strings.Join(l, " of ")
}

func checkC17(c *Check) {
	c.rule("cost", 1, "every hash is made with a cost of at least 8")
	c.rule("blank", 1, "nothing is hashed unless it is known not to be blank")
	c.rule("same text", 2, "what is hashed and what is compared with a hash are normalised in the same way")
	c.rule("stored", 1, "what is stored as the hash of a password is what bcrypt returned")
	c.rule("accepted", 2, "a text that matches a password in force is accepted: a password is passed over only if it is disabled, expired or known not to match")
	shapes := map[string]string{}
	note := func(st *State, what string, t *Term, pos string) {
		_, s := shape(t)
		if shapes[s] == "" {
			shapes[s] = what
		}
		var other string
		for k, w := range shapes {
			if k != s && (other == "" || w < other) {
				other = w
			}
		}
		c.check(len(shapes) == 1, st, "same text", what, pos, "%s uses the text after (%s), unlike %s", what, s, other)
	}
	for _, f := range c.libAPI() {
		if f.Pkg.Pkg.Path() != modulePath {
			continue
		}
		lbl := funcLabel(f)
		h := &Hooks{
			Call: func(m *Machine, st *State, nm string, args []*Term, in ssa.CallInstruction) {
				if m.quiet > 0 {
					return
				}
				pos := c.p.instrPos(in)
				switch nm {
				case bcryptGenerate:
					lo, _, ok, _ := st.bounds(args[1])
					c.check(ok && lo >= 8, st, "cost", "hashing", pos, "%s hashes with the cost %s, which is not known to be at least 8", lbl, args[1])
					t := textOf(st, args[0])
					x, _ := stripNorm(t)
					c.check(st.fails(tEq(t, tEmpty)) && t != x || st.fails(tEq(trimmed(x), tEmpty)), st, "blank", "hashing", pos, "%s hashes a text that may be blank", lbl)
					note(st, "hashing", t, pos)
				case bcryptCompare:
					if _, ok := fieldVal(textOf(st, args[0]), "Password.Hash"); ok {
						note(st, "matching", textOf(st, args[1]), pos)
					}
				}
			},
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				if m.quiet > 0 {
					return
				}
				for _, y := range expand(a) {
					if fldKey(y) != "Password.Hash" {
						continue
					}
					if y != a {
						continue // a whole record is copied
					}
					t := textOf(st, v)
					for t != nil && (t.op == "str" || t.op == "bytes") {
						t = t.args[0]
					}
					ok := t != nil && t.op == "ext" && t.s == "0" && t.args[0].op == "call" && t.args[0].s == bcryptGenerate
					if _, is := fieldVal(v, "Password.Hash"); is {
						ok = true
					}
					c.check(ok, st, "stored", "Password.Hash", c.p.instrPos(in), "%s stores %s as the hash of a password", lbl, v)
				}
			},
		}
		c.run(f, h)
	}
	// verification
	if f := c.fn("", "Password.Match"); f != nil {
		for _, o := range c.run(f, nil) {
			if o.panics {
				continue
			}
			st := o.st.clone()
			if st.holds(o.res[0]) || !st.learn(o.res[0], false) {
				continue
			}
			c.check(mismatch(st, c.param(f, 0), c.param(f, 1)), st, "accepted", "Match", c.p.pos(f.Pos()), "Match denies a text that is not known to mismatch the hash")
		}
	}
	if f := c.fn("", "User.VerifyPassword"); f != nil {
		user, pw := c.param(f, 0), c.param(f, 1)
		list := entryLoad(fieldAddr(user, "Passwords"))
		h := &Hooks{}
		skip := func(st *State, e *Term) bool {
			for _, k := range []string{"Disabled", "Expired"} {
				if st.holds(st.valueAt(fieldAddr2(e, "", k))) {
					return true
				}
			}
			return mismatch(st, e, pw)
		}
		picked := func(st *State, coll *Term) bool { return coll == list || st.tags["picked"] == coll }
		scans(h, scanRule{"passwords", picked, skip})
		picks(h, "picked", func(st *State, coll *Term) bool { return coll == list }, skip)
		_, fail := c.split(c.run(f, h))
		c.some(fail, f)
		for _, r := range fail {
			st := r.st
			ok := st.tags["passwords"] != nil && picked(st, st.tags["passwords"]) || st.tags["picked"] == tNil || st.same(tLen(list), tZero) || st.same(list, tNil) || st.same(trimmed(pw), tEmpty)
			c.check(ok, st, "accepted", "VerifyPassword", c.p.pos(f.Pos()), "VerifyPassword refuses although a password in force may match the text")
		}
	}
}

// mismatch decides that a text is known not to match the hash of a password.
func mismatch(st *State, rec, pw *Term) bool {
	if st.same(trimmed(pw), tEmpty) {
		return true
	}
	for f, v := range st.facts {
		if v || f.op != "eq" {
			continue
		}
		t := f.args[0]
		if t == tNil {
			t = f.args[1]
		}
		if t.op != "call" || t.s != bcryptCompare {
			continue
		}
		o, ok := fieldVal(textOf(st, t.args[0]), "Password.Hash")
		x, _ := stripNorm(textOf(st, t.args[1]))
		if ok && o == rec && x == pw {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
