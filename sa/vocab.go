package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The vocabulary of the checks: what terms mean in this library. Anchors are
// exported names and types; unexported fields are found by the role they play.

// fkey is the short name of a field: "User.Username" in the root package,
// "requests.User.Username" elsewhere.
func fkey(aux string) string {
	if i := strings.LastIndex(aux, "/"); i >= 0 {
		aux = aux[i+1:]
	}
	return strings.TrimPrefix(aux, "go-identity.")
}

func fldKey(a *Term) string {
	if a == nil || a.op != "fld" {
		return ""
	}
	return fkey(a.aux.(string))
}

// fieldVal recognises the value read from a field: (object, true).
func fieldVal(t *Term, key string) (*Term, bool) {
	if t == nil {
		return nil, false
	}
	if t.op == "load" && t.args[0].op == "fld" && fldKey(t.args[0]) == key {
		return t.args[0].args[0], true
	}
	return nil, false
}

// valKey is the field that a value was read from, "" if none.
func valKey(t *Term) string {
	if t != nil && t.op == "load" {
		return fldKey(t.args[0])
	}
	if t != nil && t.op == "dec" {
		if k, ok := t.aux.(string); ok {
			return k
		}
	}
	return ""
}

// elemOf recognises an element read from a slice: (slice, index).
func elemOf(t *Term) (*Term, *Term, bool) {
	if t != nil && t.op == "load" && t.args[0].op == "idx" {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	return nil, nil, false
}

// mapVal recognises a value read from a map: (map, key).
func mapVal(t *Term) (*Term, *Term, bool) {
	if t != nil && t.op == "load" && t.args[0].op == "melem" {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	return nil, nil, false
}

// deepRoot follows selections and loads to the object everything starts from.
func deepRoot(t *Term) *Term {
	for t != nil {
		t = rootOf(t)
		switch t.op {
		case "load", "iface", "assert", "conv", "iter", "key", "mval", "append", "appends", "bytes":
			t = t.args[0]
			continue
		case "dec":
			return t
		}
		return t
	}
	return nil
}

func isParam(t *Term, i int) bool {
	return t != nil && t.op == "param" && strings.HasPrefix(t.s, fmt.Sprint(i)+":")
}

// shared tells whether an address is memory that other calls on the same
// database can reach.
func shared(a *Term) bool {
	r := deepRoot(a)
	if r == nil {
		return false
	}
	if r.op == "param" && namedType(r.typ) == "Database" {
		return true
	}
	if (r.op == "lv" || r.op == "lvh" || r.op == "cbval" || r.op == "cbarg") && isPtr(r.typ) {
		switch namedType(r.typ) {
		case "Database", "User", "Password", "APIKey", "PublicKey", "MfaToken", "EmailAddress", "Name", "Role":
			return true
		}
	}
	return false
}

// namedType is the name of the module's type behind a (pointer to a) named type.
func namedType(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path()) {
		return ""
	}
	if n.Obj().Pkg().Path() == modulePath {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

// entryLoad is the value that an address had when the entry point was called.
func entryLoad(a *Term) *Term {
	return mk("load", "", elemType(a.typ), nil, a, nil)
}

func isEntryLoad(t *Term) bool { return t != nil && t.op == "load" && t.args[1] == nil }

// fieldAddr selects a (nested) field of the object a pointer points to, by path.
func fieldAddr(base *Term, path string) *Term {
	a := base
	for _, f := range strings.Split(path, ".") {
		t := elemType(a.typ)
		if t == nil {
			return nil
		}
		if isPtr(t) {
			a = entryLoad(a)
			t = elemType(t)
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				a = mkFld(a, t, i)
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return a
}

// param is the i-th parameter term of an entry point.
func (c *Check) param(f *ssa.Function, i int) *Term {
	m := &Machine{p: c.p}
	l := m.Params(f)
	if i >= len(l) {
		c.undecided("%s has no parameter %d", f, i)
		return mk("param", "99:", nil, nil)
	}
	return l[i]
}

// reqVal is the value of a request field on entry.
func (c *Check) reqVal(f *ssa.Function, i int, path string) *Term {
	a := fieldAddr(c.param(f, i), path)
	if a == nil {
		c.undecided("the request has no field %s", path)
		return mk("unknown", path, nil, nil)
	}
	return entryLoad(a)
}

func (st *State) valueAt(a *Term) *Term { return st.read(a, elemType(a.typ)) }

// ---- text

// fold strips case folding and reports the names of the normalisers stripped.
func stripNorm(t *Term) (*Term, []string) {
	var l []string
	for t != nil && t.op == "call" && len(t.args) >= 1 {
		switch t.s {
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Title", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.ToTitle", "strings.TrimLeft", "strings.TrimRight", "strings.ToLowerSpecial", "strings.Map", "strings.ReplaceAll", "strings.Replace":
			x := t.args[0]
			if t.s == "strings.Map" && len(t.args) > 1 {
				x = t.args[1]
			}
			l = append(l, t.s[8:])
			t = x
			continue
		}
		break
	}
	return t, l
}

func lower(t *Term) *Term {
	if t.op == "call" && t.s == "strings.ToLower" {
		return t
	}
	if s, ok := t.strVal(); ok {
		return cstr(strings.ToLower(s))
	}
	return mk("call", "strings.ToLower", types.Typ[types.String], nil, t)
}

func trimmed(t *Term) *Term {
	if t.op == "call" && t.s == "strings.TrimSpace" {
		return t
	}
	if s, ok := t.strVal(); ok {
		return cstr(strings.TrimSpace(s))
	}
	return mk("call", "strings.TrimSpace", types.Typ[types.String], nil, t)
}

// same decides whether two terms are equal in a state.
func (st *State) same(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if v, ok := st.decide(tEq(a, b)); ok {
		return v
	}
	return false
}

// holds decides a fact.
func (st *State) holds(t *Term) bool {
	v, ok := st.decide(t)
	return ok && v
}

func (st *State) fails(t *Term) bool {
	v, ok := st.decide(t)
	return ok && !v
}

// sameFold decides equality without regard to case.
func (st *State) sameFold(a, b *Term) bool {
	if st.same(a, b) || st.same(lower(a), lower(b)) {
		return true
	}
	f1 := mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, lower(a), lower(b))
	f2 := mk("call", "strings.EqualFold", types.Typ[types.Bool], nil, lower(b), lower(a))
	return st.holds(f1) || st.holds(f2)
}

// ---- the database's lookup tables

// Index describes the lookup tables: role -> field.
type Index struct {
	field map[string]string // "username" -> "Database.refUsername"
	role  map[string]string
}

var roleOfKey = map[string]string{
	"User.Username":        "username",
	"EmailAddress.Address": "email",
	"User.ID":              "id",
	"APIKey.Prefix":        "apikey",
}

var indexCache = map[*Program]*Index{}

// index finds the lookup tables: fields of map type that loading a database
// fills with users under their names, addresses, ids and key prefixes.
func (c *Check) index() *Index {
	if x := indexCache[c.p]; x != nil {
		return x
	}
	x := &Index{map[string]string{}, map[string]string{}}
	indexCache[c.p] = x
	f := c.fn("", "NewDatabase")
	if f == nil {
		return x
	}
	h := &Hooks{MapWrite: func(m *Machine, st *State, mp, key, val *Term, instr ssa.Instruction) {
		if m.quiet > 0 || val == nil || namedType(val.typ) != "User" {
			return
		}
		k, _ := stripNorm(key)
		r := roleOfKey[valKey(k)]
		fl := mapField(st, mp)
		if r == "" || fl == "" {
			return
		}
		if x.field[r] != "" && x.field[r] != fl || x.role[fl] != "" && x.role[fl] != r {
			c.undecided("the lookup table of role %s is ambiguous: %s and %s", r, x.field[r], fl)
		}
		x.field[r], x.role[fl] = fl, r
	}}
	m := newMachine(c.p, h)
	m.exec(f, m.Params(f), nil, c.p.entryState())
	for _, r := range []string{"username", "email", "id", "apikey"} {
		if x.field[r] == "" {
			c.undecided("loading a database fills no lookup table by %s", r)
		}
	}
	return x
}

// mapField is the field of the database that holds a map.
func mapField(st *State, mp *Term) string {
	if mp == nil {
		return ""
	}
	if mp.op == "load" && mp.args[0].op == "fld" {
		return fldKey(mp.args[0])
	}
	if isFresh(mp) {
		var l []string
		for a, v := range st.heap {
			if v == mp && a.op == "fld" {
				l = append(l, fldKey(a))
			}
		}
		if len(l) > 0 {
			sort.Strings(l)
			return l[0]
		}
	}
	return ""
}

func (x *Index) roleOf(st *State, mp *Term) string { return x.role[mapField(st, mp)] }

// userBy recognises a user found in a lookup table: (role, key).
func (x *Index) userBy(st *State, u *Term) (role string, key *Term) {
	mp, k, ok := mapVal(u)
	if !ok {
		return "", nil
	}
	return x.roleOf(st, mp), k
}

// designates tells whether user u is, in this state, the one that text s names
// in the given role ("username" or "email").
func (x *Index) designates(st *State, u, s *Term, role string) bool {
	for _, e := range st.eqClass(u) {
		if r, k := x.userBy(st, e); r == role {
			if role == "username" || role == "email" {
				if st.sameFold(k, s) {
					return true
				}
			} else if st.same(k, s) {
				return true
			}
		}
	}
	// found by a scan
	for f, v := range st.facts {
		if !v || f.op != "eq" && !(f.op == "call" && f.s == "strings.EqualFold") || len(f.args) < 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, _ := stripNorm(f.args[i])
			b := f.args[1-i]
			if !st.sameFold(b, s) {
				continue
			}
			switch role {
			case "username":
				if o, ok := fieldVal(a, "User.Username"); ok && o == u {
					return true
				}
			case "email":
				if o, ok := fieldVal(a, "EmailAddress.Address"); ok {
					if coll, _, ok := elemOf(o); ok {
						if ow, ok := fieldVal(coll, "User.EmailAddresses"); ok && ow == u {
							return true
						}
					}
				}
			case "id":
				if o, ok := fieldVal(a, "User.ID"); ok && o == u {
					return true
				}
			}
		}
	}
	return false
}

// sameUser decides whether two users are known to be the same one.
func (st *State) sameUser(a, b *Term) bool {
	if st.same(a, b) {
		return true
	}
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		x, ok1 := fieldVal(f.args[0], "User.ID")
		y, ok2 := fieldVal(f.args[1], "User.ID")
		if ok1 && ok2 && (x == a && y == b || x == b && y == a) {
			return true
		}
	}
	return false
}

// usersIn lists the users mentioned in a state's facts as found in a table.
func (x *Index) usersIn(st *State) []*Term {
	set := map[*Term]bool{}
	add := func(t *Term) {
		t.walk(func(y *Term) bool {
			if y.op == "load" && y.args[0].op == "melem" && x.roleOf(st, y.args[0].args[0]) != "" {
				set[y] = true
			}
			return true
		})
	}
	for f := range st.facts {
		add(f)
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// credentialFields are the fields of a user that hold credentials.
var credentialFields = map[string]bool{"User.Passwords": true, "User.PublicKeys": true, "User.APIKeys": true, "User.MfaTokens": true}

// dbMethods lists the exported methods of Database.
func (c *Check) dbMethods() []*ssa.Function {
	var l []*ssa.Function
	for _, f := range c.p.exportedAPI(modulePath) {
		if r := f.Signature.Recv(); r != nil && namedType(r.Type()) == "Database" {
			l = append(l, f)
		}
	}
	if len(l) < 20 {
		c.undecided("only %d exported methods of Database", len(l))
	}
	return l
}

var libPkgs = []string{"", "pkg/qr", "pkg/errors", "pkg/requests", "internal/utils", "internal/tag"}

// libAPI lists the exported functions of the library's packages.
func (c *Check) libAPI() []*ssa.Function {
	var l []*ssa.Function
	for _, k := range libPkgs {
		path := modulePath
		if k != "" {
			path += "/" + k
		}
		l = append(l, c.p.exportedAPI(path)...)
	}
	return l
}

func funcLabel(f *ssa.Function) string {
	n := shortName(f.String())
	n = strings.TrimPrefix(n, "go-identity.")
	n = strings.Replace(n, "(*go-identity.", "(*", 1)
	return n
}

// expand lists the addresses of the scalar fields that an access to a whole
// struct touches.
func expand(a *Term) []*Term {
	t := elemType(a.typ)
	if t == nil {
		return []*Term{a}
	}
	if u, ok := flattened(t); ok {
		var l []*Term
		for i := 0; i < u.NumFields(); i++ {
			l = append(l, expand(mkFld(a, t, i))...)
		}
		return l
	}
	return []*Term{a}
}

func sortStrings(l []string) { sort.Strings(l) }

// funcsIn lists the functions and methods declared in a package.
func (p *Program) funcsIn(pkg string) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range p.fns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == pkg && f.Parent() == nil && f.Synthetic == "" && ours(f) {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// loopElem is the element that an iteration of a scanning loop is about.
func loopElem(st *State, l *LoopInfo) *Term {
	if l.coll == nil || l.elem == nil || l.coll.typ == nil {
		return nil
	}
	s, ok := l.coll.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return st.read(mkIdx(l.coll, l.elem, s.Elem()), s.Elem())
}

// scanRule is an obligation on every element of a list that a loop scans.
type scanRule struct {
	name string
	coll func(st *State, coll *Term) bool
	ok   func(st *State, e *Term) bool
}

// picks follows loops over a list that pick elements into another list: the
// tag then holds that list, once every element that was left out is one that
// may be.
func picks(h *Hooks, tag string, coll func(st *State, coll *Term) bool, skip func(st *State, e *Term) bool) {
	bad := map[*Term]map[*ssa.Phi]bool{}
	back, exit := h.BackEdge, h.LoopExit
	h.BackEdge = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter && coll(st, l.coll) {
			b := bad[l.ctx]
			if b == nil {
				b = map[*ssa.Phi]bool{}
				bad[l.ctx] = b
			}
			e := loopElem(st, l)
			for p, old := range l.vars {
				if _, ok := p.Type().Underlying().(*types.Slice); !ok || old == nil {
					continue
				}
				var next *Term
				for i, v := range p.Edges {
					if l.head.Preds[i] == l.back {
						next = st.env[v]
					}
				}
				switch {
				case e == nil || next == nil:
					b[p] = true
				case next.op == "append" && next.args[len(next.args)-1] == e && (next.args[0] == old && len(next.args) == 2 || old.op == "append" && len(next.args) == len(old.args)+1 || old == tNil):
				case next == old && skip(st, e):
				default:
					b[p] = true
				}
			}
		}
		if back != nil {
			back(m, st, l)
		}
	}
	h.LoopExit = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter && coll(st, l.coll) {
			for p := range l.vars {
				if _, ok := p.Type().Underlying().(*types.Slice); ok && !bad[l.ctx][p] && st.env[p] != nil {
					st.tags[tag] = st.env[p]
				}
			}
		}
		if exit != nil {
			exit(m, st, l)
		}
	}
}

// scans keeps track, along each path, of the lists all of whose elements meet
// an obligation: the tag of the rule's name then holds the list.
func scans(h *Hooks, rules ...scanRule) {
	back, exit := h.BackEdge, h.LoopExit
	h.BackEdge = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter {
			for _, r := range rules {
				if r.coll(st, l.coll) {
					if e := loopElem(st, l); e == nil || !r.ok(st, e) {
						st.tags["not "+r.name+fmt.Sprint(l.ctx.id)] = tTrue
					}
				}
			}
		}
		if back != nil {
			back(m, st, l)
		}
	}
	h.LoopExit = func(m *Machine, st *State, l *LoopInfo) {
		if l.coll != nil && !l.iter {
			for _, r := range rules {
				k := "not " + r.name + fmt.Sprint(l.ctx.id)
				if r.coll(st, l.coll) && st.tags[k] == nil {
					st.tags[r.name] = l.coll
				}
			}
		}
		if exit != nil {
			exit(m, st, l)
		}
	}
}
