package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokLSS = token.LSS

type traceNode struct {
	prev *traceNode
	text string
	n    int
}

type deferred struct {
	instr  *ssa.Defer
	callee *calleeT
	args   []*Term
	ctx    *Term
}

// State is one abstract state: a set of runs that reached a program point and
// agree on everything recorded here.
type State struct {
	env     map[ssa.Value]*Term
	defers  []*deferred
	heap    map[*Term]*Term
	epoch   map[string]*Term
	facts   map[*Term]bool
	eqc     map[*Term]*Term
	dirty   map[*Term]*Term
	escaped map[*Term]bool
	locks   map[*Term]string // lock object -> "R" or "W"
	tags    map[string]*Term // check-specific; states with different tags are never joined
	trace   *traceNode
}

func newState() *State {
	return &State{
		env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, epoch: map[string]*Term{},
		facts: map[*Term]bool{}, eqc: map[*Term]*Term{}, dirty: map[*Term]*Term{},
		escaped: map[*Term]bool{}, locks: map[*Term]string{}, tags: map[string]*Term{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	return &State{
		env: cp(s.env), defers: append([]*deferred(nil), s.defers...), heap: cp(s.heap), epoch: cp(s.epoch),
		facts: cp(s.facts), eqc: cp(s.eqc), dirty: cp(s.dirty), escaped: cp(s.escaped),
		locks: cp(s.locks), tags: cp(s.tags), trace: s.trace,
	}
}

func (s *State) note(text string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{s.trace, text, n}
}

func (s *State) path() []string {
	var l []string
	for t := s.trace; t != nil; t = t.prev {
		l = append(l, t.text)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// sig is a signature of the state for removing duplicates.
func (s *State) sig(withEnv bool) string {
	var l []string
	if withEnv {
		for v, t := range s.env {
			l = append(l, fmt.Sprintf("e%p=%d", v, t.id))
		}
	}
	for a, v := range s.heap {
		l = append(l, fmt.Sprintf("h%d=%d", a.id, v.id))
	}
	for a, v := range s.facts {
		l = append(l, fmt.Sprintf("f%d=%v", a.id, v))
	}
	for a, v := range s.epoch {
		l = append(l, fmt.Sprintf("k%s=%d", a, v.id))
	}
	for a, v := range s.dirty {
		l = append(l, fmt.Sprintf("d%d=%d", a.id, v.id))
	}
	for a := range s.escaped {
		l = append(l, fmt.Sprintf("x%d", a.id))
	}
	sort.Strings(l)
	return s.ctlSig() + "|" + strings.Join(l, ",")
}

// ctlSig is the part that must agree for two states to be joined.
func (s *State) ctlSig() string {
	var l []string
	for a, v := range s.locks {
		l = append(l, fmt.Sprintf("l%d=%s", a.id, v))
	}
	for a, v := range s.tags {
		l = append(l, fmt.Sprintf("t%s=%d", a, v.id))
	}
	for _, d := range s.defers {
		l = append(l, fmt.Sprintf("D%p", d.instr))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// ---- addresses

// heapKey partitions memory: two addresses with different keys never alias.
func heapKey(a *Term) string {
	switch a.op {
	case "fld":
		return a.aux.(string)
	case "idx":
		if t := elemType(a.typ); t != nil {
			return "[]" + types.TypeString(t, nil)
		}
		return "[]?"
	case "melem":
		return "m " + typeStr(a.args[0].typ) + mapOrigin(a.args[0])
	case "has":
		return "mh " + typeStr(a.args[0].typ) + mapOrigin(a.args[0])
	case "cell":
		return "cell " + a.s
	}
	if t := elemType(a.typ); t != nil {
		return "*" + types.TypeString(t, nil)
	}
	return "*?"
}

// mapOrigin names the struct field that alone holds a map.
func mapOrigin(mp *Term) string {
	if mp.op == "load" && mp.args[0].op == "fld" {
		if f := mp.args[0].aux.(string); !sharedMapFields[f] {
			return "#" + f
		}
	}
	return ""
}

// keysMeet tells whether addresses with these keys may be the same.
func keysMeet(a, b string) bool {
	if a == b {
		return true
	}
	if a[0] != 'm' || b[0] != 'm' {
		return false
	}
	ta, fa := splitKey(a)
	tb, fb := splitKey(b)
	return ta == tb && (fa == "" || fb == "")
}

func splitKey(k string) (string, string) {
	if i := strings.LastIndexByte(k, '#'); i >= 0 {
		return k[:i], k[i+1:]
	}
	return k, ""
}

func (s *State) epochOf(k string) *Term {
	if k[0] != 'm' {
		return s.epoch[k]
	}
	t, f := splitKey(k)
	if f == "" {
		return s.epoch[t+"#any"]
	}
	x, y := s.epoch[k], s.epoch[t]
	if y == nil {
		return x
	}
	return mk("ep2", "", nil, nil, x, y)
}

func (s *State) setEpoch(k string, site *Term) {
	s.epoch[k] = site
	if k[0] == 'm' {
		t, _ := splitKey(k)
		s.epoch[t+"#any"] = site
	}
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t.Underlying(), nil)
}

// elemType is the type an address points at.
func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func mkFld(base *Term, st types.Type, i int) *Term {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	name := types.TypeString(st, nil)
	return mk("fld", f.Name(), types.NewPointer(f.Type()), name+"."+f.Name(), base)
}

func mkIdx(base, i *Term, elem types.Type) *Term {
	// s[0:][i] is s[i]
	for base.op == "slice" && (base.args[1] == nil || base.args[1] == tZero) {
		base = base.args[0]
	}
	return mk("idx", "", types.NewPointer(elem), nil, base, i)
}

func mkMelem(m, k *Term, elem types.Type) *Term {
	return mk("melem", "", types.NewPointer(elem), nil, m, k)
}
func mkHas(m, k *Term) *Term {
	return mk("has", "", types.NewPointer(types.Typ[types.Bool]), nil, m, k)
}
func mkCell(name string, obj *Term, typ types.Type) *Term {
	return mk("cell", name, types.NewPointer(typ), nil, obj)
}

// rootOf strips field, element and cell selections.
func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case "fld", "idx", "melem", "has", "cell", "slice":
			a = a.args[0]
			continue
		}
		return a
	}
}

func isFresh(t *Term) bool {
	switch t.op {
	case "alloc", "mkmap", "mkslice":
		return true
	}
	return false
}

func provablyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	return false
}

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		fa, fb := isFresh(ra), isFresh(rb)
		if fa && fb {
			return false
		}
		if fa && !s.escaped[ra] && rb.op != "lv" && rb.op != "star" && rb.op != "lvh" {
			return false
		}
		if fb && !s.escaped[rb] && ra.op != "lv" && ra.op != "star" && ra.op != "lvh" {
			return false
		}
		if a.op == "fld" && b.op == "fld" || a.op == b.op {
			// same-named globals etc.: distinct globals never alias
			if ra.op == "global" && rb.op == "global" {
				return false
			}
		}
		if a.op == "melem" || a.op == "has" {
			return s.mayAliasMap(a, b)
		}
		return true
	}
	if a.op == b.op {
		switch a.op {
		case "idx":
			if provablyDistinct(a.args[1], b.args[1]) && a.args[0] == b.args[0] {
				return false
			}
		case "melem", "has":
			return s.mayAliasMap(a, b)
		case "fld":
			return s.mayAlias(a.args[0], b.args[0])
		}
	}
	return true
}

func (s *State) mayAliasMap(a, b *Term) bool {
	if a.args[0] == b.args[0] {
		return !provablyDistinct(a.args[1], b.args[1])
	}
	// different fields of one struct hold different maps by construction
	if la, lb := a.args[0], b.args[0]; la.op == "load" && lb.op == "load" {
		if la.args[0].op == "fld" && lb.args[0].op == "fld" && heapKey(la.args[0]) != heapKey(lb.args[0]) {
			if mapOrigin(la) != "" && mapOrigin(lb) != "" {
				return false
			}
		}
	}
	return !provablyDistinct(a.args[1], b.args[1])
}

// sharedMapFields are the fields of map type that may hold a map which something
// else holds too: some store to them is of something other than a fresh map made
// for that field alone (computed when the program is loaded).
var sharedMapFields = map[string]bool{}

// ---- zero values

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsNumeric != 0:
			return cval(constant.MakeInt64(0), t)
		}
		return tNil
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return tNil
	case *types.Struct:
		return mk("zerostruct", types.TypeString(t, nil), t, nil)
	case *types.Array:
		return mk("zerofill", types.TypeString(t, nil), t, nil)
	}
	return tNil
}

// flattened tells whether a struct type is stored field by field.
func flattened(t types.Type) (*types.Struct, bool) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return nil, false
		}
		if !inModule(n.Obj().Pkg().Path()) {
			// what others keep to themselves is one piece
			for i := 0; i < u.NumFields(); i++ {
				if !u.Field(i).Exported() {
					return nil, false
				}
			}
			return u, u.NumFields() > 0
		}
	}
	return u, true
}

func fieldOf(v *Term, t types.Type, i int) *Term {
	u := t.Underlying().(*types.Struct)
	f := u.Field(i)
	switch v.op {
	case "zerostruct":
		return zeroOf(f.Type())
	case "struct":
		return v.args[i]
	}
	return mk("fieldof", f.Name(), f.Type(), nil, v)
}

// ---- reading and writing

func (s *State) read(a *Term, typ types.Type) *Term {
	if v, ok := s.heap[a]; ok {
		return v
	}
	if typ != nil && a.op != "cell" {
		if u, ok := flattened(typ); ok {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = s.read(mkFld(a, typ, i), u.Field(i).Type())
			}
			return mk("struct", types.TypeString(typ, nil), typ, nil, args...)
		}
		if u, ok := typ.Underlying().(*types.Array); ok && u.Len() <= 16 && a.op != "cell" {
			have := false
			for h := range s.heap {
				if rootOf(h) == a || rootOf(h) == rootOf(a) && h.op == "idx" && h.args[0] == a {
					have = true
					break
				}
			}
			if have {
				args := make([]*Term, u.Len())
				for i := range args {
					args[i] = s.read(mkIdx(a, cint(int64(i)), u.Elem()), u.Elem())
				}
				return mk("arr", types.TypeString(typ, nil), typ, nil, args...)
			}
		}
	}
	if a.op == "idx" {
		if v := s.readElem(a.args[0], a.args[1], typ); v != nil {
			return v
		}
	}
	r := rootOf(a)
	if isFresh(r) {
		d := s.dirty[r]
		if d == nil && (a.op == "idx" || a.op == "melem" || a.op == "has") {
			// a selection that may be any of the known elements
			var l []*Term
			for h, v := range s.heap {
				if h.op == a.op && h.args[0] == a.args[0] && !provablyDistinct(h.args[1], a.args[1]) {
					l = append(l, h, v)
				}
			}
			if len(l) > 0 {
				sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
				return mk("load", "", typ, nil, a, mk("ep2", "sel", nil, nil, l...))
			}
		}
		if d == nil {
			if typ == nil {
				return tNil
			}
			if a.op == "idx" && isByteElem(a) {
				// filled by something that wrote the content as a whole
				if v := s.heap[mkCell("bytes", contentRoot(a.args[0]), types.Typ[types.String])]; v != nil {
					return mk("at", "", typ, nil, v, a.args[1])
				}
			}
			return zeroOf(typ)
		}
		if d.op == "decoded" {
			// content decoded from serialised data
			if p, ok := fieldPath(a, r); ok && exportedPath(p) {
				return mk("dec", p, typ, decKey(r, p), d.args[0])
			}
			if typ != nil {
				return zeroOf(typ)
			}
		}
	}
	if a.op == "fld" || a.op == "idx" {
		if d := s.dirty[r]; d != nil && d.op == "decoded" && !isFresh(r) {
			if p, ok := fieldPath(a, r); ok && exportedPath(p) {
				return mk("dec", p, typ, decKey(r, p), d.args[0])
			}
		}
	}
	e := s.epochOf(heapKey(a))
	if g := s.epoch["*"]; g != nil && r.op != "global" && !isFresh(r) {
		e = mk("ep2", "", nil, nil, e, g)
	}
	if isFresh(r) {
		e = mk("ep2", "", nil, nil, s.dirty[r], e)
	}
	return mk("load", "", typ, nil, a, e)
}

// decKey names the field that a decoded value belongs to.
func decKey(root *Term, p string) interface{} {
	if n := namedType(root.typ); n != "" && !strings.Contains(p, ".") {
		return n + "." + p
	}
	return nil
}

func fieldPath(a, root *Term) (string, bool) {
	var p []string
	for a != root {
		if a.op != "fld" {
			return "", false
		}
		p = append([]string{a.s}, p...)
		a = a.args[0]
	}
	return strings.Join(p, "."), true
}

func exportedPath(p string) bool {
	for _, f := range strings.Split(p, ".") {
		if f == "" || !token.IsExported(f) {
			return false
		}
	}
	return true
}

// readElem resolves an element of a slice whose construction is known.
func (s *State) readElem(base, i *Term, typ types.Type) *Term {
	switch base.op {
	case "append":
		n, ok := tLen(base.args[0]).intVal()
		k, ok2 := i.intVal()
		if ok && ok2 {
			if k >= n {
				if int(k-n)+1 < len(base.args) {
					return base.args[k-n+1]
				}
				return nil
			}
			return s.read(mkIdx(base.args[0], i, typ), typ)
		}
	case "arr":
		if k, ok := i.intVal(); ok && int(k) < len(base.args) {
			return base.args[k]
		}
	case "star":
		return s.pick(base, i)
	}
	return nil
}

// pick resolves an element of a list that a loop put together: what is known of
// every element that the loop added holds for the one that is read.
func (s *State) pick(base, i *Term) *Term {
	if len(base.args) != 1 || isSlice(base.args[0].typ) || isString(base.args[0].typ) || len(base.args[0].cs) == 0 {
		return nil
	}
	e := base.args[0]
	var acc *Term
	for _, c := range e.cs {
		if c.op == "accloop" {
			if acc != nil {
				return nil
			}
			acc = c
		}
	}
	if r := deepRoot(e); acc == nil || r == nil || isFresh(r) {
		return nil
	}
	to := mk("ctxpick", fmt.Sprint(base.id), nil, nil, i)
	memo := map[*Term]*Term{}
	r := subst(e, acc, to, memo)
	fs := map[*Term]bool{}
	for f, v := range s.facts {
		if f.hasCtx(acc) {
			fs[subst(f, acc, to, memo)] = v
		}
	}
	for f, v := range fs {
		if !s.has(f) {
			s.learn(f, v)
		}
	}
	hs := map[*Term]*Term{}
	for a, v := range s.heap {
		if a.hasCtx(acc) {
			hs[subst(a, acc, to, memo)] = subst(v, acc, to, memo)
		}
	}
	for a, v := range hs {
		if _, ok := s.heap[a]; !ok {
			s.heap[a] = v
		}
	}
	return r
}

func (s *State) has(f *Term) bool { _, ok := s.facts[f]; return ok }

// write stores v at a. site is an epoch term for the writing instruction.
func (s *State) write(a, v *Term, typ types.Type, site *Term) {
	if typ != nil && a.op != "cell" {
		if u, ok := flattened(typ); ok {
			for i := 0; i < u.NumFields(); i++ {
				s.write(mkFld(a, typ, i), fieldOf(v, typ, i), u.Field(i).Type(), site)
			}
			return
		}
		if u, ok := typ.Underlying().(*types.Array); ok && v.op == "arr" {
			for i := int64(0); i < u.Len(); i++ {
				s.write(mkIdx(a, cint(i), u.Elem()), v.args[i], u.Elem(), site)
			}
			return
		}
	}
	k := heapKey(a)
	r := rootOf(a)
	private := isFresh(r) && !s.escaped[r]
	if !private {
		s.setEpoch(k, site)
	}
	for b := range s.heap {
		if b == a || !keysMeet(heapKey(b), k) || !s.mayAlias(a, b) {
			continue
		}
		rb := rootOf(b)
		if isFresh(rb) {
			s.heap[b] = mk("load", "", b.typ, nil, b, site)
			if bt := elemType(b.typ); bt != nil {
				s.heap[b] = mk("load", "", bt, nil, b, site)
			}
		} else {
			delete(s.heap, b)
		}
	}
	if !private {
		// default-zero content of escaped objects is lost for this key; they
		// are rare, so all of it is forgotten.
		for o := range s.escaped {
			if isFresh(o) && o != r && !isFresh(r) && s.dirty[o] == nil && objMayHold(o, a) {
				s.dirty[o] = site
			}
		}
	}
	if private && (a.op == "melem" || a.op == "has" || a.op == "idx") && !a.args[1].isConst() {
		if d := s.dirty[r]; d == nil || d.op != "decoded" {
			s.dirty[r] = site
		}
	}
	s.heap[a] = v
	if !private {
		s.escape(v)
	}
	// element writes into byte slices change the content
	if a.op == "idx" && !strings.HasPrefix(k, "cell") {
		c := mkCell("bytes", contentRoot(a.args[0]), types.Typ[types.String])
		if old, ok := s.heap[c]; ok || isByteElem(a) {
			prev := old
			if prev == nil {
				if smallArray(a.args[0]) && a.args[1].isConst() {
					// the places of a small array are told apart
					return
				}
				prev = s.placesOf(a.args[0])
			}
			s.heap[c] = starOf(types.Typ[types.String], prev, v)
		}
	}
}

// smallArray recognises an array of known, small size such as the one behind
// the arguments of a variadic call.
func smallArray(o *Term) bool {
	if o.op != "alloc" || !isPtr(o.typ) {
		return false
	}
	n, ok := arrayLen(o)
	return ok && n <= 64
}

// placesOf summarises what was written into the places of an array.
func (s *State) placesOf(o *Term) *Term {
	r := mk("star", "", types.Typ[types.String], nil)
	if !smallArray(o) {
		return r
	}
	n, _ := arrayLen(o)
	el := elemType(o.typ).Underlying().(*types.Array).Elem()
	for i := int64(0); i < n; i++ {
		if v := s.heap[mkIdx(o, cint(i), el)]; v != nil {
			r = starOf(types.Typ[types.String], r, v)
		}
	}
	return r
}

func isByteElem(a *Term) bool {
	t := elemType(a.typ)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune)
}

func isByteArray(o *Term) bool {
	a, ok := elemType(o.typ).Underlying().(*types.Array)
	if !ok {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune)
}

func objMayHold(o, a *Term) bool {
	// o's pointed-to type versus the struct type of address a
	t := elemType(o.typ)
	if t == nil {
		return true
	}
	if a.op == "fld" {
		k := heapKey(a)
		return strings.HasPrefix(k, types.TypeString(t, nil)+".")
	}
	return false
}

// escape marks everything reachable from v as visible to others.
func (s *State) escape(v *Term) {
	if v == nil || v.isConst() {
		return
	}
	v.walk(func(t *Term) bool {
		if isFresh(t) && !s.escaped[t] {
			s.escaped[t] = true
			for a, x := range s.heap {
				if rootOf(a) == t {
					s.escape(x)
				}
			}
		}
		switch t.op {
		case "call", "eq", "lt", "len", "conv", "bytes", "str", "concat":
			return false
		}
		return true
	})
}

// contentRoot is the object that holds the bytes of a slice.
func contentRoot(t *Term) *Term {
	for t.op == "slice" && (t.args[1] == nil || t.args[1] == tZero) && t.args[2] == nil {
		t = t.args[0]
	}
	return t
}

// bytesVal is the value of the content of a byte slice (or string).
func (s *State) bytesVal(t *Term) *Term {
	if t == nil || t.isConst() {
		return t
	}
	if t.op == "slice" {
		r := contentRoot(t)
		if r.op != "slice" {
			return s.bytesVal(r)
		}
		base := s.bytesVal(r.args[0])
		if r.args[1] == nil || r.args[1] == tZero {
			// the part that a decoder reported as written
			if n := r.args[2]; n != nil && n.op == "ext" && base.op == "call" && n.args[0] == base {
				return mk("ext", "0", types.NewSlice(types.Typ[types.Byte]), nil, base)
			}
		}
		return mk("sub", "", t.typ, nil, base, r.args[1], r.args[2])
	}
	if v, ok := s.heap[mkCell("bytes", t, types.Typ[types.String])]; ok {
		return v
	}
	if t.op == "alloc" {
		if v, ok := s.heap[t]; ok {
			return v
		}
		if smallArray(t) && isByteArray(t) {
			if p := s.placesOf(t); len(p.args) > 0 {
				return p
			}
		}
	}
	if t.op == "append" {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = s.bytesVal(a)
		}
		return rebuild(t, args)
	}
	if t.op == "appends" {
		return tConcat(s.bytesVal(t.args[0]), s.bytesVal(t.args[1]))
	}
	return t
}

// ---- facts

func (s *State) lookupFact(t *Term) (bool, bool) {
	if t.op == "not" {
		v, ok := s.facts[t.args[0]]
		return !v, ok
	}
	v, ok := s.facts[t]
	return v, ok
}

// learn records that t holds (or not). It reports false if that contradicts
// what is known.
func (s *State) learn(t *Term, val bool) bool {
	if t.op == "not" {
		return s.learn(t.args[0], !val)
	}
	if k, ok := s.decide(t); ok {
		if k != val {
			return false
		}
	}
	s.facts[t] = val
	if !val && t.op == "load" {
		if v := valueOf[t]; v != nil {
			s.facts[tEq(v, tNil)] = true
			s.eqc[v] = tNil
		}
	}
	if t.op == "eq" && val {
		a, b := t.args[0], t.args[1]
		if b.isConst() {
			s.eqc[a] = b
		}
	}
	if t.op == "eq" && val && t.args[1] == tEmpty {
		return true
	}
	return true
}

func (s *State) constOf(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if c := s.eqc[t]; c != nil {
		return c
	}
	if t.op == "len" {
		if c := s.constOf(t.args[0]); c != nil && c != t.args[0] {
			if l := tLen(c); l.isConst() {
				return l
			}
		}
	}
	return nil
}

// decide evaluates a boolean term under the facts.
func (s *State) decide(t *Term) (bool, bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	if t.op == "not" {
		v, ok := s.decide(t.args[0])
		return !v, ok
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case "eq":
		a, b := t.args[0], t.args[1]
		if b == tNil || a == tNil {
			x := a
			if a == tNil {
				x = b
			}
			if s.nonNil(x) {
				return false, true
			}
		}
		ca, cb := s.constOf(a), s.constOf(b)
		if ca != nil && cb != nil {
			return ca == cb, true
		}
		if ca != nil && a != ca {
			if v, ok := s.facts[tEq(ca, b)]; ok {
				return v, true
			}
		}
		if cb != nil && b != cb {
			if v, ok := s.facts[tEq(a, cb)]; ok {
				return v, true
			}
		}
		if ra, rb := s.rep(a), s.rep(b); ra == rb {
			return true, true
		}
		if b == tEmpty || a == tEmpty {
			x := a
			if a == tEmpty {
				x = b
			}
			if s.minLen(x) > 0 {
				return false, true
			}
		}
		if c, ok := b.intVal(); ok {
			lo, hi, lok, hok := s.bounds(a)
			if lok && c < lo || hok && c > hi {
				return false, true
			}
			if lok && hok && lo == hi && lo == c {
				return true, true
			}
		}
	case "lt":
		a, b := t.args[0], t.args[1]
		if ca := s.constOf(a); ca != nil {
			if cb := s.constOf(b); cb != nil {
				if r := tLt(ca, cb); r == tTrue || r == tFalse {
					return r == tTrue, true
				}
			}
		}
		if c, ok := b.intVal(); ok {
			lo, hi, lok, hok := s.bounds(a)
			if hok && hi < c {
				return true, true
			}
			if lok && lo >= c {
				return false, true
			}
		}
	case "assertok":
		if x := t.args[0]; x.op == "iface" {
			return assertHolds(x, t.aux.(types.Type)), true
		}
		if t.args[0] == tNil {
			return false, true
		}
		if v, ok := s.decide(tEq(t.args[0], tNil)); ok && v {
			return false, true
		}
		// asserting a value to an interface that its static type has
		if it, ok := t.aux.(types.Type).Underlying().(*types.Interface); ok && t.args[0].typ != nil {
			if types.Implements(t.args[0].typ, it) || types.AssignableTo(t.args[0].typ, t.aux.(types.Type)) {
				if s.nonNil(t.args[0]) {
					return true, true
				}
			}
		}
	}
	return false, false
}

func assertHolds(x *Term, to types.Type) bool {
	dyn := x.aux.(types.Type)
	if it, ok := to.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, to)
}

// rep is the representative of t among the terms known to be equal to it.
func (s *State) rep(t *Term) *Term {
	if t.isConst() {
		return t
	}
	best := t
	seen := map[*Term]bool{t: true}
	work := []*Term{t}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for f, v := range s.facts {
			if !v || f.op != "eq" {
				continue
			}
			var y *Term
			if f.args[0] == x {
				y = f.args[1]
			} else if f.args[1] == x {
				y = f.args[0]
			} else {
				continue
			}
			if seen[y] {
				continue
			}
			seen[y] = true
			if y.isConst() || (!best.isConst() && y.id < best.id) {
				best = y
			}
			work = append(work, y)
		}
	}
	return best
}

// eqClass lists the terms known to be equal to t, itself included.
func (s *State) eqClass(t *Term) []*Term {
	seen := map[*Term]bool{t: true}
	work := []*Term{t}
	out := []*Term{t}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x.isConst() {
			continue
		}
		for f, v := range s.facts {
			if !v || f.op != "eq" {
				continue
			}
			var y *Term
			if f.args[0] == x {
				y = f.args[1]
			} else if f.args[1] == x {
				y = f.args[0]
			} else {
				continue
			}
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
				work = append(work, y)
			}
		}
	}
	return out
}

// bounds gives known integer bounds of a term.
func (s *State) bounds(t *Term) (lo, hi int64, lok, hok bool) {
	if c := s.constOf(t); c != nil {
		if v, ok := c.intVal(); ok {
			return v, v, true, true
		}
	}
	if t.op == "len" {
		lo, lok = s.minLen(t.args[0]), true
	}
	if isUnsigned(t.typ) && !lok {
		lo, lok = 0, true
	}
	if t.op == "lv" && t.aux != nil {
		if st, ok := t.aux.(lvInfo); ok && st.hasLo {
			lo, lok = st.lo, true
		}
	}
	if t.op == "lv" && len(t.args) > 1 {
		if _, h, _, b := s.bounds(t.args[1]); b {
			hi, hok = h, true
		}
	}
	if t.op == "bin%" {
		if k, ok := t.args[1].intVal(); ok && k > 0 && s.notNegative(t.args[0]) {
			lo, lok, hi, hok = 0, true, k-1, true
		}
	}
	if t.op == "bin+" {
		if k, ok := t.args[1].intVal(); ok {
			l, h, a, b := s.bounds(t.args[0])
			if a && (!lok || l+k > lo) {
				lo, lok = l+k, true
			}
			if b {
				hi, hok = h+k, true
			}
			// a small number may wrap around
			if bits, signed, ok := sizeOf(t.typ); ok && (bits < 64 || !signed) {
				max := int64(1) << 62
				min := -max
				if bits < 64 {
					max, min = int64(1)<<(bits-1)-1, -(int64(1) << (bits - 1))
					if !signed {
						max = max*2 + 1
					}
				}
				if !signed {
					min = 0
				}
				if !a || !b || l+k < min || h+k > max {
					hok, lok = false, false
					if !signed {
						lo, lok = 0, true
					}
				}
			}
		}
	}
	if t.op == "call" || t.op == "ext" {
		if l, h, a, b := callBounds(s, t); a || b {
			lo, hi, lok, hok = l, h, a, b
		}
	}
	if t.op == "bin&" {
		for _, x := range t.args {
			if k, ok := x.intVal(); ok && k >= 0 {
				lo, lok, hi, hok = 0, true, k, true
			}
		}
	}
	if t.op == "at" && isUnsigned(t.typ) {
		if bits, _, ok := sizeOf(t.typ); ok && bits == 8 && !hok {
			hi, hok = 255, true
		}
	}
	if t.op == "conv" {
		l, h, a, b := s.bounds(t.args[0])
		if isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) && a && l >= 0 {
			lo, lok = l, true
			hi, hok = h, b
		}
	}
	for f, v := range s.facts {
		switch f.op {
		case "lt":
			if f.args[0] == t {
				if c, ok := f.args[1].intVal(); ok {
					if v && (!hok || c-1 < hi) {
						hi, hok = c-1, true
					}
					if !v && (!lok || c > lo) {
						lo, lok = c, true
					}
				}
			}
		}
	}
	// x != bound shrinks
	for i := 0; i < 4; i++ {
		if lok {
			if v, ok := s.facts[tEq(t, cval(constant.MakeInt64(lo), t.typ))]; ok && !v {
				lo++
				continue
			}
		}
		break
	}
	return
}

func (s *State) minLen(x *Term) int64 {
	if c := s.constOf(x); c != nil {
		if n, ok := tLen(c).intVal(); ok {
			return n
		}
	}
	if n, ok := tLen(x).intVal(); ok {
		return n
	}
	best := int64(0)
	if v, ok := s.facts[tEq(x, tEmpty)]; ok && !v && isStringTerm(x) {
		best = 1
	}
	l := tLen(x)
	if c := s.eqc[l]; c != nil {
		if n, ok := c.intVal(); ok {
			return n
		}
	}
	for f, v := range s.facts {
		if f.op == "lt" && f.args[0] == l && !v {
			if c, ok := f.args[1].intVal(); ok && c > best {
				best = c
			}
		}
		if f.op == "eq" && f.args[0] == l && !v && f.args[1] == tZero && best < 1 {
			best = 1
		}
	}
	switch x.op {
	case "bytes", "str":
		if m := s.minLen(x.args[0]); m > best {
			best = m
		}
	case "append":
		if m := s.minLen(x.args[0]) + int64(len(x.args)-1); m > best {
			best = m
		}
	case "concat":
		sum := int64(0)
		for _, a := range x.args {
			sum += s.minLen(a)
		}
		if sum > best {
			best = sum
		}
	case "slice":
		if x.args[1] != nil && x.args[2] == nil {
			if _, k, _, ok := s.bounds(x.args[1]); ok {
				if m := s.minLen(x.args[0]) - k; m > best {
					best = m
				}
			}
		}
	case "call", "hsum":
		if m := callMinLen(s, x); m > best {
			best = m
		}
	case "ext":
		if m := callMinLen(s, x); m > best {
			best = m
		}
	}
	// a trimmed string is not longer than the original: the original has at
	// least the length known of the trimmed one
	for f, v := range s.facts {
		if f.op == "eq" && !v && f.args[1] == tEmpty && f.args[0].op == "call" && strings.HasPrefix(f.args[0].s, "strings.TrimSpace") && f.args[0].args[0] == x && best < 1 {
			best = 1
		}
		if f.op == "call" && v && len(f.args) >= 2 && f.args[0] == x {
			switch f.s {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
				if n, ok := tLen(f.args[1]).intVal(); ok && n > best {
					best = n
				}
			}
		}
	}
	return best
}

func isStringTerm(t *Term) bool { return t.typ == nil || isString(t.typ) }

func (s *State) nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "mkmap", "mkslice", "iface", "func", "closure", "fld", "idx", "global", "bytes":
		return true
	case "slice":
		return isFresh(t.args[0]) || s.nonNil(t.args[0])
	case "append":
		return len(t.args) > 1 || s.nonNil(t.args[0])
	case "call":
		if nonNilCall(t.s) {
			return true
		}
	case "ext":
		// (value, error): the value of an external function is set when its
		// error is nil
		if c := t.args[0]; c.op == "call" && t.s != "n" && isPtrLike(t.typ) && returnsErr(c) > 0 && fmt.Sprint(returnsErr(c)) != t.s {
			e := mk("ext", fmt.Sprint(returnsErr(c)), nil, nil, c)
			if v, ok := s.facts[tEq(e, tNil)]; ok && v {
				return true
			}
		}
	}
	if v, ok := s.facts[tEq(t, tNil)]; ok && !v {
		return true
	}
	if v, ok := s.facts[mk("nonnil", "", nil, nil, t)]; ok && v {
		return true
	}
	return false
}

type lvInfo struct {
	hasLo bool
	lo    int64
}

func isPtrLike(t types.Type) bool { return t != nil && (isPtr(t) || isIface(t)) }

// returnsErr is the index of the error result of an external call, if it is the
// last of several.
func returnsErr(c *Term) int {
	tp, ok := c.typ.(*types.Tuple)
	if !ok || tp.Len() < 2 {
		return 0
	}
	if types.TypeString(tp.At(tp.Len()-1).Type(), nil) != "error" {
		return 0
	}
	return tp.Len() - 1
}
