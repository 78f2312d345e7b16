package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

// val is the term of an SSA value in a state.
func (m *Machine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return cval(x.Value, x.Type())
	case *ssa.Global:
		n := x.Name()
		if x.Pkg != nil {
			n = x.Pkg.Pkg.Path() + "." + n
		}
		return mk("global", n, x.Type(), x)
	case *ssa.Function:
		return mk("func", x.String(), x.Type(), x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil, x)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	if in, ok := v.(ssa.Instruction); ok {
		m.undecide("value %s of %s is not known at its use", v.Name(), in.Parent())
		return mk("unknown", fmt.Sprint(m.p.instrID(in)), v.Type(), nil)
	}
	return mk("unknown", v.Name(), v.Type(), nil)
}

func (m *Machine) lenOf(st *State, x *Term) *Term {
	if x.op == "slice" || x.op == "bytes" || x.op == "append" || x.op == "appends" {
		if l := tLen(x); l.isConst() {
			return l
		}
		if x.op == "slice" {
			return tLen(x)
		}
	}
	if x.op == "mkmap" || x.typ != nil && isMap(x.typ) && isFresh(rootOf(x)) {
		n := 0
		for a := range st.heap {
			if a.op == "has" && a.args[0] == x {
				n++
			}
		}
		if n == 0 && st.dirty[x] == nil {
			return tZero
		}
		return mk("len", "map", types.Typ[types.Int], nil, x, mk("ep2", "", nil, nil, st.dirty[x], cint(int64(n))))
	}
	return tLen(x)
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// deref notes that a pointer is dereferenced; it reports false when the
// pointer is nil on this path.
func (m *Machine) deref(st *State, p *Term, instr ssa.Instruction) bool {
	if st.nonNil(p) {
		return true
	}
	if v, ok := st.decide(tEq(p, tNil)); ok && v {
		if m.h.Panic != nil {
			m.h.Panic(m, st, instr, "nil dereference", p)
		}
		return false
	}
	if m.h.Panic != nil {
		m.h.Panic(m, st, instr, "nil dereference", p)
	}
	st.facts[mk("nonnil", "", nil, nil, p)] = true
	return true
}

func structOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// step interprets one instruction.
func (m *Machine) step(st *State, instr ssa.Instruction) (res []*State, panics []*State) {
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return one(st), nil
	case *ssa.Alloc:
		t := mk("alloc", fmt.Sprint(m.p.instrID(x)), x.Type(), x, m.ctx)
		for a := range st.heap {
			if rootOf(a) == t {
				delete(st.heap, a)
			}
		}
		delete(st.dirty, t)
		delete(st.escaped, t)
		st.env[x] = t
	case *ssa.MakeMap:
		t := mk("mkmap", fmt.Sprint(m.p.instrID(x)), x.Type(), x, m.ctx)
		for a := range st.heap {
			if rootOf(a) == t {
				delete(st.heap, a)
			}
		}
		delete(st.dirty, t)
		st.env[x] = t
	case *ssa.MakeSlice:
		if n := m.val(st, x.Len); m.h.Panic != nil && !st.notNegative(n) {
			m.h.Panic(m, st, x, "make", n)
		}
		t := mk("mkslice", fmt.Sprint(m.p.instrID(x)), x.Type(), x, m.val(st, x.Len), m.ctx)
		for a := range st.heap {
			if rootOf(a) == t {
				delete(st.heap, a)
			}
		}
		delete(st.dirty, t)
		st.env[x] = t
	case *ssa.MakeChan:
		st.env[x] = mk("call", "makechan", x.Type(), x, m.site(x))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, m.val(st, v))
		}
		st.env[x] = mk("closure", x.Fn.String(), x.Type(), x.Fn, b...)
	case *ssa.MakeInterface:
		st.env[x] = mkIface(m.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		st.env[x] = m.val(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = m.val(st, x.X)
	case *ssa.Convert:
		st.env[x] = m.convert(st, m.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		st.env[x] = m.convert(st, m.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		st.env[x] = m.val(st, x.X)
	case *ssa.BinOp:
		if u, ok := flattened(x.X.Type()); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			return m.eqStruct(st, x, u), nil
		}
		if m.h.Panic != nil {
			m.checkArith(st, x)
		}
		st.env[x] = m.binop(st, x)
	case *ssa.UnOp:
		v := m.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if !m.deref(st, v, x) {
				return nil, one(st)
			}
			r := st.read(v, x.Type())
			st.env[x] = r
			if m.h.Load != nil {
				m.h.Load(m, st, v, r, x)
			}
		case token.NOT:
			st.env[x] = tNot(v)
		case token.SUB:
			if c, ok := v.intVal(); ok {
				st.env[x] = cval(constant.MakeInt64(-c), x.Type())
			} else {
				st.env[x] = mk("neg", "", x.Type(), nil, v)
				if v.op == "bin*" {
					if _, ok := v.args[1].intVal(); ok {
						st.env[x] = arith(token.MUL, v, cint(-1), x.Type())
					}
				}
			}
		case token.ARROW:
			c := mk("call", "recv", x.Type(), nil, v, m.site(x))
			if x.CommaOk {
				st.env[x] = mk("tuple", "", x.Type(), nil, mk("ext", "0", nil, nil, c), mk("ext", "1", types.Typ[types.Bool], nil, c))
			} else {
				st.env[x] = c
			}
		default:
			st.env[x] = mk("un"+x.Op.String(), "", x.Type(), nil, v)
		}
	case *ssa.FieldAddr:
		b := m.val(st, x.X)
		if !m.deref(st, b, x) {
			return nil, one(st)
		}
		st.env[x] = mkFld(b, structOf(x.X.Type()), x.Field)
	case *ssa.Field:
		st.env[x] = fieldOf(m.val(st, x.X), x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		b := m.val(st, x.X)
		i := m.val(st, x.Index)
		if c := st.constOf(i); c != nil {
			i = c
		}
		if isPtr(x.X.Type()) && !m.deref(st, b, x) {
			return nil, one(st)
		}
		m.checkIndex(st, b, i, x)
		st.env[x] = mkIdx(b, i, x.Type().(*types.Pointer).Elem())
	case *ssa.Index:
		b := m.val(st, x.X)
		i := m.val(st, x.Index)
		m.checkIndex(st, b, i, x)
		if b.op == "arr" {
			if k, ok := i.intVal(); ok && int(k) < len(b.args) {
				st.env[x] = b.args[k]
				break
			}
		}
		if s, ok := b.strVal(); ok {
			if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(s) {
				st.env[x] = cval(constant.MakeInt64(int64(s[k])), x.Type())
				break
			}
		}
		st.env[x] = mk("at", "", x.Type(), nil, b, i)
	case *ssa.Lookup:
		if !isMap(x.X.Type()) {
			b, i := m.val(st, x.X), m.val(st, x.Index)
			m.checkIndex(st, b, i, x)
			st.env[x] = mk("at", "", x.Type(), nil, b, i)
			break
		}
		mp, k := m.val(st, x.X), m.val(st, x.Index)
		if c := st.constOf(k); c != nil {
			k = c
		}
		el := x.X.Type().Underlying().(*types.Map).Elem()
		if l := st.tableOf(mp, k); len(l) > 0 {
			return m.lookupTable(st, x, mp, k, l, el), nil
		}
		has, v := m.mapRead(st, mp, k, el)
		if m.h.MapRead != nil {
			m.h.MapRead(m, st, mp, k, v, x)
		}
		if x.CommaOk {
			st.env[x] = mk("tuple", "", x.Type(), nil, v, has)
		} else {
			st.env[x] = v
		}
	case *ssa.MapUpdate:
		mp, k, v := m.val(st, x.Map), m.val(st, x.Key), m.val(st, x.Value)
		if c := st.constOf(k); c != nil {
			k = c
		}
		if !st.nonNil(mp) && m.h.Panic != nil {
			m.h.Panic(m, st, x, "write to a nil map", mp)
		}
		if m.h.MapWrite != nil {
			m.h.MapWrite(m, st, mp, k, v, x)
		}
		m.mapWrite(st, mp, k, v, x.Map.Type().Underlying().(*types.Map).Elem(), m.site(x))
	case *ssa.Store:
		a, v := m.val(st, x.Addr), m.val(st, x.Val)
		if !m.deref(st, a, x) {
			return nil, one(st)
		}
		if m.h.Store != nil {
			m.h.Store(m, st, a, v, x)
		}
		st.write(a, v, x.Val.Type(), m.site(x))
	case *ssa.Slice:
		m.slice(st, x)
	case *ssa.TypeAssert:
		v := m.val(st, x.X)
		ok := mk("assertok", types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], x.AssertedType, v)
		var r *Term
		if v.op == "iface" && assertHolds(v, x.AssertedType) {
			r = v
			if !isIface(x.AssertedType) {
				r = v.args[0]
			}
		} else if isIface(x.AssertedType) {
			r = v
		} else {
			r = mk("assert", types.TypeString(x.AssertedType, nil), x.AssertedType, nil, v)
		}
		d, known := st.decide(ok)
		if known {
			ok = cbool(d)
		}
		if x.CommaOk {
			if known && !d {
				r = zeroOf(x.AssertedType)
			}
			st.env[x] = mk("tuple", "", x.Type(), nil, r, ok)
		} else {
			if !known || !d {
				if m.h.Panic != nil {
					m.h.Panic(m, st, x, "type assertion", v)
				}
				if known && !d {
					return nil, one(st)
				}
				st.learn(ok, true)
			}
			st.env[x] = r
		}
	case *ssa.Extract:
		t := m.val(st, x.Tuple)
		if t.op == "tuple" {
			st.env[x] = t.args[x.Index]
		} else {
			st.env[x] = mk("ext", fmt.Sprint(x.Index), x.Type(), nil, t)
		}
	case *ssa.Range:
		st.env[x] = mk("iter", fmt.Sprint(m.p.instrID(x)), nil, nil, m.val(st, x.X), m.ctx)
	case *ssa.Next:
		it := m.val(st, x.Iter)
		ok := mk("next", fmt.Sprint(m.p.instrID(x)), types.Typ[types.Bool], nil, it, m.ctx)
		tup := x.Type().(*types.Tuple)
		k := mk("key", fmt.Sprint(m.p.instrID(x)), tup.At(1).Type(), nil, it, m.ctx)
		if n := len(m.loops); n > 0 && m.loops[n-1].keys != nil && m.loops[n-1].head == x.Block() {
			// one known entry
			l := m.loops[n-1]
			ok = cbool(l.iterN < len(l.keys))
			if l.iterN < len(l.keys) {
				k = l.keys[l.iterN]
			}
		}
		var v *Term
		if x.IsString {
			v = mk("rune", "", tup.At(2).Type(), nil, it.args[0], k)
		} else {
			el := it.args[0].typ
			if el != nil && isMap(el) {
				_, v = m.mapRead(st, it.args[0], k, el.Underlying().(*types.Map).Elem())
				if m.h.MapRead != nil {
					m.h.MapRead(m, st, it.args[0], k, v, x)
				}
			} else {
				v = mk("mval", "", tup.At(2).Type(), nil, it, k)
			}
		}
		st.env[x] = mk("tuple", "", x.Type(), nil, ok, k, v)
	case *ssa.Call:
		return m.call(st, x, x.Common(), x)
	case *ssa.Defer:
		d := &deferred{instr: x, ctx: m.ctx}
		d.callee, d.args = m.callee(st, x.Common())
		st.defers = append(append([]*deferred(nil), st.defers...), d)
	case *ssa.RunDefers:
		return m.runDefersOf(st)
	case *ssa.Go:
		if m.h.Go != nil {
			m.h.Go(m, st, x)
		}
		_, args := m.callee(st, x.Common())
		for _, a := range args {
			st.escape(a)
		}
	case *ssa.Send, *ssa.Select:
		if v, ok := instr.(ssa.Value); ok {
			st.env[v] = mk("call", "select", v.Type(), nil, m.site(instr))
		}
	default:
		m.undecide("instruction %T in %s is not modelled", instr, instr.Parent())
		if v, ok := instr.(ssa.Value); ok {
			st.env[v] = mk("unknown", fmt.Sprint(m.p.instrID(instr)), v.Type(), nil, m.ctx)
		}
	}
	return one(st), nil
}

func mkIface(v *Term, dyn, typ types.Type) *Term {
	return mk("iface", types.TypeString(dyn, nil), typ, dyn, v)
}

// valueOf relates the presence of a map entry to the value that reading it
// yields: an entry that is not there reads as nil.
var valueOf = map[*Term]*Term{}

// mapRead gives the (present, value) of a map entry.
func (m *Machine) mapRead(st *State, mp, k *Term, el types.Type) (has, v *Term) {
	if mp == tNil {
		return tFalse, zeroOf(el)
	}
	// keys known to be equal
	if _, ok := st.heap[mkHas(mp, k)]; !ok {
		for _, e := range st.eqClass(k) {
			if _, ok := st.heap[mkHas(mp, e)]; ok {
				k = e
				break
			}
		}
	}
	has = st.read(mkHas(mp, k), types.Typ[types.Bool])
	if h, ok := st.decide(has); ok && !h {
		return tFalse, zeroOf(el)
	}
	v = st.read(mkMelem(mp, k, el), el)
	if has.op == "load" && v.op == "load" && isPtrLike(el) {
		valueOf[has] = v
	}
	return has, v
}

// tableOf lists the keys of a small map that the program fills with constant
// keys, when it is asked for a key that is not known (or for none).
func (s *State) tableOf(mp, k *Term) []*Term {
	if k != nil && k.isConst() || !isFresh(mp) || s.dirty[mp] != nil || s.escaped[mp] {
		return nil
	}
	var l []*Term
	for a, v := range s.heap {
		if a.op != "has" || a.args[0] != mp {
			continue
		}
		if v == tFalse {
			continue
		}
		if v != tTrue || !a.args[1].isConst() || len(l) >= 12 {
			return nil
		}
		l = append(l, a.args[1])
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// lookupTable looks an unknown key up in a table, entry by entry.
func (m *Machine) lookupTable(st *State, x *ssa.Lookup, mp, k *Term, keys []*Term, el types.Type) []*State {
	var out []*State
	put := func(s *State, has, v *Term) {
		if m.h.MapRead != nil {
			m.h.MapRead(m, s, mp, k, v, x)
		}
		if x.CommaOk {
			s.env[x] = mk("tuple", "", x.Type(), nil, v, has)
		} else {
			s.env[x] = v
		}
		out = append(out, s)
	}
	for _, key := range keys {
		s := st.clone()
		if !s.learn(tEq(k, key), true) {
			continue
		}
		put(s, tTrue, s.read(mkMelem(mp, key, el), el))
	}
	s := st.clone()
	for _, key := range keys {
		if !s.learn(tEq(k, key), false) {
			return out
		}
	}
	put(s, tFalse, zeroOf(el))
	return out
}

func (m *Machine) mapWrite(st *State, mp, k, v *Term, el types.Type, site *Term) {
	if v == nil {
		st.write(mkHas(mp, k), tFalse, types.Typ[types.Bool], site)
		st.write(mkMelem(mp, k, el), zeroOf(el), el, site)
		return
	}
	st.write(mkHas(mp, k), tTrue, types.Typ[types.Bool], site)
	st.write(mkMelem(mp, k, el), v, el, site)
}

// inRange decides 0 <= i < len(b).
func (m *Machine) inRange(st *State, b, i *Term) bool {
	if n, ok := arrayLen(b); ok && (isPtr(b.typ) || b.op == "arr" || isArray(b.typ)) {
		if k, ok := i.intVal(); ok {
			return k >= 0 && k < n
		}
		lo, hi, a, c := st.bounds(i)
		return a && c && lo >= 0 && hi < n
	}
	lo, hi, lok, hok := st.bounds(i)
	if !lok || lo < 0 {
		return false
	}
	if hok && hi < st.minLen(b) {
		return true
	}
	return st.ltLen(i, b)
}

func isArray(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// ltLen decides i < len(b).
func (s *State) ltLen(i, b *Term) bool {
	l := tLen(b)
	if v, ok := s.decide(tLt(i, l)); ok && v {
		return true
	}
	if v, ok := s.facts[tLt(l, i)]; ok && !v { // i <= len
		if e, ok := s.facts[tEq(i, l)]; ok && !e {
			return true
		}
	}
	// i = len(b)-k with k>0
	if i.op == "bin+" && i.args[0] == l {
		if k, ok := i.args[1].intVal(); ok && k < 0 {
			return true
		}
	}
	// a variable that is counted down from less than len(b)
	n, by := addConst(l)
	if x, k := addConst(i); x != nil && x.op == "lv" && len(x.args) > 1 && k <= 0 {
		if top, d := addConst(x.args[1]); top == n && d+k < by || k == 0 && top != x && s.ltLen(x.args[1], b) {
			return true
		}
	}
	// the result of a search in b
	if i.op == "call" && isSearch(i.s) && len(i.args) > 0 {
		for _, e := range s.eqClass(b) {
			if sameContent(s, i.args[0], e) {
				return true
			}
		}
	}
	// index of an element of a scan over a slice of the same length
	for f, v := range s.facts {
		if v && f.op == "lt" && f.args[0] == i {
			if s.rep(f.args[1]) == s.rep(l) {
				return true
			}
		}
	}
	return false
}

func sameContent(s *State, a, b *Term) bool {
	return a == b || s.bytesVal(a) == s.bytesVal(b) || a.op == "bytes" && a.args[0] == b || b.op == "bytes" && b.args[0] == a
}

func isSearch(n string) bool {
	switch n {
	case "strings.Index", "strings.IndexAny", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.IndexFunc",
		"bytes.Index", "bytes.IndexAny", "bytes.IndexByte", "bytes.IndexRune", "bytes.LastIndex", "bytes.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny":
		return true
	}
	return false
}

// notNegative decides 0 <= n.
func (s *State) notNegative(n *Term) bool {
	if lo, _, ok, _ := s.bounds(n); ok && lo >= 0 || n.op == "len" || n.op == "cap" {
		return true
	}
	if n.op == "call" && strings.HasSuffix(n.s, "Encoding).DecodedLen") || n.op == "call" && strings.HasSuffix(n.s, "Encoding).EncodedLen") {
		return true
	}
	if b, ok := typeBasic(n.typ); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	if n.op == "bin+" || n.op == "bin*" {
		for _, a := range n.args {
			if !s.notNegative(a) {
				return false
			}
		}
		return true
	}
	return false
}

func typeBasic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// checkArith watches integer divisions by what may be zero and shifts by what
// may be negative.
func (m *Machine) checkArith(st *State, x *ssa.BinOp) {
	b, ok := typeBasic(x.X.Type())
	if !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	y := m.val(st, x.Y)
	switch x.Op {
	case token.QUO, token.REM:
		if k, ok := y.intVal(); ok && k != 0 || st.fails(tEq(y, tZero)) {
			return
		}
		if lo, hi, a, c := st.bounds(y); a && lo > 0 || c && hi < 0 {
			return
		}
		m.h.Panic(m, st, x, "division", y)
	case token.SHL, token.SHR:
		if k, ok := y.intVal(); ok && k >= 0 || st.notNegative(y) {
			return
		}
		m.h.Panic(m, st, x, "shift", y)
	}
}

func (m *Machine) checkIndex(st *State, b, i *Term, instr ssa.Instruction) {
	if m.h.Panic == nil {
		return
	}
	if m.inRange(st, b, i) {
		return
	}
	m.h.Panic(m, st, instr, "index", mk("idx", "", nil, nil, b, i))
}

func (m *Machine) slice(st *State, x *ssa.Slice) {
	b := m.val(st, x.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t := m.val(st, v)
		if c := st.constOf(t); c != nil {
			return c
		}
		return t
	}
	lo, hi := get(x.Low), get(x.High)
	ptr := isPtr(x.X.Type())
	if lo == tZero || lo != nil && lo.op == "const" && lo.s == "n:0" {
		lo = nil
	}
	if n, ok := arrayLen(b); ok && ptr && hi != nil {
		if k, ok := hi.intVal(); ok && k == n {
			hi = nil
		}
	}
	if !ptr && hi != nil && hi == tLen(b) {
		hi = nil
	}
	if m.h.Panic != nil && !m.sliceOK(st, b, lo, hi, ptr) {
		m.h.Panic(m, st, x, "slice", mk("slice", "", nil, nil, b, lo, hi))
	}
	if !ptr && lo == nil && hi == nil {
		st.env[x] = b
		return
	}
	if s, ok := b.strVal(); ok {
		l, h := int64(0), int64(len(s))
		ok1, ok2 := true, true
		if lo != nil {
			l, ok1 = lo.intVal()
		}
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			st.env[x] = cstr(s[l:h])
			return
		}
	}
	st.env[x] = mk("slice", "", x.Type(), nil, b, lo, hi)
}

// leLen decides h <= len(b).
func (s *State) leLen(h, b *Term) bool {
	l := tLen(b)
	if s.rep(h) == s.rep(l) || h == l {
		return true
	}
	if _, hi, _, ok := s.bounds(h); ok && hi <= s.minLen(b) {
		return true
	}
	if s.ltLen(h, b) {
		return true
	}
	// x+k <= len
	if h.op == "bin+" && isInteger(h.typ) && !isUnsigned(h.typ) {
		if k, ok := h.args[1].intVal(); ok && k >= 1 {
			x := h.args[0]
			if k == 1 && s.ltLen(x, b) || k > 1 && s.ltLen(arith(token.ADD, x, cval(constant.MakeInt64(k-1), h.typ), h.typ), b) {
				return true
			}
			// what was found in b lies within it
			if x.op == "call" && isSearch(x.s) && len(x.args) > 1 {
				n := int64(1)
				if !strings.HasSuffix(x.s, "Any") && !strings.HasSuffix(x.s, "Func") && !strings.HasSuffix(x.s, "Byte") && !strings.HasSuffix(x.s, "Rune") {
					n = s.minLen(x.args[1])
				}
				if lo, _, ok, _ := s.bounds(x); ok && lo >= 0 && k <= n {
					for _, e := range s.eqClass(b) {
						if sameContent(s, x.args[0], e) {
							return true
						}
					}
				}
			}
		}
	}
	if v, ok := s.facts[tLt(l, h)]; ok && !v {
		return true
	}
	// number of bytes that a decoder reported as written to b
	if h.op == "ext" && h.s == "n" && s.bytesVal(b) == h.args[0] {
		return true
	}
	return false
}

func (m *Machine) sliceOK(st *State, b, lo, hi *Term, ptr bool) bool {
	if ptr {
		n, _ := arrayLen(b)
		l, h := int64(0), n
		if lo != nil {
			_, x, _, ok := st.bounds(lo)
			if !ok {
				return false
			}
			l = x
		}
		if hi != nil {
			x, y, _, ok := st.bounds(hi)
			_ = x
			if !ok {
				return false
			}
			h = y
		}
		return l <= h && h <= n
	}
	if lo != nil {
		x, _, ok, _ := st.bounds(lo)
		if !ok || x < 0 {
			return false
		}
	}
	if hi != nil {
		x, _, ok, _ := st.bounds(hi)
		if (!ok || x < 0) && lo == nil {
			return false
		}
		if !st.leLen(hi, b) {
			return false
		}
		if lo != nil {
			_, y, _, ok1 := st.bounds(lo)
			x, _, ok2, _ := st.bounds(hi)
			if ok1 && ok2 && y <= x {
				return true
			}
			if v, ok := st.decide(tLt(hi, lo)); ok && !v {
				return true
			}
			a, j := addConst(lo)
			b, k := addConst(hi)
			return a == b && j <= k
		}
		return true
	}
	if lo != nil {
		return st.leLen(lo, b)
	}
	return true
}

func sizeOf(t types.Type) (bits int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed, true
	case types.Int16, types.Uint16:
		return 16, signed, true
	case types.Int32, types.Uint32:
		return 32, signed, true
	}
	return 64, signed, true
}

func (m *Machine) convert(st *State, v *Term, from, to types.Type) *Term {
	if isString(to) {
		if isBytes(from) || isRunes(from) {
			c := st.bytesVal(v)
			switch c.op {
			case "bytes":
				return c.args[0]
			case "nil":
				return tEmpty
			case "const", "concat", "star":
				if isString(c.typ) {
					return c
				}
			}
			return mk("str", "", to, nil, c)
		}
		if isInteger(from) {
			if k, ok := v.intVal(); ok {
				return cstr(string(rune(k)))
			}
			return mk("str", "rune", to, nil, v)
		}
		return v
	}
	if isBytes(to) && isString(from) {
		if v.op == "str" && v.s == "" {
			return mk("bytes", "", to, nil, v)
		}
		return mk("bytes", "", to, nil, v)
	}
	if isRunes(to) && isString(from) {
		return mk("bytes", "runes", to, nil, v)
	}
	if isNumeric(from) && isNumeric(to) {
		if v.op == "const" {
			c := v.aux.(constant.Value)
			if isInteger(to) {
				if iv := constant.ToInt(c); iv.Kind() == constant.Int {
					return cval(iv, to)
				}
			} else if !isInteger(to) {
				return cval(c, to)
			}
		}
		fb, fs, ok1 := sizeOf(from)
		tb, ts, ok2 := sizeOf(to)
		if ok1 && ok2 && (fs == ts && tb >= fb || !fs && tb > fb) {
			if tb == fb {
				return v
			}
			// widening keeps the value; the type is kept for bounds
			if lo, hi, a, b := st.bounds(v); a && b && lo >= 0 && hi < 1<<31 {
				_ = lo
			}
			return mk("conv", "w"+types.TypeString(to, nil), to, nil, v)
		}
		return mk("conv", types.TypeString(to, nil), to, nil, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk("conv", types.TypeString(to, nil), to, nil, v)
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Rune || b.Kind() == types.Int32)
}

func (m *Machine) binop(st *State, x *ssa.BinOp) *Term {
	a, b := m.val(st, x.X), m.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := m.eqTerm(st, a, b, x.X.Type(), x.Y.Type())
		if x.Op == token.NEQ {
			r = tNot(r)
		}
		return r
	case token.LSS:
		return tLt(a, b)
	case token.GTR:
		return tLt(b, a)
	case token.LEQ:
		return tNot(tLt(b, a))
	case token.GEQ:
		return tNot(tLt(a, b))
	}
	return arith(x.Op, a, b, x.Type())
}

// eqStruct compares structs field by field.
func (m *Machine) eqStruct(st *State, x *ssa.BinOp, u *types.Struct) []*State {
	a, b := m.val(st, x.X), m.val(st, x.Y)
	res := func(eq bool) *Term {
		if eq == (x.Op == token.EQL) {
			return tTrue
		}
		return tFalse
	}
	var out []*State
	cur := st
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		e := m.eqTerm(cur, fieldOf(a, x.X.Type(), i), fieldOf(b, x.X.Type(), i), ft, ft)
		s := cur.clone()
		if s.learn(e, false) {
			s.env[x] = res(false)
			out = append(out, s)
		}
		if !cur.learn(e, true) {
			return out
		}
	}
	cur.env[x] = res(true)
	return append(out, cur)
}

func (m *Machine) eqTerm(st *State, a, b *Term, ta, tb types.Type) *Term {
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.aux.(types.Type), b.aux.(types.Type)) {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	}
	if a == tNil && st.nonNil(b) || b == tNil && st.nonNil(a) {
		return tFalse
	}
	// empty byte slices compare with nil only; strings of bytes by content
	if a.op == "str" && b.op == "str" {
		return tEq(a, b)
	}
	return tEq(a, b)
}

func arith(op token.Token, a, b *Term, typ types.Type) *Term {
	if op == token.ADD && isString(typ) {
		return tConcat(a, b)
	}
	if a.op == "const" && b.op == "const" {
		va, vb := a.aux.(constant.Value), b.aux.(constant.Value)
		ok := va.Kind() != constant.Bool && vb.Kind() != constant.Bool && va.Kind() != constant.String
		if (op == token.QUO || op == token.REM) && constant.Sign(vb) == 0 {
			ok = false
		}
		if ok {
			var r constant.Value
			switch op {
			case token.SHL, token.SHR:
				if n, k := constant.Uint64Val(constant.ToInt(vb)); k && n < 128 {
					r = constant.Shift(constant.ToInt(va), op, uint(n))
				}
			case token.QUO:
				if isInteger(typ) {
					r = constant.BinaryOp(constant.ToInt(va), token.QUO_ASSIGN, constant.ToInt(vb))
				} else {
					r = constant.BinaryOp(constant.ToFloat(va), token.QUO, constant.ToFloat(vb))
				}
			case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
				if op == token.ADD || op == token.SUB || op == token.MUL || isInteger(typ) {
					r = constant.BinaryOp(va, op, vb)
				}
			}
			if r != nil && r.Kind() != constant.Unknown {
				if bits, signed, k := sizeOf(typ); k && r.Kind() == constant.Int {
					if !fits(r, bits, signed) {
						return mk("bin"+op.String(), "", typ, nil, a, b)
					}
				}
				return cval(r, typ)
			}
		}
	}
	switch op {
	case token.SUB:
		if k, ok := b.intVal(); ok && isInteger(typ) {
			return arith(token.ADD, a, cval(constant.MakeInt64(-k), typ), typ)
		}
		if a == b && isInteger(typ) {
			return cval(constant.MakeInt64(0), typ)
		}
	case token.ADD:
		if a.isConst() {
			a, b = b, a
		}
		if k, ok := b.intVal(); ok && isInteger(typ) {
			if k == 0 {
				return a
			}
			if a.op == "bin+" {
				if j, ok := a.args[1].intVal(); ok {
					return arith(token.ADD, a.args[0], cval(constant.MakeInt64(j+k), typ), typ)
				}
			}
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.isConst() || !b.isConst() && a.id > b.id {
			a, b = b, a
		}
		if k, ok := b.intVal(); ok && op == token.MUL && isInteger(typ) {
			if k == 1 {
				return a
			}
			if a.op == "neg" {
				return arith(op, a.args[0], cval(constant.MakeInt64(-k), typ), typ)
			}
			if a.op == "bin*" && k > -1<<31 && k < 1<<31 {
				if j, ok := a.args[1].intVal(); ok && j > -1<<31 && j < 1<<31 {
					return arith(op, a.args[0], cval(constant.MakeInt64(j*k), typ), typ)
				}
			}
		}
	}
	return mk("bin"+op.String(), "", typ, nil, a, b)
}

func fits(v constant.Value, bits int, signed bool) bool {
	if signed {
		i, ok := constant.Int64Val(v)
		if !ok {
			return false
		}
		if bits == 64 {
			return true
		}
		return i >= -(1<<(bits-1)) && i < 1<<(bits-1)
	}
	u, ok := constant.Uint64Val(v)
	if !ok {
		return false
	}
	return bits == 64 || u < 1<<bits
}

// ---- calls

type calleeT struct {
	fn      *ssa.Function
	free    []*Term
	name    string // external or unresolved
	builtin string
	sig     *types.Signature
	dyn     *Term
	invoke  bool
}

// callee resolves a call in a state.
func (m *Machine) callee(st *State, c *ssa.CallCommon) (*calleeT, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, m.val(st, a))
	}
	ct := &calleeT{sig: c.Signature()}
	if c.IsInvoke() {
		recv := m.val(st, c.Value)
		ct.invoke = true
		if recv.op == "iface" {
			dyn := recv.aux.(types.Type)
			if f := m.p.prog.LookupMethod(dyn, c.Method.Pkg(), c.Method.Name()); f != nil {
				ct.fn = f
				return ct, append([]*Term{recv.args[0]}, args...)
			}
		}
		ct.name = ifaceMethodName(c)
		return ct, append([]*Term{recv}, args...)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ct.builtin = b.Name()
		return ct, args
	}
	if f := c.StaticCallee(); f != nil {
		ct.fn = f
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t := m.val(st, mc)
			ct.free = t.args
		}
		return ct, args
	}
	t := m.val(st, c.Value)
	m.resolveDyn(ct, t)
	return ct, args
}

func (m *Machine) resolveDyn(ct *calleeT, t *Term) {
	switch t.op {
	case "func":
		ct.fn = t.aux.(*ssa.Function)
	case "closure":
		ct.fn = t.aux.(*ssa.Function)
		ct.free = t.args
	default:
		ct.name = "dynamic"
		ct.dyn = t
	}
}

func ifaceMethodName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	n := types.TypeString(t, nil)
	return "(" + n + ")." + c.Method.Name()
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	n := f.String()
	return n
}

func (m *Machine) call(st *State, instr ssa.CallInstruction, c *ssa.CallCommon, dst ssa.Value) (res, panics []*State) {
	ct, args := m.callee(st, c)
	return m.invoke(st, instr, ct, args, dst)
}

func setDst(st *State, dst ssa.Value, v *Term) {
	if dst != nil && v != nil {
		st.env[dst] = v
	}
}

const maxDepth = 40

func (m *Machine) invoke(st *State, instr ssa.CallInstruction, ct *calleeT, args []*Term, dst ssa.Value) (res, panics []*State) {
	m.calls++
	if ct.builtin != "" {
		return m.builtin(st, instr, ct, args, dst)
	}
	if m.h.Panic != nil {
		if ct.invoke && ct.fn == nil && !m.deref(st, args[0], instr) || ct.dyn != nil && !m.deref(st, ct.dyn, instr) {
			return nil, one(st)
		}
	}
	if ct.fn != nil {
		f := ct.fn
		if f.Blocks != nil && (ours(f) || methodValue(f)) {
			rec := 0
			for _, g := range m.stack {
				if g == f {
					rec++
				}
			}
			if rec > 0 || len(m.stack) > maxDepth {
				m.undecide("recursion through %s", f)
				r := mk("call", "recursive "+f.String(), resultType(ct.sig), nil, m.site(instr))
				st.havoc(m.site(instr))
				setDst(st, dst, m.tupleOf(r, ct.sig))
				return one(st), nil
			}
			if m.h.Enter != nil {
				m.h.Enter(m, st, f, args, instr)
			}
			env, defers := st.env, st.defers
			saved := m.ctx
			m.ctx = mk("ctxcall", fmt.Sprint(m.p.instrID(instr)), nil, nil, saved)
			m.callPos = append(m.callPos, instr)
			outs := m.exec(f, args, ct.free, st)
			m.callPos = m.callPos[:len(m.callPos)-1]
			m.ctx = saved
			for _, o := range outs {
				s := o.st
				s.env = cp(env)
				s.defers = append([]*deferred(nil), defers...)
				if o.panics {
					panics = append(panics, s)
					continue
				}
				switch len(o.res) {
				case 0:
				case 1:
					setDst(s, dst, o.res[0])
				default:
					setDst(s, dst, mk("tuple", "", nil, nil, o.res...))
				}
				res = append(res, s)
			}
			return res, panics
		}
		ct.name = fnName(f)
	}
	name := alias(ct.name)
	if m.h.Call != nil {
		m.h.Call(m, st, name, args, instr)
	}
	outs, pan := m.external(st, name, args, ct, instr, dst)
	if m.h.Called != nil {
		for _, o := range outs {
			var r *Term
			if dst != nil {
				r = o.env[dst]
			}
			m.h.Called(m, o, name, args, r, instr)
		}
	}
	return outs, pan
}

// methodValue tells whether a function is made by the compiler to call a
// method, as the value x.M or T.M.
func methodValue(f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk")
}

func resultType(sig *types.Signature) types.Type {
	if sig == nil {
		return nil
	}
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// tupleOf splits a call term into its results.
func (m *Machine) tupleOf(r *Term, sig *types.Signature) *Term {
	if sig == nil || sig.Results().Len() < 2 {
		return r
	}
	var l []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		l = append(l, mk("ext", fmt.Sprint(i), sig.Results().At(i).Type(), nil, r))
	}
	return mk("tuple", "", nil, nil, l...)
}

// havoc forgets everything that unknown code may have changed.
func (s *State) havoc(site *Term) {
	for a := range s.heap {
		r := rootOf(a)
		if isFresh(r) && !s.escaped[r] {
			continue
		}
		if r.op == "global" {
			continue
		}
		delete(s.heap, a)
	}
	for o := range s.escaped {
		s.dirty[o] = site
	}
	s.epoch["*"] = site
}

func (m *Machine) runDefersOf(st *State) (res, panics []*State) {
	cur := []*State{st}
	for {
		var next []*State
		more := false
		for _, s := range cur {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			more = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			saved := m.ctx
			m.ctx = d.ctx
			r, p := m.invoke(s, d.instr, d.callee, d.args, nil)
			m.ctx = saved
			next = append(next, r...)
			panics = append(panics, p...)
		}
		cur = next
		if !more {
			return cur, panics
		}
	}
}

func (m *Machine) runDefers(st *State) []*State {
	r, p := m.runDefersOf(st)
	for _, s := range p {
		s.defers = nil
	}
	return append(r, p...)
}

// variadic gives the elements of a slice whose construction is known.
func (m *Machine) variadic(st *State, t *Term) ([]*Term, bool) {
	switch t.op {
	case "nil":
		return nil, true
	case "slice":
		if t.args[1] == nil && t.args[2] == nil {
			if n, ok := arrayLen(t.args[0]); ok && isPtr(t.args[0].typ) && n <= 64 {
				el := t.args[0].typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
				var l []*Term
				for i := int64(0); i < n; i++ {
					l = append(l, st.read(mkIdx(t.args[0], cint(i), el), el))
				}
				return l, true
			}
		}
	case "append":
		b, ok := m.variadic(st, t.args[0])
		if ok {
			return append(append([]*Term(nil), b...), t.args[1:]...), true
		}
	}
	return nil, false
}

func (m *Machine) builtin(st *State, instr ssa.CallInstruction, ct *calleeT, args []*Term, dst ssa.Value) (res, panics []*State) {
	switch ct.builtin {
	case "len":
		setDst(st, dst, m.lenOf(st, args[0]))
	case "cap":
		setDst(st, dst, mk("cap", "", types.Typ[types.Int], nil, args[0]))
	case "append":
		typ := ct.sig.Results().At(0).Type()
		base := args[0]
		if len(args) == 1 {
			setDst(st, dst, base)
			break
		}
		if el, ok := m.variadic(st, args[1]); ok && !isBytes(typ) || ok && len(el) > 0 && isBytes(typ) && args[1].op == "slice" && isFresh(args[1].args[0]) && st.heap[mkCell("bytes", args[1].args[0], types.Typ[types.String])] == nil && st.heap[args[1].args[0]] == nil {
			var r *Term
			switch {
			case len(el) == 0:
				r = base
			case base.op == "append":
				r = mk("append", "", typ, nil, append(append([]*Term(nil), base.args...), el...)...)
			default:
				r = mk("append", "", typ, nil, append([]*Term{base}, el...)...)
			}
			setDst(st, dst, r)
			if m.h.Append != nil {
				m.h.Append(m, st, base, el, r, instr)
			}
			break
		}
		r := mk("appends", "", typ, nil, base, args[1])
		if isBytes(typ) {
			r = mk("appends", "", typ, nil, st.bytesVal(base), st.bytesVal(args[1]))
		}
		setDst(st, dst, r)
		if m.h.Append != nil {
			m.h.Append(m, st, base, []*Term{mk("spread", "", nil, nil, args[1])}, r, instr)
		}
	case "copy":
		if m.h.Call != nil {
			m.h.Call(m, st, "copy", args, instr)
		}
		d, s := args[0], args[1]
		if d.typ != nil && isBytes(d.typ) {
			c := mkCell("bytes", contentRoot(d), types.Typ[types.String])
			if tLen(d) == tLen(s) && contentRoot(d).op != "slice" {
				st.heap[c] = st.bytesVal(s)
			} else {
				prev := st.heap[c]
				if prev == nil {
					prev = tEmpty
				}
				st.heap[c] = starOf(types.Typ[types.String], prev, st.bytesVal(s))
			}
		} else {
			for a := range st.heap {
				if a.op == "idx" && rootOf(a) == rootOf(d) {
					delete(st.heap, a)
				}
			}
			st.dirty[rootOf(d)] = m.site(instr)
			st.setEpoch(heapKeyOfElems(d), m.site(instr))
		}
		setDst(st, dst, mk("call", "copy", types.Typ[types.Int], nil, d, s, m.site(instr)))
	case "delete":
		if m.h.MapWrite != nil {
			m.h.MapWrite(m, st, args[0], args[1], nil, instr)
		}
		if mt, ok := ct.sig.Params().At(0).Type().Underlying().(*types.Map); ok {
			k := args[1]
			if c := st.constOf(k); c != nil {
				k = c
			}
			m.mapWrite(st, args[0], k, nil, mt.Elem(), m.site(instr))
		}
	case "print", "println":
		if m.h.Call != nil {
			m.h.Call(m, st, ct.builtin, args, instr)
		}
	case "recover":
		m.undecide("recover in %s", instr.Parent())
		setDst(st, dst, mk("call", "recover", types.NewInterfaceType(nil, nil), nil, m.site(instr)))
	case "min", "max":
		setDst(st, dst, mk("call", ct.builtin, resultType(ct.sig), nil, args...))
	case "ssa:wrapnilchk":
		setDst(st, dst, args[0])
	case "clear":
		if m.h.Call != nil {
			m.h.Call(m, st, "clear", args, instr)
		}
		st.dirty[rootOf(args[0])] = m.site(instr)
		for a := range st.heap {
			if rootOf(a) == rootOf(args[0]) {
				delete(st.heap, a)
			}
		}
		st.havoc(m.site(instr))
	case "close":
	default:
		m.undecide("builtin %s is not modelled", ct.builtin)
		setDst(st, dst, mk("call", ct.builtin, resultType(ct.sig), nil, m.site(instr)))
	}
	return one(st), nil
}

func heapKeyOfElems(d *Term) string {
	if d.typ != nil {
		if s, ok := d.typ.Underlying().(*types.Slice); ok {
			return "[]" + types.TypeString(s.Elem(), nil)
		}
	}
	return "[]?"
}

var _ = strings.Contains
