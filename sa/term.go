package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed Herbrand term: the value number of an SSA value in a
// calling context. Two values with the same term are equal in every run.
type Term struct {
	id   int
	op   string
	s    string
	args []*Term
	typ  types.Type
	aux  interface{}
	cs   []*Term // loop contexts (op "loop", "oldloop", "accloop") inside
	sz   int
}

var (
	termTab = map[string]*Term{}
	termN   int
)

func mk(op, s string, typ types.Type, aux interface{}, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte(0)
		if a == nil {
			b.WriteByte('-')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		return t
	}
	termN++
	t := &Term{id: termN, op: op, s: s, args: append([]*Term(nil), args...), typ: typ, aux: aux, sz: 1}
	var cs map[*Term]bool
	for _, a := range args {
		if a == nil {
			continue
		}
		t.sz += a.sz
		for _, c := range a.cs {
			if cs == nil {
				cs = map[*Term]bool{}
			}
			cs[c] = true
		}
	}
	if op == "loop" || op == "oldloop" || op == "accloop" {
		if cs == nil {
			cs = map[*Term]bool{}
		}
		cs[t] = true
	}
	for c := range cs {
		t.cs = append(t.cs, c)
	}
	sort.Slice(t.cs, func(i, j int) bool { return t.cs[i].id < t.cs[j].id })
	termTab[k] = t
	return t
}

func (t *Term) hasCtx(c *Term) bool {
	for _, x := range t.cs {
		if x == c {
			return true
		}
	}
	return false
}

// ---- constants

var (
	tNil   = mk("nil", "", nil, nil)
	tTrue  = mk("const", "b:true", types.Typ[types.Bool], constant.MakeBool(true))
	tFalse = mk("const", "b:false", types.Typ[types.Bool], constant.MakeBool(false))
	tEmpty = cstr("")
	tZero  = cint(0)
)

func cval(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return mk("const", "s:"+constant.StringVal(v), types.Typ[types.String], v)
	case constant.Int, constant.Float:
		// one representation for integral values
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			return mk("const", "n:"+iv.ExactString(), typ, iv)
		}
		return mk("const", "f:"+v.ExactString(), typ, v)
	}
	return mk("const", "x:"+v.ExactString(), typ, v)
}

func cstr(s string) *Term { return cval(constant.MakeString(s), nil) }
func cint(i int64) *Term  { return cval(constant.MakeInt64(i), types.Typ[types.Int]) }
func cbool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t != nil && (t.op == "const" || t.op == "nil") }
func (t *Term) intVal() (int64, bool) {
	if t != nil && t.op == "const" {
		if v, ok := t.aux.(constant.Value); ok && v.Kind() == constant.Int {
			if i, ok := constant.Int64Val(v); ok {
				return i, true
			}
		}
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t != nil && t.op == "const" {
		if v, ok := t.aux.(constant.Value); ok && v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isNumeric(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}
func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.IsInterface(t)
}

// ---- constructors with normalisation

func tNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.op == "not":
		return t.args[0]
	}
	return mk("not", "", types.Typ[types.Bool], nil, t)
}

func constEq(a, b *Term) (bool, bool) {
	if a == b {
		return true, true
	}
	if a.isConst() && b.isConst() {
		return false, true
	}
	return false, false
}

func tEq(a, b *Term) *Term {
	if v, ok := constEq(a, b); ok {
		return cbool(v)
	}
	if b == tTrue {
		return a
	}
	if a == tTrue {
		return b
	}
	if b == tFalse {
		return tNot(a)
	}
	if a == tFalse {
		return tNot(b)
	}
	// empty strings: len(s)==0 is s==""
	if b == tZero && a.op == "len" && isString(a.args[0].typ) {
		a, b = a.args[0], tEmpty
	}
	if a == tZero && b.op == "len" && isString(b.args[0].typ) {
		a, b = b.args[0], tEmpty
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	// len(x)==0 of a slice compared with nil stays distinct
	// offset: (x + c) == d
	if c, ok := b.intVal(); ok && a.op == "bin+" {
		if k, ok := a.args[1].intVal(); ok {
			return tEq(a.args[0], cval(constant.MakeInt64(c-k), a.typ))
		}
	}
	return mk("eq", "", types.Typ[types.Bool], nil, a, b)
}

// tLt builds a<b.
func tLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.op == "const" && b.op == "const" {
		va, vb := a.aux.(constant.Value), b.aux.(constant.Value)
		if va.Kind() != constant.Bool && vb.Kind() != constant.Bool {
			return cbool(constant.Compare(va, tokLSS, vb))
		}
	}
	// c < x with integers: not (x < c+1)
	if c, ok := a.intVal(); ok && (isInteger(b.typ) || b.op == "len") {
		return tNot(tLt(b, cval(constant.MakeInt64(c+1), a.typ)))
	}
	if c, ok := b.intVal(); ok {
		nonneg := a.op == "len" || isUnsigned(a.typ)
		if nonneg && c <= 0 {
			return tFalse
		}
		if nonneg && c == 1 {
			return tEq(a, tZero)
		}
		// (x + k) < c
		if a.op == "bin+" && isInteger(a.typ) && !isUnsigned(a.typ) {
			if k, ok := a.args[1].intVal(); ok {
				return tLt(a.args[0], cval(constant.MakeInt64(c-k), a.typ))
			}
		}
	}
	return mk("lt", "", types.Typ[types.Bool], nil, a, b)
}

func tLen(x *Term) *Term {
	it := types.Typ[types.Int]
	switch x.op {
	case "const":
		if s, ok := x.strVal(); ok {
			return cint(int64(len(s)))
		}
	case "nil":
		return tZero
	case "slice":
		// args: x, lo, hi
		if x.args[2] != nil {
			if x.args[1] == nil || x.args[1] == tZero {
				return x.args[2]
			}
			lo, ok1 := x.args[1].intVal()
			hi, ok2 := x.args[2].intVal()
			if ok1 && ok2 {
				return cint(hi - lo)
			}
		} else {
			var base *Term
			if n, ok := arrayLen(x.args[0]); ok {
				base = cint(n)
			} else if isSlice(x.args[0].typ) || isString(x.args[0].typ) {
				base = tLen(x.args[0])
			}
			if base != nil {
				if x.args[1] == nil {
					return base
				}
				lo, ok1 := x.args[1].intVal()
				hi, ok2 := base.intVal()
				if ok1 && ok2 {
					return cint(hi - lo)
				}
			}
		}
	case "append":
		if n, ok := tLen(x.args[0]).intVal(); ok {
			return cint(n + int64(len(x.args)-1))
		}
	case "bytes", "str", "runes":
		if x.op == "bytes" || x.op == "str" {
			return tLen(x.args[0])
		}
	case "mkslice":
		return x.args[0]
	case "concat":
		sum := int64(0)
		ok := true
		for _, a := range x.args {
			n, k := tLen(a).intVal()
			if !k {
				ok = false
				break
			}
			sum += n
		}
		if ok {
			return cint(sum)
		}
	}
	return mk("len", "", it, nil, x)
}

func arrayLen(ptr *Term) (int64, bool) {
	if ptr.typ == nil {
		return 0, false
	}
	t := ptr.typ.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// tConcat joins strings.
func tConcat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == "concat" {
			for _, q := range p.args {
				add(q)
			}
			return
		}
		// a slice made with nothing in it, to append to
		if b := p; b.op == "mkslice" || (b.op == "str" || b.op == "bytes") && b.args[0].op == "mkslice" {
			if b.op != "mkslice" {
				b = b.args[0]
			}
			if b.args[0] == tZero {
				return
			}
		}
		if s, ok := p.strVal(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if s0, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = cstr(s0 + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return tEmpty
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], nil, out...)
}

// star is the summary of an accumulated slice, string or byte content: the
// parts that any iteration may have contributed, in any number.
func starOf(typ types.Type, ts ...*Term) *Term {
	set := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case "star", "concat":
			for _, a := range t.args {
				add(a)
			}
		case "append":
			for _, a := range t.args {
				add(a)
			}
		case "nil":
		case "const":
			if t != tEmpty {
				set[t] = true
			}
		case "slice":
			if n, ok := arrayLen(t.args[0]); ok && n == 0 {
				return
			}
			set[t] = true
		case "mkslice":
			if t.args[0] == tZero {
				return
			}
			set[t] = true
		case "zerofill":
			set[t] = true
		default:
			set[t] = true
		}
	}
	for _, t := range ts {
		add(t)
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mk("star", "", typ, nil, l...)
}

// rebuild makes the same kind of term with other arguments.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "eq":
		return tEq(args[0], args[1])
	case "lt":
		return tLt(args[0], args[1])
	case "not":
		return tNot(args[0])
	case "len":
		return tLen(args[0])
	case "concat":
		return tConcat(args...)
	case "star":
		return starOf(t.typ, args...)
	}
	return mk(t.op, t.s, t.typ, t.aux, args...)
}

// subst replaces terms (loop contexts, usually) inside t.
func subst(t *Term, from, to *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if !t.hasCtx(from) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = subst(a, from, to, memo)
	}
	r := rebuild(t, args)
	memo[t] = r
	return r
}

// ---- walking

func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) any(f func(*Term) bool) bool {
	found := false
	t.walk(func(y *Term) bool {
		if !found && f(y) {
			found = true
		}
		return !found
	})
	return found
}

// ---- printing

func (t *Term) String() string { n := 4000; return t.str(0, &n) }

func (t *Term) str(d int, n *int) string {
	if t == nil {
		return "-"
	}
	if *n--; d > 12 || *n < 0 {
		return "…"
	}
	as := func(l []*Term) string {
		var o []string
		for _, a := range l {
			o = append(o, a.str(d+1, n))
		}
		return strings.Join(o, ", ")
	}
	switch t.op {
	case "nil":
		return "nil"
	case "const":
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		return t.s[2:]
	case "param":
		return t.s[strings.Index(t.s, ":")+1:]
	case "global", "func":
		return t.s[strings.LastIndex(t.s, "/")+1:]
	case "fld":
		return t.args[0].str(d+1, n) + "." + t.s
	case "idx":
		return t.args[0].str(d+1, n) + "[" + t.args[1].str(d+1, n) + "]"
	case "melem":
		return t.args[0].str(d+1, n) + "{" + t.args[1].str(d+1, n) + "}"
	case "has":
		return "has(" + t.args[0].str(d+1, n) + ", " + t.args[1].str(d+1, n) + ")"
	case "load":
		e := ""
		if t.args[1] != nil {
			e = "'"
		}
		return t.args[0].str(d+1, n) + e
	case "alloc":
		n := "new"
		if t.typ != nil {
			n = "new(" + shortType(t.typ) + ")"
		}
		return n + ctxMark(t)
	case "eq":
		return t.args[0].str(d+1, n) + " == " + t.args[1].str(d+1, n)
	case "lt":
		return t.args[0].str(d+1, n) + " < " + t.args[1].str(d+1, n)
	case "not":
		return "!(" + t.args[0].str(d+1, n) + ")"
	case "call":
		n := t.s
		if i := strings.Index(n, "@"); i > 0 {
			n = n[:i]
		}
		l := t.args
		if len(l) > 0 && l[len(l)-1] != nil && strings.HasPrefix(l[len(l)-1].op, "ctx") {
			l = l[:len(l)-1]
		}
		return shortName(n) + "(" + as(l) + ")" + ctxMark(t)
	case "ext":
		return t.args[0].str(d+1, n) + "#" + t.s
	case "lv":
		return "i" + ctxMark(t)
	case "concat":
		var o []string
		for _, a := range t.args {
			o = append(o, a.str(d+1, n))
		}
		return strings.Join(o, "+")
	case "iface":
		return t.args[0].str(d+1, n)
	case "dec":
		return "decoded(" + t.args[0].str(d+1, n) + ")." + t.s
	}
	if strings.HasPrefix(t.op, "bin") {
		return "(" + t.args[0].str(d+1, n) + t.op[3:] + t.args[1].str(d+1, n) + ")"
	}
	if strings.HasPrefix(t.op, "ctx") || t.op == "loop" || t.op == "oldloop" || t.op == "accloop" {
		return "§"
	}
	if len(t.args) == 0 {
		return t.op + ":" + t.s
	}
	s := ""
	if t.s != "" && len(t.s) < 40 {
		s = ":" + t.s
	}
	return t.op + s + "(" + as(t.args) + ")"
}

func ctxMark(t *Term) string {
	for _, c := range t.cs {
		switch c.op {
		case "oldloop":
			return "~"
		case "accloop":
			return "*"
		}
	}
	return ""
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func shortName(s string) string {
	i := strings.LastIndex(s, "/")
	if i < 0 {
		return s
	}
	pre := ""
	for _, r := range s {
		if r == '(' || r == '*' {
			pre += string(r)
		} else {
			break
		}
	}
	return pre + s[i+1:]
}

var _ = fmt.Sprint
