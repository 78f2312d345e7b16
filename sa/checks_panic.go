package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = checkC19
}

// wellFormed tells why a pointer cannot be nil in what a caller may hand to an
// operation: a database that was made by NewDatabase and a user of it have no
// null entries, and an operation is called with a receiver and a request.
func wellFormed(st *State, x *Term) string {
	x = stripIface(x)
	if st.nonNil(x) {
		return "known"
	}
	if x.op == "param" {
		return "receiver or argument"
	}
	if x.op == "load" && c19parts[fldKey(x.args[0])] {
		return "made by NewDatabase"
	}
	if coll, _, ok := elemOf(x); ok && noNull(st, coll, 0) != "" {
		return "entries are not null"
	}
	if mp, k, ok := mapVal(x); ok && c19parts[valKey(mp)] && st.holds(st.read(mkHas(mp, k), types.Typ[types.Bool])) {
		return "recorded users are not null"
	}
	if x.op == "load" && x.args[0].op == "global" && !strings.Contains(x.args[0].s, modulePath) {
		return "data of another package"
	}
	if external(x) {
		return "part of a result of another package"
	}
	return ""
}

// external tells whether a value is a part of what an external function, other
// than a decoder, returned without an error.
func external(x *Term) bool {
	for n := 0; n < 20 && x != nil; n++ {
		switch x.op {
		case "load":
			x = x.args[0]
		case "melem":
			if x.args[1].op != "key" {
				return false
			}
			x = x.args[0]
		case "idx", "fld", "mval", "key", "iter":
			x = x.args[0]
		case "ext":
			return x.args[0].op == "call" && !strings.Contains(x.args[0].s, "encoding/")
		default:
			return false
		}
	}
	return false
}

// noNull tells why the elements of a list are not nil.
func noNull(st *State, l *Term, depth int) string {
	if depth > 20 || l == nil {
		return ""
	}
	all := func(ts []*Term) string {
		for _, t := range ts {
			if wellFormed(st, t) == "" && (t == tNil || isPtr(t.typ) || noNull(st, t, depth+1) == "") {
				return ""
			}
		}
		return "parts"
	}
	if emptyList(st, l) {
		return "empty"
	}
	switch l.op {
	case "star":
		return all(l.args)
	case "append":
		if noNull(st, l.args[0], depth+1) == "" {
			return ""
		}
		return all(l.args[1:])
	case "appends":
		for _, a := range l.args {
			if noNull(st, a, depth+1) == "" {
				return ""
			}
		}
		return "parts"
	case "slice", "sub":
		if n, ok := arrayLen(l.args[0]); ok && isPtr(l.args[0].typ) && n <= 64 {
			var el []*Term
			if a, is := elemType(l.args[0].typ).Underlying().(*types.Array); is {
				for i := int64(0); i < n; i++ {
					el = append(el, st.read(mkIdx(l.args[0], cint(i), a.Elem()), a.Elem()))
				}
			}
			return all(el)
		}
		return noNull(st, l.args[0], depth+1)
	case "alloc":
		return ""
	case "mkslice":
		return ""
	}
	if k := valKey(l); k == "Database.Users" || strings.HasPrefix(k, "User.") || strings.HasSuffix(k, "Bundle.keys") || strings.HasSuffix(k, "Bundle.tokens") || strings.HasSuffix(k, "Bundle.users") {
		r := deepRoot(l)
		if r != nil && (r.op == "param" || r.op == "alloc") {
			return "entries are not null"
		}
	}
	if l.op == "load" && l.args[0].op == "global" {
		return "package data"
	}
	return ""
}

// c19parts are the fields of a database that NewDatabase makes: its lock and tables.
var c19parts map[string]bool

func checkC19(c *Check) {
	c.rule("crash", 90, "no path of a public operation fails a type assertion, dereferences a pointer that may be nil, indexes or slices out of range, divides by zero, writes to a nil map or panics: neither in itself nor in an external function that panics on some arguments")
	c.rule("arguments", 2, "external functions that panic on some arguments are called with others")
	c.rule("ends", 40, "each loop scans a collection, counts towards a fixed bound, consumes its input, or draws new random values in each turn")
	c.rule("no null", 8, "no operation puts a nil entry into a list of a user or of the database")
	c.rule("tables", 1, "NewDatabase makes the lock and the lookup tables, and nothing replaces them by nil")

	requestish := func(t *Term) bool {
		// numbers and options that are no part of a request are the programmer's
		if t.any(func(y *Term) bool { return y.op == "param" && isIntType(y.typ) }) {
			return false
		}
		r := deepRoot(t)
		if r == nil || r.op != "param" || r.typ == nil {
			return true
		}
		switch r.typ.Underlying().(type) {
		case *types.Map, *types.Interface:
			return false
		case *types.Basic:
			return isStringTerm(r)
		}
		return true
	}
	// The lock and the tables: what a database points to and a file does not hold.
	parts := map[string]bool{}
	c19parts = parts
	if f := c.fn("", "NewDatabase"); f != nil && f.Signature.Results().Len() > 0 {
		if p, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if v := s.Field(i); !v.Exported() && (isPtr(v.Type()) || isMap(v.Type())) {
						parts["Database."+v.Name()] = true
					}
				}
			}
		}
	}
	reached := map[*ssa.Function]bool{}
	for _, f := range c.libAPI() {
		if p := f.Pkg.Pkg.Path(); strings.Contains(p, "/internal/") {
			continue
		}
		lbl := funcLabel(f)
		loops := map[string]*LoopInfo{}
		h := &Hooks{BackEdge: func(m *Machine, st *State, l *LoopInfo) { loops[l.ctx.s] = l }}
		h.Enter = func(m *Machine, st *State, fn *ssa.Function, args []*Term, in ssa.CallInstruction) {
			reached[fn] = true
		}
		reached[f] = true
		h.Panic = func(m *Machine, st *State, in ssa.Instruction, what string, x *Term) {
			why := ""
			switch what {
			case "nil dereference":
				why = wellFormed(st, x)
			case "write to a nil map":
				if k := valKey(x); x.op == "load" && parts[k] {
					why = "made by NewDatabase"
				}
			case "division":
				if x := bareNum(x); x.op == "call" && x.s == "math.Pow10" {
					for _, d := range st.eqClass(bareNum(x.args[0])) {
						if lo, hi, a, b := st.bounds(d); a && b && lo >= 0 && hi <= 18 {
							why = "a power of ten"
						}
					}
				}
			case "explicit panic":
				why = noRandomness(st)
			case "type assertion":
				why = rsaAssertion(st, x)
			case "slice":
				if x.args[1] == nil && x.args[2] != nil {
					if n, ok := x.args[2].intVal(); ok && n >= 0 && minLength(st, x.args[0], loops) >= n {
						why = "drawn with that length"
					}
				}
			}
			if why == "" && scannedEntry(st, x) {
				why = "found to be valid"
			}
			if why == "" && !requestish(x) {
				why = "chosen by the program"
			}
			c.check(why != "", st, "crash", funcLabel(in.Parent())+" "+what, c.p.instrPos(in), "%s may end in a panic (%s): %s", lbl, what, x)
		}
		h.Call = func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
			if why, relevant := mayPanic(m, st, name, args); relevant {
				if why != "" {
					for _, a := range args {
						if !requestish(a) {
							return
						}
					}
				}
				c.check(why == "", st, "arguments", funcLabel(in.Parent())+" calls "+name, c.p.instrPos(in), "%s may panic in %s: %s", lbl, name, why)
			}
		}
		h.Store = func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			k := fldKey(a)
			if parts[k] {
				c.check(st.nonNil(v), st, "tables", k+" in "+lbl, c.p.instrPos(in), "%s sets %s to %s, which may be nil", lbl, k, v)
			}
			if l := strings.TrimPrefix(k, "User."); k == "Database.Users" || l != k && inStrings(userLists, l) {
				c.check(v == st.valueAt(a) || noNull(st, v, 0) != "" || emptyList(st, v), st, "no null", k+" in "+lbl, c.p.instrPos(in), "%s sets %s to %s, which may have nil entries", lbl, k, v)
			}
			if a.op == "idx" && persistent(a) && isPtr(v.typ) && !isFresh(rootOf(a)) {
				c.check(wellFormed(st, v) != "", st, "no null", a.String()+" in "+lbl, c.p.instrPos(in), "%s stores %s in %s, which may be nil", lbl, v, a)
			}
		}
		h.MapWrite = func(m *Machine, st *State, mp, key, v *Term, in ssa.Instruction) {
			if k := valKey(mp); v != nil && isPtr(v.typ) && parts[k] {
				c.check(wellFormed(st, v) != "" || scannedEntry(st, v), st, "no null", k+" in "+lbl, c.p.instrPos(in), "%s records %s, which may be nil", lbl, v)
			}
		}
		if f.Name() == "NewDatabase" {
			scanValid(h, func(st *State, u *Term) string { return "" })
		}
		outs := c.run(f, h)
		c.ok("crash", lbl)
		if f.Name() == "NewDatabase" {
			good, _ := c.split(outs)
			c.some(good, f)
			for _, r := range good {
				for k := range parts {
					k = strings.TrimPrefix(k, "Database.")
					v := r.st.valueAt(fieldAddr2(r.res[0], "", k))
					c.check(r.st.nonNil(v), r.st, "tables", "NewDatabase "+k, c.p.pos(f.Pos()), "NewDatabase returns a database with %s = %s", k, v)
				}
			}
		}
	}
	for f := range reached {
		if f.Blocks == nil || f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/internal/tag") || !ours(f) {
			continue
		}
		lbl := funcLabel(f)
		for i, l := range c.p.info(f).loops {
			why := endless(c, f, l)
			c.check(why == "", nil, "ends", fmt.Sprintf("%s loop %d", lbl, i+1), c.p.instrPos(l.head.Instrs[len(l.head.Instrs)-1]), "a loop of %s may not end: %s", lbl, why)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Select, *ssa.Send:
					c.bad(nil, "ends", lbl+" channel", c.p.instrPos(in), "%s may wait for ever", lbl)
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						c.bad(nil, "ends", lbl+" channel", c.p.instrPos(in), "%s may wait for ever", lbl)
					}
				}
			}
		}
	}
}

func inStrings(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// noRandomness: the operating system has failed to deliver random data.
func noRandomness(st *State) string {
	for f, v := range st.facts {
		if f.op != "eq" || v {
			continue
		}
		for i := 0; i < 2; i++ {
			x := f.args[i]
			if f.args[1-i] == tNil && x.op == "ext" && x.args[0].op == "call" && strings.HasPrefix(x.args[0].s, "crypto/rand.") {
				return "no random data"
			}
		}
	}
	return ""
}

// rsaAssertion: what the ssh package decoded as an ssh-rsa key is one.
func rsaAssertion(st *State, x *Term) string {
	if !x.any(func(y *Term) bool { return y.op == "call" && strings.HasSuffix(y.s, "crypto/ssh.ParsePublicKey") }) {
		return ""
	}
	for f, v := range st.facts {
		if !v || f.op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := f.args[i].strVal(); ok && s == "ssh-rsa" && strings.HasSuffix(f.args[1-i].s, "PublicKey).Type") {
				return "an ssh-rsa key"
			}
		}
	}
	return ""
}

// mayPanic knows the external functions that panic on some arguments.
func mayPanic(m *Machine, st *State, name string, args []*Term) (why string, relevant bool) {
	atLeast := func(b *Term, n int64) string {
		if st.minLen(b) >= n {
			return ""
		}
		if k, ok := arrayLen(b); ok && k >= n {
			return ""
		}
		if b.op == "slice" && b.args[1] != nil && b.args[2] != nil {
			lo, hi := b.args[1], b.args[2]
			if d := tPlus(lo, cint(n)); d == hi {
				return ""
			}
		}
		if b.op == "mkslice" {
			if lo, _, ok, _ := st.bounds(b.args[0]); ok && lo >= n {
				return ""
			}
		}
		return fmt.Sprintf("%s may be shorter than %d", b, n)
	}
	last := func(i int) *Term { return args[len(args)-1-i] }
	switch {
	case strings.HasPrefix(name, "(encoding/binary."):
		for s, n := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			switch {
			case strings.HasSuffix(name, ").Put"+s):
				return atLeast(last(1), n), true
			case strings.HasSuffix(name, ")."+s):
				return atLeast(last(0), n), true
			}
		}
	case name == "strings.Repeat", name == "bytes.Repeat":
		if !st.notNegative(last(0)) {
			return fmt.Sprintf("%s may be negative", last(0)), true
		}
		return "", true
	case name == "crypto/rand.Int":
		n := m.normArg(st, last(0))
		if n.op == "bigint" || n.op == "call" && len(n.args) > 0 {
			if lo, _, ok, _ := st.bounds(n.args[0]); ok && lo > 0 {
				return "", true
			}
		}
		return fmt.Sprintf("%s may not be positive", n), true
	case strings.HasSuffix(name, "regexp.MustCompile"):
		if args[0].isConst() {
			return "", true
		}
		return "the pattern is not fixed", true
	case name == "(*encoding/base64.Encoding).Decode", name == "(*encoding/base32.Encoding).Decode":
		dst, src := last(1), last(0)
		if dst.op == "mkslice" {
			n := dst.args[0]
			if n.op == "len" && sameContent(st, n.args[0], src) || n == tLen(src) {
				return "", true
			}
			if n.op == "call" && strings.HasSuffix(n.s, ").DecodedLen") {
				if k := n.args[len(n.args)-1]; k == tLen(src) || k.op == "len" && sameContent(st, k.args[0], src) {
					return "", true
				}
			}
		}
		return fmt.Sprintf("%s may be too short", dst), true
	case name == "encoding/hex.Decode", name == "encoding/hex.Encode", name == "(*math/big.Int).FillBytes",
		name == "crypto/elliptic.Marshal", name == "crypto/elliptic.MarshalCompressed",
		strings.HasPrefix(name, "(crypto/elliptic.Curve).Scalar"), name == "(crypto/elliptic.Curve).Add", name == "(crypto/elliptic.Curve).Double",
		strings.HasSuffix(name, "/template.Must"), name == "log.Panic", name == "log.Panicf", name == "log.Fatal", name == "log.Fatalf", name == "os.Exit":
		return "it panics or ends the program on some arguments", true
	}
	return "", false
}

// endless tells why a loop is not known to end.
func endless(c *Check, f *ssa.Function, l *loopT) string {
	li := &LoopInfo{head: l.head, blocks: l.blocks}
	// a range over a map or a text, or input that is used up
	next := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Next:
			return true
		case ssa.CallInstruction:
			n := ""
			if g := x.Common().StaticCallee(); g != nil {
				n = g.String()
			} else if x.Common().IsInvoke() {
				n = x.Common().Method.Name()
			}
			for _, s := range []string{"Scanner).Scan", "csv.Reader).Read", "bufio.Reader).Read", "json.Decoder).Decode", "json.Decoder).Token", "xml.Decoder).Token", "tar.Reader).Next"} {
				if strings.Contains(n, s) {
					return true
				}
			}
		}
		return false
	}
	if everyTurn(li, next) {
		return ""
	}
	outside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !l.blocks[in.Block()]
	}
	var fixed func(v ssa.Value) bool
	fixed = func(v ssa.Value) bool {
		if outside(v) {
			return true
		}
		// len(x) of something that the loop does not change
		if k, ok := v.(*ssa.Call); ok {
			if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := k.Call.Args[0]
				if outside(a) {
					return true
				}
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL && unwritten(l, u) {
					return true
				}
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && unwritten(l, u) {
			return true
		}
		if b, ok := v.(*ssa.BinOp); ok {
			return fixed(b.X) && fixed(b.Y)
		}
		return false
	}
	// direction of a value in each turn: a variable that is stepped in every
	// turn by a constant of one sign, or a list or text that is cut
	var dir func(v, p ssa.Value, depth int) int
	sign := func(v ssa.Value) int {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0
		}
		switch {
		case !isIntType(k.Type()):
			return 0
		case k.Int64() > 0:
			return 1
		case k.Int64() < 0:
			return -1
		}
		return 0
	}
	dir = func(v, p ssa.Value, depth int) int {
		if depth > 8 {
			return 0
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			base := 0
			if x.X != p {
				if base = dir(x.X, p, depth+1); base == 0 {
					if x.Op == token.ADD && x.Y == p && longText(x.X) {
						return 1
					}
					if x.Op == token.ADD && (x.Y == p || dir(x.Y, p, depth+1) != 0) {
						return sign(x.X)
					}
					return 0
				}
			}
			s := sign(x.Y)
			if x.Op == token.ADD && longText(x.Y) {
				s = 1
			}
			switch x.Op {
			case token.SUB:
				s = -s
			case token.QUO, token.SHR:
				if s > 0 && (base == 0 || base == -1) {
					return -1
				}
				return 0
			case token.ADD:
			default:
				return 0
			}
			if s == 0 || base != 0 && base != s {
				return 0
			}
			return s
		case *ssa.Call:
			// a list that grows
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && longList(x.Call.Args[1]) {
				if a := x.Call.Args[0]; a == p || dir(a, p, depth+1) > 0 {
					return 1
				}
			}
		case *ssa.Slice:
			if x.X == p && (x.Low != nil && sign(x.Low) > 0 || x.High != nil && x.Low == nil) {
				return -1
			}
		case *ssa.Phi:
			if x == p {
				return 0
			}
			d := 0
			for _, e := range x.Edges {
				k := dir(e, p, depth+1)
				if k == 0 || d != 0 && k != d {
					return 0
				}
				d = k
			}
			return d
		}
		return 0
	}
	moves := func(p *ssa.Phi) int {
		d := 0
		for i, e := range p.Edges {
			if !l.blocks[p.Block().Preds[i]] {
				continue
			}
			k := dir(e, p, 0)
			if k == 0 || d != 0 && d != k {
				return 0
			}
			d = k
		}
		return d
	}
	// motion of what a condition compares
	var motion func(v ssa.Value) int
	motion = func(v ssa.Value) int {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.head {
				return moves(x)
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if sign(x.Y) != 0 {
					return motion(x.X)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return motion(x.Call.Args[0])
			}
			// a builder that is written to in each turn
			if g := x.Call.StaticCallee(); g != nil && (g.String() == "(*strings.Builder).Len" || g.String() == "(*bytes.Buffer).Len") && outside(x.Call.Args[0]) {
				on, grown := x.Call.Args[0], false
				for b := range l.blocks {
					for _, in := range b.Instrs {
						k, ok := in.(*ssa.Call)
						if !ok {
							continue
						}
						h := k.Call.StaticCallee()
						if h == nil || len(k.Call.Args) == 0 || k.Call.Args[0] != on {
							continue
						}
						switch h.Name() {
						case "Len", "String", "Grow", "Cap":
						case "WriteByte", "WriteRune", "WriteString":
							if h.Name() != "WriteString" || longText(k.Call.Args[1]) {
								every := true
								for _, p := range l.head.Preds {
									if l.blocks[p] && !b.Dominates(p) {
										every = false
									}
								}
								grown = grown || every
							}
						default:
							return 0
						}
					}
				}
				if grown {
					return 1
				}
			}
		}
		return 0
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// the condition is met in every turn
		every := true
		for _, p := range l.head.Preds {
			if l.blocks[p] && !b.Dominates(p) {
				every = false
			}
		}
		if !every {
			continue
		}
		for i, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			// leaves on succ i
			var leaves func(v ssa.Value, want bool) bool
			leaves = func(v ssa.Value, want bool) bool {
				switch x := v.(type) {
				case *ssa.UnOp:
					return x.Op == token.NOT && leaves(x.X, !want)
				case *ssa.BinOp:
					a, z, op := x.X, x.Y, x.Op
					d := motion(a)
					if d == 0 || !fixed(z) {
						a, z = z, a
						d = motion(a)
						switch op {
						case token.LSS:
							op = token.GTR
						case token.GTR:
							op = token.LSS
						case token.LEQ:
							op = token.GEQ
						case token.GEQ:
							op = token.LEQ
						}
					}
					if d == 0 || !fixed(z) {
						return false
					}
					if !want {
						switch op {
						case token.LSS:
							op = token.GEQ
						case token.GTR:
							op = token.LEQ
						case token.LEQ:
							op = token.GTR
						case token.GEQ:
							op = token.LSS
						case token.EQL:
							op = token.NEQ
						case token.NEQ:
							op = token.EQL
						}
					}
					switch op {
					case token.GEQ, token.GTR:
						return d > 0
					case token.LEQ, token.LSS:
						return d < 0
					case token.EQL:
						// steps of one from the right side
						return stepOne(a, l)
					}
				}
				return false
			}
			if leaves(iff.Cond, i == 0) {
				return ""
			}
		}
	}
	if everyTurn(li, func(in ssa.Instruction) bool { return draws(in, map[*ssa.Function]bool{}) }) {
		for _, p := range l.head.Preds {
			if l.blocks[p] && !repeatsByChance(l, p) {
				return "whether it goes on does not depend on what it draws"
			}
		}
		return ""
	}
	return "it neither scans, counts, consumes nor draws anew in each turn"
}

// longText: a text that is not empty.
func longText(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) != ""
	case *ssa.Convert:
		return isIntType(x.X.Type()) && isString(x.Type())
	case *ssa.BinOp:
		return x.Op == token.ADD && isString(x.Type()) && (longText(x.X) || longText(x.Y))
	}
	return false
}

// longList: the elements of an append that names them.
func longList(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return false
	}
	p, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return ok && a.Len() > 0
}

func isIntType(t types.Type) bool {
	b, ok := typeBasic(t)
	return ok && b.Info()&types.IsInteger != 0
}

// stepOne: a counter that changes by one in each turn and is compared for
// equality with its end.
func stepOne(v ssa.Value, l *loopT) bool {
	p, ok := v.(*ssa.Phi)
	if b, is := v.(*ssa.BinOp); is {
		p, ok = b.X.(*ssa.Phi)
	}
	if k, is := v.(*ssa.Call); is {
		return len(k.Call.Args) == 1 // a list that is used up from one end
	}
	return ok && (stepIs(p, l, 1) || stepIs(p, l, -1))
}

// unwritten: the loop contains no write through the address, and no call.
func unwritten(l *loopT, u *ssa.UnOp) bool {
	fa, ok := u.X.(*ssa.FieldAddr)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == u.X {
					return false
				}
				if fb, is := x.Addr.(*ssa.FieldAddr); is && ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
					return false
				}
			}
		}
	}
	if _, is := u.X.(*ssa.Global); is {
		return true
	}
	return ok
}

// draws tells whether an instruction reads random data.
func draws(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := call.Common().StaticCallee()
	if f == nil {
		return false
	}
	if f.Pkg != nil {
		switch p := f.Pkg.Pkg.Path(); {
		case p == "crypto/rand", p == "math/rand", p == "math/rand/v2", strings.HasSuffix(p, "go.uuid") && strings.HasPrefix(f.Name(), "NewV4"), strings.HasSuffix(p, "google/uuid"):
			return true
		}
	}
	if seen[f] || f.Blocks == nil || !ours(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if draws(in, seen) {
				return true
			}
		}
	}
	return false
}

// repeatsByChance tells whether the decision to take another turn depends on
// what was drawn in this turn.
func repeatsByChance(l *loopT, from *ssa.BasicBlock) bool {
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !l.blocks[in.Block()] {
			return false
		}
		seen[v] = true
		if draws(in, map[*ssa.Function]bool{}) {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
			return false
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v && dep(s.Val) {
					return true
				}
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// what was stored in the field in this turn
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				for b := range l.blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok || !b.Dominates(u.Block()) {
							continue
						}
						if fb, ok := s.Addr.(*ssa.FieldAddr); ok && fb.Field == fa.Field && fb.X == fa.X && dep(s.Val) {
							return true
						}
					}
				}
			}
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && dep(*o) {
				return true
			}
		}
		return false
	}
	// always: every way from a block comes to another one in the same turn
	always := func(b, to *ssa.BasicBlock) bool {
		been := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			if b == to || been[b] {
				return true
			}
			been[b] = true
			if !l.blocks[b] || b == l.head {
				return false
			}
			for _, s := range b.Succs {
				if !walk(s) {
					return false
				}
			}
			return len(b.Succs) > 0
		}
		return walk(b)
	}
	// chance: a block is reached because of what was drawn
	tried := map[*ssa.BasicBlock]bool{}
	var chance func(b *ssa.BasicBlock) bool
	chance = func(to *ssa.BasicBlock) bool {
		if tried[to] {
			return true
		}
		tried[to] = true
		found := false
		for b := range l.blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b == to || always(b.Succs[0], to) == always(b.Succs[1], to) {
				continue
			}
			found = true
			clear(seen)
			if !dep(iff.Cond) && !chance(b) {
				return false
			}
		}
		return found
	}
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		// another turn is one of the two ways
		for i, s := range from.Succs {
			if s != l.head && !always(from.Succs[1-i], s) {
				clear(seen)
				if dep(iff.Cond) {
					return true
				}
			}
		}
	}
	return chance(from)
}
