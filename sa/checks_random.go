package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C33"] = checkC33
}

func isOSRandom(t *Term) bool {
	t = stripIface(t)
	for t != nil && (t.op == "load" || t.op == "iface") {
		t = t.args[0]
	}
	return t != nil && t.op == "global" && strings.HasSuffix(t.String(), "rand.Reader") && !strings.Contains(t.String(), "math")
}

// perTurn tells whether a value is a different one in every turn of a loop.
func perTurn(t *Term) bool {
	for _, x := range t.cs {
		if x.op == "accloop" || x.op == "oldloop" {
			return true
		}
	}
	return false
}

// drawn decides that a text consists of characters that each come from the
// operating system's random source; src counts the sources in it.
func drawn(st *State, t *Term) (src int, why string) {
	var walk func(t *Term) int
	seen := map[*Term]bool{}
	fail := func(f string, a ...interface{}) int {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
		return 0
	}
	// number decides a number that selects one of the characters of an
	// alphabet: each of them has the same chance.
	var number func(t *Term, alphabet *Term) int
	number = func(t *Term, alphabet *Term) int {
		t = unconv(t)
		abc, _ := alphabet.strVal()
		size := int64(len(abc))
		different := map[byte]bool{}
		for i := range abc {
			different[abc[i]] = true
		}
		if abc != "" && (len(different) < 32 || len(different) < len(abc)) {
			return fail("a character is one of only %d", len(different))
		}
		switch {
		case t.op == "call" && (t.s == "(*math/big.Int).Int64" || t.s == "(*math/big.Int).Uint64"):
			x := t.args[0]
			if x.op == "ext" && x.args[0].op == "call" && x.args[0].s == "crypto/rand.Int" {
				c := x.args[0]
				if !isOSRandom(c.args[0]) {
					return fail("it is drawn from %s", c.args[0])
				}
				if c.args[1].op == "bigint" {
					if lo, hi, ok, ok2 := st.bounds(c.args[1].args[0]); ok && ok2 && lo == hi && (lo == size || abc == "" && lo >= 32) {
						return 1
					}
				}
				return fail("a character is one of only %s", c.args[1])
			}
			return fail("a number is %s", t)
		case t.op == "bin%" || t.op == "bin&":
			k, ok := t.args[1].intVal()
			if t.op == "bin&" {
				if k&(k+1) != 0 {
					return fail("a character is selected by %s", t)
				}
				k++
			}
			if !ok || k < 32 || abc != "" && k != size {
				return fail("a character is one of only %s", t.args[1])
			}
			// what is left over has the same chance as the rest
			n := int64(256)
			if _, hi, _, ok := st.bounds(t.args[0]); ok && hi < n {
				n = hi + 1
			}
			if _, hi, _, ok := st.bounds(unconv(t.args[0])); ok && hi < n {
				n = hi + 1
			}
			if n%k != 0 {
				return fail("some characters are drawn more often than others, by %s", t)
			}
			return walk(t.args[0])
		case t.op == "at" && t.args[0].any(func(y *Term) bool { return y.op == "readfrom" }):
			if size != 256 && abc != "" {
				if _, hi, _, ok := st.bounds(t); !ok || hi != size-1 {
					return fail("a character is selected by %s", t)
				}
			}
			return walk(t.args[0])
		case t.op == "load":
			if l, _, ok := elemOf(t); ok {
				return walk(l)
			}
		}
		return fail("a character is selected by %s", t)
	}
	walk = func(t *Term) int {
		t0 := t
		t = unconv(t)
		if t.isConst() {
			return 0
		}
		switch t.op {
		case "str", "bytes", "str:rune", "bytes:runes", "iface":
			return walk(t.args[0])
		case "readfrom":
			if !isOSRandom(t.args[0]) {
				return fail("it is read from %s", t.args[0])
			}
			return 1
		case "at":
			if t.args[0].isConst() {
				return number(t.args[1], t.args[0])
			}
			return walk(t.args[0])
		case "sub", "slice":
			return walk(t.args[0])
		case "concat", "append", "appends":
			n := 0
			for _, a := range t.args {
				n += walk(a)
			}
			return n
		case "fmt", "fmtw":
			return walk(t.args[len(t.args)-1])
		case "star":
			n := 0
			for _, a := range t.args {
				k := walk(a)
				if k == 0 {
					return fail("the characters include %s", a)
				}
				if !perTurn(a) && bareBytes(a).op != "readfrom" {
					return fail("the character %s is repeated", a)
				}
				n += k
			}
			return n
		case "mkslice", "alloc":
			if w := st.heap[mkCell("bytes", t, types.Typ[types.String])]; w != nil {
				if seen[t] {
					return 1
				}
				seen[t] = true
				return walk(w)
			}
		case "load":
			l, i, ok := elemOf(t)
			if ok && textOf(st, l) != nil && textOf(st, l).isConst() {
				return number(i, textOf(st, l))
			}
			if ok && strings.HasPrefix(l.op, "bytes") && l.args[0].isConst() {
				return number(i, l.args[0])
			}
		case "call":
			switch {
			case strings.HasSuffix(t.s, "go.uuid.NewV4"), strings.HasSuffix(t.s, "uuid.NewRandom"), strings.HasSuffix(t.s, "rand.Text") && strings.HasPrefix(t.s, "crypto/"):
				return 1
			case strings.HasSuffix(t.s, "uuid.UUID).String"), t.s == "encoding/hex.EncodeToString", t.s == "strings.ToLower", t.s == "strings.ToUpper":
				return walk(t.args[0])
			case t.s == "(*encoding/base64.Encoding).EncodeToString":
				return walk(t.args[1])
			}
		case "ext":
			if t.s == "0" {
				return walk(t.args[0])
			}
		}
		return fail("it holds %s", t0)
	}
	src = walk(t)
	if src == 0 && why == "" {
		why = "it is fixed"
	}
	return
}

// trips describes a loop that counts one by one and ends only when the count is
// complete: from zero up to what its condition compares with (limit is nil), or
// down to zero from just below limit.
func trips(l *LoopInfo) (counter ssa.Value, limit ssa.Value, ok bool) {
	for b := range l.blocks {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.blocks[s] && !endsInPanic(s) {
				return nil, nil, false
			}
		}
	}
	iff, is := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !is {
		return nil, nil, false
	}
	cond, is := iff.Cond.(*ssa.BinOp)
	if !is || !l.blocks[l.head.Succs[0]] {
		return nil, nil, false
	}
	konst := func(v ssa.Value, k int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == k
	}
	// step returns the other start of a counter that changes by k in each turn.
	step := func(p *ssa.Phi, k int64) (ssa.Value, bool) {
		var start ssa.Value
		n := 0
		for i, e := range p.Edges {
			if !l.blocks[p.Block().Preds[i]] {
				start = e
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != p || !(b.Op == token.ADD && konst(b.Y, k) || b.Op == token.SUB && konst(b.Y, -k)) {
				return nil, false
			}
			n++
		}
		return start, start != nil && n > 0
	}
	switch {
	case cond.Op == token.LSS:
		if p, is := cond.X.(*ssa.Phi); is && p.Block() == l.head {
			if s, ok := step(p, 1); ok && konst(s, 0) {
				return p, nil, true
			}
		}
		if b, is := cond.X.(*ssa.BinOp); is {
			if p, is := b.X.(*ssa.Phi); is && p.Block() == l.head {
				if s, ok := step(p, 1); ok && konst(s, -1) {
					return b, nil, true
				}
			}
		}
	case cond.Op == token.GEQ && konst(cond.Y, 0):
		if p, is := cond.X.(*ssa.Phi); is && p.Block() == l.head {
			if s, ok := step(p, -1); ok {
				if b, is := s.(*ssa.BinOp); is && b.Op == token.SUB && konst(b.Y, 1) {
					return p, b.X, true
				}
			}
		}
	}
	return nil, nil, false
}

// turns is the number of turns that a loop takes, if it only counts.
func turns(l *LoopInfo) ssa.Value {
	if _, limit, ok := trips(l); ok {
		if limit == nil {
			return l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp).Y
		}
		return limit
	}
	for b := range l.blocks {
		for _, s := range b.Succs {
			if b != l.head && !l.blocks[s] {
				return nil
			}
		}
	}
	iff, is := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !is || !l.blocks[l.head.Succs[0]] {
		return nil
	}
	cond, is := iff.Cond.(*ssa.BinOp)
	if !is {
		return nil
	}
	p, is := cond.X.(*ssa.Phi)
	if !is || p.Block() != l.head {
		return nil
	}
	var start ssa.Value
	for i, e := range p.Edges {
		if !l.blocks[l.head.Preds[i]] {
			start = e
		}
	}
	at := func(v ssa.Value, k int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == k
	}
	lt := &loopT{head: l.head, blocks: l.blocks}
	switch {
	case cond.Op == token.LEQ && at(start, 1) && stepIs(p, lt, 1):
		return cond.Y
	case cond.Op == token.GTR && at(cond.Y, 0) && stepIs(p, lt, -1):
		return start
	}
	return nil
}

func endsInPanic(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// everyTurn tells whether a loop does something in each of its turns.
func everyTurn(l *LoopInfo, does func(in ssa.Instruction) bool) bool {
	for b := range l.blocks {
		all := true
		for _, p := range l.head.Preds {
			if l.blocks[p] && !b.Dominates(p) {
				all = false
			}
		}
		if !all {
			continue
		}
		for _, in := range b.Instrs {
			if does(in) {
				return true
			}
		}
	}
	return false
}

// minLength decides a lower bound of the length of a text that a loop put
// together character by character.
func minLength(st *State, t *Term, loops map[string]*LoopInfo) (n int64) {
	if s, is := t.strVal(); is {
		return int64(len(s))
	}
	least := func(size *Term) int64 {
		if lo, _, ok, _ := st.bounds(size); ok && lo > 0 {
			return lo
		}
		return 0
	}
	// known from what ended the loop
	for f, v := range st.facts {
		if !v && f.op == "lt" && f.args[0].op == "len" && bareBytes(f.args[0].args[0]) == bareBytes(t) {
			if k := least(f.args[1]); k > n {
				n = k
			}
		}
	}
	switch t.op {
	case "iface", "str", "bytes", "conv":
		if k := minLength(st, t.args[0], loops); k > n {
			n = k
		}
	case "concat":
		k := int64(0)
		for _, a := range t.args {
			k += minLength(st, a, loops)
		}
		if k > n {
			n = k
		}
	case "call":
		if strings.HasSuffix(t.s, "uuid.UUID).String") {
			return 36
		}
	case "star":
		for _, e := range t.args {
			for _, x := range e.cs {
				l := loops[x.s]
				if x.op != "accloop" || l == nil {
					continue
				}
				if k := filledBy(st, t, l, x, least); k > n {
					n = k
				}
			}
		}
	}
	return n
}

// filledBy decides how many characters a loop certainly wrote.
func filledBy(st *State, t *Term, l *LoopInfo, turn *Term, least func(*Term) int64) int64 {
	counter, limit, ok := trips(l)
	if !ok {
		return 0
	}
	// the count that the loop has reached
	var count *Term
	for f, v := range st.facts {
		if v || f.op != "lt" || limit != nil {
			continue
		}
		for _, x := range f.args[0].cs {
			if x.op == "loop" && x.s == turn.s && x.args[0] == turn.args[0] {
				count = f.args[1]
			}
		}
	}
	var buf *Term
	for a, w := range st.heap {
		if w == t && a.op == "cell" && a.args[0].op == "mkslice" {
			buf = a.args[0]
		}
	}
	if buf != nil {
		// every place of a buffer of this size is written
		if !everyTurn(l, func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			a, ok := s.Addr.(*ssa.IndexAddr)
			return ok && a.Index == counter
		}) {
			return 0
		}
		size := buf.args[0]
		if limit != nil {
			for _, b := range l.fn.Blocks {
				for _, in := range b.Instrs {
					if mk, ok := in.(*ssa.MakeSlice); ok && (mk.Len == limit || isLenOf(limit, mk)) {
						return least(size)
					}
				}
			}
			return 0
		}
		if count == size {
			return least(size)
		}
		if k, ok := size.intVal(); ok && count != nil {
			if m, ok := count.intVal(); ok && m >= k-1 {
				return k
			}
		}
		return 0
	}
	if count == nil || !everyTurn(l, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "append"
			}
			f := in.Call.StaticCallee()
			return f != nil && (strings.HasPrefix(f.String(), "(*strings.Builder).Write") || strings.HasPrefix(f.String(), "(*bytes.Buffer).Write"))
		case *ssa.BinOp:
			return in.Op == token.ADD && isString(in.Type())
		}
		return false
	}) {
		return 0
	}
	return least(count)
}

func isLenOf(v ssa.Value, mk *ssa.MakeSlice) bool {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 || c.Call.Args[0] != mk {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func checkC33(c *Check) {
	c.rule("identifier", 6, "the id given to a user, key or token is drawn, character by character, from the operating system's random source (a PGP key is given the id that the key has)")
	c.rule("api key", 1, "so is the API key that is handed out")
	c.rule("length", 1, "the API key has at least 72 characters")
	c.rule("generator", 4, "so is what the generators of random text return")
	for _, f := range c.libAPI() {
		if f.Pkg.Pkg.Path() != modulePath {
			continue
		}
		lbl := funcLabel(f)
		loops := map[string]*LoopInfo{}
		h := &Hooks{BackEdge: func(m *Machine, st *State, l *LoopInfo) { loops[l.ctx.s] = l }, Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			k := fldKey(a)
			switch k {
			case "User.ID", "PublicKey.ID", "APIKey.ID", "MfaToken.ID":
			default:
				return
			}
			if valKey(v) == k || v == st.valueAt(a) {
				return
			}
			if s, ok := v.strVal(); ok && s == "" {
				return
			}
			if k == "PublicKey.ID" && v.any(func(y *Term) bool { return strings.HasSuffix(valKey(y), "PublicKey.KeyId") }) && !v.any(func(y *Term) bool {
				return y.op == "call" && (strings.HasPrefix(y.s, "time.") || strings.HasPrefix(y.s, "math/rand"))
			}) {
				c.ok("identifier", k+" of "+lbl+" from the key")
				return
			}
			_, why := drawn(st, v)
			c.check(why == "", st, "identifier", k+" of "+lbl, c.p.instrPos(in), "%s sets %s to %s: %s", lbl, k, v, why)
		}}
		outs := c.run(f, h)
		switch {
		case f.Name() == "AddAPIKey" && strings.Contains(lbl, "Database"):
			good, _ := c.split(outs)
			c.some(good, f)
			for _, r := range good {
				p := stripIface(r.st.valueAt(fieldAddr(c.param(f, 1), "Response.Payload")))
				_, why := drawn(r.st, p)
				c.check(why == "", r.st, "api key", lbl, c.p.pos(f.Pos()), "%s hands out %s: %s", lbl, p, why)
				n := minLength(r.st, p, loops)
				c.check(n >= 72, r.st, "length", lbl, c.p.pos(f.Pos()), "%s hands out a key of which only %d characters are certain", lbl, n)
			}
		case f.Name() == "GetRandomString" || f.Name() == "GetRandomStringFromRange" || f.Name() == "NewRandomString" || f.Name() == "NewID":
			for _, r := range c.returns(outs) {
				if len(r.res) == 0 {
					continue
				}
				if s, ok := r.res[0].strVal(); ok && s == "" {
					continue
				}
				_, why := drawn(r.st, r.res[0])
				c.check(why == "", r.st, "generator", lbl, c.p.pos(f.Pos()), "%s returns %s: %s", lbl, r.res[0], why)
			}
		}
	}
}
