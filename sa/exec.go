package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopInfo describes one loop in one calling context.
type LoopInfo struct {
	fn     *ssa.Function
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ctx    *Term // the iteration context (op "loop")
	iter   bool  // unrolled: ctx is one concrete iteration
	iterN  int
	keys   []*Term // the keys of a small map that an unrolled loop ranges over
	coll   *Term   // collection that the loop scans from end to end, if recognised
	elem   *Term   // index term of the current element
	mapIt  bool
	exit   *ssa.BasicBlock    // where the loop ends when the collection is exhausted
	vars   map[*ssa.Phi]*Term // what the variables of the loop are when an iteration starts
	back   *ssa.BasicBlock    // at the end of an iteration: where it ends
}

// Hooks are called by the machine on the events of the abstract execution.
type Hooks struct {
	Load     func(m *Machine, st *State, addr, val *Term, instr ssa.Instruction)
	Store    func(m *Machine, st *State, addr, val *Term, instr ssa.Instruction)
	MapWrite func(m *Machine, st *State, mp, key, val *Term, instr ssa.Instruction) // val nil: delete
	MapRead  func(m *Machine, st *State, mp, key, val *Term, instr ssa.Instruction)
	Call     func(m *Machine, st *State, name string, args []*Term, instr ssa.CallInstruction) // external calls, before
	Called   func(m *Machine, st *State, name string, args []*Term, res *Term, instr ssa.CallInstruction)
	Enter    func(m *Machine, st *State, fn *ssa.Function, args []*Term, instr ssa.CallInstruction)
	Append   func(m *Machine, st *State, base *Term, elems []*Term, res *Term, instr ssa.Instruction)
	BackEdge func(m *Machine, st *State, l *LoopInfo)
	LoopExit func(m *Machine, st *State, l *LoopInfo) // by exhaustion of the collection
	Panic    func(m *Machine, st *State, instr ssa.Instruction, what string, x *Term)
	Return   func(m *Machine, st *State, fn *ssa.Function, res []*Term)
	Lock     func(m *Machine, st *State, what string, lock *Term, instr ssa.CallInstruction)
	Go       func(m *Machine, st *State, instr *ssa.Go)
	Branch   func(m *Machine, st *State, cond *Term, instr *ssa.If)
}

// Machine interprets functions abstractly.
type Machine struct {
	p       *Program
	h       *Hooks
	quiet   int
	stack   []*ssa.Function
	ctx     *Term
	callPos []ssa.Instruction

	steps     int
	nStates   int
	funcs     map[*ssa.Function]int
	calls     int
	undecided []string
	loops     []*LoopInfo // enclosing loops, outermost first

	maxStates  int
	deadline   func() bool
	pathNo     int
	initMode   bool
	softStates int
	coarse     int
}

type Outcome struct {
	st     *State
	res    []*Term
	panics bool
}

func newMachine(p *Program, h *Hooks) *Machine {
	if h == nil {
		h = &Hooks{}
	}
	return &Machine{p: p, h: h, ctx: mk("ctx", "", nil, nil), funcs: map[*ssa.Function]int{}, maxStates: 40000, softStates: 12000}
}

func (m *Machine) undecide(f string, a ...interface{}) {
	t := fmt.Sprintf(f, a...)
	for _, x := range m.undecided {
		if x == t {
			return
		}
	}
	m.undecided = append(m.undecided, t)
}

func (m *Machine) site(instr ssa.Instruction) *Term {
	return mk("site", fmt.Sprint(m.p.instrID(instr)), nil, instr, m.ctx)
}

// Params makes the terms of the parameters of an entry point.
func (m *Machine) Params(fn *ssa.Function) []*Term {
	var l []*Term
	for i, p := range fn.Params {
		l = append(l, mk("param", fmt.Sprintf("%d:%s", i, paramName(fn, i)), p.Type(), nil))
	}
	return l
}

// paramName is the name of a parameter in terms: it depends on its type only,
// so that terms of different entry points agree.
func paramName(fn *ssa.Function, i int) string {
	t := fn.Params[i].Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return strings.ToLower(n.Obj().Name())
	}
	return fn.Params[i].Name()
}

// ---- running a function

func (m *Machine) exec(fn *ssa.Function, args []*Term, free []*Term, st0 *State) []Outcome {
	if fn.Blocks == nil {
		m.undecide("function %s has no body", fn)
		return nil
	}
	m.funcs[fn]++
	st := st0.clone()
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		st.env[f] = free[i]
	}
	m.stack = append(m.stack, fn)
	fi := m.p.info(fn)
	r := &region{m: m, fn: fn, fi: fi}
	r.run(fn.Blocks[0], nil, []inState{{nil, st}}, nil)
	m.stack = m.stack[:len(m.stack)-1]
	out := r.outs
	for i := range out {
		out[i].st.env = nil
		out[i].st.defers = nil
	}
	return m.dedupOutcomes(out)
}

// dedupOutcomes merges the outcomes of a function.
func (m *Machine) dedupOutcomes(in []Outcome) []Outcome {
	if len(in) < 2 {
		return in
	}
	var ms []*mergeItem
	for _, o := range in {
		ms = append(ms, &mergeItem{st: o.st, res: o.res, panics: o.panics})
	}
	ms = m.merge(ms, "results")
	var out []Outcome
	for _, x := range ms {
		out = append(out, Outcome{st: x.st, res: x.res, panics: x.panics})
	}
	return out
}

type inState struct {
	pred *ssa.BasicBlock
	st   *State
}

type region struct {
	m    *Machine
	fn   *ssa.Function
	fi   *funcInfo
	outs []Outcome
}

// run interprets the blocks of a scope (a function, or the body of a loop with
// header `entry`) from its entry. It returns the states that leave the scope:
// back edges to the header, and exits to blocks outside.
func (r *region) run(entry *ssa.BasicBlock, loop *loopT, in []inState, li *LoopInfo) (back []inState, exits map[*ssa.BasicBlock][]inState) {
	m := r.m
	exits = map[*ssa.BasicBlock][]inState{}
	pend := map[*ssa.BasicBlock][]inState{}
	inScope := func(b *ssa.BasicBlock) bool { return loop == nil || loop.blocks[b] }
	deliver := func(to *ssa.BasicBlock, s inState) {
		switch {
		case loop != nil && to == loop.head:
			back = append(back, s)
		case inScope(to):
			pend[to] = append(pend[to], s)
		default:
			exits[to] = append(exits[to], s)
		}
	}
	first := true
	for _, b := range r.fi.rpo {
		if !inScope(b) {
			continue
		}
		var ins []inState
		if b == entry && first {
			ins = in
			first = false
		} else {
			ins = pend[b]
			delete(pend, b)
		}
		if len(ins) == 0 {
			continue
		}
		ins = r.enter(b, ins)
		if inner := r.fi.loopOf[b]; inner != nil && inner.head == b && inner != loop {
			for _, s := range ins {
				for to, l := range r.runLoop(inner, s) {
					for _, x := range l {
						deliver(to, x)
					}
				}
			}
			continue
		}
		for _, s := range ins {
			r.blockFrom(b, s.st, deliver)
		}
	}
	for b, l := range pend {
		if len(l) > 0 {
			m.undecide("irreducible control flow in %s at block %d", r.fn, b.Index)
		}
	}
	return back, exits
}

// enter evaluates the phis of a block, forgets dead values and merges states.
func (r *region) enter(b *ssa.BasicBlock, ins []inState) []inState {
	live := r.fi.live[b]
	var ms []*mergeItem
	for _, s := range ins {
		r.phis(b, s)
		for v := range s.st.env {
			if live[v] {
				continue
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
				continue
			}
			if p, ok := v.(*ssa.Parameter); ok && isPointer(p.Type()) {
				// Checks ask for what it points to when the function returns.
				continue
			}
			delete(s.st.env, v)
		}
		ms = append(ms, &mergeItem{st: s.st})
	}
	ms = r.m.merge(ms, b.Parent().Name())
	out := make([]inState, len(ms))
	for i, x := range ms {
		out[i] = inState{nil, x.st}
	}
	return out
}

// dedupBack removes duplicates among states on back edges.
func (m *Machine) dedupBack(ins []inState) []inState {
	by := map[*ssa.BasicBlock][]*mergeItem{}
	var order []*ssa.BasicBlock
	for _, s := range ins {
		if by[s.pred] == nil {
			order = append(order, s.pred)
		}
		by[s.pred] = append(by[s.pred], &mergeItem{st: s.st})
	}
	var out []inState
	for _, p := range order {
		for _, x := range m.merge(by[p], "loop") {
			out = append(out, inState{p, x.st})
		}
	}
	return out
}

func (r *region) phis(b *ssa.BasicBlock, s inState) {
	if s.pred == nil {
		return
	}
	vals := map[*ssa.Phi]*Term{}
	idx := -1
	for i, p := range b.Preds {
		if p == s.pred {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = r.m.val(s.st, phi.Edges[idx])
	}
	for p, v := range vals {
		s.st.env[p] = v
	}
}

// blockFrom interprets a block whose phis are set already.
func (r *region) blockFrom(b *ssa.BasicBlock, st *State, deliver func(*ssa.BasicBlock, inState)) {
	m := r.m
	cur := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range cur {
				c := m.val(s, x.Cond)
				if m.h.Branch != nil {
					m.h.Branch(m, s, c, x)
				}
				if v, ok := s.decide(c); ok {
					to := b.Succs[1]
					if v {
						to = b.Succs[0]
					}
					deliver(to, inState{b, s})
					continue
				}
				t := s.clone()
				if t.learn(c, true) {
					m.before(t, b, 0, c)
					t.note(m.p.pos(condPos(x)) + ": " + c.String())
					deliver(b.Succs[0], inState{b, t})
				}
				if s.learn(c, false) {
					m.before(s, b, 1, c)
					s.note(m.p.pos(condPos(x)) + ": " + tNot(c).String())
					deliver(b.Succs[1], inState{b, s})
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				deliver(b.Succs[0], inState{b, s})
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				res := make([]*Term, len(x.Results))
				for i, v := range x.Results {
					res[i] = m.val(s, v)
				}
				s.note(m.p.pos(x.Pos()) + ": return")
				if m.h.Return != nil {
					m.h.Return(m, s, r.fn, res)
				}
				r.outs = append(r.outs, Outcome{st: s, res: res})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				v := m.val(s, x.X)
				if m.h.Panic != nil {
					m.h.Panic(m, s, x, "explicit panic", v)
				}
				for _, d := range m.runDefers(s) {
					r.outs = append(r.outs, Outcome{st: d, panics: true})
				}
			}
			return
		}
		var next []*State
		for _, s := range cur {
			m.steps++
			res, pan := m.step(s, in)
			for _, ps := range pan {
				for _, d := range m.runDefers(ps) {
					r.outs = append(r.outs, Outcome{st: d, panics: true})
				}
			}
			next = append(next, res...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
	}
}

// before learns that the counter of a scan is below the length of what it
// scans, when the scan goes on because the two are not equal.
func (m *Machine) before(st *State, b *ssa.BasicBlock, succ int, c *Term) {
	if len(m.loops) == 0 {
		return
	}
	li := m.loops[len(m.loops)-1]
	if li.exit != b || li.coll == nil || li.mapIt || !li.blocks[b.Succs[succ]] || li.coll.hasCtx(li.ctx) {
		return
	}
	if n := tLen(li.coll); c == tEq(li.elem, n) || c == tNot(tEq(li.elem, n)) {
		st.learn(tLt(li.elem, n), true)
	}
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	for _, in := range x.Block().Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// ---- loops

const maxUnroll = 24

// tripCount recognises counting loops with constant bounds.
func (r *region) tripCount(l *loopT, s inState) (int, bool) {
	m := r.m
	st := s.st.clone()
	r.phis(l.head, inState{s.pred, st})
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	bin, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	// one side depends on an induction phi, the other is constant here
	ind := func(v ssa.Value) (phi *ssa.Phi, off int64, ok bool) {
		if b, isb := v.(*ssa.BinOp); isb && b.Block() == l.head && (b.Op == token.ADD || b.Op == token.SUB) {
			if p, isp := b.X.(*ssa.Phi); isp && p.Block() == l.head {
				if c, isc := b.Y.(*ssa.Const); isc && c.Value != nil && c.Value.Kind() == constant.Int {
					n, _ := constant.Int64Val(c.Value)
					if b.Op == token.SUB {
						n = -n
					}
					return p, n, true
				}
			}
		}
		if p, isp := v.(*ssa.Phi); isp && p.Block() == l.head {
			return p, 0, true
		}
		return nil, 0, false
	}
	step := func(p *ssa.Phi) (int64, bool) {
		var res int64
		have := false
		for i, e := range p.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != p || (b.Op != token.ADD && b.Op != token.SUB) {
				return 0, false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0, false
			}
			n, _ := constant.Int64Val(c.Value)
			if b.Op == token.SUB {
				n = -n
			}
			if have && n != res {
				return 0, false
			}
			res, have = n, true
		}
		return res, have
	}
	var base *Term // what both ends of the range are relative to
	relative := func(t *Term) (int64, bool) {
		if n, ok := t.intVal(); ok {
			return n, base == nil
		}
		b, k := t, int64(0)
		for b.op == "bin+" || b.op == "bin-" {
			n, ok := b.args[1].intVal()
			if !ok {
				break
			}
			if b.op == "bin-" {
				n = -n
			}
			b, k = b.args[0], k+n
		}
		if base != nil && base != b || !isInteger(t.typ) {
			return 0, false
		}
		base = b
		return k, true
	}
	var eval func(v ssa.Value) (int64, bool)
	eval = func(v ssa.Value) (int64, bool) {
		// must be defined outside the loop, or be a length of such a value
		if b, ok := v.(*ssa.BinOp); ok && l.blocks[b.Block()] && (b.Op == token.ADD || b.Op == token.SUB) {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				if b.Op == token.SUB {
					n = -n
				}
				if x, ok := eval(b.X); ok {
					return x + n, true
				}
			}
			return 0, false
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			if call, ok := v.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					x := call.Call.Args[0]
					if xi, ok := x.(ssa.Instruction); ok && l.blocks[xi.Block()] {
						return 0, false
					}
					t := m.lenOf(st, m.val(st, x))
					return t.intVal()
				}
			}
			return 0, false
		}
		t := m.val(st, v)
		if c := st.constOf(t); c != nil {
			t = c
		}
		return relative(t)
	}
	phi, off, ok := ind(bin.X)
	bv := bin.Y
	op := bin.Op
	if !ok {
		phi, off, ok = ind(bin.Y)
		bv = bin.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !ok {
		return 0, false
	}
	bound, ok := eval(bv)
	if !ok {
		return 0, false
	}
	nobase := base == nil
	start, ok := relative(m.val(st, phi))
	if !ok || nobase && base != nil {
		return 0, false
	}
	sp, ok := step(phi)
	if !ok {
		return 0, false
	}
	inTrue := l.blocks[l.head.Succs[0]]
	n := 0
	for i := start; n <= maxUnroll; i += sp {
		v := i + off
		var c bool
		switch op {
		case token.LSS:
			c = v < bound
		case token.LEQ:
			c = v <= bound
		case token.GTR:
			c = v > bound
		case token.GEQ:
			c = v >= bound
		case token.NEQ:
			c = v != bound
		case token.EQL:
			c = v == bound
		default:
			return 0, false
		}
		if c != inTrue {
			return n, true
		}
		n++
	}
	return 0, false
}

func reversed(l []*Term) []*Term {
	var o []*Term
	for i := len(l) - 1; i >= 0; i-- {
		o = append(o, l[i])
	}
	return o
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tableRange recognises a loop over a map of which all the entries are known.
func (r *region) tableRange(l *loopT, s inState) (mp *Term, keys []*Term, ok bool) {
	for _, in := range l.head.Instrs {
		n, is := in.(*ssa.Next)
		if !is || n.IsString {
			continue
		}
		it := r.m.val(s.st, n.Iter)
		if it.op != "iter" || it.args[0].typ == nil || !isMap(it.args[0].typ) {
			return nil, nil, false
		}
		keys = s.st.tableOf(it.args[0], nil)
		return it.args[0], keys, len(keys) > 0
	}
	return nil, nil, false
}

func (r *region) runLoop(l *loopT, s inState) map[*ssa.BasicBlock][]inState {
	m := r.m
	exits := map[*ssa.BasicBlock][]inState{}
	add := func(ex map[*ssa.BasicBlock][]inState) {
		for b, x := range ex {
			exits[b] = append(exits[b], x...)
		}
	}
	saved := m.ctx
	defer func() { m.ctx = saved }()
	hid := fmt.Sprint(m.p.blockID(l.head))
	if mp, keys, ok := r.tableRange(l, s); ok {
		// The order of the entries is arbitrary: every two of them are seen in
		// either order.
		for d := 0; d == 0 || d == 1 && len(keys) > 1; d++ {
			cur := []inState{{s.pred, s.st.clone()}}
			for i := 0; i <= len(keys) && len(cur) > 0; i++ {
				m.ctx = mk("ctxiter", fmt.Sprint(hid, ":", d, ":", i), nil, nil, saved)
				li := &LoopInfo{fn: r.fn, head: l.head, blocks: l.blocks, ctx: m.ctx, iter: true, iterN: i, keys: keys}
				m.loops = append(m.loops, li)
				back, ex := r.runBody(l, li, cur, nil)
				m.loops = m.loops[:len(m.loops)-1]
				add(ex)
				cur = m.dedupBack(back)
				for _, x := range cur {
					if !sameTerms(x.st.tableOf(mp, nil), keys) && !sameTerms(reversed(x.st.tableOf(mp, nil)), keys) {
						m.undecide("loop in %s changes the map it ranges over", r.fn)
					}
				}
			}
			keys = reversed(keys)
		}
		return exits
	}
	if n, ok := r.tripCount(l, s); ok {
		cur := []inState{s}
		for i := 0; i <= n && len(cur) > 0; i++ {
			m.ctx = mk("ctxiter", hid+":"+fmt.Sprint(i), nil, nil, saved)
			li := &LoopInfo{fn: r.fn, head: l.head, blocks: l.blocks, ctx: m.ctx, iter: true, iterN: i}
			m.loops = append(m.loops, li)
			back, ex := r.runBody(l, li, cur, nil)
			m.loops = m.loops[:len(m.loops)-1]
			add(ex)
			cur = m.dedupBack(back)
		}
		if len(cur) > 0 {
			m.undecide("loop in %s did not end after %d iterations", r.fn, n)
		}
		return exits
	}
	L := mk("loop", hid, nil, nil, saved)
	oldL := mk("oldloop", hid, nil, nil, saved)
	accL := mk("accloop", hid, nil, nil, saved)
	li := &LoopInfo{fn: r.fn, head: l.head, blocks: l.blocks, ctx: L}
	m.ctx = L
	m.loops = append(m.loops, li)
	defer func() { m.loops = m.loops[:len(m.loops)-1] }()

	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	// entry head state
	h0 := s.st.clone()
	r.phis(l.head, inState{s.pred, h0})
	lvOf := func(p *ssa.Phi, start *Term) *Term {
		inf := lvInfo{}
		if sv, ok := start.intVal(); ok && monotone(p, l) {
			inf.hasLo, inf.lo = true, sv
		}
		sfx := ""
		if inf.hasLo {
			sfx = fmt.Sprintf(">=%d", inf.lo)
		}
		if isInteger(p.Type()) && !isUnsigned(p.Type()) && steady(p, l, -1) && !steady(p, l, 1) {
			// what is only counted down is at most what it was before the loop
			return mk("lv", fmt.Sprint(m.p.instrID(p))+"<=", p.Type(), inf, L, start)
		}
		return mk("lv", fmt.Sprint(m.p.instrID(p))+sfx, p.Type(), inf, L)
	}
	// what is only ever counted up, in some iterations, is still zero or not
	positive := func(p *ssa.Phi, start *Term) *Term {
		sv, _ := start.intVal()
		return mk("lv", fmt.Sprint(m.p.instrID(p))+fmt.Sprintf(">=%d", sv+1), p.Type(), lvInfo{hasLo: true, lo: sv + 1}, L)
	}
	counts := map[*ssa.Phi]bool{}
	changes := map[*ssa.Phi]bool{}
	start := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		for i, e := range p.Edges {
			if l.blocks[l.head.Preds[i]] && e != p {
				changes[p] = true
			}
		}
		start[p] = h0.env[p]
		if _, ok := start[p].intVal(); ok && isInteger(p.Type()) && monotone(p, l) && counter(p, l) {
			counts[p] = true
			continue
		}
		if changes[p] && isNumeric(p.Type()) {
			h0.env[p] = lvOf(p, start[p])
		}
	}
	r.scanInfo(l, li, h0, start)

	heads := map[string]*State{}
	var order []string
	coarse := false
	keyOf := func(h *State) string {
		k := h.ctlSig()
		if coarse {
			return k
		}
		for _, p := range phis {
			t := h.env[p]
			if isNumeric(p.Type()) && !counts[p] || isSlice(p.Type()) || isString(p.Type()) && !t.isConst() && t.op == "star" {
				continue
			}
			k += fmt.Sprintf(",p%d", t.id)
		}
		// cells with boolean and pointer values written in the loop
		var l []string
		for a, v := range h.heap {
			if v == tTrue || v == tFalse {
				if a.hasCtx(oldL) || a.hasCtx(accL) {
					continue
				}
				if h0.heap[a] != v {
					l = append(l, fmt.Sprintf("h%d=%d", a.id, v.id))
				}
			}
		}
		sort.Strings(l)
		return k + strings.Join(l, ",")
	}
	k0 := keyOf(h0)
	heads[k0] = h0
	order = append(order, k0)
	queue := []string{k0}
	m.quiet++
	rounds := 0
	for len(queue) > 0 {
		rounds++
		if rounds > 400 {
			m.undecide("no fixpoint for a loop in %s", r.fn)
			break
		}
		k := queue[0]
		queue = queue[1:]
		h := heads[k]
		if h == nil {
			continue
		}
		nout := len(r.outs)
		back, _ := r.runBody(l, li, nil, h.clone())
		r.outs = r.outs[:nout]
		for _, bs := range m.dedupBack(back) {
			nh := r.advance(l, li, h, bs, phis, start, func(p *ssa.Phi, s *Term) *Term {
				if counts[p] {
					return positive(p, s)
				}
				return lvOf(p, s)
			}, oldL, accL)
			nk := keyOf(nh)
			cur := heads[nk]
			if cur == nil {
				if len(heads) >= 64 && !coarse {
					// give up the distinction by value
					coarse = true
					nk = keyOf(nh)
					old := heads
					heads = map[string]*State{}
					queue = nil
					for _, hh := range old {
						kk := keyOf(hh)
						if heads[kk] == nil {
							heads[kk] = hh
							queue = append(queue, kk)
						} else {
							j, _ := m.join(heads[kk], hh, phis, L)
							heads[kk] = j
						}
					}
					if heads[nk] == nil {
						heads[nk] = nh
						queue = append(queue, nk)
					} else {
						j, _ := m.join(heads[nk], nh, phis, L)
						heads[nk] = j
					}
					sort.Strings(queue)
					break
				}
				heads[nk] = nh
				order = append(order, nk)
				queue = append(queue, nk)
				continue
			}
			j, ch := m.join(cur, nh, phis, L)
			if ch {
				heads[nk] = j
				inq := false
				for _, q := range queue {
					if q == nk {
						inq = true
					}
				}
				if !inq {
					queue = append(queue, nk)
				}
			}
		}
	}
	m.quiet--
	// final pass over the stable head states
	var keys []string
	for k := range heads {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	powers := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		if t := r.powerOfTen(p, l, h0, start[p]); t != nil {
			powers[p] = t
		}
	}
	for _, k := range keys {
		_, ex := r.runBody(l, li, nil, heads[k].clone())
		if len(powers) > 0 {
			for _, ins := range ex {
				for _, x := range ins {
					for p, t := range powers {
						x.st.env[p] = t
					}
				}
			}
		}
		add(ex)
	}
	return exits
}

// powerOfTen is the final value of a variable that starts with one and is
// multiplied by ten in each of a known number of turns.
func (r *region) powerOfTen(p *ssa.Phi, l *loopT, h *State, start *Term) *Term {
	if k, ok := start.intVal(); !ok || k != 1 {
		return nil
	}
	for i, e := range p.Edges {
		if !l.blocks[l.head.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.MUL {
			return nil
		}
		x, y := b.X, b.Y
		if x != ssa.Value(p) {
			x, y = y, x
		}
		if c, ok := y.(*ssa.Const); !ok || x != ssa.Value(p) || c.Value == nil || constant.Compare(c.Value, token.NEQ, constant.MakeInt64(10)) {
			return nil
		}
	}
	n := turns(&LoopInfo{head: l.head, blocks: l.blocks})
	if n == nil {
		return nil
	}
	if in, ok := n.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return nil
	}
	bits, _, ok := sizeOf(p.Type())
	if !ok {
		return nil
	}
	most := int64(18)
	if bits == 32 {
		most = 9
	} else if bits < 32 {
		most = 2
	}
	t := r.m.val(h, n)
	for _, d := range h.eqClass(t) {
		if lo, hi, a, b := h.bounds(d); a && b && lo >= 0 && hi <= most {
			return mk("conv", "", p.Type(), nil, mk("call", "math.Pow10", types.Typ[types.Float64], nil, t))
		}
	}
	return nil
}

// splitFlags tells apart, at the end of an iteration, the outcomes of conditions
// that were assigned to flags.
func (r *region) splitFlags(l *loopT, h *State, back []inState) []inState {
	var out []inState
	for _, bs := range back {
		idx := -1
		for i, p := range l.head.Preds {
			if p == bs.pred {
				idx = i
			}
		}
		var conds []*Term
		if idx >= 0 {
			for _, in := range l.head.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isBool(p.Type()) {
					continue
				}
				if v := r.m.val(bs.st, p.Edges[idx]); v != nil && !v.isConst() && v != h.env[p] {
					conds = append(conds, v)
				}
			}
		}
		var cells []*Term
		for a, v := range bs.st.heap {
			if v != nil && isBool(v.typ) && !v.isConst() && h.heap[a] != v && a.op == "fld" {
				cells = append(cells, a)
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		for _, a := range cells {
			conds = append(conds, bs.st.heap[a])
		}
		if len(conds) > 4 {
			conds = conds[:4]
		}
		states := []*State{bs.st}
		for _, v := range conds {
			var next []*State
			for _, st := range states {
				if _, ok := st.decide(v); ok {
					next = append(next, st)
					continue
				}
				t := st.clone()
				if t.learn(v, true) {
					next = append(next, t)
				}
				if st.learn(v, false) {
					next = append(next, st)
				}
			}
			states = next
		}
		for _, st := range states {
			for _, a := range cells {
				if b, ok := st.decide(st.heap[a]); ok {
					st.heap[a] = tFalse
					if b {
						st.heap[a] = tTrue
					}
				}
			}
			n := bs
			n.st = st
			out = append(out, n)
		}
	}
	return out
}

// monotone tells whether a phi only grows: every back edge adds a constant ≥ 0.
func monotone(p *ssa.Phi, l *loopT) bool { return steady(p, l, 1) }

func steady(p *ssa.Phi, l *loopT, way int) bool {
	var grows func(v ssa.Value, d int) bool
	grows = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x == p {
				return true
			}
			for _, e := range x.Edges {
				if !grows(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if x.Op != token.ADD && x.Op != token.SUB {
				return false
			}
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return false
			}
			step := constant.Sign(c.Value) * way
			if x.Op == token.SUB {
				step = -step
			}
			return step >= 0 && grows(x.X, d+1)
		}
		return false
	}
	for i, e := range p.Edges {
		if l.blocks[l.head.Preds[i]] && !grows(e, 0) {
			return false
		}
	}
	return true
}

// counter tells whether a phi keeps its value in some iterations, grows in the
// others, and does not control the loop.
func counter(p *ssa.Phi, l *loopT) bool {
	same, zero := false, false
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == p {
			same = true
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.BinOp:
			if c, ok := x.Y.(*ssa.Const); ok && constant.Sign(c.Value) == 0 {
				zero = true
			}
		}
	}
	for i, e := range p.Edges {
		if l.blocks[l.head.Preds[i]] {
			visit(e)
		}
	}
	if !same || zero {
		return false
	}
	for _, u := range *p.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if ok && b.Op != token.ADD && l.blocks[b.Block()] {
			return false
		}
	}
	return true
}

// runBody runs one iteration: from given in-states, or from a head state.
func (r *region) runBody(l *loopT, li *LoopInfo, in []inState, head *State) ([]inState, map[*ssa.BasicBlock][]inState) {
	m := r.m
	var h *State
	if head != nil {
		in = []inState{{nil, head}} // pred nil: phis are set already
		h = head.clone()
		li.vars = map[*ssa.Phi]*Term{}
		for _, i := range l.head.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				li.vars[p] = h.env[p]
			}
		}
	}
	back, ex := r.run(l.head, l, in, li)
	if h != nil {
		back = r.splitFlags(l, h, back)
	}
	for _, b := range back {
		if m.h.BackEdge != nil {
			li.back = b.pred
			m.h.BackEdge(m, b.st, li)
		}
	}
	for to, list := range ex {
		for _, x := range list {
			if x.pred == li.exit && m.h.LoopExit != nil {
				m.h.LoopExit(m, x.st, li)
			}
		}
		_ = to
	}
	return back, ex
}

// scanInfo recognises loops that visit every element of a slice.
func (r *region) scanInfo(l *loopT, li *LoopInfo, h *State, start map[*ssa.Phi]*Term) {
	m := r.m
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	li.exit = l.head
	// map ranges
	if e, ok := iff.Cond.(*ssa.Extract); ok {
		if n, ok := e.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok && !n.IsString {
				_ = rg
				if it := m.val(h, n.Iter); it.op == "iter" {
					li.coll = it.args[0]
				}
				li.mapIt = true
			}
		}
		return
	}
	st := h.clone()
	m.quiet++
	defer func() { m.quiet-- }()
	for blk, n := l.head, 0; n < 4; n++ {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[blk.Succs[0]] == l.blocks[blk.Succs[1]] {
			return
		}
		for _, in := range blk.Instrs {
			if in == ssa.Instruction(iff) {
				break
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			res, _ := m.step(st, in)
			if len(res) != 1 {
				return
			}
			st = res[0]
		}
		if r.scanCond(l, li, blk, iff, st, start) {
			li.exit = blk
			return
		}
		// another condition of the loop may come first
		next := blk.Succs[0]
		if !l.blocks[next] {
			next = blk.Succs[1]
		}
		if len(next.Preds) != 1 {
			return
		}
		blk = next
	}
}

// scanCond recognises the condition that ends a scan when every element was visited.
func (r *region) scanCond(l *loopT, li *LoopInfo, blk *ssa.BasicBlock, iff *ssa.If, st *State, start map[*ssa.Phi]*Term) bool {
	m := r.m
	bin, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	inTrue := l.blocks[blk.Succs[0]]
	a, b, op := bin.X, bin.Y, bin.Op
	if op == token.GTR {
		a, b, op = b, a, token.LSS
	}
	if op == token.GEQ && inTrue {
		// i >= 0, counting down from len-1
		p, ok := a.(*ssa.Phi)
		if !ok || p.Block() != l.head {
			return false
		}
		if m.val(st, b) != tZero {
			return false
		}
		s0 := start[p]
		if s0 == nil || s0.op != "bin-" && s0.op != "bin+" {
			return false
		}
		if s0.args[0].op == "len" {
			k, _ := s0.args[1].intVal()
			if (s0.op == "bin-" && k == 1) || (s0.op == "bin+" && k == -1) {
				if stepIs(p, l, -1) {
					li.coll, li.elem = s0.args[0].args[0], st.env[p]
					return true
				}
			}
		}
		return false
	}
	if op != token.LSS && op != token.NEQ || !inTrue {
		return false
	}
	iv := m.val(st, a)
	bv := m.val(st, b)
	if bv.op != "len" {
		return false
	}
	var phi *ssa.Phi
	first := int64(0)
	switch x := a.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				phi = p
				first, _ = constant.Int64Val(c.Value)
			}
		}
	}
	if phi == nil || phi.Block() != l.head {
		return false
	}
	s0, ok := start[phi].intVal()
	if !ok || s0+first != 0 {
		return false
	}
	if !stepIs(phi, l, 1) {
		return false
	}
	li.coll, li.elem = bv.args[0], iv
	return true
}

func stepIs(p *ssa.Phi, l *loopT, n int64) bool {
	for i, e := range p.Edges {
		if !l.blocks[l.head.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		k, _ := constant.Int64Val(c.Value)
		if b.Op == token.SUB {
			k = -k
		} else if b.Op != token.ADD {
			return false
		}
		if k != n {
			return false
		}
	}
	return true
}

func accumulates(typ types.Type) bool { return isSlice(typ) || isString(typ) }

// advance turns a state on a back edge into a state at the loop head: what it
// knows of the current iteration becomes knowledge of an earlier one.
func (r *region) advance(l *loopT, li *LoopInfo, h *State, bs inState, phis []*ssa.Phi, start map[*ssa.Phi]*Term, lvOf func(*ssa.Phi, *Term) *Term, oldL, accL *Term) *State {
	m := r.m
	L := li.ctx
	st := bs.st.clone()
	r.phis(l.head, bs2(bs, st))
	// values defined inside the loop die, except the phis
	for v := range st.env {
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
				continue
			}
			delete(st.env, v)
		}
	}
	flag := false
	scalarRef, accRef, hadAcc, hasOld := false, false, false, false
	for _, p := range phis {
		if v := st.env[p]; v != nil && isBool(p.Type()) && !v.isConst() {
			if b, ok := st.decide(v); ok {
				st.env[p] = tFalse
				if b {
					st.env[p] = tTrue
				}
			}
		}
	}
	look := func(v *Term, typ types.Type) {
		if v == nil {
			return
		}
		if v.hasCtx(L) {
			if v.op == "star" || v.op == "append" || (typ != nil && accumulates(typ) && (v.op == "concat" || v.op == "appends")) {
				accRef = true
			} else {
				scalarRef = true
			}
		}
		if v.hasCtx(accL) {
			hadAcc = true
		}
		if v.hasCtx(oldL) {
			hasOld = true
		}
	}
	for _, p := range phis {
		v := st.env[p]
		if isNumeric(p.Type()) {
			if start[p] != nil && v != start[p] {
				st.env[p] = lvOf(p, start[p])
			}
			continue
		}
		if v != h.env[p] && (v.isConst() || h.env[p].isConst()) && !accumulates(p.Type()) {
			flag = true
		}
		if accumulates(p.Type()) && v != h.env[p] && growsFrom(v, h.env[p]) {
			v = starOf(p.Type(), v)
			st.env[p] = v
		}
		look(v, p.Type())
	}
	for t, v := range st.tags {
		if h.tags[t] != v {
			flag = true
		}
		look(v, nil)
	}
	for a, v := range st.heap {
		if a.hasCtx(L) {
			continue
		}
		if hv, ok := h.heap[a]; (!ok || hv != v) && (v == tTrue || v == tFalse) {
			flag = true
		}
		at := elemType(a.typ)
		if hv, ok := h.heap[a]; ok && hv != v && at != nil && accumulates(at) && growsFrom(v, hv) {
			v = starOf(at, v)
			st.heap[a] = v
		}
		look(v, at)
	}
	for lk := range st.locks {
		look(lk, nil)
	}
	if flag {
		scalarRef = true
	}
	memoO, memoA := map[*Term]*Term{}, map[*Term]*Term{}
	toOld := func(t *Term) *Term { return subst(t, L, oldL, memoO) }
	toAcc := func(t *Term) *Term { return subst(t, L, accL, memoA) }
	ren := func(v *Term, typ types.Type) *Term {
		if v == nil || !v.hasCtx(L) {
			return v
		}
		if v.op == "star" || v.op == "append" || (typ != nil && accumulates(typ) && (v.op == "concat" || v.op == "appends")) {
			return toAcc(v)
		}
		return toOld(v)
	}
	for _, p := range phis {
		if !isNumeric(p.Type()) {
			st.env[p] = ren(st.env[p], p.Type())
		}
	}
	ep := func(k string) *Term { return mk("ej", k, nil, nil, oldL.args[0], mk("h", L.s, nil, nil)) }
	// facts
	nf := map[*Term]bool{}
	for t, v := range st.facts {
		if t.hasCtx(L) {
			continue
		}
		if t.hasCtx(oldL) && scalarRef && !hasOld {
			continue
		}
		nf[t] = v
	}
	if scalarRef {
		repl := map[*Term]bool{}
		for t, v := range st.facts {
			if t.hasCtx(L) {
				repl[toOld(t)] = v
			}
		}
		if hasOld {
			for t, v := range nf {
				if t.hasCtx(oldL) {
					if w, ok := repl[t]; !ok || w != v {
						delete(nf, t)
					}
				}
			}
		} else {
			for t, v := range repl {
				if t.op != "const" {
					nf[t] = v
				}
			}
		}
	}
	if accRef {
		repl := map[*Term]bool{}
		for t, v := range st.facts {
			if t.hasCtx(L) {
				repl[toAcc(t)] = v
			}
		}
		if hadAcc {
			for t, v := range nf {
				if t.hasCtx(accL) {
					if w, ok := repl[t]; !ok || w != v {
						delete(nf, t)
					}
				}
			}
		} else {
			for t, v := range repl {
				if t.op != "const" {
					nf[t] = v
				}
			}
		}
	}
	st.facts = nf
	st.eqc = map[*Term]*Term{}
	for t, v := range nf {
		if v && t.op == "eq" && t.args[1].isConst() {
			st.eqc[t.args[0]] = t.args[1]
		}
	}
	// heap
	nh := map[*Term]*Term{}
	var movO, movA = map[*Term]*Term{}, map[*Term]*Term{}
	for a, v := range st.heap {
		at := elemType(a.typ)
		if !a.hasCtx(L) {
			nh[a] = ren(v, at)
			continue
		}
		if scalarRef {
			movO[toOld(a)] = toOld(v)
		}
		if accRef {
			movA[toAcc(a)] = toAcc(v)
		}
	}
	place := func(mov map[*Term]*Term, c *Term, had bool) {
		if had {
			for a, v := range nh {
				if a.hasCtx(c) {
					if w, ok := mov[a]; !ok || w != v {
						at := elemType(a.typ)
						nh[a] = mk("lvh", fmt.Sprint(a.id), at, nil, oldL.args[0], mk("h", L.s, nil, nil))
					}
				}
			}
			return
		}
		for a := range nh {
			if a.hasCtx(c) {
				delete(nh, a)
			}
		}
		for a, v := range mov {
			nh[a] = v
		}
	}
	if scalarRef {
		place(movO, oldL, hasOld)
	}
	if accRef {
		place(movA, accL, hadAcc)
	}
	st.heap = nh
	for k, e := range st.epoch {
		if e != nil && (e.hasCtx(L) || e.hasCtx(oldL) || e.hasCtx(accL)) {
			st.epoch[k] = ep(k)
		}
	}
	nd := map[*Term]*Term{}
	for o, d := range st.dirty {
		nv := d
		if d.hasCtx(L) {
			if d.op == "decoded" {
				nv = toOld(d)
			} else {
				nv = ep(fmt.Sprint("d", o.id))
			}
		}
		if o.hasCtx(L) {
			if scalarRef {
				nd[toOld(o)] = nv
			}
			if accRef {
				x := d
				if d.op == "decoded" {
					x = toAcc(d)
				} else {
					x = nv
				}
				nd[toAcc(o)] = x
			}
			continue
		}
		nd[o] = nv
	}
	st.dirty = nd
	ne := map[*Term]bool{}
	for o := range st.escaped {
		if o.hasCtx(L) {
			if scalarRef {
				ne[toOld(o)] = true
			}
			if accRef {
				ne[toAcc(o)] = true
			}
			continue
		}
		ne[o] = true
	}
	st.escaped = ne
	for t, v := range st.tags {
		st.tags[t] = toOld(v)
	}
	nl := map[*Term]string{}
	for k, v := range st.locks {
		nl[toOld(k)] = v
	}
	st.locks = nl
	_ = m
	return st
}

func bs2(b inState, st *State) inState { return inState{b.pred, st} }

func growsFrom(v, from *Term) bool {
	if v == from {
		return false
	}
	if v.op == "star" || v.op == "append" || v.op == "concat" || v.op == "appends" {
		if from.op == "nil" || from == tEmpty {
			return true
		}
		if from.op == "star" {
			return true
		}
		return v.contains(from)
	}
	return false
}

// join merges two head states with equal keys.
func (m *Machine) join(a, b *State, phis []*ssa.Phi, L *Term) (*State, bool) {
	changed := false
	j := a.clone()
	par := L.args[0]
	h := mk("h", L.s, nil, nil)
	for _, p := range phis {
		x, y := a.env[p], b.env[p]
		if x == y {
			continue
		}
		var n *Term
		if accumulates(p.Type()) {
			n = starOf(p.Type(), x, y)
			if growsPlain(x) || growsPlain(y) || x.op == "star" || y.op == "star" || x.op == "append" || y.op == "append" {
			} else {
				n = mk("lv", fmt.Sprint(m.p.instrID(p)), p.Type(), lvInfo{}, L)
			}
		} else {
			n = mk("lv", fmt.Sprint(m.p.instrID(p)), p.Type(), lvInfo{}, L)
		}
		if n != x {
			j.env[p] = n
			changed = true
		}
	}
	// what holds of every item collected so far holds of none, too
	accL := mk("accloop", L.s, nil, nil, par)
	noA, noB := !collected(a, phis, accL), !collected(b, phis, accL)
	for t, v := range a.facts {
		if w, ok := b.facts[t]; !ok || w != v {
			if !ok && noB && t.hasCtx(accL) {
				continue
			}
			delete(j.facts, t)
			delete(j.eqc, firstArg(t))
			changed = true
		}
	}
	if noA {
		for t, v := range b.facts {
			if _, ok := a.facts[t]; !ok && t.hasCtx(accL) {
				j.facts[t] = v
				if v && t.op == "eq" && t.args[1].isConst() {
					j.eqc[t.args[0]] = t.args[1]
				}
				changed = true
			}
		}
	}
	for x := range a.eqc {
		if b.eqc[x] != a.eqc[x] {
			delete(j.eqc, x)
		}
	}
	// cells
	keys := map[*Term]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		at := elemType(k.typ)
		x := a.heap[k]
		if x == nil && noA && k.hasCtx(accL) {
			j.heap[k] = b.heap[k]
			changed = true
			continue
		}
		if x != nil && noB && k.hasCtx(accL) && b.heap[k] == nil {
			continue
		}
		if x == nil {
			x = a.read(k, at)
		}
		y := b.heap[k]
		if y == nil {
			y = b.read(k, at)
		}
		if x == y {
			if _, ok := a.heap[k]; !ok {
				if isFresh(rootOf(k)) || x.op != "load" {
					j.heap[k] = x
				}
			}
			continue
		}
		var n *Term
		if at != nil && (accumulates(at)) && (x.op == "star" || y.op == "star" || x.op == "append" || y.op == "append" || x.op == "concat" || y.op == "concat") {
			n = starOf(at, x, y)
		} else if k.op == "cell" {
			n = starOf(at, x, y)
		} else {
			n = mk("lvh", fmt.Sprint(k.id), at, nil, par, h)
		}
		if n != x {
			j.heap[k] = n
			changed = true
		}
	}
	for k, e := range a.epoch {
		if b.epoch[k] != e {
			n := mk("ej", k, nil, nil, par, h)
			if n != e {
				j.epoch[k] = n
				changed = true
			}
		}
	}
	for k := range b.epoch {
		if _, ok := a.epoch[k]; !ok {
			j.epoch[k] = mk("ej", k, nil, nil, par, h)
			changed = true
		}
	}
	for o, d := range a.dirty {
		if b.dirty[o] != d {
			n := mk("ej", fmt.Sprint("d", o.id), nil, nil, par, h)
			if n != d {
				j.dirty[o] = n
				changed = true
			}
		}
	}
	for o := range b.dirty {
		if _, ok := a.dirty[o]; !ok {
			j.dirty[o] = mk("ej", fmt.Sprint("d", o.id), nil, nil, par, h)
			changed = true
		}
	}
	for o := range b.escaped {
		if !j.escaped[o] {
			j.escaped[o] = true
			changed = true
		}
	}
	return j, changed
}

// collected tells whether a state holds items collected by earlier iterations.
func collected(s *State, phis []*ssa.Phi, accL *Term) bool {
	for _, p := range phis {
		if v := s.env[p]; v != nil && v.hasCtx(accL) {
			return true
		}
	}
	for a, v := range s.heap {
		if !a.hasCtx(accL) && v != nil && v.hasCtx(accL) {
			return true
		}
	}
	return false
}

func growsPlain(t *Term) bool { return t.op == "concat" || t.op == "appends" }

func firstArg(t *Term) *Term {
	if len(t.args) > 0 {
		return t.args[0]
	}
	return nil
}
