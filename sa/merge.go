package main

import (
	"sort"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Merging of states. Two merges lose nothing: of equal states, and of states
// that differ only in the truth of one fact f (and in boolean cells that
// follow f). When there are too many states, states that differ in facts only
// are merged into one that keeps the facts common to all.

type mergeItem struct {
	st     *State
	res    []*Term
	panics bool
	base   hash2
	facts  hash2
	bools  hash2
}

type hash2 struct{ a, b uint64 }

func (h *hash2) xor(x hash2) { h.a ^= x.a; h.b ^= x.b }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func h3(kind, x, y uint64) hash2 {
	p := mix(kind*0x100000001b3 + mix(x) + 3*mix(y+77))
	return hash2{p, mix(p ^ mix(x+y*31+kind))}
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func valID(v ssa.Value) uint64 { return uint64((*[2]uintptr)(unsafe.Pointer(&v))[1]) }

func isBoolConst(t *Term) bool { return t == tTrue || t == tFalse }

func tid(t *Term) uint64 {
	if t == nil {
		return 0
	}
	return uint64(t.id)
}

func factHash(f *Term, v bool) hash2 {
	k := uint64(0)
	if v {
		k = 1
	}
	return h3(7, uint64(f.id), k)
}

func (x *mergeItem) hashes() {
	s := x.st
	var b, bo hash2
	put := func(kind, k uint64, t *Term) {
		if isBoolConst(t) {
			b.xor(h3(kind+100, k, 0))
			bo.xor(h3(kind, k, tid(t)))
			return
		}
		b.xor(h3(kind, k, tid(t)))
	}
	for v, t := range s.env {
		put(1, valID(v), t)
	}
	for a, t := range s.heap {
		put(2, tid(a), t)
	}
	for i, t := range x.res {
		put(3, uint64(i), t)
	}
	for k, t := range s.epoch {
		b.xor(h3(4, hstr(k), tid(t)))
	}
	for k, t := range s.dirty {
		b.xor(h3(5, tid(k), tid(t)))
	}
	for k := range s.escaped {
		b.xor(h3(6, tid(k), 0))
	}
	for k, t := range s.locks {
		b.xor(h3(8, tid(k), hstr(t)))
	}
	for k, t := range s.tags {
		b.xor(h3(9, hstr(k), tid(t)))
	}
	for i, d := range s.defers {
		b.xor(h3(10, uint64(i), uint64(uintptr(unsafe.Pointer(d)))))
	}
	if x.panics {
		b.xor(h3(11, 1, 1))
	}
	var f hash2
	for t, v := range s.facts {
		if t.op == "nonnil" {
			continue
		}
		f.xor(factHash(t, v))
	}
	x.base, x.bools, x.facts = b, bo, f
}

func (m *Machine) merge(in []*mergeItem, what string) []*mergeItem {
	if len(in) < 2 {
		return in
	}
	for _, x := range in {
		x.hashes()
	}
	// equal states
	type k3 struct{ a, b, c hash2 }
	seen := map[k3]*mergeItem{}
	var cur []*mergeItem
	for _, x := range in {
		k := k3{x.base, x.bools, x.facts}
		if y := seen[k]; y != nil {
			keepNonNil(y.st, x.st)
			continue
		}
		seen[k] = x
		cur = append(cur, x)
	}
	// one differing fact
	for {
		type kf struct {
			base, facts hash2
			f           *Term
		}
		idx := map[kf]*mergeItem{}
		gone, touched := map[*mergeItem]bool{}, map[*mergeItem]bool{}
		merged := false
		for _, x := range cur {
			done := false
			var fl []*Term
			for f := range x.st.facts {
				if f.op != "nonnil" {
					fl = append(fl, f)
				}
			}
			sort.Slice(fl, func(i, j int) bool { return fl[i].id > fl[j].id })
			for _, f := range fl {
				rest := x.facts
				rest.xor(factHash(f, x.st.facts[f]))
				k := kf{x.base, rest, f}
				y := idx[k]
				if y != nil && y != x && !gone[y] && !touched[y] && y.st.facts[f] != x.st.facts[f] && !done {
					if mergeOn(y, x, f) {
						gone[x] = true
						merged = true
						done = true
						// y changed: it is looked at again in the next round
						touched[y] = true
						break
					}
				}
			}
			if !done {
				for _, f := range fl {
					rest := x.facts
					rest.xor(factHash(f, x.st.facts[f]))
					k := kf{x.base, rest, f}
					if idx[k] == nil {
						idx[k] = x
					}
				}
			}
		}
		if !merged {
			break
		}
		var next []*mergeItem
		for _, x := range cur {
			if !gone[x] {
				x.hashes()
				next = append(next, x)
			}
		}
		seen = map[k3]*mergeItem{}
		cur = nil
		for _, x := range next {
			k := k3{x.base, x.bools, x.facts}
			if y := seen[k]; y != nil {
				keepNonNil(y.st, x.st)
				continue
			}
			seen[k] = x
			cur = append(cur, x)
		}
	}
	if len(cur) > m.softStates {
		type k2 struct{ a, b hash2 }
		grp := map[k2]*mergeItem{}
		var next []*mergeItem
		for _, x := range cur {
			k := k2{x.base, x.bools}
			if y := grp[k]; y != nil {
				for f, v := range y.st.facts {
					if w, ok := x.st.facts[f]; !ok || w != v {
						delete(y.st.facts, f)
						if len(f.args) > 0 {
							delete(y.st.eqc, f.args[0])
						}
					}
				}
				m.coarse++
				continue
			}
			grp[k] = x
			next = append(next, x)
		}
		cur = next
	}
	if len(cur) > m.maxStates {
		m.undecide("too many states (%d) in %s", len(cur), what)
		cur = cur[:m.maxStates]
	}
	return cur
}

func keepNonNil(y, x *State) {
	for f := range y.facts {
		if f.op == "nonnil" {
			if _, ok := x.facts[f]; !ok {
				delete(y.facts, f)
			}
		}
	}
}

// mergeOn merges x into y if they differ only in the truth of f and in cells
// that are true exactly when f is (or exactly when it is not).
func mergeOn(y, x *mergeItem, f *Term) bool {
	a, b := y, x // a: f true
	if !y.st.facts[f] {
		a, b = x, y
	}
	pick := func(p, q *Term) (*Term, bool) {
		switch {
		case p == q:
			return p, true
		case p == tTrue && q == tFalse:
			return f, true
		case p == tFalse && q == tTrue:
			return tNot(f), true
		}
		return nil, false
	}
	type upd struct {
		k *Term
		v *Term
	}
	var hu []upd
	eu := map[ssa.Value]*Term{}
	ru := map[int]*Term{}
	for k, v := range a.st.heap {
		w, ok := b.st.heap[k]
		if !ok {
			return false
		}
		n, ok := pick(v, w)
		if !ok {
			return false
		}
		if n != v || n != w {
			hu = append(hu, upd{k, n})
		}
	}
	for k, v := range a.st.env {
		w, ok := b.st.env[k]
		if !ok {
			return false
		}
		n, ok := pick(v, w)
		if !ok {
			return false
		}
		if n != v || n != w {
			eu[k] = n
		}
	}
	for i, v := range a.res {
		n, ok := pick(v, b.res[i])
		if !ok {
			return false
		}
		if n != v || n != b.res[i] {
			ru[i] = n
		}
	}
	for _, u := range hu {
		y.st.heap[u.k] = u.v
	}
	for k, v := range eu {
		y.st.env[k] = v
	}
	if len(ru) > 0 {
		y.res = append([]*Term(nil), y.res...)
		for i, v := range ru {
			y.res[i] = v
		}
	}
	keepNonNil(y.st, x.st)
	delete(y.st.facts, f)
	if len(f.args) > 0 {
		if c := y.st.eqc[f.args[0]]; c != nil && f.op == "eq" && f.args[1] == c {
			delete(y.st.eqc, f.args[0])
		}
	}
	return true
}
