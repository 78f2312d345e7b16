package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// kept tells whether what an instruction builds, a list that it appends to or
// stores into, may end up in memory, or in hands that are not known. A list
// that is only read and dropped is of no consequence.
func (c *Check) kept(in ssa.Instruction) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.BinOp, *ssa.Index, *ssa.Range, *ssa.If:
			case *ssa.Phi:
				if rec(x) {
					return true
				}
			case *ssa.Slice:
				if rec(x) {
					return true
				}
			case *ssa.Extract:
				if rec(x) {
					return true
				}
			case *ssa.IndexAddr:
				// a read of an element, or a store into the list
				for _, u := range *x.Referrers() {
					switch y := u.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						if y.Op != token.MUL {
							return true
						}
					case *ssa.Store:
						if y.Val == ssa.Value(x) {
							return true
						}
					case *ssa.FieldAddr:
					default:
						return true
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && rec(x) {
					return true
				}
			case *ssa.Store:
				a, ok := x.Addr.(*ssa.Alloc)
				if x.Val == v && (!ok || a.Heap || rec(a)) {
					return true
				}
			case *ssa.Return:
				i := -1
				for k, y := range x.Results {
					if y == v {
						i = k
					}
				}
				f := x.Parent()
				if i < 0 || f.Object() != nil && token.IsExported(f.Name()) {
					return true
				}
				for _, g := range c.p.fns {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if !usesFunc(in, f) {
								continue
							}
							call, ok := in.(*ssa.Call)
							if !ok || call.Common().StaticCallee() != f {
								return true
							}
							if len(x.Results) == 1 {
								if rec(call) {
									return true
								}
								continue
							}
							for _, u := range *call.Referrers() {
								if e, ok := u.(*ssa.Extract); ok && e.Index == i && rec(e) {
									return true
								}
							}
						}
					}
				}
			case *ssa.Call:
				com := x.Common()
				if b, ok := com.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
					case "append":
						if rec(x) {
							return true
						}
					case "copy":
						if com.Args[1] == v {
							return true
						}
					default:
						return true
					}
					continue
				}
				f := com.StaticCallee()
				if f == nil || len(f.Blocks) == 0 || com.Value == v || len(f.Params) != len(com.Args) {
					return true
				}
				for i, a := range com.Args {
					if a == v && rec(f.Params[i]) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.Call:
		return rec(x)
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.IndexAddr); ok {
			switch b := a.X.(type) {
			case *ssa.Alloc:
				return rec(b)
			case *ssa.MakeSlice, *ssa.Call, *ssa.Phi:
				return rec(b)
			}
		}
	}
	return true
}

// usesFunc tells whether an instruction mentions a function.
func usesFunc(in ssa.Instruction, f *ssa.Function) bool {
	for _, o := range in.Operands(nil) {
		if *o == ssa.Value(f) {
			return true
		}
	}
	return false
}
