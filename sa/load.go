package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/greenpau/go-identity"

func inModule(path string) bool {
	return path == modulePath || strings.HasPrefix(path, modulePath+"/")
}

// Program is the type-checked program and its SSA form.
type Program struct {
	dir    string
	fset   *token.FileSet
	pkgs   []*packages.Package
	prog   *ssa.Program
	ssa    map[string]*ssa.Package
	fns    []*ssa.Function // all functions with bodies, in a stable order
	ids    map[ssa.Instruction]int
	bids   map[*ssa.BasicBlock]int
	infos  map[*ssa.Function]*funcInfo
	init   *State // heap after package initialisation
	mutGlb map[*ssa.Global]string
}

type loopT struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopT
}

type funcInfo struct {
	rpo    []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*loopT
	loops  []*loopT
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
}

func load(dir string) (*Program, error) {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  env,
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, spk := ssautil.Packages(pk, 0)
	prog.Build()
	p := &Program{dir: dir, fset: prog.Fset, pkgs: pk, prog: prog, ssa: map[string]*ssa.Package{},
		ids: map[ssa.Instruction]int{}, bids: map[*ssa.BasicBlock]int{}, infos: map[*ssa.Function]*funcInfo{}}
	for i, s := range spk {
		if s == nil {
			return nil, fmt.Errorf("no SSA form for %s", pk[i].PkgPath)
		}
		p.ssa[pk[i].PkgPath] = s
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil {
			p.fns = append(p.fns, f)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range p.fns {
		p.number(f)
	}
	p.findSharedMaps()
	return p, nil
}

func (p *Program) number(f *ssa.Function) {
	for _, b := range f.Blocks {
		if _, ok := p.bids[b]; ok {
			return
		}
		p.bids[b] = len(p.bids) + 1
		for _, in := range b.Instrs {
			p.ids[in] = len(p.ids) + 1
		}
	}
}

func (p *Program) instrID(in ssa.Instruction) int {
	if id, ok := p.ids[in]; ok {
		return id
	}
	p.number(in.Parent())
	return p.ids[in]
}

func (p *Program) blockID(b *ssa.BasicBlock) int {
	if id, ok := p.bids[b]; ok {
		return id
	}
	p.number(b.Parent())
	return p.bids[b]
}

// pos prints a source position relative to the repository.
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() {
				return p.pos(r.Pos())
			}
		}
	}
	b := in.Block()
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			return p.pos(x.Pos())
		}
	}
	return p.pos(in.Parent().Pos())
}

// ours tells whether a function belongs to the module (wrappers included).
func ours(f *ssa.Function) bool {
	if f.Pkg != nil {
		return inModule(f.Pkg.Pkg.Path())
	}
	if f.Parent() != nil {
		return ours(f.Parent())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return inModule(o.Pkg().Path())
	}
	if o := f.Origin(); o != nil && o != f {
		return ours(o)
	}
	return false
}

func (p *Program) info(f *ssa.Function) *funcInfo {
	if i := p.infos[f]; i != nil {
		return i
	}
	p.number(f)
	fi := &funcInfo{loopOf: map[*ssa.BasicBlock]*loopT{}}
	p.infos[f] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	// natural loops
	byHead := map[*ssa.BasicBlock]*loopT{}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &loopT{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				fi.loops = append(fi.loops, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				for _, q := range x.Preds {
					if seen[q] {
						work = append(work, q)
					}
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) > len(fi.loops[j].blocks) })
	for _, l := range fi.loops {
		l.parent = fi.loopOf[l.head]
		for b := range l.blocks {
			fi.loopOf[b] = l
		}
	}
	// liveness
	fi.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.rpo {
		fi.live[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				idx := -1
				for k, q := range s.Preds {
					if q == b {
						idx = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
					if tracked(ph.Edges[idx]) {
						l[ph.Edges[idx]] = true
					}
				}
				for v := range fi.live[s] {
					if !phis[v] {
						l[v] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if ph, ok := in.(*ssa.Phi); ok {
					_ = ph
					continue // phis stay live at entry once evaluated
				}
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						l[*op] = true
					}
				}
			}
			if len(l) != len(fi.live[b]) {
				fi.live[b] = l
				changed = true
			} else {
				for v := range l {
					if !fi.live[b][v] {
						fi.live[b] = l
						changed = true
						break
					}
				}
			}
		}
	}
	return fi
}

// lookup finds a package-level function or a method "T.M" of a package.
func (p *Program) lookup(pkg, name string) *ssa.Function {
	s := p.ssa[pkg]
	if s == nil {
		return nil
	}
	if i := strings.Index(name, "."); i > 0 {
		t := s.Type(name[:i])
		if t == nil {
			return nil
		}
		return p.method(t.Type(), name[i+1:])
	}
	return s.Func(name)
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Blocks != nil {
					// prefer the declared method to a wrapper
					if o, ok := ms.At(i).Obj().(*types.Func); ok {
						if d := p.prog.FuncValue(o); d != nil && d.Blocks != nil {
							return d
						}
					}
					return f
				}
			}
		}
	}
	return nil
}

// exported API functions of a package: functions and methods of exported types
func (p *Program) exportedAPI(pkg string) []*ssa.Function {
	s := p.ssa[pkg]
	if s == nil {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.fns {
		if f.Pkg != s || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// runInit interprets the package initialisers to learn the content of tables,
// compiled patterns and other package variables that nothing changes later.
func (p *Program) runInit() {
	p.mutGlb = map[*ssa.Global]string{}
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 20 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X, d+1)
		case *ssa.IndexAddr:
			return root(x.X, d+1)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return root(x.X, d+1)
			}
		case *ssa.Slice:
			return root(x.X, d+1)
		}
		return nil
	}
	for _, f := range p.fns {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := root(x.Addr, 0); g != nil {
						p.mutGlb[g] = p.instrPos(in)
					}
				case *ssa.MapUpdate:
					if g := root(x.Map, 0); g != nil {
						p.mutGlb[g] = p.instrPos(in)
					}
				}
				// the address of a variable handed to somebody
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
						case *ssa.Store:
							if y.Val == ssa.Value(g) {
								p.mutGlb[g] = p.instrPos(in)
							}
						case ssa.CallInstruction:
							p.mutGlb[g] = p.instrPos(in)
						}
					}
				}
			}
		}
	}
	st := newState()
	m := newMachine(p, nil)
	m.quiet++
	m.initMode = true
	done := map[*types.Package]bool{}
	var run func(s *ssa.Package)
	run = func(s *ssa.Package) {
		if s == nil || done[s.Pkg] || !inModule(s.Pkg.Path()) {
			return
		}
		done[s.Pkg] = true
		for _, im := range s.Pkg.Imports() {
			run(p.ssa[im.Path()])
		}
		f := s.Func("init")
		if g, ok := s.Members["init$guard"].(*ssa.Global); ok {
			st.heap[m.val(st, g)] = tFalse
		}
		if f == nil || f.Blocks == nil {
			return
		}
		outs := m.exec(f, nil, nil, st)
		if len(outs) == 1 && !outs[0].panics {
			st = outs[0].st
		}
	}
	var paths []string
	for k := range p.ssa {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		run(p.ssa[k])
	}
	res := newState()
	for a, v := range st.heap {
		r := rootOf(a)
		if r.op == "global" {
			g, _ := r.aux.(*ssa.Global)
			if g == nil || p.mutGlb[g] != "" || strings.Contains(g.Name(), "init$guard") || token.IsExported(g.Name()) && g.Pkg != nil && !strings.Contains(g.Pkg.Pkg.Path(), "/internal/") {
				continue
			}
		}
		res.heap[a] = v
	}
	for o, d := range st.dirty {
		res.dirty[o] = d
	}
	p.init = res
}

func (p *Program) entryState() *State {
	if p.init == nil {
		return newState()
	}
	s := p.init.clone()
	s.env = map[ssa.Value]*Term{}
	return s
}

// findSharedMaps finds the struct fields of map type to which something other
// than a map made for that field alone is stored.
func (p *Program) findSharedMaps() {
	sharedMapFields = map[string]bool{}
	owner := map[ssa.Value]string{}
	for _, f := range p.fns {
		if !ours(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isMap(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					// a map stored elsewhere may have come from any field; loads
					// of it have no origin, so writes to it are seen by all
					continue
				}
				t := structOf(fa.X.Type())
				k := types.TypeString(t, nil) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
				val := st.Val
				if ct, ok := val.(*ssa.ChangeType); ok {
					// a map type with a name
					val = ct.X
				}
				switch v := val.(type) {
				case *ssa.MakeMap:
					n := 0
					for _, r := range *v.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Val == ssa.Value(v) {
								n++
							}
						case *ssa.Phi, *ssa.Return, *ssa.MakeInterface:
							n++
						case *ssa.ChangeType:
							n += len(*y.Referrers())
						}
					}
					if o, ok := owner[v]; ok && o != k || n > 1 {
						sharedMapFields[k] = true
					}
					owner[v] = k
				case *ssa.Const:
				default:
					sharedMapFields[k] = true
				}
			}
		}
	}
	for v, k := range owner {
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == v {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					t := structOf(fa.X.Type())
					if types.TypeString(t, nil)+"."+t.Underlying().(*types.Struct).Field(fa.Field).Name() != k {
						sharedMapFields[k] = true
					}
				}
			}
		}
	}
}
