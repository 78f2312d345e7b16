package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C35"] = checkC35
}

// survives tells why a value of a type would not come back from JSON as it was.
func survives(t types.Type, in map[string]bool) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsBoolean|types.IsInteger|types.IsString|types.IsFloat) != 0 && u.Kind() != types.UnsafePointer && u.Kind() != types.Uintptr {
			return ""
		}
		return "a " + t.String() + " has no JSON form"
	case *types.Pointer:
		return survives(u.Elem(), in)
	case *types.Slice:
		return survives(u.Elem(), in)
	case *types.Array:
		return survives(u.Elem(), in)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return "a map with keys of type " + u.Key().String() + " has no JSON form"
		}
		return survives(u.Elem(), in)
	case *types.Struct:
		if t.String() == "time.Time" {
			return ""
		}
		if n := namedType(t); n != "" && in[n] {
			return ""
		}
		return "the fields of " + t.String() + " are not examined"
	}
	return "a " + t.String() + " does not come back with the type it had"
}

func checkC35(c *Check) {
	c.rule("written", 60, "every public field of a record of the database has a JSON name, so that it is written and read")
	c.rule("one name", 60, "no two fields of a record share a JSON name, in any letter case")
	c.rule("comes back", 60, "every public field has a type that JSON gives back as it was")
	c.rule("plain", 8, "no record replaces the way it is written or read, on one side or the other")
	c.rule("no hidden content", 20, "no operation keeps content in a private field of a record")
	c.rule("whole", 7, "what is serialised is the database itself")
	c.rule("empty target", 1, "a file is read into an empty database, which is the one that is returned")
	c.rule("as read", 1, "loading changes nothing of what it read: it only fills in what is known to be missing")
	recs := c.recordTypes()
	structs := map[string]*types.Named{}
	var collect func(t types.Type)
	collect = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			collect(u.Elem())
		case *types.Slice:
			collect(u.Elem())
		case *types.Array:
			collect(u.Elem())
		case *types.Map:
			collect(u.Elem())
		case *types.Named:
			n := namedType(u)
			if !recs[n] || structs[n] != nil {
				return
			}
			structs[n] = u
			s := u.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				collect(s.Field(i).Type())
			}
		}
	}
	nd := c.fn("", "NewDatabase")
	if nd == nil {
		return
	}
	collect(nd.Signature.Results().At(0).Type())
	for n, t := range structs {
		s := t.Underlying().(*types.Struct)
		names := map[string]string{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			pos := c.p.pos(f.Pos())
			key := n + "." + f.Name()
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			name, opts := tag, ""
			if k := strings.Index(tag, ","); k >= 0 {
				name, opts = tag[:k], tag[k:]
			}
			if !f.Exported() {
				continue
			}
			c.check(tag != "-", nil, "written", key, pos, "%s is left out of the saved file", key)
			if f.Embedded() && name == "" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					c.undecided("%s is embedded", key)
				}
			}
			if name == "" || !validJSONName(name) {
				name = f.Name()
			}
			l := strings.ToLower(name)
			c.check(names[l] == "", nil, "one name", key, pos, "%s shares the name %q with %s: one of them, or both, is lost", key, name, names[l])
			names[l] = f.Name()
			why := survives(f.Type(), recs)
			if strings.Contains(opts, "omitzero") {
				why = ""
			}
			c.check(why == "", nil, "comes back", key, pos, "%s: %s", key, why)
		}
		ms := types.NewMethodSet(types.NewPointer(t))
		bad := ""
		for i := 0; i < ms.Len(); i++ {
			switch m := ms.At(i).Obj().Name(); m {
			case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
				bad = m
			}
		}
		c.check(bad == "", nil, "plain", n, c.p.pos(t.Obj().Pos()), "%s defines %s", n, bad)
	}
	private := map[string]bool{}
	for n, t := range structs {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); !f.Exported() && n != "Database" {
				private[n+"."+f.Name()] = true
			}
		}
	}
	for _, f := range c.libAPI() {
		if f.Pkg.Pkg.Path() != modulePath {
			continue
		}
		lbl := funcLabel(f)
		var target *Term
		h := &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			k := fldKey(a)
			if private[k] {
				if z := v; !z.isConst() || z != zeroOf(elemType(a.typ)) {
					c.bad(st, "no hidden content", lbl, c.p.instrPos(in), "%s keeps %s in the private field %s, which is not saved", lbl, v, k)
				}
				return
			}
			if f != nd {
				return
			}
			r := deepRoot(a)
			read := r != nil && (r.op == "dec" || st.dirty[r] != nil && st.dirty[r].op == "decoded")
			if !read || k == "" {
				return
			}
			if p := k[strings.LastIndex(k, ".")+1:]; p == "" || !(p[0] >= 'A' && p[0] <= 'Z') {
				return
			}
			old := st.valueAt(a)
			var kept func(old, v *Term, t types.Type) bool
			kept = func(old, v *Term, t types.Type) bool {
				if old == v || old != nil && st.same(old, zeroOf(t)) {
					return true
				}
				u, ok := t.Underlying().(*types.Struct)
				if !ok || old == nil || v == nil || old.op != "struct" || v.op != "struct" {
					return false
				}
				for i := 0; i < u.NumFields(); i++ {
					if !kept(old.args[i], v.args[i], u.Field(i).Type()) {
						return false
					}
				}
				return true
			}
			ok := kept(old, v, elemType(a.typ))
			switch k {
			case "Database.Version":
				ok = true
			case "Database.Revision":
				ok = ok || grows(st, v, old)
			case "Database.LastModified":
				ok = ok || nowOnly(v)
			}
			c.check(ok, st, "as read", k, c.p.instrPos(in), "loading a file replaces %s, which may have been given, by %s", a, v)
		}, Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
			if len(args) == 0 {
				return
			}
			switch name {
			case "encoding/json.Marshal":
				x := stripIface(args[0])
				if x.typ == nil {
					return
				}
				if s := namedType(elemOrSelf(x.typ)); recs[s] || s == "" && strings.Contains(x.typ.String(), modulePath) {
					c.check(s == "Database", st, "whole", lbl, c.p.instrPos(in), "%s serialises a %s", lbl, x.typ)
				}
			case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
				x := stripIface(args[1])
				if f != nd || namedType(elemOrSelf(x.typ)) != "Database" {
					return
				}
				target = x
				ok := isFresh(x)
				for a, v := range st.heap {
					k := fldKey(a)
					if p := k[strings.LastIndex(k, ".")+1:]; rootOf(a) == x && p != "" && p[0] >= 'A' && p[0] <= 'Z' && v != zeroOf(elemType(a.typ)) {
						ok = false
					}
				}
				c.check(ok, st, "empty target", lbl, c.p.instrPos(in), "%s reads a file into a database that has content already: what the file leaves out is not what was saved", lbl)
			}
		}}
		outs := c.run(f, h)
		c.ok("no hidden content", lbl)
		if f != nd {
			continue
		}
		good, _ := c.split(outs)
		c.some(good, f)
		for _, r := range good {
			db := r.res[0]
			if d := r.st.dirty[db]; d != nil && d.op == "decoded" {
				c.check(target == db, r.st, "empty target", lbl, c.p.pos(f.Pos()), "%s returns another database than the one that was read", lbl)
				u := r.st.valueAt(fieldAddr2(db, "", "Users"))
				c.check(u.op == "dec" && u.s == "Users", r.st, "as read", "Database.Users", c.p.pos(f.Pos()), "%s returns the users %s", lbl, u)
			}
		}
	}
}

func elemOrSelf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// validJSONName is what encoding/json accepts as a name in a tag.
func validJSONName(s string) bool {
	for _, r := range s {
		switch {
		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", r):
		case r >= '0' && r <= '9', r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r > 127:
		default:
			return false
		}
	}
	return s != ""
}
