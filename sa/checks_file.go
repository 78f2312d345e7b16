package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = checkC03
	checks["C16"] = checkC16
	checks["C18"] = checkC18
	checks["C34"] = checkC34
}

// resAt is the i-th result of an external call.
func resAt(r *Term, i int) *Term {
	if r == nil {
		return nil
	}
	if r.op == "tuple" {
		if i < len(r.args) {
			return r.args[i]
		}
		return nil
	}
	if i == 0 {
		return r
	}
	return nil
}

// The typestate of files. Tags of a state, per handle h:
//
//	fo h: how it was opened (op "fopen", s = temp, excl or open; args path, directory)
//	fw h: what was written (op "fwrite", args content, error)
//	fs h: the error of a flush after the last write
//	fc h: the error of the first close after that
//
// and "saved": the last replacement of a file (op "fsave", args path, content,
// error, handle).
type fileEvents struct {
	c       *Check
	onOpen  func(m *Machine, st *State, kind string, path, perm *Term, in ssa.Instruction)
	onSave  func(m *Machine, st *State, how string, src, path, content *Term, h *Term, in ssa.Instruction)
	onOther func(m *Machine, st *State, name string, args []*Term, in ssa.Instruction)
}

func htag(k string, h *Term) string { return fmt.Sprint(k, " ", h.id) }

func sameContentTerm(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	return st.same(a, b) || st.bytesVal(a) == st.bytesVal(b) || st.asString(a) == st.asString(b)
}

func openFlags(t *Term) (create, excl, write, known bool) {
	v, ok := t.intVal()
	if !ok {
		return true, false, true, false
	}
	return v&0x40 != 0, v&0x80 != 0, v&3 != 0 || v&0x240 != 0, true
}

func (fe *fileEvents) called(m *Machine, st *State, name string, args []*Term, r *Term, in ssa.CallInstruction) {
	set := func(k string, h, v *Term) {
		if v == nil {
			v = tFalse
		}
		st.tags[htag(k, h)] = v
	}
	open := func(kind string, path, dir, perm *Term) {
		if h := resAt(r, 0); h != nil {
			set("fo", h, mk("fopen", kind, nil, nil, path, dir, h))
		}
		if fe.onOpen != nil {
			fe.onOpen(m, st, kind, path, perm, in)
		}
	}
	save := func(how string, src, path, content, err, h *Term) {
		st.tags["saved"] = mk("fsave", how, nil, nil, path, content, err, h)
		if fe.onSave != nil {
			fe.onSave(m, st, how, src, path, content, h, in)
		}
	}
	switch name {
	case "os.CreateTemp":
		open("temp", nil, args[0], nil)
	case "os.Create":
		open("open", args[0], nil, cint(0666))
	case "os.OpenFile":
		create, excl, write, known := openFlags(args[1])
		kind := "open"
		switch {
		case !known:
		case create && excl:
			kind = "excl"
		case !write:
			kind = "read"
		}
		perm := args[2]
		if known && !create {
			perm = nil
		}
		open(kind, args[0], nil, perm)
	case "os.WriteFile":
		save("write", nil, args[0], args[1], resAt(r, 0), nil)
		if fe.onOpen != nil {
			fe.onOpen(m, st, "open", args[0], args[2], in)
		}
	case "(*os.File).Write", "(*os.File).WriteString":
		h := args[0]
		content := args[1]
		if old := st.tags[htag("fw", h)]; old != nil {
			content = mk("fseq", "", nil, nil, old.args[0], content)
		}
		set("fw", h, mk("fwrite", "", nil, nil, content, resAt(r, 1)))
		delete(st.tags, htag("fs", h))
		delete(st.tags, htag("fc", h))
	case "(*os.File).Sync":
		set("fs", args[0], resAt(r, 0))
	case "(*os.File).Close":
		h := args[0]
		if st.tags[htag("fc", h)] == nil {
			set("fc", h, resAt(r, 0))
			if o := st.tags[htag("fo", h)]; o != nil && o.s == "open" {
				if w := st.tags[htag("fw", h)]; w != nil {
					save("inplace", nil, o.args[0], w.args[0], resAt(r, 0), h)
				}
			}
		}
	case "os.Rename":
		var h *Term
		for k, o := range st.tags {
			if !strings.HasPrefix(k, "fo ") {
				continue
			}
			t := o.args[2]
			if st.same(args[0], mkName(t)) || o.args[0] != nil && o.s != "read" && st.same(args[0], o.args[0]) {
				h = t
			}
		}
		var content *Term
		if h != nil {
			if w := st.tags[htag("fw", h)]; w != nil {
				content = w.args[0]
			}
		}
		save("rename", args[0], args[1], content, resAt(r, 0), h)
	default:
		if fe.onOther != nil {
			fe.onOther(m, st, name, args, in)
		}
	}
}

func mkName(h *Term) *Term {
	return mk("call", "(*os.File).Name", nil, nil, h)
}

// nameOf recognises the name of an open file.
func nameOf(t *Term) (*Term, bool) {
	if t != nil && t.op == "call" && t.s == "(*os.File).Name" {
		return t.args[0], true
	}
	return nil, false
}

// knownNil: an error that is known not to have happened.
func (st *State) knownNil(err *Term) bool {
	return err != nil && err != tFalse && st.holds(tEq(err, tNil))
}

// samePath tells whether a path names the file that base names: the same text,
// cleaned, made absolute or with symbolic links resolved.
func samePath(st *State, t, base *Term) bool {
	for i := 0; t != nil && i < 6; i++ {
		if st.same(t, base) {
			return true
		}
		x := t
		if x.op == "ext" && x.s == "0" {
			x = x.args[0]
		}
		if x.op == "call" && (x.s == "path/filepath.EvalSymlinks" || x.s == "path/filepath.Clean" || x.s == "path/filepath.Abs" || x.s == "path.Clean") {
			t = x.args[0]
			continue
		}
		return false
	}
	return false
}

// pathField is the field that holds the path of the database.
func (c *Check) pathField() string {
	f := c.fn("", "Database.GetPath")
	if f == nil {
		return ""
	}
	k := ""
	for _, r := range c.returns(c.run(f, nil)) {
		if len(r.res) != 1 {
			continue
		}
		if q := valKey(r.res[0]); strings.HasPrefix(q, "Database.") && (k == "" || k == q) && r.res[0] == entryLoad(fieldAddr(c.param(f, 0), q[9:])) {
			k = q
			continue
		}
		c.undecided("GetPath returns %s, which is not the value of one field of the database", r.res[0])
	}
	if k == "" {
		c.undecided("the field with the path of the database was not found")
		return "?"
	}
	return strings.TrimPrefix(k, "Database.")
}

// dbContent tells whether an address belongs to what is serialised.
func dbContent(recs map[string]bool, a *Term) bool {
	k := fldKey(a)
	i := strings.IndexByte(k, '.')
	if i < 0 || !recs[k[:i]] || !token.IsExported(k[i+1:]) {
		return false
	}
	return persistent(a) || isFresh(rootOf(a))
}

// what each operation changes when it succeeds
var changeOf = map[string]string{
	"AddUser": "Database.Users", "ChangeUserPassword": "User.Passwords",
	"AddPublicKey": "User.PublicKeys", "DeletePublicKey": "User.PublicKeys",
	"AddAPIKey": "User.APIKeys", "DeleteAPIKey": "User.APIKeys",
	"AddMfaToken": "User.MfaTokens", "DeleteMfaToken": "User.MfaTokens",
	"Save": "", "Copy": "",
}

func checkC03(c *Check) {
	c.rule("saved", 10, "on success of an operation that changes the database, the database was serialised after the last change and all of it was written to the database's file (for Copy the given one)")
	c.rule("errors seen", 10, "on success every step of serialising and writing is known to have succeeded")
	c.rule("change made", 8, "on success the change that was asked for has been made")
	path := c.pathField()
	recs := c.recordTypes()
	for _, f := range c.dbMethods() {
		f := f
		lbl := funcLabel(f)
		db := c.param(f, 0)
		want := entryLoad(fieldAddr(db, path))
		if f.Name() == "Copy" {
			want = c.param(f, 1)
		}
		fe := &fileEvents{c: c}
		h := &Hooks{
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				for _, x := range expand(a) {
					if dbContent(recs, x) {
						st.tags["dirty"] = tTrue
						if persistent(x) {
							st.tags["changed"] = tTrue
						}
					}
				}
			},
			MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				if dbContent(recs, mkOrigin(mp)) {
					st.tags["dirty"] = tTrue
				}
			},
			Called: func(m *Machine, st *State, name string, args []*Term, r *Term, in ssa.CallInstruction) {
				switch name {
				case "encoding/json.Marshal":
					if x := stripIface(args[0]); x == db {
						st.tags["text"] = mk("text", "", nil, nil, resAt(r, 0), resAt(r, 1))
						delete(st.tags, "dirty")
					}
				case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
					st.tags["dirty"] = tTrue
				}
				fe.called(m, st, name, args, r, in)
			},
		}
		good, _ := c.split(c.run(f, h))
		key, listed := changeOf[f.Name()]
		pos := c.p.pos(f.Pos())
		for _, r := range good {
			st := r.st
			if !listed && st.tags["changed"] == nil {
				continue
			}
			text, saved := st.tags["text"], st.tags["saved"]
			switch {
			case text == nil:
				c.bad(st, "saved", lbl, pos, "%s succeeds without serialising the database", lbl)
				continue
			case st.tags["dirty"] != nil:
				c.bad(st, "saved", lbl, pos, "%s changes the database after it was serialised", lbl)
			case saved == nil:
				c.bad(st, "saved", lbl, pos, "%s succeeds without writing a file", lbl)
				continue
			case !samePath(st, saved.args[0], want):
				c.bad(st, "saved", lbl, pos, "%s writes to %s instead of %s", lbl, saved.args[0], want)
			case !sameContentTerm(st, saved.args[1], text.args[0]):
				c.bad(st, "saved", lbl, pos, "%s writes %s, which is not exactly the serialised database", lbl, saved.args[1])
			default:
				c.ok("saved", lbl)
			}
			ok := st.knownNil(text.args[1]) && st.knownNil(saved.args[2])
			what := "serialising or replacing the file"
			if hd := saved.args[3]; ok && hd != nil {
				w, cl := st.tags[htag("fw", hd)], st.tags[htag("fc", hd)]
				what = "writing or closing the file"
				ok = w != nil && st.knownNil(w.args[1]) && st.knownNil(cl)
				if sy := st.tags[htag("fs", hd)]; sy != nil && !st.knownNil(sy) {
					ok, what = false, "flushing the file"
				}
			}
			c.check(ok, st, "errors seen", lbl, pos, "%s can succeed although %s failed", lbl, what)
			if key != "" {
				changed := false
				for a, v := range st.heap {
					if fldKey(a) == key && persistent(a) && v != entryLoad(a) {
						changed = true
					}
				}
				c.check(changed, st, "change made", lbl, pos, "%s can succeed without changing %s", lbl, key)
			}
		}
		if listed && len(good) == 0 {
			c.undecided("%s never succeeds", lbl)
		}
	}
}

// mkOrigin is the field address that a map was read from (or itself).
func mkOrigin(mp *Term) *Term {
	if mp.op == "load" && mp.args[0].op == "fld" {
		return mp.args[0]
	}
	return mp
}

func checkC16(c *Check) {
	c.rule("private", 3, "files and directories are created with permissions that give group and others no access, and permissions are never widened")
	perm := func(st *State, p *Term) bool {
		if p == nil {
			return true
		}
		for p.op == "conv" {
			p = p.args[0]
		}
		if v, ok := p.intVal(); ok {
			return v&0077 == 0
		}
		if p.op == "bin&" {
			for _, a := range p.args {
				if v, ok := a.intVal(); ok && v&0077 == 0 {
					return true
				}
			}
		}
		if p.op == "bin&^" {
			if v, ok := p.args[1].intVal(); ok && v&0077 == 0077 {
				return true
			}
		}
		return false
	}
	for _, f := range c.libAPI() {
		lbl := funcLabel(f)
		con := func(in ssa.Instruction, what string) string { return what + " in " + in.Parent().Name() }
		fe := &fileEvents{c: c,
			onOpen: func(m *Machine, st *State, kind string, path, p *Term, in ssa.Instruction) {
				if kind == "read" {
					return
				}
				c.check(perm(st, p), st, "private", con(in, "a file created"), c.p.instrPos(in), "%s creates a file with permissions %s", lbl, p)
			},
			onOther: func(m *Machine, st *State, name string, args []*Term, in ssa.Instruction) {
				switch name {
				case "os.Mkdir", "os.MkdirAll":
					c.check(perm(st, args[1]), st, "private", con(in, "a directory created"), c.p.instrPos(in), "%s creates a directory with permissions %s", lbl, args[1])
				case "os.Chmod", "(*os.File).Chmod", "syscall.Chmod", "syscall.Fchmod", "os.Root.Chmod":
					c.check(perm(st, args[1]), st, "private", con(in, "permissions set"), c.p.instrPos(in), "%s sets permissions %s", lbl, args[1])
				case "syscall.Open", "syscall.Mkdir", "syscall.Creat", "syscall.Umask", "syscall.Mknod", "os.Link", "os.CopyFS", "os.OpenInRoot", "os.OpenRoot", "os.NewFile", "os/exec.Command", "os.StartProcess":
					c.bad(st, "private", con(in, name), c.p.instrPos(in), "%s calls %s, whose effect on permissions is not modelled", lbl, name)
				}
			},
		}
		c.run(f, &Hooks{Called: fe.called})
		_ = lbl
	}
	c.ok("private", "all exported functions")
}

func checkC18(c *Check) {
	c.rule("never in place", 2, "no existing file is opened for writing, truncated or removed: content is written only to a new temporary file in the same directory")
	c.rule("complete before rename", 1, "a file takes the place of another only by a rename, after everything was written to it, flushed and closed, each known to have succeeded")
	c.rule("whole content", 10, "a file is replaced by the whole serialised content")
	names := map[string]bool{}
	for _, f := range c.libAPI() {
		lbl := funcLabel(f)
		con := func(in ssa.Instruction, what string) string { return what + " in " + in.Parent().Name() }
		fe := &fileEvents{c: c}
		fe.onOpen = func(m *Machine, st *State, kind string, path, p *Term, in ssa.Instruction) {
			if kind == "read" {
				return
			}
			c.check(kind == "temp" || kind == "excl", st, "never in place", con(in, "a file opened"), c.p.instrPos(in), "%s opens %s for writing: its previous content is lost if the save is interrupted", lbl, path)
		}
		fe.onSave = func(m *Machine, st *State, how string, src, path, content, h *Term, in ssa.Instruction) {
			if how != "rename" {
				c.bad(st, "never in place", con(in, "content written"), c.p.instrPos(in), "%s writes to %s in place", lbl, path)
				return
			}
			pos := c.p.instrPos(in)
			k := con(in, "a rename")
			if h == nil {
				c.bad(st, "complete before rename", k, pos, "%s renames %s, which it has not written", lbl, src)
				return
			}
			o, w, sy, cl := st.tags[htag("fo", h)], st.tags[htag("fw", h)], st.tags[htag("fs", h)], st.tags[htag("fc", h)]
			switch {
			case w == nil || !st.knownNil(w.args[1]):
				c.bad(st, "complete before rename", k, pos, "the new file replaces %s although writing to it may have failed", path)
			case !st.knownNil(sy):
				c.bad(st, "complete before rename", k, pos, "the new file replaces %s before it is known to have been flushed to stable storage after the last write", path)
			case !st.knownNil(cl):
				c.bad(st, "complete before rename", k, pos, "the new file replaces %s before it is known to have been closed without an error", path)
			case o.s == "temp" && !sameDir(st, o.args[1], path):
				c.bad(st, "complete before rename", k, pos, "the temporary file is created in %s, which is not known to be the directory of %s", o.args[1], path)
			case o.s == "excl" && !besides(st, o.args[0], path):
				c.bad(st, "complete before rename", k, pos, "the temporary file %s is not known to be in the directory of %s", o.args[0], path)
			default:
				c.ok("complete before rename", k)
			}
			if !st.knownNil(resAt2(w)) {
				return
			}
			// the content of the temporary file must be whole
			if content != nil && content.op == "fseq" {
				c.bad(st, "whole content", lbl, pos, "the new content is written in parts that are not recognised as the whole")
				return
			}
			if content != nil && content.any(func(t *Term) bool { return t.op == "slice" && (t.args[1] != nil || t.args[2] != nil) }) {
				c.bad(st, "whole content", lbl, pos, "only a part of the content is written: %s", content)
				return
			}
			c.ok("whole content", lbl)
		}
		fe.onOther = func(m *Machine, st *State, name string, args []*Term, in ssa.Instruction) {
			switch name {
			case "os.Remove", "os.RemoveAll":
				ok := false
				if h, is := nameOf(args[0]); is && st.tags[htag("fo", h)] != nil {
					ok = true
				}
				for k, o := range st.tags {
					if strings.HasPrefix(k, "fo ") && o.args[0] != nil && o.s == "excl" && st.same(o.args[0], args[0]) {
						ok = true
					}
				}
				c.check(ok, st, "never in place", con(in, "a file removed"), c.p.instrPos(in), "%s removes %s, which is not a temporary file of its own", lbl, args[0])
			case "os.Truncate", "os.Link", "os.Symlink", "syscall.Rename", "syscall.Unlink", "syscall.Open", "syscall.Truncate", "(*os.File).Truncate", "os.CopyFS", "os/exec.Command", "os.StartProcess", "(*os.File).Seek", "(*os.File).WriteAt":
				c.bad(st, "never in place", con(in, name), c.p.instrPos(in), "%s calls %s on %s", lbl, name, args)
			}
		}
		c.run(f, &Hooks{Called: fe.called})
		names[lbl] = true
		if f.Signature.Recv() != nil && namedType(f.Signature.Recv().Type()) == "Database" {
			c.ok("never in place", lbl)
		}
	}
}

func resAt2(w *Term) *Term {
	if w == nil {
		return nil
	}
	return w.args[1]
}

// sameDir: dir is the directory of path.
func sameDir(st *State, dir, path *Term) bool {
	if dir == nil {
		return false
	}
	if dir.op == "call" && (dir.s == "path/filepath.Dir" || dir.s == "path.Dir") {
		return st.same(dir.args[0], path)
	}
	if dir.op == "ext" && dir.s == "0" && dir.args[0].op == "call" && dir.args[0].s == "path/filepath.Split" {
		return st.same(dir.args[0].args[0], path)
	}
	return false
}

// besides: t is a path in the directory of path: path with a suffix, or joined
// to its directory.
func besides(st *State, t, path *Term) bool {
	if t == nil {
		return false
	}
	if t.op == "concat" && st.same(t.args[0], path) {
		for _, a := range t.args[1:] {
			if s, ok := a.strVal(); ok && strings.Contains(s, "/") {
				return false
			}
		}
		return true
	}
	if t.op == "call" && t.s == "path/filepath.Join" {
		for _, a := range t.args {
			if sameDir(st, a, path) {
				return true
			}
		}
	}
	return false
}

func checkC34(c *Check) {
	c.rule("path kept", 20, "whatever the outcome, the database keeps the path that it had")
	c.rule("right file", 10, "an operation writes to the file of the database and to no other; Copy writes to the given path and to no other")
	c.rule("own path", 2, "a new database has exactly the path that it was opened with, and reports it")
	path := c.pathField()
	c.ok("own path", "GetPath")
	for _, f := range c.dbMethods() {
		f := f
		lbl := funcLabel(f)
		db := c.param(f, 0)
		addr := fieldAddr(db, path)
		want := entryLoad(addr)
		if f.Name() == "Copy" {
			want = c.param(f, 1)
		}
		target := func(st *State, p *Term, in ssa.Instruction) {
			c.check(samePath(st, p, want), st, "right file", lbl, c.p.instrPos(in), "%s writes to %s instead of %s", lbl, p, want)
		}
		fe := &fileEvents{c: c,
			onOpen: func(m *Machine, st *State, kind string, p, perm *Term, in ssa.Instruction) {
				if kind == "open" {
					target(st, p, in)
				}
			},
			onSave: func(m *Machine, st *State, how string, src, p, content, h *Term, in ssa.Instruction) {
				target(st, p, in)
			},
		}
		outs := c.run(f, &Hooks{Called: fe.called})
		for _, o := range outs {
			v := o.st.valueAt(addr)
			if !c.check(v == entryLoad(addr) || o.st.same(v, entryLoad(addr)), o.st, "path kept", lbl, c.p.pos(f.Pos()), "%s ends with the database's path set to %s", lbl, v) {
				break
			}
		}
	}
	if f := c.fn("", "NewDatabase"); f != nil {
		fp := c.param(f, 0)
		fe := &fileEvents{c: c,
			onSave: func(m *Machine, st *State, how string, src, p, content, h *Term, in ssa.Instruction) {
				c.check(samePath(st, p, fp), st, "right file", "NewDatabase", c.p.instrPos(in), "NewDatabase writes to %s instead of %s", p, fp)
			},
		}
		good, _ := c.split(c.run(f, &Hooks{Called: fe.called}))
		for _, r := range good {
			v := r.st.valueAt(fieldAddr2(r.res[0], "", path))
			c.check(r.st.same(v, fp), r.st, "own path", "NewDatabase", c.p.pos(f.Pos()), "a database opened from %s has the path %s", fp, v)
		}
	}
}
