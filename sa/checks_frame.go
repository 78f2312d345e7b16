package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C44"] = checkC44
}

// subjects lists what each operation is there to change: fields, and "tables"
// for the lookup tables of the database. The revisions and modification times
// of what changes go with it.
var subjects = map[string][]string{
	"Database.AddUser":            {"Database.Users", "tables", "save"},
	"Database.AddPublicKey":       {"User.PublicKeys", "save"},
	"Database.DeletePublicKey":    {"User.PublicKeys", "save"},
	"Database.AddAPIKey":          {"User.APIKeys", "tables", "save"},
	"Database.DeleteAPIKey":       {"User.APIKeys", "tables", "save"},
	"Database.AddMfaToken":        {"User.MfaTokens", "save"},
	"Database.DeleteMfaToken":     {"User.MfaTokens", "save"},
	"Database.ChangeUserPassword": {"User.Passwords", "Password.Disabled", "Password.DisabledAt", "Password.Expired", "Password.ExpiredAt", "save"},
	"Database.Save":               {"save"},
	"Database.Copy":               {"save"},
	"Database.DeleteUser":         {"Database.Users", "tables", "save"},

	"User.AddPassword":          {"User.Passwords", "Password.Disabled", "Password.DisabledAt", "Password.Expired", "Password.ExpiredAt"},
	"User.ChangePassword":       {"User.Passwords", "Password.Disabled", "Password.DisabledAt", "Password.Expired", "Password.ExpiredAt"},
	"User.AddEmailAddress":      {"User.EmailAddress", "User.EmailAddresses"},
	"User.AddName":              {"User.Name", "User.Names"},
	"User.AddRole":              {"User.Roles"},
	"User.AddRoles":             {"User.Roles"},
	"User.AddPublicKey":         {"User.PublicKeys"},
	"User.DeletePublicKey":      {"User.PublicKeys"},
	"User.AddAPIKey":            {"User.APIKeys"},
	"User.DeleteAPIKey":         {"User.APIKeys"},
	"User.AddMfaToken":          {"User.MfaTokens"},
	"User.DeleteMfaToken":       {"User.MfaTokens"},
	"User.Revise":               {"User.Revision"},
	"Password.Disable":          {"Password.Disabled", "Password.DisabledAt", "Password.Expired", "Password.ExpiredAt"},
	"APIKey.Disable":            {"APIKey.Disabled", "APIKey.DisabledAt", "APIKey.Expired", "APIKey.ExpiredAt"},
	"PublicKey.Disable":         {"PublicKey.Disabled", "PublicKey.DisabledAt", "PublicKey.Expired", "PublicKey.ExpiredAt"},
	"MfaToken.Disable":          {"MfaToken.Disabled", "MfaToken.DisabledAt", "MfaToken.Expired", "MfaToken.ExpiredAt"},
	"CreditCard.AddIssuer":      {"CreditCard.Issuer"},
	"CreditCard.AddAssociation": {"CreditCard.Association"},
	"UserMetadataBundle.Add":    {"UserMetadataBundle."},
	"PublicKeyBundle.Add":       {"PublicKeyBundle."},
	"APIKeyBundle.Add":          {"APIKeyBundle."},
	"MfaTokenBundle.Add":        {"MfaTokenBundle."},
	"Code.Build":                {"Code."},
}

// isQuery tells from its name that an operation only looks.
func isQuery(n string) bool {
	for _, p := range []string{"Get", "Has", "Verify", "Validate", "Valid", "Lookup", "Match", "String", "ToString", "Size", "Primary", "WebAuthnRequest", "Identify", "Authenticate", "Error", "Unwrap"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func checkC44(c *Check) {
	c.rule("query", 35, "an operation that only looks something up changes no user, no credential, no list and no lookup table")
	c.rule("own subject", 28, "an operation that changes something changes only what it is there for: other lists, fields and records stay as they are")
	c.rule("files", 14, "an operation that only looks something up writes, creates and removes no file")
	x := c.index()
	path := c.pathField()
	recs := c.recordTypes()
	whole := map[string]bool{"UserMetadataBundle": true, "PublicKeyBundle": true, "APIKeyBundle": true, "MfaTokenBundle": true, "CreditCard": true, "CreditCardIssuer": true, "CreditCardAssociation": true}
	for _, f := range c.libAPI() {
		f := f
		if f.Signature.Recv() == nil || strings.Contains(f.Pkg.Pkg.Path(), "/internal/") {
			continue
		}
		typ := namedType(f.Signature.Recv().Type())
		lbl := funcLabel(f)
		allowed, known := subjects[typ+"."+f.Name()]
		query := !known && isQuery(f.Name())
		if !known && !query {
			continue
		}
		recv := c.param(f, 0)
		rule := "own subject"
		if query {
			rule = "query"
		}
		may := func(k string) bool {
			for _, a := range allowed {
				if a == k || strings.HasSuffix(a, ".") && strings.HasPrefix(k, a) {
					return true
				}
				if a == "save" && (k == "Database.Revision" || k == "Database.LastModified" || k == "Database.Version") {
					return true
				}
				if strings.HasPrefix(a, "User.") && (k == "User.Revision" || k == "User.LastModified") {
					return true
				}
			}
			return false
		}
		tables := may("tables")
		// kept: what belongs to the receiver or to the database
		kept := func(a *Term) bool {
			if persistent(a) {
				return true
			}
			r := deepRoot(a)
			return r == recv || r != nil && r.op == "param" && r.typ != nil && (recs[namedType(r.typ)] || whole[namedType(r.typ)])
		}
		holder := func(k string) (rel bool) {
			i := strings.IndexByte(k, '.')
			if i < 0 || k == "Database."+path {
				return false
			}
			return whole[k[:i]] || recs[k[:i]] && token.IsExported(k[i+1:])
		}
		// container is the field that holds a list or a map
		container := func(a *Term) string {
			for t := a; t != nil; {
				switch t.op {
				case "slice", "sub", "idx", "melem", "has":
					t = t.args[0]
					continue
				case "load":
					return fldKey(t.args[0])
				case "fld":
					return fldKey(t)
				}
				break
			}
			return ""
		}
		h := &Hooks{
			Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
				if !kept(a) {
					return
				}
				for _, y := range expand(a) {
					k := fldKey(y)
					if y.op == "idx" {
						if k = container(y); k == "" || !holder(k) {
							continue
						}
						k = container(y)
					} else if !holder(k) {
						continue
					}
					good := may(k) || y == a && st.same(v, st.valueAt(a))
					c.check(good, st, rule, lbl, c.p.instrPos(in), "%s changes %s", lbl, y)
				}
			},
			MapWrite: func(m *Machine, st *State, mp, k, v *Term, in ssa.Instruction) {
				if r := x.roleOf(st, mp); r != "" {
					c.check(tables, st, rule, lbl, c.p.instrPos(in), "%s changes the table by %s", lbl, r)
					return
				}
				if !kept(mp) {
					return
				}
				if fk := container(mp); holder(fk) {
					c.check(may(fk), st, rule, lbl, c.p.instrPos(in), "%s changes %s", lbl, mp)
				}
			},
			Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
				if readOnly(name) || isPure(name) || strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "encoding/json.Marshal") {
					return
				}
				for i, a := range args {
					y := stripIface(a)
					if y == nil || y.typ == nil || !(isPtr(y.typ) || isMap(y.typ) || isSlice(y.typ)) || !kept(y) {
						continue
					}
					if name == "copy" && i == 1 || strings.Contains(typeStr(y.typ), "sync.") {
						continue
					}
					fk := container(y)
					if fk != "" && (may(fk) || !holder(fk)) {
						continue
					}
					if fk == "" && y == recv && !query {
						continue
					}
					c.bad(st, rule, lbl+" gives "+name, c.p.instrPos(in), "%s lets %s change %s", lbl, name, y)
				}
			},
		}
		if query {
			fe := &fileEvents{c: c}
			file := func(in ssa.Instruction, st *State, what string) {
				c.bad(st, "files", lbl, c.p.instrPos(in), "%s %s", lbl, what)
			}
			fe.onOpen = func(m *Machine, st *State, kind string, p, perm *Term, in ssa.Instruction) {
				if kind != "read" {
					file(in, st, "opens a file for writing")
				}
			}
			fe.onSave = func(m *Machine, st *State, how string, src, p, content *Term, h *Term, in ssa.Instruction) {
				file(in, st, "writes a file")
			}
			fe.onOther = func(m *Machine, st *State, name string, args []*Term, in ssa.Instruction) {
				switch name {
				case "os.Remove", "os.RemoveAll", "os.Truncate", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.Link", "os.Symlink", "os.Chmod", "os.Chown", "os.Chtimes":
					file(in, st, "calls "+name)
				}
			}
			h.Called = func(m *Machine, st *State, name string, args []*Term, r *Term, in ssa.CallInstruction) {
				fe.called(m, st, name, args, r, in)
			}
			if typ == "Database" {
				c.ok("files", lbl)
			}
		}
		c.run(f, h)
		c.ok(rule, lbl)
	}
}
