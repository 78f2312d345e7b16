package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C46"] = checkC46
}

// verbsOf lists the placeholders of a format.
func verbsOf(f string) (l []string) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		k := i + 1
		for k < len(f) && strings.IndexByte("0123456789.+-# []*", f[k]) >= 0 {
			if f[k] == '*' {
				l = append(l, "*")
			}
			k++
		}
		if k >= len(f) {
			l = append(l, "!")
			return
		}
		if f[k] != '%' {
			l = append(l, f[k:k+1])
		}
		i = k
	}
	return
}

// fits tells whether a value of a type can be put in the place of a verb.
func fitsVerb(verb string, t types.Type) bool {
	if verb == "v" || verb == "w" && types.Implements(t, errorType()) {
		return true
	}
	text := false
	if types.Implements(t, errorType()) || printsItself(t, "String") {
		text = true
	}
	num := false
	switch u := t.Underlying().(type) {
	case *types.Basic:
		text = text || u.Info()&types.IsString != 0
		num = u.Info()&types.IsInteger != 0
		if u.Info()&types.IsFloat != 0 {
			return strings.Contains("feEgG", verb)
		}
		if u.Info()&types.IsBoolean != 0 {
			return verb == "t" || text && (verb == "s" || verb == "q")
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			text = text || b.Kind() == types.Byte || b.Info()&types.IsString != 0
			num = b.Info()&types.IsInteger != 0
		}
	}
	switch verb {
	case "s", "q":
		return text
	case "x", "X":
		return text || num
	case "d", "c", "o", "b", "U", "*":
		return num
	}
	return false
}

func errorType() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func printsItself(t types.Type, n string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
	f, ok := o.(*types.Func)
	return ok && f.Type().(*types.Signature).Params().Len() == 0
}

// published reads the text of an error that pkg/errors declares.
func (c *Check) published(name string) (string, bool) {
	for _, p := range c.p.pkgs {
		if p.PkgPath != modulePath+"/pkg/errors" {
			continue
		}
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val()), true
		}
	}
	return "", false
}

// operationErrors names the error under which an operation reports whatever
// made it fail.
var operationErrors = map[string][]string{
	"NewDatabase":                 {"ErrNewDatabase", "ErrNewDatabaseInvalidUser", "ErrNewDatabaseDuplicateUser", "ErrNewDatabaseDuplicateUserID", "ErrNewDatabaseDuplicateEmail", "ErrNewDatabaseDuplicateAPIKey"},
	"Database.AddUser":            {"ErrAddUser"},
	"Database.GetUsers":           {"ErrGetUsers"},
	"Database.GetUser":            {"ErrGetUsers", "ErrGetUser"},
	"Database.DeleteUser":         {"ErrDeleteUser"},
	"Database.AuthenticateUser":   {"ErrAuthFailed"},
	"Database.AddPublicKey":       {"ErrAddPublicKey"},
	"Database.GetPublicKeys":      {"ErrGetPublicKeys"},
	"Database.DeletePublicKey":    {"ErrDeletePublicKey"},
	"Database.AddAPIKey":          {"ErrAddAPIKey"},
	"Database.GetAPIKeys":         {"ErrGetAPIKeys"},
	"Database.DeleteAPIKey":       {"ErrDeleteAPIKey"},
	"Database.ChangeUserPassword": {"ErrChangeUserPassword"},
	"Database.AddMfaToken":        {"ErrAddMfaToken"},
	"Database.GetMfaTokens":       {"ErrGetMfaTokens"},
	"Database.DeleteMfaToken":     {"ErrDeleteMfaToken"},
	"Database.Save":               {"ErrDatabaseCommit"},
	"Database.Copy":               {"ErrDatabaseCommit"},
	"Database.LookupAPIKey":       {"ErrLookupAPIKeyPayloadEmpty", "ErrLookupAPIKeyMalformedPayload", "ErrLookupAPIKeyFailed"},
	"User.AddPublicKey":           {"ErrAddPublicKey"},
	"User.DeletePublicKey":        {"ErrDeletePublicKey"},
	"User.AddAPIKey":              {"ErrAddAPIKey"},
	"User.DeleteAPIKey":           {"ErrDeleteAPIKey"},
	"User.AddMfaToken":            {"ErrAddMfaToken"},
	"User.DeleteMfaToken":         {"ErrDeleteMfaToken"},
	"User.ChangePassword":         {"ErrChangeUserPassword"},
	"User.LookupAPIKey":           {"ErrLookupAPIKeyFailed"},
	"User.VerifyPassword":         {"ErrUserPasswordNotFound", "ErrUserPasswordInvalid"},
}

func checkC46(c *Check) {
	c.rule("filled", 45, "an error with placeholders in its text is given as many arguments as there are placeholders, each of a kind that fits")
	c.rule("bare", 25, "an error that is reported or put into another error as it is has no placeholders in its text")
	c.rule("operation", 20, "whatever makes an operation fail is reported under the published error of that operation")
	c.rule("identity", 2, "an error with arguments unwraps to the published error, and its text is that of the published error with the arguments filled in")

	isStd := func(t types.Type) bool {
		return t != nil && strings.HasSuffix(t.String(), "pkg/errors.StandardError")
	}
	for _, f := range c.libAPI() {
		f := f
		lbl := funcLabel(f)
		// The published error of every error that has been built.
		built := map[*Term]*Term{}
		bare := func(st *State, t *Term, pos string) {
			if t == nil || t.op != "iface" || !isStd(t.aux.(types.Type)) {
				return
			}
			s, ok := t.args[0].strVal()
			if !ok {
				if t.args[0].op == "param" {
					return
				}
				c.bad(st, "bare", lbl+" "+t.args[0].String(), pos, "%s reports the error %s, whose text is not a constant", lbl, t.args[0])
				return
			}
			c.check(len(verbsOf(s)) == 0, st, "bare", s, pos, "%s reports the error %q without the arguments that its text needs", lbl, s)
		}
		filled := func(m *Machine, st *State, what string, format, rest *Term, in ssa.CallInstruction) {
			pos := c.p.instrPos(in)
			construct := caller(c, m) + " " + what
			s, ok := format.strVal()
			if !ok {
				if format.op == "param" {
					return
				}
				c.bad(st, "filled", construct, pos, "%s builds an error from the text %s, which is not a constant", lbl, format)
				return
			}
			construct += " " + s
			el, ok := m.variadic(st, rest)
			if !ok {
				c.bad(st, "filled", construct, pos, "%s builds the error %q from arguments that are not known", lbl, s)
				return
			}
			vs := verbsOf(s)
			good := len(vs) == len(el)
			for i := range el {
				if !good || i >= len(vs) {
					break
				}
				t := el[i].typ
				if el[i].op == "iface" {
					t = el[i].aux.(types.Type)
				}
				good = t != nil && fitsVerb(vs[i], t)
				bare(st, el[i], pos)
			}
			c.check(good, st, "filled", construct, pos, "%s builds the error %q with the arguments %s, which do not fit its text", lbl, s, el)
		}
		h := &Hooks{}
		h.Enter = func(m *Machine, st *State, fn *ssa.Function, args []*Term, in ssa.CallInstruction) {
			if fn.Name() == "WithArgs" && fn.Signature.Recv() != nil && isStd(fn.Signature.Recv().Type()) && len(args) == 2 {
				filled(m, st, "WithArgs", args[0], args[1], in)
				st.tags["building"] = args[0]
			}
		}
		h.Call = func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
			if name == "fmt.Errorf" && len(args) == 2 && !strings.HasSuffix(in.Parent().Pkg.Pkg.Path(), "pkg/errors") {
				filled(m, st, name, args[0], args[1], in)
			}
		}
		h.Return = func(m *Machine, st *State, fn *ssa.Function, res []*Term) {
			if fn.Name() == "WithArgs" && st.tags["building"] != nil && len(res) == 1 {
				built[res[0]] = st.tags["building"]
				delete(st.tags, "building")
			}
		}
		outs := c.run(f, h)
		rs := f.Signature.Results()
		if rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
			continue
		}
		typ := f.Name()
		if f.Signature.Recv() != nil {
			typ = namedType(f.Signature.Recv().Type()) + "." + f.Name()
		}
		own := operationErrors[typ]
		_, fail := c.split(outs)
		for _, r := range fail {
			e := r.res[len(r.res)-1]
			bare(r.st, e, c.p.pos(f.Pos()))
			if own == nil {
				continue
			}
			b := built[e]
			if b == nil && e.op == "iface" && isStd(e.aux.(types.Type)) {
				b = e.args[0]
			}
			good := false
			if b != nil {
				s, _ := b.strVal()
				for _, n := range own {
					if k, ok := c.published(n); ok && k == s {
						good = true
					}
				}
			}
			c.check(good, r.st, "operation", typ, c.p.pos(f.Pos()), "%s fails with %s, which is not an error of that operation (%s)", lbl, e, strings.Join(own, ", "))
		}
	}

	// What an error with arguments unwraps to, and its text.
	f := c.fn("pkg/errors", "StandardError.WithArgs")
	if f == nil {
		return
	}
	std, list := c.param(f, 0), c.param(f, 1)
	isIt := func(t *Term, text bool) bool {
		for t != nil {
			t = stripIface(t)
			if t == std {
				return true
			}
			switch {
			case t.op == "call" && !text && strings.HasSuffix(t.s, ".Error"):
				return false
			case t.op == "conv" || t.op == "fmt" && (t.s == "%w" || text && (t.s == "%v" || t.s == "%s")):
				t = t.args[0]
			case t.op == "call" && (t.s == "errors.Unwrap" || strings.HasSuffix(t.s, "error).Error") || strings.HasSuffix(t.s, ".Error")) && len(t.args) > 0:
				t = t.args[0]
			case t.op == "call" && t.s == "fmt.Errorf" && len(t.args) > 0 && (text || t.args[0].op == "fmt"):
				t = t.args[0]
			default:
				return false
			}
		}
		return false
	}
	for _, o := range c.run(f, nil) {
		if o.panics || len(o.res) != 1 || o.st.holds(tEq(o.res[0], tNil)) {
			continue
		}
		e := o.res[0]
		if e.op != "iface" {
			c.bad(o.st, "identity", "WithArgs", c.p.pos(f.Pos()), "the type of the error built is not known: %s", e)
			continue
		}
		dyn := e.aux.(types.Type)
		for _, n := range []string{"Unwrap", "Error"} {
			mf := c.p.prog.LookupMethod(dyn, f.Pkg.Pkg, n)
			if mf == nil {
				c.bad(o.st, "identity", n, c.p.pos(f.Pos()), "the error built has no method %s", n)
				continue
			}
			for _, u := range c.runFrom(mf, nil, []*Term{e.args[0]}, o.st.clone()) {
				if u.panics || len(u.res) != 1 {
					continue
				}
				t := u.res[0]
				if n == "Error" && t.op == "call" && strings.HasSuffix(t.s, "error).Error") && len(t.args) == 1 && t.args[0].op == "call" && t.args[0].s == "fmt.Errorf" {
					// fmt.Errorf(format, args...).Error()
					t = t.args[0].args[0]
				}
				if n == "Unwrap" {
					c.check(isIt(t, false), u.st, "identity", n, c.p.pos(mf.Pos()), "the error built unwraps to %s instead of the published error", t)
					continue
				}
				good := t.op == "call" && t.s == "fmt.Sprintf" && len(t.args) == 2 && isIt(t.args[0], true) && t.args[1].op == "spread" && t.args[1].args[0] == list
				c.check(good, u.st, "identity", n, c.p.pos(mf.Pos()), "the text of the error built is %s instead of that of the published error with its arguments", t)
			}
		}
	}
}
