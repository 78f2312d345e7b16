package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C41"] = checkC41
	checks["C42"] = checkC42
}

// concatParts lists the parts of a text.
func concatParts(t *Term) []*Term {
	if t != nil && t.op == "concat" {
		return t.args
	}
	return []*Term{t}
}

// isJoined tells whether a text is a, sep, b one after another.
func isJoined(st *State, t, a *Term, sep string, b *Term) bool {
	return t == tConcat(tConcat(a, cstr(sep)), b) || t == tConcat(a, tConcat(cstr(sep), b)) || st.same(t, tConcat(tConcat(a, cstr(sep)), b))
}

// printedRole tells what is wrong with a text as that of a role.
func printedRole(st *State, t, role *Term) string {
	name, org := st.valueAt(fieldAddr2(role, "", "Name")), st.valueAt(fieldAddr2(role, "", "Organization"))
	none, known := st.decide(tEq(org, tEmpty))
	switch {
	case isJoined(st, t, org, "/", name) && (!known || !none):
		// without an organisation this is another text
		if known {
			return ""
		}
		return "a role without an organisation is printed with a slash"
	case known && none && (t == name || st.same(t, name)):
		return ""
	}
	return fmt.Sprintf("the role is printed as %s", t)
}

// namePiece recognises one of the two parts of a text: (text, separator, which).
func namePiece(st *State, t *Term) (text *Term, sep string, i int, ok bool) {
	for t != nil && t.op == "call" && t.s == "strings.TrimSpace" {
		t = t.args[0]
	}
	if t == nil {
		return
	}
	if l, k, is := elemOf(t); is && l.op == "call" && (l.s == "strings.Split" || l.s == "strings.SplitN") {
		sep, ok1 := l.args[1].strVal()
		n, ok2 := st.valueInt(k)
		return unwrapText(l.args[0]), sep, n, ok1 && ok2
	}
	if t.op == "ext" && t.args[0].op == "call" && t.args[0].s == "strings.Cut" {
		sep, ok1 := t.args[0].args[1].strVal()
		return unwrapText(t.args[0].args[0]), sep, map[string]int{"0": 0, "1": 1}[t.s], ok1
	}
	if t.op == "sub" || t.op == "slice" {
		idx := func(x *Term) bool {
			if x == nil || x.op != "call" || x.s != "strings.Index" && x.s != "strings.IndexByte" && x.s != "strings.IndexRune" || unwrapText(x.args[0]) != unwrapText(t.args[0]) {
				return false
			}
			if s, ok := x.args[1].strVal(); ok {
				sep = s
			} else if n, ok := x.args[1].intVal(); ok {
				sep = string(rune(n))
			} else {
				return false
			}
			return true
		}
		lo, hi := t.args[1], t.args[2]
		if (lo == nil || st.same(lo, tZero)) && idx(hi) {
			return unwrapText(t.args[0]), sep, 0, true
		}
		if hi == nil && lo != nil {
			found := false
			lo.walk(func(y *Term) bool {
				found = found || idx(y) && st.same(lo, tPlus(y, cint(int64(len(sep)))))
				return true
			})
			return unwrapText(t.args[0]), sep, 1, found
		}
	}
	return
}

func (st *State) valueInt(t *Term) (int, bool) {
	for _, e := range st.eqClass(t) {
		if n, ok := e.intVal(); ok {
			return int(n), true
		}
	}
	return 0, false
}

func checkC41(c *Check) {
	c.rule("role read", 1, "the part of a role's text before the first slash is its organisation, and the rest its name; without a slash all of it is the name")
	c.rule("role printed", 1, "a role is printed as its organisation, a slash and its name, or as its name if there is no organisation")
	c.rule("name read", 1, "a name is read as the last and the first name separated by a comma, or the first and the last name separated by a space")
	c.rule("name printed", 3, "a name is printed as the last name, a comma and the first name")
	c.rule("claims", 3, "the claims of a user are the user's name as printed, the text of every role, and the address that is marked as primary, or else the first")

	if f := c.fn("", "NewRole"); f != nil {
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			e := r.res[0]
			why := wantRole(r.st, c.param(f, 0), r.st.valueAt(fieldAddr2(e, "", "Name")), r.st.valueAt(fieldAddr2(e, "", "Organization")))
			c.check(why == "", r.st, "role read", "NewRole", c.p.pos(f.Pos()), "a role is read wrongly: %s", why)
		}
	}
	if f := c.fn("", "Role.String"); f != nil {
		for _, r := range c.returns(c.run(f, nil)) {
			why := printedRole(r.st, r.res[0], c.param(f, 0))
			c.check(why == "", r.st, "role printed", "String", c.p.pos(f.Pos()), "%s", why)
		}
	}
	if f := c.fn("", "ParseName"); f != nil {
		s := c.param(f, 0)
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			first, last := r.st.valueAt(fieldAddr2(r.res[0], "", "First")), r.st.valueAt(fieldAddr2(r.res[0], "", "Last"))
			t1, sep1, i1, ok1 := namePiece(r.st, first)
			t2, sep2, i2, ok2 := namePiece(r.st, last)
			ok := ok1 && ok2 && t1 == s && t2 == s && sep1 == sep2 && (sep1 == "," && i1 == 1 && i2 == 0 || sep1 == " " && i1 == 0 && i2 == 1)
			c.check(ok, r.st, "name read", "ParseName", c.p.pos(f.Pos()), "the first name is %s and the last name %s", first, last)
		}
	}
	printed := func(st *State, t, name *Term) bool {
		first, last := st.valueAt(fieldAddr2(name, "", "First")), st.valueAt(fieldAddr2(name, "", "Last"))
		e1, k1 := st.decide(tEq(first, tEmpty))
		e2, k2 := st.decide(tEq(last, tEmpty))
		switch {
		case k1 && e1 && k2 && e2:
			return t == tEmpty || st.same(t, tEmpty)
		case k1 && e1:
			return t == last || st.same(t, last)
		case k2 && e2:
			return t.any(func(y *Term) bool { return y == first })
		}
		return k1 && isJoined(st, t, last, ", ", first)
	}
	for _, n := range []string{"Name.GetFullName", "Name.ToString", "Name.GetNameClaim"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		for _, r := range c.returns(c.run(f, nil)) {
			c.check(printed(r.st, r.res[0], c.param(f, 0)), r.st, "name printed", n, c.p.pos(f.Pos()), "a name is printed as %s", r.res[0])
		}
	}
	for _, n := range []string{"User.GetNameClaim", "User.GetFullName"} {
		f := c.fn("", n)
		if f == nil {
			continue
		}
		a := fieldAddr2(c.param(f, 0), "", "Name")
		for _, r := range c.returns(c.run(f, nil)) {
			name := r.st.valueAt(a)
			ok := r.st.holds(tEq(name, tNil)) && r.st.same(r.res[0], tEmpty) || printed(r.st, r.res[0], name)
			c.check(ok, r.st, "claims", n, c.p.pos(f.Pos()), "the name of a user is reported as %s", r.res[0])
		}
	}
	if f := c.fn("", "User.GetMailClaim"); f != nil {
		list := entryLoad(fieldAddr2(c.param(f, 0), "", "EmailAddresses"))
		h := &Hooks{}
		scans(h, scanRule{"none primary", func(st *State, coll *Term) bool { return coll == list }, func(st *State, e *Term) bool {
			return st.fails(st.valueAt(fieldAddr2(e, "", "isPrimary")))
		}})
		for _, r := range c.returns(c.run(f, h)) {
			st, ok := r.st, emptyList(r.st, list) && r.st.same(r.res[0], tEmpty)
			if e, is := fieldVal(r.res[0], "EmailAddress.Address"); is {
				if l, i, is := elemOf(e); is && l == list {
					ok = st.holds(st.valueAt(fieldAddr2(e, "", "isPrimary"))) || st.same(i, tZero) && (st.tags["none primary"] == list)
				}
			}
			c.check(ok, st, "claims", "GetMailClaim", c.p.pos(f.Pos()), "the address of a user is reported as %s, which need not be the primary one", r.res[0])
		}
	}
	if f := c.fn("", "User.GetRolesClaim"); f != nil {
		user := c.param(f, 0)
		list := entryLoad(fieldAddr2(user, "", "Roles"))
		h := &Hooks{}
		pos := c.p.pos(f.Pos())
		h.Append = func(m *Machine, st *State, base *Term, elems []*Term, res *Term, in ssa.Instruction) {
			for _, t := range elems {
				if len(m.loops) == 0 {
					continue
				}
				if e := loopElem(st, m.loops[len(m.loops)-1]); e != nil && printedRole(st, t, e) == "" {
					st.tags["listed"] = e
				}
			}
		}
		h.Store = func(m *Machine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "idx" && len(m.loops) > 0 && val != nil && isString(val.typ) {
				l := m.loops[len(m.loops)-1]
				if e := loopElem(st, l); e != nil && addr.args[1] == l.elem && printedRole(st, val, e) == "" {
					st.tags["listed"] = e
				}
			}
		}
		scans(h, scanRule{"roles", func(st *State, coll *Term) bool { return coll == list }, func(st *State, e *Term) bool {
			ok := st.tags["listed"] == e
			delete(st.tags, "listed")
			return ok
		}})
		for _, r := range c.returns(c.run(f, h)) {
			c.check(r.st.tags["roles"] == list || emptyList(r.st, list), r.st, "claims", "GetRolesClaim", pos, "the text of some role may be missing from the roles that are reported, or be another")
		}
	}
}

// ---- C42

var lookahead = regexp.MustCompile(`\(\?=([^()]*)\)`)

func checkC42(c *Check) {
	c.rule("lengths", 4, "a summary or pattern of a policy gives the minimum and the maximum length of that policy, in this order")
	c.rule("summary", 6, "a summary mentions a requirement if and only if the policy has it")
	c.rule("pattern", 6, "a pattern has the characters and requirements of the policy, and no others")
	c.rule("enforced", 2, "a user is added only if the length of the username is within the published limits")

	nums := func(r ret) (l []*Term, text string) {
		var walk func(t *Term)
		walk = func(t *Term) {
			for _, p := range concatParts(t) {
				switch {
				case p == nil:
				case p.op == "const":
					s, _ := p.strVal()
					text += s
				case p.op == "fmt" && (p.s == "%d" || p.s == "%v") || p.op == "call" && p.s == "strconv.Itoa":
					l = append(l, p.args[0])
					text += "#"
				case p.op == "call" && p.s == "strconv.FormatInt":
					l = append(l, bareNum(p.args[0]))
					text += "#"
				case p.op == "concat":
					walk(p)
				default:
					text += "?"
				}
			}
		}
		walk(r.res[0])
		return
	}
	type req struct {
		field string
		when  bool // required when the field is so
		word  string
		set   string // the characters that it is about
	}
	pwd := []req{{"RequireUppercase", true, "uppercase", "AZ"}, {"RequireLowercase", true, "lowercase", "az"}, {"RequireNumber", true, "number", "09"}, {"RequireNonAlphaNumeric", true, "non alpha", ""}}
	usr := []req{{"AllowUppercase", false, "lowercase", ""}, {"AllowNonAlphaNumeric", false, "alpha-numeric", ""}}
	for _, k := range []struct {
		fn, kind string
		off      int64
		reqs     []req
		pattern  bool
	}{
		{"GetUsernamePolicySummary", "User", 0, usr, false},
		{"GetPasswordPolicySummary", "Password", 0, pwd, false},
		{"GetUsernamePolicyRegex", "User", -1, usr, true},
		{"GetPasswordPolicyRegex", "Password", 0, pwd, true},
	} {
		f := c.fn("", "Database."+k.fn)
		if f == nil {
			continue
		}
		pos := c.p.pos(f.Pos())
		pol := func(st *State, n string) *Term { return c.reqVal(f, 0, "Policy."+k.kind+"."+n) }
		for _, r := range c.returns(c.run(f, nil)) {
			st := r.st
			l, text := nums(r)
			min, max := pol(st, "MinLength"), pol(st, "MaxLength")
			off := k.off
			if k.pattern && k.kind == "User" && !strings.Contains(text, "][") {
				off = 0
			}
			ok := len(l) == 2 && st.same(l[0], tPlus(min, cint(off))) && st.same(l[1], tPlus(max, cint(off)))
			if k.pattern {
				ok = ok && strings.Contains(text, "{#,#}")
			} else {
				ok = ok && strings.Contains(text, "#-#")
			}
			c.check(ok, st, "lengths", k.fn, pos, "%s gives the lengths %v in %q", k.fn, l, text)
			if strings.Contains(text, "?") && !k.pattern {
				c.bad(st, "summary", k.fn, pos, "%s returns a text that is not known: %s", k.fn, r.res[0])
				continue
			}
			set := map[string]bool{}
			known := true
			for _, q := range k.reqs {
				v, ok := st.decide(pol(st, q.field))
				known = known && ok
				set[q.field] = v
			}
			if !known {
				c.bad(st, "summary", k.fn, pos, "%s returns %s whatever the policy requires", k.fn, r.res[0])
				continue
			}
			if !k.pattern {
				for _, q := range k.reqs {
					t := strings.ReplaceAll(text, "non alpha", "non_alpha")
					w := strings.ReplaceAll(q.word, "non alpha", "non_alpha")
					c.check(strings.Contains(t, w) == (set[q.field] == q.when), st, "summary", k.fn+" "+q.field, pos, "%s says %q although %s is %v", k.fn, text, q.field, set[q.field])
				}
				continue
			}
			if !strings.HasPrefix(text, "^") || !strings.HasSuffix(text, "$") {
				c.bad(st, "pattern", k.fn+" anchors", pos, "%s returns the pattern %q, which is satisfied by a part of a text", k.fn, text)
				continue
			}
			if k.kind == "User" {
				bad := userPattern(text, set["AllowUppercase"], set["AllowNonAlphaNumeric"])
				for _, q := range k.reqs {
					c.check(bad == "", st, "pattern", k.fn+" "+q.field, pos, "%s returns the pattern %q: %s", k.fn, text, bad)
				}
				continue
			}
			seen := map[string]bool{}
			for _, g := range lookahead.FindAllStringSubmatch(text, -1) {
				for _, q := range pwd {
					if aboutClass(g[1]) == q.set {
						seen[q.field] = true
					}
				}
			}
			rest := lookahead.ReplaceAllString(text, "")
			c.check(rest == "^.{#,#}$", st, "pattern", k.fn+" rest", pos, "%s returns the pattern %q", k.fn, text)
			for _, q := range pwd {
				c.check(seen[q.field] == set[q.field], st, "pattern", k.fn+" "+q.field, pos, "%s returns the pattern %q although %s is %v", k.fn, text, q.field, set[q.field])
			}
		}
	}
	if f := c.fn("", "Database.AddUser"); f != nil {
		n := c.reqVal(f, 1, "User.Username")
		good, _ := c.split(c.run(f, nil))
		c.some(good, f)
		for _, r := range good {
			min, max := c.reqVal(f, 0, "Policy.User.MinLength"), c.reqVal(f, 0, "Policy.User.MaxLength")
			c.check(r.st.fails(tLt(tLen(n), min)), r.st, "enforced", "minimum", c.p.pos(f.Pos()), "AddUser accepts a username that may be shorter than the policy allows")
			c.check(r.st.fails(tLt(max, tLen(n))), r.st, "enforced", "maximum", c.p.pos(f.Pos()), "AddUser accepts a username that may be longer than the policy allows")
		}
	}
}

// classChars is the set of ASCII characters that a character class matches.
func classChars(class string) (set [128]bool, ok bool) {
	re, err := regexp.Compile("^[" + class + "]$")
	if err != nil {
		return set, false
	}
	for i := 1; i < 128; i++ {
		set[i] = re.MatchString(string(rune(i)))
	}
	return set, true
}

// aboutClass tells which characters a lookahead requires.
func aboutClass(g string) string {
	kind := ""
	n := 0
	for {
		i := strings.IndexByte(g, '[')
		if i < 0 {
			break
		}
		j := strings.IndexByte(g[i:], ']')
		if j < 0 {
			return "?"
		}
		set, ok := classChars(g[i+1 : i+j])
		if !ok {
			return "?"
		}
		k := "?"
		for _, w := range []string{"AZ", "az", "09"} {
			same := true
			for x := 1; x < 128; x++ {
				same = same && set[x] == (x >= int(w[0]) && x <= int(w[1]))
			}
			if same {
				k = w
			}
		}
		if k == "?" {
			other := true
			for x := 1; x < 128; x++ {
				alnum := x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z'
				other = other && !(set[x] && alnum)
			}
			if other {
				k = ""
			}
		}
		if n > 0 && k != kind {
			return "?"
		}
		kind, n = k, n+1
		g = g[i+j:]
	}
	if n == 0 {
		return "?"
	}
	return kind
}

var userPat = regexp.MustCompile(`^\^\[([^\[\]]*)\](?:\[([^\[\]]*)\])?\{#,#\}\$$`)

// userPattern tells what is wrong with the pattern of usernames.
func userPattern(text string, upper, other bool) string {
	m := userPat.FindStringSubmatch(text)
	if m == nil {
		return "it is not a first character followed by a number of others"
	}
	for i, cl := range m[1:] {
		if cl == "" {
			continue
		}
		set, ok := classChars(cl)
		if !ok {
			return "[" + cl + "] is not understood"
		}
		for x := 1; x < 128; x++ {
			low, up, num := x >= 'a' && x <= 'z', x >= 'A' && x <= 'Z', x >= '0' && x <= '9'
			switch {
			case low && !set[x]:
				return fmt.Sprintf("%q is not allowed", rune(x))
			case up && set[x] != upper:
				return fmt.Sprintf("upper case is allowed: %v, not %v", set[x], upper)
			case num && i == 1 && !set[x]:
				return fmt.Sprintf("%q is not allowed", rune(x))
			case !low && !up && !num && set[x] && !other:
				return fmt.Sprintf("%q is allowed", rune(x))
			case strings.ContainsRune("-_.", rune(x)) && i == 1 && other && !set[x]:
				return fmt.Sprintf("%q is not allowed", rune(x))
			}
		}
	}
	return ""
}
