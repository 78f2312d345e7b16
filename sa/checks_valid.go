package main

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C39"] = checkC39
}

// addressPattern tells why a pattern accepts what is not an email address: it
// has to describe the whole text, and to demand one @ with something before and
// after it, no space or control character and no other @.
func addressPattern(p string) string {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return "the pattern is not valid"
	}
	re = re.Simplify()
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpConcat || len(re.Sub) < 5 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return "the pattern does not describe the whole text"
	}
	sub := re.Sub[1 : len(re.Sub)-1]
	ats := 0
	least := [2]int{}
	for _, s := range sub {
		if s.Op == syntax.OpLiteral && len(s.Rune) == 1 && s.Rune[0] == '@' {
			ats++
			if ats > 1 {
				return "the pattern accepts several @"
			}
			continue
		}
		if w := plainChars(s); w != "" {
			return w
		}
		least[ats] += minChars(s)
	}
	if ats != 1 {
		return "the pattern does not demand an @"
	}
	if least[0] < 1 || least[1] < 1 {
		return "the pattern accepts nothing before or after the @"
	}
	return ""
}

func plainChars(re *syntax.Regexp) string {
	switch re.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return "the pattern accepts any character"
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			if r <= ' ' || r == '@' || r == 127 {
				return fmt.Sprintf("the pattern accepts %q", r)
			}
		}
	case syntax.OpCharClass:
		for i := 0; i < len(re.Rune); i += 2 {
			for _, r := range []rune{'@', ' ', '\n', '\t', 0, 127, '"', '<', '>'} {
				if re.Rune[i] <= r && r <= re.Rune[i+1] {
					return fmt.Sprintf("the pattern accepts %q", r)
				}
			}
		}
	case syntax.OpBeginLine, syntax.OpEndLine:
		return "the pattern describes a line"
	}
	for _, s := range re.Sub {
		if w := plainChars(s); w != "" {
			return w
		}
	}
	return ""
}

func minChars(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minChars(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minChars(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += minChars(s)
		}
		return n
	case syntax.OpAlternate:
		n := -1
		for _, s := range re.Sub {
			if k := minChars(s); n < 0 || k < n {
				n = k
			}
		}
		return n
	}
	return 0
}

// isAddress decides that a text is known to be an email address.
func isAddress(st *State, s *Term) string {
	why := "nothing is known about " + s.String()
	for f, v := range st.facts {
		if f.op != "call" || !v || len(f.args) < 2 {
			continue
		}
		switch f.s {
		case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
			if x := f.args[1]; x != s && bareBytes(x) != s && !st.same(x, s) {
				continue
			}
			re := f.args[0]
			if re.op != "call" || !strings.HasPrefix(re.s, "regexp.") || !strings.Contains(re.s, "Compile") {
				continue
			}
			if p, ok := re.args[0].strVal(); ok {
				if why = addressPattern(p); why == "" {
					return ""
				}
			}
		}
	}
	return why
}

// nonZero names the kinds of entries a user consists of.
var userLists = []string{"Passwords", "Names", "EmailAddresses", "Roles", "PublicKeys", "APIKeys", "MfaTokens"}

func checkC39(c *Check) {
	c.rule("added", 1, "a user that is added has a 36-character id, a username and a password")
	c.rule("new user", 1, "so has a user that is made from given parts, but for the id that the adding replaces")
	c.rule("address", 2, "an email address is given to a user only if it is known to match a pattern that describes the whole of an address")
	c.rule("role", 2, "a role is given to a user only if its name is known not to be empty")
	c.rule("loaded", 1, "a database is returned from a file only if every user in it is known to be there, with a 36-character id, a username and a password, and none of its entries is null")
	c.rule("read", 1, "a database is returned for an existing path only if the file was read and decoded without an error, and for another only if nothing exists there")
	c.rule("path", 2, "the file that is examined and read is the one that is later saved to")
	c.rule("path kept", 20, "no operation leaves the database with another path")

	id36 := func(st *State, s *Term) bool {
		if lo, hi, a, b := st.bounds(tLen(s)); a && b && lo == 36 && hi == 36 {
			return true
		}
		return st.same(tLen(s), cint(36)) || s.op == "call" && strings.HasSuffix(s.s, "uuid.UUID).String")
	}
	valid := func(st *State, u *Term) string {
		get := func(f string) *Term { return st.valueAt(fieldAddr2(u, "", f)) }
		if !id36(st, get("ID")) {
			return "its id is not known to have 36 characters"
		}
		if !st.nonEmpty(get("Username")) {
			return "its username may be empty"
		}
		p := get("Passwords")
		if lo, _, ok, _ := st.bounds(tLen(p)); !ok || lo < 1 {
			if len(listParts(st, p)) == 0 || p.op != "append" {
				return "it may have no password"
			}
		}
		return ""
	}
	nd := c.fn("", "NewDatabase")
	for _, f := range c.libAPI() {
		if f.Pkg.Pkg.Path() != modulePath || f == nd {
			continue
		}
		lbl, pos := funcLabel(f), c.p.pos(f.Pos())
		h := &Hooks{Store: func(m *Machine, st *State, a, v *Term, in ssa.Instruction) {
			if a.op != "idx" && fldKey(a) != "User.EmailAddress" || v == tNil || !isFresh(v) {
				return
			}
			switch namedType(elemOrSelf(elemOrSelf(a.typ))) {
			case "EmailAddress":
				s := st.valueAt(fieldAddr2(v, "", "Address"))
				why := isAddress(st, s)
				c.check(why == "", st, "address", lbl, c.p.instrPos(in), "%s gives a user the email address %s: %s", lbl, s, why)
			case "Role":
				s := st.valueAt(fieldAddr2(v, "", "Name"))
				c.check(st.nonEmpty(s), st, "role", lbl, c.p.instrPos(in), "%s gives a user the role name %s, which may be empty", lbl, s)
			}
		}}
		outs := c.run(f, h)
		isDB := strings.HasPrefix(lbl, "(*Database).")
		if isDB {
			for _, r := range c.returns(outs) {
				a := fieldAddr(c.param(f, 0), "path")
				c.check(r.st.valueAt(a) == entryLoad(a), r.st, "path kept", lbl, pos, "%s leaves the path %s", lbl, r.st.valueAt(a))
			}
		}
		for _, r := range c.successes(f, outs) {
			st := r.st
			if isDB {
				a := fieldAddr(c.param(f, 0), "Users")
				for _, u := range listParts(st, st.valueAt(a)) {
					if isFresh(u) {
						why := valid(st, u)
						c.check(why == "", st, "added", lbl, pos, "%s adds the user %s: %s", lbl, u, why)
					}
				}
			}
			if strings.HasSuffix(lbl, "NewUserWithRoles") {
				why := valid(st, r.res[0])
				c.check(why == "", st, "new user", lbl, pos, "%s returns the user %s: %s", lbl, r.res[0], why)
			}
		}
	}
	if nd == nil {
		return
	}
	pos := c.p.pos(nd.Pos())
	fp := c.param(nd, 0)
	h := &Hooks{Call: func(m *Machine, st *State, name string, args []*Term, in ssa.CallInstruction) {
		if in.Parent().Pkg == nil || in.Parent().Pkg.Pkg.Path() != modulePath {
			return
		}
		switch name {
		case "os.Stat", "os.Lstat", "os.ReadFile", "io/ioutil.ReadFile", "os.Open", "os.OpenFile":
			c.check(args[0] == fp, st, "path", "NewDatabase "+name, c.p.instrPos(in), "NewDatabase examines %s", args[0])
		}
	}}
	h.Panic = func(m *Machine, st *State, in ssa.Instruction, what string, x *Term) {
		scanned := scannedEntry(st, x)
		if what == "nil dereference" && !scanned {
			c.bad(st, "loaded", "NewDatabase "+what, c.p.instrPos(in), "NewDatabase uses %s, which may be null in the file, before refusing it", x)
		}
	}
	scanValid(h, valid)
	good, _ := c.split(c.run(nd, h))
	c.some(good, nd)
	// callKnown finds a call of which the error is known to be nil.
	callKnown := func(st *State, pre ...string) bool {
		for f, v := range st.facts {
			if !v || f.op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				x := f.args[i]
				if f.args[1-i] != tNil {
					continue
				}
				if x.op == "ext" && x.s == "1" {
					x = x.args[0]
				}
				for _, p := range pre {
					if x.op == "call" && x.s == p {
						return true
					}
				}
			}
		}
		return false
	}
	for _, r := range good {
		st, db := r.st, r.res[0]
		p := st.valueAt(fieldAddr2(db, "", "path"))
		c.check(p == fp, st, "path", "NewDatabase path", pos, "NewDatabase returns a database that is saved to %s", p)
		if d := st.dirty[db]; d != nil && d.op == "decoded" {
			okRead := callKnown(st, "os.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll")
			okDec := callKnown(st, "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode")
			if !okRead && d.args[0].any(func(y *Term) bool { return y.op == "call" && y.s == "os.Open" }) {
				okRead = callKnown(st, "os.Open")
			}
			c.check(okRead, st, "read", "NewDatabase reading", pos, "NewDatabase returns a database although reading the file may have failed")
			c.check(okDec, st, "read", "NewDatabase decoding", pos, "NewDatabase returns a database although the content of the file may be malformed")
			u := st.valueAt(fieldAddr2(db, "", "Users"))
			c.check(st.tags["valid users"] == u || st.same(tLen(u), tZero), st, "loaded", "NewDatabase", pos, "NewDatabase returns a database of which the users are not known to be valid")
			continue
		}
		missing := false
		for f, v := range st.facts {
			if v && f.op == "call" && (f.s == "os.IsNotExist" || f.s == "errors.Is" && strings.Contains(f.String(), "ErrNotExist")) {
				missing = true
			}
		}
		c.check(missing, st, "read", "NewDatabase new", pos, "NewDatabase makes a new database although something may exist at the path")
	}
}

// scanValid keeps track of the lists that are known to have no null entries,
// and of a list of users all of whom are known to be valid.
func scanValid(h *Hooks, valid func(st *State, u *Term) string) {
	var rules []scanRule
	for _, l := range userLists {
		l := l
		rules = append(rules, scanRule{"no null " + l, func(st *State, coll *Term) bool { return valKey(coll) == "User."+l }, func(st *State, e *Term) bool { return st.fails(tEq(e, tNil)) }})
	}
	rules = append(rules, scanRule{"valid users", func(st *State, coll *Term) bool { return valKey(coll) == "Database.Users" }, func(st *State, e *Term) bool {
		if !st.fails(tEq(e, tNil)) || valid(st, e) != "" {
			return false
		}
		for _, l := range userLists {
			v := st.valueAt(fieldAddr2(e, "", l))
			if st.tags["no null "+l] != v && !st.same(tLen(v), tZero) {
				return false
			}
		}
		return true
	}})
	scans(h, rules...)
}

// scannedEntry tells whether a value is an entry of what was found to be valid.
func scannedEntry(st *State, x *Term) bool {
	scanned := false
	if coll, _, ok := elemOf(x); ok {
		for _, l := range userLists {
			scanned = scanned || st.tags["no null "+l] == coll
		}
		if v := st.tags["valid users"]; v != nil {
			scanned = scanned || x.any(func(y *Term) bool { u, _, ok := elemOf(y); return ok && u == v })
		}
	}
	return scanned
}
