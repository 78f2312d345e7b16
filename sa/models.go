package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// alias maps names of functions that are the same function.
func alias(n string) string {
	switch n {
	case "io/ioutil.ReadFile":
		return "os.ReadFile"
	case "io/ioutil.WriteFile":
		return "os.WriteFile"
	case "io/ioutil.TempFile":
		return "os.CreateTemp"
	case "io/ioutil.TempDir":
		return "os.MkdirTemp"
	case "io/ioutil.ReadAll":
		return "io.ReadAll"
	case "io/ioutil.ReadDir":
		return "os.ReadDir"
	case "encoding/json.MarshalIndent":
		return "encoding/json.Marshal"
	}
	return n
}

var purePrefixes = []string{
	"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "math/bits.", "path.", "path/filepath.",
	"encoding/hex.", "net/url.", "bytes.", "regexp.", "(*regexp.Regexp).", "(time.Time).", "(time.Duration).",
	"(*encoding/base64.Encoding).", "(encoding/base64.Encoding).", "(*encoding/base32.Encoding).", "(encoding/base32.Encoding).",
	"crypto/subtle.", "crypto/elliptic.", "golang.org/x/crypto/ssh.", "(golang.org/x/crypto/ssh.", "crypto/x509.",
	"(*crypto/x509.Certificate).CheckSignature", "encoding/pem.", "(error).Error", "(io/fs.FileInfo).", "(io/fs.FileMode).", "reflect.", "(reflect.",
	"(encoding/binary.", "(github.com/satori/go.uuid.UUID).", "golang.org/x/crypto/openpgp.", "github.com/iancoleman/strcase.",
	"(*crypto/ecdsa.PublicKey).", "(*crypto/rsa.PublicKey).", "(crypto/elliptic.Curve).", "(*golang.org/x/crypto/openpgp/packet.PublicKey).",
	"maps.", "(*strings.Replacer).", "crypto/ecdsa.Verify", "time.Unix", "time.Date", "time.Duration",
}

var pureNames = map[string]bool{
	"errors.Is": true, "errors.Unwrap": true, "errors.New": true, "fmt.Errorf": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "crypto/hmac.Equal": true,
	"golang.org/x/crypto/bcrypt.CompareHashAndPassword": true, "golang.org/x/crypto/bcrypt.Cost": true,
	"encoding/json.Valid": true, "(*os.File).Name": true, "math/big.NewInt": false,
	"(*math/big.Int).Int64": true, "(*math/big.Int).Uint64": true, "(*math/big.Int).Cmp": true, "(*math/big.Int).Sign": true,
	"(*math/big.Int).Bytes": true, "(*math/big.Int).String": true, "(*math/big.Int).BitLen": true, "(*math/big.Int).IsInt64": true,
	"sort.SearchStrings": true, "slices.Contains": true, "slices.Index": true, "slices.Equal": true, "slices.IndexFunc": true, "slices.ContainsFunc": true,
	"(net/http.Header).Get": true, "hash/crc32.ChecksumIEEE": true, "(fmt.Stringer).String": true,
}

var impureNames = map[string]bool{
	"path/filepath.EvalSymlinks": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.Abs": true,
	"math/rand.Int": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "bytes.NewReader": true, "strings.NewReader": true,
	"strings.NewReplacer": true, "(reflect.Value).Set": true, "(reflect.Value).Call": true,
}

// writesArgs lists the functions that change what their arguments point to,
// among packages whose other functions do not.
func writesArgs(n string) bool {
	switch n {
	case "errors.As", "encoding/hex.Decode", "encoding/hex.Encode", "unicode/utf8.EncodeRune", "crypto/subtle.ConstantTimeCopy", "math/rand.Read", "(*math/rand.Rand).Read",
		"(*os.File).Read", "(*os.File).ReadAt", "maps.Copy", "maps.DeleteFunc", "maps.Insert", "reflect.Copy", "reflect.Swapper", "regexp.Expand", "math/rand.Shuffle", "(*math/rand.Rand).Shuffle":
		return true
	}
	for _, p := range []string{"fmt.Scan", "fmt.Sscan", "fmt.Fscan"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasPrefix(n, "(*encoding/base") && (strings.HasSuffix(n, ").Decode") || strings.HasSuffix(n, ").Encode"))
}

func isPure(n string) bool {
	if writesArgs(n) || impureNames[n] || strings.HasPrefix(n, "(reflect.Value).Set") {
		return false
	}
	if v, ok := pureNames[n]; ok {
		return v
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// readOnly lists impure functions that do not change what their arguments point to.
func readOnly(n string) bool {
	if writesArgs(n) {
		return false
	}
	for _, p := range []string{"fmt.", "log.", "(*log.Logger).", "(*go.uber.org/zap", "go.uber.org/zap", "os.", "(*os.File).", "(*os.", "encoding/json.Marshal",
		"time.", "golang.org/x/crypto/bcrypt.", "crypto/rand.", "math/rand.", "sync.", "(*sync.", "(sync.", "path/filepath.", "(*math/rand", "github.com/satori/go.uuid.",
		"github.com/greenpau/versioned.", "(*github.com/greenpau/versioned", "errors.", "testing.", "(*testing.", "runtime.", "(*encoding/json.Encoder)", "encoding/json.New", "io.WriteString", "(io.Writer).", "crypto/hmac.New",
		"crypto/sha", "crypto/md5"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func nonNilCall(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "regexp.MustCompile", "crypto/elliptic.P256", "crypto/elliptic.P384", "crypto/elliptic.P521", "crypto/hmac.New",
		"(encoding/base32.Encoding).WithPadding", "(encoding/base64.Encoding).WithPadding", "strings.NewReader", "strings.NewReplacer",
		"math/big.NewInt", "github.com/greenpau/versioned.NewPackageManager", "github.com/urfave/cli/v2.NewApp", "strings.Split", "encoding/json.NewDecoder",
		"encoding/json.NewEncoder", "reflect.TypeOf":
		return true
	}
	return false
}

// normArg prepares an argument of a pure function: contents instead of references.
func (m *Machine) normArg(st *State, a *Term) *Term {
	if a == nil {
		return nil
	}
	if a.op == "iface" {
		return m.normArg(st, a.args[0])
	}
	if a.typ != nil && isBytes(a.typ) {
		return st.bytesVal(a)
	}
	if a.op == "slice" {
		if l, ok := m.variadic(st, a); ok {
			n := make([]*Term, len(l))
			for i, x := range l {
				n[i] = m.normArg(st, x)
			}
			return mk("list", "", nil, nil, n...)
		}
	}
	if c, ok := st.heap[mkCell("sb", a, types.Typ[types.String])]; ok {
		return mk("reader", "", nil, nil, c)
	}
	if c, ok := st.heap[mkCell("big", a, types.Typ[types.String])]; ok {
		return mk("bigint", "", nil, nil, c)
	}
	return a
}

// asString is the string value of a byte slice or string.
func (st *State) asString(t *Term) *Term {
	c := st.bytesVal(t)
	if c.op == "bytes" && c.s == "" {
		return c.args[0]
	}
	if c == tNil {
		return tEmpty
	}
	if c.isConst() || c.typ != nil && isString(c.typ) {
		return c
	}
	if c.op == "concat" || c.op == "star" {
		return c
	}
	return mk("str", "", types.Typ[types.String], nil, c)
}

func (m *Machine) newObj(st *State, instr ssa.Instruction, name string, typ types.Type) *Term {
	o := mk("alloc", name+fmt.Sprint(m.p.instrID(instr)), typ, instr, m.ctx)
	for a := range st.heap {
		if rootOf(a) == o {
			delete(st.heap, a)
		}
	}
	delete(st.dirty, o)
	delete(st.escaped, o)
	return o
}

func (st *State) sb(o *Term) *Term {
	return st.read(mkCell("sb", o, types.Typ[types.String]), types.Typ[types.String])
}
func (st *State) setSB(o, v *Term) { st.heap[mkCell("sb", o, types.Typ[types.String])] = v }
func (st *State) appendSB(o *Term, v *Term) {
	old := st.sb(o)
	if old.op == "star" {
		st.setSB(o, starOf(types.Typ[types.String], old, v))
		return
	}
	st.setSB(o, tConcat(old, v))
}

func stripIface(t *Term) *Term {
	if t != nil && t.op == "iface" {
		return t.args[0]
	}
	return t
}

// writerObj is the buffer behind a writer, if the writer is one.
func (st *State) writerObj(w *Term) (*Term, bool) {
	var typ types.Type
	if w.op == "iface" {
		typ = w.aux.(types.Type)
		w = w.args[0]
	} else {
		typ = w.typ
	}
	if typ == nil {
		return nil, false
	}
	switch types.TypeString(typ, nil) {
	case "*strings.Builder", "*bytes.Buffer":
		return w, true
	}
	if _, ok := st.heap[mkCell("hkind", w, types.Typ[types.String])]; ok {
		return w, true
	}
	return nil, false
}

var hashNew = map[string]int64{
	"crypto/sha1.New": 20, "crypto/sha256.New": 32, "crypto/sha512.New": 64, "crypto/sha256.New224": 28, "crypto/sha512.New384": 48, "crypto/md5.New": 16,
}
var hashSum = map[string]string{
	"crypto/sha1.Sum": "crypto/sha1.New", "crypto/sha256.Sum256": "crypto/sha256.New", "crypto/sha512.Sum512": "crypto/sha512.New", "crypto/md5.Sum": "crypto/md5.New",
	"crypto/sha512.Sum384": "crypto/sha512.New384", "crypto/sha256.Sum224": "crypto/sha256.New224",
}

// fmtVerb renders one operand.
func (m *Machine) fmtVerb(st *State, verb string, a *Term) *Term {
	v := verb[len(verb)-1]
	if a.op == "iface" {
		dyn := a.aux.(types.Type)
		x := a.args[0]
		plain := isString(dyn) && !hasMethod(dyn, "String") && !hasMethod(dyn, "Error")
		if (v == 's' || v == 'v') && len(verb) == 2 {
			if plain {
				return x
			}
			if isBytes(dyn) && v == 's' {
				return st.asString(x)
			}
			if c, ok := x.intVal(); ok && v == 'v' && isInteger(dyn) && !hasMethod(dyn, "String") {
				return cstr(fmt.Sprint(c))
			}
		}
		if v == 'd' && len(verb) == 2 {
			if c, ok := x.intVal(); ok {
				return cstr(fmt.Sprint(c))
			}
		}
		if isBytes(dyn) {
			x = st.bytesVal(x)
		}
		return mk("fmt", verb, types.Typ[types.String], nil, x)
	}
	return mk("fmt", verb, types.Typ[types.String], nil, a)
}

func hasMethod(t types.Type, n string) bool {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// padFormat recognises a format made of "%0", a number and "d": the number.
func padFormat(t *Term) *Term {
	if t == nil || t.op != "concat" || len(t.args) != 3 {
		return nil
	}
	a, ok1 := t.args[0].strVal()
	b, ok2 := t.args[2].strVal()
	if !ok1 || !ok2 || a != "%0" || b != "d" {
		return nil
	}
	if w := t.args[1]; w.op == "fmt" && (w.s == "%d" || w.s == "%v") || w.op == "call" && w.s == "strconv.Itoa" {
		return w.args[0]
	}
	return nil
}

func (m *Machine) sprintf(st *State, format *Term, rest *Term) *Term {
	el, ok := m.variadic(st, rest)
	f, ok2 := format.strVal()
	if w := padFormat(format); ok && w != nil && len(el) == 1 {
		return mk("fmtw", "%0*d", types.Typ[types.String], nil, w, stripIface(el[0]))
	}
	if !ok || !ok2 {
		args := []*Term{format}
		if ok {
			for _, e := range el {
				args = append(args, m.normArg(st, e))
			}
		} else {
			args = append(args, mk("spread", "", nil, nil, m.normArg(st, rest)))
		}
		return mk("call", "fmt.Sprintf", types.Typ[types.String], nil, args...)
	}
	var parts []*Term
	i, n := 0, 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, cstr(f[i:]))
			break
		}
		parts = append(parts, cstr(f[i:i+j]))
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("0123456789.+-# *", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			parts = append(parts, cstr(f[i:]))
			break
		}
		verb := f[i : k+1]
		i = k + 1
		if verb == "%%" {
			parts = append(parts, cstr("%"))
			continue
		}
		if strings.Contains(verb, "*") {
			t := mk("fmtw", verb, types.Typ[types.String], nil)
			for w := 0; w <= strings.Count(verb, "*") && n < len(el); w++ {
				t = mk("fmtw", verb, types.Typ[types.String], nil, append(append([]*Term(nil), t.args...), stripIface(el[n]))...)
				n++
			}
			parts = append(parts, t)
			continue
		}
		if n < len(el) {
			parts = append(parts, m.fmtVerb(st, verb, el[n]))
			n++
		} else {
			parts = append(parts, cstr("%!missing"))
		}
	}
	for ; n < len(el); n++ {
		parts = append(parts, mk("fmt", "extra", types.Typ[types.String], nil, stripIface(el[n])))
	}
	return tConcat(parts...)
}

// external models a function of which only the declaration is analysed.
func (m *Machine) external(st *State, name string, args []*Term, ct *calleeT, instr ssa.CallInstruction, dst ssa.Value) (res, panics []*State) {
	sig := ct.sig
	if ct.fn != nil {
		sig = ct.fn.Signature
	}
	rt := resultType(sig)
	ret := func(v *Term) ([]*State, []*State) {
		setDst(st, dst, v)
		return one(st), nil
	}
	site := m.site(instr)
	call := func(as ...*Term) *Term { return mk("call", name, rt, instr, as...) }
	recvBuf := func() bool {
		return strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).")
	}
	intT, errT := types.Typ[types.Int], types.Universe.Lookup("error").Type()
	okWrite := func() *Term { return mk("tuple", "", nil, nil, mk("ext", "0", intT, nil, call(site)), tNil) }
	_ = errT

	if !isPure(name) {
		if isW := strings.HasSuffix(name, ".Write") && len(args) == 2; isW {
			if o, ok := st.writerObj(args[0]); ok {
				st.appendSB(o, st.asString(args[1]))
				return ret(okWrite())
			}
		}
	}
	if recvBuf() {
		o := args[0]
		switch name[strings.LastIndex(name, ".")+1:] {
		case "WriteString":
			st.appendSB(o, args[1])
			return ret(okWrite())
		case "Write":
			st.appendSB(o, st.asString(args[1]))
			return ret(okWrite())
		case "WriteByte", "WriteRune":
			c := mk("str", "rune", types.Typ[types.String], nil, args[1])
			if k, ok := args[1].intVal(); ok {
				c = cstr(string(rune(k)))
			}
			st.appendSB(o, c)
			if strings.HasSuffix(name, "Byte") {
				return ret(tNil)
			}
			return ret(okWrite())
		case "String":
			return ret(st.sb(o))
		case "Bytes":
			return ret(mk("bytes", "", types.NewSlice(types.Typ[types.Byte]), nil, st.sb(o)))
		case "Len":
			return ret(tLen(st.sb(o)))
		case "Reset":
			st.setSB(o, tEmpty)
			return ret(nil)
		case "Grow":
			return ret(nil)
		}
	}
	switch name {
	// ---- locks
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Lock", "(sync.Locker).Unlock":
		op := name[strings.LastIndex(name, ".")+1:]
		l := stripIface(args[0])
		if m.h.Lock != nil {
			m.h.Lock(m, st, op, l, instr)
		}
		switch op {
		case "Lock":
			st.locks[l] = "W"
		case "RLock":
			st.locks[l] = "R"
		default:
			delete(st.locks, l)
		}
		return ret(nil)
	case "(*sync.Once).Do":
		c := &calleeT{sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
		m.resolveDyn(c, args[1])
		if c.fn != nil {
			alt := st.clone()
			r, p := m.invoke(st, instr, c, nil, nil)
			return append(r, alt), p
		}
		return ret(nil)
	// ---- text
	case "fmt.Sprintf":
		return ret(m.sprintf(st, args[0], args[1]))
	case "fmt.Errorf":
		f := m.sprintf(st, args[0], args[1])
		as := []*Term{f}
		if el, ok := m.variadic(st, args[1]); ok {
			for _, e := range el {
				as = append(as, m.normArg(st, e))
			}
		}
		return ret(call(as...))
	case "fmt.Sprint", "fmt.Sprintln":
		if el, ok := m.variadic(st, args[0]); ok {
			if len(el) == 1 && name == "fmt.Sprint" {
				return ret(m.fmtVerb(st, "%v", el[0]))
			}
			var n []*Term
			for _, e := range el {
				n = append(n, m.normArg(st, e))
			}
			return ret(call(n...))
		}
		return ret(call(args...))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		var txt *Term
		switch name {
		case "fmt.Fprintf":
			txt = m.sprintf(st, args[1], args[2])
		case "io.WriteString":
			txt = args[1]
		default:
			txt = mk("call", name, types.Typ[types.String], nil, m.normArg(st, args[1]))
		}
		if o, ok := st.writerObj(args[0]); ok {
			st.appendSB(o, txt)
			return ret(okWrite())
		}
		return ret(m.tupleOf(call(args[0], txt, site), sig))
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "strings.Title":
		x := args[0]
		if c := st.constOf(x); c != nil {
			x = c
		}
		if s, ok := x.strVal(); ok {
			switch name {
			case "strings.TrimSpace":
				return ret(cstr(strings.TrimSpace(s)))
			case "strings.ToLower":
				return ret(cstr(strings.ToLower(s)))
			case "strings.ToUpper":
				return ret(cstr(strings.ToUpper(s)))
			}
		}
		if x.op == "call" && x.s == name {
			return ret(x)
		}
		return ret(call(x))
	case "bytes.TrimSpace", "bytes.ToLower":
		n := "strings." + name[6:]
		x := st.asString(args[0])
		if s, ok := x.strVal(); ok {
			s = map[string]string{"strings.TrimSpace": strings.TrimSpace(s), "strings.ToLower": strings.ToLower(s)}[n]
			return ret(mk("bytes", "", args[0].typ, nil, cstr(s)))
		}
		if x.op == "call" && x.s == n {
			return ret(mk("bytes", "", args[0].typ, nil, x))
		}
		return ret(mk("bytes", "", types.NewSlice(types.Typ[types.Byte]), nil, mk("call", n, types.Typ[types.String], nil, x)))
	case "bytes.Equal":
		return ret(tEq(st.asString(args[0]), st.asString(args[1])))
	case "strings.EqualFold":
		a := mk("call", "strings.ToLower", types.Typ[types.String], nil, args[0])
		b := mk("call", "strings.ToLower", types.Typ[types.String], nil, args[1])
		return ret(mk("call", name, rt, nil, a, b))
	case "strings.Join":
		if l, ok := m.variadic(st, args[0]); ok {
			var ps []*Term
			for i, e := range l {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, e)
			}
			return ret(tConcat(ps...))
		}
		return ret(call(args...))
	case "strings.ReplaceAll", "strings.Replace", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		all := true
		for _, a := range args {
			if !a.isConst() {
				all = false
			}
		}
		if all && len(args) == 2 {
			a, _ := args[0].strVal()
			b, _ := args[1].strVal()
			switch name {
			case "strings.HasPrefix":
				return ret(cbool(strings.HasPrefix(a, b)))
			case "strings.HasSuffix":
				return ret(cbool(strings.HasSuffix(a, b)))
			case "strings.Contains":
				return ret(cbool(strings.Contains(a, b)))
			}
		}
		return ret(call(args...))
	case "strings.Index", "strings.IndexAny", "strings.LastIndex", "strings.IndexByte", "bytes.Index", "bytes.IndexAny", "bytes.LastIndex", "bytes.IndexByte":
		if a, ok := st.asString(args[0]).strVal(); ok {
			if a == "" && !strings.HasSuffix(name, ".Index") && !strings.HasSuffix(name, ".LastIndex") {
				return ret(cint(-1))
			}
			if b, ok := st.asString(args[1]).strVal(); ok && !strings.HasSuffix(name, "Byte") {
				n := strings.Index(a, b)
				switch {
				case strings.HasSuffix(name, ".IndexAny"):
					n = strings.IndexAny(a, b)
				case strings.HasSuffix(name, ".LastIndex"):
					n = strings.LastIndex(a, b)
				}
				return ret(cint(int64(n)))
			}
		}
		return ret(call(args...))
	case "bytes.NewBufferString", "bytes.NewBuffer", "strings.NewReader", "bytes.NewReader":
		o := m.newObj(st, instr, "buf", rt)
		st.setSB(o, st.asString(args[0]))
		return ret(o)
	// ---- hashes
	case "crypto/hmac.New":
		o := m.newObj(st, instr, "mac", rt)
		st.heap[mkCell("hkind", o, types.Typ[types.String])] = mk("hmac", "", nil, nil, args[0], st.asString(args[1]))
		return ret(o)
	case "crypto/sha1.Sum", "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/md5.Sum", "crypto/sha512.Sum384", "crypto/sha256.Sum224":
		return ret(mk("hsum", "", rt, nil, mk("hash", hashSum[name], nil, nil), st.asString(args[0])))
	case "(hash.Hash).Sum":
		if k, ok := st.heap[mkCell("hkind", args[0], types.Typ[types.String])]; ok {
			s := mk("hsum", "", rt, nil, k, st.sb(args[0]))
			if args[1] != tNil {
				return ret(mk("appends", "", rt, nil, st.bytesVal(args[1]), s))
			}
			return ret(s)
		}
	case "(hash.Hash).Reset":
		st.setSB(args[0], tEmpty)
		return ret(nil)
	case "(hash.Hash).Size":
		return ret(call(args...))
	// ---- bytes and numbers
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.littleEndian).PutUint32":
		st.heap[mkCell("bytes", contentRoot(args[1]), types.Typ[types.String])] = mk("str", "", types.Typ[types.String], nil, mk("be", name, nil, nil, args[2]))
		return ret(nil)
	case "encoding/binary.Write":
		if o, ok := st.writerObj(args[0]); ok {
			st.appendSB(o, mk("str", "", types.Typ[types.String], nil, mk("be", "write", nil, nil, stripIface(args[1]), stripIface(args[2]))))
			return ret(tNil)
		}
	case "(*encoding/base64.Encoding).DecodeString":
		return ret(m.tupleOf(call(args[0], args[1]), sig))
	case "(*encoding/base64.Encoding).Decode":
		tup := types.NewTuple(types.NewVar(0, nil, "", types.NewSlice(types.Typ[types.Byte])), types.NewVar(0, nil, "", errT))
		c := mk("call", "(*encoding/base64.Encoding).DecodeString", tup, nil, args[0], st.asString(args[2]))
		st.heap[mkCell("bytes", contentRoot(args[1]), types.Typ[types.String])] = c
		return ret(mk("tuple", "", nil, nil, mk("ext", "n", intT, nil, c), mk("ext", "1", errT, nil, c)))
	case "(*math/big.Int).SetBytes", "math/big.NewInt", "(*math/big.Int).SetString", "(*math/big.Int).Set", "(*math/big.Int).SetInt64", "(*math/big.Int).SetUint64":
		var o *Term
		var c *Term
		if name == "math/big.NewInt" {
			o = m.newObj(st, instr, "big", rt)
			c = args[0]
		} else {
			o = args[0]
			c = args[1]
			if c.typ != nil && isBytes(c.typ) {
				c = st.bytesVal(c)
			}
			if x, ok := st.heap[mkCell("big", c, types.Typ[types.String])]; ok {
				c = x
			}
		}
		st.heap[mkCell("big", o, types.Typ[types.String])] = c
		if name == "(*math/big.Int).SetString" {
			return ret(mk("tuple", "", nil, nil, o, mk("call", name, types.Typ[types.Bool], nil, args[1:]...)))
		}
		return ret(o)
	case "crypto/rand.Int":
		return ret(m.tupleOf(call(args[0], m.normArg(st, args[1]), site), sig))
	case "crypto/rand.Read", "io.ReadFull", "(io.Reader).Read":
		buf := args[len(args)-1]
		src := args[0]
		if name == "crypto/rand.Read" {
			src = mk("global", "crypto/rand.Reader", nil, nil)
		}
		c := call(src, site)
		st.heap[mkCell("bytes", contentRoot(buf), types.Typ[types.String])] = mk("str", "", types.Typ[types.String], nil, mk("readfrom", "", nil, nil, stripIface(src), site))
		return ret(m.tupleOf(c, sig))
	// ---- serialisation
	case "encoding/json.Unmarshal":
		content := st.asString(args[0])
		m.decodeInto(st, args[1], content, site)
		t := ""
		if args[1].op == "iface" {
			t = args[1].s
		}
		return ret(mk("call", name, rt, instr, content, mk("type", t, nil, nil)))
	case "encoding/json.NewDecoder", "encoding/json.NewEncoder":
		o := m.newObj(st, instr, "codec", rt)
		st.heap[mkCell("stream", o, types.Typ[types.String])] = args[0]
		return ret(o)
	case "(*encoding/json.Decoder).Decode":
		if src := st.heap[mkCell("stream", args[0], types.Typ[types.String])]; src != nil {
			in := stripIface(src)
			content := mk("call", "readall", types.Typ[types.String], nil, in, site)
			if c, ok := st.heap[mkCell("sb", in, types.Typ[types.String])]; ok {
				content = c
			}
			m.decodeInto(st, args[1], content, site)
			t := ""
			if args[1].op == "iface" {
				t = args[1].s
			}
			return ret(mk("call", "encoding/json.Unmarshal", rt, instr, content, mk("type", t, nil, nil)))
		}
	case "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Decoder).UseNumber", "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML":
		return ret(nil)
	case "(*encoding/json.Encoder).Encode":
		if w := st.heap[mkCell("stream", args[0], types.Typ[types.String])]; w != nil {
			data := mk("ext", "0", types.NewSlice(types.Typ[types.Byte]), nil, mk("call", "encoding/json.Marshal", nil, instr, stripIface(args[1]), site))
			if o, ok := st.writerObj(w); ok {
				st.appendSB(o, mk("str", "", types.Typ[types.String], nil, data))
			}
			return ret(mk("call", name, rt, instr, w, data, site))
		}
	case "encoding/json.Marshal":
		return ret(m.tupleOf(call(stripIface(args[0]), site), sig))
	case "github.com/satori/go.uuid.Must":
		return ret(args[0])
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return nil, nil
	}
	if h, ok := hashNew[name]; ok && len(args) == 0 {
		_ = h
		o := m.newObj(st, instr, "hash", rt)
		st.heap[mkCell("hkind", o, types.Typ[types.String])] = mk("hash", name, nil, nil)
		return ret(o)
	}
	// functions of the module called back by the external function
	if !m.initMode {
		for _, a := range args {
			if l, ok := m.variadicFuncs(st, a); ok {
				for _, f := range l {
					st, panics = m.callback(st, f, instr, panics)
				}
			}
		}
	}
	if isPure(name) {
		n := make([]*Term, len(args))
		for i, a := range args {
			n[i] = m.normArg(st, a)
		}
		if rt == nil {
			return one(st), panics
		}
		r := mk("call", name, rt, instr, n...)
		setDst(st, dst, m.tupleOf(r, sig))
		return one(st), panics
	}
	// unknown or impure
	if !readOnly(name) {
		m.clobber(st, args, site)
		if name == "dynamic" {
			st.havoc(site)
		}
	}
	n := make([]*Term, 0, len(args)+1)
	for _, a := range args {
		n = append(n, m.normArg(st, a))
	}
	if ct.dyn != nil {
		n = append(n, ct.dyn)
	}
	r := mk("call", name, rt, instr, append(n, site)...)
	if rt != nil {
		setDst(st, dst, m.tupleOf(r, sig))
	}
	return one(st), panics
}

// clobber forgets what unknown code may change through its arguments.
func (m *Machine) clobber(st *State, args []*Term, site *Term) {
	for _, a := range args {
		a = stripIface(a)
		if a == nil || a.isConst() || a.op == "func" || a.op == "global" {
			continue
		}
		ref := isFresh(rootOf(a)) || a.typ != nil && (isPtr(a.typ) || isSlice(a.typ) || isMap(a.typ))
		if !ref {
			continue
		}
		st.escape(a)
		r := rootOf(a)
		for h := range st.heap {
			if rootOf(h) == r {
				delete(st.heap, h)
			}
		}
		st.dirty[r] = site
	}
}

// variadicFuncs lists the module's functions passed in an argument.
func (m *Machine) variadicFuncs(st *State, a *Term) ([]*Term, bool) {
	a = stripIface(a)
	if a == nil {
		return nil, false
	}
	if a.op == "closure" || a.op == "func" {
		if f := a.aux.(*ssa.Function); f.Blocks != nil && ours(f) {
			return []*Term{a}, true
		}
	}
	return nil, false
}

// callback runs a function that external code may call any number of times:
// its effects are forgotten values for everything it writes.
func (m *Machine) callback(st *State, f *Term, instr ssa.CallInstruction, panics []*State) (*State, []*State) {
	fn := f.aux.(*ssa.Function)
	for _, g := range m.stack {
		if g == fn {
			return st, panics
		}
	}
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, mk("cbarg", fmt.Sprint(i), p.Type(), nil, m.site(instr)))
	}
	var free []*Term
	if f.op == "closure" {
		free = f.args
	}
	saved := m.ctx
	m.ctx = mk("ctxcall", fmt.Sprint("cb", m.p.instrID(instr)), nil, nil, saved)
	outs := m.exec(fn, args, free, st)
	m.ctx = saved
	res := st.clone()
	site := m.site(instr)
	for _, o := range outs {
		if o.panics {
			o.st.env, o.st.defers = cp(st.env), append([]*deferred(nil), st.defers...)
			panics = append(panics, o.st)
			continue
		}
		for a, v := range o.st.heap {
			if st.heap[a] != v {
				at := elemType(a.typ)
				res.heap[a] = mk("cbval", fmt.Sprint(a.id), at, nil, site)
				if _, ok := st.heap[a]; !ok && isFresh(rootOf(a)) {
					continue
				}
			}
		}
		for k, e := range o.st.epoch {
			if st.epoch[k] != e {
				res.epoch[k] = site
			}
		}
		for d, e := range o.st.dirty {
			if st.dirty[d] != e {
				res.dirty[d] = site
			}
		}
		for e := range o.st.escaped {
			res.escaped[e] = true
		}
		for k, v := range o.st.tags {
			if st.tags[k] != v {
				res.tags[k] = v
			}
		}
	}
	return res, panics
}

// decodeInto models decoding of serialised content into *target.
func (m *Machine) decodeInto(st *State, target, content, site *Term) {
	t := stripIface(target)
	if t == tNil {
		return
	}
	r := rootOf(t)
	if t == r {
		for a := range st.heap {
			if rootOf(a) != r || a.op == "cell" {
				continue
			}
			if p, ok := fieldPath(a, r); ok && !exportedPath(p) {
				continue
			}
			delete(st.heap, a)
		}
		st.dirty[r] = mk("decoded", "", nil, nil, content)
		if !isFresh(r) {
			st.epoch["*"] = site
		}
		return
	}
	m.clobber(st, []*Term{t}, site)
}

func callBounds(s *State, t *Term) (lo, hi int64, lok, hok bool) {
	if t.op == "call" {
		switch {
		case isSearch(t.s):
			return -1, 0, true, false
		case t.s == "copy", t.s == "strings.Count", t.s == "(*encoding/base64.Encoding).DecodedLen", t.s == "(*encoding/base64.Encoding).EncodedLen":
			return 0, 0, true, false
		case t.s == "(*math/big.Int).Int64" && t.args[0].op == "ext":
			c := t.args[0].args[0]
			if c.op == "call" && c.s == "crypto/rand.Int" && c.args[1].op == "bigint" {
				if _, h, _, ok := s.bounds(c.args[1].args[0]); ok {
					return 0, h - 1, true, true
				}
				return 0, 0, true, false
			}
		case t.s == "crypto/subtle.ConstantTimeCompare":
			return 0, 1, true, true
		case strings.HasPrefix(t.s, "math/rand.Int") || strings.HasPrefix(t.s, "(*math/rand.Rand).Int"):
			return 0, 0, true, false
		}
	}
	if t.op == "ext" && t.s == "n" {
		return 0, 0, true, false
	}
	return 0, 0, false, false
}

func callMinLen(s *State, x *Term) int64 {
	switch x.op {
	case "hsum":
		k := x.args[0]
		if k.op == "hash" {
			return hashNew[k.s]
		}
		if k.op == "hmac" && k.args[0].op == "func" {
			return hashNew[k.args[0].s]
		}
		return 0
	case "call":
		switch x.s {
		case "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.SplitAfterN":
			sep, ok := x.args[1].strVal()
			if !ok || sep == "" {
				return 0
			}
			if strings.HasSuffix(x.s, "N") {
				// no more parts than asked for, where that is a number
				k, ok := x.args[2].intVal()
				if !ok || k == 0 {
					return 0
				}
				if k == 1 {
					return 1
				}
			}
			n := int64(1)
			// what is known to contain the separator has at least two parts
			for f, v := range s.facts {
				if !v || f.op != "call" {
					continue
				}
				if f.s == "strings.Contains" && f.args[0] == x.args[0] {
					if c, ok := f.args[1].strVal(); ok && strings.Contains(c, sep) {
						n = 2
					}
				}
				if f.s == "(*regexp.Regexp).MatchString" && f.args[1] == x.args[0] {
					if re := s.pattern(f.args[0]); re != "" && requires(re, sep) {
						n = 2
					}
				}
			}
			for f, v := range s.facts {
				if !v && f.op == "lt" && f.args[1] == tZero && f.args[0].op == "call" && isSearch(f.args[0].s) && f.args[0].args[0] == x.args[0] {
					if c, ok := f.args[0].args[1].strVal(); ok && c == sep {
						n = 2
					}
				}
			}
			return n
		case "(github.com/satori/go.uuid.UUID).String":
			return 36
		}
	}
	return 0
}

// pattern is the text of a compiled regular expression.
func (s *State) pattern(t *Term) string {
	if t.op == "call" && (t.s == "regexp.MustCompile") {
		if p, ok := t.args[0].strVal(); ok {
			return p
		}
	}
	if t.op == "ext" && t.args[0].op == "call" && t.args[0].s == "regexp.Compile" {
		if p, ok := t.args[0].args[0].strVal(); ok {
			return p
		}
	}
	return ""
}

// requires tells whether every match of an anchored pattern contains lit.
func requires(re, lit string) bool {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return false
	}
	p = p.Simplify()
	var need func(r *syntax.Regexp) bool
	need = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpLiteral:
			return r.Flags&syntax.FoldCase == 0 && strings.Contains(string(r.Rune), lit)
		case syntax.OpConcat:
			for _, x := range r.Sub {
				if need(x) {
					return true
				}
			}
		case syntax.OpCapture, syntax.OpPlus:
			return need(r.Sub[0])
		case syntax.OpRepeat:
			return r.Min > 0 && need(r.Sub[0])
		case syntax.OpAlternate:
			for _, x := range r.Sub {
				if !need(x) {
					return false
				}
			}
			return len(r.Sub) > 0
		}
		return false
	}
	return need(p)
}
