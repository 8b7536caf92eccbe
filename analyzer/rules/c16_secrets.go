package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C16", Technique: "interprocedural, field-sensitive taint analysis over Go SSA from every secret to every log, error and output call, with a path analysis of the one permitted display",
		Explain: "secrets are found by the role they play (passwords read or compared, private key files, scrypt output, keys given to ciphers, what authenticated decryption returns) and followed through assignments, memory, fields, closures, calls and library functions; every argument of every call that logs, makes an error or prints is an obligation",
		Run:     runC16})
}

type taint struct {
	c      *Ctx
	vals   map[ssa.Value]string
	res    map[ssa.Value]map[int]string // of a call's results
	fields map[*types.Var]string
	dirty  bool
	calls  map[*ssa.Function][]ssa.CallInstruction
	fns    []*ssa.Function
	conc   map[ssa.Value]concRes
	stores map[*types.Var][]ssa.Value
	show   *ssa.Function // the permitted display
}

var secretName = regexp.MustCompile(`(?i)passw|passphrase|secret`)

func runC16(c *Ctx) {
	const S, K, T = "sinks", "sources", "reminder"
	c.Rule(S, "no argument of a call that logs, creates an error, prints, or panics may hold a secret: not the secret's bytes in any encoding, and not a struct with a field that holds one")
	c.Rule(K, "the secrets: what a password prompt returns, the configured password, the password a client sends, private key files, scrypt's output, every key given to a cipher or key derivation, and what authenticated decryption returns")
	c.Rule(T, "the master key is displayed only where standard output was found to be a terminal, and only a newly generated key is")
	t := &taint{c: c, vals: map[ssa.Value]string{}, res: map[ssa.Value]map[int]string{}, fields: map[*types.Var]string{}}
	for _, fn := range c.P.Funcs {
		if !engine.IsFake(fn) && len(fn.Blocks) > 0 && c.P.InRepo(fn) {
			t.fns = append(t.fns, fn)
			c.Funcs[short(fn)] = true
		}
	}
	sort.Slice(t.fns, func(i, j int) bool { return t.fns[i].Pos() < t.fns[j].Pos() })
	t.show = c.P.Func("gocrypt/tlog", "PrintMasterkeyReminder")
	t.sources(K)
	if t.show != nil && len(t.show.Params) == 1 {
		t.mark(t.show.Params[0], "the master key")
	}
	for t.dirty = true; t.dirty; {
		t.dirty = false
		for _, fn := range t.fns {
			t.pass(fn)
		}
	}
	t.sinks(S)
	t.reminder(T)
	c.Need(S, 60)
	c.Need(K, 8)
}

func (t *taint) mark(v ssa.Value, why string) {
	if v == nil || t.vals[v] != "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	t.vals[v] = why
	t.dirty = true
}

func (t *taint) markRes(call ssa.Value, i int, why string) {
	if call == nil {
		return
	}
	if _, ok := call.Type().(*types.Tuple); !ok {
		if i == 0 {
			t.mark(call, why)
		}
		return
	}
	m := t.res[call]
	if m == nil {
		m = map[int]string{}
		t.res[call] = m
	}
	if m[i] == "" {
		m[i] = why
		t.dirty = true
	}
}

// mem marks the memory a value refers to: what was made, and every other
// place it is known to be held in.
func (t *taint) mem(v ssa.Value, why string) { t.memD(v, why, map[ssa.Value]bool{}) }

func (t *taint) memD(v ssa.Value, why string, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Const, *ssa.Function:
		return
	case *ssa.UnOp:
		if y.Op == token.MUL {
			t.mark(v, why)
			t.place(y.X, why, seen)
			return
		}
	}
	t.mark(v, why)
	switch y := v.(type) {
	case *ssa.Slice:
		t.memD(y.X, why, seen)
	case *ssa.ChangeType:
		t.memD(y.X, why, seen)
	case *ssa.ChangeInterface:
		t.memD(y.X, why, seen)
	case *ssa.MakeInterface:
		t.memD(y.X, why, seen)
	case *ssa.TypeAssert:
		t.memD(y.X, why, seen)
	case *ssa.IndexAddr:
		t.memD(y.X, why, seen)
	case *ssa.FieldAddr:
		t.field(y, why)
	case *ssa.Phi:
		for _, e := range y.Edges {
			t.memD(e, why, seen)
		}
	case *ssa.FreeVar:
		t.captured(y, func(b ssa.Value) { t.memD(b, why, seen) })
	case *ssa.Parameter:
		t.args(y, func(a ssa.Value) { t.memD(a, why, seen) })
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			t.memD(y.Call.Args[0], why, seen)
		}
	}
}

// place marks a variable whose value is secret.
func (t *taint) place(a ssa.Value, why string, seen map[ssa.Value]bool) {
	switch y := a.(type) {
	case *ssa.FieldAddr:
		t.field(y, why)
	case *ssa.IndexAddr:
		t.memD(y.X, why, seen)
	case *ssa.FreeVar:
		if !seen[y] {
			seen[y] = true
			t.mark(y, why)
			t.captured(y, func(b ssa.Value) { t.place(b, why, seen) })
		}
	case *ssa.Phi:
		t.memD(y, why, seen)
	default:
		t.memD(a, why, seen)
	}
}

func (t *taint) field(y *ssa.FieldAddr, why string) {
	v := engine.FieldVar(y.X.Type(), y.Field)
	if t.fields[v] == "" {
		t.fields[v] = why
		t.dirty = true
	}
}

// captured visits what a captured variable is bound to.
func (t *taint) captured(f *ssa.FreeVar, do func(ssa.Value)) {
	fn := f.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == f {
			idx = i
		}
	}
	for _, g := range t.fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					do(mc.Bindings[idx])
				}
			}
		}
	}
}

// args visits what is passed for a parameter.
func (t *taint) args(p *ssa.Parameter, do func(ssa.Value)) {
	fn := p.Parent()
	idx := -1
	for i, x := range fn.Params {
		if x == p {
			idx = i
		}
	}
	for _, call := range t.c.P.AllCallers(fn) {
		if engine.IsFake(call.Parent()) {
			continue
		}
		if a := argOf(call.Common(), idx); a != nil {
			do(a)
		}
	}
}

func argOf(cc *ssa.CallCommon, idx int) ssa.Value {
	switch {
	case cc.IsInvoke() && idx == 0:
		return cc.Value
	case cc.IsInvoke() && idx-1 < len(cc.Args):
		return cc.Args[idx-1]
	case !cc.IsInvoke() && idx < len(cc.Args):
		return cc.Args[idx]
	}
	return nil
}

// keyUses: library functions whose argument is a secret, by position with the
// receiver as position 0.
var keyUses = map[string][]int{
	"aes.NewCipher":                     {0},
	"hkdf.New":                          {1},
	"hkdf.Extract":                      {1},
	"hkdf.Expand":                       {1},
	"scrypt.Key":                        {0},
	"pbkdf2.Key":                        {0},
	"hmac.New":                          {1},
	"cipher.AEAD.Seal":                  {3},
	"ssh.ParsePrivateKey":               {0},
	"ssh.ParseRawPrivateKey":            {0},
	"ssh.ParsePrivateKeyWithPassphrase": {0, 1},
	"ssh.Password":                      {0},
	"siv.Encrypt":                       {1},
	"siv.Decrypt":                       {0},
	"siv.NewCMAC":                       {0},
}

// secretResults: library functions whose first result is a secret.
var secretResults = map[string]string{
	"terminal.ReadPassword": "a password that was read",
	"term.ReadPassword":     "a password that was read",
	"scrypt.Key":            "the scrypt hash",
	"pbkdf2.Key":            "a derived key",
	"cipher.AEAD.Open":      "decrypted content",
	"siv.Decrypt":           "decrypted content",
	"pem.Decode":            "",
}

func (t *taint) sources(rule string) {
	c := t.c
	src := func(pos token.Pos, fn *ssa.Function, what string) {
		c.Pass(rule, fmt.Sprintf("%s: %s (%s)", short(fn), what, c.P.Pos(pos)))
	}
	for _, fn := range t.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case ssa.CallInstruction:
					cc := y.Common()
					n := sn(fullCallee(cc))
					v, _ := i.(ssa.Value)
					what := secretResults[n]
					if cc.IsInvoke() && cc.Method.Name() == "ReadPassword" {
						what = "a password that was read"
					}
					if what != "" && v != nil {
						t.markRes(v, 0, what)
						src(i.Pos(), fn, what)
						if strings.HasSuffix(n, ".Open") {
							t.mem(cc.Args[0], what)
						}
					}
					for _, k := range keyUses[n] {
						a := argOf(cc, k)
						if a == nil || constLike(a) {
							continue
						}
						t.secretArg(a, "a value used as a key, a secret or plaintext by "+n, map[ssa.Value]bool{})
						src(i.Pos(), fn, "argument of "+n)
					}
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if !ok {
						break
					}
					v := engine.FieldVar(fa.X.Type(), fa.Field)
					if v.Name() == "PasswordCallback" {
						for _, cb := range funcsOf(y.Val) {
							if len(cb.Params) == 2 {
								t.mark(cb.Params[1], "the password a client sent")
								src(cb.Pos(), cb, "the password a client sent")
							}
						}
					}
				}
			}
		}
	}
	// Configured passwords.
	for _, fn := range t.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if fa, ok := i.(*ssa.FieldAddr); ok {
					v := engine.FieldVar(fa.X.Type(), fa.Field)
					if secretName.MatchString(v.Name()) && v.Pkg() != nil && c.P.InRepoPkg(v.Pkg()) && isStrT2(v.Type()) && t.fields[v] == "" {
						t.fields[v] = "the configured " + v.Name()
						src(fa.Pos(), fn, "field "+v.Name())
					}
				}
			}
		}
	}
	// The text a configuration with a password is decoded from.
	for _, fn := range t.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				y, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := y.Common()
				if n := sn(fullCallee(cc)); strings.HasSuffix(n, ".Unmarshal") && len(cc.Args) == 2 {
					if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok && t.holds(mi.X.Type(), 0) != "" {
						t.secretArg(cc.Args[0], "the text a configured password is in", map[ssa.Value]bool{})
						src(i.Pos(), fn, "the configuration's text")
					}
				}
			}
		}
	}
}

func isStrT2(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if ok {
		return b.Info()&types.IsString != 0
	}
	return isDataSlice(t)
}

func constLike(v ssa.Value) bool {
	for {
		switch y := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Convert:
			v = y.X
			continue
		}
		return false
	}
}

func funcsOf(v ssa.Value) []*ssa.Function {
	switch y := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{y}
	case *ssa.MakeClosure:
		return []*ssa.Function{y.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return funcsOf(y.X)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range y.Edges {
			out = append(out, funcsOf(e)...)
		}
		return out
	}
	return nil
}

// secretArg marks where a secret argument comes from, up to the calls that
// gave it: a key's generator is not itself secret.
func (t *taint) secretArg(v ssa.Value, why string, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return
	case *ssa.Slice:
		t.mark(v, why)
		t.secretArg(y.X, why, seen)
	case *ssa.Convert:
		t.mark(v, why)
		t.secretArg(y.X, why, seen)
	case *ssa.ChangeType:
		t.mark(v, why)
		t.secretArg(y.X, why, seen)
	case *ssa.Phi:
		t.mark(v, why)
		for _, e := range y.Edges {
			t.secretArg(e, why, seen)
		}
	case *ssa.Parameter:
		t.mark(v, why)
		t.args(y, func(a ssa.Value) { t.secretArg(a, why, seen) })
	case *ssa.FreeVar:
		t.captured(y, func(b ssa.Value) { t.secretArg(b, why, seen) })
	case *ssa.Extract:
		t.markRes(y.Tuple, y.Index, why)
	case *ssa.UnOp:
		t.mark(v, why)
		if y.Op == token.MUL {
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				t.field(fa, why)
				return
			}
			if al, ok := y.X.(*ssa.Alloc); ok {
				t.mark(al, why)
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						t.secretArg(st.Val, why, seen)
					}
				}
			}
		}
	default:
		t.mark(v, why)
	}
}

// carries: values of the type can carry a secret's bytes.
func carries(ty types.Type) bool {
	switch y := ty.Underlying().(type) {
	case *types.Basic:
		return y.Info()&types.IsString != 0 || y.Kind() == types.Byte || y.Kind() == types.Rune
	case *types.Slice:
		return carries(y.Elem())
	case *types.Array:
		return carries(y.Elem())
	case *types.Map:
		return carries(y.Elem()) || carries(y.Key())
	case *types.Interface:
		s := types.TypeString(ty, nil)
		if y.NumMethods() == 0 {
			return true
		}
		return in(s, "io.Reader", "io.ReadCloser", "io.ReadSeeker", "io.ReaderAt", "io.Writer", "hash.Hash", "fmt.Stringer")
	case *types.Pointer:
		s := types.TypeString(y.Elem(), nil)
		return in(s, "bytes.Buffer", "bytes.Reader", "strings.Reader", "strings.Builder", "bufio.Reader", "bufio.Writer", "bufio.Scanner", "encoding/pem.Block", "math/big.Int") || carries(y.Elem())
	case *types.Struct:
		return in(types.TypeString(ty, nil), "bytes.Buffer", "strings.Builder", "encoding/pem.Block")
	}
	return false
}

// holds: a struct of the type, or one it has by value, has a secret field.
func (t *taint) holds(ty types.Type, d int) string {
	if p, ok := ty.Underlying().(*types.Pointer); ok && d == 0 {
		ty = p.Elem()
	}
	if d > 8 {
		return ""
	}
	switch y := ty.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < y.NumFields(); i++ {
			f := y.Field(i)
			if w := t.fields[f]; w != "" {
				return "field " + f.Name() + ", " + w
			}
			if w := t.holds(f.Type(), d+1); w != "" {
				return w
			}
		}
	case *types.Slice:
		return t.holds(y.Elem(), d+1)
	case *types.Array:
		return t.holds(y.Elem(), d+1)
	case *types.Map:
		return t.holds(y.Elem(), d+1)
	}
	return ""
}

func (t *taint) of(v ssa.Value) string {
	if v == nil {
		return ""
	}
	return t.vals[v]
}

// pass applies every instruction of a function once.
func (t *taint) pass(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch y := i.(type) {
			case *ssa.Store:
				if w := t.of(y.Val); w != "" {
					t.place(y.Addr, w, map[ssa.Value]bool{})
				}
			case *ssa.UnOp:
				switch y.Op {
				case token.MUL:
					if w := t.loadOf(y.X); w != "" && (carries(y.Type()) || t.vals[y.X] != "" && carriesDeep(y.Type())) {
						t.mark(y, w)
					}
				case token.ARROW, token.XOR, token.SUB:
					if w := t.of(y.X); w != "" {
						if y.CommaOk {
							t.markRes(y, 0, w)
						} else {
							t.mark(y, w)
						}
					}
				}
			case *ssa.Phi:
				for k, e := range y.Edges {
					if w := t.of(e); w != "" && !emptyAt(e, b.Preds[k]) {
						t.mark(y, w)
					}
				}
			case *ssa.Extract:
				if w := t.res[y.Tuple][y.Index]; w != "" {
					t.mark(y, w)
				}
			case *ssa.Field:
				if w := t.fields[engine.FieldVar(y.X.Type(), y.Field)]; w != "" {
					t.mark(y, w)
				}
			case *ssa.BinOp:
				switch y.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					for _, x := range []ssa.Value{y.X, y.Y} {
						if w := t.of(x); w != "" {
							t.mark(y, w)
						}
					}
				}
			case *ssa.Next:
				if w := t.of(y.Iter); w != "" {
					t.markRes(y, 1, w)
					t.markRes(y, 2, w)
				}
			case *ssa.Range:
				t.copyOf(y, y.X)
			case *ssa.Lookup:
				w := t.of(y.X)
				if w == "" {
					w = t.of(y.Index)
				}
				if w != "" && (carries(y.Type()) || y.CommaOk) {
					if y.CommaOk {
						t.markRes(y, 0, w)
					} else {
						t.mark(y, w)
					}
				}
			case *ssa.Slice:
				t.copyOf(y, y.X)
			case *ssa.Convert:
				t.copyOf(y, y.X)
			case *ssa.ChangeType:
				t.copyOf(y, y.X)
			case *ssa.ChangeInterface:
				t.copyOf(y, y.X)
			case *ssa.MakeInterface:
				t.copyOf(y, y.X)
			case *ssa.SliceToArrayPointer:
				t.copyOf(y, y.X)
			case *ssa.TypeAssert:
				if w := t.of(y.X); w != "" && carries(y.AssertedType) {
					if y.CommaOk {
						t.markRes(y, 0, w)
					} else {
						t.mark(y, w)
					}
				}
			case *ssa.Index:
				t.copyOf(y, y.X)
				t.copyOf(y, y.Index)
			case *ssa.IndexAddr:
				t.copyOf(y, y.X)
			case *ssa.MapUpdate:
				if w := t.of(y.Value); w != "" {
					t.mem(y.Map, w)
				}
				if w := t.of(y.Key); w != "" {
					t.mem(y.Map, w)
				}
			case *ssa.Send:
				if w := t.of(y.X); w != "" {
					t.mem(y.Chan, w)
				}
			case *ssa.MakeClosure:
				cf := y.Fn.(*ssa.Function)
				for k, x := range y.Bindings {
					if w := t.of(x); w != "" {
						t.mark(cf.FreeVars[k], w)
					}
				}
			case ssa.CallInstruction:
				t.call(fn, y)
			}
		}
	}
}

func (t *taint) copyOf(v, x ssa.Value) {
	if w := t.of(x); w != "" {
		t.mark(v, w)
	}
}

// emptyAt: the value was found to have no bytes where control reaches the
// block.
func emptyAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		taken := p.Succs[0] == d
		if p.Succs[0] == p.Succs[1] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := c.X, c.Y, c.Op
		if _, isC := x.(*ssa.Const); isC {
			x, y = y, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		k, isC := y.(*ssa.Const)
		if !isC {
			continue
		}
		s := k.Value
		zero := s == nil || s.ExactString() == "0" || s.ExactString() == `""`
		one := s != nil && s.ExactString() == "1"
		if !taken {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		none := zero && (op == token.EQL || op == token.LEQ) || one && op == token.LSS
		if !none {
			continue
		}
		if x == v {
			if _, num := x.Type().Underlying().(*types.Basic); !num || x.Type().Underlying().(*types.Basic).Info()&types.IsString != 0 {
				return true
			}
		}
		if call, ok := x.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Call.Args[0] == v {
				return true
			}
		}
	}
	return false
}

func carriesDeep(ty types.Type) bool { return carries(ty) }

func (t *taint) loadOf(a ssa.Value) string {
	switch y := a.(type) {
	case *ssa.FieldAddr:
		f := engine.FieldVar(y.X.Type(), y.Field)
		if w := t.fields[f]; w != "" {
			return w
		}
		if f.Pkg() != nil && !t.c.P.InRepoPkg(f.Pkg()) && carries(f.Type()) {
			return t.of(y.X)
		}
		return ""
	case *ssa.IndexAddr:
		if w := t.of(y.X); w != "" {
			return w
		}
		return t.of(y.Index) // a table looked up with secret bytes
	}
	return t.of(a)
}

// concrete: the types an interface value can have; false if not known.
func (t *taint) concrete(v ssa.Value) ([]types.Type, bool) {
	if t.conc == nil {
		t.conc = map[ssa.Value]concRes{}
	}
	if r, ok := t.conc[v]; ok {
		return r.ts, r.known
	}
	var out []types.Type
	ok := t.concreteOf(v, &out, map[interface{}]bool{})
	t.conc[v] = concRes{out, ok}
	return out, ok
}

type concRes struct {
	ts    []types.Type
	known bool
}

func (t *taint) concreteOf(v ssa.Value, out *[]types.Type, seen map[interface{}]bool) bool {
	if v == nil {
		return false
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	all := func(vs []ssa.Value) bool {
		for _, x := range vs {
			if !t.concreteOf(x, out, seen) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch y := v.(type) {
	case *ssa.MakeInterface:
		*out = append(*out, y.X.Type())
		return true
	case *ssa.ChangeInterface:
		return t.concreteOf(y.X, out, seen)
	case *ssa.Const:
		return y.IsNil()
	case *ssa.Phi:
		return all(y.Edges)
	case *ssa.Parameter:
		var vs []ssa.Value
		t.args(y, func(a ssa.Value) { vs = append(vs, a) })
		return all(vs)
	case *ssa.Field:
		return all(t.stored(engine.FieldVar(y.X.Type(), y.Field)))
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return false
		}
		return t.concretePlace(y.X, out, seen)
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil && t.c.P.InRepo(f) {
			return all(returned(f, 0))
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && t.c.P.InRepo(f) {
				return all(returned(f, y.Index))
			}
		}
	}
	return false
}

func (t *taint) concretePlace(a ssa.Value, out *[]types.Type, seen map[interface{}]bool) bool {
	vs := []ssa.Value{}
	switch y := a.(type) {
	case *ssa.FieldAddr:
		f := engine.FieldVar(y.X.Type(), y.Field)
		if seen[f] {
			return true
		}
		seen[f] = true
		vs = t.stored(f)
	case *ssa.FreeVar:
		ok, n := true, 0
		t.captured(y, func(b ssa.Value) { n++; ok = ok && t.concretePlace(b, out, seen) })
		return ok && n > 0
	case *ssa.Alloc:
		for _, r := range *y.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != ssa.Value(y) {
					return false
				}
				vs = append(vs, x.Val)
			case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
			default:
				return false
			}
		}
	case *ssa.Global:
		for _, fn := range t.fns {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok && st.Addr == a {
						vs = append(vs, st.Val)
					}
				}
			}
		}
	default:
		return false
	}
	for _, x := range vs {
		if !t.concreteOf(x, out, seen) {
			return false
		}
	}
	return len(vs) > 0
}

// stored: the values stored in a field anywhere; nil if its address is taken
// for something else.
func (t *taint) stored(f *types.Var) []ssa.Value {
	if t.stores == nil {
		t.stores = map[*types.Var][]ssa.Value{}
		bad := map[*types.Var]bool{}
		for _, fn := range t.fns {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					fa, ok := i.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					v := engine.FieldVar(fa.X.Type(), fa.Field)
					for _, r := range *fa.Referrers() {
						switch x := r.(type) {
						case *ssa.Store:
							if x.Addr == ssa.Value(fa) {
								t.stores[v] = append(t.stores[v], x.Val)
							} else {
								bad[v] = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							bad[v] = true
						}
					}
				}
			}
		}
		for v := range bad {
			delete(t.stores, v)
		}
	}
	return t.stores[f]
}

func returned(f *ssa.Function, k int) []ssa.Value {
	var out []ssa.Value
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(r.Results) {
			out = append(out, r.Results[k])
		}
	}
	return out
}

// targets: the repository's functions a call may run.
func (t *taint) targets(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !engine.IsFake(f) && t.c.P.InRepo(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	switch {
	case cc.IsInvoke():
		ts, known := t.concrete(cc.Value)
		for _, f := range t.c.implementers(cc) {
			if !known {
				add(f)
				continue
			}
			for _, ty := range ts {
				if types.Identical(deref(ty), deref(f.Signature.Recv().Type())) {
					add(f)
					break
				}
			}
		}
	case cc.StaticCallee() != nil:
		add(cc.StaticCallee())
	default:
		for _, f := range funcsOf(cc.Value) {
			add(f)
		}
		if len(out) == 0 {
			// Some function value of that type.
			for _, f := range t.fns {
				if types.Identical(f.Signature, cc.Value.Type().Underlying()) && f.Signature.Recv() == nil {
					add(f)
				}
			}
		}
	}
	return out
}

// writers: library types that keep what is written to them.
func keepsWritten(ty types.Type) bool {
	s := types.TypeString(deref(ty), nil)
	return in(s, "bytes.Buffer", "strings.Builder", "bufio.Writer", "hash.Hash", "bytes.Reader", "strings.Reader")
}

func (t *taint) call(fn *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	v, _ := ci.(ssa.Value)
	name := fullCallee(cc)
	n := sn(name)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for k, a := range cc.Args {
				if w := t.of(a); w != "" {
					t.mark(v, w)
					if k > 0 {
						t.mem(cc.Args[0], w)
					}
				}
			}
		case "copy":
			if w := t.of(cc.Args[1]); w != "" {
				t.mem(cc.Args[0], w)
			}
		}
		return
	}
	fs := t.targets(cc)
	n0 := 0
	for _, f := range fs {
		if t.sinkFn(f) {
			continue
		}
		n0++
		for k, p := range f.Params {
			if a := argOf(cc, k); a != nil {
				if w := t.of(a); w != "" {
					t.mark(p, w)
				}
			}
		}
		// A call through a closure's variable: nothing more to bind.
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for k, x := range r.Results {
					if w := t.of(x); w != "" && !emptyAt(x, b) {
						t.markRes(v, k, w)
					}
				}
			}
		}
	}
	if len(fs) > 0 && !cc.IsInvoke() || sink(n) != nil || in(n, "cipher.AEAD.Seal", "siv.Encrypt") || v == nil && n0 > 0 {
		return
	}
	if cc.IsInvoke() && n0 > 0 && t.c.P.InRepoPkg(cc.Method.Pkg()) {
		return
	}
	// The library: what goes in may come out.
	why := ""
	for k := 0; k < len(cc.Args)+1; k++ {
		if a := argOf(cc, k); a != nil {
			if w := t.of(a); w != "" {
				why = w
			}
			if mi, ok := a.(*ssa.MakeInterface); ok && why == "" && (strings.HasPrefix(n, "json.") || strings.HasPrefix(n, "fmt.Sprint")) {
				why = t.holds(mi.X.Type(), 0)
			}
		}
	}
	if why == "" && strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "fmt.Append") {
		if _, w := t.sinkArgs(cc, 0); w != "" {
			why = w
		}
	}
	if why == "" || n == "cipher.AEAD.Open" {
		return
	}
	for k := 0; k < len(cc.Args)+1; k++ {
		a := argOf(cc, k)
		if a == nil {
			continue
		}
		if keepsWritten(a.Type()) || writesArg(name) >= 0 && k == writesArg(name)+boolInt(cc.IsInvoke() || cc.Signature().Recv() != nil) {
			if _, global := a.(*ssa.Global); !global {
				t.mem(a, why)
			}
		}
		if strings.HasSuffix(n, ".Unmarshal") || strings.HasSuffix(n, ".Decode") {
			if _, ok := a.(*ssa.MakeInterface); ok {
				continue // the fields it fills are known by name
			}
		}
	}
	if v == nil {
		return
	}
	sig := cc.Signature().Results()
	for k := 0; k < sig.Len(); k++ {
		ty := sig.At(k).Type()
		if types.TypeString(ty, nil) == "error" {
			if strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "url.") || strings.HasPrefix(n, "time.Parse") || strings.HasPrefix(n, "net.") {
				t.markRes(v, k, why) // quotes its argument
			}
			continue
		}
		if carries(ty) {
			t.markRes(v, k, why)
		}
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sink tells which arguments of a call become visible; nil for no sink.
func sink(n string) []int {
	all := func(from int) []int { return []int{from} }
	dot := strings.LastIndex(n, ".")
	if dot < 0 {
		return nil
	}
	pk, f := n[:dot], n[dot+1:]
	switch {
	case pk == "log" || pk == "log.Logger":
		for _, p := range []string{"Print", "Fatal", "Panic", "Output", "SetPrefix"} {
			if strings.HasPrefix(f, p) {
				return all(0)
			}
		}
		if f == "New" {
			return nil
		}
	case pk == "fmt" && strings.HasPrefix(f, "Print"), pk == "fmt" && f == "Errorf":
		return all(0)
	case pk == "fmt" && strings.HasPrefix(f, "Fprint"):
		return all(1)
	case pk == "errors" && in(f, "New", "Wrap", "Wrapf", "Errorf", "WithMessage", "WithMessagef"):
		return all(0)
	case pk == "os.File" && in(f, "Write", "WriteString", "WriteAt"):
		return all(1)
	case pk == "os.PathError", pk == "slog", pk == "slog.Logger", pk == "syslog", pk == "syslog.Writer", pk == "zap.Logger":
		return all(0)
	case pk == "io" && f == "WriteString", pk == "io" && f == "Copy":
		return all(1)
	case strings.HasSuffix(pk, "toggledLogger"):
		return all(1)
	}
	return nil
}

// sinkFn: a logging function of the repository, judged where it is called.
func (t *taint) sinkFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return pkgIs(f, "tlog") && f.Signature.Recv() != nil
}

// sinkArgs finds a secret among the arguments from position k on, looking
// into variadic argument lists.
func (t *taint) sinkArgs(cc *ssa.CallCommon, k int) (ssa.Value, string) {
	for ; k <= len(cc.Args); k++ {
		a := argOf(cc, k)
		if a == nil {
			continue
		}
		if w := t.of(a); w != "" {
			return a, w
		}
		for _, x := range listed(a) {
			if w := t.of(x); w != "" {
				return x, w
			}
			if mi, ok := x.(*ssa.MakeInterface); ok {
				if w := t.holds(mi.X.Type(), 0); w != "" {
					return x, w
				}
			}
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if w := t.holds(mi.X.Type(), 0); w != "" {
				return a, w
			}
		}
	}
	return nil, ""
}

// listed: the elements of an argument list made for a call.
func listed(a ssa.Value) []ssa.Value {
	s, ok := a.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// isOut: the writer may be standard output, standard error or a log.
func (t *taint) isOut(w ssa.Value) bool {
	s := types.TypeString(w.Type(), nil)
	if in(s, "*bytes.Buffer", "*strings.Builder") {
		return false
	}
	if mi, ok := w.(*ssa.MakeInterface); ok {
		return t.isOut(mi.X)
	}
	if ch, ok := w.(*ssa.ChangeInterface); ok {
		return t.isOut(ch.X)
	}
	switch y := w.(type) {
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok && in(sn(fullCallee(c.Common())), "os.Create", "os.OpenFile", "os.Open", "ioutil.TempFile", "os.CreateTemp") {
			return false
		}
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			out := false
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					out = out || t.isOut(st.Val)
				}
			}
			return out
		}
	}
	if strings.HasPrefix(s, "hash.") || in(s, "hash.Hash", "golang.org/x/crypto/ssh.Channel", "net.Conn") {
		return false
	}
	return true
}

func (t *taint) sinks(rule string) {
	c := t.c
	for _, fn := range t.fns {
		if t.sinkFn(fn) || t.showing(fn, map[*ssa.Function]bool{}) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case *ssa.Panic:
					w := t.of(y.X)
					if mi, ok := y.X.(*ssa.MakeInterface); ok && w == "" {
						w = t.holds(mi.X.Type(), 0)
					}
					c.Check(w == "", rule, i.Pos(), short(fn), "panics with "+w, nil)
				case *ssa.MakeInterface:
					if types.TypeString(y.Type(), nil) == "error" {
						w := t.of(y.X)
						if w == "" {
							w = t.holds(y.X.Type(), 0)
						}
						c.Check(w == "", rule, i.Pos(), short(fn), "an error holds "+w, nil)
					}
				case ssa.CallInstruction:
					cc := y.Common()
					n := sn(fullCallee(cc))
					if bi, ok := cc.Value.(*ssa.Builtin); ok && strings.HasPrefix(bi.Name(), "print") {
						n = "fmt.Print"
					}
					from := sink(n)
					if from == nil {
						continue
					}
					if from[0] == 1 && !strings.HasSuffix(n, "toggledLogger.Printf") {
						if w := argOf(cc, 0); w != nil && strings.Contains(n, "toggledLogger") == false && !t.isOut(w) {
							continue
						}
					}
					_, w := t.sinkArgs(cc, from[0])
					c.Check(w == "", rule, i.Pos(), fmt.Sprintf("%s in %s", n, short(fn)), "shows "+w, nil)
				}
			}
		}
	}
}

// showing: the permitted display, or a helper only it uses.
func (t *taint) showing(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if t.show == nil || seen[fn] {
		return false
	}
	if fn == t.show {
		return true
	}
	seen[fn] = true
	n := 0
	for _, call := range t.c.P.AllCallers(fn) {
		if engine.IsFake(call.Parent()) {
			continue
		}
		n++
		if !t.showing(call.Parent(), seen) {
			return false
		}
	}
	return n > 0
}

// reminder: the permitted display is on a terminal only, of a new key only.
func (t *taint) reminder(rule string) {
	c := t.c
	if t.show == nil || len(t.show.Params) != 1 {
		c.Pass(rule, "no display of the master key")
		return
	}
	r := c.Explore(rule, t.show)
	for _, p := range r.Paths {
		for _, ev := range p.Events {
			if ev.Kind != engine.EvCall || sink(sn(ev.Callee)) == nil {
				continue
			}
			ci, ok := ev.Instr.(ssa.CallInstruction)
			if !ok {
				continue
			}
			from := sink(sn(fullCallee(ci.Common())))
			if from == nil {
				continue
			}
			if _, w := t.sinkArgs(ci.Common(), from[0]); w == "" {
				continue
			}
			term := false
			for _, f := range ev.Facts.Slice() {
				if k, _, ok := isCall(f.T, "terminal.IsTerminal", "term.IsTerminal"); ok && f.Pol && strings.Contains(k.String(), "os.Stdout") {
					term = true
				}
			}
			c.Check(term, rule, ev.Pos, short(t.show), "shows the master key where standard output may not be a terminal", p)
			c.Check(!strings.Contains(fmt.Sprint(ev.Args), "os.Stderr"), rule, ev.Pos, short(t.show), "shows the master key on standard error", p)
		}
	}
	for _, call := range c.P.AllCallers(t.show) {
		if engine.IsFake(call.Parent()) {
			continue
		}
		ok := t.fresh(call.Common().Args[0], map[ssa.Value]bool{})
		c.Check(ok, rule, call.Pos(), short(call.Parent()), "displays a key that was not generated just now", nil)
	}
}

// fresh: a value that can only be what a generator just gave.
func (t *taint) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Slice:
		return t.fresh(y.X, seen)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !t.fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return y.IsNil()
	case *ssa.MakeSlice:
		return t.filledHere(y)
	case *ssa.Parameter:
		n, ok := 0, true
		t.args(y, func(a ssa.Value) { n++; ok = ok && t.fresh(a, seen) })
		return ok && n > 0
	case *ssa.UnOp:
		al, isA := y.X.(*ssa.Alloc)
		if !isA || y.Op != token.MUL {
			return false
		}
		n := 0
		for _, q := range *al.Referrers() {
			if st, isS := q.(*ssa.Store); isS && st.Addr == ssa.Value(al) {
				n++
				if !t.fresh(st.Val, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Alloc:
		return t.filledHere(y)
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			return f != nil && t.random(f)
		}
	case *ssa.Call:
		f := y.Call.StaticCallee()
		return f != nil && t.random(f)
	}
	return false
}

// filledHere: memory made here that a generator fills.
func (t *taint) filledHere(v ssa.Value) bool {
	for _, b := range v.(ssa.Instruction).Parent().Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			k := map[string]int{"rand.Read": 0, "io.ReadFull": 1, "os.File.Read": 1}
			if at, known := k[sn(fullCallee(cc))]; known {
				a := argOf(cc, at)
				if s, ok := a.(*ssa.Slice); ok {
					a = s.X
				}
				if a == v {
					return true
				}
			}
		}
	}
	return false
}

// random: a function whose result is filled from the system's generator.
func (t *taint) random(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			n++
			if !t.fresh(r.Results[0], map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return n > 0 && t.c.P.InRepo(f)
}
