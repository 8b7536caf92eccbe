package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind classifies a term.
type Kind uint8

// The kinds of terms.
const (
	KConst     Kind = iota // Val
	KNil                   // typed nil
	KZero                  // zero value of an aggregate
	KParam                 // parameter or free variable of the entry point
	KGlobal                // address of a package variable
	KFunc                  // function value
	KAlloc                 // address of an allocation
	KFieldAddr             // Args[0].field
	KIndexAddr             // &Args[0][Args[1]]
	KLoad                  // *Args[0] at some epoch
	KField                 // Args[0].field of a value
	KIndex                 // Args[0][Args[1]] of an array or string value
	KSlice                 // Args[0][Args[1]:Args[2]]; Args[2] may be absent
	KBin                   // Args[0] Op Args[1]
	KNot
	KNeg
	KConv
	KIface    // Args[0] of concrete type boxed into an interface
	KAssert   // Args[0].(T)
	KAssertOk // the ok of it
	KCall     // result of a call
	KExtract  // Args[0]#Idx
	KMu       // loop-carried unknown
	KRecv
	KRecvOk
	KMake    // make(slice/map/chan): Args = len[, cap]
	KClosure // Fn with bindings Args
	KAppend  // Args[0] then the elements Args[1:] (Aux "elems") or the slice Args[1] (Aux "slice")
	KStruct
	KLookup
	KLookupOk
	KLen
	KCap
	KRange
	KNext
	KTuple
	KUnknown
)

// Term is a hash-consed symbolic value.
type Term struct {
	ID   int
	K    Kind
	Args []*Term
	Op   token.Token
	Idx  int
	Aux  string
	Val  constant.Value
	Var  *types.Var // field
	Fn   *ssa.Function
	T    types.Type

	// Call results
	Callee string
	Instr  ssa.Instruction
}

// Terms interns terms.
type Terms struct {
	tab  map[string]*Term
	list []*Term
	tkey map[types.Type]int
	vkey map[interface{}]int
	mut  func(string) bool // is this package variable ever reassigned?
}

// NewTerms makes an empty table.
func NewTerms() *Terms { return newTerms() }

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, tkey: map[types.Type]int{}, vkey: map[interface{}]int{}}
}

func (tt *Terms) okey(x interface{}) int {
	k, ok := tt.vkey[x]
	if !ok {
		k = len(tt.vkey) + 1
		tt.vkey[x] = k
	}
	return k
}

func (tt *Terms) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.K)))
	for _, a := range t.Args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('-')
			continue
		}
		sb.WriteString(strconv.Itoa(a.ID))
	}
	sb.WriteByte('|')
	if t.Op != 0 {
		sb.WriteString(t.Op.String())
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(t.Idx))
	sb.WriteByte('|')
	sb.WriteString(t.Aux)
	sb.WriteByte('|')
	if t.Val != nil {
		sb.WriteString(t.Val.ExactString())
		sb.WriteString(strconv.Itoa(int(t.Val.Kind())))
	}
	sb.WriteByte('|')
	if t.Var != nil {
		sb.WriteString(strconv.Itoa(tt.okey(t.Var)))
	}
	sb.WriteByte('|')
	if t.Fn != nil {
		sb.WriteString(strconv.Itoa(tt.okey(t.Fn)))
	}
	sb.WriteByte('|')
	switch t.K {
	case KConv, KIface, KAssert, KAssertOk, KZero, KMake, KStruct:
		sb.WriteString(types.TypeString(t.T, nil))
	}
	key := sb.String()
	if o, ok := tt.tab[key]; ok {
		return o
	}
	n := t
	n.ID = len(tt.list) + 1
	tt.list = append(tt.list, &n)
	tt.tab[key] = &n
	return &n
}

// Const interns a constant.
func (tt *Terms) Const(v constant.Value, t types.Type) *Term {
	return tt.mk(Term{K: KConst, Val: v, T: t})
}

// Int interns an integer constant.
func (tt *Terms) Int(n int64) *Term {
	return tt.mk(Term{K: KConst, Val: constant.MakeInt64(n), T: types.Typ[types.Int]})
}

// Bool interns a truth value.
func (tt *Terms) Bool(b bool) *Term {
	return tt.mk(Term{K: KConst, Val: constant.MakeBool(b), T: types.Typ[types.Bool]})
}

// Nil is the nil of any type.
func (tt *Terms) Nil(t types.Type) *Term { return tt.mk(Term{K: KNil, T: t}) }

// Zero is the zero value of t.
func (tt *Terms) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return tt.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return tt.Const(constant.MakeString(""), t)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return tt.Nil(t)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return tt.Nil(t)
	}
	return tt.mk(Term{K: KZero, T: t})
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int64, types.Uint64, types.Int, types.Uint, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

// IntVal returns the value of an integer constant.
func (t *Term) IntVal() (int64, bool) {
	if t == nil || t.K != KConst || t.Val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.Val)
}

// StrVal returns the value of a string constant.
func (t *Term) StrVal() (string, bool) {
	if t == nil || t.K != KConst || t.Val.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.Val), true
}

// BoolVal returns the value of a boolean constant.
func (t *Term) BoolVal() (bool, bool) {
	if t == nil || t.K != KConst || t.Val.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.Val), true
}

// IsNil reports whether t is the nil constant.
func (t *Term) IsNil() bool { return t != nil && t.K == KNil }

// Is reports a constant integer equal to n.
func (t *Term) Is(n int64) bool {
	v, ok := t.IntVal()
	return ok && v == n
}

// IsCall reports whether t is (a component of) the result of a call to one of
// the named callees, and returns the call term and the component index.
func (t *Term) IsCall(names ...string) (*Term, int, bool) {
	idx := 0
	c := t
	if t != nil && t.K == KExtract {
		c, idx = t.Args[0], t.Idx
	}
	if c == nil || c.K != KCall {
		return nil, 0, false
	}
	if len(names) == 0 {
		return c, idx, true
	}
	for _, n := range names {
		if c.Callee == n {
			return c, idx, true
		}
	}
	return nil, 0, false
}

// Walk visits t and its subterms, each once.
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	found := false
	t.Walk(func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	})
	return found
}

// Root follows addresses and slices down to the object they lie in.
func (t *Term) Root() *Term {
	for t != nil {
		switch t.K {
		case KFieldAddr, KIndexAddr, KSlice:
			t = t.Args[0]
		default:
			return t
		}
	}
	return nil
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "·"
	}
	if d > 7 {
		return "…"
	}
	a := func(i int) string {
		if i >= len(t.Args) {
			return "·"
		}
		return t.Args[i].str(d + 1)
	}
	list := func(from int) string {
		var out []string
		for i := from; i < len(t.Args); i++ {
			out = append(out, a(i))
		}
		return strings.Join(out, ", ")
	}
	short := func(s string) string {
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	switch t.K {
	case KConst:
		return t.Val.String()
	case KNil:
		return "nil"
	case KZero:
		return "zero"
	case KParam:
		return t.Aux
	case KGlobal:
		return "&" + short(t.Aux)
	case KFunc:
		return shortFn(t.Fn)
	case KAlloc:
		return fmt.Sprintf("new%d", t.ID)
	case KFieldAddr:
		return "&" + a(0) + "." + t.Var.Name()
	case KIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case KLoad:
		s := a(0)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.Idx > 0 {
			s += fmt.Sprintf("@%d", t.Idx)
		}
		return s
	case KField:
		return a(0) + "." + t.Var.Name()
	case KIndex:
		return a(0) + "[" + a(1) + "]"
	case KSlice:
		s := a(0) + "[" + a(1) + ":"
		if len(t.Args) > 2 && t.Args[2] != nil {
			s += a(2)
		}
		return s + "]"
	case KBin:
		return "(" + a(0) + " " + t.Op.String() + " " + a(1) + ")"
	case KNot:
		return "!" + a(0)
	case KNeg:
		return t.Op.String() + a(0)
	case KConv:
		return types.TypeString(t.T, func(*types.Package) string { return "" }) + "(" + a(0) + ")"
	case KIface:
		return a(0)
	case KAssert:
		return a(0) + ".(" + types.TypeString(t.T, func(*types.Package) string { return "" }) + ")"
	case KAssertOk:
		return "ok:" + a(0) + ".(" + types.TypeString(t.T, func(*types.Package) string { return "" }) + ")"
	case KCall:
		return short(t.Callee) + "(" + list(0) + ")"
	case KExtract:
		return a(0) + "#" + strconv.Itoa(t.Idx)
	case KMu:
		return "μ" + strconv.Itoa(t.ID)
	case KRecv:
		return "<-" + a(0)
	case KRecvOk:
		return "ok:<-" + a(0)
	case KMake:
		return "make(" + list(0) + ")"
	case KClosure:
		return "func:" + shortFn(t.Fn)
	case KAppend:
		return "append(" + list(0) + ")"
	case KStruct:
		return "{" + list(0) + "}"
	case KLookup:
		return a(0) + "[" + a(1) + "]"
	case KLookupOk:
		return "ok:" + a(0) + "[" + a(1) + "]"
	case KLen:
		return "len(" + a(0) + ")"
	case KCap:
		return "cap(" + a(0) + ")"
	case KTuple:
		return "(" + list(0) + ")"
	}
	return fmt.Sprintf("?%d", t.ID)
}

// AssertOk: whether the interface value v holds a t.
func (tt *Terms) AssertOk(v *Term, t types.Type) *Term {
	return tt.mk(Term{K: KAssertOk, Args: []*Term{v}, T: t})
}
