package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

type (
	term = engine.Term
	path = engine.Path
	evnt = engine.Event
	res  = engine.Result
	eval = engine.Eval
)

var snMemo = map[string]string{}

// sn shortens a callee's name: "(*bytes.Buffer).Next" to "bytes.Buffer.Next",
// "path/filepath.Join" to "filepath.Join".
func sn(s string) string {
	if r, ok := snMemo[s]; ok {
		return r
	}
	r := strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
	if i := strings.LastIndexByte(r, '/'); i >= 0 {
		r = r[i+1:]
	}
	snMemo[s] = r
	return r
}

func in(s string, list ...string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// isCall reports whether t is (a result of) a call of one of the named functions.
func isCall(t *term, names ...string) (*term, int, bool) {
	c, idx, ok := t.IsCall()
	if !ok || (len(names) > 0 && !in(sn(c.Callee), names...)) {
		return nil, 0, false
	}
	return c, idx, true
}

// isRes reports whether t is result idx of a call of one of the named functions.
func isRes(t *term, idx int, names ...string) (*term, bool) {
	c, i, ok := isCall(t, names...)
	if !ok || i != idx {
		return nil, false
	}
	if t.K == engine.KCall && idx != 0 {
		return nil, false
	}
	return c, true
}

func evIs(ev *evnt, names ...string) bool {
	return ev.Kind == engine.EvCall && in(sn(ev.Callee), names...)
}

// callsOn lists the calls of the named functions on a path.
func callsOn(p *path, names ...string) []*evnt {
	var out []*evnt
	for _, ev := range p.Events {
		if evIs(ev, names...) {
			out = append(out, ev)
		}
	}
	return out
}

// errRet is the error a path returns: its last result.
func errRet(p *path) *term {
	if len(p.Ret) == 0 {
		return nil
	}
	return p.Ret[len(p.Ret)-1]
}

// okPath reports whether a path returns and may report success.
func okPath(p *path) bool {
	return p.Exit == "return" && !p.Eval().NonNil(errRet(p))
}

// unbox strips interface boxing and conversions that keep the value.
func unbox(t *term) *term {
	for t != nil && t.K == engine.KIface {
		t = t.Args[0]
	}
	return t
}

// same reports equality under the facts of e.
func same(e *eval, a, b *term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = unbox(a), unbox(b)
	if a == b || e.Canon(a) == e.Canon(b) || e.Rep(a) == e.Rep(b) {
		return true
	}
	if isIntT(a) && isIntT(b) {
		return e.AtMost(a, b, 0) && e.AtMost(b, a, 0)
	}
	// string(x) == string(y) etc.
	if a.K == b.K && (a.K == engine.KConv || a.K == engine.KSlice || a.K == engine.KExtract) && len(a.Args) == len(b.Args) && a.Idx == b.Idx {
		for i := range a.Args {
			if !same(e, a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func isIntT(t *term) bool {
	if t == nil || t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// fieldLoad reports whether t reads the field of that name from base.
func fieldLoad(t *term, name string) (*term, bool) {
	if t == nil {
		return nil, false
	}
	switch t.K {
	case engine.KLoad:
		a := t.Args[0]
		if a.K == engine.KFieldAddr && a.Var.Name() == name {
			return a.Args[0], true
		}
	case engine.KField:
		if t.Var.Name() == name {
			return t.Args[0], true
		}
	}
	return nil, false
}

// fieldPath reports whether t reads base.f1.f2...
func fieldPath(t *term, base *term, names ...string) bool {
	for i := len(names) - 1; i >= 0; i-- {
		if t == nil {
			return false
		}
		n := names[i]
		switch {
		case (t.K == engine.KLoad) && t.Args[0].K == engine.KFieldAddr && t.Args[0].Var.Name() == n:
			t = t.Args[0].Args[0]
		case t.K == engine.KFieldAddr && t.Var.Name() == n:
			t = t.Args[0]
		case t.K == engine.KField && t.Var.Name() == n:
			t = t.Args[0]
		default:
			return false
		}
	}
	return t == base
}

// roots climbs from an unexported helper to the functions it works for: the
// exported functions, closures and goroutines it is reached from.
func (c *Ctx) roots(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	out := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			// A closure runs for the function that makes it, unless that one
			// spawns it; the function's own exploration inlines it.
			rec(f.Parent())
			return
		}
		if token.IsExported(f.Name()) || f.Signature.Recv() == nil && (f.Name() == "main" || f.Name() == "init") {
			out[f] = true
			return
		}
		calls := c.P.Callers(f)
		n := 0
		for _, call := range calls {
			p := call.Parent()
			if p == nil || engine.IsFake(p) {
				continue
			}
			n++
			if _, ok := call.(*ssa.Go); ok {
				out[f] = true
				continue
			}
			rec(p)
		}
		if n == 0 {
			out[f] = true
		}
	}
	rec(fn)
	var l []*ssa.Function
	for f := range out {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	return l
}

// callSites lists the static calls in the repository of functions whose full
// name is one of names, outside test doubles.
func (c *Ctx) callSites(names ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	c.eachCall(func(call ssa.CallInstruction, name string) {
		if in(name, names...) {
			out = append(out, call)
		}
	})
	return out
}

// eachCall visits every call in the repository with the callee's full name.
func (c *Ctx) eachCall(f func(call ssa.CallInstruction, name string)) {
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f(call, fullCallee(call.Common()))
			}
		}
	}
}

func fullCallee(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return engine.FullName(v)
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.MakeClosure:
		return engine.FullName(v.Fn.(*ssa.Function))
	}
	return "dyn"
}

// constBytes is the content of a byte slice argument if it is constant.
func constBytes(ev *evnt, t *term) (string, bool) {
	if t == nil {
		return "", false
	}
	if t.K == engine.KConv {
		return constBytes(ev, t.Args[0])
	}
	if s, ok := t.StrVal(); ok {
		return s, true
	}
	if t.K == engine.KNil {
		return "", true
	}
	if t.K == engine.KSlice && t.Args[0].K == engine.KAlloc && ev != nil {
		at, ok := t.Args[0].T.Underlying().(*types.Pointer)
		if !ok {
			return "", false
		}
		arr, ok := at.Elem().Underlying().(*types.Array)
		if !ok {
			return "", false
		}
		lo, ok := t.Args[1].IntVal()
		if !ok {
			return "", false
		}
		hi := arr.Len()
		if len(t.Args) > 2 && t.Args[2] != nil {
			if hi, ok = t.Args[2].IntVal(); !ok {
				return "", false
			}
		}
		out := make([]byte, 0, hi-lo)
		for i := lo; i < hi; i++ {
			v := int64(0)
			found := false
			for a, x := range ev.Cells {
				if a.K == engine.KIndexAddr && a.Args[0] == t.Args[0] && a.Args[1].Is(i) {
					n, ok := x.IntVal()
					if !ok {
						return "", false
					}
					v, found = n, true
				}
			}
			if !found {
				v = 0
			}
			out = append(out, byte(v))
		}
		return string(out), true
	}
	return "", false
}

// callEvent finds the event that produced a call term.
func callEvent(p *path, t *term) *evnt {
	c, _, ok := t.IsCall()
	if !ok {
		return nil
	}
	for _, ev := range p.Events {
		if ev.Kind == engine.EvCall && ev.Res == c {
			return ev
		}
	}
	return nil
}

func posOf(p *path) token.Pos { return p.Pos }

// structField is a field of a struct value.
func structField(v *term, name string) *term {
	if v == nil || v.T == nil {
		return nil
	}
	st, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			if v.K == engine.KStruct {
				return v.Args[i]
			}
			return nil
		}
	}
	return nil
}

// strip removes conversions and boxing.
func strip(t *term) *term {
	for t != nil && (t.K == engine.KConv || t.K == engine.KIface) {
		t = t.Args[0]
	}
	return t
}

// elemOf splits the value of an element of a slice, array or string.
func elemOf(t *term) (base, idx *term, ok bool) {
	t = strip(t)
	if t == nil {
		return nil, nil, false
	}
	switch t.K {
	case engine.KIndex:
		return t.Args[0], t.Args[1], true
	case engine.KLoad:
		if t.Args[0].K == engine.KIndexAddr {
			return t.Args[0].Args[0], t.Args[0].Args[1], true
		}
	}
	return nil, nil, false
}

const (
	tokAdd = token.ADD
	tokSub = token.SUB
)

// repoPath is the import path of the code under analysis.
const repoPath = "github.com/flawedmatrix/gocryptsftp"

// walkPath visits every term the events and facts of a path mention.
func walkPath(p *path, f func(*term)) {
	seen := map[*term]bool{}
	visit := func(t *term) {
		if t != nil {
			t.Walk(func(x *term) bool {
				if seen[x] {
					return false
				}
				seen[x] = true
				f(x)
				return true
			})
		}
	}
	for _, x := range p.Facts.Slice() {
		visit(x.T)
	}
	for _, ev := range p.Events {
		for _, a := range ev.Args {
			visit(a)
		}
		visit(ev.Res)
	}
}
