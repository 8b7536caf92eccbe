package rules

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// flow answers where values come from, without regard to control flow and
// with one set of values per struct field and per package variable.
type flow struct {
	p      *engine.Prog
	fields map[*types.Var][]ssa.Value
	globs  map[*ssa.Global][]ssa.Value
	binds  map[*ssa.FreeVar][]ssa.Value
	elems  map[ssa.Value][]ssa.Value
}

func newFlow(p *engine.Prog) *flow {
	f := &flow{p: p, fields: map[*types.Var][]ssa.Value{}, globs: map[*ssa.Global][]ssa.Value{}, binds: map[*ssa.FreeVar][]ssa.Value{}}
	for _, fn := range p.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					switch a := y.Addr.(type) {
					case *ssa.FieldAddr:
						v := engine.FieldVar(a.X.Type(), a.Field)
						f.fields[v] = append(f.fields[v], y.Val)
					case *ssa.Global:
						f.globs[a] = append(f.globs[a], y.Val)
					}
				case *ssa.MakeClosure:
					cf := y.Fn.(*ssa.Function)
					for i, fv := range cf.FreeVars {
						f.binds[fv] = append(f.binds[fv], y.Bindings[i])
					}
				}
			}
		}
	}
	return f
}

// origins lists the values v may come from.
func (f *flow) origins(v ssa.Value) []ssa.Value { return f.originsUntil(v) }

// originsUntil is origins, but does not look into the functions in stop.
func (f *flow) originsUntil(v ssa.Value, stop ...*ssa.Function) []ssa.Value {
	seen := map[ssa.Value]bool{}
	leaf := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	var load func(a ssa.Value, depth int)
	load = func(a ssa.Value, depth int) {
		if depth > 8 {
			leaf[a] = true
			return
		}
		switch y := a.(type) {
		case *ssa.Alloc:
			n := 0
			for _, r := range *y.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					rec(st.Val)
					n++
				}
				if mc, ok := r.(*ssa.MakeClosure); ok {
					cf := mc.Fn.(*ssa.Function)
					for i, b := range mc.Bindings {
						if b == ssa.Value(y) {
							for _, r2 := range *cf.FreeVars[i].Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(cf.FreeVars[i]) {
									rec(st.Val)
									n++
								}
							}
						}
					}
				}
			}
			if n == 0 {
				leaf[y] = true
			}
		case *ssa.FreeVar:
			for _, b := range f.binds[y] {
				load(b, depth+1)
			}
		case *ssa.FieldAddr:
			fv := engine.FieldVar(y.X.Type(), y.Field)
			if vs := f.fields[fv]; len(vs) > 0 {
				for _, s := range vs {
					rec(s)
				}
			} else {
				leaf[y] = true
			}
		case *ssa.Global:
			if vs := f.globs[y]; len(vs) > 0 {
				for _, s := range vs {
					rec(s)
				}
			} else {
				leaf[y] = true
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				load(e, depth+1)
			}
		default:
			leaf[a] = true
		}
	}
	results := func(call *ssa.Call, idx int) bool {
		fn := call.Call.StaticCallee()
		for _, x := range stop {
			if fn == x {
				return false
			}
		}
		if fn == nil || !f.p.InRepo(fn) || len(fn.Blocks) == 0 {
			return false
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				rec(r.Results[idx])
			}
		}
		return true
	}
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				rec(e)
			}
		case *ssa.Extract:
			if call, ok := y.Tuple.(*ssa.Call); ok && results(call, y.Index) {
				return
			}
			leaf[v] = true
		case *ssa.Call:
			if results(y, 0) {
				return
			}
			leaf[v] = true
		case *ssa.Parameter:
			fn := y.Parent()
			idx := -1
			for i, p := range fn.Params {
				if p == y {
					idx = i
				}
			}
			n := 0
			for _, call := range f.p.AllCallers(fn) {
				if engine.IsFake(call.Parent()) {
					continue
				}
				cc := call.Common()
				if cc.IsInvoke() {
					if idx == 0 {
						rec(cc.Value)
					} else {
						rec(cc.Args[idx-1])
					}
					n++
				} else if idx < len(cc.Args) {
					rec(cc.Args[idx])
					n++
				}
			}
			if n == 0 {
				leaf[v] = true
			}
		case *ssa.FreeVar:
			for _, b := range f.binds[y] {
				rec(b)
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				load(y.X, 0)
			} else {
				leaf[v] = true
			}
		case *ssa.Field:
			fv := engine.FieldVar(y.X.Type(), y.Field)
			if vs := f.fields[fv]; len(vs) > 0 {
				for _, s := range vs {
					rec(s)
				}
			} else {
				leaf[v] = true
			}
		case *ssa.ChangeType:
			rec(y.X)
		case *ssa.ChangeInterface:
			rec(y.X)
		case *ssa.MakeInterface:
			rec(y.X)
		case *ssa.Convert:
			rec(y.X)
		case *ssa.TypeAssert:
			rec(y.X)
		default:
			leaf[v] = true
		}
	}
	rec(v)
	var out []ssa.Value
	for v := range leaf {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

// originCall reports the full name of the function and result index an
// origin is, if it is a call's result.
func originCall(v ssa.Value) (string, int) {
	switch y := v.(type) {
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok {
			return fullCallee(&call.Call), y.Index
		}
	case *ssa.Call:
		return fullCallee(&y.Call), 0
	}
	return "", 0
}
