package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// exists decides whether path p has met pred at some point: its facts say so,
// or a flag it finds at some value only ever gets that value when they do.
func (c *Ctx) exists(r *res, p *path, pred func(e *eval, facts []engine.Fact) bool) bool {
	e := p.Eval()
	if pred(e, p.Facts.Slice()) {
		return true
	}
	for _, ev := range p.Events {
		if ev.Kind != engine.EvLoop || ev.Idx != 2 {
			continue
		}
		for mu, first := range ev.Cells {
			tt := r.TT
			if isIntT(mu) && (first == nil || !p.EvalAt(ev).AtMost(tt.Int(0), first, 0)) {
				continue
			}
			v, known := flagState(e, tt, mu, mu)
			if !known {
				continue
			}
			ok := true
			if b, k := flagState(p.EvalAt(ev), tt, first, mu); !k || b == v {
				at := &path{R: p.R, Facts: ev.Facts}
				if !k && first != nil && isBoolT(mu) {
					at = at.With(first, v)
				}
				if !pred(at.Eval(), at.Facts.Slice()) {
					ok = false
				}
			}
			var trips []*path
			for _, q := range r.Paths {
				if !ok || q.Exit != "cut" || len(q.Events) == 0 {
					continue
				}
				last := q.Events[len(q.Events)-1]
				if last.Kind != engine.EvLoop || last.Idx != 3 || last.LoopKey != ev.LoopKey || ev.Seq >= len(q.Events) || q.Events[ev.Seq] != ev {
					continue
				}
				trips = append(trips, splitFlags(q)...)
			}
			for _, q := range trips {
				last := q.Events[len(q.Events)-1]
				x := last.Cells[mu]
				if x == nil || x == mu {
					continue
				}
				if b, k := flagState(q.Eval(), tt, x, mu); k && b != v {
					continue
				}
				if w, k := flagState(q.Eval(), tt, mu, mu); k && w == v {
					continue // it already had that value
				}
				if !pred(q.Eval(), q.Facts.Slice()) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// initMap reads the constant entries of a map-typed package variable from the
// package initialiser.
func (c *Ctx) initMap(pkg, name string) (map[string]string, bool) {
	g, init := c.global(pkg, name)
	if g == nil {
		return nil, false
	}
	var m ssa.Value
	n := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					n++
					if fn == init {
						m = st.Val
					}
				}
			}
		}
	}
	if n != 1 || m == nil {
		return nil, false
	}
	out := map[string]string{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if mu.Map != m {
					if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						return nil, false // changed later
					}
					continue
				}
				k, ok1 := mu.Key.(*ssa.Const)
				v, ok2 := mu.Value.(*ssa.Const)
				if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
					return nil, false
				}
				vs := v.Value.ExactString()
				if v.Value.Kind() == constant.String {
					vs = constant.StringVal(v.Value)
				}
				out[k.Value.ExactString()] = vs
			}
		}
	}
	return out, true
}

// initSlice reads the constant elements of a slice- or array-typed package
// variable.
func (c *Ctx) initSlice(full string) ([]string, bool) {
	i := strings.LastIndexByte(full, '.')
	if i < 0 {
		return nil, false
	}
	var pkg *ssa.Package
	for path, sp := range c.P.SPkgs {
		if path == full[:i] {
			pkg = sp
		}
	}
	if pkg == nil {
		return nil, false
	}
	g := pkg.Var(full[i+1:])
	init := pkg.Func("init")
	if g == nil || init == nil {
		return nil, false
	}
	var base ssa.Value
	n := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if y.Addr == ssa.Value(g) {
						n++
						if sl, ok := y.Val.(*ssa.Slice); ok {
							base = sl.X
						}
					}
				case *ssa.IndexAddr:
					// an element of the variable written to later
					if u, ok := y.X.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						for _, ref := range *y.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
								return nil, false
							}
						}
					}
				}
			}
		}
	}
	if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && n == 0 {
		base = g
	} else if n != 1 || base == nil {
		return nil, false
	}
	var out []string
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != base {
				continue
			}
			k, ok := st.Val.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, false
			}
			out = append(out, k.Value.ExactString())
		}
	}
	return out, true
}

func (c *Ctx) global(pkg, name string) (*ssa.Global, *ssa.Function) {
	sp := c.P.SPkgs[c.P.Module+"/"+pkg]
	if sp == nil {
		return nil, nil
	}
	return sp.Var(name), sp.Func("init")
}

// constOf is the value of a package constant.
func (c *Ctx) constOf(pkg, name string) (string, bool) {
	sp := c.P.SPkgs[c.P.Module+"/"+pkg]
	if sp == nil {
		return "", false
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "", false
	}
	return k.Val().ExactString(), true
}

func (c *Ctx) constInt(pkg, name string) (int64, bool) {
	sp := c.P.SPkgs[c.P.Module+"/"+pkg]
	if sp == nil {
		return 0, false
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(k.Val())
}

// globalOf: t is the value of a package variable; its full name.
func globalOf(t *term) (string, bool) {
	if t != nil && t.K == engine.KLoad && t.Args[0].K == engine.KGlobal {
		return t.Args[0].Aux, true
	}
	return "", false
}

// eqFacts visits the equalities with the given truth value.
func eqFacts(facts []engine.Fact, pol bool, f func(a, b *term) bool) bool {
	for _, x := range facts {
		if x.Pol != pol || x.T.K != engine.KBin || x.T.Op.String() != "==" {
			continue
		}
		if f(x.T.Args[0], x.T.Args[1]) || f(x.T.Args[1], x.T.Args[0]) {
			return true
		}
	}
	return false
}
