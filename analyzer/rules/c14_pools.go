package rules

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// poolSizes: the buffer size each pool was made for, in terms of the block
// sizes; a buffer of another capacity makes the pool panic.
func (k *crashes) poolSizes() map[*types.Var]poly {
	if k.sizes != nil {
		return k.sizes
	}
	k.sizes = map[*types.Var]poly{}
	for _, fn := range k.c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		makes := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isPoolType(deref(fieldVarOf(fa.X.Type(), fa.Field).Type())) {
						makes = true
					}
				}
			}
		}
		if !makes {
			continue
		}
		r := k.c.P.Explore(engine.Config{Entry: fn})
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			g := newGeo(p.Eval(), "", "")
			set := map[*types.Var]*term{}
			for _, ev := range p.Events {
				if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KFieldAddr {
					v := ev.Args[0].Var
					set[v] = ev.Args[1]
					if v.Name() == "plainBS" {
						g.name[ev.Args[1]] = "P"
						if n := k.constParam(ev.Args[1]); n > 0 {
							k.plainBS = n
						}
					}
				}
			}
			g.atomOf = func(t *term) (poly, bool) {
				if _, ok := fieldLoad(t, "IVLen"); ok {
					return poly{"B": 1, "P": -1, "": -16}, true
				}
				return nil, false
			}
			for v, t := range set {
				if !isPoolType(v.Type()) {
					continue
				}
				st := v.Type().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if isIntType(st.Field(i).Type()) {
						if x := structField(t, st.Field(i).Name()); x != nil {
							s := g.of(x)
							if old, ok := k.sizes[v]; ok && !polyEq(old, s) {
								s = poly{"?" + v.Name(): 1}
							}
							k.sizes[v] = s
						}
					}
				}
			}
		}
	}
	return k.sizes
}

// constParam: the one constant a constructor's parameter is given everywhere.
func (k *crashes) constParam(t *term) int64 {
	t = strip(t)
	if t.K != engine.KParam || t.Fn == nil || t.Idx >= len(t.Fn.Params) {
		return 0
	}
	out := int64(0)
	for _, v := range k.c.P.Consts(t.Fn.Params[t.Idx]) {
		n, ok := constant.Int64Val(constant.ToInt(v))
		if !ok || out != 0 && n != out {
			return 0
		}
		out = n
	}
	return out
}

// putsBuffer: the pool field and the buffer of a call that gives a buffer to
// a pool that checks its size.
func (k *crashes) putsBuffer(ev *evnt) (*types.Var, *term) {
	f := ev.CalleeFn
	if f == nil || !poolMethod(f) || f.Parent() != nil || len(ev.Args) != 2 || len(f.Params) != 2 || !isDataSlice(f.Params[1].Type()) {
		return nil, nil
	}
	a := ev.Args[0]
	for a.K == engine.KLoad {
		a = a.Args[0]
	}
	if a.K != engine.KFieldAddr {
		return nil, nil
	}
	if _, ok := k.poolSizes()[a.Var]; !ok {
		return nil, nil
	}
	return a.Var, ev.Args[1]
}

// fitsPool: the buffer's capacity is the pool's size.
func (k *crashes) fitsPool(r *res, p *path, ev *evnt, pool *types.Var, buf *term) bool {
	e := p.EvalAt(ev)
	tt := r.TT
	g := newGeo(e, "plainBS", "cipherBS")
	know := append(g.facts(ev.Facts.Slice()), g.axioms()...)
	size := k.poolSizes()[pool]
	// The path contradicts what holds of block sizes.
	if proves(polyConst(-1), know) {
		return true
	}
	num := poly{}
	for m, c := range size {
		switch {
		case m == "":
			num = polyAdd(num, polyConst(c), 1)
		case m == "P" && k.plainBS > 0:
			num = polyAdd(num, polyConst(c*k.plainBS), 1)
		default:
			num = polyAdd(num, poly{m: c}, 1)
		}
	}
	const grown, exact = 1, 2
	// shape: exact for a buffer of the pool's size, grown for one that has
	// that size or grew beyond it while it was appended to.
	var shape func(t *term, on map[*term]bool) int
	shape = func(t *term, on map[*term]bool) int {
		if on[t] {
			return exact
		}
		switch t.K {
		case engine.KSlice:
			if len(t.Args) > 3 && t.Args[3] != nil {
				return 0
			}
			if lo := t.Args[1]; lo != nil && !e.Canon(lo).Is(0) {
				return 0
			}
			if s := shape(t.Args[0], on); s != exact || !on[t.Args[0]] {
				return s
			}
			return 0 // cut back and appended to again
		case engine.KMake:
			cp := t.Args[len(t.Args)-1]
			if provesZero(polyAdd(g.of(cp), size, -1), know) {
				return exact
			}
			return 0
		case engine.KAppend:
			if s := shape(t.Args[0], on); s == 0 {
				return 0
			}
			return grown
		case engine.KMu:
			on[t] = true
			out := exact
			n := 0
			for _, c := range r.Cands(t) {
				if c == t {
					continue
				}
				n++
				s := shape(c, on)
				if s == 0 {
					return 0
				}
				if s < out {
					out = s
				}
			}
			delete(on, t)
			if n == 0 {
				return 0
			}
			return out
		}
		if c, i, ok := t.IsCall(); ok && i <= 0 {
			if f := c.Fn; f != nil && poolMethod(f) || c.Instr != nil && poolCall(c) {
				a := c.Args[0]
				for a.K == engine.KLoad {
					a = a.Args[0]
				}
				if a.K == engine.KFieldAddr && a.Var == pool {
					return exact
				}
				return 0
			}
			if sn(c.Callee) == "cipher.AEAD.Open" && len(c.Args) == 5 {
				dst, ct := c.Args[1], c.Args[3]
				if shape(dst, on) != exact || !e.Canon(tt.Len(dst)).Is(0) {
					return 0
				}
				// what is left without the tag fits
				goal := polyAdd(polyAdd(size, g.of(tt.Len(ct)), -1), polyConst(16), 1)
				if proves(goal, know) {
					return exact
				}
			}
		}
		return 0
	}
	switch shape(buf, map[*term]bool{}) {
	case exact:
		return true
	case grown:
		for _, l := range []*term{tt.Cap(buf), tt.Len(buf)} {
			if proves(polyAdd(num, g.of(l), -1), know) {
				return true
			}
		}
	}
	return false
}

func poolCall(c *term) bool {
	ci, ok := c.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	return f != nil && poolMethod(f)
}

// poolTypes: for each pool, the types of what it hands out; nil for a pool
// that may hand out nothing or something unknown.
func (k *crashes) poolTypes() map[string]map[string]bool {
	if k.outs != nil {
		return k.outs
	}
	k.outs = map[string]map[string]bool{}
	made := map[string]bool{}
	bad := map[string]bool{}
	ident := func(v ssa.Value) string {
		switch y := v.(type) {
		case *ssa.Global:
			return y.String()
		case *ssa.FieldAddr:
			return fmt.Sprintf("%p", engine.FieldVar(y.X.Type(), y.Field))
		}
		return ""
	}
	note := func(id string, v ssa.Value) {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			bad[id] = true
			return
		}
		if k.outs[id] == nil {
			k.outs[id] = map[string]bool{}
		}
		k.outs[id][types.TypeString(mi.X.Type(), nil)] = true
	}
	for _, fn := range k.c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case ssa.CallInstruction:
					if f := y.Common().StaticCallee(); f != nil && f.String() == poolPut {
						note(ident(y.Common().Args[0]), y.Common().Args[1])
					}
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if !ok || types.TypeString(deref(fa.X.Type()), nil) != "sync.Pool" {
						continue
					}
					id := ident(fa.X)
					for _, o := range k.flow.origins(y.Val) {
						mk, _ := o.(*ssa.Function)
						if mc, ok := o.(*ssa.MakeClosure); ok {
							mk = mc.Fn.(*ssa.Function)
						}
						if mk == nil || len(mk.Blocks) == 0 {
							bad[id] = true
							continue
						}
						for _, b := range mk.Blocks {
							if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
								note(id, ret.Results[0])
							}
						}
						made[id] = true
					}
				}
			}
		}
	}
	loose := bad[""] || len(k.outs[""]) > 0 // something is put into a pool not known
	for id := range k.outs {
		if loose || bad[id] || !made[id] {
			delete(k.outs, id)
		}
	}
	return k.outs
}

// fromPool: t was taken from a pool that only holds values of type want.
func (k *crashes) fromPool(t *term, want types.Type) bool {
	g, ok := isRes(strip(t), 0, "sync.Pool.Get")
	if !ok {
		return false
	}
	at := g.Args[0]
	id := ""
	switch at.K {
	case engine.KGlobal:
		id = at.Aux
	case engine.KFieldAddr:
		id = fmt.Sprintf("%p", at.Var)
	}
	out := k.poolTypes()[id]
	return id != "" && len(out) == 1 && out[types.TypeString(want, nil)]
}
