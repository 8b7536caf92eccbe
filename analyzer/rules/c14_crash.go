package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C14", Technique: "trace-partitioned abstract interpretation with difference bounds and nilness over Go SSA, lifted through callers up to the serving entry points",
		Explain: "every operation that can crash (index, slice, type assertion, nil dereference or method call, division, allocation size, explicit panic or exit, cipher-library precondition, recursion) in every function reachable while serving is shown safe on every path of the function, or of all callers in whose context it runs",
		Run:     runC14})
}

// crash is an operation not shown to be safe.
type crash struct {
	pos  token.Pos
	fn   *ssa.Function
	what string
	p    *path
}

// siteKey names an operation.
type siteKey struct {
	in   ssa.Instruction
	kind string
}

// crashRun is one exploration's outcome.
type crashRun struct {
	bad    map[siteKey]*crash
	seen   map[siteKey]bool
	open   map[*ssa.Function]bool // may be called where the call was not followed
	capped bool
}

type crashes struct {
	c     *Ctx
	rule  string
	reach map[*ssa.Function]bool
	roots map[*ssa.Function]bool
	fns   []*ssa.Function
	flow  *flow
	runs  [2]map[*ssa.Function]*crashRun

	stored  map[*types.Var]bool // fields written while serving
	nilable map[*types.Var]bool // fields that may become nil while serving
	closed  map[string]bool     // element types of channels closed while serving
	mayNil  map[*ssa.Function]bool
	list    types.Type // nodes of the path cache
	pooled  map[*ssa.Function]bool
	clean   map[ssa.Value]int
	held    map[holder]map[string]bool
	makes   map[string]bool
	sizes   map[*types.Var]poly        // of the buffers of pools
	outs    map[string]map[string]bool // types of what pools hand out
	plainBS int64
}

func runC14(c *Ctx) {
	const R, A, N, L = "no-crash", "answers", "nonce-size", "recursion"
	c.Rule(R, "every index, slice, assertion, dereference, method call, division, allocation, panic, exit and library precondition in serving code is safe on every path, or on every path of every caller it runs for")
	c.Rule(A, "a function that returns a pointer and an error returns a pointer that is not nil whenever the error is nil")
	c.Rule(N, "the nonces the content ciphers are given have the length those ciphers were set up for")
	c.Rule(L, "recursion while serving goes to a strictly shorter path or a strictly smaller number")
	k := &crashes{c: c, rule: R, flow: newFlow(c.P), clean: map[ssa.Value]int{}, mayNil: map[*ssa.Function]bool{}, held: map[holder]map[string]bool{}, makes: map[string]bool{}}
	k.runs[0], k.runs[1] = map[*ssa.Function]*crashRun{}, map[*ssa.Function]*crashRun{}
	k.scope()
	k.facts()
	for _, fn := range k.fns {
		k.answers(A, fn)
	}
	for _, fn := range k.fns {
		if k.writesMap(fn) {
			for _, p := range k.explore(fn, 0).Paths {
				k.holds(fn, p)
			}
		}
	}
	for _, fn := range k.fns {
		r := k.run(fn, 0)
		var keys []siteKey
		for s := range r.seen {
			if s.in.Parent() == fn || k.orphan(s.in.Parent()) {
				keys = append(keys, s)
			}
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].in.Pos() != keys[j].in.Pos() {
				return keys[i].in.Pos() < keys[j].in.Pos()
			}
			return keys[i].kind < keys[j].kind
		})
		for _, s := range keys {
			x := k.decide(s, fn, map[*ssa.Function]bool{}, nil)
			at := fmt.Sprintf("%s in %s", s.kind, short(fn))
			if x == nil {
				c.Pass(R, at)
			} else {
				c.FailPath(R, x.pos, at, x.what, x.p)
			}
		}
	}
	c.Need(R, 60)
	c.Need(A, 4)
	k.nonces(N)
	k.recursion(L)
	k.accepting(R)
}

// orphan: a function that is no unit of its own.
func (k *crashes) orphan(fn *ssa.Function) bool { return !k.reach[fn] }

// decide shows an operation safe in the function, or in all its callers.
func (k *crashes) decide(s siteKey, fn *ssa.Function, on map[*ssa.Function]bool, prev *crash) *crash {
	if on[fn] {
		return nil
	}
	on[fn] = true
	if fa, ok := s.in.(*ssa.FieldAddr); ok && k.list != nil && s.kind == "dereference" && types.Identical(deref(fa.X.Type()), deref(k.list)) {
		return nil // decided by the shape analysis of the path cache
	}
	if len(on) == 1 {
		if r := k.run(fn, 0); r.seen[s] && r.bad[s] == nil && !r.capped {
			return nil
		}
	}
	r := k.run(fn, 1)
	open := false
	for f := range on {
		open = open || f != fn && r.open[f]
	}
	if r.bad[s] == nil && !r.capped && !open {
		return nil // safe, or never reached here
	}
	x := r.bad[s]
	if x == nil {
		x = &crash{pos: s.in.Pos(), fn: fn, what: "more paths lead here than are followed"}
		if open {
			x = prev
		}
	}
	if k.roots[fn] {
		return x
	}
	callers := k.callers(fn)
	if len(callers) == 0 {
		return x
	}
	for _, g := range callers {
		if y := k.decide(s, g, on, x); y != nil {
			return y
		}
	}
	return nil
}

// mayBe: the interface call may be one of the method.
func (k *crashes) mayBe(f *ssa.Function, cc *ssa.CallCommon) bool {
	recv := f.Signature.Recv()
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	return ok && recv != nil && (types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it))
}

// callers: the serving functions a function runs for.
func (k *crashes) callers(fn *ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	if fn.Parent() != nil {
		set[fn.Parent()] = true
	}
	for _, call := range k.c.P.AllCallers(fn) {
		if p := call.Parent(); k.reach[p] {
			set[p] = true
		}
	}
	var out []*ssa.Function
	for f := range set {
		if f != fn {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return short(out[i]) < short(out[j]) })
	return out
}

// scope finds the functions that run while serving.
func (k *crashes) scope() {
	c := k.c
	live := c.live()
	k.roots, k.reach = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	methods := map[string][]*ssa.Function{}
	for fn := range live {
		if fn.Signature.Recv() != nil && fn.Synthetic == "" && !engine.IsFake(fn) {
			methods[fn.Name()] = append(methods[fn.Name()], fn)
		}
	}
	ofType := func(t types.Type, it *types.Interface) {
		for i := 0; i < it.NumMethods(); i++ {
			for _, m := range methods[it.Method(i).Name()] {
				if engine.TypeKey(m.Signature.Recv().Type()) == engine.TypeKey(t) {
					k.roots[m] = true
				}
			}
		}
	}
	for fn := range live {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Go:
					if g := y.Common().StaticCallee(); g != nil && c.P.InRepo(g) {
						k.roots[g] = true
					}
				case *ssa.MakeInterface:
					if it, ok := y.Type().Underlying().(*types.Interface); ok {
						if n := engine.NamedOf(y.Type()); n == nil || n.Obj().Pkg() == nil || !c.P.InRepoPkg(n.Obj().Pkg()) {
							if n == nil || n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "crypto/cipher" {
								continue
							}
							ofType(y.X.Type(), it)
						}
					}
				}
				// Functions the library is given.
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g != nil && c.P.InRepo(g) && g.Synthetic == "" {
						if ci, ok := in.(ssa.CallInstruction); ok {
							if f := ci.Common().StaticCallee(); f != nil && c.P.InRepo(f) {
								continue // runs for the function it is given to
							}
						}
						k.roots[g] = true
					}
				}
			}
		}
	}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || k.reach[fn] || !live[fn] || len(fn.Blocks) == 0 || engine.IsFake(fn) || poolMethod(fn) || strings.HasSuffix(engine.PkgOf(fn).Path(), "/tlog") {
			return
		}
		k.reach[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, m := range methods[cc.Method.Name()] {
							if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(m.Signature.Recv().Type(), it) && k.made(m.Signature.Recv().Type()) {
								add(m)
							}
						}
						continue
					}
					add(cc.StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for fn := range k.roots {
		add(fn)
	}
	for fn := range k.roots {
		if !k.reach[fn] {
			delete(k.roots, fn)
		}
	}
	for fn := range k.reach {
		k.fns = append(k.fns, fn)
	}
	sort.Slice(k.fns, func(i, j int) bool { return short(k.fns[i]) < short(k.fns[j]) })
}

// made: some function that makes a value of the type returns.
func (k *crashes) made(t types.Type) bool {
	key := engine.TypeKey(deref(t))
	if v, ok := k.makes[key]; ok {
		return v
	}
	st, ok := deref(t).Underlying().(*types.Struct)
	k.makes[key] = true
	if !ok || st == nil {
		return true
	}
	n := 0
	for _, fn := range k.c.P.Funcs {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && engine.TypeKey(deref(a.Type())) == key {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		n++
		for _, p := range k.explore(fn, 0).Paths {
			if p.Exit == "return" {
				return true
			}
		}
	}
	k.makes[key] = n == 0
	return n == 0
}

// poolMethod: a method of a buffer pool, which the pool rules are about.
func poolMethod(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	return isPoolType(deref(r.Type()))
}

func isPoolType(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.TypeString(deref(st.Field(i).Type()), nil) == "sync.Pool" {
			return true
		}
	}
	return false
}

// facts collects what is written while serving.
func (k *crashes) facts() {
	k.stored, k.nilable, k.closed = map[*types.Var]bool{}, map[*types.Var]bool{}, map[string]bool{}
	if n := k.c.P.Named("filetree", "FastCache"); n != nil {
		if ls := lruRoles(n); len(ls) > 0 {
			k.list = ls[0].node
		}
	}
	for _, fn := range k.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
						v := fieldVarOf(fa.X.Type(), fa.Field)
						k.stored[v] = true
						for _, o := range k.flow.origins(y.Val) {
							if c, ok := o.(*ssa.Const); ok && c.Value == nil {
								k.nilable[v] = true
							}
						}
					}
				case ssa.CallInstruction:
					if b, ok := y.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						if ch, ok := y.Common().Args[0].Type().Underlying().(*types.Chan); ok {
							k.closed[types.TypeString(ch.Elem(), nil)] = true
						}
					}
				}
			}
		}
	}
}

// run explores a function: with the functions of its own package followed
// into, or with all.
func (k *crashes) run(fn *ssa.Function, level int) *crashRun {
	if r, ok := k.runs[level][fn]; ok {
		return r
	}
	u := &crashRun{bad: map[siteKey]*crash{}, seen: map[siteKey]bool{}, open: map[*ssa.Function]bool{}}
	k.runs[level][fn] = u
	r := k.explore(fn, level)
	u.capped = r.Capped
	unfollowed := map[ssa.Instruction]bool{}
	for _, p := range r.Paths {
		k.path(fn, r, p, u)
		for _, ev := range p.Events {
			if ev.Kind != engine.EvCall || unfollowed[ev.Instr] {
				continue
			}
			unfollowed[ev.Instr] = true
			if ev.CalleeFn != nil {
				u.open[ev.CalleeFn] = true
			}
			if ci, ok := ev.Instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
				for f := range k.reach {
					if f.Name() == ci.Common().Method.Name() && k.mayBe(f, ci.Common()) {
						u.open[f] = true
					}
				}
			}
		}
	}
	return u
}

func (k *crashes) explore(fn *ssa.Function, level int) *res {
	pkg := engine.PkgOf(fn)
	cfg := engine.Config{Entry: fn, MaxPaths: 4000}
	cfg.Opaque = func(f *ssa.Function) bool {
		if f == fn {
			return false
		}
		if poolMethod(f) || strings.HasSuffix(engine.PkgOf(f).Path(), "/tlog") {
			return true
		}
		return level == 0 && engine.PkgOf(f) != pkg
	}
	r := k.c.P.Explore(cfg)
	k.c.Paths += len(r.Paths)
	for f := range r.Funcs {
		k.c.Funcs[short(f)] = true
	}
	k.c.Funcs[short(fn)] = true
	return r
}

// answers: no error means a result.
func (k *crashes) answers(rule string, fn *ssa.Function) {
	res := fn.Signature.Results()
	n := res.Len()
	if n < 2 || types.TypeString(res.At(n-1).Type(), nil) != "error" || !canNil(res.At(0).Type()) || fn.Parent() != nil {
		return
	}
	r := k.explore(fn, 0)
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		e := p.Eval()
		if e.NonNil(p.Ret[n-1]) {
			continue
		}
		v := p.Ret[0]
		if last := p.Ret[n-1]; v.K == engine.KExtract && last.K == engine.KExtract && v.Args[0] == last.Args[0] {
			continue // passed on
		}
		if k.nonNil(r, p, e, v) {
			k.c.Pass(rule, short(fn))
		} else {
			k.mayNil[fn] = true
		}
	}
}

// canNil: types whose nil value crashes when used.
func canNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// nonNil: a value that is not nil, or whose being so is no matter of input.
func (k *crashes) nonNil(r *res, p *path, e *engine.Eval, t *term) bool {
	if e.NonNil(t) {
		return true
	}
	if e.IsNil(t) {
		return false
	}
	t = strip(t)
	switch t.K {
	case engine.KParam:
		return true // decided where it is passed
	case engine.KNil, engine.KZero:
		return false
	case engine.KLoad:
		a := t.Args[0]
		switch a.K {
		case engine.KFieldAddr:
			if k.list != nil && types.Identical(deref(a.Args[0].T), k.list) || k.list != nil && t.T != nil && types.Identical(deref(t.T), k.list) {
				return true // decided by the shape analysis of the path cache
			}
			return !k.nilable[a.Var]
		case engine.KIndexAddr, engine.KGlobal, engine.KParam:
			return true // elements of lists the libraries give
		}
		return true
	case engine.KField:
		return t.Var == nil || !k.nilable[t.Var]
	case engine.KIndex:
		return true
	case engine.KRecv:
		ok := false
		for _, ev := range p.Events {
			if ev.Kind == engine.EvRecv && ev.Res == t {
				ok = ev.Ok != nil && e.Holds(ev.Ok)
			}
		}
		return ok || !k.closed[types.TypeString(t.T, nil)] && k.c.repoType(t.T)
	case engine.KExtract:
		call := t.Args[0]
		if call.K != engine.KCall {
			return false
		}
		return k.answered(r, e, call, t)
	case engine.KCall:
		if f := k.calleeOf(call(t)); f != nil && k.mayNil[f] {
			return false
		}
		return true
	case engine.KLookup:
		// The nodes of the path cache.
		if k.list != nil && types.Identical(deref(t.T), k.list) {
			return true
		}
		return false
	case engine.KAssert:
		return e.Holds(r.TT.AssertOk(t.Args[0], t.T))
	case engine.KMu:
		for _, c := range r.Cands(t) {
			if c != t && !k.nonNil(r, p, e, c) {
				return false
			}
		}
		return true
	}
	return false
}

func call(t *term) ssa.CallInstruction {
	ci, _ := t.Instr.(ssa.CallInstruction)
	return ci
}

func (k *crashes) calleeOf(ci ssa.CallInstruction) *ssa.Function {
	if ci == nil {
		return nil
	}
	return ci.Common().StaticCallee()
}

// answered: one of the results of a call that did not fail.
func (k *crashes) answered(r *res, e *engine.Eval, cl, t *term) bool {
	ci := call(cl)
	if ci == nil {
		return false
	}
	if f := k.calleeOf(ci); f != nil && k.mayNil[f] {
		return false
	}
	sig := ci.Common().Signature()
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		if types.TypeString(sig.Results().At(i).Type(), nil) == "error" {
			return e.IsNil(r.TT.Extract(cl, i))
		}
	}
	return true
}

func (c *Ctx) repoType(t types.Type) bool {
	n := engine.NamedOf(deref(t))
	return n != nil && c.P.InRepoPkg(n.Obj().Pkg())
}

// internal: a value that does not depend on what clients or the server send.
func (k *crashes) internal(r *res, t *term, depth int) bool {
	if t == nil || depth > 12 {
		return false
	}
	switch t.K {
	case engine.KConst, engine.KNil, engine.KFunc:
		return true
	case engine.KParam:
		if t.Fn != nil && t.Idx < len(t.Fn.Params) {
			return k.cleanSSA(t.Fn.Params[t.Idx], 0)
		}
		return false
	case engine.KLoad:
		if a := t.Args[0]; a.K == engine.KParam && a.Fn != nil && a.Idx >= 1000 {
			if v := a.Fn.FreeVars[a.Idx-1000]; v != nil {
				return k.cleanLoad(v)
			}
		}
		return t.Args[0].K == engine.KFieldAddr && k.fixed(t.Args[0].Var)
	case engine.KField:
		return t.Var != nil && (k.fixed(t.Var) || k.cleanField(t.Var))
	case engine.KBin, engine.KConv, engine.KLen, engine.KCap, engine.KNeg, engine.KNot:
		for _, a := range t.Args {
			if !k.internal(r, a, depth+1) {
				return false
			}
		}
		return true
	case engine.KMake:
		return len(t.Args) > 0 && k.internal(r, t.Args[0], depth+1)
	case engine.KMu:
		n := 0
		for _, c := range r.Cands(t) {
			if mentions(c, t) {
				if c != t && c.K != engine.KBin {
					return false
				}
				continue
			}
			n++
			if !k.internal(r, c, depth+1) {
				return false
			}
		}
		return n > 0
	}
	return false
}

// fixed: a field of the repository's types that serving never writes.
func (k *crashes) fixed(v *types.Var) bool {
	return v != nil && v.Pkg() != nil && k.c.P.InRepoPkg(v.Pkg()) && !k.stored[v]
}

func (k *crashes) cleanField(v *types.Var) bool {
	vs := k.flow.fields[v]
	for _, x := range vs {
		if !k.cleanSSA(x, 0) {
			return false
		}
	}
	return len(vs) > 0
}

// cleanSSA: an SSA value made of constants, counters and fixed fields only.
func (k *crashes) cleanSSA(v ssa.Value, depth int) bool {
	if s, ok := k.clean[v]; ok {
		return s >= 0
	}
	if depth > 10 {
		return false
	}
	k.clean[v] = 0
	ok := true
	for _, o := range k.flow.origins(v) {
		switch y := o.(type) {
		case *ssa.Const:
		case *ssa.BinOp:
			ok = ok && k.cleanSSA(y.X, depth+1) && k.cleanSSA(y.Y, depth+1)
		case *ssa.FieldAddr:
			ok = ok && k.fixed(fieldVarOf(y.X.Type(), y.Field))
		default:
			ok = false
		}
	}
	if !ok {
		k.clean[v] = -1
	}
	return ok
}

// cleanLoad: a captured variable given only such values.
func (k *crashes) cleanLoad(v *ssa.FreeVar) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			return k.cleanSSA(u, 0)
		}
	}
	return false
}

// path checks the operations of a path.
func (k *crashes) path(fn *ssa.Function, r *res, p *path, u *crashRun) {
	tt := r.TT
	note := func(ev *evnt, kind string, ok bool, what string) {
		s := siteKey{ev.Instr, kind}
		u.seen[s] = true
		if !ok && u.bad[s] == nil {
			u.bad[s] = &crash{pos: ev.Pos, fn: ev.Fn, what: what, p: p}
		}
	}
	// a <= b + c
	le := func(e *engine.Eval, a, b *term, c int64) bool {
		if e.AtMost(a, b, c) || k.internal(r, a, 0) && k.internal(r, b, 0) {
			return true
		}
		if x, y := elem0(r, a), elem0(r, b); (x != a || y != b) && (e.AtMost(x, y, c) || k.internal(r, x, 0) && k.internal(r, y, 0)) {
			return true
		}
		if a.Is(0) && c == 0 {
			if x := strip(b); x.K == engine.KParam && k.roots[fn] && in(fn.Name(), "ListAt", "ReadAt", "WriteAt") {
				return true // what the interface promises
			}
		}
		return false
	}
	zero := tt.Int(0)
	for _, ev := range p.Events {
		switch ev.Kind {
		case engine.EvIndex:
			if t := ev.Args[0].T; t != nil {
				if _, ok := t.Underlying().(*types.Map); ok {
					continue
				}
			}
			e := p.EvalAt(ev)
			note(ev, "index", le(e, ev.Args[1], ev.Args[2], -1) && le(e, zero, ev.Args[1], 0), fmt.Sprintf("%s may be out of range of %s", ev.Args[1], ev.Args[0]))
		case engine.EvSlice:
			e := p.EvalAt(ev)
			base, lo, hi := ev.Args[0], ev.Args[1], ev.Args[2]
			lim := tt.Len(base)
			ok := true
			if hi != nil {
				ok = le(e, hi, lim, 0) || !isStrT(base.T) && le(e, hi, tt.Cap(base), 0)
				lim = hi
			}
			if lo != nil {
				ok = ok && le(e, lo, lim, 0) && le(e, zero, lo, 0)
			} else if hi != nil {
				ok = ok && le(e, zero, hi, 0)
			}
			note(ev, "slice", ok, fmt.Sprintf("the bounds may be out of range of %s", base))
		case engine.EvAssert:
			e := p.EvalAt(ev)
			note(ev, "assertion", e.Holds(ev.Args[1]) || k.cached(r, ev.Args[0], ev.Res.T) || k.fromPool(ev.Args[0], ev.Res.T), fmt.Sprintf("%s may be of another type", ev.Args[0]))
		case engine.EvDeref:
			note(ev, "dereference", k.nonNil(r, p, p.EvalAt(ev), ev.Args[0]), fmt.Sprintf("%s may be nil", ev.Args[0]))
		case engine.EvMapUpdate:
			note(ev, "map write", k.nonNil(r, p, p.EvalAt(ev), ev.Args[0]), fmt.Sprintf("the map %s may be nil", ev.Args[0]))
		case engine.EvDiv:
			e := p.EvalAt(ev)
			note(ev, "division", le(e, tt.Int(1), ev.Args[1], 0) || e.AtMost(ev.Args[1], tt.Int(-1), 0), fmt.Sprintf("%s may be zero", ev.Args[1]))
		case engine.EvMake:
			e := p.EvalAt(ev)
			for _, a := range ev.Args {
				if a == nil {
					continue
				}
				note(ev, "allocation", le(e, zero, a, 0) && k.bounded(r, e, a), fmt.Sprintf("the size %s may be negative or far larger than what was received", a))
			}
		case engine.EvCall, engine.EvGo:
			if ev.Kind == engine.EvCall {
				k.pre(r, p, ev, note, le)
			}
			if pool, buf := k.putsBuffer(ev); pool != nil {
				note(ev, "pool put", k.fitsPool(r, p, ev, pool, buf), fmt.Sprintf("the capacity of %s may not be that of the buffers of %s, on which the pool panics", buf, pool.Name()))
			}
		case engine.EvPanic:
			note(ev, "panic", k.internalBranch(r, p, ev), "panics")
		}
	}
	if (p.Exit == "panic" || p.Exit == "exit") && len(p.Events) > 0 {
		ev := p.Events[len(p.Events)-1]
		if ev.Kind != engine.EvPanic {
			for i := len(p.Events) - 1; i >= 0; i-- {
				if p.Events[i].Pos == p.Pos && p.Events[i].Kind == engine.EvCall {
					ev = p.Events[i]
					break
				}
			}
			note(ev, p.Exit, k.internalBranch(r, p, ev), "ends the program")
		}
	}
}

// bounded: a size limited by a constant, by fixed settings, or by the size of
// something already in memory.
func (k *crashes) bounded(r *res, e *engine.Eval, a *term) bool {
	if _, ok := e.Upper(a, nil); ok || k.internal(r, a, 0) {
		return true
	}
	ok := false
	walkTerm(a, func(x *term) {
		if x.K == engine.KLen || x.K == engine.KCap {
			ok = ok || e.AtMost(a, x, 1<<16)
		}
	})
	if !ok {
		for _, f := range []*term{a} {
			ok = ok || e.AtMost(strip(f), strip(f), 0) && k.sumOfLens(r, strip(f), 0)
		}
	}
	return ok
}

// sumOfLens: lengths and fixed values added up or reduced.
func (k *crashes) sumOfLens(r *res, t *term, depth int) bool {
	if depth > 8 {
		return false
	}
	switch t.K {
	case engine.KLen, engine.KCap:
		return true
	case engine.KConv:
		return k.sumOfLens(r, t.Args[0], depth+1)
	case engine.KBin:
		switch t.Op {
		case token.ADD:
			return k.sumOfLens(r, t.Args[0], depth+1) && k.sumOfLens(r, t.Args[1], depth+1)
		case token.SUB, token.QUO, token.REM, token.SHR, token.AND:
			return k.sumOfLens(r, t.Args[0], depth+1)
		}
	}
	return k.internal(r, t, 0)
}

// internalBranch: whether it comes to this is no matter of input.
func (k *crashes) internalBranch(r *res, p *path, at *evnt) bool {
	var last *evnt
	for _, ev := range p.Events {
		if ev.Seq >= at.Seq {
			break
		}
		if ev.Kind == engine.EvBranch {
			last = ev
		}
	}
	if last == nil {
		return false
	}
	if k.internal(r, last.Args[0], 0) || k.nonceLen(last) {
		return true
	}
	// The system's random numbers.
	rnd := false
	walkTerm(last.Args[0], func(x *term) {
		rnd = rnd || x.K == engine.KCall && in(sn(x.Callee), "rand.Read", "io.ReadFull") && strings.Contains(x.String(), "rand.")
	})
	return rnd
}

// nonceLen: the branch tests nothing but the length of the nonce an AEAD is
// given, which is for its callers to get right.
func (k *crashes) nonceLen(br *evnt) bool {
	ok, hit := true, false
	walkTerm(br.Args[0], func(x *term) {
		switch x.K {
		case engine.KBin, engine.KNot, engine.KConst:
		case engine.KLen:
			a := x.Args[0]
			ok = ok && a.K == engine.KParam && a.Fn != nil && in(a.Fn.Name(), "Open", "Seal") && len(a.Fn.Params) == 5 && a.Idx == 2
			hit = true
		case engine.KParam:
		default:
			ok = false
		}
	})
	return ok && hit
}

// pre checks what library functions demand of their arguments.
func (k *crashes) pre(r *res, p *path, ev *evnt, note func(*evnt, string, bool, string), le func(*engine.Eval, *term, *term, int64) bool) {
	tt := r.TT
	e := p.EvalAt(ev)
	n := sn(ev.Callee)
	arg := func(i int) *term {
		if i < len(ev.Args) {
			return ev.Args[i]
		}
		return nil
	}
	eq := func(t *term, v int64) bool { return e.AtMost(t, tt.Int(v), 0) && e.AtMost(tt.Int(v), t, 0) }
	least := func(i int, v int64) {
		if a := arg(i); a != nil {
			note(ev, n, le(e, tt.Int(v), tt.Len(a), 0), fmt.Sprintf("%s needs %d bytes", n, v))
		}
	}
	switch n {
	case "eme.EMECipher.Decrypt", "eme.EMECipher.Encrypt":
		iv, data := tt.Len(arg(1)), tt.Len(arg(2))
		note(ev, n+" IV", eq(iv, 16), "the cipher panics unless the IV has 16 bytes")
		rem := tt.Bin(token.REM, data, tt.Int(16), data.T, nil)
		note(ev, n+" length", eq(rem, 0), "the cipher panics unless the data is a multiple of 16 bytes")
		note(ev, n+" size", e.AtMost(tt.Int(1), data, 0) && e.AtMost(data, tt.Int(2048), 0), "the cipher panics unless the data has between 16 and 2048 bytes")
	case "cipher.AEAD.Open", "cipher.AEAD.Seal":
		l := tt.Len(arg(2))
		note(ev, n+" nonce", k.internal(r, l, 0) && e.Canon(l).K != engine.KConst, "the cipher panics on a nonce of another length than it was set up for")
	case "binary.bigEndian.Uint16", "binary.littleEndian.Uint16", "binary.bigEndian.PutUint16", "binary.littleEndian.PutUint16":
		least(1, 2)
	case "binary.bigEndian.Uint32", "binary.littleEndian.Uint32", "binary.bigEndian.PutUint32", "binary.littleEndian.PutUint32":
		least(1, 4)
	case "binary.bigEndian.Uint64", "binary.littleEndian.Uint64", "binary.bigEndian.PutUint64", "binary.littleEndian.PutUint64":
		least(1, 8)
	case "bytes.Buffer.Next", "bytes.Buffer.Grow", "bytes.Buffer.Truncate", "strings.Builder.Grow":
		note(ev, n, le(e, tt.Int(0), arg(1), 0), n+" panics on a negative number")
	case "strings.Repeat", "bytes.Repeat":
		note(ev, n, le(e, tt.Int(0), arg(1), 0) && k.bounded(r, e, arg(1)), n+" panics on a negative or huge number")
	case "cipher.Block.Encrypt", "cipher.Block.Decrypt":
		least(1, 16)
		least(2, 16)
	case "cipher.BlockMode.CryptBlocks":
		data := tt.Len(arg(2))
		note(ev, n, eq(tt.Bin(token.REM, data, tt.Int(16), data.T, nil), 0), "the cipher panics unless the data is a multiple of its block size")
	case "cipher.NewCBCDecrypter", "cipher.NewCBCEncrypter", "cipher.NewCTR":
		note(ev, n, eq(tt.Len(arg(1)), 16), "the cipher panics unless the IV has 16 bytes")
	case "rand.Intn", "rand.Int63n", "rand.Int31n", "time.NewTicker", "time.Tick":
		note(ev, n, le(e, tt.Int(1), arg(len(ev.Args)-1), 0), n+" panics unless its argument is positive")
	case "regexp.MustCompile", "template.Must":
		_, isConst := e.Canon(arg(0)).StrVal()
		note(ev, n, isConst, n+" panics on what does not parse")
	}
}

// holder is a field of the values of a map, named by the fields that lead to
// the map.
type holder struct {
	place string
	field *types.Var
}

// mapPlace names a map by the fields that lead to it.
func mapPlace(m *term) (string, bool) {
	s := ""
	for {
		m = strip(m)
		switch m.K {
		case engine.KLoad, engine.KFieldAddr, engine.KField:
			if m.Var != nil {
				s = fmt.Sprintf("%p.%s", m.Var, s)
			}
			m = m.Args[0]
		case engine.KParam, engine.KRecv, engine.KGlobal, engine.KAlloc, engine.KMu, engine.KIndexAddr, engine.KIndex:
			return s, s != ""
		default:
			return s, s != ""
		}
	}
}

// holds notes what the fields of map values are given.
func (k *crashes) holds(fn *ssa.Function, p *path) {
	for _, ev := range p.Events {
		if ev.Kind != engine.EvMapUpdate {
			continue
		}
		t := ev.Args[2].T
		if t == nil {
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		at, known := mapPlace(ev.Args[0])
		if !known {
			continue
		}
		if root := ev.Args[0].Root(); root != nil && root.K == engine.KParam && !k.roots[fn] && !k.outside(fn) {
			if n := strings.Count(at, "."); n < 2 {
				continue // judged where it is called
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := f.Type().Underlying().(*types.Interface); !ok {
				continue
			}
			h := holder{at, f}
			if k.held[h] == nil {
				k.held[h] = map[string]bool{}
			}
			v := p.EvalAt(ev).Canon(p.R.TT.FieldOf(ev.Args[2], st, i))
			switch {
			case v.K == engine.KIface:
				k.held[h][types.TypeString(v.Args[0].T, nil)] = true
			case p.EvalAt(ev).IsNil(v) || v.K == engine.KZero:
			default:
				k.held[h]["?"] = true
			}
		}
	}
}

// writesMap: a function that, with those of its package it calls, writes maps.
func (k *crashes) writesMap(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || engine.PkgOf(f) != engine.PkgOf(fn) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.MapUpdate); ok {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok && rec(ci.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

// outside: a function that other packages call, or that nothing calls.
func (k *crashes) outside(fn *ssa.Function) bool {
	cs := k.callers(fn)
	for _, g := range cs {
		if engine.PkgOf(g) != engine.PkgOf(fn) {
			return true
		}
	}
	return len(cs) == 0
}

// cached: the field of a map value that only ever holds the type.
func (k *crashes) cached(r *res, t *term, want types.Type) bool {
	t = strip(t)
	if t.K == engine.KMu {
		n := 0
		for _, x := range r.Cands(t) {
			if x != t {
				n++
				if !k.cached(r, x, want) {
					return false
				}
			}
		}
		return n > 0
	}
	if t.K != engine.KField || t.Args[0].K != engine.KLookup {
		return false
	}
	at, ok := mapPlace(t.Args[0].Args[0])
	if !ok {
		return false
	}
	h := k.held[holder{at, t.Var}]
	return len(h) == 1 && h[types.TypeString(want, nil)]
}

// nonces: the length recorded for nonces is the one the cipher takes.
func (k *crashes) nonces(rule string) {
	c := k.c
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) || fn.Signature.Results().Len() == 0 || !storesField(fn, "AEADCipher") {
			continue
		}
		r := c.Explore(rule, fn, "siv_aead.New")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			e := p.Eval()
			if len(p.Ret) > 1 && e.NonNil(p.Ret[len(p.Ret)-1]) {
				continue
			}
			a, n := unbox(c.objField(p, p.Ret[0], "AEADCipher")), c.objField(p, p.Ret[0], "IVLen")
			ok := false
			if g, is := isRes(a, 0, "cipher.NewGCMWithNonceSize"); is && n != nil {
				ok = same(e, g.Args[1], n)
			} else if _, is := isRes(a, 0, "siv_aead.New"); is && n != nil {
				ok = e.Canon(strip(n)).Is(16)
			} else if _, is := isRes(a, 0, "cipher.NewGCM"); is && n != nil {
				ok = e.Canon(strip(n)).Is(12)
			}
			c.Check(ok, rule, fn.Pos(), short(fn), "the length recorded for nonces may not be the one the content cipher demands", p)
		}
	}
	c.Need(rule, 2)
}

func storesField(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if v := engine.FieldVar(fa.X.Type(), fa.Field); v != nil && v.Name() == name {
						if _, isNil := st.Val.(*ssa.Const); !isNil {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// recursion: a function that comes to call itself gets closer to an end.
func (k *crashes) recursion(rule string) {
	c := k.c
	for _, fn := range k.fns {
		if !k.recursive(fn) {
			c.Pass(rule, short(fn))
			continue
		}
		// Every cycle may go through another function that gets closer.
		by := fn
		for _, g := range k.fns {
			if g != fn && k.recursive(g) && !k.recursiveBut(fn, g) && k.shrinks(g, "") {
				by = g
			}
		}
		if by != fn && !k.shrinks(fn, "") {
			c.Pass(rule, short(fn)+" by way of "+short(by))
			continue
		}
		k.shrinks(fn, rule)
	}
}

// shrinks: whenever the function comes to call itself something got smaller.
// It reports under the rule, if one is given.
func (k *crashes) shrinks(fn *ssa.Function, rule string) bool {
	c := k.c
	r := k.explore(fn, 0)
	n, all := 0, true
	for _, p := range r.Paths {
		for _, ev := range p.Events {
			if ev.Kind != engine.EvCall || ev.CalleeFn != fn {
				continue
			}
			n++
			ok := k.smaller(r, p, ev)
			all = all && ok
			if rule != "" {
				c.Check(ok, rule, ev.Pos, short(fn), "calls itself with nothing that gets smaller", p)
			}
		}
	}
	if n == 0 && rule != "" {
		c.Fail(rule, fn.Pos(), short(fn), "comes to call itself through another package")
	}
	return n > 0 && all
}

// recursive: static calls lead from the function back to it.
func (k *crashes) recursive(fn *ssa.Function) bool { return k.recursiveBut(fn, nil) }

// recursiveBut: without going through the other function.
func (k *crashes) recursiveBut(fn, but *ssa.Function) bool {
	seen := map[*ssa.Function]bool{but: true}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !k.reach[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Function
				if ci, ok := in.(*ssa.Call); ok {
					g = ci.Common().StaticCallee()
				} else if mc, ok := in.(*ssa.MakeClosure); ok {
					g = mc.Fn.(*ssa.Function)
				} else if d, ok := in.(*ssa.Defer); ok {
					g = d.Common().StaticCallee()
				}
				if g != nil && (g == fn || rec(g)) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

// smaller: an argument of the call is less than what the caller was given.
func (k *crashes) smaller(r *res, p *path, ev *evnt) bool {
	e, tt := p.EvalAt(ev), r.TT
	for i, a := range ev.Args {
		if i >= len(r.Params) {
			break
		}
		prm := r.Params[i]
		a = e.Canon(a)
		switch {
		case isStrT(a.T):
			d, ok := isRes(a, 0, "filepath.Dir", "path.Dir")
			split := false
			if !ok {
				// The slash it keeps goes away when the path is cleaned again.
				d, split = isRes(a, 0, "filepath.Split", "path.Split")
			}
			if ok || split {
				x := d.Args[0]
				from := x == prm && !split
				if cl, ok := isRes(x, 0, "filepath.Clean", "path.Clean"); ok && mentions(cl.Args[0], prm) {
					from = true
				}
				if j, ok := isRes(x, 0, "filepath.Join", "path.Join"); ok && len(j.Args) == 2 && j.Args[1] == prm {
					s, isS := j.Args[0].StrVal()
					from = from || isS && s == "/"
				}
				if v, known := e.Decide(tt.Bin(token.EQL, x, tt.Const(constant.MakeString("/"), x.T), types.Typ[types.Bool], nil)); from && known && !v {
					return true
				}
			}
			if e.AtMost(tt.Len(a), tt.Len(prm), -1) {
				return true
			}
		case isIntType(a.T):
			if e.AtMost(a, prm, -1) && e.AtMost(tt.Int(0), a, 0) {
				return true
			}
		default:
			if _, ok := a.T.Underlying().(*types.Slice); ok && e.AtMost(tt.Len(a), tt.Len(prm), -1) {
				return true
			}
		}
	}
	return false
}

// accepting: once it listens, the main program ends or crashes for nothing.
func (k *crashes) accepting(rule string) {
	c := k.c
	r := c.mainRes(rule)
	if r == nil {
		return
	}
	u := &crashRun{bad: map[siteKey]*crash{}, seen: map[siteKey]bool{}, open: map[*ssa.Function]bool{}}
	for _, p := range r.Paths {
		at := -1
		for i, ev := range p.Events {
			if ev.Kind == engine.EvCall && strings.HasSuffix(ev.Callee, ".Accept") {
				at = i
				break
			}
		}
		if at < 0 {
			continue
		}
		q := *p
		q.Events = p.Events[at+1:]
		k.path(r.Paths[0].Events[0].Fn, r, &q, u)
		c.Check(p.Exit == "cut", rule, p.Pos, "main", "the accept loop ends: "+p.Exit, p)
	}
	for s := range u.seen {
		if x := u.bad[s]; x != nil {
			c.FailPath(rule, x.pos, s.kind+" in the accept loop", x.what, x.p)
		} else {
			c.Pass(rule, s.kind+" in the accept loop")
		}
	}
}

// walkTerm visits all parts of a term.
func walkTerm(t *term, f func(*term)) {
	if t == nil {
		return
	}
	t.Walk(func(x *term) bool {
		f(x)
		return true
	})
}
