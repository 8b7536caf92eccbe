package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C12", Technique: "lockset (Eraser-style, path-sensitive, interprocedural) analysis of every access to the fields, maps and list nodes of lock-bearing types; lock balance on every path; lock-order graph; escape-based search for unguarded shared mutation in concurrently running code",
		Explain: "every function that touches guarded state is explored with its helpers inlined, climbing to its callers when it relies on them for the lock; fields never changed after construction are found by the same exploration and need no lock",
		Run:     runC12})
}

// guardModel is what is guarded by what.
type guardModel struct {
	locked map[string]*types.Named // types with a lock of their own
	nodes  map[string]string       // types only reached through one of these: node -> owner
	mut    map[string]bool         // fields changed after construction
	seen   map[*ssa.Function]bool
	order  map[string]map[string]*evnt
}

func (g *guardModel) kind(t types.Type) (string, bool) {
	k := engine.TypeKey(t)
	if _, ok := g.locked[k]; ok {
		return k, true
	}
	if _, ok := g.nodes[k]; ok {
		return k, true
	}
	return "", false
}

func runC12(c *Ctx) {
	const G, B, O, C, U = "guarded", "balanced", "order", "no-copy", "unguarded"
	c.Rule(G, "a field, map or list node of a type with a lock is read only with that object's lock held and changed only with it held for writing, unless the object is not shared yet or the field is never changed after construction")
	c.Rule(B, "no lock is taken while held, none is released without being held, none is still held when the operation returns, and a condition is only waited for with its lock held")
	c.Rule(O, "the order in which locks are taken within one another has no cycle")
	c.Rule(C, "no value that contains a lock is copied")
	c.Rule(U, "code that runs concurrently changes no shared object, package variable or map except under a lock")
	g := &guardModel{locked: map[string]*types.Named{}, nodes: map[string]string{}, mut: map[string]bool{}, seen: map[*ssa.Function]bool{}, order: map[string]map[string]*evnt{}}
	c.guardTypes(g)
	units := c.guardUnits(g)
	for _, fn := range units {
		c.collectWrites(G, g, fn)
	}
	for _, fn := range units {
		c.guardUnit(G, B, g, fn, 0)
	}
	c.lockOrder(O, g)
	c.lockCopies(C, g)
	c.unguarded(U, g)
	c.Need(G, 40)
	c.Need(B, 20)
	c.Need(O, 1)
	c.Need(C, 1)
	c.Need(U, 10)
}

// guardTypes finds the types with locks and the nodes they own.
func (c *Ctx) guardTypes(g *guardModel) {
	for _, lp := range c.P.Pkgs {
		pk := lp.Types
		if pk == nil || strings.HasSuffix(pk.Path(), "fakes") {
			continue
		}
		sc := pk.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || strings.HasPrefix(n, "Fake") {
				continue
			}
			if len(mutexField(nm)) > 0 {
				g.locked[engine.TypeKey(nm)] = nm
			}
		}
	}
	for k, nm := range g.locked {
		st := nm.Underlying().(*types.Struct)
		var rec func(t types.Type, ptr bool, depth int)
		rec = func(t types.Type, ptr bool, depth int) {
			if depth > 4 {
				return
			}
			switch y := t.(type) {
			case *types.Pointer:
				rec(y.Elem(), true, depth+1)
			case *types.Map:
				rec(y.Elem(), false, depth+1)
			case *types.Slice:
				rec(y.Elem(), true, depth+1)
			case *types.Named:
				s, ok := y.Underlying().(*types.Struct)
				if !ok || y.Obj().Pkg() == nil || !c.P.InRepoPkg(y.Obj().Pkg()) {
					return
				}
				key := engine.TypeKey(y)
				if g.locked[key] != nil || g.nodes[key] != "" {
					return
				}
				if ptr {
					g.nodes[key] = k
				}
				for i := 0; i < s.NumFields(); i++ {
					rec(s.Field(i).Type(), false, depth+1)
				}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			rec(st.Field(i).Type(), false, 0)
		}
	}
}

// guardUnits: the functions that touch a guarded type or a lock themselves.
func (c *Ctx) guardUnits(g *guardModel) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) || len(fn.Blocks) == 0 || fn.Name() == "init" {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case *ssa.FieldAddr:
					_, ok := g.kind(y.X.Type())
					if al, local := y.X.(*ssa.Alloc); local && !al.Heap {
						ok = false // a copy
					}
					hit = hit || ok
				case ssa.CallInstruction:
					if n := sn(fullCallee(y.Common())); strings.HasPrefix(n, "sync.Mutex.") || strings.HasPrefix(n, "sync.RWMutex.") || strings.HasPrefix(n, "sync.Locker.") || n == "sync.Cond.Wait" {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, fn)
		}
	}
	return out
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// access is one touch of guarded state.
type access struct {
	ev    *evnt
	base  *term  // the object
	typ   string // its type
	field string
	write bool
	inner bool // the contents of a map or buffer, not the field itself
}

func (g *guardModel) fieldAccess(a *term) (base *term, typ, field string, ok bool) {
	a = unbox(a)
	if a == nil || a.K != engine.KFieldAddr {
		return nil, "", "", false
	}
	if isMutex(a.Var.Type()) {
		return nil, "", "", false
	}
	if k, is := g.kind(a.Args[0].T); is {
		return a.Args[0], k, a.Var.Name(), true
	}
	// A field of a struct embedded by value.
	return g.fieldAccess(a.Args[0])
}

// accesses lists the touches of guarded state on a path.
func (g *guardModel) accesses(p *path) []access {
	var out []access
	add := func(ev *evnt, a *term, write, inner bool) {
		if b, t, f, ok := g.fieldAccess(a); ok {
			out = append(out, access{ev, b, t, f, write, inner})
		}
	}
	contents := func(ev *evnt, m *term, write bool) {
		m = unbox(m)
		if m != nil && m.K == engine.KLoad {
			add(ev, m.Args[0], write, true)
		}
	}
	for _, ev := range p.Events {
		switch ev.Kind {
		case engine.EvLoad:
			add(ev, ev.Args[0], false, false)
			// A whole node, read or written as a value.
			if k, ok := g.kind(ev.Args[0].T); ok && g.nodes[k] != "" && ev.Res != nil && ev.Res.T != nil {
				if _, st := ev.Res.T.Underlying().(*types.Struct); st {
					out = append(out, access{ev, ev.Args[0], k, "*", false, false})
				}
			}
		case engine.EvStore:
			add(ev, ev.Args[0], true, false)
			if k, ok := g.kind(ev.Args[0].T); ok && ev.Args[1] != nil && ev.Args[1].T != nil {
				if _, st := ev.Args[1].T.Underlying().(*types.Struct); st {
					out = append(out, access{ev, ev.Args[0], k, "*", true, false})
				}
			}
		case engine.EvMapUpdate, engine.EvMapDelete:
			contents(ev, ev.Args[0], true)
		case engine.EvLookup, engine.EvMapRange:
			contents(ev, ev.Args[0], false)
		case engine.EvCall:
			if len(ev.Args) > 0 && !strings.HasPrefix(sn(ev.Callee), "sync.") {
				// A method of a field that is an object of its own, such as a buffer.
				for _, a := range ev.Args {
					if a != nil && unbox(a).K == engine.KFieldAddr {
						add(ev, a, true, true)
					}
				}
			}
		}
	}
	return out
}

// fresh: t is (part of) an object made on this path and not yet shared at ev.
func freshAt(p *path, t *term, ev *evnt) bool {
	o := t
	for o != nil && (o.K == engine.KFieldAddr || o.K == engine.KIndexAddr || o.K == engine.KSlice) {
		o = o.Args[0]
	}
	if o == nil || o.K != engine.KAlloc && o.K != engine.KMake {
		return false
	}
	return !sharedBefore(p, o, ev, 3)
}

// sharedBefore: before ev, o is put where others can find it.
func sharedBefore(p *path, o *term, ev *evnt, depth int) bool {
	if depth == 0 {
		return true
	}
	is := func(t *term) bool {
		t = unbox(t)
		for t != nil && (t.K == engine.KFieldAddr || t.K == engine.KIndexAddr || t.K == engine.KSlice) {
			t = t.Args[0]
		}
		return t == o
	}
	for _, x := range p.Events {
		if x.Seq >= ev.Seq {
			break
		}
		switch x.Kind {
		case engine.EvStore:
			if is(x.Args[1]) {
				r := x.Args[0]
				for r != nil && (r.K == engine.KFieldAddr || r.K == engine.KIndexAddr || r.K == engine.KSlice) {
					r = r.Args[0]
				}
				if r == nil || r.K != engine.KAlloc && r.K != engine.KMake || r != o && sharedBefore(p, r, ev, depth-1) {
					return true
				}
			}
		case engine.EvMapUpdate:
			if is(x.Args[2]) && x.Args[0].K != engine.KMake {
				return true
			}
		case engine.EvSend:
			if is(x.Args[1]) {
				return true
			}
		case engine.EvGo:
			for _, a := range x.Args {
				if is(a) {
					return true
				}
			}
			if _, free := started(x); len(free) > 0 {
				for _, a := range free {
					if is(a) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) guardExplore(rule string, fn *ssa.Function) *res {
	// What other packages offer is judged there.
	var opaque []string
	for _, f := range c.P.Funcs {
		if c.isEntry(f) && engine.PkgOf(f) != engine.PkgOf(fn) {
			opaque = append(opaque, short(f))
		}
	}
	return c.ExploreCfg(rule, engine.Config{Entry: fn, Loads: true}, opaque...)
}

// collectWrites finds the fields that change after construction.
func (c *Ctx) collectWrites(rule string, g *guardModel, fn *ssa.Function) {
	if isInit(fn) {
		return
	}
	r := c.guardExplore(rule, fn)
	for _, p := range r.Paths {
		for _, a := range g.accesses(p) {
			if a.write && !freshAt(p, a.base, a.ev) {
				k := a.typ + "." + a.field
				if a.inner {
					k += "[]"
				}
				g.mut[k] = true
			}
		}
	}
}

// guardUnit checks a function, and if it relies on its callers, those.
func (c *Ctx) guardUnit(G, B string, g *guardModel, fn *ssa.Function, depth int) {
	if g.seen[fn] || isInit(fn) {
		return
	}
	g.seen[fn] = true
	r := c.guardExplore(G, fn)
	type bad struct {
		rule string
		ev   *evnt
		why  string
		p    *path
	}
	var bads []bad
	okG, okB := 0, 0
	for _, p := range r.Paths {
		l := c.lockset(p)
		for _, a := range g.accesses(p) {
			k := a.typ + "." + a.field
			if a.inner {
				k += "[]"
			}
			if !g.mut[k] && !(a.field == "*" && g.nodes[a.typ] != "") {
				continue
			}
			if freshAt(p, a.base, a.ev) {
				continue
			}
			h, held := g.holds(l, a)
			switch {
			case !held:
				bads = append(bads, bad{G, a.ev, fmt.Sprintf("%s %s without the lock that guards it", verb(a.write), name(a)), p})
			case a.write && !h.write:
				bads = append(bads, bad{G, a.ev, fmt.Sprintf("changes %s with the lock held for reading only", name(a)), p})
			default:
				okG++
			}
		}
		for _, e := range l.errs {
			bads = append(bads, bad{B, e.ev, e.why, p})
		}
		if p.Exit == "return" {
			okB++
			if len(l.end) > 0 {
				ev := p.Events[len(p.Events)-1]
				bads = append(bads, bad{B, ev, "returns without having released a lock: " + heldNames(l.end), p})
			}
		}
		if p.Exit == "cut" {
			// Locks held at the loop's head must be those held on arrival.
			c.loopBalance(&bads2{add: func(ev *evnt, why string) { bads = append(bads, bad{B, ev, why, p}) }}, p, l)
		}
		g.edges(p, l)
	}
	if len(bads) > 0 && depth < 6 && !c.isEntry(fn) {
		// It relies on its callers.
		n := 0
		viaGo := false
		var ups []*ssa.Function
		if fn.Parent() != nil {
			ups = append(ups, fn.Parent())
			n++
		}
		for _, call := range c.P.AllCallers(fn) {
			if call.Parent() == nil || engine.IsFake(call.Parent()) {
				continue
			}
			n++
			if _, ok := call.(*ssa.Go); ok {
				viaGo = true
				continue
			}
			ups = append(ups, call.Parent())
		}
		if goStarted(fn) {
			viaGo = true
		}
		if n > 0 && !viaGo {
			for _, u := range ups {
				c.guardUnit(G, B, g, u, depth+1)
			}
			return
		}
	}
	for i := 0; i < okG; i++ {
		c.Pass(G, short(fn))
	}
	for i := 0; i < okB; i++ {
		c.Pass(B, short(fn))
	}
	for _, b := range bads {
		c.FailPath(b.rule, b.ev.Pos, short(fn), b.why, b.p)
	}
}

type bads2 struct{ add func(*evnt, string) }

// loopBalance: going round a loop leaves the locks as they were.
func (c *Ctx) loopBalance(b *bads2, p *path, l *locking) {
	last := p.Events[len(p.Events)-1]
	if last.Kind != engine.EvLoop {
		return
	}
	var head *evnt
	for _, ev := range p.Events {
		if ev.Kind == engine.EvLoop && ev.Idx == 2 && ev.LoopKey == last.LoopKey {
			head = ev
		}
	}
	if head == nil {
		return
	}
	at := l.at(head)
	if len(at) != len(l.end) {
		b.add(last, "a lock is held longer each time round a loop: "+heldNames(l.end))
		return
	}
	for k := range at {
		if _, ok := l.end[k]; !ok {
			b.add(last, "different locks are held each time round a loop")
			return
		}
	}
}

// goStarted: the closure fn is started as a goroutine where it is made.
func goStarted(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if g, ok := i.(*ssa.Go); ok {
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return true
				}
				if g.Call.Value == fn {
					return true
				}
			}
		}
	}
	return false
}

// isEntry: others call this function, with no lock held.
func (c *Ctx) isEntry(fn *ssa.Function) bool {
	if fn.Parent() != nil || !token.IsExported(fn.Name()) {
		return false
	}
	if recv := fn.Signature.Recv(); recv != nil {
		k := engine.TypeKey(recv.Type())
		return token.IsExported(k[strings.LastIndexByte(k, '.')+1:])
	}
	return true
}

func verb(w bool) string {
	if w {
		return "changes"
	}
	return "reads"
}

func name(a access) string {
	t := a.typ[strings.LastIndexByte(a.typ, '/')+1:]
	if a.inner {
		return "the contents of " + t + "." + a.field
	}
	return t + "." + a.field
}

func heldNames(m map[*term]hold) string {
	var l []string
	for k := range m {
		l = append(l, k.String())
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// holds: the lock that guards an access is held.
func (g *guardModel) holds(l *locking, a access) (hold, bool) {
	if g.locked[a.typ] != nil {
		return l.guards(a.ev, a.base)
	}
	own := g.nodes[a.typ]
	for k, h := range l.at(a.ev) {
		x := k
		if x.K == engine.KLoad {
			x = x.Args[0]
		}
		if x.K == engine.KFieldAddr && engine.TypeKey(x.Args[0].T) == own {
			return h, true
		}
	}
	return hold{}, false
}

// edges records which locks are taken within which.
func (g *guardModel) edges(p *path, l *locking) {
	for _, ev := range p.Events {
		if ev.Kind != engine.EvCall || !in(sn(ev.Callee), "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock") {
			continue
		}
		to := lockName(unbox(ev.Args[0]))
		for k := range l.at(ev) {
			from := lockName(k)
			if g.order[from] == nil {
				g.order[from] = map[string]*evnt{}
			}
			if g.order[from][to] == nil && k != unbox(ev.Args[0]) {
				g.order[from][to] = ev
			}
		}
	}
}

func lockName(t *term) string {
	if t.K == engine.KLoad {
		t = t.Args[0]
	}
	if t.K == engine.KFieldAddr {
		return engine.TypeKey(t.Args[0].T) + "." + t.Var.Name()
	}
	return t.String()
}

func (c *Ctx) lockOrder(rule string, g *guardModel) {
	var rec func(from string, seen []string, at *evnt)
	bad := false
	rec = func(n string, seen []string, at *evnt) {
		for i, s := range seen {
			if s == n {
				bad = true
				c.Fail(rule, at.Pos, short(at.Fn), "locks are taken in a circle: "+strings.Join(append(seen[i:], n), " -> "))
				return
			}
		}
		var next []string
		for m := range g.order[n] {
			next = append(next, m)
		}
		sort.Strings(next)
		for _, m := range next {
			rec(m, append(append([]string{}, seen...), n), g.order[n][m])
		}
	}
	var all []string
	for n := range g.order {
		all = append(all, n)
	}
	sort.Strings(all)
	for _, n := range all {
		rec(n, nil, nil)
		for m := range g.order[n] {
			if !bad {
				c.Pass(rule, n+" -> "+m)
			}
		}
	}
	if len(all) == 0 {
		c.Pass(rule, "no lock is taken within another")
	}
}

// hasLock: a value of type t contains a lock.
func hasLock(t types.Type, depth int) bool {
	if depth > 5 || t == nil {
		return false
	}
	if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "sync" {
		return in(nm.Obj().Name(), "Mutex", "RWMutex", "WaitGroup", "Cond", "Once", "Pool", "Map")
	}
	switch y := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < y.NumFields(); i++ {
			if hasLock(y.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasLock(y.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < y.Len(); i++ {
			if hasLock(y.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) lockCopies(rule string, g *guardModel) {
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, q := range fn.Params {
			if hasLock(q.Type(), 0) {
				c.Check(false, rule, q.Pos(), short(fn), "takes a value that contains a lock, by value", nil)
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				u, ok := i.(*ssa.UnOp)
				if !ok || u.Op != token.MUL || !hasLock(u.Type(), 0) {
					continue
				}
				// Initialising an object from a literal is not copying it.
				if al, ok := u.X.(*ssa.Alloc); ok && literal(al, u) {
					continue
				}
				c.Check(false, rule, u.Pos(), short(fn), "copies a value that contains a lock", nil)
			}
		}
	}
	for k := range g.locked {
		c.Pass(rule, k)
	}
}

// literal: the allocation is a composite literal's temporary, copied into
// place once.
func literal(al *ssa.Alloc, u *ssa.UnOp) bool {
	if al.Comment != "complit" {
		return false
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.UnOp:
			if y != u {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// unguarded searches the code that runs concurrently for changes of shared
// state without a lock.
func (c *Ctx) unguarded(rule string, g *guardModel) {
	reach := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || reach[fn] || engine.IsFake(fn) || !c.P.InRepo(fn) {
			return
		}
		if pk := engine.PkgOf(fn); pk != nil && strings.HasSuffix(pk.Path(), "/tlog") {
			return
		}
		reach[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					// Functions used as values may be called.
					for _, op := range i.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							add(f)
						}
					}
					continue
				}
				cc := call.Common()
				if f := cc.StaticCallee(); f != nil {
					add(f)
				} else if cc.IsInvoke() {
					for _, f := range c.implementers(cc) {
						add(f)
					}
				}
				for _, a := range cc.Args {
					if f, ok := a.(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Go); ok {
					add(x.Call.StaticCallee())
					if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		if pk := engine.PkgOf(fn); pk != nil && strings.HasSuffix(pk.Path(), "/handlers") && fn.Signature.Recv() != nil && token.IsExported(fn.Name()) {
			add(fn)
		}
	}
	var fns []*ssa.Function
	for f := range reach {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		c.Pass(rule, short(fn))
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var addr ssa.Value
				switch y := i.(type) {
				case *ssa.Store:
					addr = y.Addr
				case *ssa.MapUpdate:
					addr = y.Map
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						addr = y.Call.Args[0]
					}
				}
				if addr == nil {
					continue
				}
				what := c.sharedTarget(g, fn, addr)
				if what == "" {
					continue
				}
				c.Check(false, rule, i.Pos(), short(fn), "changes "+what+", which concurrent requests share, without a lock", nil)
			}
		}
	}
}

// implementers are the methods in the repository an interface call can reach.
func (c *Ctx) implementers(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, fn := range c.P.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || fn.Name() != cc.Method.Name() {
			continue
		}
		if types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it) {
			out = append(out, fn)
		}
	}
	return out
}

// sharedTarget: what a store changes if that may be shared and is not subject
// to the lockset analysis; "" otherwise.
func (c *Ctx) sharedTarget(g *guardModel, fn *ssa.Function, addr ssa.Value) string {
	field := false
	if _, ok := addr.Type().Underlying().(*types.Map); ok {
		field = true
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) string
	rec = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.FieldAddr:
			if _, ok := g.kind(y.X.Type()); ok {
				return "" // judged there
			}
			field = true
			return rec(y.X)
		case *ssa.IndexAddr:
			// Elements of byte slices are data, not state.
			if _, ok := y.X.Type().Underlying().(*types.Slice); ok && !field {
				if _, isPtr := y.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); isPtr {
					if g, ok := y.X.(*ssa.UnOp); ok {
						if gl, ok := g.X.(*ssa.Global); ok {
							return "package variable " + gl.Name()
						}
					}
				}
				return ""
			}
			return rec(y.X)
		case *ssa.Slice:
			return rec(y.X)
		case *ssa.Phi:
			for _, e := range y.Edges {
				if s := rec(e); s != "" {
					return s
				}
			}
			return ""
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return ""
			}
			// A pointer or map read from somewhere.
			if al, ok := y.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						if s := rec(st.Val); s != "" {
							return s
						}
					}
				}
				return ""
			}
			return rec(y.X)
		case *ssa.Global:
			return "package variable " + y.Name()
		case *ssa.Parameter:
			if !field {
				return ""
			}
			if c.privateParam(y, map[ssa.Value]bool{}) {
				return ""
			}
			return "a field of " + y.Name()
		case *ssa.FreeVar:
			if goStarted(fn) && !field {
				return "captured variable " + y.Name()
			}
			b := binding(fn, y)
			if b == nil {
				return ""
			}
			if _, ok := b.(*ssa.Alloc); ok && !field {
				return ""
			}
			return rec(b)
		}
		return ""
	}
	return rec(addr)
}

func binding(fn *ssa.Function, fv *ssa.FreeVar) ssa.Value {
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// onlyCalled: v is called here or passed to a call, and goes nowhere else.
func onlyCalled(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Call, *ssa.Defer, *ssa.DebugRef:
		case *ssa.ChangeType:
			if !onlyCalled(y) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// boundRecv: the receivers of the method values made of a method and only
// called or passed on, fn being the wrapper the compiler makes for them.
func (c *Ctx) boundRecv(fn *ssa.Function) (out []ssa.Value) {
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				mc, ok := i.(*ssa.MakeClosure)
				if !ok || mc.Fn != fn || len(mc.Bindings) == 0 {
					continue
				}
				if !onlyCalled(mc) {
					return nil // it may run at any time
				}
				out = append(out, mc.Bindings[0])
			}
		}
	}
	return out
}

// privateParam: every caller passes an object of its own making.
func (c *Ctx) privateParam(q *ssa.Parameter, seen map[ssa.Value]bool) bool {
	if seen[q] {
		return true
	}
	seen[q] = true
	fn := q.Parent()
	idx := -1
	for i, x := range fn.Params {
		if x == q {
			idx = i
		}
	}
	if c.isEntry(fn) && fn.Signature.Recv() != nil && idx == 0 {
		return false
	}
	n := 0
	for _, call := range c.P.AllCallers(fn) {
		if call.Parent() == nil || engine.IsFake(call.Parent()) {
			continue
		}
		n++
		cc := call.Common()
		if _, isGo := call.(*ssa.Go); isGo || cc.IsInvoke() || idx >= len(cc.Args) {
			return false
		}
		v := cc.Args[idx]
		for {
			if s, ok := v.(*ssa.Slice); ok {
				v = s.X
				continue
			}
			if s, ok := v.(*ssa.FieldAddr); ok {
				v = s.X
				continue
			}
			break
		}
		if !c.privateValue(v, seen) {
			return false
		}
	}
	return n > 0
}

func (c *Ctx) privateValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	switch y := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
		return true
	case *ssa.Parameter:
		return c.privateParam(y, seen)
	case *ssa.FreeVar:
		fn := y.Parent()
		if !strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
			return false
		}
		l := c.boundRecv(fn)
		for _, r := range l {
			if !c.privateValue(r, seen) {
				return false
			}
		}
		return len(l) > 0
	}
	return false
}
