package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C20", Technique: "shape analysis over Go SSA: list segments opened on demand, string atoms, linear integers over length and capacity",
		Explain: "every exported method of the cache is interpreted over every shape of a well-formed cache (empty; any non-empty list not holding the key; any list holding the key at the start, inside, at the end or alone), each list segment standing for one or more nodes; on every outcome the list must be linked consistently both ways, hold exactly the entries the LRU model gives, in order, and agree with the map and the counter",
		Run:     runC20})
}

// lruCase is a shape to start from.
type lruCase struct {
	name  string
	left  bool // nodes before the one looked for
	found bool
	right bool // nodes after it, or any nodes if not found
}

var lruCases = []lruCase{
	{"an empty cache", false, false, false},
	{"a cache without the path", false, false, true},
	{"the path alone", false, true, false},
	{"the path least recently used", false, true, true},
	{"the path most recently used", true, true, false},
	{"the path in between", true, true, true},
}

// lruFail is a broken obligation under one labelling.
type lruFail struct {
	fn        *ssa.Function
	construct string
	why       string
}

func runC20(c *Ctx) {
	const R = "lru"
	c.Rule(R, "from every well-formed cache, every outcome of Find, Store, Clear and every other method is a well-formed cache with exactly the entries and the order of an LRU of the same capacity; well-formed: list linked both ways from end to end, map holding exactly the listed nodes under their keys, counter equal to the length and at most the capacity")
	const N = "lru-new"
	c.Rule(N, "a new cache is empty, and its capacity is a constant of at least 1 at every place one is made")
	const W = "lru-owner"
	c.Rule(W, "the cache's list, map and counter are only touched by functions analysed as parts of its methods")
	const O = "lru-atomic"
	c.Rule(O, "an operation that changes the cache does so in one critical section, together with the lookup it acts on")
	cache := c.P.Named("filetree", "FastCache")
	if cache == nil {
		c.Fail(R, 0, "filetree.FastCache", "type not found")
		return
	}
	labels := lruRoles(cache)
	if len(labels) == 0 {
		c.Fail(R, cache.Obj().Pos(), "filetree.FastCache", "no map from strings to the nodes of a doubly linked list with two ends and a capacity found")
		return
	}
	if v := c.lruValueField(cache, labels[0].node); v != "" {
		var keep []roles
		for _, l := range labels {
			if l.val == v {
				keep = append(keep, l)
			}
		}
		labels = keep
	}
	var methods []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(cache))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		if f := c.P.SSA.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 {
			methods = append(methods, f)
		}
	}
	var best []lruFail
	var bestPass []string
	var bestFuncs map[*ssa.Function]bool
	var bestRoles roles
	first := true
	for _, l := range labels {
		a := &lru{c: c, cache: cache}
		a.sh = &shaper{c: c, r: l, funcs: map[*ssa.Function]bool{}}
		for _, m := range methods {
			a.method(m)
		}
		a.constructors()
		if first || len(a.fails) < len(best) {
			first, best, bestPass, bestFuncs, bestRoles = false, a.fails, a.passes, a.sh.funcs, l
		}
		if len(a.fails) == 0 {
			break
		}
	}
	for _, p := range bestPass {
		c.Pass(R, p)
	}
	for _, m := range methods {
		c.oneSection(O, m, cache, bestRoles)
	}
	c.Need(O, 3)
	for _, f := range best {
		c.Fail(R, f.fn.Pos(), f.construct, f.why)
	}
	for f := range bestFuncs {
		c.Funcs[short(f)] = true
	}
	for _, n := range []string{"Find", "Store", "Clear"} {
		if !bestFuncs[c.Fn(R, "filetree", "FastCache."+n)] {
			c.Fail(R, cache.Obj().Pos(), "filetree.FastCache."+n, "not analysed")
		}
	}
	c.Need(R, 24)

	// New caches.
	cr := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVarOf(fa.X.Type(), fa.Field) == nil || !isPtrTo(fa.X.Type(), cache) {
					continue
				}
				if fieldVarOf(fa.X.Type(), fa.Field).Name() != bestRoles.cap {
					continue
				}
				cr++
				for _, o := range newFlow(c.P).origins(st.Val) {
					k, ok := o.(*ssa.Const)
					c.Check(ok && k.Value != nil && k.Int64() >= 1, N, st.Pos(), "capacity set in "+short(fn), fmt.Sprintf("the capacity comes from %s, which is not a constant of at least 1", o), nil)
				}
			}
		}
	}
	if cr == 0 {
		c.Fail(N, cache.Obj().Pos(), "filetree.FastCache", "its capacity is never set")
	}
	c.Need(N, 1)

	// Who touches it.
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVarOf(fa.X.Type(), fa.Field)
				if fv == nil {
					continue
				}
				name := fv.Name()
				var mine bool
				switch {
				case isPtrTo(fa.X.Type(), cache):
					mine = name == bestRoles.head || name == bestRoles.last || name == bestRoles.storage || name == bestRoles.count || name == bestRoles.cap
				case types.Identical(deref(fa.X.Type()), bestRoles.node):
					mine = name == bestRoles.next || name == bestRoles.prev || name == bestRoles.key || name == bestRoles.val
					if mine && onlyRead(fa) && (name == bestRoles.key || name == bestRoles.val) {
						mine = false
					}
					if mine && ownCopy(fa.X) {
						mine = false
					}
				}
				if !mine {
					continue
				}
				c.Check(bestFuncs[fn], W, fa.Pos(), short(fn)+" and "+name, "this function reaches into the cache's list outside its methods", nil)
			}
		}
	}
	c.Need(W, 10)
}

// oneSection: what a method finds out under the lock is not acted on after
// the lock was given up in between.
func (c *Ctx) oneSection(rule string, m *ssa.Function, cache *types.Named, ro roles) {
	r := c.Explore(rule, m)
	state := func(ev *evnt) bool {
		switch ev.Kind {
		case engine.EvLoad, engine.EvStore:
			a := ev.Args[0]
			if a.K != engine.KFieldAddr || a.Var == nil {
				return false
			}
			n := a.Var.Name()
			if b := a.Args[0].T; b != nil && types.Identical(deref(b), ro.node) {
				return in(n, ro.next, ro.prev, ro.key, ro.val)
			}
			return a.Args[0].T != nil && isPtrTo(a.Args[0].T, cache) && in(n, ro.storage, ro.head, ro.last, ro.count)
		case engine.EvLookup, engine.EvMapUpdate, engine.EvMapDelete:
			v, ok := fieldLoad(ev.Args[0], ro.storage)
			return ok && v != nil
		}
		return false
	}
	for _, p := range r.Paths {
		section, first, wrote, looked := 0, -1, -1, -1
		ok := true
		for _, ev := range p.Events {
			if ev.Kind == engine.EvCall && in(sn(ev.Callee), "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock") {
				section++
				continue
			}
			if !state(ev) {
				continue
			}
			if first < 0 {
				first = section
			}
			switch ev.Kind {
			case engine.EvLookup:
				looked = section
			case engine.EvLoad:
			default:
				ok = ok && (wrote < 0 || wrote == section) && (first == section || looked == section)
				wrote = section
			}
		}
		c.Check(ok, rule, m.Pos(), short(m), "the lock is given up between looking at the cache and changing it", p)
	}
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

// onlyRead: the address is only loaded from.
func onlyRead(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// ownCopy: a local of the function, not a node of the list.
func ownCopy(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && !al.Heap
}

// lruRoles gives the ways the fields can be understood.
func lruRoles(cache *types.Named) []roles {
	st := cache.Underlying().(*types.Struct)
	var node types.Type
	var storage []string
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			if p, ok := m.Elem().Underlying().(*types.Pointer); ok && isStrT(m.Key()) {
				node = p.Elem()
				storage = append(storage, st.Field(i).Name())
			}
		}
	}
	if node == nil || len(storage) != 1 {
		return nil
	}
	ns, ok := node.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	collect := func(st *types.Struct, ok func(types.Type) bool) []string {
		var out []string
		for i := 0; i < st.NumFields(); i++ {
			if ok(st.Field(i).Type()) {
				out = append(out, st.Field(i).Name())
			}
		}
		return out
	}
	isNode := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), node)
	}
	ends := pairs(collect(st, isNode))
	links := pairs(collect(ns, isNode))
	strs := pairs(collect(ns, isStrT))
	ints := collect(st, isIntType)
	var nums [][2]string // capacity, counter
	nums = append(nums, pairs(ints)...)
	for _, i := range ints {
		nums = append(nums, [2]string{i, ""})
	}
	var out []roles
	for _, n := range nums {
		for _, s := range strs {
			for _, e := range ends {
				for _, l := range links {
					out = append(out, roles{node: node, storage: storage[0], head: e[0], last: e[1], next: l[1], prev: l[0], key: s[0], val: s[1], cap: n[0], count: n[1]})
				}
			}
		}
	}
	return out
}

func pairs(x []string) [][2]string {
	var out [][2]string
	for i := range x {
		for j := range x {
			if i < j {
				out = append(out, [2]string{x[i], x[j]})
			}
		}
	}
	for i := range x {
		for j := range x {
			if i > j {
				out = append(out, [2]string{x[i], x[j]})
			}
		}
	}
	return out
}

// lruValueField: the string field users of the cache read from what it gives.
func (c *Ctx) lruValueField(cache *types.Named, node types.Type) string {
	found := map[string]bool{}
	for _, fn := range c.P.Funcs {
		if fn.Signature.Recv() != nil && isPtrTo(fn.Signature.Recv().Type(), cache) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var fv *types.Var
				switch y := in.(type) {
				case *ssa.Field:
					if types.Identical(y.X.Type(), node) {
						fv = fieldVarOf(y.X.Type(), y.Field)
					}
				case *ssa.FieldAddr:
					if types.Identical(deref(y.X.Type()), node) && onlyRead(y) && ownCopy(y.X) {
						fv = fieldVarOf(y.X.Type(), y.Field)
					}
				}
				if fv != nil && isStrT(fv.Type()) {
					found[fv.Name()] = true
				}
			}
		}
	}
	if len(found) == 1 {
		for n := range found {
			return n
		}
	}
	return ""
}

// lru checks the methods under one labelling.
type lru struct {
	c      *Ctx
	cache  *types.Named
	sh     *shaper
	fails  []lruFail
	passes []string
}

func (a *lru) check(ok bool, fn *ssa.Function, construct, why string) {
	if ok {
		a.passes = append(a.passes, construct)
		return
	}
	f := lruFail{fn, construct, why}
	for _, o := range a.fails {
		if o == f {
			return
		}
	}
	a.fails = append(a.fails, f)
}

const lruCacheID = 1

// start builds an initial state; d is the node the key is found in.
func (a *lru) start(k lruCase) (*shape, sval) {
	r := a.sh.r
	s := &shape{objs: map[int]*sobj{}, segs: map[int]*sseg{}, maps: map[int]*smap{}, orig: map[int][2]string{}, next: 1, dLo: -sInf, dHi: 0}
	o := &sobj{t: a.cache, f: zeroRec(a.cache.Underlying().(*types.Struct)).rec}
	for n, v := range o.f {
		if v.k != sRec {
			o.f[n] = sval{k: sUnk, what: n}
		}
	}
	s.objs[lruCacheID] = o
	mid := s.fresh()
	m := &smap{m: map[string]sval{}}
	s.maps[mid] = m
	o.f[r.storage] = sval{k: sMap, id: mid}
	o.f[r.cap] = sval{k: sLin, n: lin{b: 1}}
	if r.count != "" {
		o.f[r.count] = sval{k: sLin, n: lin{a: 1}}
	}
	var d sval
	type item struct{ first, last sval }
	var items []item
	seg := func() {
		id := s.fresh()
		s.segs[id] = &sseg{left: sval{k: sNil}, right: sval{k: sNil}}
		items = append(items, item{sval{k: sEnd, id: id, f: "first"}, sval{k: sEnd, id: id, f: "last"}})
		m.segs = true
	}
	if k.left {
		seg()
	}
	if k.found {
		id := s.fresh()
		n := &sobj{t: r.node, f: zeroRec(r.node.Underlying().(*types.Struct)).rec, listed: true}
		n.f[r.key] = sval{k: sAtom, f: "q"}
		n.f[r.val] = s.atom("v")
		s.objs[id] = n
		s.orig[id] = [2]string{"q", n.f[r.val].f}
		d = sval{k: sPtr, id: id}
		m.m["q"] = d
		items = append(items, item{d, d})
	}
	if k.right {
		seg()
	}
	nilv := sval{k: sNil}
	o.f[r.head], o.f[r.last] = nilv, nilv
	for i, it := range items {
		prev, next := nilv, nilv
		if i > 0 {
			prev = items[i-1].last
		} else {
			o.f[r.head] = it.first
		}
		if i+1 < len(items) {
			next = items[i+1].first
		} else {
			o.f[r.last] = it.last
		}
		if it.first.k == sPtr {
			s.objs[it.first.id].f[r.prev], s.objs[it.first.id].f[r.next] = prev, next
		} else {
			s.segs[it.first.id].left, s.segs[it.first.id].right = prev, next
		}
		s.seq = append(s.seq, it.first)
	}
	s.nLo = int64(len(items))
	return s, d
}

func (a *lru) method(fn *ssa.Function) {
	name := fn.Name()
	for _, k := range lruCases {
		a.sh.bad, a.sh.steps = "", 0
		s, d := a.start(k)
		args := []sval{{k: sPtr, id: lruCacheID}}
		strs := 0
		for _, p := range fn.Params[1:] {
			switch {
			case isStrT(p.Type()):
				args = append(args, sval{k: sAtom, f: []string{"q", "w", "x", "y"}[strs%4]})
				strs++
			default:
				args = append(args, sval{k: sUnk, what: p.Name()})
			}
		}
		outs := a.sh.call(s, fn, args, nil, 0)
		at := fmt.Sprintf("%s on %s", short(fn), k.name)
		if a.sh.bad != "" {
			a.check(false, fn, at, a.sh.bad)
			continue
		}
		if len(outs) == 0 {
			a.check(false, fn, at, "it never returns")
			continue
		}
		for _, o := range outs {
			a.outcome(fn, name, at, k, d, o)
		}
	}
}

// entry of the expected list: a node's contents or a segment.
type lruEntry struct {
	seg      int
	key, val string
}

// outcome compares a final state with the model.
func (a *lru) outcome(fn *ssa.Function, name, at string, k lruCase, d sval, o sret) {
	s := o.s
	// The model.
	var want []lruEntry
	var dv lruEntry
	for _, v := range s.seq {
		e := lruEntry{seg: v.id}
		if v.k == sPtr {
			c := s.orig[v.id]
			e = lruEntry{key: c[0], val: c[1]}
			if d.k == sPtr && v.id == d.id {
				dv = e
				if name == "Find" || name == "Store" {
					continue
				}
			}
		}
		want = append(want, e)
	}
	count := lin{a: 1}
	switch name {
	case "Find":
		if k.found {
			want = append(want, dv)
		}
		a.found(fn, at, k, dv, o)
	case "Store":
		if k.found {
			want = append(want, lruEntry{key: dv.key, val: "w"})
			break
		}
		full, room := s.clone(), s.clone()
		isFull := full.restrict(lin{1, -1, 0}, 0, 0)
		isRoom := room.restrict(lin{1, -1, 0}, -sInf, -1)
		if isFull && isRoom {
			a.outcome(fn, name, at, k, d, sret{full, o.vals})
			a.outcome(fn, name, at, k, d, sret{room, o.vals})
			return
		}
		if isFull {
			if len(want) > 0 && want[0].seg != 0 {
				for _, c := range a.sh.open(s, sval{k: sEnd, id: want[0].seg, f: "first"}) {
					a.outcome(fn, name, at, k, d, sret{c, o.vals})
				}
				return
			}
			if len(want) == 0 {
				return // a capacity of at least one is not reached by nothing
			}
			want = want[1:]
		} else {
			count.c = 1
		}
		want = append(want, lruEntry{key: "q", val: "w"})
	case "Clear":
		want = nil
		count = lin{}
	}
	why := a.wellFormed(s, want, count)
	a.check(why == "", fn, at, why)
}

// found: what a lookup answers.
func (a *lru) found(fn *ssa.Function, at string, k lruCase, dv lruEntry, o sret) {
	var ok, got bool
	var b sval
	for _, v := range o.vals {
		switch v.k {
		case sBool:
			b, got = v, true
		case sRec:
			ok = v.rec[a.sh.r.val].f == dv.val && v.rec[a.sh.r.val].k == sAtom
		case sPtr:
			f := o.s.objs[v.id].f[a.sh.r.val]
			ok = f.k == sAtom && f.f == dv.val
		case sAtom:
			ok = v.f == dv.val
		}
	}
	if !got {
		a.check(false, fn, at, "it is not known whether it says that the path was found")
		return
	}
	a.check(b.b == k.found, fn, at, fmt.Sprintf("it says found = %v", b.b))
	if k.found {
		a.check(ok, fn, at, "it does not give the mapping stored for that path")
	}
}

// wellFormed compares the heap with the expected list.
func (a *lru) wellFormed(s *shape, want []lruEntry, count lin) string {
	r := a.sh.r
	o := s.objs[lruCacheID]
	if o.f[r.cap].k != sLin || o.f[r.cap].n != (lin{b: 1}) {
		return "the capacity changes"
	}
	if r.count != "" {
		c := o.f[r.count]
		lo, hi := int64(1), int64(1)
		if c.k == sLin {
			lo, hi = s.bounds(lin{c.n.a - count.a, c.n.b - count.b, c.n.c - count.c})
			if w, h := s.bounds(c.n); lo != 0 && w == h {
				if x, y := s.bounds(count); x == y && x == w {
					lo, hi = 0, 0
				}
			}
		}
		if lo != 0 || hi != 0 {
			return fmt.Sprintf("the counter %s is no longer the number of entries", r.count)
		}
	}
	m := o.f[r.storage]
	if m.k != sMap {
		return "the map is gone"
	}
	mm := s.maps[m.id]
	cur, prev := o.f[r.head], sval{k: sNil}
	keys := map[string]bool{}
	segs := false
	for i, w := range want {
		switch cur.k {
		case sEnd:
			if cur.f != "first" {
				return "the list is entered from the wrong end"
			}
			if w.seg != cur.id {
				return fmt.Sprintf("the order of the entries is wrong at position %d", i)
			}
			g := s.segs[cur.id]
			if !sameRef(g.left, prev) {
				return fmt.Sprintf("the %s link before position %d does not lead to the entry before it", r.prev, i)
			}
			segs = true
			prev = sval{k: sEnd, id: cur.id, f: "last"}
			cur = g.right
		case sPtr:
			n := s.objs[cur.id]
			if w.seg != 0 || n.f[r.key].k != sAtom || n.f[r.key].f != w.key {
				return fmt.Sprintf("the order of the entries is wrong at position %d", i)
			}
			if n.f[r.val].k != sAtom || n.f[r.val].f != w.val {
				return fmt.Sprintf("the entry at position %d does not hold the mapping stored last", i)
			}
			if !sameRef(n.f[r.prev], prev) {
				return fmt.Sprintf("the %s link of position %d does not lead to the entry before it", r.prev, i)
			}
			if e, ok := mm.m[w.key]; !ok || !sameRef(e, cur) {
				return fmt.Sprintf("the map does not lead to the entry at position %d", i)
			}
			if keys[w.key] {
				return "two entries have the same path"
			}
			keys[w.key] = true
			prev = cur
			cur = n.f[r.next]
		default:
			return fmt.Sprintf("the list ends after %d of %d parts", i, len(want))
		}
	}
	if cur.k != sNil {
		return "the list goes on after its last entry"
	}
	if !sameRef(o.f[r.last], prev) {
		return fmt.Sprintf("%s does not lead to the last entry", r.last)
	}
	if len(mm.m) != len(keys) {
		var extra []string
		for k := range mm.m {
			if !keys[k] {
				extra = append(extra, k)
			}
		}
		return "the map holds an entry that is not in the list: " + strings.Join(extra, ", ")
	}
	if segs && !mm.segs || mm.segs && !segs && len(want) == 0 && len(s.seqSegs()) > 0 {
		return "the map and the list hold different entries"
	}
	return ""
}

// seqSegs: the segments of the initial list.
func (s *shape) seqSegs() []int {
	var out []int
	for _, v := range s.seq {
		if v.k == sEnd {
			out = append(out, v.id)
		}
	}
	return out
}

func sameRef(a, b sval) bool {
	return a.k == b.k && (a.k == sNil || a.id == b.id && (a.k != sEnd || a.f == b.f))
}

// constructors: functions that make a cache leave it empty.
func (a *lru) constructors() {
	for _, fn := range a.c.P.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		makes := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), a.cache) {
					makes = true
				}
			}
		}
		if !makes {
			continue
		}
		a.sh.bad, a.sh.steps = "", 0
		s := &shape{objs: map[int]*sobj{}, segs: map[int]*sseg{}, maps: map[int]*smap{}, orig: map[int][2]string{}, next: 1, dLo: -sInf, dHi: 0}
		var args []sval
		for _, p := range fn.Params {
			if isIntType(p.Type()) {
				args = append(args, sval{k: sLin, n: lin{b: 1}})
			} else {
				args = append(args, sval{k: sUnk, what: p.Name()})
			}
		}
		outs := a.sh.call(s, fn, args, nil, 0)
		at := short(fn)
		if a.sh.bad != "" {
			a.check(false, fn, at, a.sh.bad)
			continue
		}
		for _, o := range outs {
			for id, x := range o.s.objs {
				if id > 0 && types.Identical(x.t, a.cache) {
					o.s.objs[lruCacheID] = x
				}
			}
			why := a.wellFormed(o.s, nil, lin{})
			if why == "the capacity changes" && o.s.objs[lruCacheID].f[a.sh.r.cap].k == sLin {
				why = ""
			}
			a.check(why == "", fn, at, why)
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldVarOf(t types.Type, i int) *types.Var {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(i)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
