package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C22", Technique: "may-alias and typestate analysis of pooled buffers along every path class, and interprocedural provenance of everything that is written to while serving",
		Explain: "every buffer given to a pool comes from that pool or is new, is given back once, is not touched, carried over, returned or kept afterwards; pools make new memory; and no write while serving reaches memory that a cache, a channel or a long-lived object holds",
		Run:     runC22})
}

const (
	poolGet = "(*sync.Pool).Get"
	poolPut = "(*sync.Pool).Put"
)

type buffers struct {
	c     *Ctx
	flow  *flow
	units map[*ssa.Function]bool
	reach map[*ssa.Function]bool // functions from which a pool is reached
	pos   map[*types.Var]int     // positive fields: 1 checking, 2 yes, 3 no
	conc  map[*ssa.Function]bool
}

func runC22(c *Ctx) {
	const O, M, K, W = "given-back", "new-memory", "kept", "writes"
	c.Rule(O, "on every path class of every function that handles pooled buffers, a buffer given to a pool was taken from that pool or made here, and afterwards nothing reads, writes, returns, stores, sends, carries over or gives back again any memory it may share")
	c.Rule(M, "a pool's New function returns memory it makes itself, for every kind of pool")
	c.Rule(K, "memory that was put into a cache or sent to another goroutine is not written to afterwards by the one who put it there")
	c.Rule(W, "every write while serving (element store, copy, append, decoding, decrypting, sorting, reading into) goes to memory made for the request or taken from a pool, never to memory a cache, a channel, a package variable or a long-lived object holds")
	b := &buffers{c: c, flow: newFlow(c.P), units: map[*ssa.Function]bool{}, pos: map[*types.Var]int{}}
	b.findUnits(O)
	b.makers(M)
	if len(b.units) > 0 {
		c.Need(O, 5)
		c.Need(M, 1)
	}
	b.conc = map[*ssa.Function]bool{}
	live := c.live()
	for f := range c.concurrent(live) {
		b.conc[f] = true
	}
	b.keeps(K)
	b.writes(W)
}

// findUnits: the functions that take from or give to a pool, and those that
// get pooled memory from, or hand memory to be given back to, one of them.
func (b *buffers) findUnits(rule string) {
	var todo []*ssa.Function
	add := func(fn *ssa.Function) {
		for fn != nil && fn.Parent() != nil && !goStarted(fn) {
			fn = fn.Parent()
		}
		if fn == nil || b.units[fn] || engine.IsFake(fn) || len(fn.Blocks) == 0 {
			return
		}
		b.units[fn] = true
		todo = append(todo, fn)
	}
	for _, fn := range b.c.P.Funcs {
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if n := fullCallee(call.Common()); n == poolGet || n == poolPut {
						add(fn)
					}
				}
			}
		}
	}
	b.reach = map[*ssa.Function]bool{}
	for fn := range b.units {
		b.reach[fn] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range b.c.P.Funcs {
			if b.reach[fn] {
				continue
			}
			for _, blk := range fn.Blocks {
				for _, i := range blk.Instrs {
					for _, op := range i.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && b.reach[f] && !b.reach[fn] {
							b.reach[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		sort.Slice(todo, func(i, j int) bool { return todo[i].Pos() < todo[j].Pos() })
		fn := todo[0]
		todo = todo[1:]
		if done[fn] {
			continue
		}
		done[fn] = true
		if b.unit(rule, fn) {
			for _, call := range b.c.P.AllCallers(fn) {
				add(call.Parent())
			}
		}
	}
}

func pkgIs(fn *ssa.Function, name string) bool {
	pk := engine.PkgOf(fn)
	return pk != nil && (pk.Path() == name || strings.HasSuffix(pk.Path(), "/"+name))
}

// alias answers which memory a value may share, along one path.
type alias struct {
	p    *path
	bufs map[*term]map[*term]bool // what a bytes.Buffer was made over, or is a view of
	view map[*term]map[*term]bool // buffers a slice is a view of
	memo map[*term]map[*term]bool
	busy map[*term]bool
}

func newAlias(p *path) *alias {
	a := &alias{p: p, bufs: map[*term]map[*term]bool{}, view: map[*term]map[*term]bool{}, memo: map[*term]map[*term]bool{}, busy: map[*term]bool{}}
	for _, ev := range p.Events {
		if ev.Kind != engine.EvCall || ev.Res == nil {
			continue
		}
		switch sn(ev.Callee) {
		case "bytes.NewBuffer":
			a.bufs[ev.Res] = a.roots(ev.Args[0], true)
		case "bytes.Buffer.Bytes":
			if ev.Res.K != engine.KNil && ev.Res.K != engine.KZero {
				m := a.view[ev.Res]
				if m == nil {
					m = map[*term]bool{}
					a.view[ev.Res] = m
				}
				for r := range a.roots(ev.Args[0], true) {
					m[r] = true
				}
			}
		}
	}
	a.memo = map[*term]map[*term]bool{}
	return a
}

// fresh library results share nothing with their arguments.
var freshCalls = map[string]bool{
	"bytes.Clone": true, "bytes.Repeat": true, "bytes.Join": true, "bytes.ToUpper": true, "bytes.ToLower": true, "bytes.Map": true,
	"bytes.ReplaceAll": true, "bytes.Replace": true, "slices.Clone": true, "slices.Concat": true, "slices.Repeat": true,
	"fmt.Errorf": true, "errors.New": true, "io.ReadAll": true, "ioutil.ReadAll": true, "errors.Join": true,
}

// roots are the places a value's memory may belong to. With owners, what is
// read from an object also belongs to the object.
func (a *alias) roots(t *term, owners bool) map[*term]bool {
	out := map[*term]bool{}
	seen := map[*term]bool{}
	var rec func(t *term)
	rec = func(t *term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for r := range a.view[t] {
			out[r] = true
		}
		if !holdsMemory(t.T) {
			return
		}
		switch t.K {
		case engine.KConst, engine.KNil, engine.KZero, engine.KFunc, engine.KLen, engine.KCap, engine.KBin, engine.KAssertOk, engine.KRecvOk, engine.KLookupOk:
		case engine.KSlice:
			if len(t.Args) > 3 && t.Args[3] != nil && t.Args[3].Is(0) {
				return // no room in it
			}
			rec(t.Args[0])
		case engine.KIface, engine.KAssert:
			rec(t.Args[0])
		case engine.KConv:
			if t.T != nil && t.Args[0].T != nil {
				_, toS := t.T.Underlying().(*types.Slice)
				_, fromS := t.Args[0].T.Underlying().(*types.Slice)
				if toS != fromS {
					out[t] = true
					return
				}
			}
			rec(t.Args[0])
		case engine.KAppend:
			out[t] = true
			rec(t.Args[0])
			if elemHoldsMemory(t.T) {
				for _, x := range t.Args[1:] {
					rec(x)
				}
			}
		case engine.KMu:
			out[t] = true
			for _, x := range a.p.R.Cands(t) {
				rec(x)
			}
		case engine.KStruct, engine.KTuple, engine.KClosure:
			for _, x := range t.Args {
				rec(x)
			}
		case engine.KExtract:
			if t.Args[0].K == engine.KTuple {
				rec(t.Args[0].Args[t.Idx])
				return
			}
			a.call(t.Args[0], t, out, rec)
		case engine.KCall:
			a.call(t, t, out, rec)
		case engine.KLoad:
			out[t] = true
			ad := t.Args[0]
			if ad.K == engine.KFieldAddr && ad.Var == engine.ContentVar {
				rec(ad.Args[0])
			} else if owners {
				rec(ad)
			}
		case engine.KField, engine.KIndex, engine.KLookup:
			out[t] = true
			if owners {
				rec(t.Args[0])
			}
		case engine.KFieldAddr, engine.KIndexAddr:
			rec(t.Args[0])
		case engine.KAlloc:
			out[t] = true
			for r := range a.bufs[t] {
				out[r] = true
			}
		default:
			out[t] = true
		}
	}
	rec(t)
	return out
}

func (a *alias) call(call, t *term, out map[*term]bool, rec func(*term)) {
	n := sn(call.Callee)
	switch {
	case call.Callee == "·written" || call.Callee == "·touched":
		rec(call.Args[0])
		out[t] = true
		return
	case freshCalls[n]:
		out[t] = true
		return
	}
	out[call] = true
	if call.Callee == poolGet {
		return
	}
	if m := n[strings.LastIndexByte(n, '.')+1:]; in(m, "Open", "Seal") && len(call.Args) == 5 {
		rec(call.Args[1])
		return
	}
	// The result may be, or keep, any of the memory it was given.
	_, slice := under(t.T).(*types.Slice)
	for _, x := range call.Args {
		if x == nil {
			continue
		}
		u := unbox(x)
		_, xs := under(u.T).(*types.Slice)
		if slice && (!xs || !types.Identical(under(u.T), under(t.T))) {
			continue
		}
		rec(x)
	}
}

func calleeInRepo(call *term) bool {
	return strings.Contains(call.Callee, repoPath)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// holdsMemory: values of the type can refer to memory others can write.
func holdsMemory(t types.Type) bool { return memType(t, 0) }

func memType(t types.Type, d int) bool {
	if t == nil || d > 6 {
		return true
	}
	switch y := t.Underlying().(type) {
	case *types.Basic:
		return y.Kind() == types.UnsafePointer || y.Kind() == types.Invalid
	case *types.Struct:
		for i := 0; i < y.NumFields(); i++ {
			if memType(y.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return memType(y.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < y.Len(); i++ {
			if memType(y.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Interface:
		return types.TypeString(t, nil) != "error"
	}
	return true
}

func elemHoldsMemory(t types.Type) bool {
	if s, ok := under(t).(*types.Slice); ok {
		return memType(s.Elem(), 0)
	}
	return true
}

func overlap(a, b map[*term]bool) *term {
	for t := range a {
		if b[t] {
			return t
		}
	}
	return nil
}

// unit follows the pooled buffers through one function. It reports whether
// its callers have to be followed too.
func (b *buffers) unit(rule string, fn *ssa.Function) bool {
	c := b.c
	r := c.ExploreCfg(rule, engine.Config{Entry: fn, Loads: true, Opaque: func(f *ssa.Function) bool { return pkgIs(f, "requester") || !b.reach[f] && len(f.Blocks) > 8 }})
	up := false
	for _, p := range r.Paths {
		if p.Exit == "panic" || p.Exit == "exit" || b.impossible(p) {
			continue
		}
		if b.follow(rule, fn, p) {
			up = true
		}
		if p.Exit == "return" && !up {
			a := newAlias(p)
			for _, t := range p.Ret {
				for x := range a.roots(t, true) {
					if x.K == engine.KCall && x.Callee == poolGet {
						up = true
					}
				}
			}
		}
	}
	return up
}

type release struct {
	ev    *evnt
	what  *term
	roots map[*term]bool
	tops  map[*term]bool
}

func (b *buffers) follow(rule string, fn *ssa.Function, p *path) (up bool) {
	c := b.c
	a := newAlias(p)
	at := short(fn)
	var rel []*release
	// All buffers given back on this path, to judge what is kept.
	for _, ev := range p.Events {
		if ev.Kind == engine.EvCall && ev.Callee == poolPut {
			rel = append(rel, &release{ev: ev, what: ev.Args[1], roots: a.roots(ev.Args[1], false), tops: map[*term]bool{}})
		}
	}
	if len(rel) == 0 {
		c.Pass(rule, at)
		return false
	}
	bad := func(pos token.Pos, why string, r *release) {
		c.FailPath(rule, pos, at, fmt.Sprintf("%s the buffer given back at %s", why, c.P.Pos(r.ev.Pos)), p)
	}
	clean := true
	for i, r := range rel {
		why, deferred := b.mayPut(fn, p, a, r)
		if deferred {
			up = true
		}
		if why != "" && !deferred {
			c.FailPath(rule, r.ev.Pos, at, why, p)
			clean = false
		}
		for _, o := range rel[:i] {
			if overlap(r.roots, o.roots) != nil {
				bad(r.ev.Pos, "gives back again", o)
				clean = false
			}
		}
	}
	done := []*release{}
	for _, ev := range p.Events {
		if ev.Kind == engine.EvCall && ev.Callee == poolPut {
			for _, r := range rel {
				if r.ev == ev {
					done = append(done, r)
				}
			}
			continue
		}
		var use []*term
		verb := "uses"
		switch ev.Kind {
		case engine.EvCall:
			if quietCall(ev) {
				continue
			}
			use = ev.Args
			if ev.Invoke || ev.CalleeFn == nil {
				verb = "hands on"
			}
		case engine.EvCopy, engine.EvConv:
			use = ev.Args
		case engine.EvIndex:
			use = ev.Args[:1]
		case engine.EvStore:
			use = ev.Args
			verb = "stores to or keeps"
		case engine.EvSend:
			use = ev.Args[1:]
			verb = "sends"
		case engine.EvMapUpdate:
			use = ev.Args[2:]
			verb = "keeps"
		case engine.EvGo:
			use = append(append([]*term{}, ev.Args...), ev.Res)
			if _, free := started(ev); len(free) > 0 {
				for _, f := range free {
					use = append(use, f, ev.Cells[f])
				}
			}
			verb = "hands to a goroutine"
		case engine.EvLoop:
			if ev.Idx == 3 {
				for mu, v := range ev.Cells {
					_ = mu
					use = append(use, v)
				}
				verb = "carries into the next round"
			}
		}
		for _, t := range use {
			if t == nil {
				continue
			}
			rs := a.roots(t, true)
			for _, r := range done {
				if overlap(rs, r.roots) != nil {
					if ev.Kind == engine.EvLoop && !b.muUsed(p, ev, t) {
						continue
					}
					bad(ev.Pos, "after it, "+verb, r)
					clean = false
				}
			}
			// Kept somewhere, whenever that happens.
			keep := false
			switch ev.Kind {
			case engine.EvStore:
				ar := addrRoot(ev.Args[0])
				keep = t == ev.Args[1] && ar.K != engine.KAlloc && ar.K != engine.KMake
			case engine.EvSend, engine.EvMapUpdate:
				keep = true
			case engine.EvGo:
				keep = true
			}
			if keep {
				for _, r := range rel {
					if r.ev.Seq > ev.Seq && overlap(rs, r.roots) != nil {
						if ev.Kind == engine.EvGo && joined(p, ev, r.ev) {
							continue
						}
						bad(ev.Pos, "before it, "+verb+", where it stays reachable,", r)
						clean = false
					}
				}
			}
		}
	}
	if p.Exit == "return" {
		for _, t := range p.Ret {
			rs := b.deep(p, a, t)
			for _, r := range rel {
				if overlap(rs, r.roots) != nil || sharesElem(rs, r.roots) {
					bad(p.Pos, "returns memory of", r)
					clean = false
				}
			}
		}
	}
	if clean {
		c.Pass(rule, at)
	}
	return up
}

// muUsed: a value carried over a back edge matters only if it is read there;
// dead unknowns do not exist in pruned SSA form, cells of local variables may.
func (b *buffers) muUsed(p *path, ev *evnt, v *term) bool {
	for mu, x := range ev.Cells {
		if x != v || mu == nil {
			continue
		}
		// The unknown is used by some path after the loop's general arrival.
		for _, q := range p.R.Paths {
			for _, e := range q.Events {
				if e.Kind == engine.EvLoop || e.Kind == engine.EvCall && quietCall(e) {
					continue
				}
				for _, t := range e.Args {
					if t != nil && mentions(t, mu) {
						return true
					}
				}
			}
			for _, t := range q.Ret {
				if t != nil && mentions(t, mu) {
					return true
				}
			}
		}
	}
	return false
}

// quietCall: calls that only look at lengths.
func quietCall(ev *evnt) bool {
	return in(sn(ev.Callee), "bytes.Buffer.Len", "bytes.Buffer.Cap", "bytes.Buffer.Available")
}

func addrRoot(t *term) *term {
	for t != nil && (t.K == engine.KFieldAddr || t.K == engine.KIndexAddr || t.K == engine.KSlice) {
		t = t.Args[0]
	}
	return t
}

// joined: between the start and the release the starter waits.
func joined(p *path, from, to *evnt) bool {
	for _, ev := range p.Events {
		if ev.Seq > from.Seq && ev.Seq < to.Seq && (ev.Kind == engine.EvRecv || evIs(ev, "sync.WaitGroup.Wait")) {
			return true
		}
	}
	return false
}

// sharesElem: the released memory is an element of what is returned.
func sharesElem(ret, rel map[*term]bool) bool {
	for t := range rel {
		if t.K == engine.KLoad && t.Args[0].K == engine.KIndexAddr && ret[addrRoot(t.Args[0])] {
			return true
		}
	}
	return false
}

// deep: the memory reachable from a value when the path ends.
func (b *buffers) deep(p *path, a *alias, t *term) map[*term]bool {
	out := map[*term]bool{}
	work := []*term{t}
	seen := map[*term]bool{}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == nil || seen[x] {
			continue
		}
		seen[x] = true
		for r := range a.roots(x, true) {
			if !out[r] {
				out[r] = true
				if r.K == engine.KAlloc || r.K == engine.KMake {
					for ad, v := range p.Mem {
						if addrRoot(ad) == r && v != nil && v.T != nil && holdsMemory(v.T) {
							work = append(work, v)
						}
					}
				}
			}
		}
	}
	return out
}

// mayPut: what is given to a pool came from it or was made here.
func (b *buffers) mayPut(fn *ssa.Function, p *path, a *alias, r *release) (why string, deferred bool) {
	if len(r.roots) == 0 {
		return "", false // nil
	}
	for t := range r.roots {
		switch t.K {
		case engine.KMake, engine.KAlloc, engine.KAppend, engine.KConv, engine.KMu:
			continue
		case engine.KCall:
			switch {
			case t.Callee == poolGet:
				if !samePlace(t.Args[0], r.ev.Args[0]) {
					return "gives a buffer of another pool to this pool", false
				}
				continue
			case calleeInRepo(t):
				return "gives memory to the pool that " + sn(t.Callee) + " returned, which may be held elsewhere", false
			}
			continue
		case engine.KLoad:
			if t.Args[0].K == engine.KIndexAddr {
				if o := addrRoot(t.Args[0]); o != nil && (o.K == engine.KMake || o.K == engine.KAlloc || o.K == engine.KAppend) {
					continue
				} else if o != nil && o.K == engine.KParam && o.Idx < 1000 && o.Fn == fn && under(o.T) != nil && b.callers(fn) {
					// An element of the list the callers pass.
					if _, ok := under(o.T).(*types.Slice); ok {
						deferred = true
						why = "given by the callers"
						continue
					}
				}
			}
		case engine.KParam:
			if t.Idx < 1000 && t.Fn == fn && b.callers(fn) {
				deferred = true
				why = "given by the callers"
				continue
			}
		}
		return fmt.Sprintf("gives memory to a pool that was neither taken from it nor made here: %s", strings.Replace(t.String(), repoPath+"/", "", -1)), false
	}
	return why, deferred
}

func samePlace(x, y *term) bool {
	if x == y {
		return true
	}
	// A pool embedded in a wrapper, reached through the wrapper's address.
	for x.K == engine.KFieldAddr && types.TypeString(x.Var.Type(), nil) == "sync.Pool" {
		x = x.Args[0]
	}
	for y.K == engine.KFieldAddr && types.TypeString(y.Var.Type(), nil) == "sync.Pool" {
		y = y.Args[0]
	}
	return x == y
}

func (b *buffers) callers(fn *ssa.Function) bool {
	n := 0
	for _, call := range b.c.P.AllCallers(fn) {
		if engine.IsFake(call.Parent()) {
			continue
		}
		if _, ok := call.(*ssa.Go); ok || call.Common().StaticCallee() != fn {
			return false
		}
		n++
	}
	return n > 0
}

// impossible: the path assumes that a size is zero which no constructor sets
// to zero.
func (b *buffers) impossible(p *path) bool {
	e := p.Eval()
	no := false
	seen := map[*term]bool{}
	var g *geo
	var know []poly
	for _, f := range p.Facts.Slice() {
		if f.Pol && f.T.K == engine.KBin && f.T.Op == token.EQL && f.T.Args[1].Is(0) && f.T.Args[0].K == engine.KBin {
			// a sum of block sizes, or what is known to differ, is not 0 either
			if g == nil {
				g = newGeo(e, "plainBS", "cipherBS")
				know = append(g.facts(p.Facts.Slice()), poly{"B": 1, "": -1}, poly{"P": 1, "": -1})
			}
			d := g.of(f.T.Args[0])
			for _, s := range []poly{d, pNeg(d)} {
				for _, k := range know {
					if x := polyAdd(k, s, 1); len(x) == 1 && x[""] < 0 {
						return true
					}
				}
			}
		}
		f.T.Walk(func(x *term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.K == engine.KLoad && x.Args[0].K == engine.KFieldAddr && isIntT(x) && b.positive(x.Args[0].Var) {
				if k, ok := e.Canon(x).IntVal(); ok && k == 0 || e.AtMost(x, p.R.TT.Int(0), 0) {
					no = true
				}
			}
			return true
		})
	}
	return no
}

// positive: everything ever stored in the field is above zero (sums of sizes
// do not wrap around).
func (b *buffers) positive(v *types.Var) bool {
	switch b.pos[v] {
	case 1, 3:
		return false
	case 2:
		return true
	}
	b.pos[v] = 1
	ok := len(b.flow.fields[v]) > 0
	for _, s := range b.flow.fields[v] {
		if !b.above(s, 0) {
			ok = false
		}
	}
	b.pos[v] = 3
	if ok {
		b.pos[v] = 2
	}
	return ok
}

func (b *buffers) above(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Const:
		return y.Value != nil && y.Value.Kind() == constant.Int && constant.Sign(y.Value) > 0
	case *ssa.Convert:
		return b.above(y.X, depth+1)
	case *ssa.ChangeType:
		return b.above(y.X, depth+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !b.above(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch y.Op {
		case token.ADD:
			nn := func(x ssa.Value) bool {
				bt, ok := x.Type().Underlying().(*types.Basic)
				return ok && bt.Info()&types.IsUnsigned != 0 || b.above(x, depth+1)
			}
			return b.above(y.X, depth+1) && nn(y.Y) || b.above(y.Y, depth+1) && nn(y.X)
		case token.MUL:
			return b.above(y.X, depth+1) && b.above(y.Y, depth+1)
		}
	case *ssa.Parameter:
		o := b.flow.origins(y)
		if len(o) == 0 {
			return false
		}
		for _, x := range o {
			if x == v || !b.above(x, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			return b.positive(engine.FieldVar(fa.X.Type(), fa.Field))
		}
	}
	return false
}

// makers: what a pool hands out when it is empty is new.
func (b *buffers) makers(rule string) {
	c := b.c
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || types.TypeString(deref(fa.X.Type()), nil) != "sync.Pool" {
					continue
				}
				for _, o := range b.flow.origins(st.Val) {
					var mk *ssa.Function
					switch y := o.(type) {
					case *ssa.MakeClosure:
						mk = y.Fn.(*ssa.Function)
					case *ssa.Function:
						mk = y
					}
					if mk == nil || len(mk.Blocks) == 0 {
						c.Check(false, rule, st.Pos(), short(fn), "the function that makes a pool's buffers is not known", nil)
						continue
					}
					r := c.Explore(rule, mk)
					for _, p := range r.Paths {
						if p.Exit != "return" {
							continue
						}
						a := newAlias(p)
						for t := range b.deep(p, a, p.Ret[0]) {
							ok := t.K == engine.KMake || t.K == engine.KAlloc || t.K == engine.KAppend || t.K == engine.KConv
							if t.K == engine.KCall && !calleeInRepo(t) && t.Callee != poolGet {
								ok = true
							}
							c.Check(ok, rule, mk.Pos(), short(mk), "the pool hands out memory that is not new: "+t.String(), p)
						}
					}
				}
			}
		}
	}
}

// concurrent: the repository's functions that run while serving, in
// goroutines of their own or for requests.
func (c *Ctx) concurrent(live map[*ssa.Function]bool) map[*ssa.Function]bool {
	reach := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || reach[fn] || engine.IsFake(fn) || !c.P.InRepo(fn) || pkgIs(fn, "tlog") {
			return
		}
		reach[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if cc := call.Common(); cc.IsInvoke() {
						for _, f := range c.implementers(cc) {
							add(f)
						}
					}
				}
				// Functions called, or used as values.
				for _, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) || !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if x, ok := i.(*ssa.Go); ok {
					add(x.Call.StaticCallee())
					if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		if live[fn] && pkgIs(fn, "handlers") && fn.Signature.Recv() != nil && token.IsExported(fn.Name()) {
			add(fn)
		}
	}
	return reach
}

// keeps: nothing is written to after it was put where others find it.
func (b *buffers) keeps(rule string) {
	c := b.c
	shares := map[*ssa.Function]bool{}
	for fn := range b.conc {
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				switch y := i.(type) {
				case *ssa.MapUpdate:
					if holdsMemory(y.Value.Type()) {
						shares[fn] = true
					}
				case *ssa.Send:
					if holdsMemory(y.X.Type()) {
						shares[fn] = true
					}
				}
			}
		}
	}
	// The functions of the same package that lead there.
	for changed := true; changed; {
		changed = false
		for fn := range b.conc {
			if shares[fn] {
				continue
			}
			for _, blk := range fn.Blocks {
				for _, i := range blk.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok {
						if f := call.Common().StaticCallee(); f != nil && shares[f] && engine.PkgOf(f) == engine.PkgOf(fn) {
							shares[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	for f := range shares {
		if f.Parent() == nil || goStarted(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		pk := engine.PkgOf(fn)
		r := c.ExploreCfg(rule, engine.Config{Entry: fn, Opaque: func(f *ssa.Function) bool { return engine.PkgOf(f) != pk }})
		for _, p := range r.Paths {
			a := newAlias(p)
			shared := map[*term]*evnt{}
			for _, ev := range p.Events {
				var put *term
				switch ev.Kind {
				case engine.EvMapUpdate:
					put = ev.Args[2]
				case engine.EvSend:
					put = ev.Args[1]
				}
				if put != nil && holdsMemory(put.T) {
					for t := range a.roots(put, false) {
						if isDataSlice(t.T) {
							if shared[t] == nil {
								shared[t] = ev
							}
						}
					}
				}
				for _, d := range written(ev) {
					for t := range a.roots(d, false) {
						if s := shared[t]; s != nil {
							c.Check(false, rule, ev.Pos, short(fn), fmt.Sprintf("writes to memory that it made available to others at %s", c.P.Pos(s.Pos)), p)
						}
					}
				}
			}
		}
		c.Pass(rule, short(fn))
	}
	c.Need(rule, 1)
}

func isDataSlice(t types.Type) bool {
	switch y := under(t).(type) {
	case *types.Slice:
		return true
	case *types.Tuple:
		for i := 0; i < y.Len(); i++ {
			if isDataSlice(y.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// written: the memory an event writes to.
func written(ev *evnt) []*term {
	switch ev.Kind {
	case engine.EvStore:
		if ev.Args[0].K == engine.KIndexAddr {
			return []*term{ev.Args[0].Args[0]}
		}
	case engine.EvCopy:
		return ev.Args[:1]
	case engine.EvCall:
		off := 0
		if ev.Invoke || ev.CalleeFn != nil && ev.CalleeFn.Signature.Recv() != nil {
			off = 1
		}
		name := ev.Callee
		if i := writesArg(name); i >= 0 && i+off < len(ev.Args) {
			return []*term{ev.Args[i+off]}
		}
	}
	return nil
}

// writesArg is the argument (not counting the receiver) that a library
// function writes to, or -1.
func writesArg(full string) int {
	n := sn(full)
	m := n[strings.LastIndexByte(n, '.')+1:]
	switch {
	case n == "builtin.append", n == "builtin.copy", n == "builtin.clear":
		return 0
	case strings.HasPrefix(n, "binary.") && (strings.HasPrefix(m, "PutU") || strings.HasPrefix(m, "PutV") || strings.HasPrefix(m, "Append")):
		return 0
	case n == "binary.Encode":
		return 0
	case in(n, "io.ReadFull", "io.ReadAtLeast"):
		return 1
	case in(m, "Read", "ReadAt") && !strings.Contains(full, repoPath):
		if n == "binary.Read" {
			return 2
		}
		return 0
	case in(n, "hex.Encode", "hex.Decode", "hex.AppendEncode", "hex.AppendDecode", "base64.Encoding.Encode", "base64.Encoding.Decode", "base64.Encoding.AppendEncode", "base64.Encoding.AppendDecode"):
		return 0
	case in(m, "XORKeyStream", "CryptBlocks", "Open", "Seal") && strings.Contains(full, "cipher"):
		return 0
	case in(n, "cipher.Block.Encrypt", "cipher.Block.Decrypt", "subtle.XORBytes", "hash.Hash.Sum"):
		return 0
	case strings.HasPrefix(n, "sort.") && (strings.HasPrefix(m, "S") || in(m, "Ints", "Float64s")) && !strings.HasPrefix(m, "Search"):
		return 0
	case strings.HasPrefix(n, "slices.") && (strings.HasPrefix(m, "Sort") || in(m, "Reverse", "Delete", "Insert", "Compact", "CompactFunc", "Replace", "DeleteFunc", "Grow")):
		return 0
	case strings.HasPrefix(n, "strconv.Append"), strings.HasPrefix(n, "fmt.Append"):
		return 0
	}
	return -1
}

// source is where written memory comes from if others can see it.
type source struct {
	what string
	hard bool // no lock makes it right
	at   ssa.Value
}

// writes: the targets of all writes while serving.
func (b *buffers) writes(rule string) {
	c := b.c
	var fns []*ssa.Function
	for f := range b.conc {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	n := 0
	for _, fn := range fns {
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				var target ssa.Value
				switch y := i.(type) {
				case *ssa.Store:
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
						target = ia.X
					}
				case ssa.CallInstruction:
					cc := y.Common()
					name := fullCallee(cc)
					args := cc.Args
					if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(args) > 0 {
						args = args[1:]
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						name = "builtin." + bi.Name()
					}
					if k := writesArg(name); k >= 0 && k < len(args) {
						target = args[k]
						if name == "builtin.append" && len(cc.Args) > 0 && fullSlice(cc.Args[0]) {
							target = nil
						}
					}
					if sn(name) == "bytes.Buffer.Write" || sn(name) == "bytes.Buffer.WriteString" || sn(name) == "bytes.Buffer.WriteByte" || sn(name) == "bytes.Buffer.ReadFrom" {
						target = cc.Args[0]
					}
				}
				if target == nil {
					continue
				}
				n++
				s := b.origin(target)
				if s == nil {
					c.Pass(rule, fmt.Sprintf("%s %s", short(fn), c.P.Pos(i.Pos())))
					continue
				}
				if !s.hard && b.locked(fn, i) {
					c.Pass(rule, fmt.Sprintf("%s %s", short(fn), c.P.Pos(i.Pos())))
					continue
				}
				c.Check(false, rule, i.Pos(), short(fn), "writes to memory that others share: "+s.what, nil)
			}
		}
	}
	c.Need(rule, 5)
}

// fullSlice: an append to it cannot write into spare room.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	return s.Max == s.High || constEq(s.Max, s.High)
}

func constEq(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// locked: on every path through the function, a lock is held at the write.
func (b *buffers) locked(fn *ssa.Function, at ssa.Instruction) bool {
	for fn.Parent() != nil {
		return false
	}
	pk := engine.PkgOf(fn)
	r := b.c.P.Explore(engine.Config{Entry: fn, Loads: true, Opaque: func(f *ssa.Function) bool { return engine.PkgOf(f) != pk }})
	if r.Capped {
		return false
	}
	n := 0
	for _, p := range r.Paths {
		l := b.c.lockset(p)
		for _, ev := range p.Events {
			if ev.Instr == at {
				n++
				if len(l.at(ev)) == 0 {
					return false
				}
			}
		}
	}
	return n > 0
}

// origin traces memory back to where it was made; it returns a source when
// others may hold it too.
func (b *buffers) origin(v ssa.Value) *source {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) *source
	var load func(a ssa.Value, at ssa.Value) *source
	any := func(vs []ssa.Value) *source {
		for _, x := range vs {
			if s := rec(x); s != nil {
				return s
			}
		}
		return nil
	}
	// held: the object or container an address or element belongs to.
	load = func(a ssa.Value, at ssa.Value) *source {
		switch y := a.(type) {
		case *ssa.Alloc:
			var vs []ssa.Value
			var cells func(c ssa.Value)
			done := map[ssa.Value]bool{}
			cells = func(c ssa.Value) {
				if done[c] || c.Referrers() == nil {
					return
				}
				done[c] = true
				for _, r := range *c.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == c {
						vs = append(vs, st.Val)
					}
					if mc, ok := r.(*ssa.MakeClosure); ok {
						cf := mc.Fn.(*ssa.Function)
						for i, x := range mc.Bindings {
							if x == c {
								cells(cf.FreeVars[i])
							}
						}
					}
				}
			}
			cells(y)
			return any(vs)
		case *ssa.FieldAddr:
			if s := rec(y.X); s != nil {
				w := *s
				w.what = "field " + engine.FieldVar(y.X.Type(), y.Field).Name() + " of " + w.what
				return &w
			}
			// A local variable that was set as a whole.
			var in ssa.Value = y.X
			for {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					break
				}
				in = fa.X
			}
			switch in.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				if s := load(in, at); s != nil {
					return s
				}
			}
			return any(b.flow.fields[engine.FieldVar(y.X.Type(), y.Field)])
		case *ssa.IndexAddr:
			if s := rec(y.X); s != nil {
				return s
			}
			return any(b.stored(y.Type()))
		case *ssa.Global:
			return &source{what: "package variable " + y.Name(), at: at}
		case *ssa.FreeVar:
			for _, x := range b.flow.binds[y] {
				if s := load(x, at); s != nil {
					return s
				}
			}
			return nil
		}
		return rec(a)
	}
	rec = func(v ssa.Value) *source {
		if v == nil || seen[v] || !holdsMemory(v.Type()) {
			return nil
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Alloc:
			if y.Parent() != nil && !b.conc[y.Parent()] {
				return &source{what: "memory made before serving in " + short(y.Parent()), at: v}
			}
			return nil
		case *ssa.MakeSlice:
			if !b.conc[y.Parent()] {
				return &source{what: "memory made before serving in " + short(y.Parent()), at: v}
			}
			return nil
		case *ssa.MakeMap, *ssa.MakeChan:
			if !b.conc[v.Parent()] {
				return &source{what: "memory made before serving in " + short(v.Parent()), at: v}
			}
			return nil
		case *ssa.Convert:
			if _, ok := y.X.Type().Underlying().(*types.Slice); !ok {
				return nil
			}
			return rec(y.X)
		case *ssa.Slice:
			return rec(y.X)
		case *ssa.ChangeType:
			return rec(y.X)
		case *ssa.ChangeInterface:
			return rec(y.X)
		case *ssa.MakeInterface:
			return rec(y.X)
		case *ssa.TypeAssert:
			return rec(y.X)
		case *ssa.Phi:
			return any(y.Edges)
		case *ssa.FieldAddr:
			return rec(y.X)
		case *ssa.IndexAddr:
			return rec(y.X)
		case *ssa.Field:
			if s := rec(y.X); s != nil {
				return s
			}
			return any(b.flow.fields[engine.FieldVar(y.X.Type(), y.Field)])
		case *ssa.Index:
			return rec(y.X)
		case *ssa.Global:
			return &source{what: "package variable " + y.Name(), at: v}
		case *ssa.Lookup:
			s := rec(y.X)
			if s == nil {
				return nil
			}
			return &source{what: "an entry of a map in " + s.what, hard: true, at: v}
		case *ssa.Extract:
			switch t := y.Tuple.(type) {
			case *ssa.Call:
				return b.result(t, y.Index, rec, any)
			case *ssa.Lookup:
				return rec(t)
			case *ssa.TypeAssert:
				return rec(t)
			case *ssa.UnOp:
				return rec(t)
			}
			return nil
		case *ssa.Call:
			return b.result(y, 0, rec, any)
		case *ssa.UnOp:
			switch y.Op {
			case token.ARROW:
				return &source{what: "what was received from a channel in " + short(y.Parent()), hard: true, at: v}
			case token.MUL:
				return load(y.X, v)
			}
			return nil
		case *ssa.FreeVar:
			return any(b.flow.binds[y])
		case *ssa.Parameter:
			return b.param(y, rec)
		}
		return nil
	}
	return rec(v)
}

// stored: the values stored to elements of that type.
func (b *buffers) stored(addr types.Type) []ssa.Value {
	var out []ssa.Value
	for _, fn := range b.c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && types.Identical(ia.Type(), addr) {
						out = append(out, st.Val)
					}
				}
			}
		}
	}
	return out
}

func (b *buffers) result(call *ssa.Call, idx int, rec func(ssa.Value) *source, any func([]ssa.Value) *source) *source {
	cc := call.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" {
			return rec(cc.Args[0])
		}
		return nil
	}
	name := fullCallee(cc)
	fns := []*ssa.Function{}
	if f := cc.StaticCallee(); f != nil {
		fns = append(fns, f)
	} else if cc.IsInvoke() {
		fns = b.c.implementers(cc)
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fns = append(fns, mc.Fn.(*ssa.Function))
	}
	inRepo := false
	for _, f := range fns {
		if engine.IsFake(f) || !b.c.P.InRepo(f) || len(f.Blocks) == 0 {
			continue
		}
		inRepo = true
		for _, blk := range f.Blocks {
			if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if s := rec(r.Results[idx]); s != nil {
					return s
				}
			}
		}
	}
	if name == poolGet {
		return nil
	}
	// The library.
	if freshCalls[sn(name)] || inRepo && !cc.IsInvoke() {
		return nil
	}
	var rt types.Type = call.Type()
	if tp, ok := rt.(*types.Tuple); ok {
		rt = tp.At(idx).Type()
	}
	_, slice := rt.Underlying().(*types.Slice)
	args := cc.Args
	if in(sn(name), "bytes.Buffer.Bytes", "bytes.Buffer.Next") {
		return rec(args[0])
	}
	for _, x := range args {
		if slice && !types.Identical(x.Type().Underlying(), rt.Underlying()) {
			continue
		}
		// Only the destination of a cipher is part of its result.
		if s := rec(x); s != nil {
			return s
		}
		if slice && writesArg(name) >= 0 {
			break
		}
	}
	return nil
}

func (b *buffers) param(y *ssa.Parameter, rec func(ssa.Value) *source) *source {
	fn := y.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == y {
			idx = i
		}
	}
	recv := fn.Signature.Recv() != nil && idx == 0
	if recv && b.c.isEntry(fn) || recv && pkgIs(fn, "handlers") && token.IsExported(fn.Name()) {
		return &source{what: "the object " + types.TypeString(y.Type(), func(p *types.Package) string { return p.Name() }), at: y}
	}
	n := 0
	for _, call := range b.c.P.AllCallers(fn) {
		if engine.IsFake(call.Parent()) {
			continue
		}
		n++
		cc := call.Common()
		var a ssa.Value
		switch {
		case cc.IsInvoke() && idx == 0:
			a = cc.Value
		case cc.IsInvoke():
			a = cc.Args[idx-1]
		case idx < len(cc.Args):
			a = cc.Args[idx]
		}
		if a == nil {
			continue
		}
		if _, ok := call.(*ssa.Go); ok && holdsMemory(a.Type()) {
			if _, basic := a.(*ssa.Const); !basic {
				return &source{what: "what " + short(call.Parent()) + " hands to a goroutine", at: a}
			}
		}
		if s := rec(a); s != nil {
			return s
		}
	}
	if n == 0 && recv {
		return &source{what: "the object " + types.TypeString(y.Type(), func(p *types.Package) string { return p.Name() }), at: y}
	}
	return nil
}
