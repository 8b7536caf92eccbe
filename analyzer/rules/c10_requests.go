package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C10", Technique: "lockset-aware path analysis of the worker and the requesting methods (all helpers and closures inlined): atomic marker insertion before a fetch, publication and broadcast ordered through the ticket lock, one answer per request, guarded waiting",
		Explain: "every turn of the worker loop and every path of each requesting method is enumerated; which critical section an access to a cache map lies in is tracked, so that the argument holds for all interleavings of the critical sections",
		Run:     runC10})
	register(&Prop{ID: "C11", Technique: "value-flow agreement between requester and worker: for each requesting method, the cache, key, backend operation and arguments on the worker's side are compared, after substitution, with those on the requester's side; results are traced to a lookup under that key",
		Explain: "the key is compared as a term over the method's own parameters, so it holds for every path, name and IV; key construction must keep both parts apart",
		Run:     runC11})
}

const reqPkg = "requester"

// reqModel is the requester package as explored: the worker's turns and the
// requesting methods.
type reqModel struct {
	tt      *engine.Terms
	worker  *ssa.Function
	wr      *res
	turns   []*turn
	methods []*method
	kinds   map[int64]*method
	recv    *term
}

// method is a function that puts work into the queue and gives its result back.
type method struct {
	fn    *ssa.Function
	r     *res
	kind  int64
	work  *term // as sent
	cache *term // the map it looks the result up in
	key   *term
}

// turn is what the worker does with one request.
type turn struct {
	p        *path
	l        *locking
	recv     *evnt
	events   []*evnt
	resp     *term
	kind     *term
	from, to int
	complete bool
	lookups  []*evnt
	updates  []*evnt
	fetches  []*evnt
	answers  []*evnt
}

func isFetch(ev *evnt) bool {
	n := sn(ev.Callee)
	return ev.Kind == engine.EvCall && (strings.HasPrefix(n, "requester.Backend.") || strings.HasPrefix(n, "requester.Decrypter."))
}

// workElem: the element type of a queue of requests: a struct with a reply channel.
func workElem(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil, false
	}
	el := ch.Elem()
	if p, ok := el.Underlying().(*types.Pointer); ok {
		el = p.Elem()
	}
	st, ok := el.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
			return st, true
		}
	}
	return nil, false
}

// fieldBy finds the component of a struct value whose type satisfies f.
func fieldBy(v *term, f func(types.Type) bool) *term {
	if v == nil || v.T == nil {
		return nil
	}
	st, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f(st.Field(i).Type()) {
			if v.K == engine.KStruct {
				return v.Args[i]
			}
			return nil
		}
	}
	return nil
}

func isChanT(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isErrT(t types.Type) bool  { return types.TypeString(t, nil) == "error" }
func isAnyT(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}
func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

type entry struct{ data, err, num *term }

func entryOf(v *term) entry {
	return entry{fieldBy(v, isAnyT), fieldBy(v, isErrT), fieldBy(v, isNumT)}
}

// requests builds the model.
func (c *Ctx) requests(rule string) *reqModel {
	// The worker: what Start runs as a goroutine.
	var worker *ssa.Function
	for _, fn := range c.P.Funcs {
		if pk := engine.PkgOf(fn); pk == nil || !strings.HasSuffix(pk.Path(), "/"+reqPkg) || engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				if f := g.Call.StaticCallee(); f != nil && c.receivesWork(f, 3) {
					if worker != nil && worker != f {
						c.Fail(rule, g.Pos(), short(fn), "starts a second kind of worker")
					}
					worker = f
				}
			}
		}
	}
	if worker == nil {
		c.Fail(rule, noPos, "requester", "no goroutine takes requests from a queue")
		return nil
	}
	m := &reqModel{worker: worker, kinds: map[int64]*method{}}
	m.wr = c.ExploreCfg(rule, engine.Config{Entry: worker, Loads: true})
	m.tt = m.wr.TT
	for _, t := range append(append([]*term{}, m.wr.Params...), m.wr.Free...) {
		if engine.TypeKey(t.T) == repoPath+"/requester.Requester" {
			m.recv = t
		}
	}
	for _, p := range m.wr.Paths {
		m.turns = append(m.turns, c.turnsOf(p)...)
	}
	for _, n := range []string{"ReadFile", "ReadDir", "DecryptName"} {
		fn := c.Fn(rule, reqPkg, "Requester."+n)
		if fn == nil {
			continue
		}
		x := &method{fn: fn, kind: -1}
		x.r = c.ExploreCfg(rule, engine.Config{Entry: fn, TT: m.tt, Args: []*term{m.recv}, Loads: true})
		m.methods = append(m.methods, x)
		for _, p := range x.r.Paths {
			for _, ev := range p.Events {
				if ev.Kind != engine.EvSend {
					continue
				}
				if _, ok := workElem(ev.Args[0].T); !ok {
					continue
				}
				w := c.workValue(p, ev)
				k := fieldBy(w, isNumT)
				if k == nil {
					continue
				}
				if v, ok := p.EvalAt(ev).Canon(strip(k)).IntVal(); ok {
					if x.kind >= 0 && x.kind != v {
						c.FailPath(rule, ev.Pos, short(fn), "requests different kinds of work", p)
					}
					x.kind, x.work = v, w
					m.kinds[v] = x
				}
			}
		}
	}
	return m
}

// workValue is the request as sent, by value or by pointer.
func (c *Ctx) workValue(p *path, ev *evnt) *term {
	w := ev.Args[1]
	if w.K == engine.KStruct {
		return w
	}
	return w
}

// receivesWork: fn, or what it calls, takes requests from a queue.
func (c *Ctx) receivesWork(fn *ssa.Function, depth int) bool {
	if depth == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch y := i.(type) {
			case *ssa.UnOp:
				if _, ok := workElem(y.X.Type()); ok && y.Op.String() == "<-" {
					return true
				}
			case *ssa.Select:
				for _, s := range y.States {
					if _, ok := workElem(s.Chan.Type()); ok && s.Dir == types.RecvOnly {
						return true
					}
				}
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && c.P.InRepo(f) && c.receivesWork(f, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) turnsOf(p *path) []*turn {
	l := c.lockset(p)
	var out []*turn
	var cur *turn
	for _, ev := range p.Events {
		if ev.Kind == engine.EvRecv {
			if _, ok := workElem(ev.Args[0].T); ok {
				if cur != nil {
					cur.complete = true
				}
				cur = &turn{p: p, l: l, recv: ev, from: ev.Seq, resp: fieldBy(ev.Res, isChanT), kind: fieldBy(ev.Res, isNumT)}
				out = append(out, cur)
				continue
			}
		}
		if cur == nil {
			continue
		}
		cur.to = ev.Seq
		cur.events = append(cur.events, ev)
		switch ev.Kind {
		case engine.EvLookup:
			cur.lookups = append(cur.lookups, ev)
		case engine.EvMapUpdate:
			cur.updates = append(cur.updates, ev)
		case engine.EvSend, engine.EvClose:
			if cur.resp != nil && ev.Args[0] == cur.resp {
				cur.answers = append(cur.answers, ev)
			}
		}
		if isFetch(ev) {
			cur.fetches = append(cur.fetches, ev)
		}
	}
	if cur != nil && in(p.Exit, "cut", "return") {
		cur.complete = true
	}
	// Turns of a closed queue are not requests.
	res := out[:0]
	for _, t := range out {
		if v, known := p.Eval().Decide(t.recv.Ok); known && !v {
			continue
		}
		if t.complete {
			res = append(res, t)
		}
	}
	return res
}

// real: some requester sends this kind of request.
func (m *reqModel) real(t *turn) bool {
	if t.kind == nil {
		return true
	}
	e := t.p.Eval()
	for k := range m.kinds {
		kc := m.tt.Const(constant.MakeInt64(k), t.kind.T)
		if v, known := e.Decide(m.tt.Eq(t.kind, kc)); !known || v {
			return true
		}
	}
	return false
}

// kindOf is the kind of request a turn is about, if the path decides it.
func (m *reqModel) kindOf(t *turn) (int64, bool) {
	e := t.p.Eval()
	if v, ok := e.Canon(t.kind).IntVal(); ok {
		return v, true
	}
	for k := range m.kinds {
		kc := m.tt.Const(constant.MakeInt64(k), t.kind.T)
		if v, known := e.Decide(m.tt.Eq(t.kind, kc)); known && v {
			return k, true
		}
	}
	return 0, false
}

// ticketIdx is the index of the element of the requester's tickets t points to.
func ticketIdx(t *term) (*term, bool) {
	t = unbox(t)
	if t == nil {
		return nil, false
	}
	switch t.K {
	case engine.KIndexAddr:
		return t.Args[1], true
	case engine.KLoad:
		if t.Args[0].K == engine.KIndexAddr {
			return t.Args[0].Args[1], true
		}
	}
	return nil, false
}

func runC10(c *Ctx) {
	const A, F, W, D, T = "answer", "fetch-once", "wait", "delete", "tickets"
	c.Rule(A, "each request the worker takes is answered exactly once, by a ticket or by closing its reply channel, before anything that can block; the reply channel has room for the answer and is new for each request; a ticket is that of the worker doing the work, and the channel is closed only if the result is there")
	c.Rule(F, "a fetch is made only after this worker found no usable entry and put its in-progress marker there in one write-locked section; its outcome is then published under the same key, and all waiters are woken, the ticket's lock being held at or between the two")
	c.Rule(W, "a requester waits only holding the ticket's lock, after looking the entry up with that lock held and finding it in progress with that ticket's worker, and looks again afterwards")
	c.Rule(D, "an entry is only removed or replaced if it is seen to be finished in the same write-locked section, except by an explicit cache clear")
	c.Rule(T, "every ticket has a condition on its own lock and its own index as number, and every worker a number of its own above zero")
	m := c.requests(A)
	if m == nil {
		return
	}
	for _, t := range m.turns {
		c.answerTurn(A, m, t)
		c.fetchTurn(F, m, t)
	}
	for _, x := range m.methods {
		for _, p := range x.r.Paths {
			c.waitPath(W, D, A, m, x, p)
		}
	}
	c.tickets(T, m)
	c.clears(D, m)
	c.Need(A, 50)
	c.Need(F, 12)
	c.Need(W, 4)
	c.Need(D, 3)
	c.Need(T, 4)
}

func (c *Ctx) answerTurn(rule string, m *reqModel, t *turn) {
	p := t.p
	site := short(m.worker)
	if !m.real(t) {
		return
	}
	if !c.Check(len(t.answers) == 1, rule, t.recv.Pos, site, fmt.Sprintf("a request is answered %d times", len(t.answers)), p) {
		return
	}
	a := t.answers[0]
	e := p.EvalAt(a)
	ck := func(ok bool, why string) bool { return c.Check(ok, rule, a.Pos, site, why, p) }
	for _, ev := range t.events {
		if ev.Seq >= a.Seq {
			break
		}
		n := sn(ev.Callee)
		blocks := isFetch(ev) || ev.Kind == engine.EvSend || ev.Kind == engine.EvRecv || ev.Kind == engine.EvSelect && ev.Idx >= 0 ||
			ev.Kind == engine.EvCall && (in(n, "sync.Cond.Wait", "sync.WaitGroup.Wait", "time.Sleep") || strings.HasSuffix(n, ".Lock") && !cacheLock(ev))
		if blocks {
			ck(false, "a request is left unanswered while the worker does something that can block: "+firstOf(n, ev.Kind.String()))
		}
	}
	ent, lk, found := t.entryAt(e, a)
	mark := t.marker(a)
	if a.Kind == engine.EvClose {
		ok := found && lk != nil && (ent.data != nil && e.NonNil(ent.data) || ent.err != nil && e.NonNil(ent.err))
		ck(ok, "the reply channel is closed although the result may still be outstanding")
		return
	}
	idx, ok := ticketIdx(a.Args[1])
	if !ck(ok, "the answer is not a ticket of this requester: "+a.Args[1].String()) {
		return
	}
	switch {
	case mark != nil:
		num := entryOf(mark.Args[2]).num
		ck(num != nil && same(e, num, idx), "the ticket handed out is not that of the worker in the in-progress marker")
		ck(len(t.fetches) > 0, "hands out its own ticket without fetching")
	case found && lk != nil:
		done := ent.err != nil && !e.IsNil(ent.err)
		ck(!done, "a requester is made to wait for a result that has failed, so the failure is never retried")
		ck(ent.num != nil && same(e, ent.num, idx), "the ticket handed out is not that of the worker in the in-progress marker")
	default:
		ck(false, "a ticket is handed out although nothing is in progress")
	}
}

func firstOf(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// cacheLock: the lock of the object that holds a map, held only briefly.
func cacheLock(ev *evnt) bool {
	if len(ev.Args) == 0 {
		return false
	}
	t := unbox(ev.Args[0])
	if t.K != engine.KFieldAddr {
		return false
	}
	if pt, ok := t.Args[0].T.Underlying().(*types.Pointer); ok {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
					return true
				}
			}
		}
	}
	return false
}

// entryAt is the entry the turn last looked up before ev, and whether it is
// known to have been found.
func (t *turn) entryAt(e *eval, ev *evnt) (entry, *evnt, bool) {
	var lk *evnt
	for _, x := range t.lookups {
		if x.Seq < ev.Seq {
			lk = x
		}
	}
	if lk == nil {
		return entry{}, nil, false
	}
	v, known := e.Decide(lk.Ok)
	en := entryOf(lk.Res)
	found := known && v || en.data != nil && e.NonNil(en.data) || en.err != nil && e.NonNil(en.err)
	return en, lk, found
}

// marker is the in-progress marker this turn inserted before ev.
func (t *turn) marker(ev *evnt) *evnt {
	var out *evnt
	for _, x := range t.updates {
		if x.Seq < ev.Seq {
			out = x
		}
	}
	return out
}

func (c *Ctx) fetchTurn(rule string, m *reqModel, t *turn) {
	p := t.p
	site := short(m.worker)
	for _, u := range t.updates {
		// Every change to a cache is a marker or a publication.
		e := p.EvalAt(u)
		en := entryOf(u.Args[2])
		if en.data == nil && en.err == nil && en.num == nil {
			continue
		}
		ck := func(ok bool, why string) bool { return c.Check(ok, rule, u.Pos, site, why, p) }
		var fetch *evnt
		for _, f := range t.fetches {
			if f.Seq < u.Seq {
				fetch = f
			}
		}
		if fetch != nil {
			continue // publication, checked below
		}
		// The marker: looked up and inserted in one section.
		ck(e.IsNil(en.data) && e.IsNil(en.err), "publishes a result it has not fetched")
		lk := t.lookupIn(u)
		if !ck(lk != nil, "the in-progress marker is inserted in another critical section than the one that found no entry") {
			continue
		}
		v, known := e.Decide(lk.Ok)
		le := entryOf(lk.Res)
		ck(known && !v || le.err != nil && e.NonNil(le.err), "the in-progress marker replaces an entry that may be in progress")
		_ = le
	}
	for i, f := range t.fetches {
		e := p.EvalAt(f)
		ck := func(ok bool, why string) bool { return c.Check(ok, rule, f.Pos, site, why, p) }
		if i > 0 {
			ck(false, "one request is fetched twice")
			continue
		}
		mark := t.marker(f)
		if !ck(mark != nil, "fetches without having inserted an in-progress marker") {
			continue
		}
		_ = e
		var pub *evnt
		for _, u := range t.updates {
			if u.Seq > f.Seq && sameExpr(u.Args[0], mark.Args[0]) && same(p.EvalAt(u), u.Args[1], mark.Args[1]) {
				pub = u
			}
		}
		if !ck(pub != nil, "the outcome of the fetch is not published under the key of its marker on every path") {
			continue
		}
		for _, u := range t.updates {
			if u.Seq > f.Seq && u != pub {
				ck(false, "the outcome is published under another key")
			}
		}
		if h, ok := t.l.guards(pub, mapOwner(pub.Args[0])); !ok || !h.write {
			ck(false, "the outcome is published without the cache's lock")
		}
		// Woken after publication, ordered by the lock of the ticket.
		var wake *evnt
		for _, ev := range t.events {
			if evIs(ev, "sync.Cond.Broadcast") && ev.Seq > pub.Seq {
				own := condOwner(ev.Args[0])
				idx, ok := ticketIdx(own)
				num := entryOf(mark.Args[2]).num
				if ok && num != nil && same(p.EvalAt(ev), idx, num) {
					wake = ev
				}
			}
		}
		if !ck(wake != nil, "waiters are not all woken after the outcome was published") {
			continue
		}
		own := condOwner(wake.Args[0])
		ordered := false
		for _, ev := range t.events {
			if ev.Seq >= pub.Seq && ev.Seq <= wake.Seq {
				if _, ok := t.l.guards(ev, own); ok {
					ordered = true
				}
			}
		}
		ck(ordered, "the ticket's lock is not held at any point from publishing to waking, so a waiter can miss it")
	}
	// A marker without a fetch would never be finished.
	if len(t.updates) > 0 && len(t.fetches) == 0 {
		c.Check(false, rule, t.updates[0].Pos, site, "an in-progress marker is inserted but nothing is fetched", p)
	}
}

// lookupIn is the lookup under the same key in the same write-locked section.
func (t *turn) lookupIn(u *evnt) *evnt {
	return lookupBefore(t.p, t.l, t.lookups, u)
}

func lookupBefore(p *path, l *locking, lookups []*evnt, u *evnt) *evnt {
	h, ok := l.guards(u, mapOwner(u.Args[0]))
	if !ok || !h.write {
		return nil
	}
	var out *evnt
	for _, lk := range lookups {
		if lk.Seq > u.Seq || lk.Seq < h.since || !sameExpr(lk.Args[0], u.Args[0]) || !same(p.EvalAt(u), lk.Args[1], u.Args[1]) {
			continue
		}
		out = lk
	}
	return out
}

// waitPath checks the requester's side of a path.
func (c *Ctx) waitPath(W, D, A string, m *reqModel, x *method, p *path) {
	site := short(x.fn)
	l := c.lockset(p)
	var lookups []*evnt
	sent := map[*term]bool{}
	for _, ev := range p.Events {
		e := p.EvalAt(ev)
		switch ev.Kind {
		case engine.EvLookup:
			lookups = append(lookups, ev)
		case engine.EvSend:
			if _, ok := workElem(ev.Args[0].T); !ok {
				continue
			}
			w := c.workValue(p, ev)
			ch := fieldBy(w, isChanT)
			ok := ch != nil && ch.K == engine.KMake && len(ch.Args) > 0
			if c.Check(ok, A, ev.Pos, site, "the reply channel is not one made for this request", p) {
				lo, known := e.Canon(ch.Args[0]).IntVal()
				c.Check(known && lo >= 1, A, ev.Pos, site, "the reply channel has no room for the answer: the worker would wait for a requester that may have given up", p)
				c.Check(!sent[ch], A, ev.Pos, site, "a reply channel is used for two requests", p)
				sent[ch] = true
				made := false
				for _, mk := range p.Events {
					if mk.Kind == engine.EvMake && mk.Res == ch {
						made = true
					}
				}
				c.Check(made, A, ev.Pos, site, "the reply channel is not one made for this request", p)
			}
		case engine.EvMapUpdate:
			c.Check(false, D, ev.Pos, site, "a requester changes the cache itself", p)
		case engine.EvMapDelete:
			lk := lookupBefore(p, l, lookups, ev)
			ok := false
			if lk != nil {
				en := entryOf(lk.Res)
				ok = en.err != nil && e.NonNil(en.err) || en.data != nil && e.NonNil(en.data)
			}
			c.Check(ok, D, ev.Pos, site, "removes an entry that may be in progress", p)
		case engine.EvCall:
			if !evIs(ev, "sync.Cond.Wait") {
				continue
			}
			own := condOwner(ev.Args[0])
			h, ok := l.guards(ev, own)
			if !c.Check(ok && own != nil, W, ev.Pos, site, "waits without holding the ticket's lock", p) {
				continue
			}
			var lk *evnt
			for _, y := range lookups {
				if y.Seq > h.since {
					lk = y
				}
			}
			if !c.Check(lk != nil, W, ev.Pos, site, "waits without having looked for the result since it took the ticket's lock", p) {
				continue
			}
			en, found := c.carriedEntry(W, x, p, l, lk, ev)
			c.Check(en.data != nil && e.IsNil(en.data) && e.IsNil(en.err), W, ev.Pos, site, "waits although the result may be there already", p)
			v, known := e.Decide(found)
			pending := known && v
			// An entry with the ticket's (non-zero) number exists.
			numEq := false
			for _, f := range p.Facts.Slice() {
				if f.Pol && f.T.K == engine.KBin && f.T.Op.String() == "==" {
					a, b := f.T.Args[0], f.T.Args[1]
					if a != en.num {
						a, b = b, a
					}
					if a == en.num && isTicketNum(b, own) {
						numEq = true
					}
				}
			}
			c.Check(numEq, W, ev.Pos, site, "waits on a ticket of a worker that is not the one working on the result", p)
			c.Check(pending || numEq && nonZeroNum(p, ev, own), W, ev.Pos, site, "waits although nothing is in progress", p)
			// It comes from the answer to its own request.
			r := own
			c.Check(r.K == engine.KRecv && sent[r.Args[0]], W, ev.Pos, site, "waits on a ticket that is not the answer to its request", p)
			// And looks again.
			again := p.Exit != "return"
			for _, y := range p.Events {
				if y.Seq > ev.Seq && (y.Kind == engine.EvLookup || y.Kind == engine.EvLoop && y.Idx == 3) {
					again = true
				}
			}
			c.Check(again, W, ev.Pos, site, "does not look for the result again after waiting", p)
		}
	}
}

// carriedEntry is what lk found, as known at ev: if a loop begins in between,
// the variables that carry it round, which must hold what was found last every
// time round.
func (c *Ctx) carriedEntry(rule string, x *method, p *path, l *locking, lk, ev *evnt) (entry, *term) {
	en, found := entryOf(lk.Res), lk.Ok
	var head *evnt
	for _, y := range p.Events {
		if y.Kind == engine.EvLoop && y.Idx == 2 && y.Seq > lk.Seq && y.Seq < ev.Seq {
			head = y
		}
	}
	if head == nil {
		return en, found
	}
	// Incoming on later rounds: what the lookup after waiting found.
	again := func(mu *term, part func(*evnt) *term) bool {
		for _, q := range x.r.Paths {
			var last *evnt
			for _, y := range q.Events {
				switch {
				case y.Kind == engine.EvLookup && entryMap(y.Args[0].T):
					last = y
				case evIs(y, "sync.Cond.Wait"):
					last = nil
				case y.Kind == engine.EvLoop && y.Cells[mu] != nil:
					if last == nil || y.Cells[mu] != part(last) {
						return false
					}
				}
			}
		}
		return true
	}
	pick := func(part func(*evnt) *term) *term {
		v := part(lk)
		for mu, in := range head.Cells {
			if in == v && mu.K == engine.KMu && again(mu, part) {
				return mu
			}
		}
		return v
	}
	en.data = pick(func(y *evnt) *term { return entryOf(y.Res).data })
	en.err = pick(func(y *evnt) *term { return entryOf(y.Res).err })
	en.num = pick(func(y *evnt) *term { return entryOf(y.Res).num })
	found = pick(func(y *evnt) *term { return y.Ok })
	return en, found
}

// isTicketNum: t reads the number of the ticket own.
func isTicketNum(t, own *term) bool {
	return t != nil && t.K == engine.KLoad && t.Args[0].K == engine.KFieldAddr && t.Args[0].Args[0] == own && isNumT(t.T)
}

func nonZeroNum(p *path, at *evnt, own *term) bool {
	for _, f := range p.Facts.Slice() {
		if !f.Pol && f.T.K == engine.KBin && f.T.Op.String() == "==" && isTicketNum(f.T.Args[0], own) && f.T.Args[1].Is(0) {
			return true
		}
	}
	return false
}

// tickets checks how New and Start set tickets and workers up.
func (c *Ctx) tickets(rule string, m *reqModel) {
	fn := c.Fn(rule, reqPkg, "New")
	if fn == nil {
		return
	}
	r := c.Explore(rule, fn)
	n := 0
	for _, p := range r.Paths {
		if p.Exit != "return" || len(p.Ret) == 0 {
			continue
		}
		var tickets *term
		for _, ev := range p.Events {
			if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KFieldAddr && ev.Args[0].Args[0] == unbox(p.Ret[0]) {
				if sl, ok := ev.Args[1].T.Underlying().(*types.Slice); ok && len(mutexField(sl.Elem())) > 0 {
					tickets = ev.Args[1]
				}
			}
		}
		if !c.Check(tickets != nil, rule, p.Pos, short(fn), "no tickets are made", p) {
			continue
		}
		n++
		e := p.Eval()
		elemBase := func(a *term, q *path, qe *eval) (b, i *term, ok bool) { // &tickets[i].f, or tickets[i].f through a pointer
			if a.K != engine.KFieldAddr {
				return nil, nil, false
			}
			b = a.Args[0]
			if b.K == engine.KIndexAddr && same(e, b.Args[0], tickets) {
				return b, b.Args[1], true
			}
			if b.K == engine.KAlloc { // a ticket of its own, stored by pointer
				for _, ev := range q.Events {
					if ev.Kind == engine.EvStore && unbox(ev.Args[1]) == b {
						if x := ev.Args[0]; x.K == engine.KIndexAddr && same(e, x.Args[0], tickets) && i == nil {
							i = x.Args[1]
						} else {
							return nil, nil, false
						}
					}
				}
				return b, i, i != nil
			}
			return nil, nil, false
		}
		est := func(q *path, qe *eval, facts []engine.Fact) []*term {
			cv := map[*term]bool{}
			num := map[*term]bool{}
			for _, ev := range q.Events {
				if ev.Kind != engine.EvStore {
					continue
				}
				b, i, ok := elemBase(ev.Args[0], q, qe)
				if !ok {
					continue
				}
				v := ev.Args[1]
				if k, ok := isRes(unbox(v), 0, "sync.NewCond"); ok {
					mu := unbox(k.Args[0])
					cv[i] = mu.K == engine.KFieldAddr && mu.Args[0] == b && isMutex(mu.Var.Type())
				}
				if isNumT(v.T) {
					num[i] = same(qe, strip(v), i)
				}
			}
			var out []*term
			for i, ok := range cv {
				if ok && num[i] {
					out = append(out, i)
				}
			}
			return out
		}
		zero := r.TT.Int(0)
		hi := r.TT.Len(tickets)
		c.Check(c.forall(r, p, zero, hi, est), rule, p.Pos, short(fn), "not every ticket has a condition on its own lock and its own index as number", p)
	}
	c.Check(n > 0, rule, fn.Pos(), short(fn), "tickets are not set up here", nil)
	// No ticket is set up or renumbered elsewhere.
	for _, f := range c.P.Funcs {
		pk := engine.PkgOf(f)
		if pk == nil || !strings.HasSuffix(pk.Path(), "/"+reqPkg) || engine.IsFake(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || len(mutexField(fa.X.Type())) == 0 || engine.TypeKey(fa.X.Type()) != repoPath+"/requester.workTicket" {
					continue
				}
				in := true
				for _, x := range c.roots(f) {
					in = in && x == fn
				}
				c.Check(in, rule, st.Pos(), short(f), "changes a ticket after it was set up", nil)
			}
		}
	}
	// Worker numbers.
	st := c.Fn(rule, reqPkg, "Requester.Start")
	if st == nil {
		return
	}
	sr := c.Explore(rule, st)
	var nums []*term
	for _, p := range sr.Paths {
		for _, g := range p.Events {
			if g.Kind != engine.EvGo {
				continue
			}
			f, _ := started(g)
			if f != m.worker && !c.receivesWork(f, 3) {
				continue
			}
			var num *term
			for _, a := range g.Args {
				if a != nil && isNumT(a.T) {
					num = a
				}
			}
			if !c.Check(num != nil, rule, g.Pos, short(st), "a worker is started without a number of its own", p) {
				continue
			}
			e := p.EvalAt(g)
			nums = append(nums, num)
			c.Check(e.AtMost(sr.TT.Int(1), num, 0), rule, g.Pos, short(st), "a worker may get the number zero, which no requester waits for", p)
			// Distinct from all others: a loop counter that only grows.
			c.Check(counter(sr, num), rule, g.Pos, short(st), "two workers may get the same number", p)
		}
	}
	c.Check(len(nums) > 0, rule, st.Pos(), short(st), "no worker is started", nil)
}

// counter: t is (an offset of) the counter of a loop that adds a positive
// constant each time round, or its first value.
func counter(r *res, t *term) bool {
	b, _ := engine.Lin(t)
	if b == nil || b.K != engine.KMu {
		_, isC := t.IntVal()
		return isC
	}
	grows := false
	for _, v := range r.Cands(b) {
		x, k := engine.Lin(v)
		if x == b && k > 0 {
			grows = true
			continue
		}
		if x == b && k <= 0 {
			return false
		}
	}
	return grows
}

// clears: outside the worker and the requesting methods, caches only change
// through the explicit clearing of all entries.
func (c *Ctx) clears(rule string, m *reqModel) {
	covered := map[*ssa.Function]bool{}
	for f := range m.wr.Funcs {
		covered[f] = true
	}
	for _, x := range m.methods {
		for f := range x.r.Funcs {
			covered[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		pk := engine.PkgOf(f)
		if pk == nil || !strings.HasSuffix(pk.Path(), "/"+reqPkg) || engine.IsFake(f) || covered[f] {
			continue
		}
		touches := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case *ssa.MapUpdate:
					touches = touches || entryMap(y.Map.Type())
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						touches = touches || entryMap(y.Call.Args[0].Type())
					}
				}
			}
		}
		if !touches {
			continue
		}
		roots := c.roots(f)
		for _, x := range roots {
			if recv := x.Signature.Recv(); recv != nil && engine.TypeKey(recv.Type()) != repoPath+"/requester.Requester" && len(c.P.Callers(x)) > 0 {
				// A method of the cache: judged by its callers.
				for _, call := range c.P.Callers(x) {
					if !engine.IsFake(call.Parent()) {
						c.Check(call.Parent().Name() == "ClearCache", rule, call.Pos(), short(call.Parent()), "changes a cache outside the worker and the requesting methods", nil)
					}
				}
				continue
			}
			c.Check(x.Name() == "ClearCache" || len(c.P.Callers(x)) == 0 && !c.isAPI(x), rule, x.Pos(), short(x), "changes a cache outside the worker and the requesting methods", nil)
		}
	}
	// And nobody clears the caches while serving.
	if fn := c.P.Func(reqPkg, "Requester.ClearCache"); fn != nil {
		for _, call := range c.P.Callers(fn) {
			if !engine.IsFake(call.Parent()) {
				c.Pass(rule, "ClearCache called by "+short(call.Parent()))
			}
		}
	}
}

// isAPI: a method other packages use the requester through.
func (c *Ctx) isAPI(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	return recv != nil && engine.TypeKey(recv.Type()) == repoPath+"/requester.Requester"
}

func entryMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	st, ok := m.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isErrT(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func sortedKinds(m map[int64]*method) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
