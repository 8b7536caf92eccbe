package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// place names where a value comes from, below root: ".fileCache.m". Loads at
// different times have the same place.
func place(t, root *term) (string, bool) {
	t = unbox(t)
	if t == nil {
		return "", false
	}
	if t == root {
		return "", true
	}
	switch t.K {
	case engine.KLoad:
		return place(t.Args[0], root)
	case engine.KFieldAddr, engine.KField:
		s, ok := place(t.Args[0], root)
		return s + "." + t.Var.Name(), ok
	case engine.KIndexAddr, engine.KIndex, engine.KLookup:
		s, ok := place(t.Args[0], root)
		if ok && t.Args[1].K == engine.KConst {
			return s + "[" + t.Args[1].String() + "]", true
		}
	}
	return "", false
}

// functional library calls have the same result for the same arguments.
func functional(callee string) bool {
	n := sn(callee)
	for _, p := range []string{"fmt.Sprint", "hex.EncodeToString", "base64.Encoding.EncodeToString", "strconv.", "strings.", "filepath.", "path.", "bytes.", "sha256.Sum256", "sha512.Sum512"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// sameExpr: the two terms are the same expression, whenever they were computed.
func sameExpr(a, b *term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = unbox(a), unbox(b)
	if a == b {
		return true
	}
	if a.K != b.K || len(a.Args) != len(b.Args) || a.Op != b.Op || a.Idx != b.Idx && a.K != engine.KLoad || a.Var != b.Var {
		return false
	}
	switch a.K {
	case engine.KConv, engine.KBin, engine.KLen, engine.KSlice, engine.KIndex, engine.KField, engine.KStruct, engine.KFieldAddr, engine.KIndexAddr, engine.KLoad, engine.KExtract, engine.KAppend:
		if a.K == engine.KConv && !types.Identical(a.T, b.T) {
			return false
		}
	case engine.KCall:
		if a.Callee != b.Callee || !functional(a.Callee) {
			return false
		}
	default:
		return false
	}
	for i := range a.Args {
		if !sameExpr(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

func runC11(c *Ctx) {
	const K, P, R, S, D, J = "same-key", "publish", "result", "retry", "caches", "key-injective"
	c.Rule(K, "for each kind of request, the worker looks in the same cache under the same key as the requester, and fetches with the requester's own operation and arguments")
	c.Rule(P, "every outcome is published: a failed fetch as its error without data, a successful one as its result without error")
	c.Rule(R, "a request succeeds only with data found under its own key, and fails only with the error found there or one made for the purpose, never with data")
	c.Rule(S, "a failed result that is found is removed, or seen to be gone, before the request is repeated or given up, unless the worker itself replaces failed results")
	c.Rule(D, "every kind of request has a cache of its own, set when the requester is made and never exchanged")
	c.Rule(J, "the key under which a result is kept determines all arguments of the request")
	m := c.requests(K)
	if m == nil {
		return
	}
	places := map[string]string{}
	for _, x := range m.methods {
		pl, key := c.requesterKey(K, m, x)
		if pl == "" {
			continue
		}
		if o, dup := places[pl]; dup {
			c.Check(false, D, x.fn.Pos(), short(x.fn), "shares its cache with "+o, nil)
		}
		places[pl] = short(x.fn)
		if c.Check(x.work != nil, K, x.fn.Pos(), short(x.fn), "no request is put into the queue", nil) {
			c.workerKey(K, P, m, x, pl, key)
			c.injective(J, m, x, key)
		}
		replaces := c.workerReplaces(m, x)
		for _, p := range x.r.Paths {
			c.resultPath(R, m, x, p, key)
			if !replaces {
				c.retryPath(S, m, x, p)
			}
		}
	}
	c.ownCaches(D, m, places)
	c.Need(K, 30)
	c.Need(P, 6)
	c.Need(R, 30)
	c.Need(D, 4)
	c.Need(J, 1)
}

// requesterKey is the one cache and key a requesting method uses.
func (c *Ctx) requesterKey(rule string, m *reqModel, x *method) (string, *term) {
	var pl string
	var key *term
	for _, p := range x.r.Paths {
		for _, ev := range p.Events {
			if ev.Kind != engine.EvLookup && ev.Kind != engine.EvMapDelete || !entryMap(ev.Args[0].T) {
				continue
			}
			q, ok := place(ev.Args[0], m.recv)
			if !c.Check(ok, rule, ev.Pos, short(x.fn), "looks in a map that is not one of the requester's caches: "+ev.Args[0].String(), p) {
				continue
			}
			if key == nil {
				pl, key = q, ev.Args[1]
			}
			c.Check(q == pl, rule, ev.Pos, short(x.fn), "looks in two different caches: "+q+" and "+pl, p)
			c.Check(sameExpr(key, ev.Args[1]), rule, ev.Pos, short(x.fn), "looks under two different keys: "+ev.Args[1].String()+" and "+key.String(), p)
		}
	}
	c.Check(key != nil, rule, x.fn.Pos(), short(x.fn), "does not look for a cached result", nil)
	return pl, key
}

// workerKey compares the worker's side with the requester's.
func (c *Ctx) workerKey(K, P string, m *reqModel, x *method, pl string, key *term) {
	// What is sent is the same on every path but for the reply channel.
	for _, p := range x.r.Paths {
		for _, ev := range p.Events {
			if ev.Kind != engine.EvSend {
				continue
			}
			if _, ok := workElem(ev.Args[0].T); !ok {
				continue
			}
			w := c.workValue(p, ev)
			for i := range w.Args {
				if isChanT(w.Args[i].T) {
					continue
				}
				c.Check(sameExpr(w.Args[i], x.work.Args[i]), K, ev.Pos, short(x.fn), "sends different requests: "+w.String()+" and "+x.work.String(), p)
			}
		}
	}
	n := 0
	for _, t := range m.turns {
		k, ok := m.kindOf(t)
		if !ok || k != x.kind {
			continue
		}
		n++
		site := short(m.worker)
		p := t.p
		req := t.recv.Res
		if !c.Check(req != nil && req.K == engine.KStruct && len(req.Args) == len(x.work.Args), K, t.recv.Pos, site, "cannot follow the request", p) {
			continue
		}
		sub := func(v *term) *term {
			return m.tt.Subst(v, func(y *term) *term {
				for i := range req.Args {
					if y == req.Args[i] {
						return x.work.Args[i]
					}
				}
				return nil
			})
		}
		for _, ev := range t.events {
			switch {
			case (ev.Kind == engine.EvLookup || ev.Kind == engine.EvMapUpdate || ev.Kind == engine.EvMapDelete) && entryMap(ev.Args[0].T):
				q, ok := place(ev.Args[0], m.recv)
				c.Check(ok && q == pl, K, ev.Pos, site, fmt.Sprintf("the worker uses cache %s for a request of %s, which uses %s", firstOf(q, ev.Args[0].String()), short(x.fn), pl), p)
				c.Check(sameExpr(sub(ev.Args[1]), key), K, ev.Pos, site, fmt.Sprintf("the worker uses key %s for a request of %s, which uses %s", sub(ev.Args[1]), short(x.fn), key), p)
			case isFetch(ev):
				op := ev.Callee[strings.LastIndexByte(ev.Callee, '.')+1:]
				c.Check(op == x.fn.Name(), K, ev.Pos, site, "a request of "+short(x.fn)+" is carried out with "+sn(ev.Callee), p)
				_, ok := place(ev.Args[0], m.recv)
				c.Check(ok, K, ev.Pos, site, "the request is not carried out by the requester's own backend or decrypter", p)
				okArgs := len(ev.Args) == len(x.r.Params)
				for i := 1; okArgs && i < len(ev.Args); i++ {
					okArgs = sub(ev.Args[i]) == x.r.Params[i]
				}
				c.Check(okArgs, K, ev.Pos, site, "the request is carried out with other arguments than those given to "+short(x.fn), p)
				c.published(P, m, x, t, ev)
			}
		}
	}
	c.Check(n > 0, K, m.worker.Pos(), short(m.worker), "requests of "+short(x.fn)+" are not handled", nil)
}

// published checks what becomes of a fetch.
func (c *Ctx) published(rule string, m *reqModel, x *method, t *turn, f *evnt) {
	p := t.p
	told := p.Exit == "panic" || p.Exit == "exit"
	for _, ev := range p.Events {
		told = told || ev.Seq > f.Seq && (ev.Kind == engine.EvMapUpdate || ev.Kind == engine.EvMapDelete) && entryMap(ev.Args[0].T)
	}
	c.Check(told, rule, f.Pos, short(m.worker), "the outcome of a fetch is not published, so that the request stays pending for ever", p)
	for _, u := range t.updates {
		if u.Seq < f.Seq {
			continue
		}
		e := p.EvalAt(u)
		en := entryOf(u.Args[2])
		if !c.Check(en.data != nil && en.err != nil, rule, u.Pos, short(m.worker), "cannot follow what is published", p) {
			continue
		}
		ferr := m.tt.Extract(f.Res, 1)
		fval := m.tt.Extract(f.Res, 0)
		switch {
		case e.NonNil(ferr):
			c.Check(e.IsNil(en.data), rule, u.Pos, short(m.worker), "data is published for a failed fetch", p)
			c.Check(same(e, en.err, ferr) || e.NonNil(en.err), rule, u.Pos, short(m.worker), "a failed fetch is published as no failure", p)
		case e.IsNil(ferr):
			d := en.data
			c.Check(d.K == engine.KIface && d.Args[0] == fval, rule, u.Pos, short(m.worker), "what is published is not what was fetched: "+d.String(), p)
			c.Check(e.IsNil(en.err), rule, u.Pos, short(m.worker), "an error is published for a successful fetch", p)
			if d.K == engine.KIface {
				c.Check(types.Identical(d.T, x.fn.Signature.Results().At(0).Type()), rule, u.Pos, short(m.worker), "what is published is not of the type "+short(x.fn)+" returns", p)
			}
		default:
			c.Check(false, rule, u.Pos, short(m.worker), "published without having looked whether the fetch failed", p)
		}
	}
}

// underKey: the field (of an entry) of a lookup of this method, through loop
// variables; all its lookups are under its key.
func (c *Ctx) lookupField(x *method, t *term, want func(types.Type) bool) bool {
	ok, n := true, 0
	for _, v := range x.r.Values(t) {
		if v.K == engine.KNil {
			continue
		}
		n++
		if v.K != engine.KField || !want(v.Var.Type()) || v.Args[0].K != engine.KLookup && v.Args[0].K != engine.KMu {
			ok = false
		}
		if ok && v.Args[0].K == engine.KMu {
			for _, y := range x.r.Values(v.Args[0]) {
				if y.K != engine.KLookup && y.K != engine.KZero && y.K != engine.KStruct {
					ok = false
				}
			}
		}
	}
	return ok && n > 0
}

func (c *Ctx) resultPath(rule string, m *reqModel, x *method, p *path, key *term) {
	if p.Exit == "panic" {
		c.Check(false, rule, p.Pos, short(x.fn), "a request may end in a panic", p)
		return
	}
	if p.Exit != "return" || len(p.Ret) != 2 {
		return
	}
	e := p.Eval()
	site := short(x.fn)
	val, err := p.Ret[0], p.Ret[1]
	for _, f := range p.Facts.Slice() {
		// What is cached under its key is of the type that is fetched.
		if !f.Pol && f.T.K == engine.KAssertOk && types.Identical(f.T.T, x.fn.Signature.Results().At(0).Type()) && c.lookupField(x, f.T.Args[0], isAnyT) && e.NonNil(f.T.Args[0]) {
			return
		}
	}
	ck := func(ok bool, why string) bool { return c.Check(ok, rule, p.Pos, site, why, p) }
	switch {
	case e.IsNil(err):
		ok := val.K == engine.KAssert && c.lookupField(x, val.Args[0], isAnyT)
		if ck(ok, "succeeds with something that was not found under its key: "+val.String()) {
			ck(e.NonNil(val.Args[0]), "succeeds although no data may have been found")
		}
	case e.NonNil(err):
		zero := val.K == engine.KNil || val.K == engine.KZero
		if s, ok := val.StrVal(); ok && s == "" {
			zero = true
		}
		ck(zero, "returns data together with an error")
		own := c.lookupField(x, err, isErrT)
		ck(own || madeErr(err) || allMade(x, err), "fails with an error that belongs to something else: "+err.String())
		// The error found last is the one to report.
		if lk := lastReadLookup(c, p); lk != nil && answered(p) {
			en := entryOf(lk.Res)
			if en.err != nil && e.NonNil(en.err) {
				ck(own || carried(c, p, e, lk), "a failed fetch is reported as something else: "+err.String()+" "+fmt.Sprint(p.R.Values(err)))
			}
		}
	default:
		ck(false, "may return neither a result nor an error: "+err.String())
	}
}

// madeErr: an error made here.
func madeErr(t *term) bool {
	t = unbox(t)
	if t == nil {
		return false
	}
	if t.K == engine.KAlloc || t.K == engine.KStruct || t.K == engine.KLoad && t.Args[0].K == engine.KGlobal {
		return true
	}
	_, _, ok := isCall(t, "errors.New", "fmt.Errorf", "errors.Wrap", "errors.Wrapf", "errors.Errorf")
	return ok
}

func allMade(x *method, t *term) bool {
	for _, v := range x.r.Values(t) {
		if v.K != engine.KNil && !madeErr(v) && !(v.K == engine.KField && isErrT(v.Var.Type())) {
			return false
		}
	}
	return true
}

// carried: the failure lk found is kept round the loop, in a variable that the
// path, having forgotten which values it can have, takes to be empty.
func carried(c *Ctx, p *path, e *eval, lk *evnt) bool {
	for _, ev := range p.Events {
		if ev.Kind != engine.EvLoop || ev.Seq < lk.Seq {
			continue
		}
		for mu, v := range ev.Cells {
			if mu.K != engine.KMu || !isErrT(mu.T) || !e.IsNil(mu) {
				continue
			}
			if v.K == engine.KField && isErrT(v.T) && p.EvalAt(ev).NonNil(v) {
				return true
			}
		}
	}
	return false
}

// lastReadLookup is the last lookup not made in order to remove the entry.
func lastReadLookup(c *Ctx, p *path) *evnt {
	l := c.lockset(p)
	var out *evnt
	for _, ev := range p.Events {
		if ev.Kind == engine.EvLookup && entryMap(ev.Args[0].T) {
			if h, ok := l.guards(ev, mapOwner(ev.Args[0])); ok && h.write {
				continue
			}
			out = ev
		}
	}
	return out
}

// answered: the last request of the path was answered.
func answered(p *path) bool {
	ok := false
	for _, ev := range p.Events {
		switch ev.Kind {
		case engine.EvSend:
			if _, w := workElem(ev.Args[0].T); w {
				ok = false
			}
		case engine.EvRecv:
			if ch, is := ev.Args[0].T.Underlying().(*types.Chan); is && len(mutexField(ch.Elem())) > 0 {
				ok = true
			}
		}
	}
	return ok
}

// workerReplaces: the worker never answers with a failed result, but fetches anew.
func (c *Ctx) workerReplaces(m *reqModel, x *method) bool {
	for _, t := range m.turns {
		if k, ok := m.kindOf(t); !ok || k != x.kind {
			continue
		}
		for _, a := range t.answers {
			if a.Kind != engine.EvClose {
				continue
			}
			e := t.p.EvalAt(a)
			en, lk, found := t.entryAt(e, a)
			if lk == nil || !found || en.data == nil || !e.NonNil(en.data) {
				return false
			}
		}
	}
	return true
}

// retryPath: a failed result does not stay.
func (c *Ctx) retryPath(rule string, m *reqModel, x *method, p *path) {
	l := c.lockset(p)
	var pend *evnt // the lookup that may have found a failed result
	closed := false
	done := func(at *evnt, pos bool) {
		if pend != nil {
			q := pend.Pos
			c.Check(false, rule, q, short(x.fn), "a failed result found here stays in the cache, so that the request never gets a new attempt", p)
		}
		pend = nil
		closed = false
	}
	for _, ev := range p.Events {
		e := p.Eval()
		switch ev.Kind {
		case engine.EvRecv:
			if ch, is := ev.Args[0].T.Underlying().(*types.Chan); is && len(mutexField(ch.Elem())) > 0 {
				if v, known := e.Decide(ev.Ok); known && !v {
					closed = true
				}
			}
		case engine.EvLookup:
			if !entryMap(ev.Args[0].T) || !closed {
				continue
			}
			en := entryOf(ev.Res)
			if h, ok := l.guards(ev, mapOwner(ev.Args[0])); ok && h.write {
				// Looked again: gone, or not failed.
				if v, known := e.Decide(ev.Ok); known && !v || en.err != nil && e.IsNil(en.err) {
					if pend != nil {
						c.Pass(rule, short(x.fn))
					}
					pend, closed = nil, false
				}
				continue
			}
			v, known := e.Decide(ev.Ok)
			if known && !v || en.data != nil && e.NonNil(en.data) || en.err != nil && e.IsNil(en.err) {
				pend, closed = nil, false
				continue
			}
			pend = ev
		case engine.EvMapDelete:
			if pend != nil {
				c.Pass(rule, short(x.fn))
			}
			pend, closed = nil, false
		case engine.EvSend:
			if _, w := workElem(ev.Args[0].T); w {
				done(ev, true)
			}
		}
	}
	if p.Exit == "return" || p.Exit == "cut" {
		done(nil, false)
	}
}

// ownCaches: each cache is made for itself and stays.
func (c *Ctx) ownCaches(rule string, m *reqModel, places map[string]string) {
	fn := c.Fn(rule, reqPkg, "New")
	if fn == nil {
		return
	}
	r := c.Explore(rule, fn)
	vars := map[*types.Var]bool{}
	for _, p := range r.Paths {
		if p.Exit != "return" || len(p.Ret) == 0 {
			continue
		}
		obj := unbox(p.Ret[0])
		seen := map[*term]string{}
		for pl, user := range places {
			v := obj
			ok := true
			for _, f := range strings.Split(strings.TrimPrefix(pl, "."), ".") {
				var nv *term
				for _, ev := range p.Events {
					if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KFieldAddr && ev.Args[0].Args[0] == v && ev.Args[0].Var.Name() == f {
						nv = unbox(ev.Args[1])
						vars[ev.Args[0].Var] = true
					}
				}
				if nv == nil {
					// An embedded struct.
					if a := fieldAddrOf(r, p, v, f); a != nil {
						nv = a
					}
				}
				if nv == nil {
					ok = false
					break
				}
				v = nv
			}
			ok = ok && v.K == engine.KMake
			if !c.Check(ok, rule, p.Pos, short(fn), "the cache "+pl+" is not made for this requester", p) {
				continue
			}
			if o, dup := seen[v]; dup {
				c.Check(false, rule, p.Pos, short(fn), user+" and "+o+" share one cache", p)
			}
			seen[v] = user
			c.Pass(rule, pl)
		}
	}
	for _, f := range c.P.Funcs {
		if engine.IsFake(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := structVar(fa)
				if fv == nil || !vars[fv] || r.Funcs[f] || f == fn {
					continue
				}
				_, fresh := st.Val.(*ssa.MakeMap)
				_, isMap := fv.Type().Underlying().(*types.Map)
				c.Check(fresh && isMap, rule, st.Pos(), short(f), "exchanges a cache", nil)
			}
		}
	}
	// Where the backend and the decrypter come from.
	n := 0
	for _, p := range r.Paths {
		for _, ev := range p.Events {
			if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KFieldAddr && types.IsInterface(ev.Args[0].Var.Type()) && len(p.Ret) > 0 && ev.Args[0].Args[0] == unbox(p.Ret[0]) {
				n++
				c.Check(ev.Args[1].K == engine.KParam, rule, ev.Pos, short(fn), "requests are not carried out by what New is given", p)
			}
		}
	}
	c.Check(n >= 2, rule, fn.Pos(), short(fn), "the backend and the decrypter are not kept", nil)
}

func fieldAddrOf(r *res, p *path, base *term, name string) *term {
	for _, ev := range p.Events {
		for _, a := range ev.Args {
			if a != nil && a.K == engine.KFieldAddr && a.Args[0].K == engine.KFieldAddr && a.Args[0].Args[0] == base && a.Args[0].Var.Name() == name {
				return a.Args[0]
			}
		}
	}
	return nil
}

func structVar(fa *ssa.FieldAddr) *types.Var {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// piece is a part of a string being put together.
type piece struct {
	lit   string
	arg   *term  // the value it shows
	alpha string // characters it may consist of; "" means any
	self  bool   // delimits itself
}

const hexLower, hexUpper, digits = "0123456789abcdef", "0123456789ABCDEF", "-0123456789"

// strPieces takes a string expression apart.
func strPieces(t *term) ([]piece, bool) {
	t = unbox(t)
	if s, ok := t.StrVal(); ok {
		return []piece{{lit: s}}, true
	}
	switch t.K {
	case engine.KBin:
		if t.Op == tokAdd {
			a, ok1 := strPieces(t.Args[0])
			b, ok2 := strPieces(t.Args[1])
			return append(append([]piece{}, a...), b...), ok1 && ok2
		}
	case engine.KConv:
		return []piece{{arg: strip(t)}}, true
	case engine.KCall:
		switch sn(t.Callee) {
		case "hex.EncodeToString":
			return []piece{{arg: strip(t.Args[0]), alpha: hexLower}}, true
		case "base64.Encoding.EncodeToString":
			return []piece{{arg: strip(t.Args[1]), alpha: "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_="}}, true
		case "strconv.Quote":
			return []piece{{arg: strip(t.Args[0]), self: true}}, true
		case "strconv.Itoa":
			return []piece{{arg: strip(t.Args[0]), alpha: digits}}, true
		case "fmt.Sprintf":
			f, ok := t.Args[0].StrVal()
			if !ok {
				return nil, false
			}
			return formatPieces(f, t.Args[1:])
		}
		return nil, false
	case engine.KParam:
		return []piece{{arg: t}}, true
	}
	return nil, false
}

func formatPieces(f string, args []*term) ([]piece, bool) {
	var out []piece
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, piece{lit: string(f[i])})
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			out = append(out, piece{lit: "%"})
			continue
		}
		for i < len(f) && strings.IndexByte("0123456789.", f[i]) >= 0 {
			if f[i] == '.' {
				return nil, false // truncates
			}
			i++
		}
		if i >= len(f) || len(args) == 0 {
			return nil, false
		}
		a := unbox(args[0])
		args = args[1:]
		v := a
		if a.K == engine.KConv {
			v = a.Args[0]
		}
		isInt := isNumT(a.T)
		switch f[i] {
		case 'x':
			out = append(out, piece{arg: v, alpha: hexLower})
		case 'X':
			out = append(out, piece{arg: v, alpha: hexUpper})
		case 'd':
			if !isInt {
				// A slice of bytes is shown in brackets.
				out = append(out, piece{arg: v, alpha: digits + " []"})
			} else {
				out = append(out, piece{arg: v, alpha: digits})
			}
		case 'q':
			out = append(out, piece{arg: v, self: true})
		case 's', 'v':
			switch {
			case isInt:
				out = append(out, piece{arg: v, alpha: digits})
			case f[i] == 'v' && !isStrT(a.T):
				out = append(out, piece{arg: v, alpha: digits + " []"})
			default:
				out = append(out, piece{arg: v})
			}
		default:
			return nil, false
		}
	}
	if len(args) > 0 {
		return nil, false
	}
	return out, true
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// injective: the key tells all arguments of the request apart.
func (c *Ctx) injective(rule string, m *reqModel, x *method, key *term) {
	need := x.r.Params[1:]
	got := map[*term]bool{}
	why := ""
	if key.K == engine.KStruct {
		for _, a := range key.Args {
			got[strip(a)] = true
		}
	} else {
		ps, ok := strPieces(key)
		if !ok {
			why = "cannot follow how the key is made: " + key.String()
		}
		// Merge literals.
		var l []piece
		for _, p := range ps {
			if n := len(l); p.arg == nil && n > 0 && l[n-1].arg == nil {
				l[n-1].lit += p.lit
				continue
			}
			l = append(l, p)
		}
		lens := map[*term]bool{}
		// Peel off what can be told apart from either end.
		for len(l) > 0 && why == "" {
			f := l[0]
			if f.arg == nil {
				l = l[1:]
				continue
			}
			if z := l[len(l)-1]; z.arg == nil {
				l = l[:len(l)-1]
				if len(l) > 0 && l[len(l)-1].alpha == "" || len(l) == 0 {
					continue
				}
				continue
			}
			take := func(p piece) {
				got[p.arg] = true
				if p.arg.K == engine.KLen {
					lens[p.arg.Args[0]] = true
				}
			}
			switch {
			case len(l) == 1, f.self, lens[f.arg],
				f.alpha != "" && len(l) > 1 && l[1].arg == nil && !strings.Contains(f.alpha, l[1].lit[:1]):
				take(f)
				l = l[1:]
				continue
			}
			z := l[len(l)-1]
			y := l[len(l)-2]
			if z.alpha != "" && y.arg == nil && !strings.Contains(z.alpha, y.lit[len(y.lit)-1:]) {
				take(z)
				l = l[:len(l)-1]
				continue
			}
			why = "two different requests may have the same key: " + key.String()
		}
	}
	for _, q := range need {
		if why == "" && !got[q] {
			why = "the key leaves out an argument of the request: " + key.String()
		}
	}
	c.Check(why == "", rule, x.fn.Pos(), short(x.fn), why, nil)
}
