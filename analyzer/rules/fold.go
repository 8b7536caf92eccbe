package rules

import (
	"go/types"

	"verif/analyzer/engine"
)

// A trip is what one pass through a loop body did.
type trip struct {
	q      *path
	events []*evnt
	e      *eval
	next   map[*term]*term // values of the loop's unknowns for the next trip; nil if the loop was left
}

// loopRun is how one path went through one loop.
type loopRun struct {
	key    string
	a1, a2 *evnt
	first  *trip   // before any unknown
	gen    []*trip // an arbitrary further trip that goes on to the next
	last   *trip   // what the path itself did after arriving the last time
}

// loopsOf lists the loops a path went through, outermost first.
func loopsOf(r *res, p *path) []*loopRun {
	var out []*loopRun
	byKey := map[string]*loopRun{}
	for _, ev := range p.Events {
		if ev.Kind != engine.EvLoop {
			continue
		}
		switch ev.Idx {
		case 1:
			l := &loopRun{key: ev.LoopKey, a1: ev}
			byKey[ev.LoopKey] = l
			out = append(out, l)
		case 2:
			if l := byKey[ev.LoopKey]; l != nil {
				l.a2 = ev
			}
		}
	}
	for _, l := range out {
		if l.a2 == nil {
			l.last = &trip{q: p, events: p.Events[l.a1.Seq+1:], e: p.Eval()}
			continue
		}
		l.first = &trip{q: p, events: p.Events[l.a1.Seq+1 : l.a2.Seq], e: p.EvalAt(l.a2), next: l.a2.Cells}
		l.last = &trip{q: p, events: p.Events[l.a2.Seq+1:], e: p.Eval()}
		for _, q := range r.Paths {
			if q.Exit != "cut" || len(q.Events) == 0 || l.a2.Seq >= len(q.Events) || q.Events[l.a2.Seq] != l.a2 {
				continue
			}
			z := q.Events[len(q.Events)-1]
			if z.Kind != engine.EvLoop || z.Idx != 3 || z.LoopKey != l.key {
				continue
			}
			l.gen = append(l.gen, &trip{q: q, events: q.Events[l.a2.Seq+1 : len(q.Events)-1], e: q.Eval(), next: z.Cells})
		}
	}
	return out
}

// at replaces the loop's unknowns by the values a trip left for the next.
func (t *trip) at(x *term) *term {
	return t.q.R.TT.Subst(x, func(y *term) *term {
		if y.K == engine.KMu {
			return t.next[y]
		}
		return nil
	})
}

// calls lists the calls of the named functions on a trip.
func (t *trip) calls(names ...string) []*evnt {
	var out []*evnt
	for _, ev := range t.events {
		if evIs(ev, names...) {
			out = append(out, ev)
		}
	}
	return out
}

// window splits a byte slice into what it is cut from and its bounds.
func window(tt *engine.Terms, w *term) (base, lo, hi *term) {
	if w.K == engine.KSlice {
		base, lo = w.Args[0], w.Args[1]
		hi = tt.Len(base)
		if len(w.Args) > 2 && w.Args[2] != nil {
			hi = w.Args[2]
		}
		return
	}
	return w, tt.Int(0), tt.Len(w)
}

// pieces flattens nested appends.
func pieces(e *eval, t *term) []*term {
	if t == nil {
		return nil
	}
	switch {
	case t.K == engine.KNil:
		return nil
	case t.K == engine.KAppend && t.Aux == "slice":
		return append(pieces(e, t.Args[0]), pieces(e, t.Args[1])...)
	case t.K == engine.KAppend:
		out := pieces(e, t.Args[0])
		return append(out, t.Args[1:]...)
	}
	if c, _, ok := isCall(t, "bytes.Join"); ok && len(c.Args) == 2 {
		return []*term{t}
	}
	if e.Canon(e.TT().Len(t)).Is(0) {
		return nil
	}
	return []*term{t}
}

// appended is pieces, with the pieces added to the first one listed even where
// the path knows them to be empty.
func appended(e *eval, t *term) []*term {
	switch {
	case t == nil || t.K == engine.KNil:
		return nil
	case t.K == engine.KAppend && t.Aux == "slice" && t.Args[1].K != engine.KAppend:
		out := appended(e, t.Args[0])
		if t.Args[1].K == engine.KNil {
			return out
		}
		return append(out, t.Args[1])
	}
	return pieces(e, t)
}

// elem0 resolves reads of element 0 of a list that a loop only appends to.
func elem0(r *res, t *term) *term {
	tt := r.TT
	// first lists what element 0 can be.
	first := func(mu *term) []*term {
		var vs []*term
		for _, c := range r.Cands(mu) {
			x := c
			var el *term
			for x.K == engine.KAppend {
				if x.Aux != "elems" {
					return nil
				}
				if x.Args[0] != mu {
					el = x.Args[1]
				}
				x = x.Args[0]
			}
			if x == mu {
				continue
			}
			if !tt.Len(x).Is(0) {
				return nil
			}
			if el != nil { // the empty list has no element 0
				vs = append(vs, el)
			}
		}
		return vs
	}
	return tt.Subst(t, func(x *term) *term {
		if x.K != engine.KLoad {
			return nil
		}
		a := x.Args[0]
		var f *types.Var
		if a.K == engine.KFieldAddr {
			f = a.Var
			a = a.Args[0]
		}
		if a.K != engine.KIndexAddr || !a.Args[1].Is(0) || a.Args[0].K != engine.KMu {
			return nil
		}
		var v *term
		for _, el := range first(a.Args[0]) {
			if f != nil {
				el = structField(el, f.Name())
			}
			if el == nil || (v != nil && v != el) {
				return nil
			}
			v = el
		}
		return v
	})
}

// lockstep expresses the counters of a loop that move together by one of them.
func (l *loopRun) lockstep(tt *engine.Terms, t *term) *term {
	if l.a2 == nil || len(l.gen) == 0 {
		return t
	}
	counts := func(mu *term) bool {
		if !isIntT(mu) || l.a2.Cells[mu] == nil {
			return false
		}
		for _, g := range l.gen {
			if g.next[mu] != tt.Add(mu, 1) {
				return false
			}
		}
		return true
	}
	var ref *term
	for mu := range l.a2.Cells {
		if counts(mu) && (ref == nil || mu.ID < ref.ID) {
			ref = mu
		}
	}
	if ref == nil {
		return t
	}
	return tt.Subst(t, func(x *term) *term {
		if x.K != engine.KMu || x == ref || !counts(x) {
			return nil
		}
		// x - ref stays what it was after the first trip
		return addT(tt, ref, subT(tt, l.a2.Cells[x], l.a2.Cells[ref]))
	})
}
