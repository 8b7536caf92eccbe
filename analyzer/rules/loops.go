package rules

import (
	"go/types"

	"verif/analyzer/engine"
)

// establish lists the index terms for which a loop's predicate is known to
// hold under the facts of e on path p.
type establish func(p *path, e *eval, facts []engine.Fact) []*term

// forall decides whether path p, when it ends, has established the predicate
// for every index in [lo,hi), by induction over a loop it went through:
//   - the first trip establishes it for lo (or hi-1, going down),
//   - every further trip, as explored for an arbitrary one, establishes it for
//     its own index, and the indices of consecutive trips are adjacent,
//   - the loop was left because the index ran past the end.
//
// Trips that set a flag which is never reset, and which p finds unset, cannot
// have happened on p.
func (c *Ctx) forall(r *res, p *path, lo, hi *term, est establish) bool {
	e := p.Eval()
	if e.AtMost(hi, lo, 0) {
		return true // empty range
	}
	type act struct{ a1, a2 *evnt }
	acts := map[string]*act{}
	var order []string
	for _, ev := range p.Events {
		if ev.Kind != engine.EvLoop {
			continue
		}
		switch ev.Idx {
		case 1:
			acts[ev.LoopKey] = &act{a1: ev}
			order = append(order, ev.LoopKey)
		case 2:
			if a := acts[ev.LoopKey]; a != nil {
				a.a2 = ev
			}
		}
	}
	for _, key := range order {
		a := acts[key]
		if a == nil || a.a2 == nil {
			continue
		}
		if c.forallIn(r, p, key, a.a2, lo, hi, est) {
			return true
		}
	}
	return false
}

// idxForm is an index written with one loop variable.
type idxForm struct{ mu, idx *term }

// muOf is the only variable of the loop t depends on.
func muOf(t *term, cells map[*term]*term) *term {
	var mu *term
	n := 0
	seen := map[*term]bool{}
	t.Walk(func(x *term) bool {
		if x.K == engine.KMu && !seen[x] {
			seen[x] = true
			if _, ok := cells[x]; ok {
				mu = x
				n++
			}
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return mu
}

func substOne(tt *engine.Terms, t, from, to *term) *term {
	return tt.Subst(t, func(x *term) *term {
		if x == from {
			return to
		}
		return nil
	})
}

func (c *Ctx) forallIn(r *res, p *path, key string, a2 *evnt, lo, hi *term, est establish) bool {
	e := p.Eval()
	tt := r.TT
	// Flags p finds at a known value.
	type flag struct {
		mu *term
		v  bool
	}
	var flags []flag
	for mu := range a2.Cells {
		if isIntT(mu) && (a2.Cells[mu] == nil || !p.EvalAt(a2).AtMost(tt.Int(0), a2.Cells[mu], 0)) {
			continue
		}
		if v, known := flagState(e, tt, mu, mu); known && (isBoolT(mu) || v) {
			flags = append(flags, flag{mu, v})
		}
	}
	var cuts []*path
	for _, q := range r.Paths {
		if q.Exit != "cut" || len(q.Events) == 0 {
			continue
		}
		last := q.Events[len(q.Events)-1]
		if last.Kind != engine.EvLoop || last.Idx != 3 || last.LoopKey != key {
			continue
		}
		// Only trips from the situation p was in count.
		if a2.Seq < len(q.Events) && q.Events[a2.Seq] == a2 {
			cuts = append(cuts, splitFlags(q)...)
		}
	}
	// Accumulators p finds at zero: acc |= x.
	var accs []*term
	for mu := range a2.Cells {
		if !isIntT(mu) || !e.Canon(mu).Is(0) {
			continue
		}
		only := true
		for _, q := range cuts {
			v := q.Events[len(q.Events)-1].Cells[mu]
			has := v == nil
			if v != nil {
				for _, x := range orParts(v) {
					has = has || x == mu
				}
			}
			only = only && has
		}
		if only {
			accs = append(accs, mu)
		}
	}
	sticky := flags[:0:0]
	for _, f := range flags {
		ok := true
		for _, q := range cuts {
			v := q.Events[len(q.Events)-1].Cells[f.mu]
			if v == nil || v == f.mu {
				continue
			}
			if b, known := flagState(q.Eval(), tt, v, f.mu); !known || b == f.v {
				// It was already known to have that value on this trip.
				if w, k := flagState(q.Eval(), tt, f.mu, f.mu); known && k && w == b {
					continue
				}
				ok = false
			}
		}
		if ok {
			sticky = append(sticky, f)
		}
	}
	for _, f := range sticky {
		if v := a2.Cells[f.mu]; v != nil {
			if b, known := flagState(p.EvalAt(a2), tt, v, f.mu); known && b != f.v {
				return true // p cannot happen
			}
		}
	}
	up, down := false, false
	first := &path{R: p.R, Facts: a2.Facts}
	for _, f := range sticky {
		// Its first value, too, can only have been the one it ended with.
		if v := a2.Cells[f.mu]; v != nil && isBoolT(f.mu) {
			if _, known := first.Eval().Decide(v); !known {
				first = first.With(v, f.v)
			}
		}
	}
	loSet := est(p, first.Eval(), append(first.Facts.Slice(), accFacts(tt, a2, accs)...))
	for _, t := range loSet {
		if same(p.EvalAt(a2), t, lo) {
			up = true
		}
		if e2 := p.EvalAt(a2); e2.AtMost(t, hi, -1) && e2.AtMost(hi, t, 1) {
			down = true
		}
	}
	if !up && !down {
		return false
	}
	var forms map[idxForm]bool
	for _, q := range cuts {
		last := q.Events[len(q.Events)-1]
		skip := false
		for _, f := range sticky {
			if v := last.Cells[f.mu]; v != nil {
				if b, known := flagState(q.Eval(), tt, v, f.mu); known && b != f.v {
					skip = true
				}
			}
		}
		if skip {
			continue
		}
		here := map[idxForm]bool{}
		for _, t := range est(q, q.Eval(), append(q.Facts.Slice(), accFacts(tt, last, accs)...)) {
			if mu := muOf(t, a2.Cells); mu != nil {
				here[idxForm{mu, t}] = true
			}
		}
		if forms == nil {
			forms = here
		} else {
			for f := range forms {
				if !here[f] {
					delete(forms, f)
				}
			}
		}
		if len(forms) == 0 {
			return false
		}
	}
	for f := range forms {
		idx := f.idx
		if up && atMost(e, p.Facts.Slice(), hi, idx, 0) && c.steps(r, p, a2, cuts, f, lo, 1) {
			return true
		}
		if down && atMost(e, p.Facts.Slice(), idx, lo, -1) && c.steps(r, p, a2, cuts, f, hi, -1) {
			return true
		}
	}
	return false
}

// splitFlags: a trip that leaves a comparison in a flag goes either way.
func splitFlags(q *path) []*path {
	out := []*path{q}
	for mu, v := range q.Events[len(q.Events)-1].Cells {
		if v == nil || v == mu || !isBoolT(mu) {
			continue
		}
		if _, known := q.Eval().Decide(v); known {
			continue
		}
		var next []*path
		for _, x := range out {
			next = append(next, x.With(v, true), x.With(v, false))
		}
		out = next
	}
	return out
}

// steps: the loop variable starts at the bound and moves by step.
func (c *Ctx) steps(r *res, p *path, a2 *evnt, cuts []*path, f idxForm, bound *term, step int64) bool {
	e := p.Eval()
	vals := []*term{a2.Cells[f.mu]}
	for _, q := range cuts {
		vals = append(vals, q.Events[len(q.Events)-1].Cells[f.mu])
	}
	for _, x := range vals {
		if x == nil {
			return false
		}
		i := substOne(r.TT, f.idx, f.mu, x)
		if muOf(i, a2.Cells) != nil {
			if !sameInt(e, i, r.TT.Add(f.idx, step)) {
				return false
			}
			continue
		}
		ok := false
		for _, d := range []int64{0, 1} {
			// going up: lo+d; going down: hi-1-d
			want := d
			if step < 0 {
				want = -1 - d
			}
			if e.AtMost(i, bound, want) && e.AtMost(bound, i, -want) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// accFacts: an accumulator that ends at zero only ever had zero or'ed in.
func accFacts(tt *engine.Terms, ev *evnt, accs []*term) []engine.Fact {
	var out []engine.Fact
	for _, mu := range accs {
		v := ev.Cells[mu]
		if v == nil {
			continue
		}
		for _, x := range orParts(v) {
			if x == mu {
				continue
			}
			for x.K == engine.KConv {
				x = x.Args[0]
			}
			if x.K == engine.KBin && x.Op.String() == "^" {
				out = append(out, engine.Fact{T: tt.Eq(x.Args[0], x.Args[1]), Pol: true})
			} else {
				out = append(out, engine.Fact{T: tt.Eq(x, tt.Int(0)), Pol: true})
			}
		}
	}
	return out
}

func orParts(t *term) []*term {
	if t.K == engine.KBin && t.Op.String() == "|" {
		return append(orParts(t.Args[0]), orParts(t.Args[1])...)
	}
	return []*term{t}
}

func isBoolT(t *term) bool {
	return t != nil && t.T != nil && t.T.Underlying().String() == "bool"
}

// flagState reads a loop variable as a flag: a truth value, or whether a list
// or a count is still empty.
func flagState(e *eval, tt *engine.Terms, v, mu *term) (bool, bool) {
	if isBoolT(mu) {
		return e.Decide(v)
	}
	if mu.T == nil {
		return false, false
	}
	n := v
	switch under(mu.T).(type) {
	case *types.Slice:
		if e.IsNil(v) {
			return true, true
		}
		n = tt.Len(v)
	default:
		if !isIntT(mu) {
			return false, false
		}
		// One more is not none, whatever it was (counts do not wrap around).
		if b, k := engine.Lin(v); b == mu && v != mu {
			return false, k > 0
		}
	}
	if e.AtMost(n, tt.Int(0), 0) && e.AtMost(tt.Int(0), n, 0) {
		return true, true
	}
	if e.AtMost(tt.Int(1), n, 0) {
		return false, true
	}
	return false, false
}
