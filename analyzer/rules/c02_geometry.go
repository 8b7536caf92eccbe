package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{
		ID:        "C02",
		Technique: "abstract interpretation of the size and offset functions over symbolic block sizes: results brought to a polynomial normal form with floor quotients and compared with the on-disk format's formulas on every path; loop induction for range splitting; linear entailment for absence of wrap-around",
		Explain:   "Every conversion function is analysed for arbitrary arguments and arbitrary block sizes P and B = P + nonce + 16. On each path the returned value must equal the format's formula for a case whose condition the path's branch decisions entail; every unsigned subtraction must be shown not to wrap.",
		Run:       runC02,
	})
}

const hdr = 18 // version (2) and file identifier (16)

func pAdd(ps ...poly) poly {
	out := poly{}
	for _, p := range ps {
		out = polyAdd(out, p, 1)
	}
	return out
}
func pNeg(p poly) poly    { return polyAdd(poly{}, p, -1) }
func pSub(a, b poly) poly { return polyAdd(a, b, -1) }
func pInt(n int64) poly   { return polyConst(n) }

var (
	pP = poly{"P": 1}
	pB = poly{"B": 1}
	pO = poly{"B": 1, "P": -1}
)

// geoCase is one case of a function's formula: conditions (each at least 0)
// and the results.
type geoCase struct {
	cond []poly
	val  []poly
	also []poly // what else is at least 0 in this case
}

func runC02(c *Ctx) {
	const F, W, X, J, N, S = "formula", "no-wrap", "split", "joint", "parameters", "sizes"
	c.Rule(F, "each conversion returns the on-disk format's formula")
	c.Rule(W, "no unsigned subtraction in the conversions wraps around")
	c.Rule(X, "a range is split into blocks that start where the previous one ended, stay inside their block and end with the range")
	c.Rule(J, "joint ranges and crops are computed from the first and last block")
	c.Rule(N, "block sizes are fixed at creation: ciphertext block = plaintext block + nonce + 16, content is stored in blocks of 4096 with 16-byte nonces")
	c.Rule(S, "sizes shown to clients are converted from the remote size of the same entry")
	pf, bf := c.blockFields(N)
	if pf == "" || bf == "" {
		return
	}
	x := polyVar("x")
	div := func(g *geo, n poly, d poly) poly { return g.quo(n, d) }
	conv := func(name string, cases func(g *geo) []geoCase) {
		c.geoFunc(F, W, pf, bf, name, cases)
	}
	conv("ContentEnc.PlainOffToBlockNo", func(g *geo) []geoCase { return []geoCase{{val: []poly{div(g, x, pP)}}} })
	conv("ContentEnc.CipherOffToBlockNo", func(g *geo) []geoCase {
		return []geoCase{{cond: []poly{pSub(x, pInt(hdr))}, val: []poly{div(g, pSub(x, pInt(hdr)), pB)}}}
	})
	conv("ContentEnc.BlockNoToCipherOff", func(g *geo) []geoCase { return []geoCase{{val: []poly{pAdd(pInt(hdr), polyMul(x, pB))}}} })
	conv("ContentEnc.BlockNoToPlainOff", func(g *geo) []geoCase { return []geoCase{{val: []poly{polyMul(x, pP)}}} })
	conv("ContentEnc.BlockOverhead", func(g *geo) []geoCase { return []geoCase{{val: []poly{pO}}} })
	conv("ContentEnc.PlainBS", func(g *geo) []geoCase { return []geoCase{{val: []poly{pP}}} })
	conv("ContentEnc.CipherBS", func(g *geo) []geoCase { return []geoCase{{val: []poly{pB}}} })
	conv("ContentEnc.CipherSizeToPlainSize", func(g *geo) []geoCase {
		n := pAdd(div(g, pSub(x, pInt(hdr+1)), pB), pInt(1))
		o := pAdd(polyMul(n, pO), pInt(hdr))
		return []geoCase{
			{cond: []poly{pSub(pInt(hdr), x)}, val: []poly{{}}},
			{cond: []poly{pSub(x, pInt(hdr+1)), pSub(o, x)}, val: []poly{{}}},
			{cond: []poly{pSub(x, pInt(hdr+1)), pSub(x, o)}, val: []poly{pSub(x, o)}},
			// A file that holds more than one block's overhead is larger
			// than all its overhead.
			{cond: []poly{pSub(x, pAdd(pInt(hdr), pO))}, val: []poly{pSub(x, o)}, also: []poly{pSub(x, o)}},
			{cond: []poly{pSub(pAdd(pInt(hdr), pO), x)}, val: []poly{{}}},
		}
	})
	conv("ContentEnc.PlainSizeToCipherSize", func(g *geo) []geoCase {
		n := pAdd(div(g, pSub(x, pInt(1)), pP), pInt(1))
		return []geoCase{
			{cond: []poly{pNeg(x)}, val: []poly{{}}},
			{cond: []poly{pSub(x, pInt(1))}, val: []poly{pAdd(x, polyMul(n, pO), pInt(hdr))}},
		}
	})
	y := polyVar("y")
	conv("MinUint64", func(g *geo) []geoCase {
		return []geoCase{{cond: []poly{pSub(y, x)}, val: []poly{x}}, {cond: []poly{pSub(x, y)}, val: []poly{y}}}
	})
	c.geoIntra(J, W, pf, bf)
	c.geoJoint(J, pf, bf, "IntraBlock.JointCiphertextRange", pInt(hdr), pB)
	c.geoJoint(J, pf, bf, "JointPlaintextRange", poly{}, pP)
	c.geoSplit(X, W, pf, bf, "ContentEnc.ExplodePlainRange", poly{}, pP)
	c.geoSplit(X, W, pf, bf, "ContentEnc.ExplodeCipherRange", pInt(hdr), pB)
	c.geoUse(N)
	c.shownSizes(S)
	c.Need(F, 6)
	c.Need(W, 10)
	c.Need(X, 20)
	c.Need(J, 3)
	c.Need(N, 6)
	c.Need(S, 4)
}

// blockFields finds the fields of ContentEnc that hold the block sizes.
func (c *Ctx) blockFields(rule string) (pf, bf string) {
	fn := c.Fn(rule, "gocrypt/contentenc", "New")
	if fn == nil {
		return "", ""
	}
	r := c.Explore(rule, fn)
	cc, bs := r.Params[0], r.Params[1]
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		vals := map[string]*term{}
		for a, v := range p.Mem {
			if a.K == engine.KFieldAddr && a.Args[0] == p.Ret[0] && v.T != nil {
				vals[a.Var.Name()] = v
			}
		}
		if v := p.Ret[0]; v.K == engine.KAlloc {
			if s := p.Mem[v]; s != nil && s.K == engine.KStruct {
				st := s.T.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					vals[st.Field(i).Name()] = s.Args[i]
				}
			}
		}
		e := p.Eval()
		g := newGeo(e, "", "")
		g.name[bs] = "P"
		g.atomOf = func(t *term) (poly, bool) {
			if b, ok := fieldLoad(t, "IVLen"); ok && b == cc {
				return polyVar("IV"), true
			}
			return nil, false
		}
		want := pAdd(pP, polyVar("IV"), pInt(16))
		for n, v := range vals {
			if !isIntT(v) {
				continue
			}
			q := g.of(v)
			if polyEq(q, pP) && pf == "" {
				pf = n
			} else if polyEq(q, want) {
				bf = n
			}
		}
		c.Check(pf != "", rule, p.Pos, "contentenc.New", "the plaintext block size is not kept as given", p)
		c.Check(bf != "", rule, p.Pos, "contentenc.New", "no field holds plaintext block + nonce + 16", p)
		if pf == "" || bf == "" {
			return "", ""
		}
		for n, want := range map[string]poly{pf: pP, bf: want} {
			c.Check(vals[n] != nil && polyEq(g.of(vals[n]), want), rule, p.Pos, "contentenc.New", n+" is not set the same way on every path", p)
		}
	}
	// Nothing changes them afterwards.
	for _, f := range c.P.Funcs {
		if engine.IsFake(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						v := engine.FieldVar(fa.X.Type(), fa.Field)
						if in(v.Name(), pf, bf) && strings.HasSuffix(engine.TypeKey(fa.X.Type()), "contentenc.ContentEnc") {
							c.Check(f == fn || freshObj(fa.X), rule, st.Pos(), short(f), "changes a block size", nil)
						}
					}
				}
			}
		}
	}
	return pf, bf
}

func freshObj(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// geoFunc checks a conversion function of one or two numbers.
func (c *Ctx) geoFunc(F, W, pf, bf, name string, cases func(*geo) []geoCase) {
	fn := c.Fn(F, "gocrypt/contentenc", name)
	if fn == nil {
		return
	}
	r := c.Explore(F, fn)
	site := short(fn)
	for _, p := range r.Paths {
		g := newGeo(p.Eval(), pf, bf)
		names := []string{"x", "y", "z"}
		for _, q := range r.Params {
			if isIntT(q) && len(names) > 0 {
				g.name[q] = names[0]
				names = names[1:]
			}
		}
		cs := cases(g)
		var ret []poly
		for _, t := range p.Ret {
			ret = append(ret, g.of(t))
		}
		know := append(g.facts(p.Facts.Slice()), polyVar("x"), polyVar("y"))
		ax := g.axioms()
		all := append(append([]poly{}, know...), ax...)
		for _, k := range cs {
			holds := len(k.also) > 0
			for _, q := range k.cond {
				holds = holds && proves(q, all)
			}
			if holds {
				all = append(all, k.also...)
			}
		}
		if p.Exit == "panic" || p.Exit == "exit" {
			// Only where no case applies.
			for i, k := range cs {
				ok := false
				for _, q := range k.cond {
					ok = ok || proves(pSub(pNeg(q), pInt(1)), all)
				}
				c.Check(ok, F, p.Pos, site, fmt.Sprintf("gives up although case %d of the formula applies", i+1), p)
			}
			continue
		}
		if p.Exit != "return" {
			continue
		}
		ok := false
		for _, k := range cs {
			match := len(k.val) == len(ret)
			for i := range k.val {
				match = match && i < len(ret) && provesZero(pSub(k.val[i], ret[i]), all)
			}
			for _, q := range k.cond {
				match = match && proves(q, all)
			}
			ok = ok || match
		}
		var got []string
		for _, q := range ret {
			got = append(got, polyStr(q))
		}
		c.Check(ok, F, p.Pos, site, "returns "+strings.Join(got, ", ")+", which is not the format's formula here", p)
		c.geoWraps(W, site, g, p, all[len(know):])
	}
}

// geoWraps: unsigned subtractions on the path do not wrap around.
func (c *Ctx) geoWraps(rule, site string, g *geo, p *path, more []poly) {
	for _, ev := range p.Events {
		if ev.Kind != engine.EvSub {
			continue
		}
		a, b := g.of(ev.Args[0]), g.of(ev.Args[1])
		know := append(g.facts(ev.Facts.Slice()), g.axioms()...)
		know = append(know, polyVar("x"), polyVar("y"))
		know = append(know, more...)
		ok := proves(pSub(a, b), know) || p.EvalAt(ev).AtMost(ev.Args[1], ev.Args[0], 0)
		c.Check(ok, rule, ev.Pos, site, "can wrap around: "+polyStr(a)+" - ("+polyStr(b)+")", p)
	}
}

// geoIntra checks what an IntraBlock computes from its own fields.
func (c *Ctx) geoIntra(J, W, pf, bf string) {
	mk := func(r *res, p *path) *geo {
		g := newGeo(p.Eval(), pf, bf)
		ib := r.Params[0]
		g.atomOf = func(t *term) (poly, bool) {
			for _, n := range []string{"BlockNo", "Skip", "Length"} {
				if b, ok := fieldLoad(t, n); ok && b == ib {
					return polyVar(n), true
				}
			}
			return nil, false
		}
		return g
	}
	for _, k := range []struct {
		name string
		want poly
	}{{"IntraBlock.BlockCipherOff", pAdd(pInt(hdr), poly{"B*BlockNo": 1})}, {"IntraBlock.BlockPlainOff", poly{"BlockNo*P": 1}}} {
		fn := c.Fn(J, "gocrypt/contentenc", k.name)
		if fn == nil {
			continue
		}
		r := c.Explore(J, fn)
		for _, p := range r.Paths {
			g := mk(r, p)
			ok := p.Exit == "return" && polyEq(g.of(p.Ret[0]), k.want)
			c.Check(ok, J, p.Pos, short(fn), "is not the offset of the block", p)
		}
	}
	if fn := c.Fn(J, "gocrypt/contentenc", "IntraBlock.IsPartial"); fn != nil {
		r := c.Explore(J, fn)
		for _, p := range r.Paths {
			g := mk(r, p)
			for _, val := range []bool{true, false} {
				// Paths that return the comparison itself split on it.
				q := p
				if v, known := p.Eval().Decide(p.Ret[0]); known {
					if v != val {
						continue
					}
				} else if q = p.With(p.Ret[0], val); q == nil {
					continue
				}
				know := append(g.facts(q.Facts.Slice()), g.axioms()...)
				know = append(know, polyVar("Skip"), polyVar("Length"))
				var ok bool
				if val {
					ok = proves(pSub(polyVar("Skip"), pInt(1)), know) || proves(pSub(pSub(pP, polyVar("Length")), pInt(1)), know)
				} else {
					ok = proves(pNeg(polyVar("Skip")), know) && proves(pSub(polyVar("Length"), pP), know)
				}
				c.Check(ok, J, p.Pos, short(fn), fmt.Sprintf("says %v, which is not whether the block is partial", val), p)
			}
		}
	}
	if fn := c.Fn(J, "gocrypt/contentenc", "IntraBlock.CropBlock"); fn != nil {
		r := c.Explore(J, fn)
		for _, p := range r.Paths {
			g := mk(r, p)
			d := r.Params[1]
			base, lo, hi := window(r.TT, p.Ret[0])
			g.name[r.TT.Len(d)] = "len"
			want := pAdd(polyVar("Skip"), polyVar("Length"))
			know := append(g.facts(p.Facts.Slice()), g.axioms()...)
			ok := base == d && polyEq(g.of(lo), polyVar("Skip"))
			end := g.of(hi)
			ok = ok && (polyEq(end, want) && proves(pSub(polyVar("len"), want), know) || polyEq(end, polyVar("len")) && proves(pSub(want, polyVar("len")), know))
			c.Check(ok, J, p.Pos, short(fn), "does not cut the block to its relevant part", p)
		}
	}
}

// geoJoint checks the range that a list of blocks spans.
func (c *Ctx) geoJoint(J, pf, bf, name string, base, size poly) {
	fn := c.Fn(J, "gocrypt/contentenc", name)
	if fn == nil {
		return
	}
	r := c.Explore(J, fn)
	blocks := r.Params[len(r.Params)-1]
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		e := p.Eval()
		g := newGeo(e, pf, bf)
		g.atomOf = func(t *term) (poly, bool) {
			b, ok := fieldLoad(t, "BlockNo")
			if !ok {
				return nil, false
			}
			var arr, idx *term
			if b.K == engine.KIndexAddr {
				arr, idx = b.Args[0], b.Args[1]
			} else if arr, idx, ok = elemOf(b); !ok {
				return nil, false
			}
			if arr != blocks {
				return nil, false
			}
			if idx.Is(0) {
				return polyVar("first"), true
			}
			if sameInt(e, idx, r.TT.Add(r.TT.Len(blocks), -1)) {
				return polyVar("last"), true
			}
			return nil, false
		}
		off := pAdd(base, polyMul(size, polyVar("first")))
		ln := polyMul(size, pAdd(polyVar("last"), pNeg(polyVar("first")), pInt(1)))
		c.Check(polyEq(g.of(p.Ret[0]), off), J, p.Pos, short(fn), "the offset is not that of the first block: "+polyStr(g.of(p.Ret[0])), p)
		c.Check(polyEq(g.of(p.Ret[1]), ln), J, p.Pos, short(fn), "the length is not that of all blocks: "+polyStr(g.of(p.Ret[1])), p)
	}
}

// geoSplit checks a function that splits a range into blocks.
func (c *Ctx) geoSplit(X, W, pf, bf, name string, base, size poly) {
	fn := c.Fn(X, "gocrypt/contentenc", name)
	if fn == nil {
		return
	}
	r := c.Explore(X, fn)
	site := short(fn)
	off, length := r.Params[1], r.Params[2]
	any := false
	for _, p := range r.Paths {
		if p.Exit == "panic" && base[""] != 0 {
			// An offset inside the header.
			g := newGeo(p.Eval(), pf, bf)
			g.name[off] = "x"
			know := append(g.facts(p.Facts.Slice()), g.axioms()...)
			if proves(pSub(pSub(base, polyVar("x")), pInt(1)), know) {
				continue
			}
			// Later positions are past it: covered by the induction below.
			if len(loopsOf(r, p)) > 0 && loopsOf(r, p)[0].a2 != nil {
				continue
			}
		}
		if p.Exit == "panic" {
			c.Check(false, X, p.Pos, site, "can give up", p)
			continue
		}
		if p.Exit != "return" {
			continue
		}
		mk := func(e *eval) *geo {
			g := newGeo(e, pf, bf)
			g.name[off], g.name[length] = "x", "y"
			return g
		}
		ls := loopsOf(r, p)
		var l *loopRun
		for _, k := range ls {
			if l == nil {
				l = k
			}
		}
		if l == nil || l.a2 == nil {
			g := mk(p.Eval())
			know := append(g.facts(p.Facts.Slice()), g.axioms()...)
			c.Check(proves(pNeg(polyVar("y")), know), X, p.Pos, site, "returns no block for a range that is not empty", p)
			c.Check(p.Eval().IsNil(p.Ret[0]) || p.Eval().AtMost(r.TT.Len(p.Ret[0]), r.TT.Int(0), 0), X, p.Pos, site, "returns blocks for an empty range", p)
			continue
		}
		any = true
		// The element each trip appends.
		elem := func(t *trip) (*term, *term) {
			for _, ev := range t.events {
				if ev.Kind == engine.EvCall && ev.Callee == "builtin.append" && ev.Res != nil && ev.Res.K == engine.KAppend && len(ev.Res.Args) == 2 && structField(ev.Res.Args[1], "BlockNo") != nil {
					return ev.Res.Args[1], ev.Res
				}
			}
			return nil, nil
		}
		total := pAdd(polyVar("x"), polyVar("y"))
		pos := func(g *geo, el *term, at func(*term) *term) poly {
			if at == nil {
				at = func(t *term) *term { return t }
			}
			return pAdd(base, polyMul(size, g.of(at(structField(el, "BlockNo")))), g.of(at(structField(el, "Skip"))))
		}
		el0, app0 := elem(l.first)
		if !c.Check(el0 != nil && len(l.gen) > 0, X, p.Pos, site, "a trip appends no block", p) {
			continue
		}
		g0 := mk(l.first.e)
		c.Check(polyEq(pos(g0, el0, nil), polyVar("x")), X, p.Pos, site, "the first block does not start at the offset: "+polyStr(pos(g0, el0, nil)), p)
		c.Check(sizeZero(l.first.e, r.TT, app0.Args[0]), X, p.Pos, site, "the result does not start out empty", p)
		c.splitTrip(X, W, site, g0, l.first, p, el0, pos(g0, el0, nil), total, size, nil)
		var mus []*term
		for m := range l.a2.Cells {
			if isIntT(m) {
				mus = append(mus, m)
			}
		}
		for _, t := range l.gen {
			el, app := elem(t)
			if !c.Check(el != nil, X, p.Pos, site, "a trip appends no block", t.q) {
				continue
			}
			g := mk(t.e)
			// Unknowns that count what is left.
			for _, m := range mus {
				g2 := mk(l.first.e)
				gp := mk(t.e)
				startOK := polyEq(g2.of(l.a2.Cells[m]), pSub(total, pos(g2, el, l.first.at)))
				stepOK := true
				for _, u := range l.gen {
					gu := mk(u.e)
					rem := pSub(total, pos(gu, el, nil))
					gu.subst[m] = rem
					if _, self := rem[fmt.Sprintf("#%d", m.ID)]; self {
						stepOK = false
						break
					}
					stepOK = stepOK && polyEq(gu.of(u.next[m]), pSub(total, pos(gu, el, u.at)))
				}
				if startOK && stepOK {
					g.subst[m] = pSub(total, pos(gp, el, nil))
				}
			}
			here := pos(g, el, nil)
			c.Check(polyEq(pos(mkSub(mk(l.first.e)), el, l.first.at), pAdd(pos(g0, el0, nil), g0.of(structField(el0, "Length")))), X, p.Pos, site, "the second block does not start where the first one ended", p)
			for _, u := range l.gen {
				elu, _ := elem(u)
				if elu == nil {
					continue
				}
				gu := mk(u.e)
				for m, q := range g.subst {
					gu.subst[m] = q
				}
				c.Check(polyEq(pos(gu, el, u.at), pAdd(pos(gu, elu, nil), gu.of(structField(elu, "Length")))), X, p.Pos, site, "a block does not start where the previous one ended", u.q)
			}
			c.splitTrip(X, W, site, g, t, t.q, el, here, total, size, base)
			// The result is what was collected.
			c.Check(app.Args[0] == p.Ret[0] && l.a2.Cells[p.Ret[0]] == app0 && t.next[p.Ret[0]] == app, X, p.Pos, site, "the blocks found are not the blocks returned", p)
			// Leaving the loop means that nothing is left.
			gx := mk(p.Eval())
			for m, q := range g.subst {
				gx.subst[m] = q
			}
			know := append(gx.facts(p.Facts.Slice()), gx.axioms()...)
			c.Check(proves(pSub(pos(gx, el, nil), total), know), X, p.Pos, site, "can stop before the end of the range", p)
		}
	}
	c.Check(any, X, fn.Pos(), site, "splits nothing", nil)
}

func mkSub(g *geo) *geo { return g }

func sizeZero(e *eval, tt *engine.Terms, t *term) bool {
	return e.IsNil(t) || e.AtMost(tt.Len(t), tt.Int(0), 0)
}

// splitTrip: the block of one trip lies inside its block and the range, and
// fills one of them.
func (c *Ctx) splitTrip(X, W, site string, g *geo, t *trip, p *path, el *term, pos, total, size, base poly) {
	skip, ln := g.of(structField(el, "Skip")), g.of(structField(el, "Length"))
	know := append(g.facts(t.q.Facts.Slice()), g.axioms()...)
	know = append(know, polyVar("x"), polyVar("y"))
	if base != nil {
		// By induction: positions only grow, and stay in the range.
		know = append(know, pSub(pos, polyVar("x")), pSub(total, pos))
	}
	left := pSub(total, pos)
	c.Check(proves(skip, know), X, p.Pos, site, "a block can skip less than nothing", p)
	c.Check(proves(pSub(pSub(size, skip), pInt(1)), know), X, p.Pos, site, "a block can skip more than a block", p)
	c.Check(proves(pSub(ln, pInt(1)), know), X, p.Pos, site, "a block can be empty", p)
	c.Check(proves(pSub(pSub(size, skip), ln), know), X, p.Pos, site, "a block can reach past its end", p)
	c.Check(proves(pSub(left, ln), know), X, p.Pos, site, "a block can reach past the range", p)
	c.Check(polyEq(ln, left) || polyEq(ln, pSub(size, skip)), X, p.Pos, site, "a block is neither full nor the last: "+polyStr(ln), p)
	for _, ev := range t.events {
		if ev.Kind != engine.EvSub {
			continue
		}
		a, b := g.of(ev.Args[0]), g.of(ev.Args[1])
		k2 := append(append([]poly{}, know...), g.axioms()...)
		// In the header case the first position may lie inside the header;
		// then the function has given up before.
		c.Check(proves(pSub(a, b), k2), W, ev.Pos, site, "can wrap around: "+polyStr(a)+" - ("+polyStr(b)+")", p)
	}
}

// geoUse: file content is split into blocks of 4096 with 16-byte nonces.
func (c *Ctx) geoUse(rule string) {
	fn := c.Fn(rule, "filetree", "Init")
	if fn == nil {
		return
	}
	r := c.Explore(rule, fn, "cryptocore.New", "contentenc.New", "nametransform.New", "requester.New", "requester.Requester.Start", "configfile.Load", "configfile.ConfFile.DecryptMasterKey", "configfile.ConfFile.IsFeatureFlagSet", "filetree.NewFastCache")
	for _, p := range r.Paths {
		if !okPath(p) {
			continue
		}
		n := 0
		for _, ev := range callsOn(p, "contentenc.New") {
			n++
			c.Check(p.EvalAt(ev).Canon(ev.Args[1]).Is(4096), rule, ev.Pos, short(fn), "the plaintext block size is not 4096", p)
		}
		for _, ev := range callsOn(p, "cryptocore.New") {
			c.Check(p.EvalAt(ev).Canon(ev.Args[2]).Is(128), rule, ev.Pos, short(fn), "the content nonce is not 128 bits", p)
		}
		c.Check(n > 0, rule, p.Pos, short(fn), "no content encryption is set up", p)
	}
	if fn := c.Fn(rule, "gocrypt/cryptocore", "New"); fn != nil {
		r := c.Explore(rule, fn, "cryptocore.hkdfDerive", "siv_aead.New", "stupidgcm.New")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			iv := objField2(p, p.Ret[0], "IVLen")
			g := newGeo(p.Eval(), "", "")
			g.name[r.Params[2]] = "bits"
			c.Check(iv != nil && provesZero(pSub(g.of(iv), g.quo(polyVar("bits"), pInt(8))), g.facts(p.Facts.Slice())), rule, p.Pos, short(fn), "the nonce length is not the given number of bits", p)
		}
	}
}

// objField2 is the value of a field of the object t points to at the end of a path.
func objField2(p *path, t *term, name string) *term {
	for a, v := range p.Mem {
		if a.K == engine.KFieldAddr && a.Args[0] == t && a.Var.Name() == name {
			return v
		}
	}
	if s := p.Mem[t]; s != nil {
		return structField(s, name)
	}
	return nil
}

// shownSizes: the size of everything shown is the plaintext size of the very
// file it describes.
func (c *Ctx) shownSizes(rule string) {
	m := c.tree(rule)
	if m == nil {
		return
	}
	for _, v := range m.views {
		n := 0
		for _, p := range v.r.Paths {
			for _, x := range m.infos(v, p) {
				n++
				c.Check(m.converted(p.Eval(), x.size, x.base), rule, v.fn.Pos(), short(v.fn),
					fmt.Sprintf("the size shown is not the plaintext size of the file described: %s for %s", x.size, x.base), p)
			}
		}
		if in(v.fn.Name(), "Stat", "ReadDir") {
			c.Check(n > 0, rule, v.fn.Pos(), short(v.fn), "shows no file information", nil)
		}
	}
}
