package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/engine"
)

// geo normalises integer terms over the block geometry: polynomials (see
// poly.go) with the block sizes as atoms P and B, quotients brought to a
// normal form, and remainders written through quotients.
type geo struct {
	e      *eval
	pf, bf string                   // names of the fields that hold P and B
	name   map[*term]string         // atoms with a name
	subst  map[*term]poly           // loop unknowns known as polynomials of others
	divs   map[string][2]poly       // quotient atoms seen: numerator, denominator
	atomOf func(*term) (poly, bool) // further atoms
}

func newGeo(e *eval, pf, bf string) *geo {
	return &geo{e: e, pf: pf, bf: bf, name: map[*term]string{}, subst: map[*term]poly{}, divs: map[string][2]poly{}}
}

func polyStr(p poly) string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		switch {
		case k == "":
			out = append(out, fmt.Sprint(p[k]))
		case p[k] == 1:
			out = append(out, k)
		default:
			out = append(out, fmt.Sprintf("%d·%s", p[k], k))
		}
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, "+")
}

func polyVar(n string) poly { return poly{n: 1} }

// quo is n/d for a nonnegative n, with the multiples of d in n taken out.
func (g *geo) quo(n, d poly) poly {
	out := poly{}
	rest := poly{}
	dm := ""
	for m, c := range d {
		if len(d) == 1 && c == 1 && m != "" {
			dm = m
		}
	}
	dk, constD := d[""], len(d) == 1
	if _, ok := d[""]; !ok {
		constD = false
	}
	for m, c := range n {
		if dm != "" {
			fs := strings.Split(m, "*")
			hit := false
			for i, f := range fs {
				if f == dm {
					out[strings.Join(append(append([]string{}, fs[:i]...), fs[i+1:]...), "*")] += c
					hit = true
					break
				}
			}
			if hit {
				continue
			}
		}
		if constD && dk > 0 && c%dk == 0 {
			out[m] += c / dk
			continue
		}
		rest[m] = c
	}
	for m, c := range out {
		if c == 0 {
			delete(out, m)
		}
	}
	if len(rest) == 0 {
		return out
	}
	key := "⌊" + strings.Replace(polyStr(rest), "*", "×", -1) + "/" + strings.Replace(polyStr(d), "*", "×", -1) + "⌋"
	g.divs[key] = [2]poly{rest, d}
	return polyAdd(out, poly{key: 1}, 1)
}

func (g *geo) of(t *term) poly { return g.rec(t, 0) }

func (g *geo) rec(t *term, depth int) poly {
	if t == nil {
		return poly{"?": 1}
	}
	if v, ok := t.IntVal(); ok {
		return polyConst(v)
	}
	if n, ok := g.name[t]; ok {
		return polyVar(n)
	}
	if p, ok := g.subst[t]; ok {
		return p
	}
	if g.pf != "" {
		if _, ok := fieldLoad(t, g.pf); ok {
			return polyVar("P")
		}
		if _, ok := fieldLoad(t, g.bf); ok {
			return polyVar("B")
		}
		if b, ok := fieldLoad(t, "IVLen"); ok {
			if _, ok := fieldLoad(b, "cryptoCore"); ok {
				return poly{"B": 1, "P": -1, "": -16}
			}
		}
	}
	if g.atomOf != nil {
		if p, ok := g.atomOf(t); ok {
			return p
		}
	}
	if v, ok := g.e.Canon(t).IntVal(); ok && t.K != engine.KBin {
		return polyConst(v)
	}
	if depth > 60 {
		return poly{fmt.Sprintf("#%d", t.ID): 1}
	}
	switch t.K {
	case engine.KConv:
		if widens(t) {
			return g.rec(t.Args[0], depth+1)
		}
	case engine.KNeg:
		return polyAdd(poly{}, g.rec(t.Args[0], depth+1), -1)
	case engine.KBin:
		if t.T != nil && !int64ish(t.T) {
			break
		}
		a, b := t.Args[0], t.Args[1]
		switch t.Op {
		case token.ADD:
			return polyAdd(g.rec(a, depth+1), g.rec(b, depth+1), 1)
		case token.SUB:
			return polyAdd(g.rec(a, depth+1), g.rec(b, depth+1), -1)
		case token.MUL:
			return polyMul(g.rec(a, depth+1), g.rec(b, depth+1))
		case token.QUO:
			return g.quo(g.rec(a, depth+1), g.rec(b, depth+1))
		case token.REM:
			n, d := g.rec(a, depth+1), g.rec(b, depth+1)
			return polyAdd(n, polyMul(d, g.quo(n, d)), -1)
		case token.SHL:
			if n, ok := b.IntVal(); ok && n >= 0 && n < 62 {
				return polyMul(g.rec(a, depth+1), polyConst(1<<uint(n)))
			}
		case token.SHR:
			if n, ok := b.IntVal(); ok && n >= 0 && n < 62 {
				return g.quo(g.rec(a, depth+1), polyConst(1<<uint(n)))
			}
		}
	}
	u := strip64(g.e.Canon(t))
	if n, ok := g.name[u]; ok {
		return polyVar(n)
	}
	if p, ok := g.subst[u]; ok {
		return p
	}
	if u != t && depth < 30 {
		return g.rec(u, depth+30)
	}
	return poly{fmt.Sprintf("#%d", u.ID): 1}
}

// facts gives what is known as polynomials that are at least 0.
func (g *geo) facts(fs []engine.Fact) []poly {
	var out []poly
	add := func(a, b *term, k int64) { // a - b + k >= 0
		out = append(out, polyAdd(polyAdd(g.of(a), g.of(b), -1), polyConst(k), 1))
	}
	for _, f := range fs {
		t := f.T
		if t.K != engine.KBin || len(t.Args) != 2 || !isIntT(t.Args[0]) {
			continue
		}
		a, b, op := t.Args[0], t.Args[1], t.Op
		if !f.Pol {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch op {
		case token.LSS:
			add(b, a, -1)
		case token.LEQ:
			add(b, a, 0)
		case token.GTR:
			add(a, b, -1)
		case token.GEQ:
			add(a, b, 0)
		case token.EQL:
			add(a, b, 0)
			add(b, a, 0)
		case token.NEQ:
			// an unsigned x that is not 0 is at least 1
			if b.Is(0) && unsigned(a) {
				add(a, b, -1)
			}
			if a.Is(0) && unsigned(b) {
				add(b, a, -1)
			}
		}
	}
	return out
}

func unsigned(t *term) bool {
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// axioms: what holds of block sizes, quotients and remainders.
func (g *geo) axioms() []poly {
	out := []poly{{"P": 1, "": -1}, {"B": 1, "P": -1, "": -16}, {"B": 1, "": -17}}
	var ks []string
	for k := range g.divs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n, d := g.divs[k][0], g.divs[k][1]
		rem := polyAdd(n, polyMul(d, poly{k: 1}), -1)
		out = append(out, rem, polyAdd(polyAdd(d, rem, -1), polyConst(1), -1), poly{k: 1})
	}
	return out
}

// provesZero: d is 0.
func provesZero(d poly, facts []poly) bool {
	return len(d) == 0 || proves(d, facts) && proves(pNeg(d), facts)
}

// proves: goal >= 0 follows from the facts as a sum of at most three of them.
func proves(goal poly, facts []poly) bool {
	ok := func(p poly) bool {
		for m, c := range p {
			if m != "" || c < 0 {
				return false
			}
		}
		return true
	}
	if ok(goal) {
		return true
	}
	for i, a := range facts {
		d := polyAdd(goal, a, -1)
		if ok(d) {
			return true
		}
		for j := i; j < len(facts); j++ {
			d2 := polyAdd(d, facts[j], -1)
			if ok(d2) {
				return true
			}
			for k := j; k < len(facts); k++ {
				if ok(polyAdd(d2, facts[k], -1)) {
					return true
				}
			}
		}
	}
	return false
}
