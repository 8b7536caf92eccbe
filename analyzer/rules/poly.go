package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/engine"
)

// A poly is an integer term as a polynomial over terms that are not sums or
// products, modulo 2^64. Two terms with the same polynomial have the same
// value whatever their atoms are.
type poly map[string]int64

// polyOf normalises t; atoms are compared up to the equalities e knows.
func polyOf(e *eval, t *term) poly {
	return polyD(e, t, 0)
}

func polyConst(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": n}
}

func polyAdd(a, b poly, k int64) poly {
	out := poly{}
	for m, c := range a {
		out[m] = c
	}
	for m, c := range b {
		out[m] += k * c
		if out[m] == 0 {
			delete(out, m)
		}
	}
	return out
}

func polyMul(a, b poly) poly {
	out := poly{}
	for m, c := range a {
		for n, d := range b {
			var fs []string
			if m != "" {
				fs = append(fs, strings.Split(m, "*")...)
			}
			if n != "" {
				fs = append(fs, strings.Split(n, "*")...)
			}
			sort.Strings(fs)
			k := strings.Join(fs, "*")
			out[k] += c * d
			if out[k] == 0 {
				delete(out, k)
			}
		}
	}
	return out
}

func polyEq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for m, c := range a {
		if b[m] != c {
			return false
		}
	}
	return true
}

// int64ish: 64-bit integer types, between which conversions keep the value
// modulo 2^64.
func int64ish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

// widens: a conversion to a 64-bit integer from an unsigned or equal type.
func widens(t *term) bool {
	if t.T == nil || !int64ish(t.T) {
		return false
	}
	f := t.Args[0].T
	if f == nil {
		return false
	}
	b, ok := f.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func polyD(e *eval, t *term, depth int) poly {
	if v, ok := t.IntVal(); ok {
		return polyConst(v)
	}
	if v, ok := e.Canon(t).IntVal(); ok {
		return polyConst(v)
	}
	if depth > 40 {
		return poly{fmt.Sprint(t.ID): 1}
	}
	switch t.K {
	case engine.KConv:
		if widens(t) {
			return polyD(e, t.Args[0], depth+1)
		}
	case engine.KNeg:
		return polyAdd(poly{}, polyD(e, t.Args[0], depth+1), -1)
	case engine.KBin:
		if t.T != nil && !int64ish(t.T) {
			break
		}
		switch t.Op {
		case token.ADD:
			return polyAdd(polyD(e, t.Args[0], depth+1), polyD(e, t.Args[1], depth+1), 1)
		case token.SUB:
			return polyAdd(polyD(e, t.Args[0], depth+1), polyD(e, t.Args[1], depth+1), -1)
		case token.MUL:
			return polyMul(polyD(e, t.Args[0], depth+1), polyD(e, t.Args[1], depth+1))
		case token.SHL:
			if n, ok := t.Args[1].IntVal(); ok && n >= 0 && n < 62 {
				return polyMul(polyD(e, t.Args[0], depth+1), polyConst(1<<uint(n)))
			}
		}
	}
	u := strip64(e.Canon(t))
	if u != t && (u.K == engine.KBin || u.K == engine.KNeg || u.K == engine.KConv) && depth < 20 {
		return polyD(e, u, depth+20)
	}
	return poly{fmt.Sprint(u.ID): 1}
}

func strip64(t *term) *term {
	for t.K == engine.KConv && widens(t) {
		t = t.Args[0]
	}
	return t
}

// sameInt: a and b are equal integers, as polynomials or under e.
func sameInt(e *eval, a, b *term) bool {
	if a == nil || b == nil {
		return false
	}
	return polyEq(polyOf(e, a), polyOf(e, b)) || same(e, strip64(a), strip64(b))
}

// diffT is a-b as an unknown plus a constant, if it is that simple.
func diffT(e *eval, tt *engine.Terms, a, b *term) *term {
	d := polyAdd(polyOf(e, a), polyOf(e, b), -1)
	k := d[""]
	delete(d, "")
	if len(d) == 0 {
		return tt.Int(k)
	}
	if len(d) > 1 {
		return nil
	}
	var atom *term
	for m, c := range d {
		if c != 1 {
			return nil
		}
		a.Walk(func(x *term) bool {
			if atom == nil && fmt.Sprint(x.ID) == m {
				atom = x
			}
			return true
		})
	}
	if atom == nil {
		return nil
	}
	return tt.Add(atom, k)
}

// atMost: a <= b + c follows from the facts, where one fact may speak of the
// same difference in other words.
func atMost(e *eval, facts []engine.Fact, a, b *term, c int64) bool {
	if e.AtMost(a, b, c) {
		return true
	}
	goal := polyAdd(polyAdd(polyOf(e, a), polyOf(e, b), -1), polyConst(c), -1)
	for _, f := range facts {
		if f.T.K != engine.KBin || f.T.Op != token.LSS && f.T.Op != token.LEQ || !isIntT(f.T.Args[0]) || !int64ish(f.T.Args[0].T) {
			continue
		}
		x, y := polyOf(e, f.T.Args[0]), polyOf(e, f.T.Args[1])
		d := polyAdd(x, y, -1)
		if !f.Pol {
			d = polyAdd(y, x, -1)
		}
		if (f.T.Op == token.LSS) == f.Pol {
			d = polyAdd(d, polyConst(1), 1)
		}
		rest := polyAdd(goal, d, -1)
		k := rest[""]
		delete(rest, "")
		if len(rest) == 0 && k <= 0 {
			return true
		}
	}
	return false
}
