package engine

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
)

// Fact is a branch condition with its truth value.
type Fact struct {
	T   *Term
	Pol bool
}

// FactNode is a persistent list of facts.
type FactNode struct {
	parent *FactNode
	Fact
	n  int
	ev *Eval
}

// Slice returns the facts, oldest first.
func (n *FactNode) Slice() []Fact {
	if n == nil {
		return nil
	}
	out := make([]Fact, n.n)
	for i := n; i != nil; i = i.parent {
		out[i.n-1] = i.Fact
	}
	return out
}

// Eval decides terms under a conjunction of facts: constants, equality
// classes, nilness, and difference bounds.
type Eval struct {
	tt    *Terms
	facts []Fact
	rep   map[*Term]*Term
	known map[*Term]bool
	ne    [][2]*Term
	edges []edge
	memo  map[boundKey]boundVal
}

type boundKey struct {
	a, b  *Term
	depth int
}

type boundVal struct {
	c  int64
	ok bool
}

type edge struct {
	y, x *Term // x - y <= c; nil is the constant zero
	c    int64
}

func (tt *Terms) evalOf(n *FactNode) *Eval {
	if n != nil && n.ev != nil {
		return n.ev
	}
	e := &Eval{tt: tt, rep: map[*Term]*Term{}, known: map[*Term]bool{}}
	e.facts = n.Slice()
	for _, f := range e.facts {
		e.known[f.T] = f.Pol
		if f.T.K == KBin {
			a, b := f.T.Args[0], f.T.Args[1]
			switch {
			case f.T.Op == token.EQL && f.Pol:
				e.union(a, b)
				for i, x := range []*Term{a, b} {
					if y := []*Term{b, a}[i]; y.K == KNil && x.T != nil && x.K != KNil {
						if _, ok := x.T.Underlying().(*types.Slice); ok {
							e.addEdge(tt.Int(0), tt.Len(x), 0)
							e.addEdge(tt.Len(x), tt.Int(0), 0)
						}
					}
				}
				if isInt(a.T) || isInt(b.T) {
					e.addEdge(a, b, 0)
					e.addEdge(b, a, 0)
				}
			case f.T.Op == token.EQL:
				e.ne = append(e.ne, [2]*Term{a, b})
			case f.T.Op == token.LSS && f.Pol: // a - b <= -1
				e.addEdge(b, a, -1)
			case f.T.Op == token.LSS: // b - a <= 0
				e.addEdge(a, b, 0)
			case f.T.Op == token.LEQ && f.Pol:
				e.addEdge(b, a, 0)
			case f.T.Op == token.LEQ: // b - a <= -1
				e.addEdge(a, b, -1)
			}
		}
	}
	if n != nil {
		n.ev = e
	}
	return e
}

// addEdge records x - y <= c for integer terms.
func (e *Eval) addEdge(y, x *Term, c int64) {
	if !isInt(y.T) && !isInt(x.T) {
		return
	}
	yb, yo := lin(y)
	xb, xo := lin(x)
	// xb + xo - yb - yo <= c
	e.edges = append(e.edges, edge{yb, xb, c - xo + yo})
}

// lin splits an integer term into a base (nil for none) and a constant offset.
func lin(t *Term) (*Term, int64) {
	if v, ok := t.IntVal(); ok {
		return nil, v
	}
	if t.K == KBin && t.Op == token.ADD {
		if v, ok := t.Args[1].IntVal(); ok {
			b, o := lin(t.Args[0])
			return b, o + v
		}
		if v, ok := t.Args[0].IntVal(); ok {
			b, o := lin(t.Args[1])
			return b, o + v
		}
	}
	return t, 0
}

func (e *Eval) find(t *Term) *Term {
	for {
		r, ok := e.rep[t]
		if !ok {
			return t
		}
		t = r
	}
}

func (e *Eval) union(a, b *Term) {
	ra, rb := e.find(a), e.find(b)
	if ra == rb {
		return
	}
	// Prefer constants as representatives, then the older term.
	ca := ra.K == KConst || ra.K == KNil
	cb := rb.K == KConst || rb.K == KNil
	switch {
	case cb && !ca:
		e.rep[ra] = rb
	case ca && !cb:
		e.rep[rb] = ra
	case ra.ID < rb.ID:
		e.rep[rb] = ra
	default:
		e.rep[ra] = rb
	}
}

// Rep is the representative of the terms known to be equal to t.
func (e *Eval) Rep(t *Term) *Term { return e.find(t) }

// Canon replaces a term that is known to equal a constant or nil by it.
func (e *Eval) Canon(t *Term) *Term {
	if t == nil {
		return nil
	}
	r := e.find(t)
	if r.K == KConst || r.K == KNil {
		return r
	}
	if t.K != KConst && isInt(t.T) {
		if v, ok := e.constInt(t); ok {
			return e.tt.Const(constant.MakeInt64(v), t.T)
		}
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if v, ok := e.Decide(t); ok {
				return e.tt.Bool(v)
			}
		}
	}
	return t
}

func (e *Eval) constInt(t *Term) (int64, bool) {
	hi, ok := e.Upper(t, nil)
	if !ok {
		return 0, false
	}
	lo, ok := e.Upper(nil, t)
	if ok && hi == -lo {
		return hi, true
	}
	return 0, false
}

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "bytes.NewReader": true, "bytes.NewBuffer": true,
	"bytes.NewBufferString": true, "log.New": true, "sync.NewCond": true, "time.After": true,
	"github.com/pkg/sftp.NewRequestServer": true, "gopkg.in/go-playground/validator.v9.New": true,
	"golang.org/x/crypto/hkdf.New": true, "github.com/rfjakob/eme.New": true,
}

// NonNil reports whether t is certainly not nil.
func (e *Eval) NonNil(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.K {
	case KAlloc, KGlobal, KFunc, KClosure, KIface, KMake, KFieldAddr, KIndexAddr:
		return true
	case KAppend:
		if t.Aux == "elems" && len(t.Args) > 1 {
			return true
		}
		return e.NonNil(t.Args[0])
	case KSlice:
		return e.NonNil(t.Args[0])
	case KConv:
		if e.NonNil(t.Args[0]) {
			return true
		}
	case KCall:
		if nonNilCalls[t.Callee] {
			return true
		}
	case KLoad:
		// A package variable that holds an error, such as io.EOF, holds one.
		if t.Args[0].K == KGlobal && t.T != nil && types.TypeString(t.T, nil) == "error" && e.tt.mut != nil && !e.tt.mut(t.Args[0].Aux) {
			return true
		}
	}
	r := e.find(t)
	if r.K == KIface || r.K == KAlloc {
		return true
	}
	for _, p := range e.ne {
		for i := 0; i < 2; i++ {
			if e.find(p[i]) == r && e.find(p[1-i]).K == KNil {
				return true
			}
		}
	}
	return false
}

// IsNil reports whether t is certainly nil.
func (e *Eval) IsNil(t *Term) bool { return t != nil && e.find(t).K == KNil }

// Holds reports whether t is certainly true.
func (e *Eval) Holds(t *Term) bool {
	v, ok := e.Decide(t)
	return ok && v
}

// Decide evaluates a boolean term.
func (e *Eval) Decide(t *Term) (bool, bool) {
	if v, ok := t.BoolVal(); ok {
		return v, true
	}
	if v, ok := e.known[t]; ok {
		return v, true
	}
	switch t.K {
	case KNot:
		v, ok := e.Decide(t.Args[0])
		return !v, ok
	case KBin:
		a, b := t.Args[0], t.Args[1]
		switch t.Op {
		case token.EQL:
			return e.equal(a, b)
		case token.LSS:
			if u, ok := e.Upper(a, b); ok && u <= -1 {
				return true, true
			}
			if u, ok := e.Upper(b, a); ok && u <= 0 {
				return false, true
			}
		case token.LEQ:
			if u, ok := e.Upper(a, b); ok && u <= 0 {
				return true, true
			}
			if u, ok := e.Upper(b, a); ok && u <= -1 {
				return false, true
			}
		}
	}
	if r := e.find(t); r != t {
		if v, ok := r.BoolVal(); ok {
			return v, true
		}
	}
	return false, false
}

func (e *Eval) equal(a, b *Term) (bool, bool) {
	ra, rb := e.find(a), e.find(b)
	if ra == rb {
		return true, true
	}
	if ra.K == KNil && rb.K == KNil {
		return true, true
	}
	if ra.K == KConst && rb.K == KConst {
		if ra.Val.Kind() == rb.Val.Kind() {
			return constant.Compare(ra.Val, token.EQL, rb.Val), true
		}
	}
	if rb.K == KNil && (e.NonNil(a) || e.NonNil(ra)) || ra.K == KNil && (e.NonNil(b) || e.NonNil(rb)) {
		return false, true
	}
	if ra.K == KAlloc && rb.K == KAlloc {
		return false, true
	}
	for _, p := range e.ne {
		x, y := e.find(p[0]), e.find(p[1])
		if x == ra && y == rb || x == rb && y == ra {
			return false, true
		}
	}
	if isInt(a.T) && isInt(b.T) {
		u1, ok1 := e.Upper(a, b)
		u2, ok2 := e.Upper(b, a)
		if ok1 && u1 < 0 || ok2 && u2 < 0 {
			return false, true
		}
		if ok1 && ok2 && u1 == 0 && u2 == 0 {
			return true, true
		}
	}
	// Equal strings have equal lengths.
	if isString(a.T) && isString(b.T) && (a.K == KConst || b.K == KConst) {
		la, lb := e.tt.Len(a), e.tt.Len(b)
		if v, ok := e.equal(la, lb); ok && !v {
			return false, true
		}
	}
	return false, false
}

// Upper gives the least c with a - b <= c that the facts imply; nil is zero.
func (e *Eval) Upper(a, b *Term) (int64, bool) {
	var ab, bb *Term
	var ao, bo int64
	if a != nil {
		ab, ao = lin(a)
	}
	if b != nil {
		bb, bo = lin(b)
	}
	if ab == bb {
		return ao - bo, true
	}
	d, ok := e.upperBase(ab, bb, 2)
	return d + ao - bo, ok
}

// AtMost reports that a <= b + c is implied.
func (e *Eval) AtMost(a, b *Term, c int64) bool {
	u, ok := e.Upper(a, b)
	return ok && u <= c
}

func (e *Eval) upperBase(a, b *Term, depth int) (int64, bool) {
	k := boundKey{a, b, depth}
	if v, ok := e.memo[k]; ok {
		return v.c, v.ok
	}
	if e.memo == nil {
		e.memo = map[boundKey]boundVal{}
	}
	c, ok := e.upperBase1(a, b, depth)
	e.memo[k] = boundVal{c, ok}
	return c, ok
}

func (e *Eval) upperBase1(a, b *Term, depth int) (int64, bool) {
	// Collect the nodes: everything reachable through edges from a and b.
	edges := append([]edge(nil), e.edges...)
	nodes := map[*Term]bool{nil: true, a: true, b: true}
	var atoms []*Term
	var addAtom func(t *Term)
	addAtom = func(t *Term) {
		if t == nil {
			return
		}
		base, _ := lin(t)
		if base == nil {
			return
		}
		for _, x := range atoms {
			if x == base {
				return
			}
		}
		atoms = append(atoms, base)
		nodes[base] = true
		if base.K == KBin || base.K == KLen || base.K == KCap || base.K == KConv {
			for _, s := range base.Args {
				if isInt(s.T) {
					addAtom(s)
				}
			}
		}
	}
	addAtom(a)
	addAtom(b)
	for _, x := range edges {
		addAtom(x.x)
		addAtom(x.y)
	}
	leq := func(x, y *Term, c int64) { // x <= y + c
		var xb, yb *Term
		var xo, yo int64
		if x != nil {
			xb, xo = lin(x)
		}
		if y != nil {
			yb, yo = lin(y)
		}
		if xb == yb {
			return
		}
		nodes[xb], nodes[yb] = true, true
		edges = append(edges, edge{yb, xb, c - xo + yo})
	}
	for i := 0; i < len(atoms); i++ {
		t := atoms[i]
		if isUnsigned(t.T) {
			leq(nil, t, 0)
			switch intBits(t.T) {
			case 8:
				leq(t, nil, 255)
			case 16:
				leq(t, nil, 65535)
			}
		}
		switch t.K {
		case KLen:
			leq(nil, t, 0)
			if c, _, ok := t.Args[0].IsCall("(*bytes.Buffer).Next"); ok && len(c.Args) == 2 {
				leq(t, c.Args[1], 0)
			}
			if t.Args[0].K == KConv && !isString(t.Args[0].T) {
				break
			}
		case KCap:
			leq(nil, t, 0)
			l := e.tt.Len(t.Args[0])
			addAtom(l)
			leq(l, t, 0)
		case KCall:
			switch t.Callee {
			case "builtin.copy":
				leq(nil, t, 0)
				l0, l1 := e.tt.Len(t.Args[0]), e.tt.Len(t.Args[1])
				addAtom(l0)
				addAtom(l1)
				leq(t, l0, 0)
				leq(t, l1, 0)
			case "(*bytes.Buffer).Len":
				leq(nil, t, 0)
			case "runtime.NumCPU", "runtime.GOMAXPROCS":
				leq(nil, t, -1)
			}
		case KExtract:
			// A reader fills at most its buffer.
			if c := t.Args[0]; c.K == KCall && t.Idx == 0 && len(c.Args) >= 2 && isReadCall(c.Callee) {
				leq(nil, t, 0)
				l := e.tt.Len(c.Args[1])
				addAtom(l)
				leq(t, l, 0)
			}
		}
	}
	for _, t := range atoms {
		if t.K == KBin && t.Op == token.REM {
			if c, ok := t.Args[1].IntVal(); ok && c > 0 {
				leq(t, nil, c-1)
			}
		}
	}
	if depth > 0 {
		for _, t := range atoms {
			if t.K != KBin {
				continue
			}
			x, y := t.Args[0], t.Args[1]
			switch t.Op {
			case token.REM:
				if c, ok := y.IntVal(); ok && c > 0 {
					if isUnsigned(t.T) || e.geq0(x, depth-1) {
						leq(nil, t, 0)
						leq(t, x, 0)
					}
				}
			case token.QUO:
				if e.geq0(x, depth-1) && e.geq0(y, depth-1) {
					leq(nil, t, 0)
					leq(t, x, 0)
				}
			case token.AND:
				for k := 0; k < 2; k++ {
					if c, ok := t.Args[k].IntVal(); ok && c >= 0 {
						leq(nil, t, 0)
						leq(t, nil, c)
					}
				}
			case token.ADD:
				for k := 0; k < 2; k++ {
					p, q := t.Args[k], t.Args[1-k]
					if lo, ok := e.upperD(nil, q, depth-1); ok {
						leq(p, t, lo) // p + q >= p - lo
					}
					if hi, ok := e.upperD(q, nil, depth-1); ok {
						leq(t, p, hi)
					}
				}
			case token.MUL:
				if e.geq0(x, depth-1) && e.geq0(y, depth-1) {
					leq(nil, t, 0)
				}
			case token.SUB:
				if isUnsigned(t.T) {
					break // may wrap: see Bin, which folds the provable ones
				}
				if d, ok := e.upperD(y, x, depth-1); ok { // y - x <= d => x - y >= -d
					leq(nil, t, d)
				}
				if d, ok := e.upperD(x, y, depth-1); ok {
					leq(t, nil, d)
				}
				if lo, ok := e.upperD(nil, y, depth-1); ok { // y >= -lo => t <= x + lo
					leq(t, x, lo)
				}
				if hi, ok := e.upperD(y, nil, depth-1); ok { // y <= hi => x <= t + hi
					leq(x, t, hi)
				}
			}
		}
	}
	n := len(nodes)
	run := func() (map[*Term]int64, bool) {
		dist := map[*Term]int64{b: 0}
		for i := 0; i <= n; i++ {
			changed := false
			for _, ed := range edges {
				d, ok := dist[ed.y]
				if !ok {
					continue
				}
				v := d + ed.c
				if o, ok := dist[ed.x]; !ok || v < o {
					dist[ed.x] = v
					changed = true
				}
			}
			if !changed {
				return dist, true
			}
		}
		return dist, false
	}
	dist, ok := run()
	if !ok {
		// Contradictory facts: the path is infeasible; anything holds.
		return math.MinInt32, true
	}
	// x != y together with x - y <= c at equality tightens the bound.
	for round := 0; round < 3; round++ {
		added := false
		for _, p := range e.ne {
			if !isInt(p[0].T) || !isInt(p[1].T) || depth == 0 {
				continue
			}
			for k := 0; k < 2; k++ {
				x, y := p[k], p[1-k]
				xb, xo := lin(x)
				yb, yo := lin(y)
				if xb == yb {
					continue
				}
				if u, ok := e.plain(edges, xb, yb, n); ok && u+xo-yo == 0 {
					edges = append(edges, edge{yb, xb, -1 - xo + yo})
					added = true
				}
			}
		}
		if !added {
			break
		}
		dist, ok = run()
		if !ok {
			return math.MinInt32, true
		}
	}
	d, ok := dist[a]
	return d, ok
}

// plain is the shortest path bound over a fixed edge set.
func (e *Eval) plain(edges []edge, a, b *Term, n int) (int64, bool) {
	dist := map[*Term]int64{b: 0}
	for i := 0; i <= n; i++ {
		changed := false
		for _, ed := range edges {
			d, ok := dist[ed.y]
			if !ok {
				continue
			}
			v := d + ed.c
			if o, ok := dist[ed.x]; !ok || v < o {
				dist[ed.x] = v
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[a]
	return d, ok
}

func (e *Eval) upperD(a, b *Term, depth int) (int64, bool) {
	if depth <= 0 {
		depth = 0
	}
	var ab, bb *Term
	var ao, bo int64
	if a != nil {
		ab, ao = lin(a)
	}
	if b != nil {
		bb, bo = lin(b)
	}
	if ab == bb {
		return ao - bo, true
	}
	d, ok := e.upperBase(ab, bb, depth)
	return d + ao - bo, ok
}

func (e *Eval) geq0(t *Term, depth int) bool {
	if isUnsigned(t.T) {
		return true
	}
	u, ok := e.upperD(nil, t, depth)
	return ok && u <= 0
}

// ------------------------------------------------------------ constructors

// Not negates a boolean term.
func (tt *Terms) Not(t *Term) *Term {
	if v, ok := t.BoolVal(); ok {
		return tt.Bool(!v)
	}
	if t.K == KNot {
		return t.Args[0]
	}
	return tt.mk(Term{K: KNot, Args: []*Term{t}, T: types.Typ[types.Bool]})
}

// Eq builds a == b.
func (tt *Terms) Eq(a, b *Term) *Term { return tt.Bin(token.EQL, a, b, types.Typ[types.Bool], nil) }

// Bin builds a binary operation in normal form.
func (tt *Terms) Bin(op token.Token, a, b *Term, t types.Type, e *Eval) *Term {
	boolT := types.Typ[types.Bool]
	switch op {
	case token.NEQ:
		return tt.Not(tt.Bin(token.EQL, a, b, boolT, e))
	case token.GTR:
		return tt.Bin(token.LSS, b, a, boolT, e)
	case token.GEQ:
		return tt.Bin(token.LEQ, b, a, boolT, e)
	}
	if a.K == KConst && b.K == KConst {
		if v := foldBin(op, a, b, t); v != nil {
			return v(tt)
		}
	}
	switch op {
	case token.EQL:
		if a == b {
			return tt.Bool(true)
		}
		if a.K == KNil && b.K == KNil {
			return tt.Bool(true)
		}
		// A comparison with a boolean constant is the operand itself.
		for i := 0; i < 2; i++ {
			x, c := a, b
			if i == 1 {
				x, c = b, a
			}
			if v, ok := c.BoolVal(); ok {
				if v {
					return x
				}
				return tt.Not(x)
			}
		}
		if a.K == KConst || a.K == KNil || (b.K != KConst && b.K != KNil && a.ID > b.ID) {
			a, b = b, a
		}
		return tt.mk(Term{K: KBin, Op: op, Args: []*Term{a, b}, T: boolT})
	case token.LSS:
		if isInt(a.T) {
			// a < c  ==  a <= c-1
			if v, ok := b.IntVal(); ok && v != math.MinInt64 {
				return tt.mk(Term{K: KBin, Op: token.LEQ, Args: []*Term{a, tt.Const(constant.MakeInt64(v-1), b.T)}, T: boolT})
			}
			if v, ok := a.IntVal(); ok && v != math.MaxInt64 {
				// c < b  ==  !(b <= c)
				return tt.Not(tt.mk(Term{K: KBin, Op: token.LEQ, Args: []*Term{b, a}, T: boolT}))
			}
		}
		return tt.mk(Term{K: KBin, Op: op, Args: []*Term{a, b}, T: boolT})
	case token.LEQ:
		if isInt(a.T) {
			if v, ok := a.IntVal(); ok && v != math.MinInt64 && b.K != KConst {
				// c <= b  ==  !(b <= c-1)
				return tt.Not(tt.mk(Term{K: KBin, Op: token.LEQ, Args: []*Term{b, tt.Const(constant.MakeInt64(v-1), a.T)}, T: boolT}))
			}
		}
		return tt.mk(Term{K: KBin, Op: op, Args: []*Term{a, b}, T: boolT})
	case token.ADD:
		if isInt(t) {
			if a.K == KConst {
				a, b = b, a
			}
			if v, ok := b.IntVal(); ok {
				return tt.plus(a, v, t)
			}
			// (x + c) + (y + d) == (x + y) + (c + d)
			ab, ao := lin(a)
			bb, bo := lin(b)
			if ao != 0 || bo != 0 {
				return tt.plus(tt.Bin(token.ADD, ab, bb, t, e), ao+bo, t)
			}
			// (x - y) + y == x, exact for either signedness
			for i := 0; i < 2; i++ {
				p, q := a, b
				if i == 1 {
					p, q = b, a
				}
				if p.K == KBin && p.Op == token.SUB && p.Args[1] == q {
					return p.Args[0]
				}
			}
			if a.ID > b.ID {
				a, b = b, a
			}
		}
	case token.SUB:
		if a == b && isInt(t) {
			return tt.Const(constant.MakeInt64(0), t)
		}
		if isInt(t) {
			exact := !isUnsigned(t) || (e != nil && e.AtMost(b, a, 0))
			if v, ok := b.IntVal(); ok && exact {
				return tt.plus(a, -v, t)
			}
			if exact {
				ab, ao := lin(a)
				bb, bo := lin(b)
				if ab == bb {
					return tt.Const(constant.MakeInt64(ao-bo), t)
				}
				if ab != nil && (ao != 0 || bo != 0) {
					base := tt.subBase(ab, bb, t, exact)
					return tt.plus(base, ao-bo, t)
				}
				return tt.subBase(a, b, t, exact)
			}
			return tt.mk(Term{K: KBin, Op: token.SUB, Args: []*Term{a, b}, T: t, Aux: "wrap"})
		}
	case token.MUL:
		if a.K == KConst {
			a, b = b, a
		}
		if b.Is(1) {
			return a
		}
		if b.Is(0) {
			return b
		}
		if b.K != KConst && a.ID > b.ID {
			a, b = b, a
		}
	case token.QUO:
		if b.Is(1) {
			return a
		}
		if a.Is(0) {
			return a
		}
	case token.REM:
		if a.Is(0) {
			return a
		}
		if b.Is(1) {
			return tt.Const(constant.MakeInt64(0), t)
		}
	case token.LAND, token.LOR:
	}
	return tt.mk(Term{K: KBin, Op: op, Args: []*Term{a, b}, T: t})
}

func (tt *Terms) subBase(a, b *Term, t types.Type, exact bool) *Term {
	if b == nil {
		return a
	}
	if a != nil {
		if a == b {
			return tt.Const(constant.MakeInt64(0), t)
		}
		// (x + y) - y == x
		if a.K == KBin && a.Op == token.ADD {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
		// x - (x - y) == y
		if b.K == KBin && b.Op == token.SUB && b.Aux != "wrap" && b.Args[0] == a {
			return b.Args[1]
		}
	}
	st := t
	if isUnsigned(t) && exact {
		// Known not to wrap: the difference is an ordinary integer.
		return tt.mk(Term{K: KBin, Op: token.SUB, Args: []*Term{a, b}, T: types.Typ[types.Int]})
	}
	return tt.mk(Term{K: KBin, Op: token.SUB, Args: []*Term{a, b}, T: st})
}

func (tt *Terms) plus(a *Term, v int64, t types.Type) *Term {
	b, o := lin(a)
	o += v
	if b == nil {
		return tt.Const(constant.MakeInt64(o), t)
	}
	if o == 0 {
		return b
	}
	return tt.mk(Term{K: KBin, Op: token.ADD, Args: []*Term{b, tt.Int(o)}, T: t})
}

func foldBin(op token.Token, a, b *Term, t types.Type) func(*Terms) *Term {
	x, y := a.Val, b.Val
	switch op {
	case token.EQL, token.LSS, token.LEQ:
		if x.Kind() != y.Kind() {
			return nil
		}
		if x.Kind() == constant.Bool && op != token.EQL {
			return nil
		}
		v := constant.Compare(x, op, y)
		return func(tt *Terms) *Term { return tt.Bool(v) }
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.REM, token.QUO, token.AND_NOT:
		if x.Kind() == constant.String && op == token.ADD {
			v := constant.BinaryOp(x, op, y)
			return func(tt *Terms) *Term { return tt.Const(v, t) }
		}
		if x.Kind() != constant.Int || y.Kind() != constant.Int {
			return nil
		}
		if (op == token.QUO || op == token.REM) && constant.Sign(y) == 0 {
			return nil
		}
		o := op
		if op == token.QUO {
			o = token.QUO_ASSIGN // integer division
		}
		v := constant.BinaryOp(x, o, y)
		return func(tt *Terms) *Term { return tt.Const(v, t) }
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(y)
		if !ok || s > 63 || x.Kind() != constant.Int {
			return nil
		}
		v := constant.Shift(x, op, uint(s))
		return func(tt *Terms) *Term { return tt.Const(v, t) }
	}
	return nil
}

// Len builds len(t).
func (tt *Terms) Len(t *Term) *Term {
	intT := types.Typ[types.Int]
	switch t.K {
	case KConst:
		if s, ok := t.StrVal(); ok {
			return tt.Int(int64(len(s)))
		}
	case KNil:
		return tt.Int(0)
	case KZero:
		if a, ok := t.T.Underlying().(*types.Array); ok {
			return tt.Int(a.Len())
		}
	case KMake:
		if len(t.Args) > 0 {
			if _, ok := t.T.Underlying().(*types.Slice); ok {
				return t.Args[0]
			}
		}
	case KAlloc, KGlobal, KFieldAddr:
		if pt, ok := t.T.Underlying().(*types.Pointer); ok {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				return tt.Int(a.Len())
			}
		}
	case KSlice:
		hi := tt.Len(t.Args[0])
		if len(t.Args) > 2 && t.Args[2] != nil {
			hi = t.Args[2]
		}
		if t.Args[1].Is(0) {
			return hi
		}
		return tt.subTotal(hi, t.Args[1])
	case KConv:
		if isString(t.T) || isString(t.Args[0].T) {
			if !isInt(t.Args[0].T) {
				return tt.Len(t.Args[0])
			}
		}
		if _, ok := t.T.Underlying().(*types.Slice); ok {
			return tt.Len(t.Args[0])
		}
	case KAppend:
		l := tt.Len(t.Args[0])
		if t.Aux == "elems" {
			return tt.plus(l, int64(len(t.Args)-1), intT)
		}
		return tt.Bin(token.ADD, l, tt.Len(t.Args[1]), intT, nil)
	case KBin:
		if t.Op == token.ADD && isString(t.T) {
			return tt.Bin(token.ADD, tt.Len(t.Args[0]), tt.Len(t.Args[1]), intT, nil)
		}
	}
	return tt.mk(Term{K: KLen, Args: []*Term{t}, T: intT})
}

// subTotal is hi - lo where a slice expression has already required lo <= hi.
func (tt *Terms) subTotal(hi, lo *Term) *Term {
	hb, ho := lin(hi)
	lb, lo2 := lin(lo)
	if hb == lb {
		return tt.Int(ho - lo2)
	}
	if lb == nil {
		return tt.plus(hb, ho-lo2, types.Typ[types.Int])
	}
	var base *Term
	if hb == nil {
		base = tt.mk(Term{K: KBin, Op: token.SUB, Args: []*Term{tt.Int(0), lb}, T: types.Typ[types.Int]})
	} else {
		base = tt.subBase(hb, lb, types.Typ[types.Int], true)
	}
	return tt.plus(base, ho-lo2, types.Typ[types.Int])
}

// Cap builds cap(t).
func (tt *Terms) Cap(t *Term) *Term {
	switch t.K {
	case KMake:
		if len(t.Args) > 1 && t.Args[1] != nil {
			return t.Args[1]
		}
		if len(t.Args) > 0 {
			return t.Args[0]
		}
	case KSlice:
		if t.Args[1].Is(0) && len(t.Args) < 4 {
			return tt.Cap(t.Args[0])
		}
	case KAlloc, KGlobal:
		return tt.Len(t)
	case KNil:
		return tt.Int(0)
	}
	return tt.mk(Term{K: KCap, Args: []*Term{t}, T: types.Typ[types.Int]})
}

// Slice builds base[lo:hi].
func (tt *Terms) Slice(base, lo, hi, max *Term, t types.Type) *Term {
	if lo == nil {
		lo = tt.Int(0)
	}
	// s[lo:len(s)] is s[lo:]
	if hi != nil && hi == tt.Len(base) {
		hi = nil
	}
	if max != nil && max.K == KCap && max.Args[0] == base {
		max = nil
	}
	if lo.Is(0) && hi == nil && max == nil {
		if _, ok := base.T.Underlying().(*types.Pointer); !ok {
			return base
		}
	}
	if v, ok := base.StrVal(); ok {
		l, ok1 := lo.IntVal()
		h := int64(len(v))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.IntVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(v)) {
			return tt.Const(constant.MakeString(v[l:h]), t)
		}
	}
	if base.K == KSlice && max == nil && len(base.Args) < 4 {
		intT := types.Typ[types.Int]
		nlo := tt.Bin(token.ADD, base.Args[1], lo, intT, nil)
		var nhi *Term
		if hi != nil {
			nhi = tt.Bin(token.ADD, base.Args[1], hi, intT, nil)
		} else if len(base.Args) > 2 {
			nhi = base.Args[2]
		}
		args := []*Term{base.Args[0], nlo}
		if nhi != nil {
			args = append(args, nhi)
		}
		return tt.mk(Term{K: KSlice, Args: args, T: t})
	}
	args := []*Term{base, lo}
	if hi != nil || max != nil {
		args = append(args, hi)
	}
	if max != nil {
		args = append(args, max)
	}
	return tt.mk(Term{K: KSlice, Args: args, T: t})
}

// Conv builds T(x).
func (tt *Terms) Conv(x *Term, t types.Type, e *Eval) *Term {
	if isInt(t) && isInt(x.T) {
		if x.K == KConst {
			if v, ok := x.IntVal(); ok {
				bits := intBits(t)
				fits := bits == 64
				if !fits {
					if isUnsigned(t) {
						fits = v >= 0 && v < 1<<uint(bits)
					} else {
						fits = v >= -(1<<uint(bits-1)) && v < 1<<uint(bits-1)
					}
				}
				if isUnsigned(t) && v < 0 {
					fits = false
				}
				if fits {
					return tt.Const(x.Val, t)
				}
			}
		} else {
			sb, db := intBits(x.T), intBits(t)
			su, du := isUnsigned(x.T), isUnsigned(t)
			switch {
			case su == du && db >= sb:
				return x
			case su && !du && db >= sb: // 64-bit unsigned to signed: sizes below 2^63
				return x
			case !su && du && db >= sb && e != nil && e.AtMost(nil, x, 0):
				return x
			}
		}
	}
	if isString(t) && isString(x.T) {
		return x
	}
	if isString(t) && x.K == KConv && isString(x.Args[0].T) {
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			return x.Args[0] // string([]byte(s))
		}
	}
	if types.Identical(t.Underlying(), x.typ().Underlying()) && x.T != nil {
		if _, ok := t.Underlying().(*types.Interface); !ok {
			if _, ok := t.Underlying().(*types.Basic); !ok {
				return x
			}
		}
	}
	return tt.mk(Term{K: KConv, Args: []*Term{x}, T: t})
}

func (t *Term) typ() types.Type {
	if t.T == nil {
		return types.Typ[types.Invalid]
	}
	return t.T
}

// Lin splits t into a base and a constant offset.
func Lin(t *Term) (*Term, int64) { return lin(t) }

// Add is t plus a constant.
func (tt *Terms) Add(t *Term, v int64) *Term { return tt.plus(t, v, t.T) }

// Extract is component i of a tuple.
func (tt *Terms) Extract(t *Term, i int) *Term {
	if t.K == KTuple {
		return t.Args[i]
	}
	var ty types.Type
	if tu, ok := t.T.(*types.Tuple); ok {
		if tu.Len() == 1 || i >= tu.Len() {
			return t
		}
		ty = tu.At(i).Type()
	} else {
		return t
	}
	return tt.mk(Term{K: KExtract, Args: []*Term{t}, Idx: i, T: ty})
}

// Rem is t modulo a constant.
func (tt *Terms) Rem(t *Term, v int64) *Term {
	return tt.Bin(token.REM, t, tt.Int(v), t.T, nil)
}

// Subst rebuilds t with f applied to every subterm first; f returns nil to
// leave a subterm to be rebuilt from its parts.
func (tt *Terms) Subst(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x == nil {
			return nil
		}
		if y, ok := memo[x]; ok {
			return y
		}
		memo[x] = x
		if y := f(x); y != nil {
			memo[x] = y
			return y
		}
		if len(x.Args) == 0 {
			return x
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		y := x
		if ch {
			switch x.K {
			case KBin:
				y = tt.Bin(x.Op, args[0], args[1], x.T, nil)
				if x.Op == token.SUB && x.Aux == "wrap" {
					y = tt.mk(Term{K: KBin, Op: token.SUB, Args: args, T: x.T, Aux: "wrap"})
					if args[0].K == KConst && args[1].K == KConst {
						y = tt.Bin(x.Op, args[0], args[1], types.Typ[types.Int], nil)
					}
				}
			case KNot:
				y = tt.Not(args[0])
			case KLen:
				y = tt.Len(args[0])
			case KCap:
				y = tt.Cap(args[0])
			case KSlice:
				var hi, max *Term
				if len(args) > 2 {
					hi = args[2]
				}
				if len(args) > 3 {
					max = args[3]
				}
				y = tt.Slice(args[0], args[1], hi, max, x.T)
			case KIndexAddr:
				y = tt.IndexAddr(args[0], args[1])
			case KConv:
				y = tt.Conv(args[0], x.T, nil)
			case KExtract:
				y = tt.Extract(args[0], x.Idx)
			case KField:
				y = nil
				if args[0].K == KStruct && x.Idx < len(args[0].Args) {
					y = args[0].Args[x.Idx]
				}
				if y == nil {
					c := *x
					c.Args = args
					y = tt.mk(c)
				}
			default:
				c := *x
				c.Args = args
				y = tt.mk(c)
			}
		}
		memo[x] = y
		return y
	}
	return rec(t)
}

// TT is the term table of e.
func (e *Eval) TT() *Terms { return e.tt }

// isReadCall: the first result is a byte count of at most the length of the
// second argument (receiver included).
func isReadCall(name string) bool {
	switch name {
	case "io.ReadFull", "io.ReadAtLeast":
		return true
	}
	return strings.HasSuffix(name, ".Read") && strings.HasPrefix(name, "(")
}
