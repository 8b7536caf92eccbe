package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// A shape analysis for a doubly linked list with a map over its nodes. A heap
// is a graph of single nodes and of segments that stand for one or more nodes;
// a segment is opened up where the code reaches into it, both for the case that
// it is one node and that more remain. Strings are atoms that are equal or not,
// integers are linear in the list's length and the cache's capacity, of which
// bounds are known. So every list, of any length, is covered.

type skind int

const (
	sUnk skind = iota
	sNil
	sPtr  // to an object
	sEnd  // to the first or last node of a segment
	sAddr // of a field of an object
	sAtom // a string
	sLin  // an integer
	sBool
	sMap
	sRec // a struct value
	sTup
	sIter
	sFunc // a function and, in tup, what it captured
)

// sval is an abstract value.
type sval struct {
	k    skind
	id   int    // object, segment or map
	f    string // field, atom, or "first"/"last"
	n    lin
	b    bool
	rec  map[string]sval
	tup  []sval
	what string // for messages
	fn   *ssa.Function
}

// lin is a*n + b*cap + c, n being the list's initial length.
type lin struct{ a, b, c int64 }

type sobj struct {
	t      types.Type
	f      map[string]sval
	listed bool // was in the list to begin with
}

type sseg struct{ left, right sval }

type smap struct {
	m    map[string]sval // by atom
	segs bool            // also maps the segments' nodes, each by its own key
}

// shape is an abstract state.
type shape struct {
	objs  map[int]*sobj
	segs  map[int]*sseg
	maps  map[int]*smap
	seq   []sval // the initial list: sPtr and sEnd{first}
	next  int
	nLo   int64 // bounds of n
	dHi   int64 // upper bound of n - cap
	dLo   int64 // lower bound of n - cap
	atoms int
	orig  map[int][2]string // the key and value of each initial node
}

const sInf = int64(1) << 40

func (s *shape) clone() *shape {
	c := *s
	c.objs = map[int]*sobj{}
	for i, o := range s.objs {
		n := &sobj{t: o.t, f: map[string]sval{}, listed: o.listed}
		for k, v := range o.f {
			n.f[k] = v
		}
		c.objs[i] = n
	}
	c.segs = map[int]*sseg{}
	for i, g := range s.segs {
		x := *g
		c.segs[i] = &x
	}
	c.maps = map[int]*smap{}
	for i, m := range s.maps {
		n := &smap{m: map[string]sval{}, segs: m.segs}
		for k, v := range m.m {
			n.m[k] = v
		}
		c.maps[i] = n
	}
	c.seq = append([]sval{}, s.seq...)
	c.orig = map[int][2]string{}
	for i, o := range s.orig {
		c.orig[i] = o
	}
	return &c
}

func (s *shape) fresh() int { s.next++; return s.next }

func (s *shape) atom(p string) sval {
	s.atoms++
	return sval{k: sAtom, f: fmt.Sprintf("%s%d", p, s.atoms)}
}

// each rewrites every value in the state.
func (s *shape) each(f func(sval) sval) {
	var deep func(v sval) sval
	deep = func(v sval) sval {
		switch v.k {
		case sRec:
			r := map[string]sval{}
			for k, x := range v.rec {
				r[k] = deep(x)
			}
			v.rec = r
		case sTup, sFunc:
			t := make([]sval, len(v.tup))
			for i, x := range v.tup {
				t[i] = deep(x)
			}
			v.tup = t
		default:
			v = f(v)
		}
		return v
	}
	for _, o := range s.objs {
		for k, v := range o.f {
			o.f[k] = deep(v)
		}
	}
	for _, g := range s.segs {
		g.left, g.right = deep(g.left), deep(g.right)
	}
	for _, m := range s.maps {
		for k, v := range m.m {
			m.m[k] = deep(v)
		}
	}
	for i, v := range s.seq {
		s.seq[i] = deep(v)
	}
}

// roles names the fields of the cache and its nodes.
type roles struct {
	node                   types.Type
	head, last, next, prev string
	key, val               string
	storage, count, cap    string
}

func (r roles) String() string {
	return fmt.Sprintf("least recent end %s, most recent end %s, links %s/%s", r.head, r.last, r.next, r.prev)
}

// open replaces the end of a segment by a node: the segment was that node, or
// more remain.
func (a *shaper) open(s *shape, v sval) []*shape {
	g := s.segs[v.id]
	var out []*shape
	for _, more := range []bool{false, true} {
		c := s.clone()
		id := c.fresh()
		o := &sobj{t: a.r.node, f: map[string]sval{}, listed: true}
		o.f[a.r.key] = c.atom("k")
		o.f[a.r.val] = c.atom("v")
		c.objs[id] = o
		c.orig[id] = [2]string{o.f[a.r.key].f, o.f[a.r.val].f}
		self := sval{k: sPtr, id: id}
		for _, m := range c.maps {
			if m.segs {
				m.m[o.f[a.r.key].f] = self
			}
		}
		delete(c.segs, v.id)
		if !more {
			o.f[a.r.prev], o.f[a.r.next] = g.left, g.right
			c.swapEnds(v.id, self, self)
			c.seqReplace(v.id, self)
		} else {
			rest := c.fresh()
			end := func(w string) sval { return sval{k: sEnd, id: rest, f: w} }
			if v.f == "first" {
				o.f[a.r.prev], o.f[a.r.next] = g.left, end("first")
				c.segs[rest] = &sseg{left: self, right: g.right}
				c.swapEnds(v.id, self, end("last"))
				c.seqReplace(v.id, self, end("first"))
			} else {
				o.f[a.r.prev], o.f[a.r.next] = end("last"), g.right
				c.segs[rest] = &sseg{left: g.left, right: self}
				c.swapEnds(v.id, end("first"), self)
				c.seqReplace(v.id, end("first"), self)
			}
		}
		// How many there are at least.
		n := int64(len(c.seq))
		if n > c.nLo {
			c.nLo = n
		}
		if c.feasible() {
			out = append(out, c)
		}
	}
	return out
}

func (s *shape) feasible() bool {
	if n, ok := s.exactN(); ok && (n < s.nLo || n-s.dLo < 1) {
		return false
	}
	return s.dLo <= s.dHi
}

func (s *shape) swapEnds(id int, first, last sval) {
	// seq keeps its own form
	seq := append([]sval{}, s.seq...)
	s.each(func(v sval) sval {
		if v.k == sEnd && v.id == id {
			if v.f == "first" {
				return first
			}
			return last
		}
		return v
	})
	s.seq = seq
}

func (s *shape) seqReplace(id int, with ...sval) {
	var out []sval
	for _, v := range s.seq {
		if v.k == sEnd && v.id == id {
			for _, w := range with {
				if w.k == sEnd {
					w.f = "first"
				}
				out = append(out, w)
			}
			continue
		}
		out = append(out, v)
	}
	s.seq = out
}

// shaper interprets functions over shapes.
type shaper struct {
	c     *Ctx
	r     roles
	steps int
	bad   string // why it could not go on
	funcs map[*ssa.Function]bool
}

type sframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]sval
	visits map[*ssa.BasicBlock]int
	defers []*ssa.Defer
}

func (f *sframe) clone() *sframe {
	n := &sframe{fn: f.fn, defers: append([]*ssa.Defer{}, f.defers...), env: map[ssa.Value]sval{}, visits: map[*ssa.BasicBlock]int{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return n
}

type sret struct {
	s    *shape
	vals []sval
}

func (a *shaper) giveUp(format string, x ...interface{}) {
	if a.bad == "" {
		a.bad = fmt.Sprintf(format, x...)
	}
}

// call runs fn on a shape and gives all outcomes.
func (a *shaper) call(s *shape, fn *ssa.Function, args []sval, free []sval, depth int) []sret {
	if depth > 12 || len(fn.Blocks) == 0 {
		a.giveUp("cannot follow the call of %s", short(fn))
		return nil
	}
	a.funcs[fn] = true
	f := &sframe{fn: fn, env: map[ssa.Value]sval{}, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		}
	}
	return a.block(s, f, nil, fn.Blocks[0], depth)
}

func (a *shaper) get(s *shape, f *sframe, v ssa.Value) sval {
	switch y := v.(type) {
	case *ssa.Const:
		return constVal(y)
	case *ssa.Function:
		return sval{k: sFunc, fn: y}
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return sval{k: sUnk, what: v.String()}
}

func constVal(y *ssa.Const) sval {
	if y.Value == nil {
		if st, ok := y.Type().Underlying().(*types.Struct); ok {
			return zeroRec(st)
		}
		return sval{k: sNil}
	}
	switch y.Value.Kind() {
	case constant.Bool:
		return sval{k: sBool, b: constant.BoolVal(y.Value)}
	case constant.Int:
		n, _ := constant.Int64Val(y.Value)
		return sval{k: sLin, n: lin{c: n}}
	case constant.String:
		return sval{k: sAtom, f: "const:" + constant.StringVal(y.Value)}
	}
	return sval{k: sUnk}
}

func zeroOf(t types.Type) sval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sval{k: sBool}
		case u.Info()&types.IsInteger != 0:
			return sval{k: sLin}
		case u.Info()&types.IsString != 0:
			return sval{k: sAtom, f: "const:"}
		}
	case *types.Struct:
		return zeroRec(u)
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return sval{k: sNil}
	}
	return sval{k: sUnk}
}

func zeroRec(st *types.Struct) sval {
	r := map[string]sval{}
	for i := 0; i < st.NumFields(); i++ {
		r[st.Field(i).Name()] = zeroOf(st.Field(i).Type())
	}
	return sval{k: sRec, rec: r}
}

// block runs a block to its end and on.
func (a *shaper) block(s *shape, f *sframe, from, b *ssa.BasicBlock, depth int) []sret {
	a.steps++
	f.visits[b]++
	if a.steps > 200000 || f.visits[b] > 40 || a.bad != "" {
		a.giveUp("%s goes round a loop whose effect on a list of any length is not known", short(f.fn))
		return nil
	}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	vals := map[*ssa.Phi]sval{}
	i := 0
	for ; i < len(b.Instrs); i++ {
		ph, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = a.get(s, f, ph.Edges[pi])
	}
	for ph, v := range vals {
		f.env[ph] = v
	}
	return a.run(s, f, b, i, depth)
}

// run interprets from instruction i on.
func (a *shaper) run(s *shape, f *sframe, b *ssa.BasicBlock, i int, depth int) []sret {
	for ; i < len(b.Instrs); i++ {
		if a.bad != "" {
			return nil
		}
		switch y := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Defer:
			if f.visits[b] > 1 {
				a.giveUp("%s defers in a loop", short(f.fn))
				return nil
			}
			f.defers = append(f.defers, y)
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if outs, done := a.callInstr(s, f, b, i-1, d, depth); done {
					return outs
				}
				i--
				continue
			}
		case *ssa.IndexAddr, *ssa.Slice:
			f.env[y.(ssa.Value)] = sval{k: sUnk, what: "scratch"}
		case *ssa.Alloc:
			id := s.fresh()
			t := y.Type().Underlying().(*types.Pointer).Elem()
			o := &sobj{t: t, f: map[string]sval{}}
			if st, ok := t.Underlying().(*types.Struct); ok {
				o.f = zeroRec(st).rec
			} else {
				o.f[""] = zeroOf(t)
			}
			s.objs[id] = o
			f.env[y] = sval{k: sPtr, id: id}
		case *ssa.FieldAddr:
			p := a.get(s, f, y.X)
			if p.k == sEnd {
				return a.reopen(s, f, b, i, y.X, p, depth)
			}
			if p.k == sNil {
				a.giveUp("%s reaches through a nil pointer at %s", short(f.fn), a.c.P.Pos(y.Pos()))
				return nil
			}
			if p.k != sPtr {
				a.giveUp("%s uses a pointer that is not known: %s", short(f.fn), y)
				return nil
			}
			f.env[y] = sval{k: sAddr, id: p.id, f: fieldVarOf(y.X.Type(), y.Field).Name()}
		case *ssa.UnOp:
			switch y.Op {
			case token.MUL:
				p := a.get(s, f, y.X)
				switch p.k {
				case sEnd:
					return a.reopen(s, f, b, i, y.X, p, depth)
				case sAddr:
					f.env[y] = s.objs[p.id].f[p.f]
				case sPtr:
					o := s.objs[p.id]
					if _, ok := o.t.Underlying().(*types.Struct); ok {
						r := map[string]sval{}
						for k, v := range o.f {
							r[k] = v
						}
						f.env[y] = sval{k: sRec, rec: r}
					} else {
						f.env[y] = o.f[""]
					}
				default:
					a.giveUp("%s reads through a pointer that is not known: %s", short(f.fn), y)
					return nil
				}
			case token.NOT:
				v := a.get(s, f, y.X)
				if v.k == sBool {
					v.b = !v.b
					f.env[y] = v
				} else {
					f.env[y] = sval{k: sUnk}
				}
			default:
				f.env[y] = sval{k: sUnk, what: y.String()}
			}
		case *ssa.Store:
			p, v := a.get(s, f, y.Addr), a.get(s, f, y.Val)
			switch p.k {
			case sEnd:
				return a.reopen(s, f, b, i, y.Addr, p, depth)
			case sAddr:
				s.objs[p.id].f[p.f] = v
			case sPtr:
				o := s.objs[p.id]
				if v.k == sRec {
					for k, x := range v.rec {
						o.f[k] = x
					}
				} else {
					o.f[""] = v
				}
			default:
				if p.what == "scratch" && v.k == sUnk {
					continue
				}
				a.giveUp("%s writes through a pointer that is not known: %s", short(f.fn), y)
				return nil
			}
		case *ssa.Field:
			v := a.get(s, f, y.X)
			if v.k == sRec {
				f.env[y] = v.rec[fieldVarOf(y.X.Type(), y.Field).Name()]
			} else {
				f.env[y] = sval{k: sUnk}
			}
		case *ssa.Extract:
			v := a.get(s, f, y.Tuple)
			if v.k == sTup && y.Index < len(v.tup) {
				f.env[y] = v.tup[y.Index]
			} else {
				f.env[y] = sval{k: sUnk}
			}
		case *ssa.MakeMap:
			id := s.fresh()
			s.maps[id] = &smap{m: map[string]sval{}}
			f.env[y] = sval{k: sMap, id: id}
		case *ssa.ChangeType:
			f.env[y] = a.get(s, f, y.X)
		case *ssa.Convert:
			f.env[y] = a.get(s, f, y.X)
		case *ssa.MakeClosure:
			v := sval{k: sFunc, fn: y.Fn.(*ssa.Function)}
			for _, x := range y.Bindings {
				v.tup = append(v.tup, a.get(s, f, x))
			}
			f.env[y] = v
		case *ssa.MakeInterface:
			f.env[y] = sval{k: sUnk, what: "value"}
		case *ssa.Lookup:
			m, k := a.get(s, f, y.X), a.get(s, f, y.Index)
			if m.k != sMap || k.k != sAtom {
				a.giveUp("%s looks in a map that is not known", short(f.fn))
				return nil
			}
			v, ok := s.maps[m.id].m[k.f]
			if !ok {
				if s.maps[m.id].segs && !strings.HasPrefix(k.f, "q") {
					a.giveUp("%s looks up a key that may or may not be there", short(f.fn))
					return nil
				}
				v = zeroOf(y.X.Type().Underlying().(*types.Map).Elem())
			}
			if y.CommaOk {
				f.env[y] = sval{k: sTup, tup: []sval{v, {k: sBool, b: ok}}}
			} else {
				f.env[y] = v
			}
		case *ssa.MapUpdate:
			m, k, v := a.get(s, f, y.Map), a.get(s, f, y.Key), a.get(s, f, y.Value)
			if m.k != sMap || k.k != sAtom {
				a.giveUp("%s changes a map that is not known", short(f.fn))
				return nil
			}
			s.maps[m.id].m[k.f] = v
		case *ssa.Range:
			m := a.get(s, f, y.X)
			out := clearLoop(y)
			if m.k != sMap || out == nil {
				a.giveUp("%s goes through a map", short(f.fn))
				return nil
			}
			s.maps[m.id] = &smap{m: map[string]sval{}}
			f.env[y] = sval{k: sIter}
		case *ssa.Next:
			// After a clearing loop: nothing left.
			f.env[y] = sval{k: sTup, tup: []sval{{k: sBool}, {k: sUnk}, {k: sUnk}}}
		case *ssa.BinOp:
			outs, done := a.binop(s, f, b, i, y, depth)
			if done {
				return outs
			}
		case *ssa.Call:
			outs, done := a.callInstr(s, f, b, i, y, depth)
			if done {
				return outs
			}
		case *ssa.Jump:
			return a.block(s, f, b, b.Succs[0], depth)
		case *ssa.If:
			v := a.get(s, f, y.Cond)
			if v.k == sBool {
				k := 1
				if v.b {
					k = 0
				}
				return a.block(s, f, b, b.Succs[k], depth)
			}
			var out []sret
			for k := 0; k < 2; k++ {
				out = append(out, a.block(s.clone(), f.clone(), b, b.Succs[k], depth)...)
			}
			return out
		case *ssa.Return:
			var vals []sval
			for _, r := range y.Results {
				vals = append(vals, a.get(s, f, r))
			}
			return []sret{{s, vals}}
		case *ssa.Panic:
			a.giveUp("%s may panic at %s", short(f.fn), a.c.P.Pos(y.Pos()))
			return nil
		default:
			a.giveUp("%s does something the list analysis does not know: %s", short(f.fn), y)
			return nil
		}
	}
	return nil
}

// clearLoop: the loop deletes every key it comes to and does nothing else.
func clearLoop(y *ssa.Range) *ssa.BasicBlock {
	for _, r := range *y.Referrers() {
		nx, ok := r.(*ssa.Next)
		if !ok {
			continue
		}
		hdr := nx.Block()
		iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		_ = iff
		body := hdr.Succs[0]
		del := false
		for _, in := range body.Instrs {
			switch z := in.(type) {
			case *ssa.Extract, *ssa.DebugRef, *ssa.Jump, *ssa.FieldAddr, *ssa.UnOp:
			case *ssa.Call:
				bi, ok := z.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "delete" {
					return nil
				}
				ex, ok := z.Call.Args[1].(*ssa.Extract)
				if !ok || ex.Tuple != ssa.Value(nx) || ex.Index != 1 {
					return nil
				}
				del = true
			default:
				return nil
			}
		}
		if del && len(body.Succs) == 1 && body.Succs[0] == hdr {
			return hdr.Succs[1]
		}
	}
	return nil
}

func syncCall(cc *ssa.CallCommon) bool {
	n := sn(fullCallee(cc))
	return strings.HasPrefix(n, "sync.")
}

// reopen opens a segment and repeats the instruction.
func (a *shaper) reopen(s *shape, f *sframe, b *ssa.BasicBlock, i int, at ssa.Value, v sval, depth int) []sret {
	var out []sret
	s = s.clone()
	key := s.park(f)
	for _, c := range a.open(s, v) {
		g := f.clone()
		c.unpark(key, g)
		out = append(out, a.run(c, g, b, i, depth)...)
	}
	return out
}

func (a *shaper) callInstr(s *shape, f *sframe, b *ssa.BasicBlock, i int, y ssa.CallInstruction, depth int) ([]sret, bool) {
	cc := y.Common()
	set := func(f *sframe, v sval) {
		if c, ok := y.(*ssa.Call); ok {
			f.env[c] = v
		}
	}
	if syncCall(cc) {
		set(f, sval{k: sUnk})
		return nil, false
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete":
			m, k := a.get(s, f, cc.Args[0]), a.get(s, f, cc.Args[1])
			if m.k != sMap || k.k != sAtom {
				a.giveUp("%s deletes from a map that is not known", short(f.fn))
				return nil, true
			}
			delete(s.maps[m.id].m, k.f)
			return nil, false
		case "len":
			m := a.get(s, f, cc.Args[0])
			if m.k == sMap {
				set(f, sval{k: sLin, n: s.mapLen(m.id)})
				return nil, false
			}
		}
		a.giveUp("%s uses %s", short(f.fn), bi.Name())
		return nil, true
	}
	fn := cc.StaticCallee()
	var free []sval
	if !cc.IsInvoke() {
		if v := a.get(s, f, cc.Value); v.k == sFunc && v.fn != nil {
			fn, free = v.fn, v.tup
		}
	}
	if fn == nil || !a.c.P.InRepo(fn) || strings.HasSuffix(engine.PkgOf(fn).Path(), "/tlog") {
		for _, x := range cc.Args {
			if v := a.get(s, f, x); v.k == sPtr || v.k == sEnd || v.k == sAddr || v.k == sMap || v.k == sFunc {
				a.giveUp("%s hands a part of the cache to %s", short(f.fn), fullCallee(cc))
				return nil, true
			}
		}
		set(f, sval{k: sUnk, what: "result of " + sn(fullCallee(cc))})
		return nil, false
	}
	var args []sval
	for _, x := range cc.Args {
		args = append(args, a.get(s, f, x))
	}
	// The locals of this frame follow the callee's openings.
	key := s.park(f)
	var out []sret
	for _, r := range a.call(s, fn, args, free, depth+1) {
		g := f.clone()
		r.s.unpark(key, g)
		switch len(r.vals) {
		case 0:
		case 1:
			set(g, r.vals[0])
		default:
			set(g, sval{k: sTup, tup: r.vals})
		}
		out = append(out, a.run(r.s, g, b, i+1, depth)...)
	}
	return out, true
}

// park keeps a frame's values in the state while a callee may open segments.
func (s *shape) park(f *sframe) int {
	id := s.fresh()
	o := &sobj{f: map[string]sval{}}
	var ks []ssa.Value
	for k := range f.env {
		ks = append(ks, k)
	}
	for _, k := range ks {
		o.f[fmt.Sprintf("%p", k)] = f.env[k]
	}
	s.objs[-id] = o
	return -id
}

func (s *shape) unpark(id int, f *sframe) {
	o := s.objs[id]
	for k := range f.env {
		if v, ok := o.f[fmt.Sprintf("%p", k)]; ok {
			f.env[k] = v
		}
	}
	delete(s.objs, id)
}

// mapLen: the map's size, if its entries stay those of the list but for the
// changes made.
func (s *shape) mapLen(id int) lin {
	m := s.maps[id]
	if !m.segs {
		return lin{c: int64(len(m.m))}
	}
	nodes := int64(0)
	for _, v := range s.seq {
		if v.k == sPtr {
			nodes++
		}
	}
	return lin{a: 1, c: int64(len(m.m)) - nodes}
}

// bounds of a linear value.
func (s *shape) bounds(l lin) (int64, int64) {
	// a*n + b*cap + c with d = n - cap, cap >= 1, n >= nLo
	lo, hi := -sInf, sInf
	switch {
	case l.a == 0 && l.b == 0:
		return l.c, l.c
	case l.a+l.b == 0: // a*d + c
		if l.a > 0 {
			lo, hi = l.a*s.dLo+l.c, l.a*s.dHi+l.c
		} else {
			lo, hi = l.a*s.dHi+l.c, l.a*s.dLo+l.c
		}
	case l.b == 0 && l.a > 0:
		lo = l.a*s.nLo + l.c
	case l.b == 0 && l.a < 0:
		hi = l.a*s.nLo + l.c
	case l.a == 0 && l.b > 0:
		c := s.nLo - s.dHi
		if c < 1 {
			c = 1
		}
		lo = l.b*c + l.c
	case l.a == 0 && l.b < 0:
		c := s.nLo - s.dHi
		if c < 1 {
			c = 1
		}
		hi = l.b*c + l.c
	}
	if n, ok := s.exactN(); ok && l.b == 0 {
		return l.a*n + l.c, l.a*n + l.c
	}
	return lo, hi
}

// exactN: the initial length, if there are no segments in it.
func (s *shape) exactN() (int64, bool) {
	n := int64(0)
	for _, v := range s.seq {
		if v.k != sPtr {
			return 0, false
		}
		n++
	}
	return n, true
}

func (a *shaper) binop(s *shape, f *sframe, b *ssa.BasicBlock, i int, y *ssa.BinOp, depth int) ([]sret, bool) {
	x, z := a.get(s, f, y.X), a.get(s, f, y.Y)
	set := func(v sval) ([]sret, bool) { f.env[y] = v; return nil, false }
	truth := func(v bool) ([]sret, bool) { return set(sval{k: sBool, b: v}) }
	if x.k == sLin && z.k == sLin {
		switch y.Op {
		case token.ADD:
			return set(sval{k: sLin, n: lin{x.n.a + z.n.a, x.n.b + z.n.b, x.n.c + z.n.c}})
		case token.SUB:
			return set(sval{k: sLin, n: lin{x.n.a - z.n.a, x.n.b - z.n.b, x.n.c - z.n.c}})
		case token.MUL, token.SHL:
			return set(sval{k: sUnk, what: "product"})
		}
		d := lin{x.n.a - z.n.a, x.n.b - z.n.b, x.n.c - z.n.c}
		var alts []*shape
		var val []bool
		try := func(v bool, lo, hi int64) { // d in [lo,hi]
			c := s.clone()
			if c.restrict(d, lo, hi) {
				alts = append(alts, c)
				val = append(val, v)
			}
		}
		switch y.Op {
		case token.LSS:
			try(true, -sInf, -1)
			try(false, 0, sInf)
		case token.LEQ:
			try(true, -sInf, 0)
			try(false, 1, sInf)
		case token.GTR:
			try(true, 1, sInf)
			try(false, -sInf, 0)
		case token.GEQ:
			try(true, 0, sInf)
			try(false, -sInf, -1)
		case token.EQL:
			try(true, 0, 0)
			try(false, 1, sInf)
			try(false, -sInf, -1)
		case token.NEQ:
			try(false, 0, 0)
			try(true, 1, sInf)
			try(true, -sInf, -1)
		default:
			return set(sval{k: sUnk})
		}
		if len(alts) == 0 {
			return nil, true // cannot be
		}
		var out []sret
		for j, c := range alts {
			g := f.clone()
			g.env[y] = sval{k: sBool, b: val[j]}
			out = append(out, a.run(c, g, b, i+1, depth)...)
		}
		return out, true
	}
	if y.Op == token.EQL || y.Op == token.NEQ {
		pos := y.Op == token.EQL
		switch {
		case x.k == sBool && z.k == sBool:
			return truth((x.b == z.b) == pos)
		case x.k == sEnd && z.k == sNil || x.k == sNil && z.k == sEnd:
			return truth(!pos)
		case x.k == sEnd && z.k == sEnd && x.id == z.id:
			if x.f == z.f {
				return truth(pos)
			}
			return a.reopen(s, f, b, i, y.X, x, depth), true
		case x.k == sEnd && (z.k == sPtr || z.k == sEnd), z.k == sEnd && x.k == sPtr:
			return truth(!pos) // a node of its own is no part of a segment
		case (x.k == sNil || x.k == sPtr || x.k == sMap) && (z.k == sNil || z.k == sPtr || z.k == sMap):
			return truth((x.k == z.k && x.id == z.id) == pos)
		case x.k == sAtom && z.k == sAtom:
			if x.f == z.f {
				return truth(pos)
			}
			if x.f[0] != 'v' && z.f[0] != 'v' && x.f[0] != 'w' && z.f[0] != 'w' && !strings.HasPrefix(x.f, "const") && !strings.HasPrefix(z.f, "const") {
				return truth(!pos) // keys are told apart
			}
			// Equal or not.
			var out []sret
			g := f.clone()
			g.env[y] = sval{k: sBool, b: !pos}
			out = append(out, a.run(s.clone(), g, b, i+1, depth)...)
			c := s.clone()
			h := f.clone()
			ren := func(v sval) sval {
				if v.k == sAtom && v.f == x.f {
					v.f = z.f
				}
				return v
			}
			c.each(ren)
			for i, o := range c.orig {
				for j := range o {
					if o[j] == x.f {
						o[j] = z.f
					}
				}
				c.orig[i] = o
			}
			for k, v := range h.env {
				h.env[k] = ren(v)
			}
			h.env[y] = sval{k: sBool, b: pos}
			out = append(out, a.run(c, h, b, i+1, depth)...)
			return out, true
		}
	}
	return set(sval{k: sUnk, what: y.String()})
}

// restrict adds lo <= d <= hi.
func (s *shape) restrict(d lin, lo, hi int64) bool {
	l, h := s.bounds(d)
	if l > hi || h < lo {
		return false
	}
	if d.a+d.b == 0 && (d.a == 1 || d.a == -1) {
		// d = ±(n-cap) + c
		if d.a == 1 {
			if v := hi - d.c; v < s.dHi {
				s.dHi = v
			}
			if v := lo - d.c; v > s.dLo {
				s.dLo = v
			}
		} else {
			if v := d.c - lo; v < s.dHi {
				s.dHi = v
			}
			if v := d.c - hi; v > s.dLo {
				s.dLo = v
			}
		}
	}
	if d.b == 0 && d.a == 1 {
		if v := lo - d.c; v > s.nLo {
			s.nLo = v
		}
	}
	return s.feasible()
}
