package engine

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A bytes.Buffer is modelled by one cell that holds its unread content.

var byteSlice = types.NewSlice(types.Typ[types.Byte])

// ContentVar is the pseudo field that holds a buffer's content.
var ContentVar = types.NewVar(token.NoPos, nil, "·content", byteSlice)

func isBufferPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "Buffer" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes"
}

// buffer models a call of a bytes.Buffer function. It reports whether it was
// one, and whether the state goes on.
func (x *explorer) buffer(s *state, in ssa.CallInstruction, name string, args []*Term, ev *Event, isDefer bool) (bool, bool) {
	tt := x.tt
	f := s.top()
	v, isVal := in.(ssa.Value)
	set := func(st *state, r *Term) {
		if isVal && r != nil && !isDefer {
			st.top().env[v] = r
		}
	}
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		b := tt.mk(Term{K: KAlloc, Aux: "buf|" + x.dyn(s, in), T: v.Type(), Instr: in})
		c := args[0]
		if name == "bytes.NewBufferString" {
			c = tt.mk(Term{K: KConv, Args: []*Term{c}, T: byteSlice})
		}
		x.store(s, tt.FieldAddr(b, ContentVar), c, byteSlice)
		ev.Res = b
		f.env[v] = b
		return true, true
	}
	if len(args) == 0 || !isBufferPtr(args[0].typ()) {
		return false, true
	}
	cell := tt.FieldAddr(args[0], ContentVar)
	cur := x.load(s, cell, byteSlice)
	if cur.K == KNil || (cur.K == KSlice && len(cur.Args) > 2 && cur.Args[2].Is(0)) {
		// nothing in it
	}
	put := func(st *state, c *Term) { x.store(st, cell, c, byteSlice) }
	tup := func(a, b *Term) *Term {
		return tt.mk(Term{K: KTuple, Args: []*Term{a, b}, T: v.Type()})
	}
	nilErr := tt.Nil(types.Universe.Lookup("error").Type())
	switch name {
	case "(*bytes.Buffer).Len":
		ev.Res = tt.Len(cur)
		set(s, ev.Res)
		return true, true
	case "(*bytes.Buffer).Bytes":
		ev.Res = cur
		set(s, cur)
		return true, true
	case "(*bytes.Buffer).String":
		ev.Res = tt.Conv(cur, types.Typ[types.String], nil)
		set(s, ev.Res)
		return true, true
	case "(*bytes.Buffer).Reset":
		put(s, tt.Slice(cur, nil, tt.Int(0), nil, byteSlice))
		return true, true
	case "(*bytes.Buffer).Grow":
		return true, true
	case "(*bytes.Buffer).Truncate":
		put(s, tt.Slice(cur, nil, args[1], nil, byteSlice))
		return true, true
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		put(s, tt.mk(Term{K: KAppend, Aux: "slice", Args: []*Term{cur, args[1]}, T: byteSlice, Idx: tt.okey(in)}))
		ev.Res = tup(tt.Len(args[1]), nilErr)
		set(s, ev.Res)
		return true, true
	case "(*bytes.Buffer).WriteByte":
		put(s, tt.mk(Term{K: KAppend, Aux: "elems", Args: []*Term{cur, args[1]}, T: byteSlice, Idx: tt.okey(in)}))
		ev.Res = nilErr
		set(s, nilErr)
		return true, true
	case "(*bytes.Buffer).Next":
		n := args[1]
		short := tt.Bin(token.LSS, tt.Len(cur), n, types.Typ[types.Bool], nil)
		take := func(st *state, all bool, e *Event) {
			if all {
				// The event of the other fork is shared: results differ only in env.
				set(st, cur)
				put(st, tt.Slice(cur, tt.Len(cur), nil, nil, byteSlice))
				return
			}
			set(st, tt.Slice(cur, nil, n, nil, byteSlice))
			put(st, tt.Slice(cur, n, nil, nil, byteSlice))
		}
		if d, known := x.eval(s).Decide(short); known {
			take(s, d, ev)
			return true, true
		}
		o := s.clone()
		x.assume(o, short, true)
		take(o, true, ev)
		x.work = append(x.work, o)
		x.assume(s, short, false)
		take(s, false, ev)
		return true, true
	}
	// Anything else done to it: the content is what the call made of it.
	put(s, tt.mk(Term{K: KCall, Callee: "·touched", Aux: "touched|" + x.dyn(s, in), Args: []*Term{cur, ev.Res}, T: byteSlice, Instr: in}))
	return false, true
}

// touchBuffers: a buffer handed to some other call may have been written to.
func (x *explorer) touchBuffers(s *state, in ssa.Instruction, args []*Term, res *Term) {
	for _, a := range args {
		for a != nil && a.K == KIface {
			a = a.Args[0]
		}
		if a == nil || !isBufferPtr(a.typ()) {
			continue
		}
		cell := x.tt.FieldAddr(a, ContentVar)
		cur := x.load(s, cell, byteSlice)
		x.store(s, cell, x.tt.mk(Term{K: KCall, Callee: "·written", Aux: "written|" + x.dyn(s, in), Args: []*Term{cur, res}, T: byteSlice, Instr: in}), byteSlice)
	}
}
