package engine

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step executes one instruction of the abstract machine; false ends the path
// (or hands it over to the work list).
func (x *explorer) step(s *state, f *frame, in ssa.Instruction) bool {
	tt := x.tt
	switch y := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := tt.mk(Term{K: KAlloc, Aux: x.dyn(s, in), T: y.Type(), Instr: in})
		f.env[y] = t
		for a := range s.mem { // re-executed with the same identity
			if a.Root() == t {
				delete(s.mem, a)
			}
		}
		s.mem[t] = tt.Zero(elemType(y.Type()))
	case *ssa.BinOp:
		a, b := x.get(s, y.X), x.get(s, y.Y)
		if (y.Op == token.QUO || y.Op == token.REM) && isInt(y.Type()) && b.K != KConst {
			x.emit(s, &Event{Kind: EvDiv, Instr: in, Args: []*Term{a, b}})
		}
		if y.Op == token.SUB && isUnsigned(y.Type()) {
			x.emit(s, &Event{Kind: EvSub, Instr: in, Args: []*Term{a, b}})
		}
		var e *Eval
		if y.Op == token.SUB {
			e = x.eval(s)
		}
		f.env[y] = tt.Bin(y.Op, a, b, y.Type(), e)
	case *ssa.UnOp:
		return x.unop(s, f, y)
	case *ssa.ChangeType:
		v := x.get(s, y.X)
		f.env[y] = v
	case *ssa.ChangeInterface:
		f.env[y] = x.get(s, y.X)
	case *ssa.Convert:
		f.env[y] = tt.Conv(x.get(s, y.X), y.Type(), x.eval(s))
		if x.cfg.Loads {
			if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
				x.emit(s, &Event{Kind: EvConv, Instr: in, Args: []*Term{x.get(s, y.X)}, Res: f.env[y]})
			}
		}
	case *ssa.MultiConvert:
		f.env[y] = tt.Conv(x.get(s, y.X), y.Type(), x.eval(s))
	case *ssa.SliceToArrayPointer:
		f.env[y] = tt.mk(Term{K: KConv, Args: []*Term{x.get(s, y.X)}, T: y.Type()})
	case *ssa.MakeInterface:
		f.env[y] = tt.mk(Term{K: KIface, Args: []*Term{x.get(s, y.X)}, T: y.X.Type()})
	case *ssa.MakeClosure:
		args := make([]*Term, len(y.Bindings))
		for i, b := range y.Bindings {
			args[i] = x.get(s, b)
		}
		f.env[y] = tt.mk(Term{K: KClosure, Fn: y.Fn.(*ssa.Function), Args: args, T: y.Type()})
	case *ssa.MakeSlice:
		l, c := x.get(s, y.Len), x.get(s, y.Cap)
		t := tt.mk(Term{K: KMake, Aux: x.dyn(s, in), Args: []*Term{l, c}, T: y.Type(), Instr: in})
		f.env[y] = t
		s.mem[tt.mk(Term{K: KUnknown, Aux: "content", Args: []*Term{t}})] = tt.mk(Term{K: KZero, T: y.Type()})
		x.emit(s, &Event{Kind: EvMake, Instr: in, Args: []*Term{l, c}, Res: t})
	case *ssa.MakeMap:
		f.env[y] = tt.mk(Term{K: KMake, Aux: x.dyn(s, in), T: y.Type(), Instr: in})
	case *ssa.MakeChan:
		c := x.get(s, y.Size)
		t := tt.mk(Term{K: KMake, Aux: x.dyn(s, in), Args: []*Term{c}, T: y.Type(), Instr: in})
		f.env[y] = t
		x.emit(s, &Event{Kind: EvMake, Instr: in, Args: []*Term{c}, Res: t})
	case *ssa.Slice:
		base := x.get(s, y.X)
		var lo, hi, max *Term
		if y.Low != nil {
			lo = x.get(s, y.Low)
		}
		if y.High != nil {
			hi = x.get(s, y.High)
		}
		if y.Max != nil {
			max = x.get(s, y.Max)
		}
		t := tt.Slice(base, lo, hi, max, y.Type())
		x.emit(s, &Event{Kind: EvSlice, Instr: in, Args: []*Term{base, lo, hi, max}, Res: t})
		// Having survived the bounds check, the bounds are in order.
		b := types.Typ[types.Bool]
		lim := tt.Len(base)
		if hi != nil {
			if !isString(base.T) && tt.Cap(base) != lim {
				lim = tt.Cap(base)
			}
			x.assume(s, tt.Bin(token.LEQ, hi, lim, b, nil), true)
			lim = hi
		}
		if lo != nil {
			x.assume(s, tt.Bin(token.LEQ, lo, lim, b, nil), true)
			x.assume(s, tt.Bin(token.LEQ, tt.Int(0), lo, b, nil), true)
		}
		f.env[y] = t
	case *ssa.FieldAddr:
		base := x.get(s, y.X)
		x.deref(s, in, base)
		f.env[y] = tt.FieldAddr(base, FieldVar(y.X.Type(), y.Field))
	case *ssa.Field:
		st := y.X.Type().Underlying().(*types.Struct)
		f.env[y] = tt.FieldOf(x.get(s, y.X), st, y.Field)
	case *ssa.IndexAddr:
		base, idx := x.get(s, y.X), x.get(s, y.Index)
		x.index(s, in, base, idx)
		f.env[y] = tt.IndexAddr(base, idx)
	case *ssa.Index:
		base, idx := x.get(s, y.X), x.get(s, y.Index)
		x.index(s, in, base, idx)
		f.env[y] = tt.mk(Term{K: KIndex, Args: []*Term{base, idx}, T: y.Type()})
	case *ssa.Lookup:
		m, k := x.get(s, y.X), x.get(s, y.Index)
		var v, ok *Term
		cell := tt.mk(Term{K: KIndexAddr, Aux: "map", Args: []*Term{m, k}, T: types.NewPointer(elemType(y.X.Type()))})
		if c, known := s.mem[cell]; known {
			if c.K == KUnknown && c.Aux == "absent" {
				v, ok = tt.Zero(elemType(y.X.Type())), tt.Bool(false)
			} else {
				v, ok = c, tt.Bool(true)
			}
		} else {
			et := elemType(y.X.Type())
			if st, isS := x.isRepoStruct(et); isS {
				base := tt.mk(Term{K: KLookup, Args: []*Term{m, k}, Idx: s.ver, T: et})
				args := make([]*Term, st.NumFields())
				for i := range args {
					args[i] = tt.mk(Term{K: KField, Args: []*Term{base}, Var: st.Field(i), Idx: i, T: st.Field(i).Type()})
				}
				v = tt.mk(Term{K: KStruct, Args: args, T: et})
			} else {
				v = tt.mk(Term{K: KLookup, Args: []*Term{m, k}, Idx: s.ver, T: et})
			}
			ok = tt.mk(Term{K: KLookupOk, Args: []*Term{m, k}, Idx: s.ver, T: types.Typ[types.Bool]})
		}
		x.emit(s, &Event{Kind: EvLookup, Instr: in, Args: []*Term{m, k}, Res: v, Ok: ok})
		if y.CommaOk {
			f.env[y] = tt.mk(Term{K: KTuple, Args: []*Term{v, ok}, T: y.Type()})
		} else {
			f.env[y] = v
		}
	case *ssa.Extract:
		f.env[y] = x.extract(x.get(s, y.Tuple), y.Index, y.Type())
	case *ssa.TypeAssert:
		return x.assert(s, f, y)
	case *ssa.Range:
		b := x.get(s, y.X)
		if _, ok := y.X.Type().Underlying().(*types.Map); ok {
			x.emit(s, &Event{Kind: EvMapRange, Instr: in, Args: []*Term{b}})
		}
		f.env[y] = tt.mk(Term{K: KRange, Args: []*Term{b}, Aux: x.dyn(s, in), T: y.Type()})
	case *ssa.Next:
		it := x.get(s, y.Iter)
		if !y.IsString {
			x.emit(s, &Event{Kind: EvMapRange, Instr: in, Args: []*Term{it.Args[0]}})
		}
		f.env[y] = tt.mk(Term{K: KNext, Args: []*Term{it}, Aux: x.dyn(s, in), T: y.Type()})
	case *ssa.Store:
		addr, v := x.get(s, y.Addr), x.get(s, y.Val)
		x.emit(s, &Event{Kind: EvStore, Instr: in, Args: []*Term{addr, v}})
		x.store(s, addr, v, y.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := x.get(s, y.Map), x.get(s, y.Key), x.get(s, y.Value)
		x.emit(s, &Event{Kind: EvMapUpdate, Instr: in, Args: []*Term{m, k, v}, Cells: x.cells(s, []*Term{v})})
		x.mapSet(s, m, k, v)
	case *ssa.Send:
		c, v := x.get(s, y.Chan), x.get(s, y.X)
		x.emit(s, &Event{Kind: EvSend, Instr: in, Args: []*Term{c, v}})
		x.bump(s)
	case *ssa.Select:
		return x.sel(s, f, y)
	case *ssa.Go:
		x.spawn(s, y, EvGo, y.Common())
	case *ssa.Defer:
		callee, args := x.calleeArgs(s, y.Common())
		f.defers = append(f.defers, deferred{y, callee, args})
		x.emit(s, &Event{Kind: EvDefer, Instr: in, Callee: x.calleeName(y.Common(), callee), Args: args})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.pc--
			return x.call(s, d.instr, d.instr.Common(), d.callee, d.args, true)
		}
	case *ssa.Call:
		callee, args := x.calleeArgs(s, y.Common())
		return x.call(s, y, y.Common(), callee, args, false)
	case *ssa.Panic:
		v := x.get(s, y.X)
		x.emit(s, &Event{Kind: EvPanic, Instr: in, Args: []*Term{v}})
		return x.unwind(s, in.Pos())
	case *ssa.Return:
		ret := make([]*Term, len(y.Results))
		for i, r := range y.Results {
			ret[i] = x.get(s, r)
		}
		return x.ret(s, f, ret, in)
	case *ssa.If:
		c := x.get(s, y.Cond)
		pol := true
		for c.K == KNot {
			c, pol = c.Args[0], !pol
		}
		v, ok := x.eval(s).Decide(c)
		br := func(st *state, taken bool) bool {
			x.emit(st, &Event{Kind: EvBranch, Instr: in, Pos: condPos(y), Args: []*Term{c}, Idx: b2i(taken)})
			x.assume(st, c, taken == pol)
			to := f.block.Succs[1]
			if taken {
				to = f.block.Succs[0]
			}
			return x.enter(st, f.block, to)
		}
		if ok {
			return br(s, v == pol)
		}
		o := s.clone()
		if br(o, false) {
			x.work = append(x.work, o)
		}
		return br(s, true)
	case *ssa.Jump:
		return x.enter(s, f.block, f.block.Succs[0])
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = x.fresh(s, in, "instr", v.Type())
		}
	}
	return true
}

func condPos(y *ssa.If) token.Pos {
	if p := y.Cond.Pos(); p.IsValid() {
		return p
	}
	return y.Pos()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *explorer) extract(t *Term, i int, ty types.Type) *Term {
	if t.K == KTuple {
		return t.Args[i]
	}
	return x.tt.mk(Term{K: KExtract, Args: []*Term{t}, Idx: i, T: ty})
}

func (x *explorer) mapSet(s *state, m, k, v *Term) {
	for a := range s.mem {
		if a.K == KIndexAddr && a.Aux == "map" && (a.Args[0] == m || a.Args[0].K != KMake) {
			delete(s.mem, a)
		}
	}
	s.ver++
	cell := x.tt.mk(Term{K: KIndexAddr, Aux: "map", Args: []*Term{m, k}, T: types.NewPointer(elemType(m.typ()))})
	s.mem[cell] = v
	s.wlog = append(s.wlog, cell)
}

func (x *explorer) deref(s *state, in ssa.Instruction, base *Term) {
	switch base.K {
	case KAlloc, KGlobal, KParam, KFieldAddr, KIndexAddr:
		return
	}
	if x.eval(s).NonNil(base) {
		return
	}
	x.emit(s, &Event{Kind: EvDeref, Instr: in, Args: []*Term{base}})
	x.assume(s, x.tt.Eq(base, x.tt.Nil(base.T)), false)
}

func (x *explorer) index(s *state, in ssa.Instruction, base, idx *Term) {
	l := x.tt.Len(base)
	x.emit(s, &Event{Kind: EvIndex, Instr: in, Args: []*Term{base, idx, l}})
	b := types.Typ[types.Bool]
	x.assume(s, x.tt.Bin(token.LSS, idx, l, b, nil), true)
	x.assume(s, x.tt.Bin(token.LEQ, x.tt.Int(0), idx, b, nil), true)
}

func (x *explorer) unop(s *state, f *frame, y *ssa.UnOp) bool {
	tt := x.tt
	v := x.get(s, y.X)
	switch y.Op {
	case token.MUL:
		x.deref(s, y, v)
		r := x.load(s, v, y.Type())
		if x.cfg.Loads && v.Root().K != KAlloc {
			x.emit(s, &Event{Kind: EvLoad, Instr: y, Args: []*Term{v}, Res: r})
		}
		f.env[y] = r
	case token.NOT:
		f.env[y] = tt.Not(v)
	case token.ARROW:
		x.recv(s, f, y, v, y.CommaOk, y)
	default:
		f.env[y] = tt.mk(Term{K: KNeg, Op: y.Op, Args: []*Term{v}, T: y.Type()})
	}
	return true
}

func (x *explorer) recv(s *state, f *frame, in ssa.Instruction, ch *Term, commaOk bool, y *ssa.UnOp) {
	tt := x.tt
	et := elemType(ch.typ())
	var v *Term
	id := x.dyn(s, in)
	if st, ok := x.isRepoStruct(et); ok {
		base := tt.mk(Term{K: KRecv, Args: []*Term{ch}, Aux: id, T: et})
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = tt.mk(Term{K: KField, Args: []*Term{base}, Var: st.Field(i), Idx: i, T: st.Field(i).Type()})
		}
		v = tt.mk(Term{K: KStruct, Args: args, T: et})
	} else {
		v = tt.mk(Term{K: KRecv, Args: []*Term{ch}, Aux: id, T: et})
	}
	ok := tt.mk(Term{K: KRecvOk, Args: []*Term{ch}, Aux: id, T: types.Typ[types.Bool]})
	x.emit(s, &Event{Kind: EvRecv, Instr: in, Args: []*Term{ch}, Res: v, Ok: ok})
	x.bump(s)
	if commaOk {
		// The value is the zero value unless ok.
		o := s.clone()
		x.assume(o, ok, false)
		o.top().env[y] = tt.mk(Term{K: KTuple, Args: []*Term{x.zeroOf(et), tt.Bool(false)}, T: y.Type()})
		x.work = append(x.work, o)
		x.assume(s, ok, true)
		f.env[y] = tt.mk(Term{K: KTuple, Args: []*Term{v, tt.Bool(true)}, T: y.Type()})
	} else {
		f.env[y] = v
	}
}

// zeroOf is the zero value of t, field by field for a struct of the repository.
func (x *explorer) zeroOf(t types.Type) *Term {
	if st, ok := x.isRepoStruct(t); ok {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = x.zeroOf(st.Field(i).Type())
		}
		return x.tt.mk(Term{K: KStruct, Args: args, T: t})
	}
	return x.tt.Zero(t)
}

func (x *explorer) sel(s *state, f *frame, y *ssa.Select) bool {
	tt := x.tt
	n := len(y.States)
	var alts []int
	for i := 0; i < n; i++ {
		alts = append(alts, i)
	}
	if !y.Blocking {
		alts = append(alts, -1)
	}
	for k, alt := range alts {
		st := s
		if k < len(alts)-1 {
			st = s.clone()
		}
		fr := st.top()
		// tuple: index, recvOk, recv_0 ... recv_n-1
		args := []*Term{tt.Int(int64(alt)), tt.Bool(false)}
		var chans []*Term
		for i, c := range y.States {
			ch := x.get(st, c.Chan)
			chans = append(chans, ch)
			if c.Dir == types.SendOnly {
				if i == alt {
					x.emit(st, &Event{Kind: EvSend, Instr: y, Pos: c.Pos, Args: []*Term{ch, x.get(st, c.Send)}, Idx: 1})
				}
				continue
			}
			et := elemType(ch.typ())
			if i == alt {
				id := x.dyn(st, y) + "c"
				v := tt.mk(Term{K: KRecv, Args: []*Term{ch}, Aux: id, T: et})
				args = append(args, v)
				args[1] = tt.mk(Term{K: KRecvOk, Args: []*Term{ch}, Aux: id, T: types.Typ[types.Bool]})
				x.emit(st, &Event{Kind: EvRecv, Instr: y, Pos: c.Pos, Args: []*Term{ch}, Res: v, Ok: args[1], Idx: 1})
			} else {
				args = append(args, tt.Zero(et))
			}
		}
		x.emit(st, &Event{Kind: EvSelect, Instr: y, Idx: alt, Args: chans})
		x.bump(st)
		fr.env[y] = tt.mk(Term{K: KTuple, Args: args, T: y.Type()})
		if st != s {
			x.work = append(x.work, st)
		}
	}
	return true
}

func (x *explorer) assert(s *state, f *frame, y *ssa.TypeAssert) bool {
	tt := x.tt
	v := x.get(s, y.X)
	var val, ok *Term
	if v.K == KIface {
		ct := v.T
		var holds bool
		if it, isI := y.AssertedType.Underlying().(*types.Interface); isI {
			holds = types.Implements(ct, it)
			val = v
		} else {
			holds = types.Identical(ct, y.AssertedType)
			val = v.Args[0]
		}
		ok = tt.Bool(holds)
		if !holds {
			val = tt.Zero(y.AssertedType)
		}
	} else if x.eval(s).IsNil(v) {
		ok = tt.Bool(false)
		val = tt.Zero(y.AssertedType)
	} else {
		if _, isI := y.AssertedType.Underlying().(*types.Interface); isI {
			val = tt.mk(Term{K: KAssert, Args: []*Term{v}, T: y.AssertedType})
		} else {
			val = tt.mk(Term{K: KAssert, Args: []*Term{v}, T: y.AssertedType})
		}
		ok = tt.mk(Term{K: KAssertOk, Args: []*Term{v}, T: y.AssertedType})
	}
	if y.CommaOk {
		// The value is the zero value unless ok, so fork here.
		if b, known := ok.BoolVal(); known {
			_ = b
			f.env[y] = tt.mk(Term{K: KTuple, Args: []*Term{val, ok}, T: y.Type()})
			return true
		}
		if b, known := x.eval(s).Decide(ok); known {
			if !b {
				val = tt.Zero(y.AssertedType)
			}
			f.env[y] = tt.mk(Term{K: KTuple, Args: []*Term{val, tt.Bool(b)}, T: y.Type()})
			return true
		}
		o := s.clone()
		x.assume(o, ok, false)
		o.top().env[y] = tt.mk(Term{K: KTuple, Args: []*Term{tt.Zero(y.AssertedType), tt.Bool(false)}, T: y.Type()})
		x.work = append(x.work, o)
		x.assume(s, ok, true)
		if v.T != nil {
			x.assume(s, tt.Eq(v, tt.Nil(v.T)), false)
		}
		f.env[y] = tt.mk(Term{K: KTuple, Args: []*Term{val, tt.Bool(true)}, T: y.Type()})
		return true
	}
	x.emit(s, &Event{Kind: EvAssert, Instr: y, Args: []*Term{v, ok}, Res: val})
	x.assume(s, ok, true)
	f.env[y] = val
	return true
}

// ------------------------------------------------------------ calls

func (x *explorer) calleeArgs(s *state, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var callee *Term
	if c.IsInvoke() {
		args = append(args, x.get(s, c.Value))
	} else {
		callee = x.get(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.get(s, a))
	}
	return callee, args
}

// FullName is the canonical name of a function or method.
func FullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

func (x *explorer) calleeName(c *ssa.CallCommon, callee *Term) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if callee != nil && callee.Fn != nil {
		return FullName(callee.Fn)
	}
	if fn := c.StaticCallee(); fn != nil {
		return FullName(fn)
	}
	return "dyn"
}

func (x *explorer) spawn(s *state, in ssa.Instruction, k EvKind, c *ssa.CallCommon) {
	callee, args := x.calleeArgs(s, c)
	ev := &Event{Kind: k, Instr: in, Callee: x.calleeName(c, callee), Args: args}
	if callee != nil {
		ev.CalleeFn = callee.Fn
		ev.Res = callee
	}
	all := append([]*Term{}, args...)
	if callee != nil {
		all = append(all, callee)
	}
	ev.Cells = x.cells(s, all)
	x.emit(s, ev)
	x.bump(s)
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"runtime.Goexit": true, "syscall.Exit": true,
}

var panics = map[string]bool{
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true,
}

// pure library functions: same arguments, same result, no effects.
var pureFuncs = map[string]bool{
	"path/filepath.Clean": true, "path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true,
	"path.Clean": true, "path.Join": true, "path.Dir": true, "path.Base": true,
	"path/filepath.Split": true, "path.Split": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.ContainsRune": true,
	"strings.ContainsAny": true, "strings.Index": true, "strings.IndexByte": true, "strings.TrimPrefix": true,
	"strings.TrimSuffix": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Trim": true,
	"strings.Split": true, "strings.Join": true, "strings.EqualFold": true, "strings.ToLower": true, "strings.ToUpper": true,
	"strings.Replace": true, "strings.ReplaceAll": true, "strings.TrimSpace": true,
	"bytes.Equal": true, "bytes.Contains": true, "bytes.IndexByte": true, "bytes.Index": true, "bytes.ContainsAny": true,
	"bytes.ContainsRune": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true,
	"crypto/subtle.ConstantTimeCompare": true, "crypto/subtle.ConstantTimeEq": true,
	"(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).Sys": true, "(io/fs.FileInfo).ModTime": true,
	"(golang.org/x/crypto/ssh.ConnMetadata).User":      true,
	"(golang.org/x/crypto/ssh.NewChannel).ChannelType": true,
	"(golang.org/x/crypto/ssh.NewChannel).ExtraData":   true,
	"(error).Error": true, "math.Log2": true,
	"(encoding/binary.bigEndian).Uint64": false,
	"fmt.Sprintf":                        false,
}

// writers change the memory their pointer arguments refer to.
func writesArg(name string, i int) bool {
	switch name {
	case "encoding/json.Unmarshal":
		return i == 1
	case "flag.BoolVar", "flag.StringVar", "flag.IntVar", "flag.UintVar", "flag.DurationVar":
		return i == 0
	}
	return false
}

// readsOnly: library functions that never write through their arguments.
func readsOnly(name string) bool {
	if pureFuncs[name] {
		return true
	}
	for _, p := range []string{"fmt.", "log.", "(*log.Logger).", "encoding/json.Marshal", "encoding/hex.EncodeToString", "encoding/hex.Dump", "strings.", "errors.", "encoding/pem.", "golang.org/x/crypto/ssh.", "(*golang.org/x/crypto/ssh.", "(golang.org/x/crypto/ssh.", "golang.org/x/crypto/scrypt.", "crypto/aes.", "crypto/cipher.", "crypto/sha", "github.com/rfjakob/eme.", "(*github.com/rfjakob/eme.", "(*encoding/base64.", "(*gopkg.in/go-playground/validator.v9.", "golang.org/x/crypto/hkdf.", "github.com/dchest/siphash.", "bytes.NewReader", "os.", "io/ioutil.", "sync.NewCond", "github.com/pkg/sftp.NewRequestServer", "(*bytes.Buffer).Write"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var syncCalls = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true,
	"(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true, "(*sync.Cond).Wait": true, "(*sync.WaitGroup).Wait": true,
	"(*sync.Mutex).TryLock": true, "(*sync.RWMutex).TryLock": true, "(*sync.RWMutex).TryRLock": true,
	"(sync.Locker).Lock": true, "(sync.Locker).Unlock": true,
}

func (x *explorer) onStack(s *state, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (x *explorer) call(s *state, in ssa.CallInstruction, c *ssa.CallCommon, callee *Term, args []*Term, isDefer bool) bool {
	f := s.top()
	name := x.calleeName(c, callee)
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(s, in, b.Name(), args, isDefer)
	}
	var fn *ssa.Function
	var free []*Term
	invoke := c.IsInvoke()
	if invoke {
		if args[0].K == KIface {
			ct := args[0].T
			if m := x.p.SSA.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
				fn = m
				args = append([]*Term{args[0].Args[0]}, args[1:]...)
				name = FullName(fn)
				invoke = false
			}
		}
	} else if callee.Fn != nil {
		fn = callee.Fn
		if callee.K == KClosure {
			free = callee.Args
		}
	}
	if fn != nil && len(fn.Blocks) > 0 && (x.p.InRepo(fn) || fn.Synthetic != "") && len(s.frames) < 40 &&
		!x.onStack(s, fn) && !(x.cfg.Opaque != nil && x.cfg.Opaque(fn)) {
		x.res.Funcs[fn] = true
		x.emit(s, &Event{Kind: EvEnter, Instr: in, Callee: name, CalleeFn: fn, Args: args, Deferred: isDefer, Cells: x.cells(s, args)})
		id := x.tt.okey(in)
		nf := &frame{fn: fn, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopState{}, call: in, isDef: isDefer,
			sctx: f.sctx + "/" + itoa(id), dctx: f.dctx + "/" + itoa(id) + x.vec(f, in.Block()),
			info: &frameInfo{fn, f.info, f.info.depth + 1}}
		if isDefer {
			nf.sctx += "d"
			nf.dctx += "d"
		}
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			if i < len(free) {
				nf.env[p] = free[i]
			} else {
				nf.env[p] = x.fresh(s, in, "free"+p.Name(), p.Type())
			}
		}
		s.frames = append(s.frames, nf)
		return x.enter(s, nil, fn.Blocks[0])
	}
	// Opaque: one event, an unknown result.
	if invoke {
		x.deref(s, in, args[0])
	}
	inRepo := fn != nil && x.p.InRepo(fn)
	var rt types.Type
	if sig := c.Signature(); sig != nil {
		switch sig.Results().Len() {
		case 0:
			rt = types.NewTuple()
		case 1:
			rt = sig.Results().At(0).Type()
		default:
			rt = sig.Results()
		}
	}
	aux := ""
	if !pureFuncs[name] {
		aux = x.dyn(s, in)
		if isDefer {
			aux += "d"
		}
	}
	targs := args
	if name == "dyn" {
		targs = append([]*Term{callee}, args...)
	}
	res := x.tt.mk(Term{K: KCall, Callee: name, Aux: name + "|" + aux, Args: x.expandVariadic(s, c, targs), T: rt, Instr: in})
	if res.Instr == nil {
		res.Instr = in
	}
	ev := &Event{Kind: EvCall, Instr: in, Callee: name, CalleeFn: fn, Invoke: invoke, Args: targs, Res: res, Deferred: isDefer, Cells: x.cells(s, targs)}
	x.emit(s, ev)
	if noReturn[name] {
		x.finish(s, "exit", nil, in.Pos())
		return false
	}
	if panics[name] {
		return x.unwind(s, in.Pos())
	}
	if done, goOn := x.buffer(s, in, name, args, ev, isDefer); done {
		return goOn
	}
	x.touchBuffers(s, in, args, res)
	switch {
	case syncCalls[name]:
		x.bump(s)
	case inRepo && !isLoggerPkg(fn):
		x.bump(s)
		for _, a := range args {
			x.havocArg(s, a, true)
		}
	case name == "dyn":
		x.bump(s)
	default:
		for i, a := range args {
			if writesArg(name, i) {
				x.havocArg(s, a, false)
			} else if !readsOnly(name) {
				x.havocBytes(s, a)
			}
		}
	}
	if rt != nil && !isDefer {
		if v, ok := in.(ssa.Value); ok {
			x.assumeResult(s, res, name)
			f.env[v] = res
		}
	}
	return true
}

// expandVariadic shows the elements of a variadic argument list in the result
// term, so that terms of pure calls compare by content.
func (x *explorer) expandVariadic(s *state, c *ssa.CallCommon, args []*Term) []*Term {
	sig := c.Signature()
	if sig == nil || !sig.Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	elems, ok := x.elems(s, last)
	if !ok {
		return args
	}
	return append(append([]*Term{}, args[:len(args)-1]...), elems...)
}

// elems lists the elements of a slice of a local array, if all are known.
func (x *explorer) elems(s *state, t *Term) ([]*Term, bool) {
	if t.K == KNil {
		return nil, true
	}
	if t.K != KSlice || t.Args[0].K != KAlloc {
		return nil, false
	}
	arr := t.Args[0]
	n, ok := x.tt.Len(arr).IntVal()
	if !ok || n > 64 {
		return nil, false
	}
	lo, ok := t.Args[1].IntVal()
	if !ok {
		return nil, false
	}
	hi := n
	if len(t.Args) > 2 && t.Args[2] != nil {
		if hi, ok = t.Args[2].IntVal(); !ok {
			return nil, false
		}
	}
	at, ok := elemType(arr.T).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := lo; i < hi; i++ {
		out = append(out, x.load(s, x.tt.IndexAddr(arr, x.tt.Int(i)), at.Elem()))
	}
	return out, true
}

func isLoggerPkg(fn *ssa.Function) bool {
	pk := PkgOf(fn)
	return pk != nil && strings.HasSuffix(pk.Path(), "/tlog")
}

func (x *explorer) havocArg(s *state, a *Term, mutableOnly bool) {
	for a != nil && (a.K == KIface || a.K == KConv) {
		a = a.Args[0]
	}
	if a == nil {
		return
	}
	switch a.K {
	case KAlloc, KFieldAddr, KIndexAddr, KSlice:
		if r := a.Root(); r.K == KAlloc || r.K == KMake {
			if mutableOnly {
				if _, ok := x.isRepoStruct(elemType(r.typ())); !ok && r.K == KAlloc {
					return
				}
			}
			x.havoc(s, r, mutableOnly)
		}
	case KMake:
		if !mutableOnly {
			x.havoc(s, a, false)
		}
	case KClosure:
		// The callee may run the closure, which may write what it captured.
		for _, b := range a.Args {
			if b.K == KAlloc {
				x.havoc(s, b, false)
			}
		}
	}
}

// havocBytes: an unknown library call may fill a byte buffer it is given.
func (x *explorer) havocBytes(s *state, a *Term) {
	if a == nil {
		return
	}
	if sl, ok := a.typ().Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if a.K == KSlice || a.K == KMake {
				x.havoc(s, a.Root(), false)
			}
			s.ver++
		}
	}
	if a.K == KClosure {
		x.havocArg(s, a, false)
	}
}

// assumeResult adds what is known about a library function's results.
func (x *explorer) assumeResult(s *state, res *Term, name string) {
	switch name {
	case "(*bytes.Buffer).Len":
		x.assume(s, x.tt.Bin(token.LEQ, x.tt.Int(0), res, types.Typ[types.Bool], nil), true)
	}
}

func (x *explorer) builtin(s *state, in ssa.CallInstruction, name string, args []*Term, isDefer bool) bool {
	tt := x.tt
	f := s.top()
	var res *Term
	v, isVal := in.(ssa.Value)
	dyn := func() *Term {
		var t types.Type
		if isVal {
			t = v.Type()
		}
		return tt.mk(Term{K: KCall, Callee: "builtin." + name, Aux: name + "|" + x.dyn(s, in), Args: args, T: t, Instr: in})
	}
	switch name {
	case "len", "cap":
		switch args[0].typ().Underlying().(type) {
		case *types.Map, *types.Chan:
			x.emit(s, &Event{Kind: EvLookup, Instr: in, Args: args})
			res = dyn()
		default:
			if name == "len" {
				res = tt.Len(args[0])
			} else {
				res = tt.Cap(args[0])
			}
		}
	case "append":
		if len(args) == 1 {
			res = args[0]
			break
		}
		if el, ok := x.elems(s, args[1]); ok {
			if len(el) == 0 {
				res = args[0]
				break
			}
			res = tt.mk(Term{K: KAppend, Aux: "elems", Args: append([]*Term{args[0]}, el...), T: v.Type(), Idx: tt.okey(in)})
		} else {
			res = tt.mk(Term{K: KAppend, Aux: "slice", Args: []*Term{args[0], args[1]}, T: v.Type(), Idx: tt.okey(in)})
		}
		x.emit(s, &Event{Kind: EvCall, Instr: in, Callee: "builtin.append", Args: args, Res: res})
	case "copy":
		res = dyn()
		// The number of bytes, where it is plain which side is shorter.
		if l0, l1 := tt.Len(args[0]), tt.Len(args[1]); isVal && l0 != l1 {
			if refs := v.Referrers(); refs != nil && len(*refs) > 0 {
				if e := x.eval(s); e.AtMost(l1, l0, 0) {
					res = l1
				} else if e.AtMost(l0, l1, 0) {
					res = l0
				}
			}
		}
		x.emit(s, &Event{Kind: EvCopy, Instr: in, Callee: "builtin.copy", Args: args, Res: res})
		if r := args[0].Root(); r.K == KAlloc || r.K == KMake {
			x.havoc(s, r, false)
		} else {
			s.ver++
			for a := range s.mem {
				if a.K == KIndexAddr && a.Root() == r {
					delete(s.mem, a)
				}
			}
		}
	case "delete":
		x.emit(s, &Event{Kind: EvMapDelete, Instr: in, Callee: "builtin.delete", Args: args, Deferred: isDefer})
		x.mapSet(s, args[0], args[1], tt.mk(Term{K: KUnknown, Aux: "absent"}))
	case "close":
		x.emit(s, &Event{Kind: EvClose, Instr: in, Callee: "builtin.close", Args: args, Deferred: isDefer})
		x.bump(s)
	case "panic":
		x.emit(s, &Event{Kind: EvPanic, Instr: in, Args: args})
		return x.unwind(s, in.Pos())
	case "recover":
		res = dyn()
		if s.panicking && f.isDef {
			s.panicking = false
			s.frames[len(s.frames)-2].recov = true
			x.assume(s, tt.Eq(res, tt.Nil(res.T)), false)
		} else if !s.panicking {
			res = tt.Nil(v.Type())
		}
	case "ssa:wrapnilchk":
		res = args[0]
	case "clear":
		x.emit(s, &Event{Kind: EvCall, Instr: in, Callee: "builtin.clear", Args: args})
		if r := args[0].Root(); r.K == KAlloc || r.K == KMake {
			x.havoc(s, r, false)
		}
		s.ver++
	case "min", "max":
		res = tt.mk(Term{K: KCall, Callee: "builtin." + name, Aux: name, Args: args, T: v.Type(), Instr: in})
		for _, a := range args {
			if name == "min" {
				x.assume(s, tt.Bin(token.LEQ, res, a, types.Typ[types.Bool], nil), true)
			} else {
				x.assume(s, tt.Bin(token.LEQ, a, res, types.Typ[types.Bool], nil), true)
			}
		}
	default:
		res = dyn()
		x.emit(s, &Event{Kind: EvCall, Instr: in, Callee: "builtin." + name, Args: args, Res: res})
	}
	if isVal && res != nil && !isDefer {
		f.env[v] = res
	}
	return true
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// ret returns from the top frame.
func (x *explorer) ret(s *state, f *frame, ret []*Term, in ssa.Instruction) bool {
	if len(s.frames) == 1 {
		// A result that may be true or false, an error that may be nil or not,
		// are two classes of paths.
		for i, r := range ret {
			if r == nil || r.T == nil || x.cfg.NoSplit {
				continue
			}
			cond := r
			isB := false
			if b, ok := r.T.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				isB = true
			} else if types.TypeString(r.T, nil) != "error" {
				continue
			} else {
				cond = x.tt.Eq(r, x.tt.Nil(r.T))
			}
			if cond.K == KConst {
				continue
			}
			v, known := x.eval(s).Decide(cond)
			if known {
				if isB {
					ret = append([]*Term{}, ret...)
					ret[i] = x.tt.Bool(v)
				}
				continue
			}
			o := s.clone()
			x.assume(o, cond, false)
			x.ret(o, o.top(), append([]*Term{}, ret...), in)
			x.assume(s, cond, true)
			if isB {
				ret = append([]*Term{}, ret...)
				ret[i] = x.tt.Bool(true)
			}
		}
		x.emit(s, &Event{Kind: EvReturn, Instr: in, Args: ret, Cells: x.cells(s, ret)})
		x.finish(s, "return", ret, in.Pos())
		return false
	}
	var res *Term
	switch len(ret) {
	case 0:
	case 1:
		res = ret[0]
	default:
		res = x.tt.mk(Term{K: KTuple, Args: ret, T: f.fn.Signature.Results()})
	}
	x.emit(s, &Event{Kind: EvLeave, Instr: in, Callee: FullName(f.fn), CalleeFn: f.fn, Args: ret, Res: res, Cells: x.cells(s, ret)})
	s.frames = s.frames[:len(s.frames)-1]
	if f.isDef {
		if s.panicking {
			return x.unwind(s, in.Pos())
		}
		if s.top().recov {
			return x.afterRecover(s, in.Pos())
		}
		return true // the caller re-runs its RunDefers
	}
	if v, ok := f.call.(ssa.Value); ok && res != nil {
		s.top().env[v] = res
	}
	return true
}

func (x *explorer) afterRecover(s *state, pos token.Pos) bool {
	f := s.top()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		ok := x.call(s, d.instr, d.instr.Common(), d.callee, d.args, true)
		if ok && s.top() == f {
			return x.afterRecover(s, pos)
		}
		return ok
	}
	if f.fn.Recover != nil {
		f.recov = false
		return x.enter(s, nil, f.fn.Recover)
	}
	f.recov = false
	return x.ret(s, f, zeroResults(x.tt, f.fn), f.block.Instrs[len(f.block.Instrs)-1])
}

func zeroResults(tt *Terms, fn *ssa.Function) []*Term {
	var out []*Term
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = append(out, tt.Zero(fn.Signature.Results().At(i).Type()))
	}
	return out
}

// unwind runs the deferred calls of the panicking frames.
func (x *explorer) unwind(s *state, pos token.Pos) bool {
	s.panicking = true
	for {
		f := s.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if !x.call(s, d.instr, d.instr.Common(), d.callee, d.args, true) {
				return false
			}
			if s.top() != f {
				return true // continue inside the deferred call
			}
			continue
		}
		if len(s.frames) == 1 {
			x.finish(s, "panic", nil, pos)
			return false
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
}
