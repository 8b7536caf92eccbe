package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvKind classifies an event on a path.
type EvKind uint8

// The kinds of events.
const (
	EvCall EvKind = iota // opaque or external call
	EvEnter
	EvLeave
	EvStore
	EvLoad
	EvMapUpdate
	EvMapDelete
	EvLookup
	EvMapRange
	EvSend
	EvRecv
	EvClose
	EvSelect // a case of a select was taken
	EvGo
	EvDefer
	EvConv // bytes read as a string
	EvIndex
	EvSlice
	EvAssert
	EvDeref
	EvDiv
	EvSub // unsigned subtraction
	EvMake
	EvCopy
	EvLoop // header arrival: Idx 1 first, 2 general
	EvBranch
	EvPanic
	EvReturn
)

var evNames = [...]string{"call", "enter", "leave", "store", "load", "mapupdate", "mapdelete", "lookup", "maprange", "send", "recv", "close", "select", "go", "defer", "conv", "index", "slice", "assert", "deref", "div", "sub", "make", "copy", "loop", "branch", "panic", "return"}

func (k EvKind) String() string { return evNames[k] }

// Event is something the program does on a path.
type Event struct {
	Kind     EvKind
	Instr    ssa.Instruction
	Pos      token.Pos
	Fn       *ssa.Function
	Stack    *frameInfo
	Callee   string
	CalleeFn *ssa.Function
	Invoke   bool
	Args     []*Term
	Res      *Term
	Ok       *Term // the second result of a lookup or receive
	Facts    *FactNode
	Cells    map[*Term]*Term
	Idx      int
	LoopKey  string
	Deferred bool
	Seq      int // position in the path
}

type frameInfo struct {
	fn     *ssa.Function
	parent *frameInfo
	depth  int
}

// Depth is the inlining depth of the event; 0 is the entry point itself.
func (ev *Event) Depth() int { return ev.Stack.depth }

// In reports whether the event happens inside an inlined call of fn.
func (ev *Event) In(fn *ssa.Function) bool {
	for s := ev.Stack; s != nil; s = s.parent {
		if s.fn == fn {
			return true
		}
	}
	return false
}

// Chain lists the functions on the inlining stack, outermost first.
func (ev *Event) Chain() string {
	var out []string
	for s := ev.Stack; s != nil; s = s.parent {
		out = append([]string{shortFn(s.fn)}, out...)
	}
	return strings.Join(out, " > ")
}

type evNode struct {
	parent *evNode
	ev     *Event
	n      int
}

// Path is one class of executions of an entry point.
type Path struct {
	R      *Result
	Events []*Event
	Facts  *FactNode
	Exit   string // return, panic, exit, cut, block
	Ret    []*Term
	Mem    map[*Term]*Term
	Pos    token.Pos
}

// Eval evaluates under the facts of the whole path.
func (p *Path) Eval() *Eval { return p.R.TT.evalOf(p.Facts) }

// EvalAt evaluates under the facts that held when ev happened.
func (p *Path) EvalAt(ev *Event) *Eval { return p.R.TT.evalOf(ev.Facts) }

// With is the path under one more assumption.
func (p *Path) With(t *Term, pol bool) *Path {
	for t.K == KNot {
		t, pol = t.Args[0], !pol
	}
	q := *p
	n := 1
	if p.Facts != nil {
		n = p.Facts.n + 1
	}
	q.Facts = &FactNode{parent: p.Facts, Fact: Fact{t, pol}, n: n}
	return &q
}

// Desc names the path by the branches it took.
func (p *Path) Desc() string {
	var out []string
	for _, ev := range p.Events {
		if ev.Kind == EvBranch {
			out = append(out, fmt.Sprintf("%s:%v", p.R.P.Pos(ev.Pos), ev.Idx == 1))
		}
	}
	return strings.Join(out, " ")
}

// Config selects what to explore.
type Config struct {
	Entry    *ssa.Function
	Opaque   func(*ssa.Function) bool
	Args     []*Term
	MaxPaths int
	// NoAlias: distinct pointer terms are taken to be different objects.
	NoAlias bool
	// Loads records field and global loads as events.
	Loads bool
	// NoSplit: do not tell apart what undecided results can be.
	NoSplit bool
	TT      *Terms
	// Free, Mem and Facts start the exploration of a closure in the situation
	// another exploration found it in.
	Free  []*Term
	Mem   map[*Term]*Term
	Facts *FactNode
}

// Result holds the paths of one exploration.
type Result struct {
	P      *Prog
	TT     *Terms
	Cfg    Config
	Paths  []*Path
	Capped bool
	Funcs  map[*ssa.Function]bool
	Params []*Term
	Free   []*Term
	Steps  int

	cands map[*Term]map[*Term]bool
}

// Cands gives the values a loop-carried unknown can stand for: its initial
// value and what the loop's back edges bring.
func (r *Result) Cands(mu *Term) []*Term {
	var out []*Term
	for t := range r.cands[mu] {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Values expands loop-carried unknowns into the values they can stand for.
func (r *Result) Values(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.K == KMu {
			for _, c := range r.Cands(x) {
				rec(c)
			}
			return
		}
		out = append(out, x)
	}
	rec(t)
	return out
}

type tables struct {
	phi   map[string]map[*ssa.Phi]bool
	mem   map[string]map[*Term]bool
	bump  map[string]bool
	bad   map[string]bool // falsified loop invariants
	dirty bool
}

type deferred struct {
	instr  *ssa.Defer
	callee *Term
	args   []*Term
}

type loopState struct {
	count  int
	unroll bool
	phis   map[*ssa.Phi]*Term
	mem    map[*Term]*Term
	wlog   int
	bumps  int
	key    string
	outer  string
	memVal map[*Term]*Term // widened cells' values at the general iteration
	initP  map[*ssa.Phi]*Term
	initM  map[*Term]*Term
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	pc     int
	sctx   string
	dctx   string
	loops  map[*ssa.BasicBlock]*loopState
	defers []deferred
	call   ssa.CallInstruction // in the caller; nil for the entry
	info   *frameInfo
	isDef  bool // runs as a deferred call of the frame below
	recov  bool // a deferred call recovered a panic in this frame
}

type state struct {
	frames    []*frame
	mem       map[*Term]*Term
	facts     *FactNode
	evs       *evNode
	ver       int
	bumps     int
	wlog      []*Term
	panicking bool
	steps     int
}

func (s *state) clone() *state {
	n := &state{facts: s.facts, evs: s.evs, ver: s.ver, bumps: s.bumps, panicking: s.panicking, steps: s.steps}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.wlog = s.wlog[:len(s.wlog):len(s.wlog)]
	n.frames = make([]*frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.loops = make(map[*ssa.BasicBlock]*loopState, len(f.loops))
		for k, v := range f.loops {
			l := *v
			g.loops[k] = &l
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	return n
}

func (s *state) top() *frame { return s.frames[len(s.frames)-1] }

type explorer struct {
	p    *Prog
	tt   *Terms
	cfg  Config
	res  *Result
	tab  *tables
	work []*state
}

// Explore enumerates the path classes of an entry point.
func (p *Prog) Explore(cfg Config) *Result {
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	tt := cfg.TT
	if tt == nil {
		tt = newTerms()
	}
	tt.mut = p.mutableGlobal
	tab := &tables{map[string]map[*ssa.Phi]bool{}, map[string]map[*Term]bool{}, map[string]bool{}, map[string]bool{}, false}
	var res *Result
	for round := 0; round < 12; round++ {
		tab.dirty = false
		res = &Result{P: p, TT: tt, Cfg: cfg, Funcs: map[*ssa.Function]bool{}, cands: map[*Term]map[*Term]bool{}}
		x := &explorer{p: p, tt: tt, cfg: cfg, res: res, tab: tab}
		x.run()
		if !tab.dirty || res.Capped {
			break
		}
	}
	if tab.dirty {
		res.Capped = true
	}
	return res
}

func (x *explorer) run() {
	fn := x.cfg.Entry
	st := &state{mem: map[*Term]*Term{}, facts: x.cfg.Facts}
	for k, v := range x.cfg.Mem {
		st.mem[k] = v
	}
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]*loopState{}, info: &frameInfo{fn: fn}}
	for i, pa := range fn.Params {
		var t *Term
		if i < len(x.cfg.Args) && x.cfg.Args[i] != nil {
			t = x.cfg.Args[i]
		} else {
			t = x.tt.mk(Term{K: KParam, Aux: pa.Name(), Idx: i, T: pa.Type(), Fn: fn})
		}
		fr.env[pa] = t
		x.res.Params = append(x.res.Params, t)
	}
	for i, fv := range fn.FreeVars {
		if i < len(x.cfg.Free) && x.cfg.Free[i] != nil {
			fr.env[fv] = x.cfg.Free[i]
			x.res.Free = append(x.res.Free, x.cfg.Free[i])
			continue
		}
		t := x.tt.mk(Term{K: KParam, Aux: "free:" + fv.Name(), Idx: 1000 + i, T: fv.Type(), Fn: fn})
		fr.env[fv] = t
		x.res.Free = append(x.res.Free, t)
	}
	st.frames = []*frame{fr}
	x.res.Funcs[fn] = true
	fr.block = fn.Blocks[0]
	if !x.enter(st, nil, fn.Blocks[0]) {
		return
	}
	x.work = []*state{st}
	for len(x.work) > 0 {
		if len(x.res.Paths) > x.cfg.MaxPaths {
			x.res.Capped = true
			return
		}
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.drive(s)
	}
}

func (x *explorer) finish(s *state, exit string, ret []*Term, pos token.Pos) {
	p := &Path{R: x.res, Facts: s.facts, Exit: exit, Ret: ret, Mem: s.mem, Pos: pos}
	if s.evs != nil {
		p.Events = make([]*Event, s.evs.n)
		for n := s.evs; n != nil; n = n.parent {
			p.Events[n.n-1] = n.ev
		}
	}
	x.res.Paths = append(x.res.Paths, p)
}

func (x *explorer) emit(s *state, ev *Event) *Event {
	f := s.top()
	ev.Fn = f.fn
	ev.Stack = f.info
	if ev.Instr != nil && ev.Pos == token.NoPos {
		ev.Pos = ev.Instr.Pos()
		if ev.Pos == token.NoPos {
			if v, ok := ev.Instr.(ssa.Value); ok {
				ev.Pos = v.Pos()
			}
		}
	}
	ev.Facts = s.facts
	n := 1
	if s.evs != nil {
		n = s.evs.n + 1
	}
	ev.Seq = n - 1
	s.evs = &evNode{s.evs, ev, n}
	return ev
}

func (x *explorer) eval(s *state) *Eval { return x.tt.evalOf(s.facts) }

func (x *explorer) assume(s *state, t *Term, pol bool) {
	for t.K == KNot {
		t, pol = t.Args[0], !pol
	}
	if t.K == KConst {
		return
	}
	if v, ok := x.eval(s).Decide(t); ok && v == pol {
		// Still record it if it is not literally known: rules look facts up.
		if _, lit := x.eval(s).known[t]; lit {
			return
		}
	}
	n := 1
	if s.facts != nil {
		n = s.facts.n + 1
	}
	s.facts = &FactNode{parent: s.facts, Fact: Fact{t, pol}, n: n}
}

// vec identifies the dynamic instance of a block: the iteration of each loop
// around it.
func (x *explorer) vec(f *frame, b *ssa.BasicBlock) string {
	li := x.p.loopsOf(f.fn)
	if len(li.header) == 0 {
		return ""
	}
	s := ""
	for _, h := range f.fn.Blocks {
		if li.header[h] && li.body[h][b] {
			if l := f.loops[h]; l != nil {
				s += "." + strconv.Itoa(l.count)
			}
		}
	}
	return s
}

func (x *explorer) dyn(s *state, in ssa.Instruction) string {
	f := s.top()
	return f.dctx + "/" + strconv.Itoa(x.tt.okey(in)) + x.vec(f, in.Block())
}

// ------------------------------------------------------------ memory

func (x *explorer) isRepoStruct(t types.Type) (*types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if !x.p.InRepoPkg(n.Obj().Pkg()) {
			return nil, false
		}
	}
	return st, true
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Invalid]
}

// FieldAddr builds &base.field.
func (tt *Terms) FieldAddr(base *Term, v *types.Var) *Term {
	return tt.mk(Term{K: KFieldAddr, Args: []*Term{base}, Var: v, T: types.NewPointer(v.Type())})
}

// IndexAddr builds &base[idx].
func (tt *Terms) IndexAddr(base, idx *Term) *Term {
	et := elemType(base.typ())
	if a, ok := et.Underlying().(*types.Array); ok {
		if _, isPtr := base.typ().Underlying().(*types.Pointer); isPtr {
			et = a.Elem()
		}
	}
	if base.K == KSlice {
		idx = tt.Bin(token.ADD, base.Args[1], idx, types.Typ[types.Int], nil)
		base = base.Args[0]
	}
	return tt.mk(Term{K: KIndexAddr, Args: []*Term{base, idx}, T: types.NewPointer(et)})
}

// FieldOf selects a field of a struct value.
func (tt *Terms) FieldOf(v *Term, st *types.Struct, i int) *Term {
	switch v.K {
	case KStruct:
		return v.Args[i]
	case KZero:
		return tt.Zero(st.Field(i).Type())
	}
	return tt.mk(Term{K: KField, Args: []*Term{v}, Var: st.Field(i), Idx: i, T: st.Field(i).Type()})
}

func (x *explorer) load(s *state, addr *Term, t types.Type) *Term {
	if st, ok := x.isRepoStruct(t); ok {
		if v, ok := s.mem[addr]; ok && v.K != KZero {
			return v
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = x.load(s, x.tt.FieldAddr(addr, st.Field(i)), st.Field(i).Type())
		}
		return x.tt.mk(Term{K: KStruct, Args: args, T: t})
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		// A struct of another package, if it was filled in field by field.
		set := false
		for i := 0; i < st.NumFields() && !set; i++ {
			_, set = s.mem[x.tt.FieldAddr(addr, st.Field(i))]
		}
		if set {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = x.load(s, x.tt.FieldAddr(addr, st.Field(i)), st.Field(i).Type())
			}
			return x.tt.mk(Term{K: KStruct, Args: args, T: t})
		}
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch addr.K {
	case KFieldAddr:
		if c, ok := x.p.fieldConst[addr.Var]; ok {
			return x.tt.Const(c, t)
		}
		if w := x.whole(s, addr.Args[0]); w != nil {
			if w.K == KZero && addr.Var == ContentVar {
				return x.tt.Nil(t)
			}
			if st, ok := elemType(addr.Args[0].typ()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == addr.Var {
						return x.tt.FieldOf(w, st, i)
					}
				}
			}
		}
	case KIndexAddr:
		base, idx := addr.Args[0], addr.Args[1]
		if n, ok := idx.IntVal(); ok {
			if base.K == KAppend && base.Aux == "elems" {
				if l, ok := x.tt.Len(base.Args[0]).IntVal(); ok {
					if n >= l && int(n-l)+1 < len(base.Args) {
						return base.Args[1+int(n-l)]
					}
				}
			}
			if w := x.whole(s, base); w != nil && w.K == KZero {
				return x.tt.Zero(t)
			}
		}
		if base.K == KMake {
			if w, ok := s.mem[x.tt.mk(Term{K: KUnknown, Aux: "content", Args: []*Term{base}})]; ok && w.K == KZero {
				return x.tt.Zero(t)
			}
		}
	}
	if addr.K == KParam && addr.Idx >= 1000 && addr.Fn != nil {
		if v := x.captured(addr.Fn, addr.Idx-1000); v != nil {
			return v
		}
	}
	ver := s.ver
	if x.immutable(addr) {
		ver = 0
	}
	v := x.tt.mk(Term{K: KLoad, Args: []*Term{addr}, Idx: ver, T: t})
	s.mem[addr] = v
	return v
}

// captured: the function held by a variable that the closure fn captures, if
// the variable is assigned once, before fn is made.
func (x *explorer) captured(fn *ssa.Function, i int) *Term {
	mc := soleMaker(fn)
	if mc == nil || i >= len(mc.Bindings) {
		return nil
	}
	cell, ok := mc.Bindings[i].(*ssa.Alloc)
	if !ok {
		return nil
	}
	st := soleStore(cell)
	if st == nil || st.Block() != mc.Block() && !st.Block().Dominates(mc.Block()) {
		return nil
	}
	switch v := st.Val.(type) {
	case *ssa.Function:
		return x.tt.mk(Term{K: KFunc, Fn: v, T: v.Type()})
	case *ssa.MakeClosure:
		g := v.Fn.(*ssa.Function)
		args := make([]*Term, len(v.Bindings))
		for k, b := range v.Bindings {
			for j, o := range mc.Bindings {
				if o == b {
					args[k] = x.tt.mk(Term{K: KParam, Aux: "free:" + fn.FreeVars[j].Name(), Idx: 1000 + j, T: fn.FreeVars[j].Type(), Fn: fn})
				}
			}
			if args[k] == nil {
				args[k] = x.tt.mk(Term{K: KParam, Aux: "free:" + g.Name() + "." + g.FreeVars[k].Name(), Idx: 1000 + k, T: g.FreeVars[k].Type(), Fn: g})
			}
		}
		return x.tt.mk(Term{K: KClosure, Fn: g, Args: args, T: v.Type()})
	}
	return nil
}

func soleMaker(fn *ssa.Function) *ssa.MakeClosure {
	var mc *ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if y, ok := in.(*ssa.MakeClosure); ok && y.Fn == fn {
				if mc != nil {
					return nil
				}
				mc = y
			}
		}
	}
	return mc
}

// soleStore is the one assignment to a local variable whose address is only
// used by loads and by closures that only load it.
func soleStore(cell *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *cell.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(cell) || st != nil {
				return nil
			}
			st = y
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if !onlyLoads(y, cell, 0) {
				return nil
			}
		default:
			return nil
		}
	}
	return st
}

func onlyLoads(mc *ssa.MakeClosure, v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	g := mc.Fn.(*ssa.Function)
	for k, b := range mc.Bindings {
		if b != v {
			continue
		}
		for _, r := range *g.FreeVars[k].Referrers() {
			switch y := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if !onlyLoads(y, g.FreeVars[k], depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// whole finds the value stored to all of an enclosing object.
func (x *explorer) whole(s *state, addr *Term) *Term {
	if v, ok := s.mem[addr]; ok {
		if v.K == KZero || addr.K == KAlloc || addr.K == KFieldAddr || addr.K == KIndexAddr {
			return v
		}
	}
	if addr.K == KFieldAddr {
		if w := x.whole(s, addr.Args[0]); w != nil {
			if st, ok := elemType(addr.Args[0].typ()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == addr.Var {
						return x.tt.FieldOf(w, st, i)
					}
				}
			}
		}
	}
	if addr.K == KIndexAddr {
		if n, ok := addr.Args[1].IntVal(); ok {
			base := addr.Args[0]
			if base.K == KAppend && base.Aux == "elems" {
				if l, ok := x.tt.Len(base.Args[0]).IntVal(); ok && n >= l && int(n-l)+1 < len(base.Args) {
					return base.Args[1+int(n-l)]
				}
			}
		}
	}
	return nil
}

// immutable reports whether the cell never changes once its object exists.
func (x *explorer) immutable(addr *Term) bool {
	switch addr.K {
	case KFieldAddr:
		if x.p.mutable[addr.Var] || addr.Var == ContentVar {
			return false
		}
		if addr.Args[0].K == KAlloc {
			return false
		}
		// An embedded struct's field is as immutable as what it is embedded in.
		if addr.Args[0].K == KFieldAddr || addr.Args[0].K == KIndexAddr {
			return true
		}
		return true
	case KGlobal:
		return !x.p.mutableGlobal(addr.Aux)
	}
	return false
}

func (x *explorer) store(s *state, addr, v *Term, t types.Type) {
	if st, ok := x.isRepoStruct(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			x.store(s, x.tt.FieldAddr(addr, st.Field(i)), x.tt.FieldOf(v, st, i), st.Field(i).Type())
		}
		if addr.K == KAlloc {
			delete(s.mem, addr)
		}
		return
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		for a := range s.mem {
			if a.K == KFieldAddr && a.Args[0] == addr {
				delete(s.mem, a)
			}
		}
	}
	if !x.cfg.NoAlias && addr.Root().K != KAlloc {
		for a := range s.mem {
			if a != addr && a.K == addr.K && a.Var == addr.Var && a.K == KFieldAddr && a.Root().K != KAlloc {
				delete(s.mem, a)
			}
		}
	}
	if addr.K == KIndexAddr {
		for a := range s.mem {
			if a != addr && a.K == KIndexAddr && a.Args[0] == addr.Args[0] {
				_, c1 := a.Args[1].IntVal()
				_, c2 := addr.Args[1].IntVal()
				if !c1 || !c2 {
					delete(s.mem, a)
				}
			}
		}
		if _, c := addr.Args[1].IntVal(); !c {
			delete(s.mem, addr.Args[0])
			delete(s.mem, x.tt.mk(Term{K: KUnknown, Aux: "content", Args: []*Term{addr.Args[0]}}))
		}
		s.ver++
	}
	s.mem[addr] = v
	s.wlog = append(s.wlog, addr)
}

// bump forgets everything another goroutine or an unknown callee may change.
func (x *explorer) bump(s *state) {
	s.ver++
	s.bumps++
	for a := range s.mem {
		if r := a.Root(); r.K == KAlloc || r.K == KMake {
			continue
		}
		if x.immutable(a) {
			continue
		}
		delete(s.mem, a)
	}
}

// havoc forgets the contents of an object; mutableOnly keeps what is only
// ever set at construction.
func (x *explorer) havoc(s *state, root *Term, mutableOnly bool) {
	s.ver++
	for a := range s.mem {
		r := a.Root()
		if r == root || (a.K == KUnknown && len(a.Args) > 0 && a.Args[0] == root) {
			if mutableOnly && a.K == KFieldAddr && !x.p.mutable[a.Var] {
				continue
			}
			if mutableOnly && a == root {
				// Materialise the untouched immutable fields first.
				continue
			}
			s.wlog = append(s.wlog, a)
			delete(s.mem, a)
		}
	}
}

// cells collects what is stored in the local objects the arguments refer to.
func (x *explorer) cells(s *state, args []*Term) map[*Term]*Term {
	roots := map[*Term]bool{}
	var add func(t *Term, d int)
	add = func(t *Term, d int) {
		if t == nil || d > 6 {
			return
		}
		switch t.K {
		case KAlloc:
			if roots[t] {
				return
			}
			roots[t] = true
			for a, v := range s.mem {
				if a.Root() == t {
					add(v, d+1)
				}
			}
		case KIface, KSlice, KFieldAddr, KIndexAddr, KStruct, KClosure, KAppend, KConv, KTuple:
			for _, y := range t.Args {
				add(y, d+1)
			}
		}
	}
	for _, a := range args {
		add(a, 0)
	}
	if len(roots) == 0 {
		return nil
	}
	out := map[*Term]*Term{}
	for a, v := range s.mem {
		if roots[a.Root()] {
			out[a] = v
		}
	}
	return out
}

// ------------------------------------------------------------ control flow

func elemOfAddr(a *Term) types.Type {
	if a.T == nil {
		return types.Typ[types.Invalid]
	}
	return elemType(a.T)
}

func (x *explorer) cand(mu, v *Term) {
	m := x.res.cands[mu]
	if m == nil {
		m = map[*Term]bool{}
		x.res.cands[mu] = m
	}
	m[v] = true
}

func (x *explorer) mu(ls *loopState, what interface{}, t types.Type) *Term {
	id := 0
	if m, ok := what.(*Term); ok {
		id = -m.ID
	} else {
		id = x.tt.okey(what)
	}
	return x.tt.mk(Term{K: KMu, Aux: ls.key + ls.outer, Idx: id, T: t})
}

var invKinds = []string{"ge", "le", "nn", "len"}

// invTerm gives the candidate loop invariant of a kind, or nil.
func (x *explorer) invTerm(kind string, mu, init *Term) (*Term, bool) {
	switch kind {
	case "ge":
		if isInt(mu.T) && isInt(init.T) {
			return x.tt.Bin(token.LEQ, init, mu, types.Typ[types.Bool], nil), true
		}
	case "le":
		if isInt(mu.T) && isInt(init.T) {
			return x.tt.Bin(token.LEQ, mu, init, types.Typ[types.Bool], nil), true
		}
	case "nn":
		switch mu.typ().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
			return x.tt.Eq(mu, x.tt.Nil(mu.T)), false
		}
	case "len":
		switch mu.typ().Underlying().(type) {
		case *types.Slice:
			return x.tt.Bin(token.LEQ, x.tt.Len(init), x.tt.Len(mu), types.Typ[types.Bool], nil), true
		}
	}
	return nil, false
}

func (x *explorer) checkInv(s *state, ls *loopState, id string, v, init *Term) {
	e := x.eval(s)
	for _, k := range invKinds {
		key := ls.key + "|" + id + "|" + k
		if x.tab.bad[key] {
			continue
		}
		ok := true
		if k == "nn" {
			if _, isN := x.invTerm(k, v, init); !isN {
				ok = e.NonNil(v) && e.NonNil(init)
			}
			if t, _ := x.invTerm(k, v, init); t == nil {
				continue
			}
		} else {
			t, pol := x.invTerm(k, v, init)
			if t == nil {
				continue
			}
			d, known := e.Decide(t)
			ok = known && d == pol
		}
		if !ok {
			x.tab.bad[key] = true
			x.tab.dirty = true
		}
	}
}

func (x *explorer) assumeInv(s *state, ls *loopState, id string, mu, init *Term) {
	for _, k := range invKinds {
		if x.tab.bad[ls.key+"|"+id+"|"+k] {
			continue
		}
		if t, pol := x.invTerm(k, mu, init); t != nil {
			if k == "nn" && !x.eval(s).NonNil(init) {
				continue
			}
			x.assume(s, t, pol)
		}
	}
}

// enter moves the top frame to block to. It reports false if the path ends.
func (x *explorer) enter(s *state, from, to *ssa.BasicBlock) bool {
	f := s.top()
	f.block, f.pc = to, 0
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	f.pc = len(phis)
	in := make([]*Term, len(phis))
	if from != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for i, ph := range phis {
			in[i] = x.get(s, ph.Edges[pi])
		}
	}
	li := x.p.loopsOf(f.fn)
	if !li.header[to] {
		for i, ph := range phis {
			f.env[ph] = in[i]
		}
		return true
	}
	back := from != nil && li.back[[2]*ssa.BasicBlock{from, to}]
	e := x.eval(s)
	for i := range in {
		in[i] = e.Canon(in[i])
	}
	if !back {
		// Entering afresh: forget the iteration counts of inner loops too.
		outer := ""
		for _, h := range f.fn.Blocks {
			if h != to && li.header[h] && li.body[h][to] {
				if l := f.loops[h]; l != nil {
					outer += "." + strconv.Itoa(l.count)
				}
			}
		}
		ls := &loopState{count: 1, phis: map[*ssa.Phi]*Term{}, mem: map[*Term]*Term{}, wlog: len(s.wlog), bumps: s.bumps,
			key:   f.sctx + "#" + strconv.Itoa(x.tt.okey(to)),
			outer: "@" + f.dctx + outer}
		for i, ph := range phis {
			ls.phis[ph] = in[i]
			f.env[ph] = in[i]
		}
		// Fields the loop sets, of objects not yet filled in field by field.
		for _, a := range sortedTerms(x.tab.mem[ls.key]) {
			if _, ok := s.mem[a]; !ok && a.K == KFieldAddr && a.Root().K == KAlloc && x.whole(s, a.Args[0]) != nil {
				s.mem[a] = x.load(s, a, elemOfAddr(a))
			}
		}
		for k, v := range s.mem {
			ls.mem[k] = v
		}
		ls.initP, ls.initM = ls.phis, ls.mem
		f.loops[to] = ls
		if x.overLiteral(s, to) {
			ls.unroll = true
			return true
		}
		x.emit(s, &Event{Kind: EvLoop, Idx: 1, LoopKey: ls.key, Instr: to.Instrs[0], Pos: blockPos(to)})
		return true
	}
	ls := f.loops[to]
	if ls.unroll {
		ls2 := *ls
		ls2.count++
		f.loops[to] = &ls2
		for i, ph := range phis {
			f.env[ph] = in[i]
		}
		return true
	}
	// What did this trip round the loop change?
	if x.tab.phi[ls.key] == nil {
		x.tab.phi[ls.key] = map[*ssa.Phi]bool{}
		x.tab.mem[ls.key] = map[*Term]bool{}
	}
	for i, ph := range phis {
		if in[i] != ls.phis[ph] && !x.tab.phi[ls.key][ph] {
			x.tab.phi[ls.key][ph] = true
			x.tab.dirty = true
		}
	}
	seen := map[*Term]bool{}
	for _, a := range s.wlog[ls.wlog:] {
		if seen[a] || x.tab.mem[ls.key][a] {
			continue
		}
		seen[a] = true
		old, had := ls.mem[a]
		cur, has := s.mem[a]
		if has {
			cur = e.Canon(cur)
		}
		if had && has && (old == cur || e.Canon(old) == cur) {
			continue
		}
		if !x.existedBefore(a, ls) {
			continue
		}
		x.tab.mem[ls.key][a] = true
		x.tab.dirty = true
	}
	if s.bumps != ls.bumps && !x.tab.bump[ls.key] {
		x.tab.bump[ls.key] = true
		x.tab.dirty = true
	}
	// Candidates and invariants of what is carried round.
	carried := map[*Term]*Term{}
	for i, ph := range phis {
		if x.tab.phi[ls.key][ph] {
			mu := x.mu(ls, ph, ph.Type())
			carried[mu] = in[i]
			x.cand(mu, in[i])
			x.cand(mu, ls.initP[ph])
			x.checkInv(s, ls, "p"+strconv.Itoa(x.tt.okey(ph)), in[i], ls.initP[ph])
		}
	}
	for a := range x.tab.mem[ls.key] {
		if v, ok := s.mem[a]; ok {
			mu := x.mu(ls, a, elemOfAddr(a))
			carried[mu] = v
			x.cand(mu, v)
			if i, ok := ls.initM[a]; ok {
				x.cand(mu, i)
				x.checkInv(s, ls, "m"+strconv.Itoa(a.ID), v, i)
			}
		}
	}
	ls.count++
	if ls.count > 2 {
		x.emit(s, &Event{Kind: EvLoop, Idx: 3, LoopKey: ls.key, Instr: to.Instrs[0], Pos: blockPos(to), Cells: carried})
		x.finish(s, "cut", nil, blockPos(to))
		return false
	}
	ls.phis = map[*ssa.Phi]*Term{}
	for i, ph := range phis {
		v := in[i]
		if x.tab.phi[ls.key][ph] {
			v = x.mu(ls, ph, ph.Type())
			x.assumeInv(s, ls, "p"+strconv.Itoa(x.tt.okey(ph)), v, ls.initP[ph])
		}
		ls.phis[ph] = v
		f.env[ph] = v
	}
	if x.tab.bump[ls.key] {
		x.bump(s)
	}
	for _, a := range sortedTerms(x.tab.mem[ls.key]) {
		if _, ok := s.mem[a]; !ok && a.Root().K != KAlloc {
			continue
		}
		if !x.existedBefore(a, ls) {
			continue
		}
		mu := x.mu(ls, a, elemOfAddr(a))
		s.mem[a] = mu
		if i, ok := ls.initM[a]; ok {
			x.assumeInv(s, ls, "m"+strconv.Itoa(a.ID), mu, i)
		}
	}
	ls.mem = map[*Term]*Term{}
	for k, v := range s.mem {
		ls.mem[k] = v
	}
	ls.wlog = len(s.wlog)
	ls.bumps = s.bumps
	x.emit(s, &Event{Kind: EvLoop, Idx: 2, LoopKey: ls.key, Instr: to.Instrs[0], Pos: blockPos(to), Cells: carried})
	return true
}

// overLiteral: a loop that ranges over a short array or slice literal, which is
// gone through element by element.
func (x *explorer) overLiteral(s *state, h *ssa.BasicBlock) bool {
	if h.Comment != "rangeindex.loop" {
		return false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return false
	}
	switch y := cond.Y.(type) {
	case *ssa.Const:
	case *ssa.Call:
		b, ok := y.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		switch arg := y.Call.Args[0].(type) {
		case *ssa.Slice:
			if arg.Low != nil || arg.High != nil {
				return false
			}
			if _, ok := arg.X.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Parameter:
			// the variadic arguments of a call gone into
			if !arg.Parent().Signature.Variadic() {
				return false
			}
		default:
			return false
		}
	default:
		return false
	}
	n, ok := x.get(s, cond.Y).IntVal()
	return ok && n <= 8
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// existedBefore: a local object created inside the loop body is a new one on
// every iteration, so its cells carry nothing round.
func (x *explorer) existedBefore(a *Term, ls *loopState) bool {
	r := a.Root()
	if r.K != KAlloc && r.K != KMake {
		return true
	}
	for k := range ls.initM {
		if k.Root() == r {
			return true
		}
	}
	return false
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (x *explorer) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return x.tt.Zero(c.Type())
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		v = constant.ToInt(v)
	}
	return x.tt.Const(v, c.Type())
}

func (x *explorer) get(s *state, v ssa.Value) *Term {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constTerm(y)
	case *ssa.Function:
		return x.tt.mk(Term{K: KFunc, Fn: y, T: y.Type()})
	case *ssa.Global:
		return x.tt.mk(Term{K: KGlobal, Aux: y.String(), T: y.Type()})
	case *ssa.Builtin:
		return x.tt.mk(Term{K: KUnknown, Aux: "builtin." + y.Name(), T: y.Type()})
	}
	t := s.top().env[v]
	if t == nil {
		panic(fmt.Sprintf("engine: no value for %s in %s", v, s.top().fn))
	}
	return t
}

// drive runs a state until its path ends; forks are pushed on the work list.
func (x *explorer) drive(s *state) {
	for {
		s.steps++
		x.res.Steps++
		if s.steps > 20000 {
			x.finish(s, "cut", nil, token.NoPos)
			x.res.Capped = true
			return
		}
		f := s.top()
		in := f.block.Instrs[f.pc]
		f.pc++
		if !x.step(s, f, in) {
			return
		}
	}
}

func (x *explorer) fresh(s *state, in ssa.Instruction, what string, t types.Type) *Term {
	return x.tt.mk(Term{K: KUnknown, Aux: what + x.dyn(s, in), T: t, Instr: in})
}
