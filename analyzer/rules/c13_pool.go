package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C13", Technique: "ownership and typestate analysis of remote connections over all path classes of every function that obtains one (helpers inlined): acquired, used, and given up exactly once by a non-blocking pool send or a close",
		Explain: "each path of each backend operation is enumerated with every remote step failing or succeeding; a connection taken from the pool or dialled on that path must be sent back or closed once, not be used or stored anywhere afterwards, and may only go back after its last failed step if a later ping succeeded",
		Run:     runC13})
}

// resType: values of these types are a remote connection or something opened
// through one.
func (c *Ctx) resType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch strings.TrimPrefix(types.TypeString(t, nil), "*") {
	case "golang.org/x/crypto/ssh.Client", "golang.org/x/crypto/ssh.Conn", "golang.org/x/crypto/ssh.Session", "golang.org/x/crypto/ssh.Channel",
		"github.com/pkg/sftp.Client", "github.com/pkg/sftp.clientConn", "github.com/pkg/sftp.File":
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !c.P.InRepoPkg(n.Obj().Pkg()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if ft := st.Field(i).Type(); !types.Identical(ft, t) && c.resType(ft) {
			return true
		}
	}
	return false
}

// connChan: a channel that holds remote connections.
func (c *Ctx) connChan(t types.Type) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && c.resType(ch.Elem())
}

type holding struct {
	a        *term // what was acquired
	pos      token.Pos
	at       int
	released int // sequence number of the release, or -1
	how      string
	closed   bool
}

func runC13(c *Ctx) {
	const R = "one-owner"
	c.Rule(R, "a connection received from the pool or dialled is, on every path, given up exactly once (sent to the pool without blocking, or its ssh connection closed), is not used, changed, stored, returned or handed to a goroutine otherwise, and after it is back in the pool nothing opened through it is touched; it goes back after a failed step only if a later request that demands a reply succeeded; every remote operation uses a connection acquired on that path")
	roots := map[*ssa.Function]bool{}
	c.eachCall(func(call ssa.CallInstruction, name string) {
		f := call.Parent()
		pk := engine.PkgOf(f)
		if pk == nil || f.Name() == "init" {
			return
		}
		if in(sn(name), "ssh.Dial", "ssh.NewClient", "ssh.NewClientConn", "sftp.NewClient", "sftp.NewClientPipe") || strings.HasSuffix(pk.Path(), "/backend") {
			for _, x := range c.roots(f) {
				roots[x] = true
			}
		}
	})
	for _, fn := range c.P.Funcs {
		pk := engine.PkgOf(fn)
		if pk != nil && strings.HasSuffix(pk.Path(), "/backend") && fn.Parent() == nil && token.IsExported(fn.Name()) && !engine.IsFake(fn) && len(fn.Blocks) > 0 {
			roots[fn] = true
		}
	}
	var l []*ssa.Function
	for fn := range roots {
		if fn.Name() == "main" || fn.Name() == "init" || !exportedType(fn) {
			continue
		}
		l = append(l, fn)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	for _, fn := range l {
		r := c.Explore(R, fn)
		for _, p := range r.Paths {
			c.owned(R, fn, p)
		}
	}
	c.Need(R, 30)
}

// exportedType: not a method of an unexported type, which only works for the
// exported ones.
func exportedType(fn *ssa.Function) bool {
	if recv := fn.Signature.Recv(); recv != nil {
		if n := engine.NamedOf(recv.Type()); n != nil && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

func (c *Ctx) owned(rule string, fn *ssa.Function, p *path) {
	tt := p.R.TT
	end := p.Eval()
	site := short(fn)
	var held []*holding
	holder := map[*term]*holding{} // allocations that hold a connection
	// own finds the connection t is, or was opened through.
	var own func(t *term) *holding
	own = func(t *term) *holding {
		var found *holding
		t.Walk(func(x *term) bool {
			if found != nil {
				return false
			}
			for _, h := range held {
				if x == h.a {
					found = h
				}
			}
			if found == nil {
				found = holder[x]
			}
			return found == nil
		})
		return found
	}
	res := func(t *term) bool {
		return t != nil && (c.resType(t.T) || c.resType(unbox(t).T))
	}
	type op struct {
		h  *holding
		ev *evnt
	}
	var ops []op
	loopAt := map[string]int{}
	for _, ev := range p.Events {
		e := p.EvalAt(ev)
		ck := func(ok bool, why string) bool { return c.Check(ok, rule, ev.Pos, site, why, p) }
		switch ev.Kind {
		case engine.EvLoop:
			if ev.Idx == 2 {
				loopAt[ev.LoopKey] = ev.Seq
			}
		case engine.EvRecv:
			if ev.Ok != nil {
				if v, known := end.Decide(ev.Ok); known && !v {
					continue // nothing came
				}
			}
			if c.connChan(ev.Args[0].T) && !end.IsNil(ev.Res) {
				held = append(held, &holding{a: ev.Res, pos: ev.Pos, at: ev.Seq, released: -1})
			}
		case engine.EvSend:
			h := own(ev.Args[1])
			if h == nil {
				if res(ev.Args[1]) && !e.IsNil(ev.Args[1]) {
					ck(false, "puts a connection into the pool that was not acquired here")
				}
				continue
			}
			if !ck(c.connChan(ev.Args[0].T), "hands a connection to another goroutine") {
				continue
			}
			sel, isSel := ev.Instr.(*ssa.Select)
			ck(isSel && !sel.Blocking, "waits for room in the pool while holding a connection")
			ck(h.released < 0, "gives up a connection that was already given up ("+h.how+")")
			// The state it goes back in.
			for i, o := range ops {
				if o.h != h || e.IsNil(lastRes(tt, o.ev)) {
					continue
				}
				if !ck(!evIs(o.ev, "sftp.NewClient"), "puts a connection without an SFTP session into the pool") {
					continue
				}
				alive := false
				for _, q := range ops[i+1:] {
					if q.h == h && e.IsNil(lastRes(tt, q.ev)) && lastRes(tt, q.ev) != nil {
						if strings.HasSuffix(q.ev.Callee, ".SendRequest") {
							w, isC := q.ev.Args[2].BoolVal()
							alive = alive || isC && w
						} else {
							alive = true
						}
					}
				}
				ck(alive, "puts a connection back into the pool although "+sn(o.ev.Callee)+" may have failed and no later ping succeeded")
			}
			h.released, h.how = ev.Seq, "sent to the pool"
		case engine.EvGo:
			bad := false
			for _, a := range ev.Args {
				bad = bad || own(a) != nil && res(a)
			}
			if ev.Res != nil && ev.Res.K == engine.KClosure {
				for _, a := range ev.Res.Args {
					if own(a) != nil {
						bad = true
					}
					for k, v := range ev.Cells {
						bad = bad || (k == a || k.Contains(a)) && v != nil && own(v) != nil && res(v)
					}
				}
			}
			ck(!bad, "hands a connection to another goroutine")
		case engine.EvStore:
			addr, v := ev.Args[0], ev.Args[1]
			if h := own(addr); h != nil && h.released >= 0 && !h.closed {
				ck(false, "changes a connection after it was "+h.how)
			}
			if h := own(v); h != nil && res(v) {
				root := addr.Root()
				if ck(root != nil && (root.K == engine.KAlloc || own(root) == h), "stores a connection where others can find it") {
					holder[root] = h
				}
			}
		case engine.EvMapUpdate:
			ck(own(ev.Args[2]) == nil || !res(ev.Args[2]), "stores a connection where others can find it")
		case engine.EvCall:
			n := sn(ev.Callee)
			if n == "ssh.Dial" || n == "ssh.NewClient" {
				x := ev.Res
				if n == "ssh.Dial" {
					x = tt.Extract(ev.Res, 0)
					if end.NonNil(tt.Extract(ev.Res, 1)) {
						continue
					}
				}
				held = append(held, &holding{a: x, pos: ev.Pos, at: ev.Seq, released: -1})
				continue
			}
			for i, a := range ev.Args {
				if !res(a) || e.IsNil(a) {
					continue
				}
				h := own(a)
				if h == nil {
					if x := unbox(a).Root(); x != nil && x.K == engine.KAlloc {
						continue
					}
					ck(false, "uses a connection that was not acquired here: "+sn(ev.Callee)+" on "+a.String())
					continue
				}
				isClose := i == 0 && strings.HasSuffix(ev.Callee, ".Close")
				if h.released >= 0 {
					if h.closed {
						ck(isClose, "uses a connection after it was "+h.how+": "+n)
					} else {
						ck(false, "uses a connection after it was "+h.how+": "+n)
					}
				}
				if isClose && in(n, "ssh.Conn.Close", "ssh.Client.Close") {
					if h.released >= 0 {
						ck(!h.closed, "closes a connection twice")
						continue
					}
					h.released, h.how, h.closed = ev.Seq, "closed", true
					continue
				}
				if !isClose {
					ops = append(ops, op{h, ev})
				}
			}
		}
	}
	for _, h := range held {
		done := h.released >= 0
		if !done {
			// A connection without an ssh connection has nothing to close.
			walkPath(p, func(x *term) {
				if own(x) == h && x.T != nil && types.TypeString(x.T, nil) == "*golang.org/x/crypto/ssh.Client" && end.IsNil(x) {
					done = true
				}
			})
		}
		switch p.Exit {
		case "return":
			c.Check(done, rule, h.pos, site, "a connection acquired here is neither put back nor closed on a path that returns", p)
		case "cut":
			// Acquired in an iteration of a loop: given up in that iteration.
			for _, s := range loopAt {
				if h.at > s {
					c.Check(done, rule, h.pos, site, "a connection acquired in a loop is neither put back nor closed in that iteration", p)
					break
				}
			}
		}
	}
	if p.Exit == "return" {
		for _, t := range p.Ret {
			h := own(t)
			c.Check(h == nil || !res(t), rule, p.Pos, site, "returns a connection to its caller", p)
		}
	}
}

// lastRes is the error a call returned: its last result.
func lastRes(tt *engine.Terms, ev *evnt) *term {
	if ev.Res == nil || ev.Instr == nil {
		return nil
	}
	call, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return ev.Res
	}
	n := call.Common().Signature().Results().Len()
	if n > 1 {
		return tt.Extract(ev.Res, n-1)
	}
	return ev.Res
}
