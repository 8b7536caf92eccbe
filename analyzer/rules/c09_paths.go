package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C09", Technique: "provenance analysis of remote path strings over all explored paths, with induction over the recursive search and the path cache",
		Explain: "every string handed to the remote side is taken apart into the configured root and names listed in the directory reached so far whose decryption was found equal to a component of the request; the search's own result and cached mappings are used by induction",
		Run:     runC09})
}

func runC09(c *Ctx) {
	const R, P, S, F, Q, B = "root", "remote-path", "cached-path", "found-path", "request", "backend"
	c.Rule(R, "the root the tree starts from is the configured one, unchanged")
	c.Rule(P, "every path the tree hands to the remote side is the root, extended only with names listed in the directory reached so far and decrypted to the component asked for, or a fixed file name there")
	c.Rule(S, "only such paths are put into the path cache")
	c.Rule(F, "a search that succeeds returns such a path")
	c.Rule(Q, "a worker reads exactly the path it was asked for")
	c.Rule(B, "the backend opens, lists or stats exactly the path it was asked for, and nothing else talks to the remote file system")
	m := c.tree(R)
	if m == nil {
		return
	}
	done := map[ssa.Instruction]bool{}
	for _, v := range m.views {
		site := short(v.fn)
		for _, p := range v.r.Paths {
			for _, ev := range p.Events {
				if t, ok := remoteOp(ev); ok {
					done[ev.Instr] = true
					m.at(v, p, ev).asked(P, ev, t, sn(ev.Callee))
				}
				if evIs(ev, nStore) && len(ev.Args) > 2 {
					done[ev.Instr] = true
					m.at(v, p, ev).asked(S, ev, ev.Args[2], "the path cache")
				}
			}
			if v.finder && okPath(p) {
				a := m.at(v, p, nil)
				rp, why := a.remote(p.Ret[0])
				if c.Check(rp != nil, F, p.Pos, site, "the search may return a path that is not one listed on the remote side: "+why, p) {
					a.components(F, p, p.Pos.IsValid(), site, rp)
				}
			}
		}
	}
	c.initReads(P, m, done)
	// All such calls were seen.
	c.eachCall(func(call ssa.CallInstruction, name string) {
		fn := call.Parent()
		n := sn(name)
		switch {
		case accessor(name), n == nReadFile, n == nReadDir, n == nStore:
			c.Check(done[call], P, call.Pos(), short(fn), "a remote operation that no explored path reaches: "+n, nil)
		}
	})
	c.workerPaths(Q)
	c.backendPaths(B)
	c.Need(R, 3)
	c.Need(P, 10)
	c.Need(S, 1)
	c.Need(F, 1)
	c.Need(Q, 2)
	c.Need(B, 6)
}

// asked checks one path handed on.
func (a *treeAt) asked(rule string, ev *evnt, t *term, to string) {
	site := short(a.v.fn)
	rp, why := a.remote(t)
	if a.m.c.Check(rp != nil, rule, ev.Pos, site, "hands "+to+" a path that is not made of the root and listed names: "+why, a.p) {
		a.components(rule, a.p, true, site, rp)
	}
}

// components: each name on the way is one the request asked for.
func (a *treeAt) components(rule string, p *path, _ bool, site string, rp *remotePath) {
	for _, k := range rp.comps {
		a.m.c.Check(a.requested(k.name), rule, k.L.list.Pos, site, "follows an entry whose decrypted name was not found equal to a component of the request", p)
	}
}

// requested: the name equals something the request determines.
func (a *treeAt) requested(nm *term) bool {
	if strings.HasPrefix(a.name(nm), "base(") {
		return true
	}
	cn := a.e.Rep(nm)
	for _, f := range a.p.Facts.Slice() {
		if !f.Pol || f.T.K != engine.KBin || len(f.T.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := f.T.Args[i], f.T.Args[1-i]
			if a.e.Rep(x) == cn && x != y && a.fromParam(y) {
				if h, known := a.e.Decide(f.T); known && h && f.T.Op.String() == "==" {
					return true
				}
			}
		}
	}
	return false
}

// fromParam: a string made of the request's path.
func (a *treeAt) fromParam(t *term) bool {
	found := false
	t.Walk(func(x *term) bool {
		if x.K == engine.KParam && isStrT(x.T) {
			found = true
		}
		if x.K == engine.KMu {
			for _, v := range a.v.r.Cands(x) {
				v.Walk(func(y *term) bool {
					found = found || y.K == engine.KParam && isStrT(y.T)
					return true
				})
			}
		}
		return !found
	})
	if c, _, ok := isCall(t, nDecrypt); ok && c != nil {
		return false
	}
	return found
}

// initReads: what opening the volume reads.
func (c *Ctx) initReads(rule string, m *treeModel, done map[ssa.Instruction]bool) {
	fn := c.Fn(rule, ftPkg, "Init")
	if fn == nil {
		return
	}
	r := c.Explore(rule, fn, "configfile.Load", "configfile.ConfFile.DecryptMasterKey", "configfile.ConfFile.IsFeatureFlagSet", "cryptocore.New", "contentenc.New", "nametransform.New", "requester.New", "requester.Requester.Start", "filetree.NewFastCache")
	if len(r.Params) == 0 {
		return
	}
	root := r.Params[0]
	for _, p := range r.Paths {
		for _, ev := range p.Events {
			t, ok := remoteOp(ev)
			if !ok {
				continue
			}
			done[ev.Instr] = true
			d, _, ok := fixedName(t)
			c.Check(ok && (d == root || p.EvalAt(ev).Canon(d) == root) || t == root, rule, ev.Pos, short(fn), "reads a path that is not a fixed file in the root: "+t.String(), p)
		}
	}
}

// workerPaths: the worker passes on what the requester asked for.
func (c *Ctx) workerPaths(rule string) {
	m := c.requests(rule)
	if m == nil {
		return
	}
	for _, x := range m.methods {
		if x.fn.Name() == "DecryptName" || !c.Check(x.work != nil, rule, x.fn.Pos(), short(x.fn), "no request is put into the queue", nil) {
			continue
		}
		n := 0
		for _, t := range m.turns {
			k, ok := m.kindOf(t)
			if !ok || k != x.kind {
				continue
			}
			req := t.recv.Res
			for _, ev := range t.events {
				if !isFetch(ev) {
					continue
				}
				n++
				ok := req != nil && req.K == engine.KStruct && len(req.Args) == len(x.work.Args) && len(ev.Args) == 2 && len(x.r.Params) == 2
				if ok {
					got := m.tt.Subst(ev.Args[1], func(y *term) *term {
						for i := range req.Args {
							if y == req.Args[i] {
								return x.work.Args[i]
							}
						}
						return nil
					})
					ok = got == x.r.Params[1]
				}
				c.Check(ok, rule, ev.Pos, short(m.worker), "reads another path than the one given to "+short(x.fn)+": "+fmt.Sprint(ev.Args), t.p)
			}
		}
		c.Check(n > 0, rule, x.fn.Pos(), short(x.fn), "no worker reads what it asks for", nil)
	}
	// Nothing else in the package reads.
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, reqPkg) || engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || !call.Common().IsInvoke() || !isBackendT(call.Common().Value.Type()) {
					continue
				}
				seen := false
				for _, t := range m.turns {
					for _, ev := range t.events {
						seen = seen || ev.Instr == call
					}
				}
				c.Check(seen, rule, call.Pos(), short(fn), "reads from the backend outside a worker's turn", nil)
			}
		}
	}
}

// isBackendT: an interface that reads directories.
func isBackendT(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "ReadDir" {
			return true
		}
	}
	return false
}

// live lists the functions the program can reach from main.
func (c *Ctx) live() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	main := c.P.Func("", "main")
	byType := map[string][]*ssa.Function{}
	for _, fn := range c.P.Funcs {
		if r := fn.Signature.Recv(); r != nil && !engine.IsFake(fn) {
			byType[engine.TypeKey(r.Type())] = append(byType[engine.TypeKey(r.Type())], fn)
		}
	}
	var todo []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] && c.P.InRepo(fn) {
			seen[fn] = true
			todo = append(todo, fn)
		}
	}
	add(main)
	for _, fn := range c.P.Funcs {
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil {
			add(fn)
		}
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					for _, g := range byType[engine.TypeKey(mi.X.Type())] {
						add(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
						if o := g.Origin(); o != nil {
							add(o)
						}
					case *ssa.MakeClosure:
						add(g.Fn.(*ssa.Function))
					}
				}
			}
		}
		for _, g := range fn.AnonFuncs {
			add(g)
		}
	}
	return seen
}

// backendPaths: the backend's operations pass their path on as it is.
func (c *Ctx) backendPaths(rule string) {
	live := c.live()
	ents := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	c.eachCall(func(call ssa.CallInstruction, name string) {
		fn := call.Parent()
		n := sn(name)
		if !live[fn] || !strings.HasPrefix(n, "sftp.Client.") || !takesString(call.Common()) {
			return
		}
		if !c.Check(inPkg(fn, "backend"), rule, call.Pos(), short(fn), "talks to the remote file system past the backend: "+n, nil) {
			return
		}
		sites[call] = true
		for _, e := range c.roots(fn) {
			ents[e] = true
		}
	})
	for _, fn := range c.P.Funcs {
		if !ents[fn] {
			continue
		}
		r := c.Explore(rule, fn)
		for _, p := range r.Paths {
			for _, ev := range p.Events {
				if ev.Kind != engine.EvCall || !sites[ev.Instr] {
					continue
				}
				for i, x := range ev.Args {
					if i == 0 || x == nil || x.T == nil || !isStrT(x.T) {
						continue
					}
					x = p.EvalAt(ev).Canon(x)
					ok := x.K == engine.KParam && x == firstStr(r.Params)
					if c.Check(ok, rule, ev.Pos, short(fn), "the remote side is given another path than the caller's: "+x.String(), p) {
						sites[ev.Instr] = true
					}
				}
			}
		}
	}
	// The only ways in are the interface the tree uses.
	c.eachCall(func(call ssa.CallInstruction, name string) {
		n := sn(name)
		if live[call.Parent()] && strings.HasPrefix(n, "backend.Provider.") && takesString(call.Common()) {
			c.Check(false, rule, call.Pos(), short(call.Parent()), "asks the backend past the tree: "+n, nil)
		}
	})
}

func firstStr(ps []*term) *term {
	for _, x := range ps {
		if isStrT(x.T) {
			return x
		}
	}
	return nil
}

func takesString(cc *ssa.CallCommon) bool {
	for i, a := range cc.Args {
		if i == 0 && !cc.IsInvoke() {
			continue
		}
		if isStrT(a.Type()) {
			return true
		}
	}
	return false
}
