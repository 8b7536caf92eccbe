package rules

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// thread is a goroutine as started at one go statement.
type thread struct {
	fn     *ssa.Function
	g      *evnt
	parent *path
	r      *res
	up     *thread
}

// started is the function a go statement runs and its captured variables.
func started(g *evnt) (*ssa.Function, []*term) {
	var fn *ssa.Function
	var free []*term
	if t := g.Res; t != nil && t.Fn != nil {
		fn = t.Fn
		if t.K == engine.KClosure {
			free = t.Args
		}
	}
	if fn == nil {
		fn = g.CalleeFn
	}
	return fn, free
}

// spawned explores the goroutines started on the paths of r, and those they
// start, each from the state it is started in. Starts that differ only in what
// is known at the start are explored once, without that knowledge.
func (c *Ctx) spawned(rule string, r *res, up *thread, opaque ...string) []*thread {
	type group struct {
		g     *evnt
		p     *path
		facts *engine.FactNode
		many  bool
	}
	groups := map[string]*group{}
	var keys []string
	for _, p := range r.Paths {
		for _, g := range p.Events {
			if g.Kind != engine.EvGo {
				continue
			}
			fn, free := started(g)
			if fn == nil || len(fn.Blocks) == 0 || !c.P.InRepo(fn) {
				continue
			}
			var sb strings.Builder
			fmt.Fprintf(&sb, "%s|%p|", fn, g.Instr)
			for _, a := range append(append([]*term{}, g.Args...), free...) {
				if a != nil {
					fmt.Fprintf(&sb, "%d,", a.ID)
				}
			}
			var cs []string
			for k, v := range g.Cells {
				if k != nil && v != nil {
					cs = append(cs, fmt.Sprintf("%d=%d", k.ID, v.ID))
				}
			}
			sort.Strings(cs)
			key := sb.String() + strings.Join(cs, ";")
			x := groups[key]
			if x == nil {
				x = &group{g: g, p: p, facts: g.Facts}
				groups[key] = x
				keys = append(keys, key)
			} else if x.facts != g.Facts {
				x.many = true
			}
		}
	}
	depth := 0
	for t := up; t != nil; t = t.up {
		depth++
	}
	var out []*thread
	for _, k := range keys {
		x := groups[k]
		fn, free := started(x.g)
		cfg := engine.Config{Entry: fn, Args: x.g.Args, Free: free, Mem: x.g.Cells, TT: r.TT, Facts: x.facts}
		if x.many {
			cfg.Facts = nil
		}
		t := &thread{fn: fn, g: x.g, parent: x.p, up: up}
		t.r = c.ExploreCfg(rule, cfg, opaque...)
		out = append(out, t)
		if depth < 6 {
			out = append(out, c.spawned(rule, t.r, t, opaque...)...)
		}
	}
	return out
}
