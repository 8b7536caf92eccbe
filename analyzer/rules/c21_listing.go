package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C21", Technique: "denotational path analysis with loop induction over directory listings",
		Explain: "every remote path is given the plaintext path it stands for, which must be the one asked for; each trip of a listing loop is shown to add exactly its own entry or none, for every index by induction; failures without a failed step must have compared every entry",
		Run:     runC21})
}

func runC21(c *Ctx) {
	const T, D, S, L, E, W, G = "resolve", "descend", "cached", "listing", "not-found", "wiring", "paging"
	c.Rule(T, "stat, read, list and the path search use the remote entry that the requested plaintext path names: each component is an entry of the directory before it, whose name decrypted with that directory's IV to that component")
	c.Rule(D, "only entries known to be directories are descended into, and only one that is not is read as a file")
	c.Rule(S, "the path cache maps a normalised plaintext path to the remote path that stands for it")
	c.Rule(L, "a listing has exactly one entry for each remote entry whose name decrypts, with the name, attributes and size of that entry")
	c.Rule(E, "an operation in which no step failed reports an error only if every remote entry was found not to be the one asked for, or it is of the wrong kind")
	c.Rule(W, "listings and file information reach the client as they were made")
	c.Rule(G, "a page is what the listing has from the requested offset on, and the end is reported exactly when it is reached")
	m := c.tree(T)
	if m == nil {
		return
	}
	ops := 0
	for _, v := range m.views {
		op := v.fn.Name()
		isOp := token_exported(op) && len(v.r.Params) == 2 && isStrT(v.r.Params[1].T)
		if isOp {
			ops++
		}
		for _, p := range v.r.Paths {
			m.descends(D, v, p)
			for _, ev := range p.Events {
				if evIs(ev, nStore) && len(ev.Args) > 2 {
					a := m.at(v, p, ev)
					rp, why := a.remote(ev.Args[2])
					k, ok := a.norm(ev.Args[1])
					if rp != nil {
						why = "it stands for another path"
					}
					c.Check(ok && rp != nil && rp.fixed == "" && rp.den == k, S, ev.Pos, short(v.fn), "a remote path is cached for a plaintext path it does not stand for: "+why, p)
				}
			}
			if p.Exit != "return" || !(isOp || v.finder) || len(p.Ret) == 0 {
				continue
			}
			if okPath(p) {
				m.resolves(T, D, L, v, p)
			} else {
				m.justified(E, v, p)
			}
		}
	}
	c.Check(ops >= 3, T, noPos, "filetree.FileTree", fmt.Sprintf("only %d of stat, read and list found", ops), nil)
	c.listWiring(W)
	c.paging(G)
	c.backendListing(W)
	c.Need(T, 6)
	c.Need(D, 12)
	c.Need(S, 2)
	c.Need(L, 1)
	c.Need(E, 12)
	c.Need(W, 8)
	c.Need(G, 3)
}

func token_exported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

// isDir: whether the entry is a directory, if known.
func (a *treeAt) isDir(L *entry2) (bool, bool) {
	for _, ev := range a.p.Events {
		if ev.Kind != engine.EvCall || !strings.HasSuffix(ev.Callee, "fs.FileInfo).IsDir") {
			continue
		}
		M, ok := a.listed(ev.Args[0])
		if !ok || !(M.term == L.term || M.list.Res == L.list.Res && same(a.e, M.idx, L.idx)) {
			continue
		}
		if b, known := a.e.Decide(ev.Res); known {
			return b, true
		}
	}
	return false, false
}

// descends checks each directory read on a path.
func (m *treeModel) descends(rule string, v *treeView, p *path) {
	for _, ev := range p.Events {
		t, ok := remoteOp(ev)
		if !ok {
			continue
		}
		a := m.at(v, p, ev)
		rp, _ := a.remote(t)
		if rp == nil {
			continue // C09 reports it; resolve does too
		}
		dirs := rp.comps
		if rp.fixed == "" && !evIs(ev, nReadDir) && len(dirs) > 0 {
			dirs = dirs[:len(dirs)-1]
		}
		ok = true
		for _, k := range dirs {
			d, known := a.isDir(k.L)
			ok = ok && known && d
		}
		m.c.Check(ok, rule, ev.Pos, short(v.fn), "descends into an entry that may not be a directory", p)
	}
	for _, ev := range callsOn(p, nStore) {
		a := m.at(v, p, ev)
		rp, _ := a.remote(ev.Args[2])
		if rp == nil {
			continue
		}
		for _, k := range rp.comps {
			d, known := a.isDir(k.L)
			m.c.Check(known && d, rule, ev.Pos, short(v.fn), "caches an entry that may not be a directory", p)
		}
	}
}

// resolves checks what a successful operation is about.
func (m *treeModel) resolves(T, D, L string, v *treeView, p *path) {
	c := m.c
	a := m.at(v, p, nil)
	site := short(v.fn)
	want := a.abs(v.r.Params[1])
	stands := func(t *term, what string) *remotePath {
		rp, why := a.remote(t)
		if rp != nil {
			why = "it stands for " + rp.den + ", not " + want
		}
		if !c.Check(rp != nil && rp.fixed == "" && rp.den == want, T, p.Pos, site, what+" is not the one the requested path names: "+why, p) {
			return nil
		}
		return rp
	}
	ret := p.Ret[0]
	rt := v.fn.Signature.Results().At(0).Type()
	switch {
	case isStrT(rt) && v.finder:
		if rp := stands(ret, "the path found"); rp != nil {
			for _, k := range rp.comps {
				d, known := a.isDir(k.L)
				c.Check(known && d, D, p.Pos, site, "the search returns an entry that may not be a directory", p)
			}
		}
	case isByteSlice(rt):
		call, idx, ok := ret.IsCall()
		if !ok || idx != 0 || !c.contentFns()[sn(call.Callee)] {
			c.Check(false, T, p.Pos, site, "the content returned is not decrypted from a remote file: "+ret.String(), p)
			return
		}
		src, ok := isRes(call.Args[len(call.Args)-1], 0, nReadFile)
		if !ok {
			c.Check(false, T, p.Pos, site, "what is decrypted is not a remote file: "+call.String(), p)
			return
		}
		ev := callEvent(p, src)
		c.Check(ev != nil && a.errNil(ev), T, p.Pos, site, "the remote file may not have been read", p)
		if rp := stands(src.Args[1], "the file read"); rp != nil && len(rp.comps) > 0 {
			d, known := a.isDir(rp.comps[len(rp.comps)-1].L)
			c.Check(known && !d, D, p.Pos, site, "reads an entry that may be a directory", p)
		}
	case isInfoSlice(rt):
		m.listing(T, L, v, p, stands)
	default:
		x, ok := m.infoOf(p, ret)
		if !c.Check(ok, T, p.Pos, site, "cannot follow the file information returned: "+ret.String(), p) {
			return
		}
		m.describes(T, a, p, site, x, want, stands)
	}
}

// describes: the information is about the remote file at want.
func (m *treeModel) describes(rule string, a *treeAt, p *path, site string, x *shownInfo, want string, stands func(*term, string) *remotePath) {
	c := m.c
	if call, _, ok := isCall(x.base); ok && accessor(call.Callee) && strings.HasSuffix(call.Callee, ".Stat") {
		ev := callEvent(p, x.base)
		c.Check(ev != nil && a.errNil(ev), rule, p.Pos, site, "the remote stat may have failed", p)
		stands(call.Args[1], "the file described")
	} else if E, ok := a.listed(x.base); ok {
		nm, why := a.decrypted(E)
		rp, _ := a.remote(E.dir)
		c.Check(nm != nil && rp != nil && a.child(rp.den, a.name(nm)) == want, rule, p.Pos, site, "the entry described is not the one the requested path names "+why, p)
	} else {
		c.Check(false, rule, p.Pos, site, "the information is not that of a remote file: "+x.base.String(), p)
	}
	c.Check(a.name(x.name) == "base("+want+")", rule, p.Pos, site, "the name shown is not the last component of the requested path: "+x.name.String(), p)
	c.Check(m.converted(a.e, x.size, x.base), rule, p.Pos, site, "the size shown is not the plaintext size of that file: "+x.size.String(), p)
}

func isInfoSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(types.TypeString(s.Elem(), nil), ".FileInfo")
}

// incomplete: whether err is known (not) to be the requester's own failure.
func (a *treeAt) incomplete(err *term, facts []engine.Fact) (bool, bool) {
	is := func(t types.Type) bool {
		return strings.HasSuffix(engine.TypeKey(t), "requester.IncompleteError")
	}
	for _, f := range facts {
		if f.T.K == engine.KAssertOk && is(f.T.T) && a.e.Canon(f.T.Args[0]) == a.e.Canon(err) {
			return f.Pol, true
		}
	}
	for _, ev := range callsOn(a.p, "errors.As") {
		if len(ev.Args) != 2 || a.e.Canon(ev.Args[0]) != a.e.Canon(err) {
			continue
		}
		t := unbox(ev.Args[1])
		if pt, ok := t.T.Underlying().(*types.Pointer); ok && is(pt.Elem()) {
			return a.e.Decide(ev.Res)
		}
	}
	return false, false
}

// skipped: the entry's name is known not to decrypt.
func (a *treeAt) skipped(dec *evnt, facts []engine.Fact) bool {
	err := a.e.TT().Extract(dec.Res, 1)
	if !a.e.NonNil(err) {
		return false
	}
	b, known := a.incomplete(err, facts)
	return known && !b
}

// listing: one entry each.
func (m *treeModel) listing(T, L string, v *treeView, p *path, stands func(*term, string) *remotePath) {
	c := m.c
	site := short(v.fn)
	a := m.at(v, p, nil)
	R := p.Ret[0]
	tt := v.r.TT
	var D *evnt
	want := a.abs(v.r.Params[1])
	for _, ev := range callsOn(p, nReadDir) {
		if rp, _ := m.at(v, p, nil).remote(ev.Args[1]); rp != nil && rp.den == want && rp.fixed == "" {
			D = ev
		}
	}
	if !c.Check(D != nil, T, p.Pos, site, "the directory the requested path names was not listed", p) {
		return
	}
	stands(D.Args[1], "the directory listed")
	if !c.Check(a.errNil(D), L, D.Pos, site, "the remote listing may have failed", p) {
		return
	}
	list := tt.Extract(D.Res, 0)
	n := tt.Len(list)
	if a.e.AtMost(n, tt.Int(0), 0) {
		c.Check(len(pieces(a.e, R)) == 0, L, p.Pos, site, "an empty directory has entries: "+R.String(), p)
		return
	}
	ok := false
	why := "the loop over the remote listing is not recognised"
	for _, l := range loopsOf(v.r, p) {
		if l.a2 == nil || l.a2.Cells[R] == nil {
			continue
		}
		bad := ""
		est := func(q *path, qe *eval, facts []engine.Fact) []*term {
			tr := l.first
			if q != p {
				tr = nil
				for _, g := range l.gen {
					if g.q == q {
						tr = g
					}
				}
			}
			if tr == nil || tr.next[R] == nil {
				return nil
			}
			var added []*term
			for _, x := range pieces(tr.e, tr.next[R]) {
				if q != p && x == R {
					continue
				}
				added = append(added, x)
			}
			b := m.at(v, q, nil)
			b.e = qe
			var out []*term
			for _, dec := range tr.calls(nDecrypt) {
				E, ok := b.nameOf(dec.Args[1])
				if !ok || E.list.Res != D.Res {
					continue
				}
				if b.skipped(dec, facts) {
					if len(added) == 0 {
						out = append(out, E.idx)
					} else {
						bad = "a name that does not decrypt is listed"
					}
					continue
				}
				nm, w := b.decrypted(E)
				if nm == nil {
					bad = "an entry is passed over although its name may decrypt: " + w
					continue
				}
				if len(added) != 1 {
					bad = fmt.Sprintf("%d entries are added for a remote entry whose name decrypts", len(added))
					continue
				}
				x, ok := m.infoOf(q, added[0])
				switch {
				case !ok:
					bad = "cannot follow the entry added: " + added[0].String()
				case !same(qe, x.base, E.term):
					bad = "an entry has the attributes of another: " + x.base.String()
				case !same(qe, x.name, nm):
					bad = "an entry has another name than its own: " + x.name.String()
				case !m.converted(qe, x.size, E.term):
					bad = "an entry has another size than its own: " + x.size.String()
				default:
					out = append(out, E.idx)
				}
			}
			return out
		}
		if c.forall(v.r, p, tt.Int(0), n, est) {
			ok = true
		} else if bad != "" {
			why = bad
		} else {
			why = "not every remote entry is taken up"
		}
	}
	c.Check(ok, L, p.Pos, site, "the listing is not that of the remote directory: "+why, p)
}

// justified: an error has a reason.
func (m *treeModel) justified(rule string, v *treeView, p *path) {
	c := m.c
	a := m.at(v, p, nil)
	tt := v.r.TT
	want := a.abs(v.r.Params[1])
	facts := p.Facts.Slice()
	rt := v.fn.Signature.Results().At(0).Type()
	why := func() bool {
		for _, ev := range p.Events {
			if ev.Kind != engine.EvCall || ev.Res == nil {
				continue
			}
			_, rem := remoteOp(ev)
			fnd := ev.CalleeFn != nil && m.finders[ev.CalleeFn]
			switch {
			case rem || fnd || c.contentFns()[sn(ev.Callee)]:
				if a.e.NonNil(tt.Extract(ev.Res, 1)) {
					return true
				}
			case evIs(ev, nDecrypt):
				err := tt.Extract(ev.Res, 1)
				if b, known := a.incomplete(err, facts); known && b {
					return true
				}
			case strings.HasSuffix(ev.Callee, "fs.FileInfo).IsDir"):
				E, ok := a.listed(ev.Args[0])
				b, known := a.e.Decide(ev.Res)
				if !ok || !known {
					continue
				}
				nm, _ := a.decrypted(E)
				rp, _ := a.remote(E.dir)
				if nm == nil || rp == nil {
					continue
				}
				den := a.child(rp.den, a.name(nm))
				dir := v.finder || isInfoSlice(rt) || den != want // one that has to be a directory
				if !b && dir || b && !dir && isByteSlice(rt) {
					return true
				}
			}
		}
		if want == "/" && isByteSlice(rt) {
			return true
		}
		for _, D := range callsOn(p, nReadDir) {
			if m.absent(v, p, D) {
				return true
			}
		}
		return false
	}
	c.Check(why(), rule, p.Pos, short(v.fn), "reports an error although no step failed and not every remote entry was compared", p)
}

// absent: every entry of the listing was found not to be the one looked for.
func (m *treeModel) absent(v *treeView, p *path, D *evnt) bool {
	c := m.c
	tt := v.r.TT
	a := m.at(v, p, nil)
	rp, _ := a.remote(D.Args[1])
	if rp == nil || rp.fixed != "" || !a.errNil(D) {
		return false
	}
	n := tt.Len(tt.Extract(D.Res, 0))
	if a.e.AtMost(n, tt.Int(0), 0) {
		return true
	}
	return c.forall(v.r, p, tt.Int(0), n, func(q *path, qe *eval, facts []engine.Fact) []*term {
		b := m.at(v, q, nil)
		b.e = qe
		var out []*term
		for _, dec := range callsOn(q, nDecrypt) {
			E, ok := b.nameOf(dec.Args[1])
			if !ok || E.list.Res != D.Res || !b.ivOf(dec.Args[2], D.Args[1]) {
				continue
			}
			if b.skipped(dec, facts) {
				out = append(out, E.idx)
				continue
			}
			nm := tt.Extract(dec.Res, 0)
			for _, f := range facts {
				if f.Pol || f.T.K != engine.KBin || f.T.Op.String() != "==" {
					continue
				}
				for i := 0; i < 2; i++ {
					if x, y := f.T.Args[i], f.T.Args[1-i]; same(qe, x, nm) {
						if k := b.name(y); strings.HasPrefix(k, "base(") && b.parent(k[5:len(k)-1]) == rp.den {
							out = append(out, E.idx)
						}
					}
				}
			}
		}
		return out
	})
}

// handlerFns lists the live methods of that name in handlers.
func (c *Ctx) handlerFns(name string) []*ssa.Function {
	live := c.live()
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if inPkg(fn, "handlers") && fn.Name() == name && fn.Signature.Recv() != nil && fn.Synthetic == "" && live[fn] && !engine.IsFake(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// listWiring: what the handlers give the server library.
func (c *Ctx) listWiring(rule string) {
	const nRD, nST = "filetree.FileTree.ReadDir", "filetree.FileTree.Stat"
	fns := c.handlerFns("Filelist")
	c.Check(len(fns) == 1, rule, noPos, "handlers", fmt.Sprintf("%d handlers answer list requests", len(fns)), nil)
	for _, fn := range fns {
		r := c.Explore(rule, fn, nRD, nST)
		did := map[string]bool{}
		for _, p := range r.Paths {
			if !okPath(p) {
				// List and Stat are refused only if the tree refused them.
				e := p.Eval()
				for _, m := range []string{"List", "Stat"} {
					is := false
					walkPath(p, func(x *term) {
						if _, ok := fieldLoad(x, "Method"); ok {
							s, ok := e.Canon(x).StrVal()
							is = is || ok && s == m
						}
					})
					if !is {
						continue
					}
					failed := false
					for _, ev := range callsOn(p, nRD, nST) {
						failed = failed || e.NonNil(r.TT.Extract(ev.Res, 1))
					}
					c.Check(failed, rule, p.Pos, short(fn), "a "+m+" request fails although the tree answered it", p)
				}
				continue
			}
			e := p.Eval()
			method := ""
			walkPath(p, func(x *term) {
				if _, ok := fieldLoad(x, "Method"); ok {
					if s, ok := e.Canon(x).StrVal(); ok {
						method = s
					}
				}
			})
			ret := strip(p.Ret[0])
			var src *term
			switch {
			case method == "List":
				src = ret
			case method == "Stat":
				one := pieces(e, ret)
				if len(one) == 1 && one[0] == ret {
					one = elems(p, p.Events[len(p.Events)-1], ret)
				}
				if len(one) == 1 {
					src = strip(one[0])
				}
			}
			name := map[string]string{"List": nRD, "Stat": nST}[method]
			if !c.Check(name != "" && src != nil, rule, p.Pos, short(fn), "a request of method "+method+" succeeds with "+ret.String(), p) {
				continue
			}
			call, ok := isRes(src, 0, name)
			if c.Check(ok, rule, p.Pos, short(fn), "a "+method+" request is answered with something else than what the tree returned: "+src.String(), p) {
				_, isPath := fieldLoad(call.Args[1], "Filepath")
				c.Check(isPath && e.IsNil(r.TT.Extract(call, 1)), rule, p.Pos, short(fn), "a "+method+" request is answered for another path, or after a failure", p)
				did[method] = true
			}
		}
		for _, m := range []string{"List", "Stat"} {
			c.Check(did[m], rule, fn.Pos(), short(fn), m+" requests are never answered", nil)
		}
	}
}

// backendListing: the backend passes listings and file information on.
func (c *Ctx) backendListing(rule string) {
	for _, op := range []string{"ReadDir", "Stat"} {
		fn := c.Fn(rule, "backend", "Provider."+op)
		if fn == nil {
			continue
		}
		r := c.Explore(rule, fn)
		n := 0
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			call, ok := isRes(strip(p.Ret[0]), 0, "sftp.Client."+op)
			if c.Check(ok, rule, p.Pos, short(fn), "returns something else than the remote answer: "+p.Ret[0].String(), p) {
				n++
				c.Check(p.Eval().IsNil(r.TT.Extract(call, 1)), rule, p.Pos, short(fn), "returns an answer although the remote side failed", p)
			}
		}
		c.Check(n > 0, rule, fn.Pos(), short(fn), "never succeeds", nil)
	}
}

// paging: the pages of a listing.
func (c *Ctx) paging(rule string) {
	fns := c.handlerFns("ListAt")
	c.Check(len(fns) == 1, rule, noPos, "handlers", fmt.Sprintf("%d kinds of listing", len(fns)), nil)
	for _, fn := range fns {
		r := c.Explore(rule, fn)
		if len(r.Params) != 3 {
			continue
		}
		tt := r.TT
		f, ls, off := r.Params[0], r.Params[1], r.Params[2]
		nf, nl := tt.Len(f), tt.Len(ls)
		for _, p := range r.Paths {
			if p.Exit != "return" {
				c.Check(p.Exit == "cut", rule, p.Pos, short(fn), "does not return", p)
				continue
			}
			e := p.Eval()
			n := p.Ret[0]
			eof := c.isEOFTerm(p.Ret[1])
			null := e.IsNil(p.Ret[1])
			if !c.Check(eof || null, rule, p.Pos, short(fn), "fails with something else than the end of the listing: "+p.Ret[1].String(), p) {
				continue
			}
			var cp *evnt
			for _, ev := range p.Events {
				if ev.Kind == engine.EvCopy {
					cp = ev
				}
			}
			o := strip(off)
			if cp == nil {
				// Nothing copied: only past the end, or into no room.
				past := e.AtMost(nf, o, 0)
				c.Check(e.Canon(n).Is(0) && (past && eof || !eof && e.AtMost(nl, tt.Int(0), 0)), rule, p.Pos, short(fn), "copies nothing although there is something from the offset on", p)
				continue
			}
			src := cp.Args[1]
			base, lo, hi := window(tt, src)
			okSrc := base == f && same(e, strip(lo), o)
			if okSrc && !same(e, hi, nf) {
				// up to the room there is
				okSrc = e.AtMost(hi, addT(tt, o, nl), 0) && e.AtMost(addT(tt, o, nl), hi, 0)
			}
			c.Check(cp.Args[0] == ls && okSrc, rule, cp.Pos, short(fn), "the page is not what the listing has from the offset on: "+src.String(), p)
			k := strip(n)
			c.Check(k == cp.Res || same(e, k, cp.Res), rule, p.Pos, short(fn), "the count returned is not what was copied: "+n.String(), p)
			end := e.AtMost(cp.Res, nl, -1) || e.AtMost(nf, addT(tt, o, cp.Res), 0)
			if eof {
				c.Check(end, rule, p.Pos, short(fn), "reports the end although there may be more", p)
			} else {
				// What is copied fills the room or is all there is from the
				// offset on, which is something.
				full := e.AtMost(tt.Int(1), cp.Res, 0) || e.AtMost(nl, cp.Res, 0) || e.AtMost(o, nf, -1)
				c.Check(full, rule, p.Pos, short(fn), "makes no progress without reporting the end", p)
			}
		}
	}
}

func (c *Ctx) isEOFTerm(t *term) bool {
	g, ok := globalOf(t)
	return ok && strings.HasSuffix(g, "io.EOF")
}
