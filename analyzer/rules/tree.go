package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

// The tree model: how plaintext paths become remote paths.

const (
	ftPkg     = "filetree"
	nReadFile = "requester.Requester.ReadFile"
	nReadDir  = "requester.Requester.ReadDir"
	nDecrypt  = "requester.Requester.DecryptName"
	nPlainSz  = "contentenc.ContentEnc.CipherSizeToPlainSize"
	nFind     = "filetree.FastCache.Find"
	nStore    = "filetree.FastCache.Store"
	ivName    = "gocryptfs.diriv"
)

// treeModel is the filetree package as explored.
type treeModel struct {
	c        *Ctx
	rootF    string // field of FileTree that holds the root
	cipherF  string // field of a cached mapping that holds the remote path
	views    []*treeView
	finders  map[*ssa.Function]bool
	infoName string // fields of the file info shown to clients
	infoSize string
	infoBase string
	infoT    types.Type
}

// treeView is one explored entry.
type treeView struct {
	fn     *ssa.Function
	r      *res
	finder bool // reached recursively: its result is used by induction
}

// inPkg reports whether fn belongs to the repository's package.
func inPkg(fn *ssa.Function, pkg string) bool {
	pk := engine.PkgOf(fn)
	return pk != nil && pk.Path() == repoPath+"/"+pkg
}

// accessor: an operation on the remote file system through the tree's interface.
func accessor(name string) bool {
	return strings.HasPrefix(sn(name), "filetree.FSAccessor.")
}

// remoteOp: ev reads something remote at the path it returns.
func remoteOp(ev *evnt) (*term, bool) {
	if ev.Kind != engine.EvCall {
		return nil, false
	}
	if evIs(ev, nReadFile, nReadDir) || accessor(ev.Callee) {
		if len(ev.Args) > 1 {
			return ev.Args[1], true
		}
	}
	return nil, false
}

// decrypting: the function that turns a fetched file into its content; it is
// decided by C01.
func (c *Ctx) contentFns() map[string]bool {
	out := map[string]bool{}
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, ftPkg) || fn.Parent() != nil || engine.IsFake(fn) {
			continue
		}
		sig := fn.Signature
		if sig.Results().Len() == 2 && isByteSlice(sig.Results().At(0).Type()) && isErrT(sig.Results().At(1).Type()) && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) {
			out[short(fn)] = true
		}
	}
	return out
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// tree explores everything in filetree that reaches the remote side.
func (c *Ctx) tree(rule string) *treeModel {
	m := &treeModel{c: c, finders: map[*ssa.Function]bool{}}
	if !m.findRoot(rule) || !m.findInfo(rule) || !m.findMapping(rule) {
		return nil
	}
	ents := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, ftPkg) || engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := fullCallee(call.Common())
				if accessor(n) || strings.HasPrefix(sn(n), "requester.Requester.") || sn(n) == nStore {
					for _, e := range c.roots(fn) {
						ents[e] = true
					}
				}
			}
		}
	}
	todo := []*ssa.Function{}
	for _, fn := range c.P.Funcs {
		if ents[fn] && short(fn) != "filetree.Init" {
			todo = append(todo, fn)
		}
	}
	seen := map[*ssa.Function]bool{}
	opaque := []string{nReadFile, nReadDir, nDecrypt, nPlainSz, nFind, nStore, "filetree.FastCache.Clear", "requester.Requester.ClearCache"}
	for n := range c.contentFns() {
		opaque = append(opaque, n)
	}
	search := c.search()
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if seen[fn] {
			continue
		}
		seen[fn] = true
		names := opaque
		if search != nil && search != fn {
			names = append(append([]string{}, opaque...), short(search))
		}
		v := &treeView{fn: fn, r: c.Explore(rule, fn, names...), finder: m.finders[fn]}
		m.views = append(m.views, v)
		for _, p := range v.r.Paths {
			for _, ev := range p.Events {
				if ev.Kind != engine.EvCall || ev.CalleeFn == nil || !inPkg(ev.CalleeFn, ftPkg) || in(short(ev.CalleeFn), opaque...) {
					continue
				}
				if !m.finders[ev.CalleeFn] {
					m.finders[ev.CalleeFn] = true
					for _, w := range m.views {
						if w.fn == ev.CalleeFn {
							w.finder = true
						}
					}
					todo = append(todo, ev.CalleeFn)
				}
			}
		}
	}
	return m
}

// search is the path search, where it and others call each other: it takes a
// path and gives one. A function that only calls itself is found as it is met.
func (c *Ctx) search() *ssa.Function {
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if !inPkg(fn, ftPkg) || engine.IsFake(fn) {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if calls[top] == nil {
			calls[top] = map[*ssa.Function]bool{}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Parent() == nil && inPkg(g, ftPkg) {
						calls[top][g] = true
					}
				}
			}
		}
	}
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			for g := range calls[f] {
				if !seen[g] {
					seen[g] = true
					rec(g)
				}
			}
		}
		rec(from)
		return seen
	}
	var best *ssa.Function
	score := 0
	for _, fn := range c.P.Funcs {
		sig := fn.Signature
		if calls[fn] == nil || calls[fn][fn] || sig.Params().Len() != 1 || !isStrT(sig.Params().At(0).Type()) || sig.Results().Len() != 2 || !isStrT(sig.Results().At(0).Type()) || !isErrT(sig.Results().At(1).Type()) {
			continue
		}
		in := reach(fn)
		if !in[fn] {
			continue
		}
		n := 1
		for g, cs := range calls {
			if cs[fn] && !in[g] {
				n++ // used from outside the cycle
			}
		}
		if n > score {
			best, score = fn, n
		}
	}
	return best
}

// findRoot finds the field of the tree that holds the configured root: all
// that is ever stored there comes from the configuration's FileRoot unchanged.
func (m *treeModel) findRoot(rule string) bool {
	c := m.c
	fl := newFlow(c.P)
	isRoot := func(o ssa.Value) bool {
		switch y := o.(type) {
		case *ssa.FieldAddr:
			return fieldName(y) == "FileRoot"
		case *ssa.Field:
			return engine.FieldVar(y.X.Type(), y.Field).Name() == "FileRoot"
		}
		return false
	}
	var fld *types.Var
	each := func(f func(fn *ssa.Function, st *ssa.Store, v *types.Var)) {
		for _, fn := range c.P.Funcs {
			if engine.IsFake(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isStrT(st.Val.Type()) && engine.TypeKey(fa.X.Type()) == repoPath+"/filetree.FileTree" {
						f(fn, st, structVar(fa))
					}
				}
			}
		}
	}
	each(func(fn *ssa.Function, st *ssa.Store, v *types.Var) {
		for _, o := range fl.origins(st.Val) {
			if isRoot(o) {
				fld = v
			}
		}
	})
	if !c.Check(fld != nil, rule, token.NoPos, "filetree.FileTree", "the configured root is not kept in the tree", nil) {
		return false
	}
	m.rootF = fld.Name()
	each(func(fn *ssa.Function, st *ssa.Store, v *types.Var) {
		if v != fld {
			return
		}
		for _, o := range fl.origins(st.Val) {
			c.Check(isRoot(o), rule, st.Pos(), short(fn), "something other than the configured root is stored as the tree's root: "+o.String(), nil)
		}
	})
	// Its address stays where it is.
	for _, f := range c.P.Funcs {
		if engine.IsFake(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || structVar(fa) != fld || fa.Referrers() == nil {
					continue
				}
				for _, u := range *fa.Referrers() {
					ok := false
					switch x := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						ok = true
					case *ssa.Store:
						ok = x.Addr == fa
					}
					c.Check(ok, rule, u.Pos(), short(f), "the address of the tree's root is passed on", nil)
				}
			}
		}
	}
	return true
}

// findMapping finds where the cache keeps the remote path of a mapping.
func (m *treeModel) findMapping(rule string) bool {
	fn := m.c.Fn(rule, ftPkg, "FastCache.Store")
	find := m.c.Fn(rule, ftPkg, "FastCache.Find")
	if fn == nil || find == nil || !m.c.Check(len(fn.Params) == 3, rule, fn.Pos(), short(fn), "does not take a path and its remote path", nil) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && st.Val == fn.Params[2] {
				m.cipherF = fieldName(fa)
			}
		}
	}
	if m.cipherF == "" {
		// Stored by a helper.
		r := m.c.ExploreCfg(rule, engine.Config{Entry: fn, NoAlias: true})
		for _, p := range r.Paths {
			for _, ev := range p.Events {
				if ev.Kind == engine.EvStore && ev.Args[1] == r.Params[2] && ev.Args[0].K == engine.KFieldAddr {
					m.cipherF = ev.Args[0].Var.Name()
				}
			}
		}
	}
	return m.c.Check(m.cipherF != "", rule, fn.Pos(), short(fn), "the remote path is not stored", nil)
}

// findInfo finds the fields of the file info that clients see.
func (m *treeModel) findInfo(rule string) bool {
	c := m.c
	for _, meth := range []string{"Name", "Size"} {
		n := 0
		for _, fn := range c.P.Funcs {
			if !inPkg(fn, ftPkg) || engine.IsFake(fn) || fn.Name() != meth || fn.Signature.Recv() == nil || fn.Synthetic != "" {
				continue
			}
			rt := fn.Signature.Recv().Type()
			if pt, ok := rt.(*types.Pointer); ok {
				rt = pt.Elem()
			}
			st, ok := rt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			emb := ""
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Embedded() && strings.HasSuffix(types.TypeString(f.Type(), nil), ".FileInfo") {
					emb = f.Name()
				}
			}
			if emb == "" {
				continue
			}
			r := c.Explore(rule, fn)
			for _, p := range r.Paths {
				got := ""
				if p.Exit == "return" && len(p.Ret) == 1 {
					for i := 0; i < st.NumFields(); i++ {
						if b, ok := fieldLoad(p.Ret[0], st.Field(i).Name()); ok && b == r.Params[0] {
							got = st.Field(i).Name()
						}
					}
				}
				if !c.Check(got != "", rule, fn.Pos(), short(fn), "does not return one of its fields: "+fmt.Sprint(p.Ret), p) {
					return false
				}
				n++
				m.infoBase, m.infoT = emb, rt
				if meth == "Name" {
					m.infoName = got
				} else {
					m.infoSize = got
				}
			}
		}
		if !c.Check(n > 0, rule, token.NoPos, "filetree", "no file info with a "+meth+" of its own is shown to clients", nil) {
			return false
		}
	}
	return true
}

// at is the model's view of one path at one point.
type treeAt struct {
	m *treeModel
	v *treeView
	p *path
	e *eval

	rootKeys map[string]bool // names of paths known to be the root
	raw      bool            // do not use what is known
}

func (m *treeModel) at(v *treeView, p *path, ev *evnt) *treeAt {
	e := p.Eval()
	if ev != nil {
		e = p.EvalAt(ev)
	}
	return &treeAt{m: m, v: v, p: p, e: e}
}

// plain path functions; path and path/filepath agree here.
func pathFn(t *term, name string) (*term, bool) {
	return isRes(t, 0, "filepath."+name, "path."+name)
}

// canonStr resolves constants known by facts.
func (a *treeAt) canonStr(t *term) *term {
	c := a.e.Canon(t)
	if _, ok := c.StrVal(); ok && !a.raw {
		return c
	}
	return t
}

// norm names the normalised plaintext path a term denotes: it is rooted and
// clean. Not every string is.
func (a *treeAt) norm(t *term) (string, bool) {
	t = a.canonStr(t)
	if s, ok := t.StrVal(); ok {
		if s == "/" {
			return "/", true
		}
		return "", false
	}
	if c, ok := pathFn(t, "Clean"); ok {
		x := c.Args[0]
		if k, ok := a.norm(x); ok {
			return k, true
		}
		if y, ok := slashed(x); ok {
			return a.abs(y), true
		}
		return "", false
	}
	if c, ok := pathFn(t, "Join"); ok && len(c.Args) > 1 {
		if s, ok := c.Args[0].StrVal(); ok && s == "/" && len(c.Args) == 2 {
			return a.abs(c.Args[1]), true
		}
		if k, ok := a.norm(c.Args[0]); ok && len(c.Args) == 2 {
			return a.child(k, a.name(c.Args[1])), true
		}
		return "", false
	}
	if c, ok := pathFn(t, "Dir"); ok {
		if k, ok := a.norm(c.Args[0]); ok {
			return a.parent(k), true
		}
	}
	return "", false
}

// parent names the directory a path is in.
func (a *treeAt) parent(k string) string {
	if k == "/" {
		return k
	}
	return a.known("parent(" + k + ")")
}

// known replaces the name of a path that is known to be the root.
func (a *treeAt) known(k string) string {
	if a.rootKeys == nil {
		a.rootKeys = map[string]bool{}
		raw := &treeAt{m: a.m, v: a.v, p: a.p, e: a.e, rootKeys: map[string]bool{}, raw: true}
		walkPath(a.p, func(x *term) {
			if s, ok := a.e.Canon(x).StrVal(); ok && s == "/" && x.K != engine.KConst {
				if j, ok := raw.norm(x); ok {
					a.rootKeys[j] = true
				}
			}
		})
	}
	if a.rootKeys[k] {
		return "/"
	}
	return k
}

// slashed takes the leading slash off "/" + x.
func slashed(t *term) (*term, bool) {
	if t.K == engine.KBin && t.Op == token.ADD {
		if s, ok := t.Args[0].StrVal(); ok && s == "/" {
			return t.Args[1], true
		}
	}
	return nil, false
}

// abs names Clean("/" + t).
func (a *treeAt) abs(t *term) string {
	t = a.canonStr(t)
	if k, ok := a.norm(t); ok {
		return k
	}
	if y, ok := slashed(t); ok {
		return a.abs(y)
	}
	if c, ok := pathFn(t, "Clean"); ok {
		return a.abs(c.Args[0])
	}
	if c, ok := isRes(t, 0, "filepath.Split", "path.Split"); ok {
		if k, ok := a.norm(c.Args[0]); ok {
			return a.parent(k)
		}
	}
	if s, ok := t.StrVal(); ok && (s == "" || s == "." || s == "/") {
		return "/"
	}
	return a.known(fmt.Sprintf("abs(%d)", a.e.Rep(t).ID))
}

// name names one path component.
func (a *treeAt) name(t *term) string {
	if k, ok := a.base(t); ok {
		return k
	}
	ct := a.e.Rep(t)
	if k, ok := a.base(ct); ok {
		return k
	}
	// Known to be equal to a component of the request?
	found := ""
	walkPath(a.p, func(x *term) {
		if found != "" {
			return
		}
		if k, ok := a.base(x); ok && a.e.Rep(x) == ct {
			found = k
		}
	})
	if found != "" {
		return found
	}
	return fmt.Sprintf("t%d", ct.ID)
}

func (a *treeAt) base(t *term) (string, bool) {
	if c, ok := pathFn(t, "Base"); ok {
		if k, ok := a.norm(c.Args[0]); ok {
			return "base(" + k + ")", true
		}
	}
	if c, ok := isRes(t, 1, "filepath.Split", "path.Split"); ok {
		if k, ok := a.norm(c.Args[0]); ok {
			return "base(" + k + ")", true
		}
	}
	return "", false
}

// child names the entry called name in the directory; no entry has the name
// "/", so the entry named like the last component of a path in its parent is
// what the path names.
func (a *treeAt) child(dir, name string) string {
	if strings.HasPrefix(name, "base(") {
		k := name[5 : len(name)-1]
		if a.parent(k) == dir {
			return k
		}
	}
	return "child(" + dir + "," + name + ")"
}

// entry is an element of a remote directory listing.
type entry2 struct {
	term *term // the file info
	list *evnt // the ReadDir
	dir  *term // the directory listed
	idx  *term
}

// listed: t is an element of a successful listing.
func (a *treeAt) listed(t *term) (*entry2, bool) {
	t = strip(a.resolve(t))
	b, i, ok := elemOf(t)
	if !ok {
		return nil, false
	}
	b = a.resolve(b)
	c, ok := isRes(b, 0, nReadDir)
	if !ok {
		return nil, false
	}
	ev := callEvent(a.p, b)
	if ev == nil || !a.errNil(ev) {
		return nil, false
	}
	return &entry2{term: t, list: ev, dir: c.Args[1], idx: i}, true
}

// resolve looks through facts to a listing's element.
func (a *treeAt) resolve(t *term) *term {
	if t == nil {
		return nil
	}
	if x := a.e.Canon(t); x != nil && x.K != engine.KNil && x.K != engine.KConst {
		return x
	}
	return t
}

// errNil: the call succeeded.
func (a *treeAt) errNil(ev *evnt) bool {
	return a.e.IsNil(a.e.TT().Extract(ev.Res, 1))
}

// nameOf: t is the listed name of an entry.
func (a *treeAt) nameOf(t *term) (*entry2, bool) {
	c, _, ok := isCall(a.resolve(t))
	if !ok || !strings.HasSuffix(c.Callee, "fs.FileInfo).Name") {
		return nil, false
	}
	return a.listed(c.Args[0])
}

// decrypted finds the successful decryption of an entry's name under the IV of
// its directory.
func (a *treeAt) decrypted(L *entry2) (*term, string) {
	why := "its name was not decrypted"
	for _, ev := range callsOn(a.p, nDecrypt) {
		M, ok := a.nameOf(ev.Args[1])
		if !ok || !(M.term == L.term || M.list.Res == L.list.Res && same(a.e, M.idx, L.idx)) {
			continue
		}
		if !a.errNil(ev) {
			why = "its name is not known to have decrypted"
			continue
		}
		if !a.ivOf(ev.Args[2], L.dir) {
			why = "its name was not decrypted with the IV of its directory"
			continue
		}
		return a.e.TT().Extract(ev.Res, 0), ""
	}
	return nil, why
}

// ivOf: t is the directory IV of dir.
func (a *treeAt) ivOf(t, dir *term) bool {
	t = a.resolve(t)
	c, ok := isRes(t, 0, nReadFile)
	if !ok {
		return false
	}
	ev := callEvent(a.p, t)
	if ev == nil || !a.errNil(ev) {
		return false
	}
	d, n, ok := fixedName(c.Args[1])
	return ok && n == ivName && same(a.e, d, dir)
}

// fixedName splits a path into a directory and a constant name in it.
func fixedName(t *term) (*term, string, bool) {
	if c, ok := pathFn(t, "Join"); ok && len(c.Args) == 2 {
		if s, ok := c.Args[1].StrVal(); ok && safeConst(s) {
			return c.Args[0], s, true
		}
	}
	if t.K == engine.KBin && t.Op == token.ADD {
		if s, ok := t.Args[1].StrVal(); ok && strings.HasPrefix(s, "/") && safeConst(s[1:]) {
			return t.Args[0], s[1:], true
		}
		if s, ok := t.Args[1].StrVal(); ok && safeConst(s) {
			// dir + "/" + name
			if u := t.Args[0]; u.K == engine.KBin && u.Op == token.ADD {
				if sl, ok := u.Args[1].StrVal(); ok && sl == "/" {
					return u.Args[0], s, true
				}
			}
		}
	}
	return nil, "", false
}

func safeConst(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\x00")
}

// dirEntry splits a path into a directory and the listed name of an entry.
func (a *treeAt) dirEntry(t *term) (*term, *entry2, bool) {
	if c, ok := pathFn(t, "Join"); ok && len(c.Args) == 2 {
		if L, ok := a.nameOf(c.Args[1]); ok {
			return c.Args[0], L, true
		}
	}
	if t.K == engine.KBin && t.Op == token.ADD {
		if u := t.Args[0]; u.K == engine.KBin && u.Op == token.ADD {
			if sl, ok := u.Args[1].StrVal(); ok && sl == "/" {
				if L, ok := a.nameOf(t.Args[1]); ok {
					return u.Args[0], L, true
				}
			}
		}
	}
	return nil, nil, false
}

// remote decides whether a string is a remote path made only from the root and
// names listed on the remote side, and names the plaintext path it stands for.
// comps are the listed entries' decrypted names along the way.
type remotePath struct {
	den   string
	comps []*comp
	fixed string // a fixed file in the directory den
}

type comp struct {
	L    *entry2
	name *term
}

func (a *treeAt) remote(t *term) (*remotePath, string) {
	return a.remoteD(t, 8)
}

func (a *treeAt) remoteD(t *term, depth int) (*remotePath, string) {
	if depth == 0 || t == nil {
		return nil, "cannot follow the path"
	}
	if b, ok := fieldLoad(t, a.m.rootF); ok && engine.TypeKey(b.T) == repoPath+"/filetree.FileTree" {
		return &remotePath{den: "/"}, ""
	}
	if d, n, ok := fixedName(t); ok {
		r, why := a.remoteD(d, depth-1)
		if r == nil {
			return nil, why
		}
		if r.fixed != "" {
			return nil, "a file in a file"
		}
		return &remotePath{den: r.den, comps: r.comps, fixed: n}, ""
	}
	if d, L, ok := a.dirEntry(t); ok {
		r, why := a.remoteD(d, depth-1)
		if r == nil {
			return nil, why
		}
		if r.fixed != "" {
			return nil, "an entry in a file"
		}
		if !same(a.e, d, L.dir) {
			return nil, "the name of an entry of another directory is appended"
		}
		nm, why := a.decrypted(L)
		if nm == nil {
			return nil, "a listed name is appended, but " + why
		}
		return &remotePath{den: a.child(r.den, a.name(nm)), comps: append(append([]*comp{}, r.comps...), &comp{L, nm})}, ""
	}
	// The result of the recursive search, by induction.
	if c, idx, ok := t.IsCall(); ok && idx == 0 {
		ev := callEvent(a.p, t)
		if ev != nil && ev.CalleeFn != nil && a.m.finders[ev.CalleeFn] {
			if !a.errNil(ev) {
				return nil, "the path search may have failed"
			}
			return &remotePath{den: a.abs(c.Args[1])}, ""
		}
		if ev != nil && evIs(ev, nFind) {
			return a.cached(ev)
		}
	}
	if b, ok := fieldLoad(t, a.m.cipherF); ok {
		if b.K == engine.KAlloc {
			b = a.p.Mem[b]
		}
		if b != nil {
			if ev := callEvent(a.p, b); ev != nil && evIs(ev, nFind) {
				return a.cached(ev)
			}
		}
	}
	// A loop's variable: by induction, all it can be.
	if t.K == engine.KMu {
		var got *remotePath
		for _, v := range a.v.r.Cands(t) {
			if v == t {
				continue
			}
			r, why := a.remoteD(v, depth-1)
			if r == nil {
				return nil, why
			}
			if got == nil {
				got = &remotePath{den: fmt.Sprintf("mu%d", t.ID), comps: r.comps}
			}
		}
		if got != nil {
			return got, ""
		}
	}
	return nil, "it is made of something else: " + t.String()
}

// cached: a mapping found in the cache.
func (a *treeAt) cached(ev *evnt) (*remotePath, string) {
	if b, known := a.e.Decide(a.e.TT().Extract(ev.Res, 1)); !known || !b {
		return nil, "the cached mapping may not have been found"
	}
	k, ok := a.norm(ev.Args[1])
	if !ok {
		return &remotePath{den: fmt.Sprintf("key%d", a.e.Canon(ev.Args[1]).ID)}, ""
	}
	return &remotePath{den: k}, ""
}

// shownInfo is a file info made for a client.
type shownInfo struct{ base, name, size *term }

// infoOf takes a shown file info apart.
func (m *treeModel) infoOf(p *path, t *term) (*shownInfo, bool) {
	t = unbox(t)
	if t == nil || t.T == nil || !m.isInfo(t.T) {
		return nil, false
	}
	x := &shownInfo{}
	get := func(f string) *term {
		if t.K == engine.KStruct {
			return structField(t, f)
		}
		return objField2(p, t, f)
	}
	x.base, x.name, x.size = unbox(get(m.infoBase)), get(m.infoName), get(m.infoSize)
	return x, x.base != nil && x.name != nil && x.size != nil
}

func (m *treeModel) isInfo(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return m.infoT != nil && engine.TypeKey(t) == engine.TypeKey(m.infoT)
}

// infos lists the file infos made on a path.
func (m *treeModel) infos(v *treeView, p *path) []*shownInfo {
	var out []*shownInfo
	seen := map[*term]bool{}
	// What is only stored may be filled in further; what is boxed, or
	// returned, is as it is shown.
	visit := func(t *term, last bool) {
		if t == nil {
			return
		}
		t.Walk(func(x *term) bool {
			if seen[x] {
				return false
			}
			seen[x] = x.K != engine.KStruct || last
			if x.K == engine.KIface || last && x.K == engine.KStruct && x.T != nil {
				if y, ok := m.infoOf(p, x); ok {
					out = append(out, y)
				}
			}
			return true
		})
	}
	for _, ev := range p.Events {
		if ev.Kind == engine.EvStore {
			visit(ev.Args[1], false)
		}
		for _, x := range ev.Cells {
			visit(x, false)
		}
	}
	for _, x := range p.Ret {
		visit(x, true)
	}
	return out
}

// converted: size is the plaintext size of what base describes.
func (m *treeModel) converted(e *eval, size, base *term) bool {
	c, ok := isRes(strip(size), 0, nPlainSz)
	if !ok || len(c.Args) != 2 {
		return false
	}
	s, _, ok := isCall(strip(c.Args[1]))
	return ok && strings.HasSuffix(s.Callee, "fs.FileInfo).Size") && same(e, s.Args[0], base)
}
