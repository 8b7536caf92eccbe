// Package engine loads the repository's type-checked SSA form and runs a
// path-sensitive, interprocedural dataflow ("property simulation") over it.
//
// Nothing of the analysed program is executed. An entry point's control-flow
// graph is expanded at its resolved in-repository call sites, values are
// numbered into hash-consed terms, and the facts established by each branch
// are propagated along the graph. Loops are taken to a fixpoint: a first
// iteration, and one general iteration in which everything the loop may
// change is an unknown. Branch feasibility is decided by constant folding,
// fact lookup and a difference-bound closure; no solver is involved.
package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded repository.
type Prog struct {
	Dir    string
	Module string
	Fset   *token.FileSet
	SSA    *ssa.Program
	Pkgs   []*packages.Package
	SPkgs  map[string]*ssa.Package // by import path
	Funcs  []*ssa.Function         // every function with a body, closures included

	fieldStores map[*types.Var][]fieldStore
	mutable     map[*types.Var]bool
	fieldConst  map[*types.Var]constant.Value
	callers     map[*ssa.Function][]ssa.CallInstruction
	invokes     map[string][]ssa.CallInstruction
	addrTaken   map[*ssa.Function]bool
	loops       map[*ssa.Function]*loopInfo
	globMut     map[string]bool
}

type fieldStore struct {
	fn    *ssa.Function
	store *ssa.Store
	fresh bool
}

// Load type-checks every package of the module in dir and builds its SSA.
func Load(dir string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") ||
			strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p := &Prog{Dir: dir, SPkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]*loopInfo{}}
	var bad []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(bad, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	p.Pkgs = pkgs
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SPkgs[pkgs[i].PkgPath] = sp
		if pkgs[i].Module != nil {
			p.Module = pkgs[i].Module.Path
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && p.InRepo(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	p.dropDead()
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.index()
	return p, nil
}

// dropDead leaves out the functions nothing can call: the unexported ones that
// no function kept here refers to.
func (p *Prog) dropDead() {
	invoked := map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					invoked[ci.Common().Method.Name()] = true
				}
			}
		}
	}
	live := map[*ssa.Function]bool{}
	var mark func(fn *ssa.Function)
	mark = func(fn *ssa.Function) {
		if live[fn] {
			return
		}
		live[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						mark(f)
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if fn.Parent() != nil {
			continue
		}
		if fn.Synthetic != "" || token.IsExported(fn.Name()) || fn.Name() == "main" || fn.Name() == "init" ||
			strings.HasPrefix(fn.Name(), "init#") || fn.Signature.Recv() != nil && invoked[fn.Name()] {
			mark(fn)
		}
	}
	kept := p.Funcs[:0]
	for _, fn := range p.Funcs {
		if live[fn] {
			kept = append(kept, fn)
		}
	}
	p.Funcs = kept
}

// InRepo reports whether fn's body belongs to the analysed module.
func (p *Prog) InRepo(fn *ssa.Function) bool {
	pk := PkgOf(fn)
	return pk != nil && p.InRepoPkg(pk)
}

// InRepoPkg reports whether pk is a package of the analysed module.
func (p *Prog) InRepoPkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.Module || strings.HasPrefix(pk.Path(), p.Module+"/"))
}

// PkgOf returns the package a function belongs to, for wrappers and closures too.
func PkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	return nil
}

// IsFake reports whether a function belongs to generated test doubles.
func IsFake(fn *ssa.Function) bool {
	pk := PkgOf(fn)
	if pk != nil && strings.HasSuffix(pk.Path(), "fakes") {
		return true
	}
	if r := fn.Signature.Recv(); r != nil {
		if n := NamedOf(r.Type()); n != nil && strings.HasPrefix(n.Obj().Name(), "Fake") {
			return true
		}
	}
	return false
}

// NamedOf strips pointers and returns the named type, or nil.
func NamedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// TypeKey names a type: "pkg/path.Name", without pointers.
func TypeKey(t types.Type) string {
	if n := NamedOf(t); n != nil {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// Func finds a package-level function or a method, "Name" or "Type.Name".
func (p *Prog) Func(pkg, name string) *ssa.Function {
	path := p.Module
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.SPkgs[path]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, _ := sp.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := p.SSA.MethodSets.MethodSet(t)
			if sel := ms.Lookup(sp.Pkg, name[i+1:]); sel != nil {
				f := p.SSA.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// Named finds a named type of the repository.
func (p *Prog) Named(pkg, name string) *types.Named {
	path := p.Module
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.SPkgs[path]
	if sp == nil {
		return nil
	}
	tn, _ := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.Dir+"/"), q.Line)
}

func (p *Prog) index() {
	p.fieldStores = map[*types.Var][]fieldStore{}
	p.mutable = map[*types.Var]bool{}
	p.fieldConst = map[*types.Var]constant.Value{}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	p.invokes = map[string][]ssa.CallInstruction{}
	p.addrTaken = map[*ssa.Function]bool{}
	p.globMut = map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if c := ci.Common().StaticCallee(); c != nil {
						p.callers[c] = append(p.callers[c], ci)
					}
					if cc := ci.Common(); cc.IsInvoke() {
						p.invokes[cc.Method.Name()] = append(p.invokes[cc.Method.Name()], ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == f {
							continue
						}
						p.addrTaken[f] = true
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
					p.globMut[g.String()] = true
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					v := FieldVar(fa.X.Type(), fa.Field)
					p.fieldStores[v] = append(p.fieldStores[v], fieldStore{fn, st, freshBase(fa.X)})
					continue
				}
				// A whole struct stored somewhere writes all of its fields.
				if s, ok := st.Val.Type().Underlying().(*types.Struct); ok {
					if _, local := st.Addr.(*ssa.Alloc); local {
						continue
					}
					for i := 0; i < s.NumFields(); i++ {
						p.fieldStores[s.Field(i)] = append(p.fieldStores[s.Field(i)], fieldStore{fn, st, false})
					}
				}
			}
		}
	}
	for v, ss := range p.fieldStores {
		for _, s := range ss {
			if !s.fresh && !IsFake(s.fn) {
				p.mutable[v] = true
			}
		}
	}
	for v, ss := range p.fieldStores {
		var c constant.Value
		ok := true
		for _, s := range ss {
			if _, isField := s.store.Addr.(*ssa.FieldAddr); !isField {
				ok = false
				break
			}
			vals := p.constsOf(s.store.Val, 0)
			if len(vals) != 1 || (c != nil && !constant.Compare(c, token.EQL, vals[0])) {
				ok = false
				break
			}
			c = vals[0]
		}
		if !ok || c == nil {
			continue
		}
		// The zero value must not be distinguishable from c.
		zero := false
		switch c.Kind() {
		case constant.Bool:
			zero = !constant.BoolVal(c)
		case constant.Int:
			zero = constant.Sign(c) == 0
		case constant.String:
			zero = constant.StringVal(c) == ""
		}
		if zero {
			p.fieldConst[v] = c
		}
	}
}

// constsOf gives the constants a value may be, through parameters and the
// call sites that bind them; nil if anything else is possible.
func (p *Prog) constsOf(v ssa.Value, depth int) []constant.Value {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}
		return []constant.Value{x.Value}
	case *ssa.Parameter:
		fn := x.Parent()
		if depth > 4 || p.addrTaken[fn] || len(p.callers[fn]) == 0 || len(p.AllCallers(fn)) != len(p.callers[fn]) {
			return nil
		}
		idx := -1
		for i, q := range fn.Params {
			if q == x {
				idx = i
			}
		}
		var out []constant.Value
		for _, c := range p.callers[fn] {
			vals := p.constsOf(c.Common().Args[idx], depth+1)
			if vals == nil {
				return nil
			}
		next:
			for _, w := range vals {
				for _, o := range out {
					if o.Kind() == w.Kind() && constant.Compare(o, token.EQL, w) {
						continue next
					}
				}
				out = append(out, w)
			}
		}
		return out
	}
	return nil
}

// Consts gives the constants a value may be; nil if it may be anything else.
func (p *Prog) Consts(v ssa.Value) []constant.Value { return p.constsOf(v, 0) }

// Callers returns the call sites that statically name fn.
func (p *Prog) Callers(fn *ssa.Function) []ssa.CallInstruction { return p.callers[fn] }

// AllCallers adds the calls through interfaces that fn's receiver implements.
func (p *Prog) AllCallers(fn *ssa.Function) []ssa.CallInstruction {
	recv := fn.Signature.Recv()
	if recv == nil {
		return p.callers[fn]
	}
	out := append([]ssa.CallInstruction(nil), p.callers[fn]...)
	for _, ci := range p.invokes[fn.Name()] {
		it, ok := ci.Common().Value.Type().Underlying().(*types.Interface)
		if ok && (types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it)) {
			out = append(out, ci)
		}
	}
	return out
}

func freshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(x.X)
	case *ssa.IndexAddr:
		return freshBase(x.X)
	}
	return false
}

// FieldVar resolves field i of a struct or pointer-to-struct type.
func FieldVar(t types.Type, i int) *types.Var {
	t = t.Underlying()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
	}
	return t.(*types.Struct).Field(i)
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	header map[*ssa.BasicBlock]bool
	back   map[[2]*ssa.BasicBlock]bool // from, to
	body   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (p *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	if l := p.loops[fn]; l != nil {
		return l
	}
	l := &loopInfo{map[*ssa.BasicBlock]bool{}, map[[2]*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.header[s] = true
				l.back[[2]*ssa.BasicBlock{b, s}] = true
				body := l.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	p.loops[fn] = l
	return l
}

func (p *Prog) mutableGlobal(name string) bool { return p.globMut[name] }
