package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{
		ID:        "C15",
		Technique: "path-sensitive error-flow analysis of every function, modular over the functions that return errors: at each return that may report success, every error obtained on the path is known to be nil, is the one returned, or was overcome by a repeated call",
		Explain:   "Each function that returns an error is analysed on all its paths with the error-returning functions it calls left abstract (each may fail or not); what it calls without an error result is part of it. A path that may return success, but on which a step is not known to have succeeded, is reported; so is using what a step returned before its error is known to be nil, returning a result along with an error, and losing an error in a function that has none to return.",
		Run:       runC15,
	})
}

// errResults lists which results of a signature are errors.
func errResults(sig *types.Signature) []int {
	var out []int
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrT(sig.Results().At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func makesErrors(name string) bool {
	return in(name, "errors.New", "fmt.Errorf", "errors.Unwrap")
}

// failers computes which functions of the repository may or may not fail. The
// rest only make errors (every return is one), and are analysed as part of
// their callers.
func (c *Ctx) failers() map[*ssa.Function]bool {
	st := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if passesErrors(fn) {
			continue
		}
		for _, k := range errResults(fn.Signature) {
			for _, b := range fn.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !alwaysError(r.Results[k], 0) {
					st[fn] = true
				}
			}
		}
		// The operations themselves, whatever they do so far.
		if fn.Parent() == nil && token.IsExported(fn.Name()) && len(errResults(fn.Signature)) > 0 && fn.Signature.Results().Len() > 1 {
			st[fn] = true
		}
	}
	return st
}

// passesErrors: a helper that is handed an error, such as one that wraps what a
// call returned. It is analysed as part of its callers.
func passesErrors(fn *ssa.Function) bool {
	if token.IsExported(fn.Name()) {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isErrT(fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func alwaysError(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Call:
		if makesErrors(sn(fullCallee(&y.Call))) {
			return true
		}
		fn := y.Call.StaticCallee()
		if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !alwaysError(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return alwaysError(y.X, depth+1)
	}
	return false
}

func (c *Ctx) reachesStep(fn *ssa.Function, st map[*ssa.Function]bool, depth int) bool {
	if depth > 6 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := call.Common().StaticCallee()
			if callee == nil || !c.P.InRepo(callee) || len(callee.Blocks) == 0 {
				if _, ok := call.Common().Value.(*ssa.Builtin); !ok && len(errResults(call.Common().Signature())) > 0 && !makesErrors(sn(fullCallee(call.Common()))) {
					return true
				}
				continue
			}
			if st[callee] || callee != fn && c.reachesStep(callee, st, depth+1) {
				return true
			}
		}
	}
	return false
}

// calledAsValue: a closure or function that is passed on rather than called
// where it is made.
func calledAsValue(p *engine.Prog, fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				v := *op
				if v == nil {
					continue
				}
				if mc, ok := v.(*ssa.MakeClosure); ok && mc.Fn == fn || v == ssa.Value(fn) {
					if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().Value == v {
						if _, isGo := i.(*ssa.Go); !isGo {
							continue
						}
					}
					if _, ok := i.(*ssa.MakeClosure); ok {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

func runC15(c *Ctx) {
	const S, U, N, V = "success-means-success", "use-after-failure", "no-result-with-error", "lost-error"
	c.Rule(S, "where a function may return success, every error it got on the way is nil, or is what it returns, or the call was repeated and succeeded")
	c.Rule(U, "what a call returned is used only where its error is known to be nil")
	c.Rule(N, "an exported function that returns an error returns nothing else")
	c.Rule(V, "a function that cannot return an error reports the ones it gets, or ends the program before anything depends on the step")
	st := c.failers()
	opaque := func(f *ssa.Function) bool { return st[f] }
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) || fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		if pk := engine.PkgOf(fn); pk == nil || strings.HasSuffix(pk.Path(), "/tools") {
			continue
		}
		errs := errResults(fn.Signature)
		if len(errs) == 0 {
			root := fn.Parent() == nil && (token.IsExported(fn.Name()) || fn.Name() == "main") || calledAsValue(c.P, fn) || c.goTarget(fn)
			if !root || !c.reachesStep(fn, st, 0) {
				continue
			}
		}
		r := c.ExploreCfg(S, engine.Config{Entry: fn, Opaque: opaque})
		for _, p := range r.Paths {
			c.errorsOn(S, U, N, V, fn, p, errs)
		}
	}
	// The exported operations, and what they pass on with its error.
	passed, done := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, fn := range c.P.Funcs {
			errs := errResults(fn.Signature)
			if done[fn] || len(errs) == 0 || engine.IsFake(fn) || fn.Synthetic != "" || !operations(fn) ||
				!passed[fn] && (fn.Parent() != nil || !token.IsExported(fn.Name())) {
				continue
			}
			done[fn], again = true, true
			for _, p := range c.ExploreCfg(S, engine.Config{Entry: fn, Opaque: opaque}).Paths {
				end := p.Eval()
				for _, i := range errs {
					if p.Exit == "return" && end.NonNil(p.Ret[i]) {
						c.emptyHanded(N, fn, p, end, errs, passed)
					}
				}
			}
		}
	}
	c.Need(S, 60)
	c.Need(U, 60)
	c.Need(N, 40)
	c.Need(V, 10)
}

// goTarget: some go statement starts fn.
func (c *Ctx) goTarget(fn *ssa.Function) bool {
	for _, call := range c.P.Callers(fn) {
		if _, ok := call.(*ssa.Go); ok {
			return true
		}
	}
	return goStarted(fn)
}

// operations: the packages whose functions are the program's operations,
// rather than steps of them.
func operations(fn *ssa.Function) bool {
	return in(engine.PkgOf(fn).Name(), "filetree", "handlers", "backend", "requester", "config", "configfile")
}

// iterationStart is where the iteration that a cut path ends with began.
func iterationStart(p *path) int {
	key := ""
	for i := len(p.Events) - 1; i >= 0; i-- {
		ev := p.Events[i]
		if ev.Kind != engine.EvLoop {
			continue
		}
		if ev.Idx == 3 && key == "" {
			key = ev.LoopKey
		}
		if ev.Idx == 2 && ev.LoopKey == key {
			return ev.Seq
		}
	}
	return 0
}

func isEOF(p *path, e *eval, err *term) bool {
	for _, f := range p.Facts.Slice() {
		if f.Pol && f.T.K == engine.KBin && f.T.Op == token.EQL {
			for i := 0; i < 2; i++ {
				o := f.T.Args[1-i]
				if same(e, f.T.Args[i], err) && o.K == engine.KLoad && o.Args[0].K == engine.KGlobal && strings.Contains(o.Args[0].String(), "io.EOF") {
					return true
				}
			}
		}
	}
	return false
}

type failing struct {
	ev  *evnt
	idx int
	err *term
}

func (c *Ctx) errorsOn(S, U, N, V string, fn *ssa.Function, p *path, errs []int) {
	tt := p.R.TT
	end := p.Eval()
	site := short(fn)
	var got []failing
	for _, ev := range p.Events {
		if ev.Kind == engine.EvGo {
			if call, ok := ev.Instr.(ssa.CallInstruction); ok && len(errResults(call.Common().Signature())) > 0 {
				c.Check(false, V, ev.Pos, site, "the error of the goroutine's function "+sn(ev.Callee)+" is lost", p)
			}
			continue
		}
		if ev.Kind != engine.EvCall || ev.Instr == nil {
			continue
		}
		call, ok := ev.Instr.(ssa.CallInstruction)
		if !ok {
			continue
		}
		sig := call.Common().Signature()
		if makesErrors(sn(ev.Callee)) {
			continue
		}
		for _, i := range errResults(sig) {
			err := ev.Res
			if sig.Results().Len() > 1 {
				err = tt.Extract(ev.Res, i)
			}
			if err != nil {
				got = append(got, failing{ev, i, err})
			}
		}
	}
	if p.Exit == "return" && len(errs) > 0 {
		success := true
		var ret []*term
		for _, i := range errs {
			ret = append(ret, p.Ret[i])
			if end.NonNil(p.Ret[i]) {
				success = false
			}
		}
		for _, g := range got {
			if !success {
				c.Pass(S, site)
				continue
			}
			ok := end.IsNil(g.err) || c.mayFail(p, g)
			for _, t := range ret {
				ok = ok || same(end, t, g.err)
			}
			if !ok {
				ok = overcome(p, end, got, g, ret)
			}
			c.Check(ok, S, g.ev.Pos, site, "can return success although "+sn(g.ev.Callee)+" failed", p)
		}
	}
	if len(errs) == 0 {
		from := 0
		if p.Exit == "cut" {
			from = iterationStart(p)
		}
		for _, g := range got {
			c.usedFailed(U, site, p, g)
			if g.ev.Seq < from && !(fn.Name() == "main" && fn.Parent() == nil) {
				continue // the paths that leave the loop decide
			}
			if end.IsNil(g.err) || p.Exit == "panic" || p.Exit == "exit" || c.mayFail(p, g) {
				c.Pass(V, site)
				continue
			}
			if fn.Name() == "main" && fn.Parent() == nil {
				looped := false
				for _, ev := range p.Events {
					if ev.Kind == engine.EvLoop && ev.Seq < g.ev.Seq {
						looped = true
					}
				}
				if !looped && end.NonNil(g.err) || !looped && p.Exit == "cut" {
					c.Check(false, V, g.ev.Pos, site, "the program goes on although "+sn(g.ev.Callee)+" failed", p)
					continue
				}
			}
			reported := false
			for _, ev := range p.Events {
				if ev.Seq <= g.ev.Seq || ev.Kind == engine.EvBranch {
					continue
				}
				if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KAlloc {
					continue
				}
				for _, a := range ev.Args {
					reported = reported || mentions(a, g.err)
				}
			}
			for _, t := range p.Ret {
				reported = reported || mentions(t, g.err)
			}
			// It is known which error it is, and that one is expected.
			reported = reported || isEOF(p, end, g.err) || overcome(p, end, got, g, nil)
			c.Check(reported, V, g.ev.Pos, site, "the error of "+sn(g.ev.Callee)+" is lost", p)
		}
	}
}

// overcome: the same call was made again later on the path, and that one
// succeeded or its error is the one returned.
func overcome(p *path, end *eval, got []failing, g failing, ret []*term) bool {
	for _, h := range got {
		if h.ev.Seq <= g.ev.Seq || h.ev.Callee != g.ev.Callee || h.idx != g.idx || h.ev == g.ev {
			continue
		}
		if end.IsNil(h.err) {
			return true
		}
		for _, t := range ret {
			if same(end, t, h.err) {
				return true
			}
		}
	}
	return false
}

// mayFail: failures the operation does not depend on.
func (c *Ctx) mayFail(p *path, g failing) bool {
	ev := g.ev
	n := sn(ev.Callee)
	meth := n[strings.LastIndexByte(n, '.')+1:]
	var recv *term
	if len(ev.Args) > 0 {
		recv = ev.Args[0]
	}
	e := p.Eval()
	switch meth {
	case "Close":
		// Fine unless it completes a write.
		for _, w := range p.Events {
			if w.Kind == engine.EvCall && w.Seq < ev.Seq && recv != nil {
				if w.Callee == ev.Callee && len(w.Args) > 0 && same(e, w.Args[0], recv) {
					return true // closed before
				}
			}
		}
		for _, w := range p.Events {
			if w.Kind == engine.EvCall && w.Seq < ev.Seq && recv != nil {
				m := sn(w.Callee)
				m = m[strings.LastIndexByte(m, '.')+1:]
				if strings.HasPrefix(m, "Write") && m != "WriteTo" && len(w.Args) > 0 && same(e, w.Args[0], recv) {
					return false
				}
				if in(sn(w.Callee), "io.WriteString", "io.Copy", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.CopyN", "io.CopyBuffer") && len(w.Args) > 0 && same(e, w.Args[0], recv) {
					return false
				}
			}
		}
		return true
	case "Sync":
		return n == "os.File.Sync"
	case "SendRequest":
		return strings.HasPrefix(n, "ssh.")
	case "Reject", "Reply":
		return strings.HasPrefix(n, "ssh.")
	}
	switch n {
	case "os.Remove", "os.RemoveAll", "fmt.Print", "fmt.Println", "fmt.Printf":
		return true
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		w := unbox(strip(recv))
		if w == nil {
			return false
		}
		if w.K == engine.KLoad && w.Args[0].K == engine.KGlobal {
			s := w.Args[0].String()
			return strings.Contains(s, "Stderr") || strings.Contains(s, "Stdout")
		}
		return neverFails(w)
	}
	if strings.HasPrefix(n, "bytes.Buffer.Write") || strings.HasPrefix(n, "strings.Builder.Write") || n == "hash.Hash.Write" || n == "log.Logger.Output" {
		return true
	}
	if strings.HasSuffix(n, "Write") && recv != nil && neverFails(unbox(recv)) {
		return true
	}
	// A listed name that is not a valid encrypted name is left out; failing to
	// find out is not the same.
	if n == "requester.Requester.DecryptName" || n == "nametransform.NameTransform.DecryptName" {
		if n == "nametransform.NameTransform.DecryptName" {
			return true
		}
		for _, f := range p.Facts.Slice() {
			if !f.Pol && f.T.K == engine.KAssertOk && same(e, f.T.Args[0], g.err) && strings.HasSuffix(types.TypeString(f.T.T, nil), "requester.IncompleteError") {
				return true
			}
		}
		for _, a := range callsOn(p, "errors.As") {
			if v, known := e.Decide(a.Res); known && !v && len(a.Args) == 2 && same(e, a.Args[0], g.err) {
				if t := unbox(a.Args[1]); t != nil && t.T != nil && strings.HasSuffix(types.TypeString(t.T, nil), "requester.IncompleteError") {
					return true
				}
			}
		}
	}
	return false
}

func neverFails(t *term) bool {
	if t == nil || t.T == nil {
		return false
	}
	s := types.TypeString(t.T, nil)
	return in(strings.TrimLeft(s, "*"), "bytes.Buffer", "strings.Builder", "hash.Hash")
}

// usedFailed: the call's results are used where it may have failed.
func (c *Ctx) usedFailed(rule, site string, p *path, g failing) {
	if g.ev.Res == nil || g.err == g.ev.Res || c.mayFail(p, g) && strings.HasSuffix(g.ev.Callee, "Close") {
		return
	}
	res := func(t *term) bool {
		return t.K == engine.KExtract && t.Args[0] == g.ev.Res && t.Idx != g.idx && !(t.T != nil && isNumT(t.T)) && !(t.T != nil && isErrT(t.T))
	}
	for _, ev := range p.Events {
		if ev.Seq <= g.ev.Seq {
			continue
		}
		switch ev.Kind {
		case engine.EvCall, engine.EvIndex, engine.EvSlice, engine.EvDeref, engine.EvSend, engine.EvMapUpdate, engine.EvGo:
		default:
			continue
		}
		uses, with := false, false
		for _, a := range ev.Args {
			if a == nil {
				continue
			}
			a.Walk(func(t *term) bool {
				uses = uses || res(t)
				with = with || t == g.err
				return true
			})
		}
		if !uses || with {
			continue
		}
		c.Check(p.EvalAt(ev).IsNil(g.err), rule, ev.Pos, site, "uses what "+sn(g.ev.Callee)+" returned although it may have failed", p)
	}
}

// emptyHanded: the results next to an error are empty, or come with that
// error from the same call.
func (c *Ctx) emptyHanded(rule string, fn *ssa.Function, p *path, end *eval, errs []int, passed map[*ssa.Function]bool) {
	for i, t := range p.Ret {
		if t == nil || isErrT(fn.Signature.Results().At(i).Type()) {
			continue
		}
		rt := fn.Signature.Results().At(i).Type()
		if isNumT(rt) {
			continue
		}
		ok := end.IsNil(t) || t.K == engine.KZero || t.K == engine.KNil
		if s, is := t.StrVal(); is && s == "" {
			ok = true
		}
		if t.K == engine.KConst && t.Val != nil && (t.Val.String() == "false" || t.Val.String() == "0") {
			ok = true
		}
		if t.K == engine.KStruct {
			ok = true
			for _, a := range t.Args {
				ok = ok && (end.IsNil(a) || a.K == engine.KZero || a.K == engine.KNil || a.K == engine.KConst)
			}
		}
		from := t
		for from.K == engine.KAssert || from.K == engine.KConv || from.K == engine.KIface {
			from = from.Args[0]
		}
		if from.K == engine.KExtract {
			for _, j := range errs {
				e := p.Ret[j]
				if e.K == engine.KExtract && e.Args[0] == from.Args[0] {
					ok = true
					if ev := callEvent(p, e); ev != nil && ev.CalleeFn != nil && c.P.InRepo(ev.CalleeFn) {
						passed[ev.CalleeFn] = true
					}
				}
			}
		}
		c.Check(ok, rule, p.Pos, short(fn), "returns a result along with an error: "+t.String(), p)
	}
}
