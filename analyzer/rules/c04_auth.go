package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C04", Technique: "path enumeration of main and of the password callback in the context main creates it in; effect analysis of the server configuration; required-tag check on the configuration type",
		Explain: "main is explored up to the accept loop with the callback's captured variables bound; every successful path of the callback must carry both equalities with the fields of the very configuration object that was loaded and validated",
		Run:     runC04})
	register(&Prop{ID: "C05", Technique: "value-flow analysis from every dial to the client configuration it uses, and path enumeration of main for that configuration's host key callback, user and key",
		Explain: "every call that opens an SSH client connection is found; the configuration object it is given must be the one main fills with the known_hosts callback, whose loading is known to have succeeded",
		Run:     runC05})
}

// mainRes explores main up to and including its accept loop.
func (c *Ctx) mainRes(rule string) *res {
	fn := c.Fn(rule, "", "main")
	if fn == nil {
		return nil
	}
	return c.Explore(rule, fn, "handlers.DecryptHandler", "config.Config.LoadSSHKey", "config.Config.GetDecrpytionPassphrase")
}

// allocOf finds the allocation terms of an ssa.Alloc in a map of cells.
func rootedAt(cells map[*term]*term, a ssa.Value) *term {
	for k := range cells {
		if r := k.Root(); r.K == engine.KAlloc && r.Instr == a.(ssa.Instruction) {
			return r
		}
	}
	return nil
}

func cellField(cells map[*term]*term, root *term, name string) *term {
	for k, v := range cells {
		if k.K == engine.KFieldAddr && k.Args[0] == root && k.Var.Name() == name {
			return v
		}
	}
	return nil
}

// fieldStores lists the stores to fields of a struct type.
func (c *Ctx) fieldStores(typ string, f func(field string, st *ssa.Store)) {
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && engine.TypeKey(fa.X.Type()) == typ {
					f(engine.FieldVar(fa.X.Type(), fa.Field).Name(), st)
				}
			}
		}
	}
}

// cfgTerm is the configuration object a path of main loaded.
func cfgTerm(p *path) *term {
	for _, ev := range p.Events {
		if ev.Kind == engine.EvLeave && ev.CalleeFn != nil && short(ev.CalleeFn) == "config.LoadConfig" && len(ev.Args) > 0 {
			return ev.Args[0]
		}
	}
	return nil
}

func runC04(c *Ctx) {
	const A = "auth-methods"
	c.Rule(A, "an ssh.ServerConfig only ever gets a password callback; no other authentication method is enabled")
	const P = "password-callback"
	c.Rule(P, "a successful return of the password callback implies user == ProxyUser and password == ProxyPassword of the loaded configuration")
	const V = "validated"
	c.Rule(V, "the proxy listens only after Validate succeeded on the loaded configuration, and Validate checks every required field")
	const F = "config-fields"
	c.Rule(F, "every configuration field is tagged required and no code changes a loaded configuration")
	const H = "handshake"
	c.Rule(H, "what a handshake returns is used only if it succeeded")

	harmless := []string{"PasswordCallback", "AuthLogCallback", "BannerCallback", "ServerVersion", "MaxAuthTries", "Config", "PreAuthConnCallback"}
	c.fieldStores("golang.org/x/crypto/ssh.ServerConfig", func(field string, st *ssa.Store) {
		c.Check(in(field, harmless...), A, st.Pos(), short(st.Parent())+" sets ServerConfig."+field, "enables another way to log in", nil)
	})
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && engine.TypeKey(fa.X.Type()) == "golang.org/x/crypto/ssh.ServerConfig" {
					if engine.FieldVar(fa.X.Type(), fa.Field).Name() == "NoClientAuth" {
						c.Fail(A, fa.Pos(), short(fn), "touches ServerConfig.NoClientAuth")
					}
				}
			}
		}
	}
	c.Need(A, 1)

	mr := c.mainRes(P)
	if mr == nil {
		return
	}
	fl := newFlow(c.P)
	allocs := map[ssa.Value]bool{}
	for _, call := range c.callSites("golang.org/x/crypto/ssh.NewServerConn") {
		for _, o := range fl.origins(call.Common().Args[1]) {
			if _, ok := o.(*ssa.Alloc); ok {
				allocs[o] = true
			} else {
				c.Fail(P, call.Pos(), short(call.Parent()), "the server configuration is not one made in this repository: "+o.String())
			}
		}
	}
	done := map[string]bool{}
	for _, p := range mr.Paths {
		for _, ev := range p.Events {
			if !(ev.Kind == engine.EvGo || evIs(ev, "ssh.NewServerConn")) {
				continue
			}
			for a := range allocs {
				root := rootedAt(ev.Cells, a)
				if root == nil {
					continue
				}
				cb := cellField(ev.Cells, root, "PasswordCallback")
				cfg := cfgTerm(p)
				key := fmt.Sprint(cb, cfg)
				if done[key] {
					continue
				}
				done[key] = true
				if !c.Check(cb != nil && cb.Fn != nil && cfg != nil, P, ev.Pos, "server configuration", "no password callback, or not a function of this repository", p) {
					continue
				}
				free := cb.Args
				if cb.K != engine.KClosure {
					free = nil
				}
				r := c.ExploreCfg(P, engine.Config{Entry: cb.Fn, Free: free, Mem: ev.Cells, TT: mr.TT})
				for _, q := range r.Paths {
					if !okPath(q) {
						c.Pass(P, short(cb.Fn)+" (refusing path)")
						continue
					}
					meta, pass := r.Params[0], r.Params[1]
					user := func(t *term) bool {
						k, ok := isRes(strip(t), 0, "ssh.ConnMetadata.User")
						return ok && k.Args[0] == meta
					}
					pw := func(t *term) bool { return strip(t) == pass }
					fld := func(n string) func(*term) bool {
						return func(t *term) bool { return fieldPath(strip(t), cfg, n) }
					}
					c.Check(provesEq(q, user, fld("ProxyUser")), P, q.Pos, short(cb.Fn), "accepts a login without the user name being equal to the configured one", q)
					c.Check(provesEq(q, pw, fld("ProxyPassword")), P, q.Pos, short(cb.Fn), "accepts a login without the password being equal to the configured one", q)
				}
			}
		}
	}
	c.Need(P, 3)

	// validated before listening
	for _, p := range mr.Paths {
		for _, ev := range callsOn(p, "net.Listen", "net.ListenConfig.Listen", "tls.Listen", "net.ListenTCP") {
			e := p.EvalAt(ev)
			cfg := cfgTerm(p)
			ok := false
			for _, w := range callsOn(p, "validator.v9.Validate.Struct") {
				if w.Seq < ev.Seq && cfg != nil && unbox(w.Args[1]) == cfg && e.IsNil(w.Res) {
					ok = true
				}
			}
			c.Check(ok, V, ev.Pos, "net.Listen in "+short(ev.Fn), "reached without Validate having succeeded on the loaded configuration", p)
		}
	}
	c.Need(V, 1)
	if fn := c.Fn(V, "config", "Config.Validate"); fn != nil {
		r := c.Explore(V, fn)
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			ok := false
			for _, w := range callsOn(p, "validator.v9.Validate.Struct") {
				if unbox(w.Args[1]) == r.Params[0] && (p.Eval().IsNil(w.Res) || errRet(p) == w.Res) {
					ok = true
				}
			}
			c.Check(ok, V, p.Pos, short(fn), "can succeed without the validator having accepted the whole configuration", p)
		}
	}
	for _, n := range []string{"SetTagName", "StructExcept", "StructPartial", "StructFiltered", "RegisterValidation", "RegisterStructValidation", "RegisterAlias", "RegisterTagNameFunc", "RegisterCustomTypeFunc"} {
		for _, call := range c.callSites("(*gopkg.in/go-playground/validator.v9.Validate)." + n) {
			c.Fail(V, call.Pos(), short(call.Parent())+" calls "+n, "changes what the validator checks")
		}
	}

	c.configTags(F)
	for _, typ := range []string{"config.Config", "config.RemoteConfig"} {
		full := c.P.Module + "/" + typ
		c.fieldStores(full, func(field string, st *ssa.Store) {
			if v, ok := st.Val.(*ssa.Const); ok && v.Value == nil {
				return
			}
			if isZeroConst(st.Val) {
				return
			}
			c.Fail(F, st.Pos(), short(st.Parent())+" sets "+typ+"."+field, "changes what the configuration file says")
		})
	}

	c.useAfterErr(H, mr, "ssh.NewServerConn", 3)
	for _, t := range c.spawned(H, mr, nil) {
		c.useAfterErr(H, t.r, "ssh.NewServerConn", 3)
	}
	for _, call := range c.callSites("golang.org/x/crypto/ssh.NewServerConn") {
		for _, fn := range c.roots(call.Parent()) {
			if fn.Name() != "main" {
				c.useAfterErr(H, c.Explore(H, fn), "ssh.NewServerConn", 3)
			}
		}
	}
	c.Need(H, 1)
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.Value == nil || k.Value.ExactString() == `""` || k.Value.ExactString() == "0" || k.Value.ExactString() == "false")
}

func (c *Ctx) configTags(rule string) {
	want := map[string][]string{"Config": {"ProxyUser", "ProxyPassword", "KnownHostsPath", "Remote"}, "RemoteConfig": {"Addr", "FileRoot", "User", "PrivateKeyPath"}}
	for tn, fields := range want {
		n := c.P.Named("config", tn)
		if n == nil {
			c.Fail(rule, token.NoPos, "config."+tn, "type not found")
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			c.Fail(rule, n.Obj().Pos(), "config."+tn, "not a struct")
			continue
		}
		found := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !in(f.Name(), fields...) {
				continue
			}
			found[f.Name()] = true
			tag, has := reflect.StructTag(st.Tag(i)).Lookup("validate")
			parts := strings.Split(tag, ",")
			if _, isStruct := f.Type().Underlying().(*types.Struct); isStruct {
				// nested structs are validated unless told otherwise
				c.Check(!in("-", parts...) && !in("structonly", parts...) && !in("nostructlevel", parts...), rule, f.Pos(), tn+"."+f.Name(), "the fields inside are not validated", nil)
				continue
			}
			bad := false
			for _, x := range parts {
				if x == "-" || x == "omitempty" || strings.Contains(x, "|") || strings.HasPrefix(x, "required_") {
					bad = true
				}
			}
			c.Check(has && in("required", parts...) && !bad && f.Exported(), rule, f.Pos(), tn+"."+f.Name(), "not tagged as required: "+st.Tag(i), nil)
			if j, has := reflect.StructTag(st.Tag(i)).Lookup("json"); has && strings.HasPrefix(j, "-") {
				c.Fail(rule, f.Pos(), tn+"."+f.Name(), "is not read from the configuration file")
			}
		}
		for _, f := range fields {
			if !found[f] {
				c.Fail(rule, n.Obj().Pos(), tn+"."+f, "field not found")
			}
		}
	}
	c.Need(rule, 4)
}

// useAfterErr: results of the named call (all but its error) are used only
// when its error is known to be nil.
func (c *Ctx) useAfterErr(rule string, r *res, callee string, errIdx int) {
	for _, p := range r.Paths {
		for _, call := range callsOn(p, callee) {
			for _, ev := range p.Events {
				if ev.Seq <= call.Seq || in(ev.Kind.String(), "branch") {
					continue
				}
				uses := false
				for _, a := range ev.Args {
					if a != nil {
						a.Walk(func(t *term) bool {
							if t.K == engine.KExtract && t.Args[0] == call.Res && t.Idx != errIdx {
								uses = true
							}
							return true
						})
					}
				}
				if uses {
					c.Check(p.EvalAt(ev).IsNil(r.TT.Extract(call.Res, errIdx)), rule, ev.Pos, short(ev.Fn), "uses what "+callee+" returned although it may have failed", p)
				}
			}
			// A failed one must not lead on to serving.
		}
	}
}

// provesEq: the path knows that something matching a equals something matching b.
func provesEq(p *path, a, b func(*term) bool) bool {
	e := p.Eval()
	for _, f := range p.Facts.Slice() {
		if f.Pol && f.T.K == engine.KBin && f.T.Op.String() == "==" {
			for i := 0; i < 2; i++ {
				if a(f.T.Args[i]) && b(f.T.Args[1-i]) {
					return true
				}
			}
		}
	}
	for _, ev := range p.Events {
		if ev.Kind != engine.EvCall || len(ev.Args) < 2 {
			continue
		}
		m := false
		for i := 0; i < 2; i++ {
			m = m || a(ev.Args[i]) && b(ev.Args[1-i])
		}
		if !m {
			continue
		}
		switch sn(ev.Callee) {
		case "bytes.Equal":
			if v, known := e.Decide(ev.Res); known && v {
				return true
			}
		case "subtle.ConstantTimeCompare":
			if e.Canon(ev.Res).Is(1) || e.AtMost(p.R.TT.Int(1), ev.Res, 0) {
				return true
			}
		case "bytes.Compare", "strings.Compare":
			if e.Canon(ev.Res).Is(0) {
				return true
			}
		}
	}
	return false
}

func runC05(c *Ctx) {
	const D = "dial-config"
	c.Rule(D, "every SSH client connection is dialled with the client configuration main fills")
	const K = "host-key"
	c.Rule(K, "when the backend is created, that configuration's host key callback is the known_hosts callback for the configured file, loaded without error; user and key are the configured ones; the address is the configured one")
	const N = "no-other-callback"
	c.Rule(N, "nothing else sets a host key callback, and no insecure callback is used anywhere")

	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						n := engine.FullName(f)
						if in(n, "golang.org/x/crypto/ssh.InsecureIgnoreHostKey", "golang.org/x/crypto/ssh.FixedHostKey") {
							c.Fail(N, i.Pos(), short(fn), "uses "+n)
						}
					}
				}
			}
		}
	}

	fl := newFlow(c.P)
	allocs := map[ssa.Value]bool{}
	dialers := map[string]int{"golang.org/x/crypto/ssh.Dial": 2, "golang.org/x/crypto/ssh.NewClientConn": 2}
	for n, ai := range dialers {
		for _, call := range c.callSites(n) {
			for _, o := range fl.origins(call.Common().Args[ai]) {
				a, ok := o.(*ssa.Alloc)
				if ok {
					allocs[a] = true
				}
				if k, isC := o.(*ssa.Const); isC && k.Value == nil {
					continue // given back with an error; nothing can be dialled with it
				}
				c.Check(ok, D, call.Pos(), short(call.Parent())+" calls "+sn(n), "dials with a configuration that is not the one main fills: "+o.String(), nil)
			}
		}
	}
	c.Need(D, 1)
	if len(allocs) == 0 {
		return
	}
	c.fieldStores("golang.org/x/crypto/ssh.ClientConfig", func(field string, st *ssa.Store) {
		ok := in(field, "User", "Auth", "HostKeyCallback", "Timeout", "ClientVersion", "HostKeyAlgorithms", "BannerCallback", "Config")
		base := st.Addr.(*ssa.FieldAddr).X
		if _, isA := base.(*ssa.Alloc); !isA && in(field, "HostKeyCallback", "User", "Auth") {
			for _, o := range fl.origins(base) {
				if _, isA := o.(*ssa.Alloc); !isA {
					ok = false
				}
			}
		}
		c.Check(ok, N, st.Pos(), short(st.Parent())+" sets ClientConfig."+field, "not a setting this proxy needs", nil)
	})
	mr := c.mainRes(K)
	if mr == nil {
		return
	}
	seen := map[ssa.Value]bool{}
	for _, p := range mr.Paths {
		evs := callsOn(p, "handlers.DecryptHandler")
		for _, g := range p.Events {
			if g.Kind == engine.EvGo {
				evs = append(evs, g)
			}
		}
		for _, ev := range evs {
			for a := range allocs {
				root := rootedAt(ev.Cells, a)
				if root == nil {
					continue
				}
				seen[a] = true
				c.clientConfig(K, p, ev, root)
			}
		}
	}
	for a := range allocs {
		c.Check(seen[a], K, a.Pos(), "client configuration in "+short(a.Parent()), "a connection can be dialled with a configuration whose callback main does not set", nil)
	}
	c.Need(K, 4)
}

func (c *Ctx) clientConfig(rule string, p *path, ev *evnt, root *term) {
	e := p.EvalAt(ev)
	cfg := cfgTerm(p)
	site := "client configuration"
	cb := cellField(ev.Cells, root, "HostKeyCallback")
	if !c.Check(cb != nil && cfg != nil, rule, ev.Pos, site, "no host key callback is set", p) {
		return
	}
	known := func(t *term) bool {
		k, ok := isRes(strip(t), 0, "knownhosts.New")
		if !ok {
			return false
		}
		return len(k.Args) == 1 && fieldPath(k.Args[0], cfg, "KnownHostsPath") && e.IsNil(p.R.TT.Extract(k, 1))
	}
	if cb.Fn == nil {
		c.Check(known(cb), rule, ev.Pos, site, "the host key callback is not the one loaded without error from the configured known_hosts file: "+cb.String(), p)
	} else {
		var free []*term
		if cb.K == engine.KClosure {
			free = cb.Args
		}
		r := c.ExploreCfg(rule, engine.Config{Entry: cb.Fn, Free: free, Mem: ev.Cells, TT: p.R.TT})
		for _, q := range r.Paths {
			if !okPath(q) {
				continue
			}
			ok := false
			for _, w := range q.Events {
				if w.Kind == engine.EvCall && w.Callee == "dyn" && len(w.Args) == 4 && known(w.Args[0]) &&
					w.Args[1] == r.Params[0] && w.Args[2] == r.Params[1] && w.Args[3] == r.Params[2] &&
					(q.Eval().IsNil(w.Res) || errRet(q) == w.Res) {
					ok = true
				}
			}
			c.Check(ok, rule, q.Pos, short(cb.Fn), "accepts a host key the known_hosts file did not accept", q)
		}
	}
	u := cellField(ev.Cells, root, "User")
	c.Check(u != nil && fieldPath(u, cfg, "Remote", "User"), rule, ev.Pos, site+" User", "not the configured remote user", p)
	auth := cellField(ev.Cells, root, "Auth")
	isKey := func(v *term) bool {
		k, isPK := isRes(strip(v), 0, "ssh.PublicKeys")
		if !isPK || len(k.Args) != 1 {
			return false
		}
		s, ok := isRes(k.Args[0], 0, "config.Config.LoadSSHKey")
		return ok && s.Args[0] == cfg && e.IsNil(p.R.TT.Extract(s, 1))
	}
	var onlyKeys func(t *term) (bool, int)
	onlyKeys = func(t *term) (ok bool, n int) {
		switch {
		case t == nil:
			return false, 0
		case e.IsNil(t):
			return true, 0
		case t.K == engine.KAppend && t.Aux == "elems":
			ok, n = onlyKeys(t.Args[0])
			for _, v := range t.Args[1:] {
				ok = ok && isKey(v)
				n++
			}
			return ok, n
		case t.K == engine.KMake || t.K == engine.KSlice && (t.Args[0].K == engine.KAlloc || t.Args[0].K == engine.KMake):
			base := t
			if t.K == engine.KSlice {
				base = t.Args[0]
			}
			ok = true
			for a, v := range ev.Cells {
				if a.K == engine.KIndexAddr && a.Args[0] == base {
					n++
					ok = ok && isKey(v)
				}
			}
			return ok, n
		}
		return false, 0
	}
	ok, n := onlyKeys(auth)
	ok = ok && n > 0
	c.Check(ok, rule, ev.Pos, site+" Auth", "not exactly the configured private key, loaded without error", p)
	// The address next to the configuration.
	for a, v := range ev.Cells {
		if v == root && a.K == engine.KFieldAddr {
			for b, w := range ev.Cells {
				if b.K == engine.KFieldAddr && b.Args[0] == a.Args[0] && w.T != nil && isStr(w.T) {
					c.Check(fieldPath(w, cfg, "Remote", "Addr"), rule, ev.Pos, site+" address", "connections go to another address than the configured one: "+w.String(), p)
				}
			}
		}
	}
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
