package rules

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C06", Technique: "path enumeration with loop induction over the acceptance code, constant tables read from the package initialiser, and flag-to-parameter value flow at the point the volume is opened",
		Explain: "every successful path of configfile.Load must have established version, known flags (for every index, by induction) and required flags; flag lookup is shown sound and complete; every constructor argument that depends on a flag is traced to that flag's lookup",
		Run:     runC06})
}

var flagNames = map[string]string{
	"FlagPlaintextNames": "PlaintextNames", "FlagDirIV": "DirIV", "FlagEMENames": "EMENames", "FlagGCMIV128": "GCMIV128",
	"FlagLongNames": "LongNames", "FlagAESSIV": "AESSIV", "FlagRaw64": "Raw64", "FlagHKDF": "HKDF", "FlagTrezor": "Trezor",
}

const cfPkg = "gocrypt/configfile"
const isSet = "configfile.ConfFile.IsFeatureFlagSet"

func (c *Ctx) flagVal(rule, name string) int64 {
	v, ok := c.constInt(cfPkg, name)
	if !ok {
		c.Fail(rule, token.NoPos, name, "feature flag constant not found")
		return -1000
	}
	return v
}

func runC06(c *Ctx) {
	const T = "flag-table"
	c.Rule(T, "the table of known flags maps each flag constant to its gocryptfs name and contains nothing else; constants are distinct")
	m, ok := c.initMap(cfPkg, "knownFlags")
	if !ok {
		c.Fail(T, token.NoPos, "configfile.knownFlags", "not a constant table, or changed after initialisation")
	} else {
		for k, want := range flagNames {
			v, has := c.constOf(cfPkg, k)
			c.Check(has && m[v] == want, T, token.NoPos, "knownFlags["+k+"]", "does not stand for "+want, nil)
		}
		c.Check(len(m) == len(flagNames), T, token.NoPos, "configfile.knownFlags", "the proxy claims to know flags it does not implement", nil)
	}
	c.Need(T, len(flagNames))

	c.lemmaFlagLookup()

	const L = "accept"
	c.Rule(L, "Load succeeds only if the file parsed, the version is 2, every flag in the file is a known one, and DirIV, EMENames and GCMIV128 (GCMIV128 alone with PlaintextNames) are set; it returns the very object that was checked")
	if fn := c.Fn(L, cfPkg, "Load"); fn != nil {
		r := c.Explore(L, fn, isSet)
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			if c.emptyConstList(p) {
				continue
			}
			c.acceptPath(L, r, p, short(fn))
		}
		c.Need(L, 5)
	}
	const U = "flag-use"
	c.Rule(U, "opening a volume: cipher by AESSIV, key derivation by HKDF, base64 padding by Raw64, long names by LongNames, all of the configuration that was accepted")
	if fn := c.Fn(U, "filetree", "Init"); fn != nil {
		r := c.exploreInit(U, fn)
		n := 0
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			n++
			c.initFlags(U, p)
		}
		if n == 0 {
			c.Fail(U, fn.Pos(), short(fn), "no successful path")
		}
	}
	c.Need(U, 6)
	c.lemmaNameEncoding()
	const W = "wrap-cipher"
	c.Rule(W, "the master key is unwrapped with GCM, with HKDF and 128-bit nonces if and only if the HKDF flag is set, 96-bit nonces otherwise")
	if fn := c.Fn(W, cfPkg, "ConfFile.DecryptMasterKey"); fn != nil {
		c.wrapCipher(W, fn)
	}
	c.Need(W, 2)
}

// exploreInit explores filetree.Init with the constructors left as calls.
func (c *Ctx) exploreInit(rule string, fn *ssa.Function) *res {
	return c.Explore(rule, fn, "configfile.Load", "configfile.LoadAndDecrypt", "configfile.ConfFile.DecryptMasterKey", isSet, "cryptocore.New",
		"contentenc.New", "nametransform.New", "requester.New", "requester.Requester.Start", "filetree.NewFastCache")
}

func (c *Ctx) wrapCipher(rule string, fn *ssa.Function) {
	r := c.Explore(rule, fn, isSet, "cryptocore.New", "contentenc.New", "configfile.ScryptKDF.DeriveKey",
		"contentenc.ContentEnc.DecryptBlock", "contentenc.ContentEnc.EncryptBlock", "contentenc.ContentEnc.Wipe", "configfile.NewScryptKDF")
	gcm, _ := c.constInt("gocrypt/cryptocore", "BackendGoGCM")
	hk := c.flagVal(rule, "FlagHKDF")
	cf := r.Params[0]
	for _, p := range r.Paths {
		for _, ev := range callsOn(p, "cryptocore.New") {
			v, known := flagOf(p, ev, ev.Args[3], cf, hk)
			c.Check(known, rule, ev.Pos, short(fn), "HKDF is not used according to the HKDF flag", p)
			c.Check(p.EvalAt(ev).Canon(ev.Args[1]).Is(gcm), rule, ev.Pos, short(fn), "the master key is not wrapped with GCM", p)
			bits := p.EvalAt(ev).Canon(ev.Args[2])
			want := int64(96)
			if v {
				want = 128
			}
			c.Check(bits.Is(want), rule, ev.Pos, short(fn), "wrong nonce length for unwrapping the master key", p)
			c.Check(p.EvalAt(ev).Canon(ev.Args[4]) == r.TT.Bool(false), rule, ev.Pos, short(fn), "forced decoding is on", p)
		}
	}
}

// flagOf: the boolean arg is the state of the flag in conf; its value on p.
// An undecided value is split by the caller through the facts, so a symbolic
// result counts as known with value decided by the path (or both).
func flagOf(p *path, ev *evnt, arg, conf *term, flag int64) (bool, bool) {
	e := p.EvalAt(ev)
	match := func(k *term) bool {
		return len(k.Args) == 2 && same(e, k.Args[0], conf) && k.Args[1].Is(flag)
	}
	if k, ok := isRes(arg, 0, isSet); ok {
		v, _ := e.Decide(arg)
		return v, match(k)
	}
	v, ok := arg.BoolVal()
	if !ok {
		if v, ok = e.Decide(arg); !ok {
			return false, false
		}
	}
	for _, w := range callsOn(p, isSet) {
		if w.Seq < ev.Seq && match(w.Res) {
			if x, known := e.Decide(w.Res); known && x == v {
				return v, true
			}
		}
	}
	return v, false
}

func (c *Ctx) initFlags(rule string, p *path) {
	conf, lerr := confOf(p)
	if !c.Check(conf != nil, rule, p.Pos, "filetree.Init", "the configuration does not come from configfile.Load", p) {
		return
	}
	news := callsOn(p, "cryptocore.New")
	if !c.Check(len(news) > 0, rule, p.Pos, "filetree.Init", "a tree is returned without setting up its ciphers", p) {
		return
	}
	siv, _ := c.constInt("gocrypt/cryptocore", "BackendAESSIV")
	gcm, _ := c.constInt("gocrypt/cryptocore", "BackendGoGCM")
	for _, ev := range news {
		e := p.EvalAt(ev)
		c.Check(e.IsNil(lerr), rule, ev.Pos, "filetree.Init", "the configuration is used although loading it failed", p)
		b := e.Canon(ev.Args[1])
		want := false
		if b.Is(siv) {
			want = true
		}
		ok := false
		if b.Is(siv) || b.Is(gcm) {
			for _, w := range callsOn(p, isSet) {
				if w.Seq < ev.Seq && w.Res.Args[0] == conf && w.Res.Args[1].Is(c.flagVal(rule, "FlagAESSIV")) {
					if x, known := e.Decide(w.Res); known && x == want {
						ok = true
					}
				}
			}
		}
		c.Check(ok, rule, ev.Pos, "filetree.Init cipher", "the content cipher is not chosen by the AESSIV flag", p)
		_, ok = flagOf(p, ev, ev.Args[3], conf, c.flagVal(rule, "FlagHKDF"))
		c.Check(ok, rule, ev.Pos, "filetree.Init HKDF", "key derivation does not follow the HKDF flag", p)
		c.Check(e.Canon(ev.Args[2]).Is(128), rule, ev.Pos, "filetree.Init nonce length", "content nonces are not 128 bits (GCMIV128)", p)
	}
	nts := callsOn(p, "nametransform.New")
	if !c.Check(len(nts) > 0, rule, p.Pos, "filetree.Init", "a tree is returned without a name transformation", p) {
		return
	}
	for _, ev := range nts {
		_, ok := flagOf(p, ev, ev.Args[1], conf, c.flagVal(rule, "FlagLongNames"))
		c.Check(ok, rule, ev.Pos, "filetree.Init long names", "long names do not follow the LongNames flag", p)
		_, ok = flagOf(p, ev, ev.Args[2], conf, c.flagVal(rule, "FlagRaw64"))
		c.Check(ok, rule, ev.Pos, "filetree.Init Raw64", "base64 padding does not follow the Raw64 flag", p)
	}
}

// confOf finds the configuration object a path of Init loaded, and the error
// of loading it.
func confOf(p *path) (*term, *term) {
	for _, ev := range callsOn(p, "configfile.Load") {
		return p.R.TT.Extract(ev.Res, 0), p.R.TT.Extract(ev.Res, 1)
	}
	for _, ev := range callsOn(p, "configfile.LoadAndDecrypt") {
		return p.R.TT.Extract(ev.Res, 1), p.R.TT.Extract(ev.Res, 2)
	}
	return nil, nil
}

// acceptPath: the obligations of one successful path of Load.
func (c *Ctx) acceptPath(rule string, r *res, p *path, site string) {
	e := p.Eval()
	tt := r.TT
	ck := func(ok bool, why string) bool { return c.Check(ok, rule, p.Pos, site, why, p) }
	cf := p.Ret[0]
	var un *evnt
	for _, ev := range callsOn(p, "json.Unmarshal", "json.Decoder.Decode") {
		if strip(ev.Args[1]) == cf {
			un = ev
		}
	}
	if !ck(un != nil, "what is returned was not parsed from the file") {
		return
	}
	ck(e.IsNil(un.Res), "a file that does not parse is accepted")
	if sn(un.Callee) == "json.Unmarshal" {
		k, isR := isRes(un.Args[0], 0, "ioutil.ReadFile", "os.ReadFile")
		if ck(isR && k.Args[0] == r.Params[0], "what is parsed is not the named file") {
			ck(e.IsNil(tt.Extract(k, 1)), "a failed read is accepted")
		}
	}
	ver := false
	for _, f := range p.Facts.Slice() {
		if f.T.K != engine.KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			if fieldPath(strip(f.T.Args[i]), cf, "Version") && e.Canon(f.T.Args[i]).Is(2) {
				ver = true
			}
		}
	}
	ck(ver, "a version other than 2 is accepted")
	// known flags
	var flags *term
	isFlags := func(t *term) bool { return t.K != engine.KFieldAddr && fieldPath(t, cf, "FeatureFlags") }
	findFlags := func(t *term) {
		t.Walk(func(x *term) bool {
			if isFlags(x) {
				flags = x
			}
			return true
		})
	}
	for _, f := range p.Facts.Slice() {
		findFlags(f.T)
	}
	if ck(flags != nil, "the feature flags are not looked at") {
		okk := c.forall(r, p, tt.Int(0), tt.Len(flags), func(q *path, qe *eval, facts []engine.Fact) []*term {
			var out []*term
			eqFacts(facts, true, func(a, b *term) bool {
				base, idx, ok := elemOf(a)
				if ok && base == flags && knownFlagValue(b) {
					out = append(out, idx)
				}
				return false
			})
			for _, f := range facts {
				if f.Pol && f.T.K == engine.KLookupOk {
					// a set keyed by name would need its own table check
					continue
				}
			}
			return out
		})
		ck(okk, "a flag that is not in the table of known flags is accepted")
	}
	// required flags
	have := map[int64]bool{}
	plain := false
	for _, ev := range callsOn(p, isSet) {
		if ev.Res.Args[0] != cf {
			continue
		}
		k, isC := ev.Res.Args[1].IntVal()
		if v, known := e.Decide(ev.Res); isC && known && v {
			have[k] = true
		}
	}
	for _, list := range c.flagLists(p) {
		ok := c.forall(r, p, tt.Int(0), tt.Len(list.base), func(q *path, qe *eval, facts []engine.Fact) []*term {
			var out []*term
			for _, f := range facts {
				if !f.Pol {
					continue
				}
				k, ok := isRes(f.T, 0, isSet)
				if !ok || k.Args[0] != cf {
					continue
				}
				if base, idx, ok := elemOf(k.Args[1]); ok && base == list.base {
					out = append(out, idx)
				}
			}
			return out
		})
		if ok {
			for _, v := range list.vals {
				have[v] = true
			}
		}
	}
	plain = have[c.flagVal(rule, "FlagPlaintextNames")]
	req := []string{"FlagGCMIV128"}
	if !plain {
		req = append(req, "FlagDirIV", "FlagEMENames")
	}
	for _, n := range req {
		ck(have[c.flagVal(rule, n)], "a volume without the required flag "+flagNames[n]+" is accepted")
	}
}

// knownFlagValue: t is a value of the table of known flags.
func knownFlagValue(t *term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	ok := false
	t.Walk(func(x *term) bool {
		if x.K == engine.KRange || x.K == engine.KLookup {
			if g, is := globalOf(x.Args[0]); is && strings.HasSuffix(g, "configfile.knownFlags") {
				ok = true
			}
		}
		return true
	})
	return ok
}

// emptyConstList: the path takes a package's constant list to be empty that
// is not, so it cannot happen.
func (c *Ctx) emptyConstList(p *path) bool {
	for _, f := range p.Facts.Slice() {
		hit := false
		f.T.Walk(func(x *term) bool {
			if x.K == engine.KLen {
				if g, ok := globalOf(x.Args[0]); ok {
					if l, ok := c.initSlice(g); ok && len(l) > 0 && p.Eval().AtMost(x, p.R.TT.Int(0), 0) {
						hit = true
					}
				}
			}
			return true
		})
		if hit {
			return true
		}
	}
	return false
}

type flagList struct {
	base *term
	vals []int64
}

// flagLists finds the constant lists of flags a path goes through.
func (c *Ctx) flagLists(p *path) []flagList {
	seen := map[*term]bool{}
	var out []flagList
	add := func(b *term, ev *evnt) {
		if b == nil || seen[b] {
			return
		}
		seen[b] = true
		if g, ok := globalOf(b); ok {
			if l, ok := c.initSlice(g); ok {
				var vs []int64
				for _, s := range l {
					if n, ok := atoi(s); ok {
						vs = append(vs, n)
					}
				}
				out = append(out, flagList{b, vs})
			}
			return
		}
		if b.K == engine.KGlobal {
			if l, ok := c.initSlice(b.Aux); ok {
				var vs []int64
				for _, s := range l {
					if n, ok := atoi(s); ok {
						vs = append(vs, n)
					}
				}
				out = append(out, flagList{b, vs})
			}
			return
		}
		root := b.Root()
		if root.K == engine.KAlloc {
			var vs []int64
			for a, v := range p.Mem {
				if a.K == engine.KIndexAddr && a.Args[0] == root {
					if n, ok := v.IntVal(); ok {
						vs = append(vs, n)
					}
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
			out = append(out, flagList{b, vs})
		}
	}
	for _, ev := range callsOn(p, isSet) {
		if b, _, ok := elemOf(ev.Res.Args[1]); ok {
			add(b, ev)
		}
	}
	return out
}

func atoi(s string) (int64, bool) {
	var n int64
	neg := false
	for i, ch := range s {
		if ch == '-' && i == 0 {
			neg = true
			continue
		}
		if ch < '0' || ch > '9' {
			return 0, false
		}
		n = n*10 + int64(ch-'0')
	}
	if neg {
		n = -n
	}
	return n, s != ""
}

// lemmaFlagLookup: IsFeatureFlagSet is exact.
func (c *Ctx) lemmaFlagLookup() {
	c.Once("flag-lookup", func() {
		const R = "flag-lookup"
		c.Rule(R, "IsFeatureFlagSet(f) returns true only if some entry equals the name of f, and false only if none does")
		fn := c.Fn(R, cfPkg, "ConfFile.IsFeatureFlagSet")
		if fn == nil {
			return
		}
		r := c.Explore(R, fn)
		cf, want := r.Params[0], r.Params[1]
		name := func(t *term) bool {
			t = strip(t)
			if t != nil && t.K == engine.KExtract {
				t = t.Args[0]
			}
			if t == nil || t.K != engine.KLookup || strip(t.Args[1]) != want {
				return false
			}
			g, ok := globalOf(t.Args[0])
			return ok && strings.HasSuffix(g, "configfile.knownFlags")
		}
		var paths []*path
		for _, p := range r.Paths {
			if p.Exit == "panic" {
				c.FailPath(R, p.Pos, short(fn), "can panic", p)
			}
			if p.Exit != "return" {
				continue
			}
			if _, known := p.Eval().Decide(p.Ret[0]); known {
				paths = append(paths, p)
			} else {
				paths = append(paths, p.With(p.Ret[0], true), p.With(p.Ret[0], false))
			}
		}
		for _, p := range paths {
			v, _ := p.Eval().Decide(p.Ret[0])
			contains := false
			for _, ev := range callsOn(p, "slices.Contains", "slices.Index") {
				if fieldPath(ev.Args[0], cf, "FeatureFlags") && name(ev.Args[1]) {
					contains = true
				}
			}
			if contains {
				c.Pass(R, short(fn))
				continue
			}
			if v {
				ok := c.exists(r, p, func(e *eval, facts []engine.Fact) bool {
					return eqFacts(facts, true, func(a, b *term) bool {
						base, _, ok := elemOf(a)
						return ok && fieldPath(base, cf, "FeatureFlags") && name(b)
					})
				})
				c.Check(ok, R, p.Pos, short(fn), "reports a flag as set without having found its name", p)
				continue
			}
			var flags *term
			for _, f := range p.Facts.Slice() {
				f.T.Walk(func(x *term) bool {
					if x.K != engine.KFieldAddr && fieldPath(x, cf, "FeatureFlags") {
						flags = x
					}
					return true
				})
			}
			ok := flags != nil && c.forall(r, p, r.TT.Int(0), r.TT.Len(flags), func(q *path, qe *eval, facts []engine.Fact) []*term {
				var out []*term
				eqFacts(facts, false, func(a, b *term) bool {
					base, idx, ok := elemOf(a)
					if ok && base == flags && name(b) {
						out = append(out, idx)
					}
					return false
				})
				return out
			})
			c.Check(ok, R, p.Pos, short(fn), "reports a flag as not set without having compared every entry", p)
		}
		c.Need(R, 2)
	})
}

// lemmaNameEncoding: nametransform.New picks the base64 variant.
func (c *Ctx) lemmaNameEncoding() {
	c.Once("name-encoding", func() {
		const R = "name-encoding"
		c.Rule(R, "nametransform.New uses raw URL base64 iff raw64, padded URL base64 otherwise, and keeps the given cipher and long name setting; the encoding is not changed afterwards")
		fn := c.Fn(R, "gocrypt/nametransform", "New")
		if fn == nil {
			return
		}
		r := c.Explore(R, fn)
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			get := func(n string) *term {
				for a, v := range p.Mem {
					if a.K == engine.KFieldAddr && a.Args[0] == p.Ret[0] && a.Var.Name() == n {
						return v
					}
				}
				return nil
			}
			raw, known := p.Eval().Decide(r.Params[2])
			g, ok := globalOf(get("B64"))
			if ok && known {
				want := "encoding/base64.URLEncoding"
				if raw {
					want = "encoding/base64.RawURLEncoding"
				}
				c.Check(g == want, R, p.Pos, short(fn), "raw64="+boolStr(raw)+" gets "+g, p)
			} else {
				c.FailPath(R, p.Pos, short(fn), "the encoding is not chosen by raw64", p)
			}
			c.Check(get("emeCipher") == r.Params[0], R, p.Pos, short(fn), "another cipher than the given one is used", p)
			c.Check(get("longNames") == r.Params[1] || same(p.Eval(), get("longNames"), r.Params[1]), R, p.Pos, short(fn), "the long name setting is not the given one", p)
		}
		c.Need(R, 2)
		full := c.P.Module + "/gocrypt/nametransform.NameTransform"
		c.fieldStores(full, func(field string, st *ssa.Store) {
			root := st.Parent()
			for root.Parent() != nil {
				root = root.Parent()
			}
			if _, fresh := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !fresh {
				c.Fail(R, st.Pos(), short(root)+" sets "+field, "changes the name transformation after it was made")
			}
		})
	})
}

func boolStr(b bool) string {
	if b {
		return "true"
	}
	return "false"
}
