package rules

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C17", Technique: "typestate analysis of key buffers over all path classes: every buffer that holds key material is followed from its creation, copies included, and must be overwritten by a loop shown by induction to cover it, after its last use",
		Explain: "each path of the functions that own key material is enumerated; a buffer is wiped only if zero stores cover every index up to its length and nothing reads it or refills it afterwards",
		Run:     runC17})
}

// zeroStores lists the indices of base that are set to zero on a path.
func zeroStores(p *path, base *term) []*evnt {
	var out []*evnt
	for _, ev := range p.Events {
		if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KIndexAddr && baseOf(p.R.TT, ev.Args[0].Args[0]) == base && strip(ev.Args[1]).Is(0) {
			out = append(out, ev)
		}
	}
	return out
}

// touches: the event reads or refills the buffer.
func touches(p *path, ev *evnt, base *term) bool {
	tt := p.R.TT
	has := func(t *term) bool { return t != nil && baseOf(tt, unbox(t)) == base }
	switch ev.Kind {
	case engine.EvCall:
		if strings.HasPrefix(ev.Callee, "builtin.") && ev.Callee != "builtin.copy" && ev.Callee != "builtin.append" {
			return false
		}
		if in(sn(ev.Callee), "runtime.KeepAlive") {
			return false
		}
		for _, a := range ev.Args {
			if has(a) {
				return true
			}
		}
	case engine.EvCopy:
		for _, a := range ev.Args {
			if has(a) {
				return true
			}
		}
	case engine.EvGo:
		for _, a := range ev.Args {
			if has(a) {
				return true
			}
		}
		if ev.Res != nil {
			for _, a := range ev.Res.Args {
				if has(a) {
					return true
				}
			}
		}
	case engine.EvStore:
		return ev.Args[0].K == engine.KIndexAddr && baseOf(tt, ev.Args[0].Args[0]) == base && !strip(ev.Args[1]).Is(0)
	}
	return false
}

// wiped: when p ends, every byte of the buffer has been overwritten with zero
// and was not touched since; the sequence number from which on it is being
// wiped.
func (c *Ctx) wiped(r *res, p *path, t *term) (int, string) {
	tt, e := r.TT, p.Eval()
	t = unbox(t)
	base := baseOf(tt, t)
	n := tt.Len(t)
	start := -1
	if base.K == engine.KAlloc || t == base || whole(e, tt, t) {
		zs := zeroStores(p, base)
		if len(zs) > 0 {
			start = zs[0].Seq
			ok := c.forall(r, p, tt.Int(0), n, func(q *path, _ *eval, _ []engine.Fact) []*term {
				var out []*term
				for _, ev := range zeroStores(q, base) {
					out = append(out, ev.Args[0].Args[1])
				}
				return out
			})
			if !ok {
				start = -1
			}
		}
		if start < 0 && e.AtMost(n, tt.Int(0), 0) {
			return 1 << 30, "" // nothing in it
		}
	}
	for _, ev := range p.Events {
		// copy(key, make([]byte, len(key)))
		if ev.Kind == engine.EvCopy && baseOf(tt, ev.Args[0]) == base && ev.Args[1].K == engine.KMake && same(e, tt.Len(ev.Args[1]), n) && whole(e, tt, ev.Args[0]) {
			start = ev.Seq + 1
		}
		if ev.Kind == engine.EvCall && ev.Callee == "builtin.clear" && len(ev.Args) > 0 && baseOf(tt, ev.Args[0]) == base {
			start = ev.Seq
		}
	}
	if start < 0 {
		return -1, "is not overwritten with zeros in full"
	}
	for _, ev := range p.Events {
		if ev.Seq > start && touches(p, ev, base) {
			return -1, "is used again after it was overwritten"
		}
	}
	return start, ""
}

// copies extends a set of secret buffers by the copies a path makes of them.
func copies(p *path, set map[*term]*term) {
	tt, e := p.R.TT, p.Eval()
	sec := func(t *term) bool {
		t = unbox(t)
		return t != nil && set[baseOf(tt, t)] != nil
	}
	var scan func(t *term)
	for changed := true; changed; {
		changed = false
		add := func(t *term) {
			b := baseOf(tt, unbox(t))
			if set[b] == nil {
				set[b] = unbox(t)
				changed = true
			}
		}
		scan = func(t *term) {
			if t == nil {
				return
			}
			t.Walk(func(x *term) bool {
				if x.K == engine.KAppend {
					for _, q := range pieces(e, x) {
						if q != x && sec(q) {
							add(x)
						}
					}
				}
				if k, _, ok := isCall(x, "bytes.Clone", "slices.Clone"); ok && sec(k.Args[0]) {
					add(x)
				}
				return true
			})
		}
		for _, ev := range p.Events {
			if ev.Kind == engine.EvCopy && sec(ev.Args[1]) {
				add(ev.Args[0])
			}
			if ev.Kind == engine.EvCall || ev.Kind == engine.EvStore {
				for _, a := range ev.Args {
					scan(a)
				}
			}
		}
		for _, x := range p.Ret {
			scan(x)
		}
	}
}

// wipeAll: all secret buffers are wiped when the path ends.
func (c *Ctx) wipeAll(rule string, r *res, p *path, site string, set map[*term]*term, given *term) {
	copies(p, set)
	for b, t := range set {
		if given != nil && b == baseOf(r.TT, given) {
			continue // belongs to the caller
		}
		_, why := c.wiped(r, p, t)
		c.Check(why == "", rule, p.Pos, site, "key material "+why+": "+t.String(), p)
	}
}

func runC17(c *Ctx) {
	const K = "derived-keys"
	c.Rule(K, "cryptocore.New: every buffer that holds a key derived from the given one, or a copy of it, is overwritten in full before New returns, and not used after")
	if fn := c.Fn(K, "gocrypt/cryptocore", "New"); fn != nil {
		r := c.Explore(K, fn, "siv_aead.New")
		tt := r.TT
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			set := map[*term]*term{baseOf(tt, r.Params[0]): r.Params[0]}
			n := 0
			for _, ev := range p.Events {
				switch {
				case evIs(ev, "io.Reader.Read", "io.ReadFull", "io.ReadAtLeast") && len(ev.Args) > 1:
					if _, ok := isRes(unbox(ev.Args[0]), 0, "hkdf.New"); ok {
						set[baseOf(tt, ev.Args[1])] = ev.Args[1]
					}
				case evIs(ev, "hkdf.Key"):
					k := tt.Extract(ev.Res, 0)
					set[k] = k
				case evIs(ev, "aes.NewCipher", "siv_aead.New", "stupidgcm.New"):
					set[baseOf(tt, unbox(ev.Args[0]))] = unbox(ev.Args[0])
					n++
				case ev.Kind == engine.EvStore && ev.Args[0].K == engine.KAlloc:
					if _, ok := isRes(ev.Args[1], 0, "sha512.Sum512"); ok {
						set[ev.Args[0]] = tt.Slice(ev.Args[0], tt.Int(0), nil, nil, nil)
					}
				}
			}
			c.Check(n >= 2, K, p.Pos, short(fn), "the ciphers set up are not recognised", p)
			c.wipeAll(K, r, p, short(fn), set, r.Params[0])
		}
		c.Need(K, 4)
	}

	const H = "password-hash"
	c.Rule(H, "the scrypt hash is overwritten in full, and the cipher made from it wiped, after the master key was unwrapped or wrapped with it and before the function returns")
	for _, name := range []string{"ConfFile.DecryptMasterKey", "ConfFile.EncryptKey"} {
		fn := c.Fn(H, cfPkg, name)
		if fn == nil {
			continue
		}
		r := c.Explore(H, fn, isSet, "cryptocore.New", "contentenc.New", "configfile.ScryptKDF.DeriveKey", "contentenc.ContentEnc.DecryptBlock",
			"contentenc.ContentEnc.EncryptBlock", "contentenc.ContentEnc.Wipe", "configfile.NewScryptKDF")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			set := map[*term]*term{}
			for _, ev := range callsOn(p, "configfile.ScryptKDF.DeriveKey", "scrypt.Key") {
				k := ev.Res
				if sn(ev.Callee) == "scrypt.Key" {
					k = r.TT.Extract(ev.Res, 0)
				}
				set[k] = k
			}
			for _, ev := range callsOn(p, "cryptocore.New") {
				set[baseOf(r.TT, unbox(ev.Args[0]))] = unbox(ev.Args[0])
			}
			c.wipeAll(H, r, p, short(fn), set, nil)
			ces := callsOn(p, "contentenc.New")
			c.Check(len(ces) > 0 && len(set) > 0, H, p.Pos, short(fn), "the key-wrapping cipher is not recognised", p)
			for _, ce := range ces {
				at := -1
				for _, w := range callsOn(p, "contentenc.ContentEnc.Wipe") {
					if w.Args[0] == ce.Res {
						at = w.Seq
					}
				}
				if !c.Check(at >= 0, H, ce.Pos, short(fn), "the key-wrapping cipher is not wiped", p) {
					continue
				}
				for _, w := range callsOn(p, "contentenc.ContentEnc.DecryptBlock", "contentenc.ContentEnc.EncryptBlock") {
					c.Check(w.Args[0] != ce.Res || w.Seq < at, H, w.Pos, short(fn), "the key-wrapping cipher is used after it was wiped", p)
				}
			}
		}
	}
	c.Need(H, 4)

	const M = "master-key"
	c.Rule(M, "the unlocked or generated master key is overwritten in full after the ciphers were set up, or it was wrapped, and before the function returns")
	if fn := c.Fn(M, "filetree", "Init"); fn != nil {
		r := c.exploreInit(M, fn)
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			set := map[*term]*term{}
			for _, ev := range callsOn(p, "configfile.ConfFile.DecryptMasterKey", "configfile.LoadAndDecrypt") {
				ei := 1
				if strings.HasSuffix(ev.Callee, "LoadAndDecrypt") {
					ei = 2
				}
				if !p.Eval().NonNil(r.TT.Extract(ev.Res, ei)) {
					k := r.TT.Extract(ev.Res, 0)
					set[k] = k
				}
			}
			c.wipeAll(M, r, p, short(fn), set, nil)
		}
	}
	if fn := c.Fn(M, cfPkg, "Create"); fn != nil {
		r := c.Explore(M, fn, "configfile.ConfFile.EncryptKey", "configfile.ConfFile.WriteFile", "cryptocore.RandBytes", "configfile.randBytesDevRandom")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			set := map[*term]*term{}
			for _, ev := range callsOn(p, "configfile.ConfFile.EncryptKey") {
				set[baseOf(r.TT, ev.Args[1])] = ev.Args[1]
			}
			c.Check(len(set) > 0, M, p.Pos, short(fn), "no key is wrapped", p)
			c.wipeAll(M, r, p, short(fn), set, nil)
		}
	}
	c.Need(M, 4)

	c.lemmaSivKey()

	const W = "cipher-wipe"
	c.Rule(W, "ContentEnc.Wipe wipes its CryptoCore; CryptoCore.Wipe wipes the content cipher unless it is a standard library GCM and drops both ciphers; the SIV cipher's Wipe zeroes its whole key")
	if fn := c.Fn(W, "gocrypt/contentenc", "ContentEnc.Wipe"); fn != nil {
		r := c.Explore(W, fn, "cryptocore.CryptoCore.Wipe")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			ok := false
			for _, ev := range callsOn(p, "cryptocore.CryptoCore.Wipe") {
				ok = ok || fieldPath(ev.Args[0], r.Params[0], "cryptoCore")
			}
			c.Check(ok, W, p.Pos, short(fn), "the CryptoCore inside is not wiped", p)
		}
	}
	gcm, _ := c.constInt("gocrypt/cryptocore", "BackendGoGCM")
	if fn := c.Fn(W, "gocrypt/cryptocore", "CryptoCore.Wipe"); fn != nil {
		r := c.Explore(W, fn)
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			e := p.Eval()
			isGCM, called := false, false
			for _, f := range p.Facts.Slice() {
				f.T.Walk(func(x *term) bool {
					if x.K == engine.KLoad && fieldPath(x, r.Params[0], "AEADBackend") && e.Canon(x).Is(gcm) {
						isGCM = true
					}
					return true
				})
			}
			// Backends known not to be the wiping ones count as GCM: New makes no others.
			siv, _ := c.constInt("gocrypt/cryptocore", "BackendAESSIV")
			for _, f := range p.Facts.Slice() {
				f.T.Walk(func(x *term) bool {
					if x.K == engine.KLoad && fieldPath(x, r.Params[0], "AEADBackend") {
						if v, known := e.Decide(r.TT.Eq(x, r.TT.Int(siv))); known && !v {
							isGCM = true
						}
					}
					return true
				})
			}
			for _, ev := range p.Events {
				if ev.Kind == engine.EvCall && strings.HasSuffix(ev.Callee, ".Wipe") || (ev.Kind == engine.EvEnter && ev.CalleeFn != nil && ev.CalleeFn.Name() == "Wipe" && ev.CalleeFn != fn) {
					if len(ev.Args) > 0 && ofCipher(ev.Args[0], r.Params[0]) {
						called = true
					}
				}
			}
			// "if w, ok := cipher.(wiper); ok": a failed assertion means there is nothing to wipe
			for _, f := range p.Facts.Slice() {
				if !f.Pol && f.T.K == engine.KAssertOk && ofCipher(f.T.Args[0], r.Params[0]) {
					isGCM = true
				}
			}
			c.Check(isGCM || called, W, p.Pos, short(fn), "a content cipher that keeps its key is not wiped", p)
			for _, f := range []string{"AEADCipher", "EMECipher"} {
				v := c.objField(p, r.Params[0], f)
				c.Check(v != nil && e.IsNil(v), W, p.Pos, short(fn), f+" is kept", p)
			}
		}
	}
	n := 0
	for _, fn := range c.P.Funcs {
		if fn.Name() != "Wipe" || engine.IsFake(fn) || fn.Synthetic != "" || engine.PkgOf(fn) == nil || !strings.HasSuffix(engine.PkgOf(fn).Path(), "/siv_aead") {
			continue
		}
		n++
		r := c.Explore(W, fn)
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			ok := false
			why := "the key is not overwritten"
			walkPath(p, func(x *term) {
				if x.K == engine.KLoad && fieldPath(x, r.Params[0], "key") && !ok {
					_, why = c.wiped(r, p, x)
					ok = why == ""
				}
			})
			c.Check(ok, W, p.Pos, short(fn), "the cipher's key "+why, p)
		}
	}
	c.Check(n > 0, W, token.NoPos, "siv_aead", "no Wipe found", nil)
	c.Need(W, 6)
}

// ofCipher: t is the content cipher of the CryptoCore, as some interface.
func ofCipher(t, core *term) bool {
	for t != nil {
		if fieldPath(t, core, "AEADCipher") {
			return true
		}
		switch t.K {
		case engine.KIface, engine.KConv, engine.KAssert, engine.KExtract:
			t = t.Args[0]
		default:
			return false
		}
	}
	return false
}

// lemmaSivKey: the SIV cipher keeps a whole private copy of a 64-byte key.
func (c *Ctx) lemmaSivKey() {
	const R = "siv-own-key"
	c.Rule(R, "the SIV cipher is made only from a 64-byte key and keeps a complete copy of it in memory of its own")
	fn := c.Fn(R, "gocrypt/siv_aead", "New")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn)
	tt := r.TT
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		e := p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
		ck(e.Canon(tt.Len(r.Params[0])).Is(64), "a key of another length than 64 is not refused")
		k := c.objField(p, unbox(p.Ret[0]), "key")
		if !ck(k != nil, "the cipher has no key") {
			continue
		}
		own := baseOf(tt, k)
		for own.K == engine.KAppend {
			own = baseOf(tt, own.Args[0])
		}
		ck(own != r.Params[0], "the cipher keeps the caller's key buffer, which the caller wipes")
		got := c.keyMat(p, 1<<30, k, r.Params[0])
		ck(got == "master", "what the cipher keeps is not the whole key: "+got+fmt.Sprint(" ", k))
	}
	c.fieldStores(repoPath+"/gocrypt/siv_aead.sivAead", func(field string, st *ssa.Store) {
		if field != "key" {
			return
		}
		f := st.Parent()
		ok := f.Name() == "Wipe"
		for _, x := range c.roots(f) {
			ok = ok || x == fn || x.Name() == "Wipe"
		}
		c.Check(ok, R, st.Pos(), short(f), "changes the key of a cipher", nil)
	})
	c.Need(R, 2)
}
