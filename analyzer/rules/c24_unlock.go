package rules

import (
	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C24", Technique: "path enumeration with value provenance from the passphrase prompt through key derivation, unwrapping and cipher setup to the served tree",
		Explain: "on every path class on which a tree is served, the cipher key must be the result of a successful authenticated decryption of the wrapped key of the configuration read from the volume, under the key derived from the passphrase",
		Run:     runC24})
}

// untouched: nothing on the path before seq writes to the buffer.
func untouched(p *path, t *term, upto int) bool {
	tt := p.R.TT
	b := baseOf(tt, t)
	for _, ev := range p.Events {
		if ev.Seq >= upto {
			break
		}
		switch {
		case ev.Kind == engine.EvStore && ev.Args[0].K == engine.KIndexAddr && baseOf(tt, ev.Args[0].Args[0]) == b:
			return false
		case ev.Kind == engine.EvCopy && baseOf(tt, ev.Args[0]) == b:
			return false
		case ev.Kind == engine.EvCall && ev.Callee == "builtin.clear" && len(ev.Args) > 0 && baseOf(tt, ev.Args[0]) == b:
			return false
		case evIs(ev, "rand.Read", "io.ReadFull"):
			for _, a := range ev.Args {
				if baseOf(tt, a) == b {
					return false
				}
			}
		}
	}
	return true
}

func runC24(c *Ctx) {
	const U = "unwrap"
	c.Rule(U, "DecryptMasterKey succeeds only with the unmodified result of DecryptBlock(cf.EncryptedKey, 0, nil), without error, of a ContentEnc over a CryptoCore keyed with DeriveKey(password) of cf.ScryptObject")
	if fn := c.Fn(U, cfPkg, "ConfFile.DecryptMasterKey"); fn != nil {
		r := c.Explore(U, fn, isSet, "cryptocore.New", "contentenc.New", "configfile.ScryptKDF.DeriveKey", "contentenc.ContentEnc.DecryptBlock",
			"contentenc.ContentEnc.EncryptBlock", "contentenc.ContentEnc.Wipe", "configfile.NewScryptKDF")
		tt := r.TT
		cf, pw := r.Params[0], r.Params[1]
		for _, p := range r.Paths {
			if !okPath(p) {
				c.Pass(U, short(fn)+" (failing path)")
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, U, p.Pos, short(fn), why, p) }
			d, ok := isRes(p.Ret[0], 0, "contentenc.ContentEnc.DecryptBlock")
			if !ck(ok, "succeeds with a key that was not decrypted: "+p.Ret[0].String()) {
				continue
			}
			ck(e.IsNil(tt.Extract(d, 1)) || errRet(p) == tt.Extract(d, 1), "succeeds although decryption failed")
			ck(fieldPath(d.Args[1], cf, "EncryptedKey"), "what is decrypted is not the wrapped key of this configuration: "+d.Args[1].String())
			ck(e.Canon(d.Args[2]).Is(0), "not decrypted at block position 0")
			ck(e.IsNil(d.Args[3]) || e.Canon(tt.Len(d.Args[3])).Is(0), "decrypted with a file identifier")
			ck(untouched(p, p.Ret[0], 1<<30), "the key returned was modified")
			ce, ok := isRes(d.Args[0], 0, "contentenc.New")
			if !ck(ok, "not a cipher made here") {
				continue
			}
			cc, ok := isRes(ce.Args[0], 0, "cryptocore.New")
			if !ck(ok, "not a cipher made here") {
				continue
			}
			ck(e.Canon(ce.Args[2]) == tt.Bool(false), "forced decoding is on")
			kk := cc.Args[0]
			if ps := pieces(e, kk); len(ps) == 1 {
				kk = ps[0]
			}
			dk, ok := isRes(kk, 0, "configfile.ScryptKDF.DeriveKey")
			if !ck(ok, "the unwrapping key is not derived from the passphrase: "+cc.Args[0].String()) {
				continue
			}
			ck(fieldPath(dk.Args[0], cf, "ScryptObject"), "derived with other parameters than those of this configuration")
			ck(dk.Args[1] == pw, "derived from something else than the passphrase: "+dk.Args[1].String())
			if ev := callEvent(p, cc); ev != nil {
				ck(untouched(p, cc.Args[0], ev.Seq) && untouched(p, dk, ev.Seq), "the derived key was modified before use")
			}
		}
		c.wrapCipher(U, fn)
		c.Need(U, 8)
	}
	c.lemmaScrypt()
	c.lemmaDecryptBlock()
	c.lemmaAEAD()
	c.lemmaCryptoCore()

	const O = "open-volume"
	c.Rule(O, "Init returns a tree only if the configuration was parsed from the bytes just read from gocryptfs.conf in the root, DecryptMasterKey of it succeeded with the given password, and the ciphers of the tree are keyed with that key, unmodified")
	if fn := c.Fn(O, "filetree", "Init"); fn != nil {
		r := c.exploreInit(O, fn)
		tt := r.TT
		root, pw, acc := r.Params[0], r.Params[1], r.Params[3]
		for _, p := range r.Paths {
			if !okPath(p) {
				c.Pass(O, short(fn)+" (failing path)")
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, O, p.Pos, short(fn), why, p) }
			ck(c.confFromVolume(p, root, acc), "the configuration used is not the one read from gocryptfs.conf in the root")
			news := callsOn(p, "cryptocore.New")
			if !ck(len(news) > 0, "no cipher is set up") {
				continue
			}
			conf, _ := confOf(p)
			for _, nw := range news {
				ee := p.EvalAt(nw)
				k, ok := isRes(nw.Args[0], 0, "configfile.ConfFile.DecryptMasterKey")
				if !ok {
					if l, isL := isRes(nw.Args[0], 0, "configfile.LoadAndDecrypt"); isL {
						c.Check(ee.IsNil(tt.Extract(l, 2)) && l.Args[1] == pw, O, nw.Pos, short(fn), "keyed although unlocking failed, or with another passphrase", p)
						continue
					}
					if ps := pieces(e, nw.Args[0]); len(ps) == 1 && ps[0] != nw.Args[0] {
						k, ok = isRes(ps[0], 0, "configfile.ConfFile.DecryptMasterKey")
					}
				}
				if !ck(ok, "the ciphers are keyed with something else than the unwrapped master key: "+nw.Args[0].String()) {
					continue
				}
				ck(conf != nil && same(ee, k.Args[0], conf), "the master key is unwrapped from another configuration")
				ck(k.Args[1] == pw, "the master key is unwrapped with something else than the passphrase")
				ck(ee.IsNil(tt.Extract(k, 1)), "keyed although unwrapping failed")
				ck(untouched(p, nw.Args[0], nw.Seq) && untouched(p, tt.Extract(k, 0), nw.Seq), "the key was modified before use")
			}
			// The tree's own parts.
			isCore := func(t *term) bool { _, ok := isRes(t, 0, "cryptocore.New"); return ok }
			obj := p.Ret[0]
			f := func(n string) *term { return c.objField(p, obj, n) }
			ce, ok := isRes(f("cEnc"), 0, "contentenc.New")
			ck(ok && isCore(ce.Args[0]) && e.Canon(ce.Args[2]) == tt.Bool(false), "the tree's content cipher is not made from the unwrapped key")
			nt, ok := isRes(f("nTransform"), 0, "nametransform.New")
			eme := func(t *term) bool {
				b, isF := fieldLoad(t, "EMECipher")
				return isF && isCore(b)
			}
			if f("nTransform") != nil {
				ck(ok && eme(nt.Args[0]), "the tree's name cipher is not made from the unwrapped key")
			}
			rq, ok := isRes(f("reqCacher"), 0, "requester.New")
			if ck(ok, "the tree's requester is not recognised") {
				n2, isN := isRes(unbox(rq.Args[2]), 0, "nametransform.New")
				ck(isN && eme(n2.Args[0]), "names are not decrypted with the unwrapped key")
				ck(unbox(rq.Args[1]) == acc, "requests go to another backend than the configuration was read from")
			}
			ck(f("fsAccessor") == acc, "the tree uses another backend than the configuration was read from")
			ck(f("encryptedRoot") == root, "the tree has another root than the configuration was read from")
		}
		c.Need(O, 10)
	}

	const S = "served"
	c.Rule(S, "main serves only handlers of the tree that DecryptHandler opened without error, with the passphrase entered for it")
	if fn := c.Fn(S, "handlers", "DecryptHandler"); fn != nil {
		r := c.Explore(S, fn, "filetree.Init")
		for _, p := range r.Paths {
			if !okPath(p) {
				c.Pass(S, short(fn)+" (failing path)")
				continue
			}
			ck := func(ok bool, why string) bool { return c.Check(ok, S, p.Pos, short(fn), why, p) }
			for _, n := range []string{"FileGet", "FileList"} {
				h := unbox(structField(p.Ret[0], n))
				if !ck(h != nil, "no "+n+" handler") {
					continue
				}
				k, ok := isRes(c.objField(p, h, "ft"), 0, "filetree.Init")
				if ck(ok, "the "+n+" handler does not use a tree opened here") {
					ck(p.Eval().IsNil(r.TT.Extract(k, 1)), "a tree is used although opening it failed")
					ck(k.Args[0] == r.Params[0] && k.Args[1] == r.Params[1] && unbox(k.Args[3]) == r.Params[3], "the tree is opened with other root, passphrase or backend than given")
				}
			}
		}
	}
	if fn := c.Fn(S, "config", "Config.GetDecrpytionPassphrase"); fn != nil {
		r := c.Explore(S, fn)
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			k, _, ok := isCall(p.Ret[0])
			ok = ok && (in(sn(k.Callee), "config.PasswordReader.ReadPassword", "terminal.ReadPassword", "term.ReadPassword"))
			c.Check(ok && untouched(p, p.Ret[0], 1<<30), S, p.Pos, short(fn), "the passphrase is not the one entered: "+p.Ret[0].String(), p)
			if ok {
				er := r.TT.Extract(k, 1)
				c.Check(p.Eval().IsNil(er) || errRet(p) == er, S, p.Pos, short(fn), "a failed prompt counts as a passphrase", p)
			}
		}
	}
	if mr := c.mainRes(S); mr != nil {
		for _, p := range mr.Paths {
			for _, ev := range callsOn(p, "handlers.DecryptHandler") {
				e := p.EvalAt(ev)
				k, ok := isRes(ev.Args[1], 0, "config.Config.GetDecrpytionPassphrase")
				c.Check(ok && k.Args[0] == cfgTerm(p) && e.IsNil(mr.TT.Extract(k, 1)), S, ev.Pos, "main", "the volume is opened with something else than the passphrase entered", p)
			}
			for _, ev := range callsOn(p, "net.Listen", "net.ListenConfig.Listen", "tls.Listen", "net.ListenTCP") {
				ok := false
				for _, h := range callsOn(p, "handlers.DecryptHandler") {
					ok = ok || h.Seq < ev.Seq && p.EvalAt(ev).IsNil(mr.TT.Extract(h.Res, 1))
				}
				c.Check(ok, S, ev.Pos, "main", "listens although the volume was not opened", p)
			}
		}
	}
	c.Need(S, 5)
}

// confFromVolume: the configuration a path of Init loads has the bytes read
// from gocryptfs.conf in the root.
func (c *Ctx) confFromVolume(p *path, root, acc *term) bool {
	tt := p.R.TT
	isConf := func(e *eval, t *term) bool {
		k, ok := isRes(t, 0, "filetree.FSAccessor.ReadFile")
		if !ok || k.Args[0] != acc || !e.IsNil(tt.Extract(k, 1)) {
			return false
		}
		j, ok := isRes(k.Args[1], 0, "filepath.Join", "path.Join")
		if !ok || len(j.Args) != 2 || j.Args[0] != root {
			return false
		}
		s, _ := j.Args[1].StrVal()
		return s == "gocryptfs.conf"
	}
	loads := append(callsOn(p, "configfile.Load"), callsOn(p, "configfile.LoadAndDecrypt")...)
	if len(loads) == 0 {
		return false
	}
	for _, ld := range loads {
		e := p.EvalAt(ld)
		ok := false
		// A temporary file that got exactly these bytes.
		if nm, isN := isRes(ld.Args[0], 0, "os.File.Name"); isN {
			tf, isT := isRes(nm.Args[0], 0, "ioutil.TempFile", "os.CreateTemp")
			if isT && e.IsNil(tt.Extract(tf, 1)) {
				n := 0
				for _, w := range p.Events {
					if w.Seq >= ld.Seq || w.Kind != engine.EvCall || len(w.Args) == 0 {
						continue
					}
					switch {
					case w.Args[0] == nm.Args[0] && in(sn(w.Callee), "os.File.Write", "os.File.WriteString"):
						n++
						ok = isConf(e, strip(w.Args[1])) && e.IsNil(tt.Extract(w.Res, 1))
					case w.Args[0] == nm.Args[0] && in(sn(w.Callee), "os.File.WriteAt", "os.File.Truncate", "os.File.Seek", "os.File.ReadFrom"):
						n += 2
					case unbox(w.Args[0]) == nm.Args[0] && in(sn(w.Callee), "io.Copy", "io.WriteString", "fmt.Fprint", "fmt.Fprintf"):
						n += 2
					}
				}
				for _, w := range callsOn(p, "ioutil.WriteFile", "os.WriteFile") {
					if w.Seq < ld.Seq && same(e, w.Args[0], ld.Args[0]) {
						n++
						ok = isConf(e, strip(w.Args[1])) && e.IsNil(w.Res)
					}
				}
				ok = ok && n == 1
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
