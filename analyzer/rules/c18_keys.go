package rules

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C18", Technique: "trace-partitioned abstract interpretation over Go SSA: provenance of every key buffer at every cipher constructor, per mode; ownership rules for the random prefetch buffer",
		Explain: "every path class of cryptocore.New is enumerated and the bytes each cipher is keyed with are traced back to the master key and the derivation applied; the nonce source is checked operation by operation",
		Run: func(c *Ctx) {
			c.lemmaCryptoCore()
			c.lemmaNonces()
			c.lemmaSivKey()
			c.lemmaEncryptBlock()
		}})
}

// wiresTo: t is cut from buf, or is it.
func baseOf(tt *engine.Terms, t *term) *term {
	for t != nil {
		switch t.K {
		case engine.KSlice:
			t = t.Args[0]
		case engine.KIface:
			t = t.Args[0]
		default:
			return t
		}
	}
	return nil
}

// whole: t is all of its base.
func whole(e *eval, tt *engine.Terms, t *term) bool {
	b, lo, hi := window(tt, t)
	if !lo.Is(0) && !e.Canon(lo).Is(0) {
		return false
	}
	if b.K == engine.KAlloc {
		return len(t.Args) < 3 || t.Args[2] == nil
	}
	return same(e, hi, tt.Len(b))
}

// keyMat says what a key buffer holds when event at happens: "master" for the
// bytes of master, "hkdf(LABEL,n)" or "sha512" for what is derived from them.
func (c *Ctx) keyMat(p *path, at int, t, master *term) string {
	tt, e := p.R.TT, p.Eval()
	t = unbox(t)
	if t == nil {
		return "?"
	}
	base := baseOf(tt, t)
	// Any write to the buffer before?
	state := ""
	if base == baseOf(tt, master) {
		state = "master"
		if !same(e, t, master) && !whole(e, tt, t) {
			return "part of the key"
		}
	}
	switch t.K {
	case engine.KAppend:
		ps := pieces(e, t)
		if len(ps) == 1 {
			return c.keyMat(p, at, ps[0], master)
		}
		return "?"
	case engine.KCall, engine.KExtract:
		if k, _, ok := isCall(t, "bytes.Clone", "slices.Clone"); ok {
			state = c.keyMat(p, at, k.Args[0], master)
		} else if k, ok := isRes(t, 0, "hkdf.Key"); ok && len(k.Args) >= 5 {
			state = c.hkdfMat(p, at, k.Args[0], k.Args[1], k.Args[2], k.Args[3], k.Args[4], master)
			if state != "?" && !e.IsNil(tt.Extract(k, 1)) {
				state = "?"
			}
		}
	}
	for _, ev := range p.Events {
		if ev.Seq >= at {
			break
		}
		switch ev.Kind {
		case engine.EvStore:
			a := ev.Args[0]
			if a == base && base.K == engine.KAlloc {
				// the array of a checksum
				if k, ok := isRes(ev.Args[1], 0, "sha512.Sum512"); ok && c.keyMat(p, ev.Seq, k.Args[0], master) == "master" {
					state = "sha512"
				} else {
					state = "?"
				}
			}
			if a.K == engine.KIndexAddr && baseOf(tt, a.Args[0]) == base {
				state = "overwritten"
			}
		case engine.EvCopy:
			if baseOf(tt, ev.Args[0]) != base {
				continue
			}
			b, lo, _ := window(tt, ev.Args[0])
			full := whole(e, tt, ev.Args[0]) && same(e, tt.Len(ev.Args[1]), tt.Len(b))
			if lo.Is(0) && full {
				state = c.keyMat(p, ev.Seq, ev.Args[1], master)
			} else {
				state = "?"
			}
		case engine.EvCall:
			n := sn(ev.Callee)
			switch n {
			case "io.Reader.Read", "io.ReadFull", "io.ReadAtLeast":
				if len(ev.Args) < 2 || baseOf(tt, ev.Args[1]) != base {
					continue
				}
				state = "?"
				h, ok := isRes(unbox(ev.Args[0]), 0, "hkdf.New")
				full := whole(e, tt, ev.Args[1])
				okRead := e.IsNil(tt.Extract(ev.Res, 1))
				if n == "io.Reader.Read" {
					okRead = okRead && same(e, tt.Extract(ev.Res, 0), tt.Len(base))
				}
				if n == "io.ReadAtLeast" {
					okRead = okRead && same(e, ev.Args[2], tt.Len(base))
				}
				if ok && full && okRead {
					// Each reader is read once: the first bytes of its output.
					for _, w := range p.Events {
						if w.Kind == engine.EvCall && w.Seq < ev.Seq && len(w.Args) > 0 && unbox(w.Args[0]) == h && strings.HasPrefix(sn(w.Callee), "io.Read") {
							return "?"
						}
					}
					state = c.hkdfMat(p, ev.Seq, h.Args[0], h.Args[1], h.Args[2], h.Args[3], tt.Len(base), master)
				}
			case "builtin.clear":
				if len(ev.Args) > 0 && baseOf(tt, ev.Args[0]) == base {
					state = "overwritten"
				}
			}
		}
	}
	if state == "" {
		return "?"
	}
	return state
}

func (c *Ctx) hkdfMat(p *path, at int, hash, key, salt, info, n, master *term) string {
	e := p.Eval()
	if hash.Fn == nil || sn(engine.FullName(hash.Fn)) != "sha256.New" {
		return "?"
	}
	if c.keyMat(p, at, key, master) != "master" || !(e.IsNil(salt) || e.Canon(p.R.TT.Len(salt)).Is(0)) {
		return "?"
	}
	var ev *evnt
	for _, x := range p.Events {
		if x.Seq <= at {
			ev = x
		}
	}
	s, ok := constBytes(ev, strip(info))
	if !ok {
		return "?"
	}
	l, ok := e.Canon(n).IntVal()
	if !ok {
		return "?"
	}
	return fmt.Sprintf("hkdf(%s,%d)", s, l)
}

var labels = map[string]string{
	"eme": "hkdf(EME filename encryption,32)",
	"gcm": "hkdf(AES-GCM file content encryption,32)",
	"siv": "hkdf(AES-SIV file content encryption,64)",
}

func (c *Ctx) lemmaCryptoCore() {
	const R = "key-separation"
	c.Rule(R, "a CryptoCore comes only from a 32-byte key; its name cipher is EME over AES keyed with HKDF-SHA256 under the names label, its content cipher GCM or SIV keyed under its own label, or without HKDF the key itself (SHA-512 of it for SIV); nonce length and its generator's are the configured bits divided by 8, 16 for SIV")
	fn := c.Fn(R, "gocrypt/cryptocore", "New")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn, "siv_aead.New")
	tt := r.TT
	key, kind, bits, hk := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	gcmV, _ := c.constInt("gocrypt/cryptocore", "BackendGoGCM")
	sivV, _ := c.constInt("gocrypt/cryptocore", "BackendAESSIV")
	seen := map[string]bool{}
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		e := p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
		ck(e.Canon(tt.Len(key)).Is(32), "a key of another length than 32 is not refused")
		useHKDF, known := e.Decide(hk)
		if !ck(known, "key derivation does not depend on useHKDF") {
			continue
		}
		mat := func(what string) string {
			if useHKDF {
				return labels[what]
			}
			if what == "siv" {
				return "sha512"
			}
			return "master"
		}
		obj := p.Ret[0]
		// AES block cipher keyed with what?
		aesKey := func(t *term) string {
			k, ok := isRes(unbox(t), 0, "aes.NewCipher")
			if !ok {
				return "not AES: " + t.String()
			}
			if !e.IsNil(tt.Extract(k, 1)) {
				return "an AES cipher whose setup failed"
			}
			ev := callEvent(p, k)
			if ev == nil {
				return "?"
			}
			return c.keyMat(p, ev.Seq, k.Args[0], key)
		}
		em, ok := isRes(c.objField(p, obj, "EMECipher"), 0, "eme.New")
		if ck(ok, "the name cipher is not EME") {
			got := aesKey(em.Args[0])
			ck(got == mat("eme"), "the name cipher is keyed with "+got+", not "+mat("eme"))
		}
		ivlen := c.objField(p, obj, "IVLen")
		isLen := func(t *term) bool {
			t = strip(t)
			if t == nil {
				return false
			}
			if k, ok := e.Canon(t).IntVal(); ok {
				if b, ok := e.Canon(bits).IntVal(); ok {
					return b/8 == k
				}
			}
			d := tt.Bin(token.QUO, bits, tt.Int(8), bits.T, nil)
			sh := tt.Bin(token.SHR, bits, tt.Int(3), bits.T, nil)
			return same(e, t, d) || same(e, t, sh)
		}
		ck(isLen(ivlen), "the nonce length is not the configured one")
		gen := c.objField(p, obj, "IVGenerator")
		ck(gen != nil && isLen(c.objField(p, gen, "nonceLen")), "the nonces generated do not have the configured length")
		ck(same(e, c.objField(p, obj, "AEADBackend"), kind), "the backend recorded is not the one asked for")
		a := unbox(c.objField(p, obj, "AEADCipher"))
		switch {
		case e.Canon(kind).Is(gcmV):
			seen["gcm"] = true
			g, ok := isRes(a, 0, "cipher.NewGCMWithNonceSize")
			if ck(ok, "GCM was asked for, but the content cipher is "+fmt.Sprint(a)) {
				ck(e.IsNil(tt.Extract(g, 1)), "the content cipher's setup failed")
				got := aesKey(g.Args[0])
				ck(got == mat("gcm"), "the content cipher is keyed with "+got+", not "+mat("gcm"))
				ck(isLen(g.Args[1]), "the content cipher's nonce length is not the configured one")
			}
		case e.Canon(kind).Is(sivV):
			seen["siv"] = true
			g, ok := isRes(a, 0, "siv_aead.New")
			if ck(ok, "SIV was asked for, but the content cipher is "+fmt.Sprint(a)) {
				got := c.keyMat(p, callEvent(p, g).Seq, g.Args[0], key)
				ck(got == mat("siv"), "the content cipher is keyed with "+got+", not "+mat("siv"))
				ck(e.Canon(ivlen).Is(16), "SIV with nonces of another length than 16 is not refused")
			}
		default:
			// The OpenSSL stand-in never returns.
			ck(false, "a cipher for a backend that is neither GCM nor SIV: "+fmt.Sprint(a))
		}
	}
	ok := seen["gcm"] && seen["siv"]
	c.Check(ok, R, fn.Pos(), short(fn), "no path sets up GCM, or none SIV", nil)
	c.Need(R, 20)
}

// lemmaNonces: what the nonce generator hands out is fresh.
func (c *Ctx) lemmaNonces() {
	const R = "nonce-fresh"
	c.Rule(R, "nonceGenerator.Get returns a new buffer of the nonce length that was filled completely, without an error, from crypto/rand or from the prefetch buffer, whose reads consume what they return and which is refilled only with bytes just received from the refill channel, where only fresh crypto/rand output is sent, once")
	const M = "no-weak-random"
	c.Rule(M, "nothing calls math/rand")
	c.eachCall(func(call ssa.CallInstruction, name string) {
		weak := strings.HasPrefix(name, "math/rand.") || strings.Contains(name, "(*math/rand.") || strings.HasPrefix(name, "math/rand/v2.") || strings.Contains(name, "math/rand/v2.")
		c.Check(!weak, M, call.Pos(), short(call.Parent()), "calls "+name, nil)
	})
	rb := c.Fn(R, "gocrypt/cryptocore", "RandBytes")
	if rb == nil {
		return
	}
	// fromRand: a fresh buffer of n bytes filled by crypto/rand.
	fromRand := func(p *path, t, n *term) bool {
		tt, e := p.R.TT, p.Eval()
		if t == nil {
			return false
		}
		if k, ok := isRes(t, 0, "cryptocore.RandBytes"); ok {
			return n == nil || same(e, k.Args[0], n)
		}
		base, _, _ := window(tt, t)
		if base.K != engine.KMake && base.K != engine.KAlloc || !whole(e, tt, t) || (n != nil && !same(e, tt.Len(t), n)) {
			return false
		}
		ok := false
		for _, ev := range p.Events {
			if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KIndexAddr && baseOf(tt, ev.Args[0].Args[0]) == base {
				return false
			}
			if ev.Kind == engine.EvCopy && baseOf(tt, ev.Args[0]) == base {
				return false
			}
			if evIs(ev, "rand.Read") && strings.HasPrefix(ev.Callee, "crypto/rand") && baseOf(tt, ev.Args[0]) == base {
				ok = whole(e, tt, ev.Args[0]) && e.IsNil(tt.Extract(ev.Res, 1))
			}
			if evIs(ev, "io.ReadFull") && baseOf(tt, ev.Args[1]) == base {
				g, isG := globalOf(unbox(ev.Args[0]))
				ok = isG && strings.HasSuffix(g, "crypto/rand.Reader") && whole(e, tt, ev.Args[1]) && e.IsNil(tt.Extract(ev.Res, 1))
			}
		}
		return ok
	}
	r := c.Explore(R, rb)
	for _, p := range r.Paths {
		if p.Exit == "return" {
			c.Check(fromRand(p, p.Ret[0], r.Params[0]), R, p.Pos, short(rb), "returns bytes that crypto/rand did not fill completely without an error", p)
		}
	}
	get := c.Fn(R, "gocrypt/cryptocore", "nonceGenerator.Get")
	if get == nil {
		return
	}
	r = c.Explore(R, get, "cryptocore.RandBytes")
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		tt, e := r.TT, p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(get), why, p) }
		out := p.Ret[0]
		ck(lenIsField(e, tt, out, r.Params[0], "nonceLen"), "the nonce does not have the generator's length: "+out.String())
		if fromRand(p, out, nil) {
			continue
		}
		base := baseOf(tt, out)
		if !ck(base.K == engine.KMake && whole(e, tt, out), "the nonce is not a new buffer: "+out.String()) {
			continue
		}
		var last *evnt
		other := false
		for _, ev := range p.Events {
			switch {
			case evIs(ev, "bytes.Buffer.Read", "io.ReadFull") && baseOf(tt, ev.Args[1]) == base:
				last = ev
			case ev.Kind == engine.EvStore && ev.Args[0].K == engine.KIndexAddr && baseOf(tt, ev.Args[0].Args[0]) == base:
				other = true
			case ev.Kind == engine.EvCopy && baseOf(tt, ev.Args[0]) == base:
				other = true
			}
		}
		if !ck(last != nil && !other, "the nonce is not read from the random buffer") {
			continue
		}
		full := whole(e, tt, last.Args[1]) && e.IsNil(tt.Extract(last.Res, 1)) &&
			(sn(last.Callee) == "io.ReadFull" || same(e, tt.Extract(last.Res, 0), tt.Len(out)))
		ck(full, "a nonce is returned that was not filled completely")
	}
	// The buffer and the channel.
	T := repoPath + "/gocrypt/cryptocore.randPrefetcherT"
	c.prefetchBuffer(R, T, fromRand)
	c.Need(R, 6)
	c.Need(M, 1)
}

// lenIsField: the length of t is the field of obj.
func lenIsField(e *eval, tt *engine.Terms, t, obj *term, field string) bool {
	l := tt.Len(t)
	if fieldPath(strip(l), obj, field) {
		return true
	}
	if k, ok := isRes(t, 0, "cryptocore.RandBytes"); ok {
		return fieldPath(strip(k.Args[0]), obj, field)
	}
	return fieldPath(strip(e.Canon(l)), obj, field)
}

// prefetchBuffer checks every use of the prefetcher's fields.
func (c *Ctx) prefetchBuffer(R, T string, fromRand func(*path, *term, *term) bool) {
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || strings.TrimPrefix(fa.X.Type().String(), "*") != T {
					continue
				}
				switch fieldName(fa) {
				case "buf":
					uses = true
					for _, ref := range *fa.Referrers() {
						call, ok := ref.(ssa.CallInstruction)
						name := ""
						if ok {
							name = sn(fullCallee(call.Common()))
						}
						if ok && in(name, "io.ReadFull") {
							continue
						}
						if _, isD := ref.(*ssa.DebugRef); isD {
							continue
						}
						if mi, isI := ref.(*ssa.MakeInterface); isI {
							for _, r2 := range *mi.Referrers() {
								k, ok := r2.(ssa.CallInstruction)
								c.Check(ok && sn(fullCallee(k.Common())) == "io.ReadFull", R, ref.Pos(), short(fn), "the random buffer is handed out", nil)
							}
							continue
						}
						c.Check(ok && in(name, "bytes.Buffer.Read", "bytes.Buffer.Reset", "bytes.Buffer.Write", "bytes.Buffer.Len"), R, ref.Pos(), short(fn), "the random buffer is used other than by consuming reads, writes and resets: "+name, nil)
					}
				case "refill":
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		r := c.Explore(R, fn, "cryptocore.RandBytes")
		for _, p := range r.Paths {
			got := map[*term]int{}
			for _, ev := range p.Events {
				switch {
				case evIs(ev, "bytes.Buffer.Write") && ev.Args[0].K == engine.KFieldAddr && ev.Args[0].Var.Name() == "buf":
					v := ev.Args[1]
					isNew := v.K == engine.KRecv && strings.Contains(v.Args[0].String(), "refill") || fromRand(p, v, nil)
					got[v]++
					c.Check(isNew, R, ev.Pos, short(fn), "the random buffer is filled with something else than fresh random bytes: "+v.String(), p)
					c.Check(got[v] == 1, R, ev.Pos, short(fn), "the same random bytes are put into the buffer twice", p)
				case ev.Kind == engine.EvSend && strings.Contains(ev.Args[0].String(), "refill"):
					v := ev.Args[1]
					got[v]++
					c.Check(fromRand(p, v, nil), R, ev.Pos, short(fn), "something else than fresh random bytes is sent for refilling: "+v.String(), p)
					c.Check(got[v] == 1, R, ev.Pos, short(fn), "the same random bytes are sent twice", p)
				}
			}
		}
	}
}
