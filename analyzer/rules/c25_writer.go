package rules

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C25", Technique: "byte-layout resolution over Go SSA paths on the writer and the reader side, compared with one written layout; loop induction and window tiling for block order, across goroutines",
		Explain: "every path class of EncryptBlock, EncryptBlockNonce, EncryptBlocks (and the goroutines it starts), FileHeader.Pack, RandomHeader, EncryptName and every AEAD Seal is enumerated and its output resolved to a byte layout; the reader functions are held to the same layout (the rules of C01 and C08)",
		Run: func(c *Ctx) {
			c.lemmaEncryptBlock()
			c.lemmaEncryptBlocks()
			c.lemmaSeal()
			c.lemmaHeader()
			c.lemmaEncryptName()
			c.lemmaDecryptBlock()
			c.lemmaDecryptBlocks()
			c.lemmaAEAD()
			c.lemmaNames()
		}})
}

// lemmaEncryptBlock: nonce, then what Seal gives for the right data.
func (c *Ctx) lemmaEncryptBlock() {
	const R = "block-layout"
	c.Rule(R, "an encrypted block is empty for an empty plaintext, or the nonce (of IVLen bytes) followed by what AEADCipher.Seal gives for that nonce, the whole plaintext, and associated data = 8-byte big-endian block number then file ID")
	for _, name := range []string{"ContentEnc.EncryptBlock", "ContentEnc.EncryptBlockNonce"} {
		fn := c.Fn(R, "gocrypt/contentenc", name)
		if fn == nil {
			continue
		}
		r := c.Explore(R, fn, "cryptocore.nonceGenerator.Get")
		tt := r.TT
		be, pt, no, fid := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
		n := 0
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
			ret := p.Ret[0]
			if e.IsNil(ret) || e.Canon(tt.Len(ret)).Is(0) {
				ck(e.Canon(tt.Len(pt)).Is(0), "an empty block for a plaintext that may have content")
				continue
			}
			n++
			var prefix []seg
			var seal *evnt
			for _, ev := range callsOn(p, "cipher.AEAD.Seal") {
				seal = ev
			}
			if !ck(seal != nil, "returns a block that was not encrypted: "+ret.String()) {
				continue
			}
			switch {
			case ret == seal.Res:
				prefix = layout(p, seal.Args[1], seal.Seq)
			default:
				l := layout(p, ret, 1<<30)
				if !ck(len(l) > 0 && l[len(l)-1].kind == "bytes" && l[len(l)-1].t == seal.Res, "the block does not end with the sealed plaintext: "+segsString(l)) {
					continue
				}
				if d := seal.Args[1]; !e.IsNil(d) && !e.Canon(tt.Len(d)).Is(0) {
					ck(len(l) == 1, "bytes before the nonce")
					prefix = layout(p, d, seal.Seq)
				} else {
					prefix = l[:len(l)-1]
				}
			}
			nonce := seal.Args[2]
			ck(fieldPath(seal.Args[0], be, "cryptoCore", "AEADCipher"), "not sealed with the volume's content cipher")
			ck(len(prefix) == 1 && prefix[0].kind == "bytes" && same(e, prefix[0].t, nonce), "the block does not start with exactly the nonce it was sealed with: "+segsString(prefix))
			if len(fn.Params) > 4 {
				ck(same(e, nonce, r.Params[4]), "not sealed with the nonce given")
			} else {
				ck(strings.HasSuffix(callName(nonce), "nonceGenerator.Get") || in(callName(nonce), "cryptocore.RandBytes"), "not sealed with a fresh nonce: "+nonce.String())
			}
			lenOK := false
			for _, f := range p.Facts.Slice() {
				if f.Pol && f.T.K == engine.KBin && f.T.Op == token.EQL {
					for i := 0; i < 2; i++ {
						if same(e, f.T.Args[i], tt.Len(nonce)) && fieldPath(strip(f.T.Args[1-i]), be, "cryptoCore", "IVLen") {
							lenOK = true
						}
					}
				}
			}
			ck(lenOK || len(fn.Params) == 4, "a nonce of another length than IVLen, where the reader cuts, is not refused")
			ck(same(e, seal.Args[3], pt), "what is sealed is not the whole plaintext: "+seal.Args[3].String())
			ck(aadIs(p, seal.Args[4], seal.Seq, no, fid), "the associated data is not the block number, big endian, then the file ID: "+segsString(layout(p, seal.Args[4], seal.Seq)))
		}
		c.Check(n > 0, R, fn.Pos(), short(fn), "no path encrypts", nil)
	}
	c.Need(R, 12)
}

func callName(t *term) string {
	if k, _, ok := t.IsCall(); ok {
		return sn(k.Callee)
	}
	return ""
}

// win is a stretch of blocks one caller of EncryptBlock takes care of.
type win struct{ lo, hi, size *term }

// lemmaEncryptBlocks: block k of the result is block k of the input, encrypted
// as number first+k.
func (c *Ctx) lemmaEncryptBlocks() {
	const R = "blocks-numbered"
	c.Rule(R, "EncryptBlocks encrypts block k of its input as number first+k under the given file ID into slot k of its result, in one loop or in goroutines whose stretches of blocks lie end to end from the first to the last and which are all waited for, and then joins all slots in order")
	fn := c.Fn(R, "gocrypt/contentenc", "ContentEnc.EncryptBlocks")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn, cenc+"EncryptBlock", "contentenc.bPool.Get", "contentenc.bPool.Put")
	tt := r.TT
	site := short(fn)
	n := 0
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		n++
		e := p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, site, why, p) }
		in := r.Params[1]
		total := tt.Len(in)
		// What the result is joined from.
		slots, okJoin := c.joined(r, p, in)
		if !ck(okJoin, "the result is not all blocks joined in order: "+p.Ret[0].String()) {
			continue
		}
		if slots == nil {
			ck(e.Canon(total).Is(0), "an empty result for blocks with content")
			continue
		}
		if slots == p.R.TT.Nil(slots.T) {
			continue
		}
		// Encrypted by this function itself?
		w := &win{tt.Int(0), total, total}
		if c.fillsWindow(r, p, r.Params, in, slots, w, e) {
			ck(true, "")
			continue
		}
		ck(c.tiles(R, r, p, in, slots), "not every block is encrypted into its own slot under its own number")
	}
	c.Check(n > 0, R, fn.Pos(), site, "no path returns", nil)
	c.Need(R, 4)
}

// joined finds the list of blocks that the result concatenates, completely and
// in order. It is nil for an empty result.
func (c *Ctx) joined(r *res, p *path, in *term) (*term, bool) {
	tt, e := r.TT, p.Eval()
	ret := p.Ret[0]
	if k, _, ok := isCall(ret, "bytes.Join", "slices.Concat"); ok {
		return k.Args[0], true
	}
	ps := pieces(e, ret)
	if len(ps) == 0 {
		return nil, e.Canon(tt.Len(in)).Is(0)
	}
	if len(ps) != 1 || ps[0].K != engine.KMu {
		return nil, false
	}
	acc := ps[0]
	for _, l := range loopsOf(r, p) {
		if l.a2 == nil || l.a2.Cells[acc] == nil {
			continue
		}
		fp := appended(l.first.e, l.first.at(acc))
		if len(fp) != 1 {
			return nil, false
		}
		slots, i0, ok := elemOf(fp[0])
		if !ok {
			// The value element 0 was set to before.
			for _, ev := range p.Events {
				if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KIndexAddr && ev.Args[1] == fp[0] {
					slots, i0, ok = ev.Args[0].Args[0], ev.Args[0].Args[1], true
				}
			}
		}
		if !ok || !i0.Is(0) {
			return nil, false
		}
		var idx *term
		for _, g := range l.gen {
			gp := appended(g.e, g.at(acc))
			if len(gp) != 2 || gp[0] != acc {
				return nil, false
			}
			s, i, ok := elemOf(gp[1])
			if !ok || s != slots || (idx != nil && i != idx) {
				return nil, false
			}
			idx = i
			if !sameInt(g.e, g.at(i), tt.Add(i, 1)) {
				return nil, false
			}
		}
		if idx == nil {
			return slots, e.AtMost(tt.Len(slots), tt.Int(1), 0)
		}
		if !sameInt(l.first.e, l.first.at(idx), tt.Int(1)) {
			return nil, false
		}
		return slots, e.AtMost(tt.Len(slots), idx, 0)
	}
	return nil, false
}

// fillsWindow: on path p, for every k in w, slot k was set to the encryption
// of block k as number first+k. The parameters are EncryptBlocks's own.
func (c *Ctx) fillsWindow(r *res, p *path, params []*term, in, slots *term, w *win, e *eval) bool {
	tt := r.TT
	loops := loopsOf(r, p)
	norm := func(t *term) *term {
		for _, l := range loops {
			t = l.lockstep(tt, t)
		}
		return t
	}
	est := func(q *path, qe *eval, _ []engine.Fact) []*term {
		var out []*term
		for _, ev := range q.Events {
			if ev.Kind != engine.EvStore || ev.Args[0].K != engine.KIndexAddr {
				continue
			}
			sb, sl, _ := window(tt, ev.Args[0].Args[0])
			if sb != slots {
				continue
			}
			abs := addT(tt, sl, ev.Args[0].Args[1])
			k, ok := isRes(ev.Args[1], 0, cenc+"EncryptBlock")
			if !ok {
				continue
			}
			blk, bi, ok := elemOf(k.Args[1])
			if !ok {
				continue
			}
			bb, bl, _ := window(tt, blk)
			if !same(qe, bb, in) || !sameInt(qe, norm(addT(tt, bl, bi)), norm(abs)) {
				continue
			}
			if !same(qe, k.Args[0], params[0]) || !same(qe, k.Args[3], params[3]) {
				continue
			}
			if !sameInt(qe, norm(k.Args[2]), norm(addT(tt, params[2], abs))) {
				continue
			}
			if d := diffT(qe, tt, abs, w.lo); d != nil {
				out = append(out, d)
			}
		}
		return out
	}
	if e.AtMost(w.size, tt.Int(0), 0) {
		return true
	}
	return c.forall(r, p, tt.Int(0), w.size, est)
}

// tiles: the goroutines path p starts fill stretches that lie end to end.
func (c *Ctx) tiles(R string, r *res, p *path, in, slots *term) bool {
	tt := r.TT
	for _, l := range loopsOf(r, p) {
		if l.a2 == nil {
			continue
		}
		gos := func(t *trip) *evnt {
			var g *evnt
			for _, ev := range t.events {
				if ev.Kind == engine.EvGo {
					if g != nil {
						return nil
					}
					g = ev
				}
			}
			return g
		}
		g0 := gos(l.first)
		if g0 == nil {
			continue
		}
		// What makes p leave the loop.
		var exit *evnt
		for _, ev := range p.Events[l.a2.Seq+1:] {
			if ev.Kind == engine.EvBranch {
				exit = ev
				break
			}
		}
		if exit == nil {
			return false
		}
		stay := exit.Args[0]
		stayPol := exit.Idx == 0
		// The start of the stretch of a general trip.
		var wlo *term
		type part struct {
			t *trip
			q *path
			w win
		}
		var parts []part
		for _, t := range append([]*trip{l.first}, l.gen...) {
			g := gos(t)
			if g == nil {
				return false
			}
			qs, ok := c.goroutine(R, r, p, g)
			if !ok || !c.waited(p, t, g, qs) {
				return false
			}
			for _, q := range qs {
				if q.Exit != "return" {
					continue
				}
				var w win
				found := false
				for _, x := range c.stretches(q, in, slots) {
					if c.fillsWindow(q.R, q, r.Params, in, slots, &x, q.Eval()) {
						w, found = x, true
						break
					}
				}
				if !found {
					return false
				}
				parts = append(parts, part{t, q, w})
				if t != l.first {
					if wlo != nil && !sameInt(q.Eval(), wlo, w.lo) {
						return false
					}
					wlo = w.lo
				}
			}
		}
		total := tt.Len(in)
		for _, x := range parts {
			e := x.q.Eval()
			if x.t == l.first && !sameInt(e, x.w.lo, tt.Int(0)) {
				return false
			}
			if sameInt(e, x.w.hi, total) {
				// the last stretch: no other may follow
				if b, known := e.Decide(x.t.at(stay)); known && b != stayPol {
					continue
				}
			}
			// A further stretch follows, where this one ends.
			if wlo == nil || !sameInt(e, x.t.at(wlo), x.w.hi) {
				return false
			}
			if b, known := e.Decide(x.t.at(stay)); !known || b != stayPol {
				return false
			}
		}
		return len(parts) > 0
	}
	return false
}

// goroutine explores what a go statement starts, from the state it started in.
func (c *Ctx) goroutine(R string, r *res, p *path, g *evnt) ([]*path, bool) {
	var fn *ssa.Function
	var free []*term
	t := g.Res
	if t != nil && t.Fn != nil {
		fn = t.Fn
		if t.K == engine.KClosure {
			free = t.Args
		}
	}
	if fn == nil {
		fn = g.CalleeFn
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, false
	}
	q := c.ExploreCfg(R, engine.Config{Entry: fn, Args: g.Args, Free: free, Mem: g.Cells, TT: r.TT, Facts: g.Facts}, cenc+"EncryptBlock")
	return q.Paths, true
}

// waited: p waits for the goroutine after starting it.
func (c *Ctx) waited(p *path, t *trip, g *evnt, qs []*path) bool {
	for _, wv := range callsOn(p, "sync.WaitGroup.Wait") {
		if wv.Seq < g.Seq && t.q == p {
			continue
		}
		wg := wv.Args[0]
		added := false
		for _, ev := range t.q.Events {
			if evIs(ev, "sync.WaitGroup.Add") && ev.Args[0] == wg && ev.Seq < g.Seq {
				added = true
			}
		}
		if !added {
			continue
		}
		done := true
		for _, q := range qs {
			if q.Exit != "return" {
				continue
			}
			lastWork, doneAt, dones := -1, -1, 0
			for _, ev := range q.Events {
				if ev.Kind == engine.EvStore && ev.Args[0].K == engine.KIndexAddr || evIs(ev, cenc+"EncryptBlock") {
					lastWork = ev.Seq
				}
				if evIs(ev, "sync.WaitGroup.Done") && ev.Args[0] == wg {
					doneAt = ev.Seq
					dones++
				}
			}
			done = done && dones == 1 && doneAt > lastWork
		}
		if done {
			return true
		}
	}
	return false
}

// stretches lists the stretches of blocks a goroutine may be working on.
func (c *Ctx) stretches(q *path, in, slots *term) []win {
	tt := q.R.TT
	var out []win
	for _, ev := range q.Events {
		if ev.Kind == engine.EvSlice && ev.Res != nil {
			if b, lo, hi := window(tt, ev.Res); b == slots || b == in {
				out = append(out, win{lo, hi, tt.Len(ev.Res)})
			}
		}
	}
	// for k := lo; k < hi; k++
	for _, l := range loopsOf(q.R, q) {
		if l.a2 == nil {
			continue
		}
		for _, ev := range l.first.events {
			if ev.Kind != engine.EvStore || ev.Args[0].K != engine.KIndexAddr || ev.Args[0].Args[0] != slots {
				continue
			}
			lo := ev.Args[0].Args[1]
			for _, b := range q.Events[l.a2.Seq+1:] {
				if b.Kind != engine.EvBranch {
					continue
				}
				if t := b.Args[0]; t.K == engine.KBin && len(t.Args) == 2 && isIntT(t.Args[1]) {
					out = append(out, win{lo, t.Args[1], subT(tt, t.Args[1], lo)})
				}
				break
			}
		}
	}
	return out
}

// lemmaSeal: every AEAD of the repository seals what its Open opens.
func (c *Ctx) lemmaSeal() {
	const R = "aead-seal"
	c.Rule(R, "the Seal of every AEAD implemented in the repository either never returns or returns what siv.Encrypt appends to the destination for the object's own key, the whole plaintext and the associated data followed by the nonce: the arguments its Open gives to siv.Decrypt")
	n := 0
	for _, fn := range c.P.Funcs {
		if fn.Name() != "Seal" || fn.Signature.Recv() == nil || engine.IsFake(fn) || fn.Synthetic != "" || fn.Signature.Params().Len() != 4 {
			continue
		}
		n++
		r := c.Explore(R, fn)
		tt := r.TT
		for _, p := range r.Paths {
			if p.Exit != "return" {
				c.Pass(R, short(fn))
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
			var d *evnt
			for _, ev := range callsOn(p, "siv.Encrypt") {
				d = ev
			}
			if !ck(d != nil, "returns without encrypting") {
				continue
			}
			ck(e.IsNil(tt.Extract(d.Res, 1)), "returns although siv.Encrypt failed")
			out := tt.Extract(d.Res, 0)
			ps := pieces(e, p.Ret[0])
			okDst := p.Ret[0] == out && same(e, d.Args[0], r.Params[1]) ||
				len(ps) == 2 && ps[0] == r.Params[1] && ps[1] == out && (e.IsNil(d.Args[0]) || e.Canon(tt.Len(d.Args[0])).Is(0))
			ck(okDst, "the result is not the destination followed by the ciphertext: "+p.Ret[0].String())
			ck(fieldPath(d.Args[1], r.Params[0], "key"), "not the object's own key")
			ck(same(e, d.Args[2], r.Params[3]), "not the whole plaintext")
			as := elems(p, d, d.Args[3])
			ck(len(as) == 2 && same(e, as[0], r.Params[4]) && same(e, as[1], r.Params[2]), "the associated data are not the given data, then the nonce, as on opening")
		}
	}
	c.Check(n > 0, R, token.NoPos, "AEAD implementations", "no AEAD implementation found", nil)
	c.Need(R, 4)
}

// lemmaHeader: Pack writes what ParseHeader reads.
func (c *Ctx) lemmaHeader() {
	const R = "header-layout"
	c.Rule(R, "Pack gives the 2-byte big-endian version 2 and then the 16-byte ID, ParseHeader takes 18 bytes with that version and returns bytes 2 to 18 as ID unless they are zero, and a new header has version 2 and 16 random bytes")
	if fn := c.Fn(R, "gocrypt/contentenc", "FileHeader.Pack"); fn != nil {
		r := c.Explore(R, fn)
		tt := r.TT
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
			l := layout(p, p.Ret[0], 1<<30)
			ok := len(l) == 2 && l[0].kind == "u16be" && l[1].kind == "bytes"
			if !ck(ok, "a header is not the version, big endian, then the ID: "+segsString(l)) {
				continue
			}
			ck(fieldPath(l[0].t, r.Params[0], "Version") || l[0].t.Is(2), "the version written is not the header's")
			ck(e.Canon(l[0].t).Is(2), "a version other than 2 is not refused")
			ck(fieldPath(l[1].t, r.Params[0], "ID") && e.Canon(tt.Len(l[1].t)).Is(16), "the ID written is not the header's 16-byte ID")
		}
	}
	if fn := c.Fn(R, "gocrypt/contentenc", "RandomHeader"); fn != nil {
		r := c.Explore(R, fn, "cryptocore.RandBytes")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			v := c.objField(p, p.Ret[0], "Version")
			id := c.objField(p, p.Ret[0], "ID")
			k, ok := isRes(id, 0, "cryptocore.RandBytes")
			c.Check(v != nil && v.Is(2) && ok && k.Args[0].Is(16), R, p.Pos, short(fn), "a new header does not have version 2 and 16 random bytes as ID", p)
		}
	}
	if fn := c.Fn(R, "gocrypt/contentenc", "ParseHeader"); fn != nil {
		r := c.Explore(R, fn)
		tt := r.TT
		buf := r.Params[0]
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
			ck(e.Canon(tt.Len(buf)).Is(18), "a header of another length than 18 is accepted")
			id := c.objField(p, p.Ret[0], "ID")
			if ck(id != nil, "no ID in the parsed header") {
				var b, lo, hi *term
				if ps := layout(p, id, 1<<30); len(ps) == 1 && ps[0].kind == "bytes" {
					b, lo, hi = window(tt, ps[0].t)
				} else {
					b, lo, hi = window(tt, id)
				}
				ck(b == buf && same(e, lo, tt.Int(2)) && same(e, hi, tt.Int(18)), "the ID is not bytes 2 to 18: "+id.String())
			}
			ver := c.objField(p, p.Ret[0], "Version")
			ok := false
			if ver != nil {
				if k, isC := isRes(strip(ver), 0, "binary.bigEndian.Uint16", "binary.ByteOrder.Uint16"); isC {
					b, lo, _ := window(tt, k.Args[1])
					ok = b == buf && same(e, lo, tt.Int(0))
				} else if b, off, is := be16(tt, ver); is {
					ok = b == buf && same(e, off, tt.Int(0))
				} else if ver.Is(2) {
					ok = true
				}
			}
			ck(ok, "the version is not the first two bytes, big endian")
		}
	}
	c.Need(R, 6)
}

// lemmaEncryptName: pad, encrypt under the IV, encode; DecryptName undoes it
// with the same cipher and alphabet.
func (c *Ctx) lemmaEncryptName() {
	const R = "name-layout"
	c.Rule(R, "EncryptName returns n.B64's encoding of n.emeCipher's encryption, under the given IV, of the name followed by padLen bytes of value padLen, padLen = 16 - length mod 16; DecryptName decodes and decrypts with those same objects")
	fn := c.Fn(R, "gocrypt/nametransform", "NameTransform.EncryptName")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn)
	tt := r.TT
	recv, name, iv := r.Params[0], r.Params[1], r.Params[2]
	n := 0
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		n++
		e := p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
		enc, ok := isRes(p.Ret[0], 0, "base64.Encoding.EncodeToString")
		if !ck(ok && fieldPath(enc.Args[0], recv, "B64"), "the name is not encoded with the object's base64 alphabet: "+p.Ret[0].String()) {
			continue
		}
		em, ok := isRes(enc.Args[1], 0, "eme.EMECipher.Encrypt")
		if !ck(ok && fieldPath(em.Args[0], recv, "emeCipher"), "what is encoded is not the name encrypted with the object's cipher: "+enc.Args[1].String()) {
			continue
		}
		ck(em.Args[1] == iv, "not encrypted under the given IV")
		ck(c.padded(r, p, callEvent(p, em), em.Args[2], name, e, tt), "what is encrypted is not the name followed by 16 - length mod 16 bytes of that value: "+em.Args[2].String())
	}
	c.Check(n > 0, R, fn.Pos(), short(fn), "no path returns", nil)
	if dn := c.Fn(R, "gocrypt/nametransform", "NameTransform.DecryptName"); dn != nil {
		r := c.Explore(R, dn)
		for _, p := range r.Paths {
			for _, ev := range callsOn(p, "base64.Encoding.DecodeString", "base64.Encoding.Decode") {
				c.Check(fieldPath(ev.Args[0], r.Params[0], "B64"), R, ev.Pos, short(dn), "names are decoded with another alphabet than they are encoded with", p)
			}
			for _, ev := range callsOn(p, "eme.EMECipher.Decrypt") {
				c.Check(fieldPath(ev.Args[0], r.Params[0], "emeCipher"), R, ev.Pos, short(dn), "names are decrypted with another cipher than they are encrypted with", p)
			}
		}
	}
	c.Need(R, 4)
}

// padded: t is name followed by its padding.
func (c *Ctx) padded(r *res, p *path, at *evnt, t, name *term, e *eval, tt *engine.Terms) bool {
	old := tt.Len(name)
	isPad := func(x *term) bool { // 16 - len%16
		x = strip(x)
		if x.K != engine.KBin || x.Op != token.SUB || !x.Args[0].Is(16) {
			// the mask and xor ways to write it
			return false
		}
		m := strip(x.Args[1])
		if m.K != engine.KBin {
			return false
		}
		ln := strip(m.Args[0])
		okLen := ln == old || ln.K == engine.KLen && strip(ln.Args[0]) == name
		return okLen && (m.Op == token.REM && m.Args[1].Is(16) || m.Op == token.AND && m.Args[1].Is(15))
	}
	nameBytes := func(x *term) bool { return strip(x) == name }
	// append(name, bytes.Repeat(pad)...)
	if t.K == engine.KAppend && t.Aux == "slice" {
		ps := pieces(e, t)
		if len(ps) == 2 && nameBytes(ps[0]) {
			if k, ok := isRes(ps[1], 0, "bytes.Repeat"); ok && isPad(k.Args[1]) {
				es := elems(p, at, k.Args[0])
				return len(es) == 1 && isPad(es[0])
			}
		}
		return false
	}
	base, lo, hi := window(tt, t)
	if base.K != engine.KMake || !lo.Is(0) {
		return false
	}
	pads := polyAdd(polyOf(e, hi), polyOf(e, old), -1)
	// the padding length as a term
	var pad *term
	base.Args[0].Walk(func(x *term) bool {
		if pad == nil && isPad(x) {
			pad = x
		}
		return true
	})
	if pad == nil || !polyEq(pads, polyOf(e, pad)) {
		return false
	}
	copied := false
	for _, ev := range p.Events {
		if ev.Kind == engine.EvCopy {
			b, l, _ := window(tt, ev.Args[0])
			if b == base {
				copied = l.Is(0) && nameBytes(ev.Args[1])
			}
		}
	}
	if !copied {
		return false
	}
	return c.forall(r, p, old, hi, func(q *path, qe *eval, _ []engine.Fact) []*term {
		var out []*term
		for _, ev := range q.Events {
			if ev.Kind != engine.EvStore || ev.Args[0].K != engine.KIndexAddr {
				continue
			}
			b, l, _ := window(tt, ev.Args[0].Args[0])
			if b == base && isPad(ev.Args[1]) {
				out = append(out, addT(tt, l, ev.Args[0].Args[1]))
			}
		}
		return out
	})
}
