package rules

import (
	"strings"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C08", Technique: "trace-partitioned abstract interpretation with difference bounds over Go SSA; loop induction for the padding check; facts required on every successful return of name decryption",
		Explain: "every path class of NameTransform.DecryptName (all repository helpers inlined) is enumerated; each one that can report success must carry facts that make the name safe, each other one must return the empty name",
		Run:     func(c *Ctx) { c.lemmaNames() }})
}

func (c *Ctx) lemmaNames() {
	c.Once("names", func() {
		const S = "name-safe"
		c.Rule(S, "DecryptName succeeds only with: 16-byte IV, valid base64, decoded length positive, a multiple of 16 and bounded; padding 1..16, shorter than the data, every padding byte compared; no '/', no NUL, not \".\", not \"..\"")
		const E = "name-error-empty"
		c.Rule(E, "a DecryptName that reports an error returns the empty name")
		fn := c.Fn(S, "gocrypt/nametransform", "NameTransform.DecryptName")
		if fn == nil {
			return
		}
		r := c.Explore(S, fn)
		tt := r.TT
		name, iv := r.Params[1], r.Params[2]
		site := short(fn)
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			if !okPath(p) {
				s, ok := p.Eval().Canon(p.Ret[0]).StrVal()
				c.Check(ok && s == "", E, p.Pos, site, "returns a name together with an error", p)
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, S, p.Pos, site, why, p) }
			b := strip(p.Ret[0])
			if !ck(b != nil && b.K == engine.KSlice && len(b.Args) > 2 && b.Args[2] != nil && b.Args[1].Is(0), "the name is not the decrypted bytes cut to the unpadded length: "+p.Ret[0].String()) {
				continue
			}
			s, n := b.Args[0], b.Args[2]
			dec, ok := isRes(s, 0, "eme.EMECipher.Decrypt")
			if !ck(ok, "the name does not come from the EME cipher's Decrypt: "+s.String()) {
				continue
			}
			ck(dec.Args[1] == iv, "the name is not decrypted with the given IV")
			raw, ok := isRes(dec.Args[2], 0, "base64.Encoding.DecodeString")
			if !ck(ok && raw.Args[1] == name, "what is decrypted is not the base64-decoded name") {
				continue
			}
			ck(e.IsNil(tt.Extract(raw, 1)), "base64 decoding errors are not refused")
			rl := tt.Len(dec.Args[2])
			ck(e.Canon(tt.Len(iv)).Is(16), "an IV of another length than 16 is not refused")
			ck(e.AtMost(tt.Int(1), rl, 0), "an empty decoded name is not refused")
			ck(e.Canon(tt.Rem(rl, 16)).Is(0), "a decoded length that is not a multiple of 16 is not refused")
			ck(e.AtMost(rl, tt.Int(2048), 0), "over-long names are not refused (the cipher panics above 2048 bytes)")
			l := tt.Len(s)
			ck(e.AtMost(n, l, -1), "padding may be empty")
			ck(e.AtMost(l, n, 16), "padding may be longer than 16 bytes")
			ck(e.AtMost(tt.Int(1), n, 0), "the unpadded name may be empty")
			// every padding byte equals the padding length
			pad := padOf(n, l)
			if ck(pad != nil, "the padding length is not what is cut off: "+n.String()) {
				padded := func(from *term) establish {
					return func(q *path, qe *eval, facts []engine.Fact) []*term {
						var out []*term
						if base, idx, ok := elemOf(pad); ok && base == s { // the byte that says so itself
							if from != nil {
								idx = less(tt, qe, idx, from)
							}
							if idx != nil {
								out = append(out, idx)
							}
						}
						for _, f := range facts {
							if !f.Pol || f.T.K != engine.KBin || f.T.Op.String() != "==" {
								continue
							}
							for i := 0; i < 2; i++ {
								base, idx, ok := elemOf(f.T.Args[i])
								if from != nil && ok {
									idx = less(tt, qe, idx, from)
								}
								if ok && idx != nil && base == s && (strip(f.T.Args[1-i]) == pad || same(qe, strip(f.T.Args[1-i]), pad)) {
									out = append(out, idx)
								}
							}
						}
						return out
					}
				}
				ok := c.forall(r, p, n, l, padded(nil))
				if !ok {
					// The padding cut off first, then looked at from its start.
					ok = c.forall(r, p, tt.Int(0), pad, padded(n))
				}
				ck(ok, "not every padding byte is compared with the padding length before success")
			}
			ck(c.lacksByte(r, p, b, 0), "a name containing a NUL byte is not refused")
			ck(c.lacksByte(r, p, b, '/'), "a name containing \"/\" is not refused")
			ck(differs(p, b, "."), "the name \".\" is not refused")
			ck(differs(p, b, ".."), "the name \"..\" is not refused")
		}
		c.Need(S, 10)
		c.Need(E, 1)
	})
}

// padOf: n == l - pad.
func padOf(n, l *term) *term {
	if n.K == engine.KBin && n.Op.String() == "-" && n.Args[0] == l {
		return strip(n.Args[1])
	}
	return nil
}

// startsAt: b is a part of base from its first byte on.
func startsAt(b, base *term) bool {
	b = strip(b)
	return b != nil && b.K == engine.KSlice && b.Args[1].Is(0) && strip(b.Args[0]) == strip(base)
}

// lacksByte: the path knows that b does not contain the byte.
func (c *Ctx) lacksByte(r *res, p *path, b *term, ch byte) bool {
	e := p.Eval()
	want := string([]byte{ch})
	for _, ev := range p.Events {
		if ev.Kind != engine.EvCall || len(ev.Args) < 2 || strip(ev.Args[0]) != b {
			continue
		}
		s, isS := constBytes(ev, ev.Args[1])
		n, isN := ev.Args[1].IntVal()
		hit := false
		switch sn(ev.Callee) {
		case "bytes.Contains", "strings.Contains", "bytes.Index", "strings.Index":
			hit = isS && s == want
		case "bytes.ContainsAny", "strings.ContainsAny", "bytes.IndexAny", "strings.IndexAny":
			hit = isS && strings.Contains(s, want)
		case "bytes.ContainsRune", "strings.ContainsRune", "bytes.IndexByte", "strings.IndexByte", "bytes.IndexRune", "strings.IndexRune":
			hit = isN && n == int64(ch)
		case "bytes.Count", "strings.Count":
			if isS && s == want && e.Canon(ev.Res).Is(0) {
				return true
			}
		}
		if !hit {
			continue
		}
		if isBoolT(ev.Res) {
			if v, known := e.Decide(ev.Res); known && !v {
				return true
			}
		} else if e.AtMost(ev.Res, p.R.TT.Int(0), -1) {
			return true
		}
	}
	// A loop that looks at every byte.
	return c.forall(r, p, r.TT.Int(0), r.TT.Len(b), func(q *path, qe *eval, facts []engine.Fact) []*term {
		var out []*term
		for _, f := range facts {
			if f.Pol || f.T.K != engine.KBin || f.T.Op.String() != "==" {
				continue
			}
			for i := 0; i < 2; i++ {
				base, idx, ok := elemOf(f.T.Args[i])
				if n, isN := f.T.Args[1-i].IntVal(); ok && isN && n == int64(ch) && (strip(base) == b || startsAt(b, base)) {
					out = append(out, idx)
				}
			}
		}
		return out
	})
}

// differs: the path knows that b is not the given text.
func differs(p *path, b *term, text string) bool {
	e := p.Eval()
	l := p.R.TT.Len(b)
	if n := p.R.TT.Int(int64(len(text))); e.AtMost(l, n, -1) || e.AtMost(n, l, -1) {
		return true
	}
	for _, f := range p.Facts.Slice() {
		if f.Pol || f.T.K != engine.KBin || f.T.Op.String() != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := f.T.Args[i].StrVal(); ok && s == text && strip(f.T.Args[1-i]) == b {
				return true
			}
		}
	}
	for _, ev := range p.Events {
		if evIs(ev, "bytes.Equal") {
			for i := 0; i < 2; i++ {
				if s, ok := constBytes(ev, ev.Args[i]); ok && s == text && strip(ev.Args[1-i]) == b {
					if v, known := e.Decide(ev.Res); known && !v {
						return true
					}
				}
			}
		}
	}
	return false
}

// less is t - n, where t is a sum that has n as one of its parts.
func less(tt *engine.Terms, e *eval, t, n *term) *term {
	b, k := engine.Lin(t)
	if b == nil {
		return nil
	}
	nb, nk := engine.Lin(n)
	if same(e, b, nb) {
		return tt.Int(k - nk)
	}
	if b.K == engine.KBin && b.Op.String() == "+" {
		for i := 0; i < 2; i++ {
			if same(e, b.Args[i], nb) {
				return tt.Add(b.Args[1-i], k-nk)
			}
		}
	}
	return nil
}
