package rules

import (
	"fmt"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C07", Technique: "trace-partitioned abstract interpretation with difference bounds over Go SSA: bounds of every argument at every scrypt.Key call site",
		Explain: "every call site of scrypt.Key is explored from the exported functions that reach it, with all helpers inlined; at the call, difference bounds must give N>=1024, R>=8, P>=1, len(salt)>=32, keyLen>=32 on every path; NewScryptKDF's result is compared field by field",
		Run:     runC07})
}

func runC07(c *Ctx) {
	c.lemmaScrypt()
}

// lemmaScrypt: the password is only ever hashed with parameters at or above the floor.
func (c *Ctx) lemmaScrypt() {
	c.Once("scrypt", func() {
		const R = "scrypt-floor"
		c.Rule(R, "at every scrypt.Key(pw, salt, N, r, p, keyLen): N>=2^10, r>=8, p>=1, len(salt)>=32, keyLen>=32 on every path from every exported function that reaches it")
		sites := c.callSites("golang.org/x/crypto/scrypt.Key")
		for _, s := range sites {
			for _, root := range c.roots(s.Parent()) {
				r := c.Explore(R, root, "cryptocore.New", "contentenc.New", "contentenc.ContentEnc.DecryptBlock", "contentenc.ContentEnc.EncryptBlock", "configfile.ConfFile.IsFeatureFlagSet", "configfile.ConfFile.WriteFile", "configfile.Load", "cryptocore.RandBytes")
				n := 0
				for _, p := range r.Paths {
					for _, ev := range p.Events {
						if ev.Kind != engine.EvCall || ev.Instr != s {
							continue
						}
						n++
						e := p.EvalAt(ev)
						tt := r.TT
						site := fmt.Sprintf("scrypt.Key in %s from %s", short(s.Parent()), short(root))
						least := func(t *term, min int64, what string) {
							c.Check(e.AtMost(tt.Int(min), t, 0), R, ev.Pos, site, fmt.Sprintf("%s is not known to be at least %d here", what, min), p)
						}
						least(tt.Len(ev.Args[1]), 32, "the salt length")
						least(ev.Args[2], 1<<10, "N")
						least(ev.Args[3], 8, "R")
						least(ev.Args[4], 1, "P")
						least(ev.Args[5], 32, "the key length")
					}
				}
				if n == 0 {
					c.Pass(R, "not reached from "+short(root))
				}
			}
		}
		c.Need(R, 5)

		const H = "scrypt-hash-is-result"
		c.Rule(H, "DeriveKey returns only the result of scrypt.Key over the password and its own parameters, without error")
		if fn := c.Fn(H, "gocrypt/configfile", "ScryptKDF.DeriveKey"); fn != nil {
			r := c.Explore(H, fn)
			for _, p := range r.Paths {
				if p.Exit != "return" {
					continue
				}
				call, ok := isRes(p.Ret[0], 0, "scrypt.Key")
				if !c.Check(ok, H, p.Pos, short(fn), "returns something other than scrypt.Key's result", p) {
					continue
				}
				s, pw := r.Params[0], r.Params[1]
				good := call.Args[0] == pw && fieldPath(call.Args[1], s, "Salt") && fieldPath(call.Args[2], s, "N") &&
					fieldPath(call.Args[3], s, "R") && fieldPath(call.Args[4], s, "P") && fieldPath(call.Args[5], s, "KeyLen")
				c.Check(good, H, p.Pos, short(fn), "scrypt.Key is not called with the password, Salt, N, R, P and KeyLen in their places: "+call.String(), p)
				c.Check(p.Eval().IsNil(r.TT.Extract(call, 1)), H, p.Pos, short(fn), "the hash is used although scrypt.Key may have failed", p)
			}
			c.Need(H, 1)
		}

		const N = "scrypt-new-params"
		c.Rule(N, "NewScryptKDF returns R=8, P=1, KeyLen=32, a fresh 32-byte random salt and N=2^logN, or 2^16 for logN<=0")
		if fn := c.Fn(N, "gocrypt/configfile", "NewScryptKDF"); fn != nil {
			r := c.Explore(N, fn, "cryptocore.RandBytes")
			logN := r.Params[0]
			for _, p := range r.Paths {
				if p.Exit != "return" {
					c.Check(p.Exit == "cut" || p.Exit == "panic" || p.Exit == "exit", N, p.Pos, short(fn), "unexpected end", p)
					continue
				}
				v := p.Ret[0]
				e := p.Eval()
				f := func(name string) *term { return structField(v, name) }
				c.Check(f("R") != nil && e.Canon(f("R")).Is(8), N, p.Pos, short(fn), "R is not 8", p)
				c.Check(f("P") != nil && e.Canon(f("P")).Is(1), N, p.Pos, short(fn), "P is not 1", p)
				c.Check(f("KeyLen") != nil && e.Canon(f("KeyLen")).Is(32), N, p.Pos, short(fn), "KeyLen is not 32", p)
				salt, ok := isRes(f("Salt"), 0, "cryptocore.RandBytes")
				c.Check(ok && e.Canon(salt.Args[0]).Is(32), N, p.Pos, short(fn), "the salt is not 32 fresh random bytes", p)
				n := f("N")
				if n == nil {
					c.Fail(N, p.Pos, short(fn), "N is not set")
					continue
				}
				pos := e.AtMost(r.TT.Int(1), logN, 0)
				neg := e.AtMost(logN, r.TT.Int(0), 0)
				switch {
				case e.Canon(n).Is(1 << 16):
					c.Check(neg || e.Canon(logN).Is(16), N, p.Pos, short(fn), "the default N is used although logN may be set", p)
				case n.K == engine.KBin && n.Op.String() == "<<" && e.Canon(n.Args[0]).Is(1) && strip(n.Args[1]) == logN:
					c.Check(pos, N, p.Pos, short(fn), "N=1<<logN although logN may be 0 or negative", p)
				default:
					c.Fail(N, p.Pos, short(fn), "N is neither 1<<logN nor 1<<16: "+n.String())
				}
			}
			c.Need(N, 4)
		}
	})
}
