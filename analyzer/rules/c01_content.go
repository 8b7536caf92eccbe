package rules

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C01", Technique: "trace-partitioned abstract interpretation over Go SSA: window/accumulator loop induction for block sequences, byte-layout resolution of the associated data, and facts required on every successful return from the client's read down to the AEAD call",
		Explain: "every path class of Fileread, FileTree.ReadFile, ContentEnc.DecryptBlocks, ContentEnc.DecryptBlock and of every AEAD implementation in the repository is enumerated; a successful return must be built from authenticated blocks, in order, each opened with its own number and the file's own ID",
		Run: func(c *Ctx) {
			c.lemmaFileread()
			c.lemmaReadFile()
			c.lemmaDecryptBlocks()
			c.lemmaDecryptBlock()
			c.lemmaAEAD()
		}})
}

const cenc = "contentenc.ContentEnc."

// fullZeros: the path knows, without the block of zeros kept for it, that the
// block is full-sized and each of its bytes is zero.
func (c *Ctx) fullZeros(r *res, p *path, ct, be *term) bool {
	e, tt := p.Eval(), r.TT
	full := eqFacts(p.Facts.Slice(), true, func(a, b *term) bool {
		return strip(a) == tt.Len(ct) && isBS(b, be, "cipherBS")
	})
	if !full {
		return false
	}
	for _, ev := range p.Events {
		if evIs(ev, "bytes.Count") && same(e, ev.Args[0], ct) {
			if s, ok := constBytes(ev, ev.Args[1]); ok && s == "\x00" && same(e, ev.Res, tt.Len(ct)) {
				return true
			}
		}
	}
	return c.forall(r, p, tt.Int(0), tt.Len(ct), func(q *path, qe *eval, facts []engine.Fact) []*term {
		var out []*term
		eqFacts(facts, true, func(a, b *term) bool {
			if base, idx, ok := elemOf(a); ok && strip(base) == ct && b.Is(0) {
				out = append(out, idx)
			}
			return false
		})
		return out
	})
}

func (c *Ctx) lemmaFileread() {
	const R = "fileread-bytes"
	c.Rule(R, "Fileread succeeds only with a reader over exactly what FileTree.ReadFile returned without an error")
	fn := c.Fn(R, "handlers", "decrypt.Fileread")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn, "filetree.FileTree.ReadFile")
	for _, p := range r.Paths {
		if !okPath(p) {
			if p.Exit == "return" {
				c.Check(p.Eval().IsNil(p.Ret[0]), R, p.Pos, short(fn), "returns a reader together with an error", p)
			}
			continue
		}
		e := p.Eval()
		ret := unbox(p.Ret[0])
		rd, ok := isRes(ret, 0, "bytes.NewReader", "strings.NewReader")
		if !c.Check(ok, R, p.Pos, short(fn), "the reader is not a bytes.Reader over the decrypted file: "+ret.String(), p) {
			continue
		}
		src, ok := isRes(strip(rd.Args[0]), 0, "filetree.FileTree.ReadFile")
		if !c.Check(ok, R, p.Pos, short(fn), "the reader's bytes are not what FileTree.ReadFile returned: "+rd.Args[0].String(), p) {
			continue
		}
		c.Check(e.IsNil(r.TT.Extract(src, 1)), R, p.Pos, short(fn), "bytes are returned although FileTree.ReadFile failed", p)
		_, isPath := fieldLoad(src.Args[1], "Filepath")
		c.Check(isPath, R, p.Pos, short(fn), "the file read is not the one requested", p)
	}
	c.Need(R, 3)
}

// lemmaReadFile: what FileTree.ReadFile returns is the decrypted block area of
// the whole remote file.
func (c *Ctx) lemmaReadFile() {
	const R = "readfile-authenticated"
	c.Rule(R, "FileTree.ReadFile succeeds only with no bytes for a file that is empty or only a header, or with the whole successful result of DecryptBlocks over everything after the 18-byte header, from block 0, under the header's own ID, after the version was compared with 2 and the ID with zero; an error comes with no bytes")
	fn := c.Fn(R, "filetree", "FileTree.ReadFile")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn, "requester.Requester.ReadFile", "filetree.FileTree.findPath", "filetree.FileTree.findInDir", cenc+"DecryptBlocks", cenc+"CipherSizeToPlainSize")
	tt := r.TT
	n := 0
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		e := p.Eval()
		site := short(fn)
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, site, why, p) }
		if !okPath(p) {
			ck(e.IsNil(p.Ret[0]) || e.Canon(tt.Len(p.Ret[0])).Is(0), "returns bytes together with an error")
			continue
		}
		// The remote file.
		var x *term
		for _, ev := range callsOn(p, "requester.Requester.ReadFile") {
			x = tt.Extract(ev.Res, 0)
			ck(e.IsNil(tt.Extract(ev.Res, 1)), "succeeds although fetching the file failed")
		}
		if !ck(x != nil, "succeeds without reading the remote file") {
			continue
		}
		lx := tt.Len(x)
		if e.IsNil(p.Ret[0]) || e.Canon(tt.Len(p.Ret[0])).Is(0) {
			ck(e.Canon(lx).Is(0) || e.Canon(lx).Is(18), "an empty result for a file that may have content")
			continue
		}
		n++
		ret := p.Ret[0]
		var db *term
		if d, ok := isRes(ret, 0, cenc+"DecryptBlocks"); ok {
			db = d
		} else {
			// A copy of it: all of it, and nothing else.
			base, lo, hi := window(tt, ret)
			for _, ev := range p.Events {
				if ev.Kind == engine.EvCopy {
					b2, l2, _ := window(tt, ev.Args[0])
					if b2 != base || !same(e, lo, l2) {
						continue
					}
					if d, ok := isRes(ev.Args[1], 0, cenc+"DecryptBlocks"); ok {
						size := subT(tt, hi, lo)
						szCall, isSz := isRes(strip(size), 0, cenc+"CipherSizeToPlainSize")
						if same(e, size, tt.Len(ev.Args[1])) || (isSz && same(e, strip(szCall.Args[1]), lx)) {
							db = d
						}
					}
				}
			}
			if ret.K == engine.KAppend && db == nil {
				ps := pieces(e, ret)
				if len(ps) == 1 {
					if d, ok := isRes(ps[0], 0, cenc+"DecryptBlocks"); ok {
						db = d
					}
				}
			}
			if c2, _, ok := isCall(ret, "bytes.Clone", "slices.Clone"); ok && db == nil {
				if d, ok := isRes(c2.Args[0], 0, cenc+"DecryptBlocks"); ok {
					db = d
				}
			}
		}
		if !ck(db != nil, "the bytes returned are not the whole result of DecryptBlocks: "+ret.String()) {
			continue
		}
		ck(e.IsNil(tt.Extract(db, 1)), "bytes are returned although DecryptBlocks failed")
		ct := elem0(r, db.Args[1])
		first := elem0(r, db.Args[2])
		id := elem0(r, db.Args[3])
		b, lo, hi := window(tt, ct)
		ck(same(e, b, x) && same(e, lo, tt.Int(18)) && same(e, hi, lx), "what is decrypted is not the remote file from byte 18 to its end: "+ct.String())
		ck(e.Canon(first).Is(0), "the first block of the file is not decrypted as block 0: "+first.String())
		b, lo, hi = window(tt, id)
		ck(same(e, b, x) && same(e, lo, tt.Int(2)) && same(e, hi, tt.Int(18)), "the file ID is not bytes 2 to 18 of the file: "+id.String())
		ver := false
		for _, ev := range p.Events {
			if evIs(ev, "binary.bigEndian.Uint16", "binary.ByteOrder.Uint16") {
				vb, vl, _ := window(tt, ev.Args[1])
				if same(e, vb, x) && same(e, vl, tt.Int(0)) && e.Canon(ev.Res).Is(2) {
					ver = true
				}
			}
		}
		if !ver {
			// byte by byte
			ok0, ok1 := false, false
			for _, f := range p.Facts.Slice() {
				if !f.Pol || f.T.K != engine.KBin || f.T.Op != token.EQL {
					continue
				}
				for i := 0; i < 2; i++ {
					bs, ix, ok := elemOf(f.T.Args[i])
					if !ok || f.T.Args[1-i].K != engine.KConst {
						continue
					}
					b2, l2, _ := window(tt, bs)
					ix = addT(tt, l2, ix)
					if same(e, b2, x) {
						ok0 = ok0 || ix.Is(0) && f.T.Args[1-i].Is(0)
						ok1 = ok1 || ix.Is(1) && f.T.Args[1-i].Is(2)
					}
				}
			}
			ver = ok0 && ok1
			for _, f := range p.Facts.Slice() {
				if f.Pol && f.T.K == engine.KBin && f.T.Op == token.EQL {
					for i := 0; i < 2; i++ {
						if b2, off, ok := be16(tt, f.T.Args[i]); ok && f.T.Args[1-i].Is(2) && same(e, b2, x) && same(e, off, tt.Int(0)) {
							ver = true
						}
					}
				}
			}
		}
		ck(ver, "the header version is not compared with 2")
		nz := false
		for _, ev := range p.Events {
			if !evIs(ev, "bytes.Equal") {
				continue
			}
			for i := 0; i < 2; i++ {
				if same(e, ev.Args[i], id) && c.zeros(p, ev, ev.Args[1-i], 16) {
					if v, known := e.Decide(ev.Res); known && !v {
						nz = true
					}
				}
			}
		}
		ck(nz, "an all-zero file ID is not refused")
	}
	c.Check(n > 0, R, fn.Pos(), short(fn), "no path returns file content", nil)
	c.Need(R, 10)
}

// be16: t is a 16-bit big-endian number put together from two bytes.
func be16(tt *engine.Terms, t *term) (base, off *term, ok bool) {
	t = strip(t)
	if t == nil || t.K != engine.KBin || t.Op != token.OR && t.Op != token.ADD {
		return
	}
	for i := 0; i < 2; i++ {
		h, l := strip(t.Args[i]), t.Args[1-i]
		if h.K != engine.KBin || h.Op != token.SHL || !h.Args[1].Is(8) {
			continue
		}
		if h.T != nil && h.T.Underlying().String() == "uint8" {
			continue
		}
		hb, hi, ok1 := elemOf(h.Args[0])
		lb, li, ok2 := elemOf(l)
		if !ok1 || !ok2 {
			continue
		}
		b1, l1, _ := window(tt, hb)
		b2, l2, _ := window(tt, lb)
		o1, o2 := addT(tt, l1, hi), addT(tt, l2, li)
		if b1 == b2 && o2 == tt.Add(o1, 1) {
			return b1, o1, true
		}
	}
	return
}

// zeros: t is n zero bytes: a package variable made that way and never
// written, or a buffer nothing was written to.
func (c *Ctx) zeros(p *path, ev *evnt, t *term, n int64) bool {
	if s, ok := constBytes(ev, t); ok {
		for i := range s {
			if s[i] != 0 {
				return false
			}
		}
		return int64(len(s)) == n
	}
	if t.K == engine.KMake {
		return p.Eval().Canon(t.Args[0]).Is(n)
	}
	g, ok := globalOf(t)
	if !ok {
		return false
	}
	l, ok := c.zeroGlobal(g)
	return ok && l == n
}

// zeroGlobal: the length of a package-level byte slice that is only ever made
// by the initialiser and whose elements nothing writes to.
func (c *Ctx) zeroGlobal(full string) (int64, bool) {
	var size int64 = -1
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.String() != full && !sameGlobal(g, full) {
					continue
				}
				if size >= 0 || fn.Name() != "init" && !isInitFn(fn) {
					return 0, false
				}
				switch v := st.Val.(type) {
				case *ssa.MakeSlice:
					k, ok := v.Len.(*ssa.Const)
					if !ok {
						return 0, false
					}
					size = k.Int64()
				case *ssa.Slice:
					al, ok := v.X.(*ssa.Alloc)
					if !ok || v.Low != nil {
						return 0, false
					}
					for _, ref := range *al.Referrers() {
						if _, isIdx := ref.(*ssa.IndexAddr); isIdx {
							return 0, false
						}
					}
					size = al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				default:
					return 0, false
				}
			}
		}
	}
	if size < 0 {
		return 0, false
	}
	// Its value may only be read.
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ld, ok := ins.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				if g, ok := ld.X.(*ssa.Global); ok && (g.String() == full || sameGlobal(g, full)) && !readOnlyUse(ld) {
					return 0, false
				}
			}
		}
	}
	return size, true
}

func sameGlobal(g *ssa.Global, full string) bool {
	return g.Pkg != nil && (g.Pkg.Pkg.Path()+"."+g.Name() == full || sn(g.Pkg.Pkg.Path()+"."+g.Name()) == full)
}

func isInitFn(fn *ssa.Function) bool {
	return fn.Synthetic != "" && fn.Name() == "init"
}

// readOnlyUse: a byte slice value is only compared, measured, copied from or
// printed.
func readOnlyUse(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, ref := range *refs {
		switch x := ref.(type) {
		case *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Call:
			n := sn(fullCallee(x.Common()))
			if in(n, "bytes.Equal", "builtin.len", "builtin.cap", "bytes.Compare", "bytes.HasPrefix", "subtle.ConstantTimeCompare") {
				continue
			}
			if n == "builtin.copy" && x.Common().Args[0] != v {
				continue
			}
			if n == "builtin.append" && x.Common().Args[0] != v {
				continue
			}
			return false
		case *ssa.Slice:
			if !readOnlyUse(x) {
				return false
			}
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// lemmaDecryptBlocks: success means that the ciphertext was cut, from its
// start to its end, into windows of the ciphertext block size (the last may be
// shorter), that window k was opened as block first+k under the given file ID
// without an error, and that the result is what these gave, in order.
func (c *Ctx) lemmaDecryptBlocks() {
	const R = "blocks-in-order"
	c.Rule(R, "DecryptBlocks succeeds only if its whole input was cut into consecutive blocks of the ciphertext block size, block k was opened with number first+k and the given file ID without an error, and the results were concatenated in that order")
	fn := c.Fn(R, "gocrypt/contentenc", "ContentEnc.DecryptBlocks")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn, cenc+"DecryptBlock")
	tt := r.TT
	be, ct, first, fid := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	site := short(fn)
	n := 0
	for _, p := range r.Paths {
		if !okPath(p) {
			continue
		}
		e := p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, site, why, p) }
		var run *loopRun
		for _, l := range loopsOf(r, p) {
			if l.a2 != nil && len(l.first.calls(cenc+"DecryptBlock")) > 0 {
				run = l
			}
		}
		all := callsOn(p, cenc+"DecryptBlock")
		if len(all) == 0 {
			ck(e.Canon(tt.Len(ct)).Is(0), "succeeds on a non-empty input without opening a block")
			ck(len(pieces(e, p.Ret[0])) == 0, "returns bytes without opening a block: "+p.Ret[0].String())
			continue
		}
		n++
		// block checks one call of DecryptBlock and returns its window's end.
		block := func(q *path, qe *eval, ev *evnt, what string) (base, lo, hi *term) {
			ck(ev.Args[0] == be, what+": another cipher object is used")
			ck(same(qe, ev.Args[3], fid), what+" is not opened with the file ID given: "+ev.Args[3].String())
			base, lo, hi = window(tt, ev.Args[1])
			size := subT(tt, hi, lo)
			bs := isBS(size, be, "cipherBS")
			ck(bs || (same(qe, hi, tt.Len(base)) && c.atMostBS(q, qe, lo, hi, be)), what+" is not cut to the ciphertext block size: "+ev.Args[1].String())
			return
		}
		out := p.Ret[0]
		if run == nil {
			// one block only, outside any loop
			if !ck(len(all) == 1, "several blocks are opened without a loop: not decided") {
				continue
			}
			b, lo, hi := block(p, e, all[0], "the block")
			ck(same(e, b, ct) && lo.Is(0) && same(e, hi, tt.Len(ct)), "the only block opened is not the whole input")
			ck(same(e, all[0].Args[2], first), "the first block does not get the first number")
			ck(e.IsNil(tt.Extract(all[0].Res, 1)), "succeeds although the block failed to authenticate")
			ps := pieces(e, out)
			ck(len(ps) == 1 && ps[0] == tt.Extract(all[0].Res, 0), "the result is not the decrypted block: "+out.String())
			continue
		}
		// First trip.
		f := run.first.calls(cenc + "DecryptBlock")
		if !ck(len(f) == 1, "more than one block per trip: not decided") {
			continue
		}
		b0, lo0, hi0 := block(p, run.first.e, f[0], "the first block")
		ck(same(run.first.e, b0, ct) && same(run.first.e, lo0, tt.Int(0)), "the first block does not start at the start of the input: "+f[0].Args[1].String())
		ck(same(run.first.e, f[0].Args[2], first), "the first block does not get the first number: "+f[0].Args[2].String())
		ck(run.first.e.IsNil(tt.Extract(f[0].Res, 1)), "goes on after a block that failed to authenticate")
		// Which window, number and accumulator does a further trip use?
		var wBase, wLo, num *term
		last := run.last.calls(cenc + "DecryptBlock")
		cand := append([]*trip{}, run.gen...)
		for _, g := range cand {
			if gs := g.calls(cenc + "DecryptBlock"); len(gs) == 1 {
				wBase, wLo, _ = window(tt, gs[0].Args[1])
				num = gs[0].Args[2]
			}
		}
		if len(last) == 1 && wBase == nil {
			wBase, wLo, _ = window(tt, last[0].Args[1])
			num = last[0].Args[2]
		}
		if wBase == nil {
			// No further trip is possible: the first block reached the end.
			ck(same(e, hi0, tt.Len(ct)), "stops after the first block although there may be more")
			ck(oneOf(pieces(e, c.initial(run, out)), tt.Extract(f[0].Res, 0)), "the result is not the decrypted block")
			continue
		}
		acc := accOf(e, out, func(x *term) bool { return run.a2.Cells[x] != nil })
		if !ck(acc != nil, "the result does not collect the decrypted blocks: "+out.String()) {
			continue
		}
		// After the first trip: position, number and accumulator.
		p1, l1 := rebase(tt, run.first.at(wBase), run.first.at(wLo))
		ck(same(run.first.e, p1, b0) && same(run.first.e, l1, hi0) || emptyRest(tt, run.first, wBase, wLo, hi0, b0), "the second block does not start where the first ended: "+run.first.at(wBase).String()+" at "+run.first.at(wLo).String())
		ck(same(run.first.e, quo(tt, run.first.at(num)), tt.Add(first, 1)), "the second block does not get the number after the first: "+run.first.at(num).String())
		ps := pieces(run.first.e, run.first.at(acc))
		ck(len(ps) == 1 && ps[0] == tt.Extract(f[0].Res, 0), "after the first block the result is not exactly it: "+run.first.at(acc).String())
		for _, g := range run.gen {
			gs := g.calls(cenc + "DecryptBlock")
			if !ck(len(gs) == 1, "a trip through the loop opens no block or several") {
				continue
			}
			b, lo, hi := block(g.q, g.e, gs[0], "a further block")
			ck(same(g.e, b, wBase) && same(g.e, lo, wLo), "trips take their blocks at different places")
			ck(same(g.e, gs[0].Args[2], num), "trips number their blocks differently")
			nb, nl := rebase(tt, g.at(wBase), g.at(wLo))
			ob, ol := rebase(tt, b, hi)
			ck(same(g.e, nb, ob) && same(g.e, nl, ol) || emptyRest(tt, g, wBase, wLo, hi, b), "a block does not start where the one before ended: "+g.at(wBase).String())
			ck(same(g.e, quo(tt, g.at(num)), tt.Add(num, 1)), "consecutive blocks do not get consecutive numbers: "+g.at(num).String())
			ck(g.e.IsNil(tt.Extract(gs[0].Res, 1)), "goes on after a block that failed to authenticate")
			ps := pieces(g.e, g.at(acc))
			ck(len(ps) == 2 && ps[0] == acc && ps[1] == tt.Extract(gs[0].Res, 0), "a trip does not append exactly its block: "+g.at(acc).String())
		}
		// Leaving the loop: everything was taken, and the result is the accumulator.
		ps = pieces(e, out)
		switch len(last) {
		case 0:
			ck(len(ps) == 1 && ps[0] == acc, "the result is not exactly the collected blocks: "+out.String())
			ck(e.AtMost(tt.Len(wBase), wLo, 0), "stops although input may be left")
		case 1:
			_, _, hi := block(p, e, last[0], "the last block")
			b, lo, _ := window(tt, last[0].Args[1])
			ck(same(e, b, wBase) && same(e, lo, wLo), "the last block is not taken where the one before ended")
			ck(same(e, hi, tt.Len(b)), "stops although input may be left")
			ck(same(e, last[0].Args[2], num), "the last block does not get the next number")
			ck(e.IsNil(tt.Extract(last[0].Res, 1)), "succeeds although the last block failed to authenticate")
			ck(len(ps) == 2 && ps[0] == acc && ps[1] == tt.Extract(last[0].Res, 0), "the result is not exactly the collected blocks: "+out.String())
		default:
			ck(false, "several blocks after the loop: not decided")
		}
	}
	c.Check(n > 0, R, fn.Pos(), site, "no path opens a block", nil)
	c.Need(R, 10)
}

func oneOf(l []*term, t *term) bool { return len(l) == 1 && l[0] == t }

// initial: the value an accumulator had after the first trip.
func (c *Ctx) initial(run *loopRun, out *term) *term { return run.first.at(out) }

// accOf finds the loop unknown a result is built from.
func accOf(e *eval, out *term, loopVar func(*term) bool) *term {
	for _, x := range pieces(e, out) {
		if x.K == engine.KMu && loopVar(x) {
			return x
		}
	}
	return nil
}

// rebase expresses position lo of a slice in terms of what it was cut from.
func rebase(tt *engine.Terms, base, lo *term) (*term, *term) {
	for base.K == engine.KSlice && len(base.Args) < 4 {
		lo = addT(tt, base.Args[1], lo)
		base = base.Args[0]
	}
	return base, lo
}

// emptyRest: the window reached the end and nothing is left for the next trip,
// so where that would start does not matter.
func emptyRest(tt *engine.Terms, t *trip, wBase, wLo, hi, b *term) bool {
	return same(t.e, hi, tt.Len(b)) && t.e.AtMost(tt.Len(t.at(wBase)), t.at(wLo), 0)
}

// isBS: t is be's block size field.
func isBS(t *term, be *term, field string) bool {
	return fieldPath(strip(t), be, field)
}

// atMostBS: the window is known not to exceed the ciphertext block size.
func (c *Ctx) atMostBS(q *path, e *eval, lo, hi, be *term) bool {
	tt := q.R.TT
	found := false
	for _, f := range q.Facts.Slice() {
		f.T.Walk(func(x *term) bool {
			if !found && isBS(x, be, "cipherBS") && x.K != engine.KFieldAddr {
				found = e.AtMost(subT(tt, hi, lo), x, 0) || e.AtMost(hi, addT(tt, lo, x), 0) || e.AtMost(hi, addT(tt, x, lo), 0)
			}
			return true
		})
	}
	return found
}

// quo simplifies (x+d)/d and d/d, where the sum is known not to wrap.
func quo(tt *engine.Terms, t *term) *term {
	return tt.Subst(t, func(x *term) *term {
		if x.K != engine.KBin || x.Op != token.QUO {
			return nil
		}
		n, d := x.Args[0], x.Args[1]
		if n == d {
			return tt.Int(1)
		}
		if n.K == engine.KBin && n.Op == token.ADD {
			for i := 0; i < 2; i++ {
				if n.Args[i] == d {
					return tt.Add(tt.Bin(token.QUO, n.Args[1-i], d, x.T, nil), 1)
				}
			}
		}
		return nil
	})
}

// lemmaDecryptBlock: success means the block authenticated.
func (c *Ctx) lemmaDecryptBlock() {
	const R = "block-authenticated"
	c.Rule(R, "DecryptBlock succeeds only for an empty block, for a block equal to the all-zero block (giving zeros), or with what AEADCipher.Open returned without an error for the block's own nonce and ciphertext, with associated data = 8-byte big-endian block number then file ID; an error comes with no bytes")
	fn := c.Fn(R, "gocrypt/contentenc", "ContentEnc.DecryptBlock")
	if fn == nil {
		return
	}
	r := c.Explore(R, fn)
	tt := r.TT
	be, ct, no, fid := r.Params[0], r.Params[1], r.Params[2], r.Params[3]
	site := short(fn)
	opens := 0
	for _, p := range r.Paths {
		if p.Exit != "return" {
			continue
		}
		e := p.Eval()
		ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, site, why, p) }
		ret := p.Ret[0]
		if !okPath(p) {
			ck(e.IsNil(ret) || e.Canon(tt.Len(ret)).Is(0), "returns bytes together with an error")
			continue
		}
		if e.Canon(tt.Len(ct)).Is(0) {
			ck(e.IsNil(ret) || e.Canon(tt.Len(ret)).Is(0), "returns bytes for an empty block")
			continue
		}
		if d, ok := isRes(ret, 0, "cipher.AEAD.Open"); ok {
			opens++
			ev := callEvent(p, d)
			ck(e.IsNil(tt.Extract(d, 1)), "succeeds although the block failed to authenticate")
			ck(fieldPath(d.Args[0], be, "cryptoCore", "AEADCipher"), "the block is not opened with the volume's content cipher")
			ck(e.Canon(tt.Len(d.Args[1])).Is(0), "the plaintext is appended to bytes that were not authenticated")
			nb, nl, nh := window(tt, d.Args[2])
			cb, cl, chi := window(tt, d.Args[3])
			ck(same(e, nb, ct) && same(e, nl, tt.Int(0)) && fieldPath(strip(nh), be, "cryptoCore", "IVLen"), "the nonce is not the block's first IVLen bytes: "+d.Args[2].String())
			ck(same(e, cb, ct) && same(e, cl, nh) && same(e, chi, tt.Len(ct)), "the ciphertext is not all of the block after the nonce: "+d.Args[3].String())
			ck(ev != nil && aadIs(p, d.Args[4], ev.Seq, no, fid), "the associated data is not the block number, big endian, then the file ID: "+segsString(layout(p, d.Args[4], 1<<30)))
			continue
		}
		// a hole
		hole := c.fullZeros(r, p, ct, be)
		for _, ev := range p.Events {
			if !evIs(ev, "bytes.Equal") {
				continue
			}
			for i := 0; i < 2; i++ {
				if same(e, ev.Args[i], ct) && fieldPath(ev.Args[1-i], be, "allZeroBlock") {
					if v, known := e.Decide(ev.Res); known && v {
						hole = true
					}
				}
			}
		}
		if !ck(hole, "returns bytes of a block that was not authenticated: "+ret.String()) {
			continue
		}
		fresh := ret.K == engine.KMake && isBS(ret.Args[0], be, "plainBS")
		for _, ev := range p.Events {
			if ev.Kind == engine.EvStore || ev.Kind == engine.EvCopy {
				if b, _, _ := window(tt, ev.Args[0]); b == ret {
					fresh = false
				}
			}
		}
		ck(fresh, "a file hole does not read as a block of zeros: "+ret.String())
	}
	c.Check(opens > 0, R, fn.Pos(), site, "no path opens the block with the content cipher", nil)
	// The all-zero block is what its name says.
	newFn := c.Fn(R, "gocrypt/contentenc", "New")
	if newFn == nil {
		return
	}
	c.fieldStores(repoPath+"/gocrypt/contentenc.ContentEnc", func(field string, st *ssa.Store) {
		if field == "allZeroBlock" {
			c.Check(st.Parent() == newFn, R, st.Pos(), short(st.Parent()), "the all-zero block is replaced", nil)
		}
	})
	nr := c.Explore(R, newFn)
	for _, p := range nr.Paths {
		if p.Exit != "return" {
			continue
		}
		z := c.objField(p, p.Ret[0], "allZeroBlock")
		bs := c.objField(p, p.Ret[0], "cipherBS")
		ok := z != nil && bs != nil && (z.K == engine.KMake && same(p.Eval(), strip(z.Args[0]), strip(bs)))
		c.Check(ok, R, newFn.Pos(), short(newFn), "the all-zero block is not a fresh buffer of the ciphertext block size", p)
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "allZeroBlock" {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if ld, ok := ref.(*ssa.UnOp); ok && ld.Op == token.MUL {
						c.Check(readOnlyUse(ld), R, ld.Pos(), short(f), "the all-zero block may be written to", nil)
					}
				}
			}
		}
	}
	c.Need(R, 10)
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// objField is the value a field of an object has when the path ends.
func (c *Ctx) objField(p *path, obj *term, name string) *term {
	obj = unbox(obj)
	if obj == nil {
		return nil
	}
	for a, v := range p.Mem {
		if a.K == engine.KFieldAddr && a.Args[0] == obj && a.Var.Name() == name {
			return v
		}
	}
	if v, ok := p.Mem[obj]; ok {
		if f := structField(v, name); f != nil {
			return f
		}
	}
	return structField(obj, name)
}

// lemmaAEAD: every AEAD the repository implements itself authenticates.
func (c *Ctx) lemmaAEAD() {
	const R = "aead-open"
	c.Rule(R, "the Open of every AEAD implemented in the repository either never succeeds or succeeds only if siv.Decrypt, with the object's own key, the whole ciphertext and the associated data followed by the nonce, succeeded, and then appends exactly its result")
	n := 0
	for _, fn := range c.P.Funcs {
		if fn.Name() != "Open" || fn.Signature.Recv() == nil || engine.IsFake(fn) || fn.Synthetic != "" {
			continue
		}
		if fn.Signature.Params().Len() != 4 || fn.Signature.Results().Len() != 2 {
			continue
		}
		n++
		r := c.Explore(R, fn)
		tt := r.TT
		for _, p := range r.Paths {
			if !okPath(p) {
				c.Pass(R, short(fn))
				continue
			}
			e := p.Eval()
			ck := func(ok bool, why string) bool { return c.Check(ok, R, p.Pos, short(fn), why, p) }
			var d *evnt
			for _, ev := range callsOn(p, "siv.Decrypt") {
				d = ev
			}
			if !ck(d != nil, "succeeds without authenticating") {
				continue
			}
			er := errRet(p)
			ck(e.IsNil(tt.Extract(d.Res, 1)) || er == tt.Extract(d.Res, 1), "succeeds although siv.Decrypt failed")
			ck(fieldPath(d.Args[0], r.Params[0], "key"), "not the object's own key")
			ck(same(e, d.Args[1], r.Params[3]), "not the whole ciphertext")
			as := elems(p, d, d.Args[2])
			ck(len(as) == 2 && same(e, as[0], r.Params[4]) && same(e, as[1], r.Params[2]), "the associated data are not the given data, then the nonce")
			ps := pieces(e, p.Ret[0])
			okDst := len(ps) == 2 && ps[0] == r.Params[1] && ps[1] == tt.Extract(d.Res, 0) || e.Canon(tt.Len(r.Params[1])).Is(0) && len(ps) == 1 && ps[0] == tt.Extract(d.Res, 0)
			ck(okDst, fmt.Sprintf("the result is not the destination followed by the plaintext: %v", ps))
		}
	}
	c.Check(n > 0, R, token.NoPos, "AEAD", "no AEAD implementation found", nil)
	c.Need(R, 5)
}

// elems lists the elements of a slice built on the path from a fixed array.
func elems(p *path, ev *evnt, t *term) []*term {
	if t == nil {
		return nil
	}
	if t.K == engine.KAppend && t.Aux == "elems" {
		return append(elems(p, ev, t.Args[0]), t.Args[1:]...)
	}
	base, lo, _ := window(p.R.TT, t)
	if base.K != engine.KAlloc || !lo.Is(0) {
		return nil
	}
	pt, ok := base.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	arr, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return nil
	}
	out := make([]*term, arr.Len())
	for _, x := range p.Events {
		if x.Seq >= ev.Seq {
			break
		}
		if x.Kind == engine.EvStore && x.Args[0].K == engine.KIndexAddr && x.Args[0].Args[0] == base {
			i, ok := x.Args[0].Args[1].IntVal()
			if !ok || i < 0 || i >= arr.Len() {
				return nil
			}
			out[i] = x.Args[1]
		}
	}
	for _, x := range out {
		if x == nil {
			return nil
		}
	}
	return out
}
