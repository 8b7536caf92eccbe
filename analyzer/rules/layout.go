package rules

import (
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/engine"
)

// A seg is a stretch of bytes of known origin.
type seg struct {
	kind string // u16be, u64be, bytes, zero, byte, unknown
	t    *term  // the number or the bytes
	n    *term  // its length in bytes
}

func (s seg) String() string {
	if s.t == nil {
		return s.kind
	}
	return s.kind + "(" + s.t.String() + ")"
}

func segsString(l []seg) string {
	var out []string
	for _, s := range l {
		out = append(out, s.String())
	}
	return "[" + strings.Join(out, " ") + "]"
}

// layout resolves what a byte slice consists of at event number upto of p.
func layout(p *path, t *term, upto int) []seg {
	return layoutE(p, p.Eval(), t, upto, 0)
}

func layoutE(p *path, e *eval, t *term, upto, depth int) []seg {
	tt := p.R.TT
	unknown := []seg{{kind: "unknown", t: t}}
	if t == nil || depth > 12 {
		return unknown
	}
	if e.IsNil(t) || e.Canon(tt.Len(t)).Is(0) {
		return nil
	}
	switch t.K {
	case engine.KNil:
		return nil
	case engine.KAppend:
		out := layoutE(p, e, t.Args[0], upto, depth+1)
		if t.Aux == "slice" {
			return append(out, layoutE(p, e, t.Args[1], upto, depth+1)...)
		}
		for _, x := range t.Args[1:] {
			out = append(out, seg{"byte", x, tt.Int(1)})
		}
		return mergeBytes(tt, out)
	case engine.KCall, engine.KExtract:
		c, _, ok := t.IsCall()
		if !ok {
			return unknown
		}
		switch sn(c.Callee) {
		case "binary.bigEndian.AppendUint64":
			return append(layoutE(p, e, c.Args[1], upto, depth+1), seg{"u64be", strip(c.Args[2]), tt.Int(8)})
		case "binary.bigEndian.AppendUint16":
			return append(layoutE(p, e, c.Args[1], upto, depth+1), seg{"u16be", strip(c.Args[2]), tt.Int(2)})
		case "bytes.Clone", "slices.Clone":
			return layoutE(p, e, c.Args[0], upto, depth+1)
		}
		return []seg{{"bytes", t, tt.Len(t)}}
	}
	base, lo, hi := window(tt, t)
	zeroed := base.K == engine.KMake || base.K == engine.KAlloc
	// A buffer this path made: what was written to it.
	type wr struct {
		off, end *term
		s        seg
	}
	var ws []wr
	add := func(dst *term, n *term, s seg) bool {
		b, l, _ := window(tt, dst)
		if b != base {
			return false
		}
		ws = append(ws, wr{l, addT(tt, l, n), s})
		return true
	}
	for _, ev := range p.Events {
		if ev.Seq >= upto {
			break
		}
		switch ev.Kind {
		case engine.EvCall:
			switch sn(ev.Callee) {
			case "binary.bigEndian.PutUint64", "binary.ByteOrder.PutUint64":
				add(ev.Args[1], tt.Int(8), seg{"u64be", strip(ev.Args[2]), tt.Int(8)})
			case "binary.bigEndian.PutUint16", "binary.ByteOrder.PutUint16":
				add(ev.Args[1], tt.Int(2), seg{"u16be", strip(ev.Args[2]), tt.Int(2)})
			default:
				if strings.HasPrefix(sn(ev.Callee), "binary.littleEndian.Put") {
					add(ev.Args[1], tt.Int(8), seg{kind: "unknown", t: ev.Args[2], n: tt.Int(8)})
				}
			}
		case engine.EvCopy:
			b, l, h := window(tt, ev.Args[0])
			if b != base {
				continue
			}
			src := ev.Args[1]
			n := tt.Len(src)
			room := subT(tt, h, l)
			if base.K == engine.KAssert {
				// A pool buffer: of the block size, which has room.
			} else if !e.AtMost(n, room, 0) {
				if e.AtMost(room, n, 0) {
					src = tt.Slice(src, tt.Int(0), room, nil, src.T)
					n = room
				} else {
					return unknown
				}
			}
			for _, s := range layoutE(p, e, src, ev.Seq, depth+1) {
				if s.n == nil {
					return unknown
				}
				ws = append(ws, wr{l, addT(tt, l, s.n), s})
				l = addT(tt, l, s.n)
			}
		case engine.EvStore:
			a := ev.Args[0]
			if a.K == engine.KIndexAddr && a.Args[0] == base {
				ws = append(ws, wr{a.Args[1], tt.Add(a.Args[1], 1), seg{"byte", ev.Args[1], tt.Int(1)}})
			} else if a.K == engine.KIndexAddr && a.Args[0].K == engine.KSlice && a.Args[0].Args[0] == base {
				i := addT(tt, a.Args[0].Args[1], a.Args[1])
				ws = append(ws, wr{i, tt.Add(i, 1), seg{"byte", ev.Args[1], tt.Int(1)}})
			}
		}
	}
	if !zeroed && len(ws) == 0 {
		return []seg{{"bytes", t, tt.Len(t)}}
	}
	// Later writes win over the ones they cover; then lay them end to end.
	var live []wr
	for i, w := range ws {
		covered := false
		for _, v := range ws[i+1:] {
			if e.AtMost(v.off, w.off, 0) && e.AtMost(w.end, v.end, 0) {
				covered = true
			} else if !e.AtMost(v.end, w.off, 0) && !e.AtMost(w.end, v.off, 0) {
				return unknown
			}
		}
		if !covered && !e.AtMost(w.end, w.off, 0) {
			live = append(live, w)
		}
	}
	sort.SliceStable(live, func(i, j int) bool { return e.AtMost(live[i].end, live[j].off, 0) })
	var out []seg
	pos := lo
	for _, w := range live {
		if e.AtMost(w.end, pos, 0) {
			continue // before the window
		}
		if e.AtMost(hi, w.off, 0) {
			break
		}
		if !same(e, pos, w.off) {
			if !zeroed || !e.AtMost(pos, w.off, 0) {
				return unknown
			}
			out = append(out, seg{"zero", nil, subT(tt, w.off, pos)})
		}
		if !e.AtMost(w.end, hi, 0) {
			return unknown
		}
		out = append(out, w.s)
		pos = w.end
	}
	if !same(e, pos, hi) {
		if !zeroed {
			return unknown
		}
		out = append(out, seg{"zero", nil, subT(tt, hi, pos)})
	}
	return mergeBytes(tt, out)
}

// addT and subT are exact sums and differences of lengths.
func addT(tt *engine.Terms, a, b *term) *term {
	if v, ok := b.IntVal(); ok {
		return tt.Add(a, v)
	}
	if v, ok := a.IntVal(); ok {
		return tt.Add(b, v)
	}
	return tt.Bin(tokAdd, a, b, types.Typ[types.Int], nil)
}

func subT(tt *engine.Terms, a, b *term) *term {
	if a == b {
		return tt.Int(0)
	}
	if v, ok := b.IntVal(); ok {
		return tt.Add(a, -v)
	}
	return tt.Bin(tokSub, a, b, types.Typ[types.Int], nil)
}

// mergeBytes turns byte(v>>56), byte(v>>48), ... byte(v) into u64be(v).
func mergeBytes(tt *engine.Terms, l []seg) []seg {
	shift := func(s seg) (*term, int64, bool) {
		if s.kind != "byte" || s.t.K != engine.KConv {
			return nil, 0, false
		}
		x := s.t.Args[0]
		if x.K == engine.KBin && x.Op.String() == ">>" {
			if n, ok := x.Args[1].IntVal(); ok {
				return strip(x.Args[0]), n, true
			}
		}
		return strip(x), 0, true
	}
	var out []seg
	for i := 0; i < len(l); {
		v, n, ok := shift(l[i])
		w := int(n/8) + 1
		if ok && n%8 == 0 && (w == 2 || w == 8) && i+w <= len(l) {
			good := true
			for k := 1; k < w; k++ {
				v2, n2, ok2 := shift(l[i+k])
				if !ok2 || v2 != v || n2 != n-int64(8*k) {
					good = false
				}
			}
			if good {
				kind := "u16be"
				if w == 8 {
					kind = "u64be"
				}
				out = append(out, seg{kind, v, tt.Int(int64(w))})
				i += w
				continue
			}
		}
		out = append(out, l[i])
		i++
	}
	return out
}

// aadIs: the bytes are the block number, big endian, then the file ID.
func aadIs(p *path, t *term, upto int, blockNo, fileID *term) bool {
	l := layout(p, t, upto)
	if len(l) == 0 || l[0].kind != "u64be" || !same(p.Eval(), l[0].t, strip(blockNo)) {
		return false
	}
	return bytesAre(p, l[1:], fileID)
}

func bytesAre(p *path, l []seg, want *term) bool {
	e := p.Eval()
	if len(l) == 0 {
		return want == nil || e.IsNil(want) || e.Canon(p.R.TT.Len(want)).Is(0)
	}
	return want != nil && len(l) == 1 && l[0].kind == "bytes" && same(e, l[0].t, want)
}
