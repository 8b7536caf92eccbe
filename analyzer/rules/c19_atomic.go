package rules

import (
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C19", Technique: "typestate analysis of the temporary configuration file over all path classes of every function that writes one (created exclusively, written in full, flushed, closed, renamed, in that order and each without error)",
		Explain: "each path of the writing functions is enumerated with every step failing or succeeding; a rename over the configuration's name must have all its predecessors, with their errors known to be nil, before it",
		Run:     runC19})
}

var fsWriters = []string{"os.OpenFile", "os.Create", "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.WriteFile", "ioutil.WriteFile", "os.Link", "os.Symlink", "os.CreateTemp", "ioutil.TempFile", "os.Chmod", "os.File.Chmod"}

func runC19(c *Ctx) {
	const R = "replace"
	c.Rule(R, "a configuration's name is only ever the target of a rename of a file next to it that was created with O_EXCL and mode 0400, got the complete JSON of the configuration without error, was synced and then closed without error; success is reported only after that rename succeeded")
	roots := map[*ssa.Function]bool{}
	c.eachCall(func(call ssa.CallInstruction, name string) {
		f := call.Parent()
		pk := engine.PkgOf(f)
		if pk == nil || !strings.HasSuffix(pk.Path(), "/"+cfPkg) || !in(sn(name), fsWriters...) {
			return
		}
		for _, x := range c.roots(f) {
			roots[x] = true
		}
	})
	if w := c.Fn(R, cfPkg, "ConfFile.WriteFile"); w != nil {
		roots[w] = true
	}
	for fn := range roots {
		if fn.Name() == "init" {
			continue
		}
		r := c.Explore(R, fn, "configfile.ConfFile.EncryptKey", "configfile.ConfFile.DecryptMasterKey", "configfile.randBytesDevRandom", "cryptocore.RandBytes", isSet)
		for _, p := range r.Paths {
			c.replacePath(R, fn, p)
		}
	}
	// Create writes through WriteFile.
	if cr := c.Fn(R, cfPkg, "Create"); cr != nil {
		r := c.Explore(R, cr, "configfile.ConfFile.EncryptKey", "configfile.randBytesDevRandom", "cryptocore.RandBytes", "configfile.ConfFile.WriteFile", isSet)
		for _, p := range r.Paths {
			if !okPath(p) {
				continue
			}
			ok := false
			for _, ev := range callsOn(p, "configfile.ConfFile.WriteFile") {
				ok = ok || p.Eval().IsNil(ev.Res) || errRet(p) == ev.Res
			}
			c.Check(ok, R, p.Pos, short(cr), "reports success although the configuration was not written", p)
		}
	}
	c.Need(R, 6)
}

// nextTo: the name t differs from target but lies in the same directory.
func nextTo(e *eval, t, target *term) bool {
	if t == nil || same(e, t, target) {
		return false
	}
	if t.K == engine.KBin && t.Op.String() == "+" && same(e, t.Args[0], target) {
		s, ok := t.Args[1].StrVal()
		return ok && s != "" && !strings.Contains(s, "/")
	}
	dirOf := func(d *term) bool {
		k, ok := isRes(d, 0, "filepath.Dir", "path.Dir")
		return ok && same(e, k.Args[0], target)
	}
	if k, ok := isRes(t, 0, "os.File.Name"); ok {
		f, ok := isRes(k.Args[0], 0, "ioutil.TempFile", "os.CreateTemp")
		return ok && dirOf(f.Args[0])
	}
	if k, ok := isRes(t, 0, "filepath.Join"); ok && len(k.Args) == 2 {
		return dirOf(k.Args[0])
	}
	if k, ok := isRes(t, 0, "fmt.Sprintf"); ok && len(k.Args) == 2 {
		s, _ := k.Args[0].StrVal()
		return strings.HasPrefix(s, "%s") && len(s) > 2 && !strings.Contains(s, "/") && same(e, unbox(k.Args[1]), target)
	}
	return false
}

func (c *Ctx) replacePath(rule string, fn *ssa.Function, p *path) {
	tt := p.R.TT
	site := short(fn)
	isName := func(t *term) (*term, bool) { return fieldLoad(strip(t), "filename") }
	var target, cf *term
	done := false
	for _, ev := range p.Events {
		if ev.Kind != engine.EvCall || len(ev.Args) == 0 {
			continue
		}
		n := sn(ev.Callee)
		e := p.EvalAt(ev)
		if in(n, "os.Chmod", "os.File.Chmod", "syscall.Chmod", "syscall.Fchmod", "unix.Fchmod", "unix.Chmod") {
			m, isC := e.Canon(strip(ev.Args[1])).IntVal()
			c.Check(isC && m == 0400, rule, ev.Pos, site, "makes the configuration accessible to others than its owner, or writable", p)
		}
		ck := func(ok bool, why string) bool { return c.Check(ok, rule, ev.Pos, site, why, p) }
		if n == "os.Rename" {
			b, ok := isName(ev.Args[1])
			if !ok {
				if _, ok := isName(ev.Args[0]); ok {
					ck(false, "moves the configuration away")
				}
				continue
			}
			cf, target = b, ev.Args[1]
			if !ck(nextTo(e, ev.Args[0], target), "what is renamed over the configuration is not a file next to it: "+ev.Args[0].String()) {
				continue
			}
			c.writtenOut(rule, p, ev, ev.Args[0], cf, site)
			done = errRet(p) == ev.Res || p.Eval().IsNil(ev.Res)
			continue
		}
		if in(n, fsWriters...) {
			_, hit := isName(ev.Args[0])
			for _, a := range ev.Args[1:] {
				if _, h := isName(a); h && !in(n, "os.WriteFile", "ioutil.WriteFile") {
					hit = true
				}
			}
			ck(!hit, n+" is applied to the configuration itself")
			if n == "os.Remove" && !hit {
				// Removing what another writer may be working on defeats exclusive creation.
				ok := false
				for _, o := range p.Events {
					if o.Seq < ev.Seq && evIs(o, "os.OpenFile", "ioutil.TempFile", "os.CreateTemp") && e.IsNil(tt.Extract(o.Res, 1)) {
						ok = true
					}
				}
				ck(ok, "removes a temporary file it did not create")
			}
		}
	}
	if fn.Name() == "WriteFile" && okPath(p) {
		c.Check(done, rule, p.Pos, site, "reports success although the configuration was not replaced", p)
	}
}

// writtenOut: at the rename, the temporary file has its complete content.
func (c *Ctx) writtenOut(rule string, p *path, ren *evnt, tmp, cf *term, site string) {
	tt := p.R.TT
	e := p.EvalAt(ren)
	ck := func(ok bool, why string) bool { return c.Check(ok, rule, ren.Pos, site, why, p) }
	var open *evnt
	for _, ev := range p.Events {
		if ev.Seq > ren.Seq {
			break
		}
		if evIs(ev, "os.OpenFile", "os.Create", "os.WriteFile", "ioutil.WriteFile") && same(e, ev.Args[0], tmp) {
			open = ev
		}
		if evIs(ev, "ioutil.TempFile", "os.CreateTemp") {
			if k, ok := isRes(tmp, 0, "os.File.Name"); ok && k.Args[0] == tt.Extract(ev.Res, 0) {
				open = ev
			}
		}
	}
	if !ck(open != nil, "renames a file that was not created here") {
		return
	}
	fd := tt.Extract(open.Res, 0)
	switch sn(open.Callee) {
	case "os.OpenFile":
		fl, isC := e.Canon(open.Args[1]).IntVal()
		w := int(fl)
		ck(isC && w&os.O_EXCL != 0 && w&os.O_CREATE != 0, "the temporary file is not created exclusively")
		ck(isC && (w&os.O_WRONLY != 0 || w&os.O_RDWR != 0), "the temporary file is not opened for writing")
		m, isC := e.Canon(strip(open.Args[2])).IntVal()
		ck(isC && m == 0400, "the configuration is not readable by its owner only")
	case "ioutil.TempFile", "os.CreateTemp":
		ok := false
		for _, ev := range callsOn(p, "os.File.Chmod") {
			m, isC := e.Canon(strip(ev.Args[1])).IntVal()
			ok = ok || ev.Seq < ren.Seq && ev.Args[0] == fd && isC && m == 0400 && e.IsNil(ev.Res)
		}
		for _, ev := range callsOn(p, "os.Chmod") {
			m, isC := e.Canon(strip(ev.Args[1])).IntVal()
			ok = ok || ev.Seq < ren.Seq && same(e, ev.Args[0], tmp) && isC && m == 0400 && e.IsNil(ev.Res)
		}
		ck(ok, "the configuration is not readable by its owner only")
	default:
		ck(false, "the temporary file is not created exclusively")
		return
	}
	ck(e.IsNil(tt.Extract(open.Res, 1)), "goes on although creating the temporary file failed")
	// What was written.
	var js *term
	full := true
	last, sync, closed := -1, -1, -1
	put := func(ev *evnt, t *term) {
		last = ev.Seq
		for _, x := range pieces(e, t) {
			x = strip(x)
			if k, ok := isRes(x, 0, "json.MarshalIndent", "json.Marshal"); ok {
				if js != nil || !e.IsNil(tt.Extract(k, 1)) || (unbox(k.Args[0]) != cf && !(unbox(k.Args[0]).K == engine.KLoad && unbox(k.Args[0]).Args[0] == cf)) {
					full = false
				}
				js = k
				continue
			}
			if v, ok := x.IntVal(); ok && js != nil && in(string(rune(v)), "\n", " ", "\t") {
				continue
			}
			if s, ok := constBytes(ev, x); ok && js != nil && strings.TrimSpace(s) == "" {
				continue
			}
			full = false
		}
	}
	for _, ev := range p.Events {
		if ev.Seq > ren.Seq {
			break
		}
		if ev.Kind != engine.EvCall || len(ev.Args) == 0 || unbox(ev.Args[0]) != fd {
			if evIs(ev, "json.Encoder.Encode") {
				if k, ok := isRes(ev.Args[0], 0, "json.NewEncoder"); ok && unbox(k.Args[0]) == fd {
					last = ev.Seq
					if js != nil || !e.IsNil(ev.Res) || unbox(ev.Args[1]) != cf {
						full = false
					}
					js = ev.Res
				}
			}
			continue
		}
		switch sn(ev.Callee) {
		case "os.File.Write", "os.File.WriteString", "io.WriteString":
			put(ev, ev.Args[1])
			if !e.IsNil(tt.Extract(ev.Res, 1)) {
				ck(false, "goes on although writing failed")
			}
		case "os.File.Sync":
			sync = ev.Seq
		case "os.File.Close":
			closed = ev.Seq
			ck(e.IsNil(ev.Res), "goes on although closing failed")
		case "os.File.Name", "os.File.Chmod", "os.File.Stat", "os.File.Fd":
		default:
			full = false
		}
	}
	ck(js != nil && full, "the file renamed does not have exactly the configuration as content")
	ck(sync > last, "the content is not flushed before the rename")
	ck(closed > sync, "the file is not closed before the rename")
}
