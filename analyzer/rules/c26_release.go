package rules

import (
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C26", Technique: "typestate analysis of files, temporary files, half-open connections and session channels over all path classes of every function that acquires one, goroutines included",
		Explain: "each path of each acquiring function is enumerated with every step failing or succeeding, ending in a return, a panic or the end of the program; what was acquired on it must be released on it, once its last use is over",
		Run:     runC26})
}

var (
	localOpens  = []string{"os.Open", "os.OpenFile", "os.Create", "ioutil.TempFile", "os.CreateTemp", "os.Pipe"}
	tempOpens   = []string{"ioutil.TempFile", "os.CreateTemp"}
	remoteOpens = []string{"sftp.Client.Open", "sftp.Client.OpenFile", "sftp.Client.Create"}
)

func runC26(c *Ctx) {
	const R = "release"
	c.Rule(R, "on every path that returns (and, for temporary files, every path that panics or ends the program) an opened file is closed, a temporary file is removed or renamed into place, a dialled connection whose SFTP session could not be opened is closed, an accepted session channel is closed after the session was served, an accepted network connection is handed to the SSH handshake or closed; nothing is used after it was closed")
	roots := map[*ssa.Function]bool{}
	c.eachCall(func(call ssa.CallInstruction, name string) {
		f := call.Parent()
		n := sn(name)
		pk := engine.PkgOf(f)
		if pk == nil || strings.HasSuffix(pk.Path(), "/tools") {
			return
		}
		if !in(n, localOpens...) && !in(n, remoteOpens...) && !in(n, "ssh.Dial", "ssh.NewChannel.Accept", "net.Listener.Accept", "ioutil.TempDir", "os.MkdirTemp") {
			return
		}
		// The unused pass-through handler only serves as an example.
		if recv := f.Signature.Recv(); recv != nil && engine.TypeKey(recv.Type()) == repoPath+"/handlers.proxy" {
			return
		}
		for _, x := range c.roots(f) {
			roots[x] = true
		}
	})
	var l []*ssa.Function
	for fn := range roots {
		l = append(l, fn)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	seen := map[*ssa.Function]bool{}
	for _, fn := range l {
		if fn.Name() == "main" && fn.Signature.Recv() == nil {
			r := c.mainRes(R)
			if r == nil {
				continue
			}
			ts := c.spawned(R, r, nil)
			for _, p := range r.Paths {
				c.releasedOn(R, fn, p, ts)
			}
			for _, t := range ts {
				seen[t.fn] = true
				for _, p := range t.r.Paths {
					c.releasedOn(R, t.fn, p, ts)
				}
			}
		}
	}
	for _, fn := range l {
		if fn.Name() == "main" || fn.Name() == "init" || seen[fn] || !exportedType(fn) && token.IsExported(fn.Name()) && fn.Signature.Recv() != nil && c.onlyInternal(fn) {
			continue
		}
		r := c.Explore(R, fn, "configfile.ConfFile.EncryptKey", "cryptocore.RandBytes", "cryptocore.New", "contentenc.New", "nametransform.New", "requester.New", "requester.Requester.Start", isSet)
		for _, p := range r.Paths {
			c.releasedOn(R, fn, p, nil)
		}
	}
	c.Need(R, 40)
}

// onlyInternal: a method of an unexported type that repository code calls.
func (c *Ctx) onlyInternal(fn *ssa.Function) bool { return len(c.P.Callers(fn)) > 0 }

type acquired struct {
	what  string // file, remote file, temp, ssh, channel, netconn
	t     *term  // the value
	err   *term
	ev    *evnt
	done  int
	serve int
}

func (c *Ctx) releasedOn(rule string, fn *ssa.Function, p *path, ts []*thread) {
	tt := p.R.TT
	end := p.Eval()
	site := short(fn)
	var got []*acquired
	add := func(what string, ev *evnt, i, ei int) {
		x := &acquired{what: what, ev: ev, done: -1, serve: -1, t: tt.Extract(ev.Res, i), err: tt.Extract(ev.Res, ei)}
		if end.NonNil(x.err) {
			return
		}
		got = append(got, x)
	}
	wraps := map[*term]*term{} // server -> channel
	loopAt := map[string]int{}
	is := func(a, t *term) bool {
		a = unbox(a)
		if a == t {
			return true
		}
		return a != nil && (wraps[a] == t || a.K == engine.KFieldAddr && a.Args[0] == t || a.K == engine.KLoad && a.Args[0].K == engine.KFieldAddr && a.Args[0].Args[0] == t)
	}
	for _, ev := range p.Events {
		e := p.EvalAt(ev)
		if ev.Kind == engine.EvLoop && ev.Idx == 2 {
			loopAt[ev.LoopKey] = ev.Seq
		}
		if ev.Kind == engine.EvGo {
			// The goroutine takes it over if it releases it on all its paths.
			for _, x := range got {
				for _, t := range ts {
					if t.g.Instr == ev.Instr && c.consumes(t, x, ev) {
						x.done = ev.Seq
					}
				}
			}
			continue
		}
		if ev.Kind != engine.EvCall {
			continue
		}
		n := sn(ev.Callee)
		ck := func(ok bool, why string) bool { return c.Check(ok, rule, ev.Pos, site, why, p) }
		switch {
		case in(n, tempOpens...):
			add("file", ev, 0, 1)
			add("temp", ev, 0, 1)
		case in(n, localOpens...):
			add("file", ev, 0, 1)
			if n == "os.OpenFile" {
				if fl, ok := e.Canon(ev.Args[1]).IntVal(); ok && int(fl)&os.O_EXCL != 0 {
					add("temp", ev, 0, 1)
				}
			}
		case in(n, remoteOpens...):
			add("remote file", ev, 0, 1)
		case n == "ssh.Dial":
			add("ssh", ev, 0, 1)
		case n == "ssh.NewChannel.Accept":
			add("channel", ev, 0, 2)
		case n == "net.Listener.Accept":
			add("netconn", ev, 0, 1)
		case n == "sftp.NewRequestServer":
			wraps[ev.Res] = unbox(ev.Args[0])
		case n == "ioutil.TempDir" || n == "os.MkdirTemp":
			add("temp", ev, 0, 1)
		}
		for _, x := range got {
			if ev.Seq <= x.ev.Seq {
				continue
			}
			hit := false
			for _, a := range ev.Args {
				hit = hit || is(a, x.t)
			}
			switch x.what {
			case "file", "remote file":
				if !hit {
					continue
				}
				if in(n, "os.File.Close", "sftp.File.Close") {
					x.done = ev.Seq
				} else if !in(n, "os.File.Name", "sftp.File.Name") {
					ck(x.done < 0, "uses a file after it was closed: "+n)
				}
			case "temp":
				if in(n, "os.Remove", "os.RemoveAll") && c.nameOf(e, ev.Args[0], x) {
					x.done = ev.Seq
				}
				if n == "os.Rename" && c.nameOf(e, ev.Args[0], x) && end.IsNil(ev.Res) {
					x.done = ev.Seq
				}
				if n == "os.Rename" && c.nameOf(e, ev.Args[0], x) && errRet(p) == ev.Res && x.done < 0 {
					x.done = ev.Seq
				}
				if x.done >= 0 && x.done < ev.Seq && !in(n, "os.Remove", "os.RemoveAll") {
					for _, a := range ev.Args {
						if c.nameOf(e, a, x) && !strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "log.") {
							ck(false, "uses the temporary file after it was removed: "+n)
						}
					}
				}
			case "channel":
				if !hit {
					continue
				}
				switch n {
				case "ssh.Channel.Close", "sftp.RequestServer.Close":
					x.done = ev.Seq
				case "sftp.RequestServer.Serve":
					ck(x.done < 0, "serves a session on a channel that was closed")
					x.serve = ev.Seq
				default:
					if !in(n, "sftp.NewRequestServer", "ssh.Channel.CloseWrite") {
						ck(x.done < 0 || strings.HasPrefix(n, "ssh.Channel.SendRequest"), "uses a channel after it was closed: "+n)
					}
				}
			case "netconn":
				if hit && in(n, "net.Conn.Close", "ssh.NewServerConn") {
					x.done = ev.Seq
				}
			case "ssh":
				if hit && in(n, "ssh.Conn.Close", "ssh.Client.Close") {
					x.done = ev.Seq
				}
			}
		}
	}
	for _, x := range got {
		if end.IsNil(x.t) {
			continue // cannot be: it was opened without an error
		}
		if p.Exit == "cut" {
			inLoop := false
			for _, s := range loopAt {
				inLoop = inLoop || x.ev.Seq > s
			}
			if !inLoop {
				continue
			}
		}
		var why string
		switch x.what {
		case "temp":
			why = "leaves a temporary file behind"
		case "file", "remote file":
			why = "a " + x.what + " opened here is not closed"
		case "channel":
			why = "a session channel accepted here is not closed"
		case "netconn":
			why = "an accepted network connection is neither served nor closed"
		case "ssh":
			// Only if the SFTP session could not be opened; otherwise its
			// owner has to give it up (C13).
			failed := false
			for _, ev := range callsOn(p, "sftp.NewClient") {
				if unbox(ev.Args[0]) == x.t && !end.IsNil(tt.Extract(ev.Res, 1)) {
					failed = true
				}
			}
			if !failed {
				continue
			}
			why = "a connection whose SFTP session could not be opened is not closed"
		}
		if p.Exit == "panic" || p.Exit == "exit" {
			if x.what != "temp" {
				continue
			}
			why += " when the program ends here"
		}
		ok := x.done >= 0
		c.Check(ok, rule, x.ev.Pos, site, why+" on a path", p)
		if x.what == "channel" && ok {
			c.Check(x.serve < x.done, rule, x.ev.Pos, site, "the channel is not closed after its session was served", p)
		}
	}
}

// nameOf: t is the name of the temporary file x.
func (c *Ctx) nameOf(e *eval, t *term, x *acquired) bool {
	t = unbox(t)
	if t == nil {
		return false
	}
	if t == x.t {
		return in(sn(x.ev.Callee), "ioutil.TempDir", "os.MkdirTemp")
	}
	if k, ok := isRes(t, 0, "os.File.Name"); ok && k.Args[0] == x.t {
		return true
	}
	return sn(x.ev.Callee) == "os.OpenFile" && same(e, t, x.ev.Args[0])
}

// consumes: the goroutine is given x and releases it on every path.
func (c *Ctx) consumes(t *thread, x *acquired, g *evnt) bool {
	given := false
	_, free := started(g)
	for _, a := range append(append([]*term{}, g.Args...), free...) {
		given = given || unbox(a) == x.t
	}
	for _, v := range g.Cells {
		given = given || v != nil && unbox(v) == x.t
	}
	if !given {
		return false
	}
	n := 0
	for _, p := range t.r.Paths {
		if p.Exit != "return" {
			continue
		}
		n++
		ok := false
		var server *term
		for _, ev := range p.Events {
			if ev.Kind != engine.EvCall {
				continue
			}
			cn := sn(ev.Callee)
			for _, a := range ev.Args {
				if unbox(a) != x.t && (server == nil || unbox(a) != server) {
					continue
				}
				switch {
				case cn == "sftp.NewRequestServer":
					server = ev.Res
				case x.what == "netconn" && cn == "ssh.NewServerConn":
					ok = true
				case x.what == "channel" && cn == "sftp.RequestServer.Serve":
					ok = false
				case strings.HasSuffix(ev.Callee, ".Close"):
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}
