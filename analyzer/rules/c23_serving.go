package rules

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C23", Technique: "effect (may-block) analysis per goroutine: the accept loop, every goroutine it starts and every goroutine those start are explored with the state they are started in; channels to be serviced are tracked by identity to the goroutine that receives from them",
		Explain: "which goroutine performs each waiting operation is decided on every path, as is that every channel, channel request and connection request is taken up and answered; together with the answer rules of the request queue",
		Run:     runC23})
}

// waits: the event can wait for something other than this program's own short
// critical sections.
func waits(ev *evnt) (string, bool) {
	switch ev.Kind {
	case engine.EvRecv:
		if ev.Idx == 0 {
			return "receiving from a channel", true
		}
	case engine.EvSend:
		if ev.Idx == 0 {
			return "sending to a channel", true
		}
	case engine.EvSelect:
		if ev.Idx >= 0 && !hasDefault(ev) {
			return "a select", true
		}
	case engine.EvCall:
		n := sn(ev.Callee)
		switch {
		case in(n, "sync.Cond.Wait", "sync.WaitGroup.Wait", "time.Sleep", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Locker.Lock"),
			in(n, "ssh.NewServerConn", "ssh.DiscardRequests", "sftp.RequestServer.Serve", "sftp.Server.Serve", "ssh.Conn.Wait", "ssh.NewClientConn", "ssh.Dial", "net.Dial", "tls.Conn.Handshake"),
			in(n, "sftp.FileReader.Fileread", "sftp.FileLister.Filelist", "sftp.FileWriter.Filewrite", "sftp.FileCmder.Filecmd"),
			in(n, "io.Copy", "io.ReadAll", "ioutil.ReadAll", "io.ReadFull", "net.Conn.Read", "net.Conn.Write", "ssh.Channel.Read", "ssh.Channel.Write", "ssh.Conn.SendRequest", "ssh.Channel.SendRequest", "ssh.Conn.OpenChannel"),
			strings.HasPrefix(n, "bufio.") && n != "bufio.NewReader" && n != "bufio.NewWriter" && n != "bufio.NewScanner":
			return n, true
		}
	}
	return "", false
}

func hasDefault(ev *evnt) bool {
	s, ok := ev.Instr.(*ssa.Select)
	return ok && !s.Blocking
}

// quietConn: what may be done to a new connection without waiting for its peer.
func quietConn(n string) bool {
	return strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.") || in(n, "net.Conn.Close", "net.Conn.RemoteAddr", "net.Conn.LocalAddr",
		"net.Conn.SetDeadline", "net.Conn.SetReadDeadline", "net.Conn.SetWriteDeadline", "net.Addr.String", "net.Addr.Network") || strings.HasPrefix(n, "net.TCPConn.Set")
}

func runC23(c *Ctx) {
	const A, S, H, R, W = "accept-loop", "serviced", "channel", "request", "worker"
	c.Rule(A, "between two accepts, the accepting goroutine does nothing that can wait, starts a goroutine for every connection it got, and never ends")
	c.Rule(S, "the channels and the requests of every connection, and the requests of every session, are received from by a goroutine each until they are closed, which does nothing else that can wait")
	c.Rule(H, "every new channel is accepted or rejected, once, and a session is served on a goroutine of its own")
	c.Rule(R, "every request received is replied to once")
	c.Rule(W, "the worker gives each request one answer, which the reply channel has room for, and ends only when the queue is closed")
	mr := c.mainRes(A)
	if mr == nil {
		return
	}
	main := &thread{fn: c.P.Func("", "main"), r: mr}
	threads := append([]*thread{main}, c.spawned(A, mr, nil)...)
	accepts := 0
	for _, t := range threads {
		for _, p := range t.r.Paths {
			if len(callsOn(p, "net.Listener.Accept", "net.TCPListener.Accept", "net.TCPListener.AcceptTCP")) > 0 {
				accepts++
				c.acceptTurn(A, t, p)
			}
		}
	}
	c.Check(accepts > 0, A, main.fn.Pos(), "main", "no connection is accepted", nil)
	for _, t := range threads {
		for _, p := range t.r.Paths {
			c.connPath(S, H, threads, t, p)
			c.servePath(S, H, R, threads, t, p)
		}
	}
	m := c.requests(W)
	if m != nil {
		c.answersOnce(W, m)
	}
	c.Need(A, 4)
	c.Need(S, 3)
	c.Need(H, 3)
	c.Need(R, 2)
	c.Need(W, 20)
}

func (c *Ctx) acceptTurn(rule string, t *thread, p *path) {
	site := short(t.fn)
	var acc *evnt
	handled := false
	closeOff := func() {
		if acc == nil {
			return
		}
		err := p.R.TT.Extract(acc.Res, 1)
		if p.Eval().NonNil(err) {
			return
		}
		c.Check(handled, rule, acc.Pos, site, "a connection is accepted but no goroutine is started for it", p)
	}
	for _, ev := range p.Events {
		if evIs(ev, "net.Listener.Accept", "net.TCPListener.Accept", "net.TCPListener.AcceptTCP") {
			closeOff()
			acc, handled = ev, false
			continue
		}
		if acc == nil {
			continue
		}
		conn := p.R.TT.Extract(acc.Res, 0)
		if w, bad := waits(ev); bad {
			failed := p.EvalAt(ev).NonNil(p.R.TT.Extract(acc.Res, 1))
			c.Check(failed && w == "time.Sleep", rule, ev.Pos, site, "the accept loop waits: "+w, p)
		}
		if ev.Kind == engine.EvCall {
			for _, a := range ev.Args {
				if a != nil && mentions(a, conn) {
					c.Check(quietConn(sn(ev.Callee)), rule, ev.Pos, site, "the accept loop itself works on a connection: "+sn(ev.Callee), p)
					if sn(ev.Callee) == "net.Conn.Close" {
						handled = true
					}
				}
			}
		}
		if ev.Kind == engine.EvGo && goUses(ev, conn) {
			handled = true
			c.Pass(rule, site)
		}
	}
	if p.Exit == "cut" {
		closeOff()
	}
	if acc != nil {
		c.Check(p.Exit == "cut", rule, p.Pos, site, fmt.Sprintf("the server stops accepting connections (%s)", p.Exit), p)
	}
}

func mentions(t, x *term) bool {
	if t == nil {
		return false
	}
	hit := false
	t.Walk(func(y *term) bool {
		if y == x {
			hit = true
		}
		return !hit
	})
	return hit
}

// goUses: the goroutine gets x, as an argument or captured.
func goUses(g *evnt, x *term) bool {
	for _, a := range g.Args {
		if a != nil && mentions(a, x) {
			return true
		}
	}
	_, free := started(g)
	for _, a := range free {
		if a == nil {
			continue
		}
		if mentions(a, x) {
			return true
		}
		if v := g.Cells[a]; v != nil && mentions(v, x) {
			return true
		}
	}
	return false
}

// service looks for what receives from ch: on this path itself, or in a
// goroutine started on it.
func (c *Ctx) service(threads []*thread, t *thread, p *path, ch *term, after *evnt) (own *evnt, gos []*evnt) {
	for _, ev := range p.Events {
		if ev.Seq <= after.Seq {
			continue
		}
		switch {
		case ev.Kind == engine.EvRecv && ev.Args[0] == ch, evIs(ev, "ssh.DiscardRequests") && ev.Args[0] == ch:
			if own == nil {
				own = ev
			}
		case ev.Kind == engine.EvGo && goUses(ev, ch):
			if sn(ev.Callee) == "ssh.DiscardRequests" {
				gos = append(gos, ev)
				continue
			}
			for _, k := range threads {
				if k.g == nil || k.g.Instr != ev.Instr {
					continue
				}
				rec := false
				for _, q := range k.r.Paths {
					for _, x := range q.Events {
						if x.Kind == engine.EvRecv && x.Args[0] == ch || evIs(x, "ssh.DiscardRequests") && x.Args[0] == ch {
							rec = true
						}
					}
				}
				if rec {
					gos = append(gos, ev)
					break
				}
			}
		}
	}
	return own, gos
}

// connPath: what becomes of a connection after the handshake.
func (c *Ctx) connPath(S, H string, threads []*thread, t *thread, p *path) {
	for _, hs := range callsOn(p, "ssh.NewServerConn") {
		tt := p.R.TT
		if !p.Eval().IsNil(tt.Extract(hs.Res, 3)) {
			continue
		}
		site := short(t.fn)
		chans, reqs := tt.Extract(hs.Res, 1), tt.Extract(hs.Res, 2)
		co, cg := c.service(threads, t, p, chans, hs)
		ro, rg := c.service(threads, t, p, reqs, hs)
		c.Check(co != nil || len(cg) > 0, S, hs.Pos, site, "the channels a client opens are not taken up", p)
		c.Check(ro != nil || len(rg) > 0, S, hs.Pos, site, "the requests of a connection are not serviced", p)
		if co != nil && ro != nil {
			c.Check(false, S, ro.Pos, site, "one goroutine services both the channels and the requests of a connection, one after the other", p)
		}
		if co != nil && len(rg) > 0 {
			c.Check(rg[0].Seq < co.Seq, S, hs.Pos, site, "the requests of a connection are serviced only once its channels are finished", p)
		}
		if ro != nil && len(cg) > 0 {
			c.Check(cg[0].Seq < ro.Seq, S, hs.Pos, site, "the channels of a connection are serviced only once its requests are finished", p)
		}
		// Nothing may wait before both are serviced.
		for _, ev := range p.Events {
			if ev.Seq <= hs.Seq || ev == co || ev == ro {
				continue
			}
			if (co == nil || ev.Seq < co.Seq) && (len(rg) == 0 || ev.Seq < rg[0].Seq) && (len(cg) == 0 || ev.Seq < cg[0].Seq) && (ro == nil || ev.Seq < ro.Seq) {
				if w, bad := waits(ev); bad {
					c.Check(false, S, ev.Pos, site, "waits before the channels and requests of the connection are serviced: "+w, p)
				}
			}
		}
	}
}

// servePath: goroutines that receive from the channels of a connection.
func (c *Ctx) servePath(S, H, R string, threads []*thread, t *thread, p *path) {
	site := short(t.fn)
	tt := p.R.TT
	var last *evnt // the last receive
	kind := ""
	answers := 0
	finish := func(end *evnt) {
		if last == nil {
			return
		}
		if v, known := p.Eval().Decide(last.Ok); known && !v {
			return
		}
		switch kind {
		case "chan":
			c.Check(answers == 1, H, last.Pos, site, fmt.Sprintf("a new channel is taken up %d times", answers), p)
		case "req":
			ok := answers == 1
			if answers == 0 {
				for _, f := range p.Facts.Slice() {
					if b, is := fieldLoad(f.T, "WantReply"); is && b == last.Res && !f.Pol {
						ok = true
					}
				}
			}
			c.Check(ok, R, last.Pos, site, fmt.Sprintf("a request is replied to %d times", answers), p)
		}
	}
	var accept, serve, recvReq *evnt
	for _, ev := range p.Events {
		if ev.Kind == engine.EvRecv {
			ch := ev.Args[0]
			k := ""
			if _, ok := isRes(ch, 1, "ssh.NewServerConn"); ok {
				k = "chan"
			}
			if _, ok := isRes(ch, 2, "ssh.NewServerConn"); ok {
				k = "req"
			}
			if _, ok := isRes(ch, 1, "ssh.NewChannel.Accept"); ok {
				k = "req"
				recvReq = ev
			}
			if k != "" {
				finish(ev)
				last, kind, answers = ev, k, 0
				continue
			}
		}
		if evIs(ev, "ssh.NewChannel.Accept") {
			accept = ev
		}
		if evIs(ev, "sftp.RequestServer.Serve") {
			serve = ev
		}
		if last != nil {
			if v, known := p.EvalAt(ev).Decide(last.Ok); !(known && !v) {
				if w, bad := waits(ev); bad {
					c.Check(false, S, ev.Pos, site, "does something that can wait while servicing the channels or requests of a connection: "+w, p)
				}
				switch {
				case kind == "chan" && evIs(ev, "ssh.NewChannel.Accept", "ssh.NewChannel.Reject") && ev.Args[0] == last.Res,
					kind == "chan" && ev.Kind == engine.EvGo && goUses(ev, last.Res) && c.takesUp(H, threads, ev, last.Res),
					kind == "req" && evIs(ev, "ssh.Request.Reply") && ev.Args[0] == last.Res:
					answers++
				}
			}
		}
		// After an accepted channel: its requests.
	}
	if p.Exit == "cut" {
		finish(nil)
	}
	if last != nil && p.Exit != "cut" {
		v, known := p.Eval().Decide(last.Ok)
		c.Check(known && !v, S, p.Pos, site, fmt.Sprintf("stops servicing the channels or requests of a connection while it is open (%s)", p.Exit), p)
	}
	if accept != nil && p.Eval().IsNil(tt.Extract(accept.Res, 2)) {
		reqs := tt.Extract(accept.Res, 1)
		own, gos := c.service(threads, t, p, reqs, accept)
		c.Check(own != nil || len(gos) > 0, S, accept.Pos, site, "the requests of a session are not serviced", p)
		if serve != nil {
			c.Check(own == nil, S, accept.Pos, site, "the requests of a session are not serviced while it is served", p)
			c.Check(len(gos) > 0 && gos[0].Seq < serve.Seq, S, accept.Pos, site, "the requests of a session are serviced only once it has ended", p)
		}
		served := serve != nil
		for _, g := range p.Events {
			if g.Kind == engine.EvGo && goUses(g, tt.Extract(accept.Res, 0)) {
				served = true
			}
		}
		c.Check(served, H, accept.Pos, site, "an accepted session is not served", p)
	}
	_ = recvReq
}

// takesUp: the goroutine accepts or rejects the channel, once, on every path.
func (c *Ctx) takesUp(rule string, threads []*thread, g *evnt, nc *term) bool {
	found := false
	for _, k := range threads {
		if k.g == nil || k.g.Instr != g.Instr {
			continue
		}
		uses := false
		for _, q := range k.r.Paths {
			n := 0
			for _, x := range q.Events {
				if evIs(x, "ssh.NewChannel.Accept", "ssh.NewChannel.Reject") && x.Args[0] == nc {
					n++
				}
			}
			if n > 0 {
				uses = true
			}
		}
		if !uses {
			continue
		}
		found = true
		for _, q := range k.r.Paths {
			n := 0
			for _, x := range q.Events {
				if evIs(x, "ssh.NewChannel.Accept", "ssh.NewChannel.Reject") && x.Args[0] == nc {
					n++
				}
			}
			c.Check(n == 1 && q.Exit != "panic" && q.Exit != "exit", rule, q.Pos, short(k.fn), fmt.Sprintf("a new channel is accepted or rejected %d times (%s)", n, q.Exit), q)
		}
	}
	return found
}

// answersOnce: the queue's worker.
func (c *Ctx) answersOnce(rule string, m *reqModel) {
	site := short(m.worker)
	for _, t := range m.turns {
		if !m.real(t) {
			continue
		}
		c.Check(len(t.answers) == 1, rule, t.recv.Pos, site, fmt.Sprintf("a request is answered %d times", len(t.answers)), t.p)
		for _, ev := range t.events {
			if len(t.answers) > 0 && ev.Seq >= t.answers[0].Seq {
				break
			}
			if isFetch(ev) || evIs(ev, "sync.Cond.Wait", "time.Sleep", "sync.WaitGroup.Wait") {
				c.Check(false, rule, ev.Pos, site, "a request is left unanswered while the worker waits", t.p)
			}
		}
	}
	for _, p := range m.wr.Paths {
		if p.Exit == "cut" {
			continue
		}
		var last *evnt
		for _, ev := range p.Events {
			if ev.Kind == engine.EvRecv {
				if _, ok := workElem(ev.Args[0].T); ok {
					last = ev
				}
			}
		}
		ok := false
		if last != nil {
			v, known := p.Eval().Decide(last.Ok)
			ok = known && !v
		}
		c.Check(ok && p.Exit == "return", rule, p.Pos, site, "a worker ends although there may be more requests ("+p.Exit+")", p)
	}
	for _, x := range m.methods {
		for _, p := range x.r.Paths {
			for _, ev := range p.Events {
				switch ev.Kind {
				case engine.EvSend:
					if _, ok := workElem(ev.Args[0].T); ok {
						ch := fieldBy(ev.Args[1], isChanT)
						ok := ch != nil && ch.K == engine.KMake && len(ch.Args) > 0
						if ok {
							n, known := p.EvalAt(ev).Canon(ch.Args[0]).IntVal()
							ok = known && n >= 1
						}
						c.Check(ok, rule, ev.Pos, short(x.fn), "the reply channel has no room for the answer, so that the worker waits for a requester that may have given up", p)
						continue
					}
					c.Check(ev.Args[0].K != engine.KMake, rule, ev.Pos, short(x.fn), "a requester sends on its own reply channel", p)
				case engine.EvClose:
					c.Check(false, rule, ev.Pos, short(x.fn), "a requester closes a channel the worker sends on", p)
				}
			}
		}
	}
}
