M="main.go"; RQ="requester/requester.go"; MK="requester/makerequest.go"
HS='''	_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
	if err != nil {
		logger.Println("failed to handshake", err)
		return
	}
'''
MUTS=[
dict(name="sync-handshake", kind="bug", props=["C23"], edits=[(M,"		go handleConn(nConn, sshConfig, reqHandlers, logger)","		handleConn(nConn, sshConfig, reqHandlers, logger)")]),
dict(name="handshake-in-loop", kind="bug", props=["C23"], edits=[(M,"		go handleConn(nConn, sshConfig, reqHandlers, logger)",'''		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
		if err != nil {
			continue
		}
		go ssh.DiscardRequests(reqs)
		go handleChannels(chans, reqHandlers, logger)'''),(M,"func handleConn(","func handleConnOld(")]),
dict(name="sem", kind="bug", props=["C23"], edits=[(M,"		go handleConn(nConn, sshConfig, reqHandlers, logger)",'''		sem <- struct{}{}
		go func(c net.Conn) {
			handleConn(c, sshConfig, reqHandlers, logger)
			<-sem
		}(nConn)'''),(M,"	for {\n		nConn, err","	sem := make(chan struct{}, 64)\n	for {\n		nConn, err")]),
dict(name="accept-fatal", kind="bug", props=["C23"], edits=[(M,'''			logger.Println("failed to accept incoming connection", err)
			continue''','''			log.Fatal("failed to accept incoming connection", err)''')]),
dict(name="accept-return", kind="bug", props=["C23"], edits=[(M,'''			logger.Println("failed to accept incoming connection", err)
			continue''','''			logger.Println("failed to accept incoming connection", err)
			return''')]),
dict(name="no-discard", kind="bug", props=["C23"], edits=[(M,"	go ssh.DiscardRequests(reqs)\n","	_ = reqs\n")]),
dict(name="sync-discard", kind="bug", props=["C23"], edits=[(M,"	go ssh.DiscardRequests(reqs)\n","	ssh.DiscardRequests(reqs)\n")]),
dict(name="discard-after", kind="bug", props=["C23"], edits=[(M,"	go ssh.DiscardRequests(reqs)\n\n	handleChannels(chans, reqHandlers, logger)\n","	handleChannels(chans, reqHandlers, logger)\n	go ssh.DiscardRequests(reqs)\n")]),
dict(name="sync-channel", kind="bug", props=["C23"], edits=[(M,"		go handleChannel(newChannel, reqHandlers, logger)","		handleChannel(newChannel, reqHandlers, logger)")]),
dict(name="first-channel-only", kind="bug", props=["C23"], edits=[(M,"		go handleChannel(newChannel, reqHandlers, logger)","		handleChannel(newChannel, reqHandlers, logger)\n		return")]),
dict(name="no-reject", kind="bug", props=["C23"], edits=[(M,'''		_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")
''','')]),
dict(name="reply-only-ok", kind="bug", props=["C23"], edits=[(M,"			_ = req.Reply(ok, nil)","			if ok {\n				_ = req.Reply(ok, nil)\n			}")]),
dict(name="req-loop-return", kind="bug", props=["C23"], edits=[(M,"			_ = req.Reply(ok, nil)","			_ = req.Reply(ok, nil)\n			if ok {\n				return\n			}")]),
dict(name="req-short-return", kind="bug", props=["C23"], edits=[(M,'''				if len(req.Payload) < 4 {
					break
				}''','''				if len(req.Payload) < 4 {
					return
				}''')]),
dict(name="req-sync", kind="bug", props=["C23"], edits=[(M,"	go func(in <-chan *ssh.Request) {","	func(in <-chan *ssh.Request) {")]),
dict(name="unbuffered", kind="bug", props=["C23"], edits=[(MK,"make(chan *workTicket, 1)","make(chan *workTicket)")]),
dict(name="double-answer", kind="bug", props=["C23"], edits=[(RQ,"		wt.cv.Broadcast()\n","		wt.cv.Broadcast()\n		if err != nil {\n			close(responseCh)\n		}\n")]),
dict(name="requester-closes", kind="bug", props=["C23"], edits=[(MK,"		case <-time.After(20 * time.Second):\n","		case <-time.After(20 * time.Second):\n			close(respChan)\n")]),
dict(name="worker-ends", kind="bug", props=["C23"], edits=[(RQ,"		case workNone:\n		}","		case workNone:\n			return\n		default:\n			return\n		}")]),
dict(name="wait-close", kind="bug", props=["C23"], edits=[(M,HS,HS.replace("_, chans","sc, chans")+"	defer func() { _ = sc.Wait() }()\n	if err := sc.Wait(); err != nil {\n		return\n	}\n")]),
dict(name="reject-and-go", kind="bug", props=["C23"], edits=[(M,"		go handleChannel(newChannel, reqHandlers, logger)",'''		if newChannel.ChannelType() != "session" {
			_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")
		}
		go handleChannel(newChannel, reqHandlers, logger)''')]),
# refactorings
dict(name="r-closure-go", kind="ref", props=["C23"], edits=[(M,"		go handleConn(nConn, sshConfig, reqHandlers, logger)","		go func(c net.Conn) {\n			handleConn(c, sshConfig, reqHandlers, logger)\n		}(nConn)")]),
dict(name="r-serve-func", kind="ref", props=["C23"], edits=[(M,'''	for {
		nConn, err := listener.Accept()
		if err != nil {
			logger.Println("failed to accept incoming connection", err)
			continue
		}
		go handleConn(nConn, sshConfig, reqHandlers, logger)
	}
}
''','''	serve(listener, sshConfig, reqHandlers, logger)
}

func serve(l net.Listener, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
	for {
		conn, err := l.Accept()
		if err == nil {
			go handleConn(conn, sshConfig, reqHandlers, logger)
			continue
		}
		logger.Println("failed to accept incoming connection", err)
	}
}
''')]),
dict(name="r-accept-in-loop", kind="ref", props=["C23"], edits=[(M,"		go handleChannel(newChannel, reqHandlers, logger)",'''		if newChannel.ChannelType() != "session" {
			_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")
			continue
		}
		go handleChannel(newChannel, reqHandlers, logger)'''),(M,'''	if newChannel.ChannelType() != "session" {
		_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")
		logger.Printf("Unknown channel type: %s\\n", newChannel.ChannelType())
		return
	}
	channel, requests''','''	channel, requests''')]),
dict(name="r-named-requests", kind="ref", props=["C23"], edits=[(M,"	go func(in <-chan *ssh.Request) {\n","	go serveRequests(requests, logger)\n\n	server := sftp.NewRequestServer(channel, reqHandlers)\n\n	err = server.Serve()\n	server.Close()\n	if err == io.EOF {\n		logger.Println(\"sftp client exited session.\")\n	} else if err != nil {\n		logger.Println(\"sftp server completed with error:\", err)\n	}\n}\n\nfunc serveRequests(in <-chan *ssh.Request, logger *log.Logger) {\n"),(M,'''	}(requests)

	server := sftp.NewRequestServer(channel, reqHandlers)

	err = server.Serve()
	server.Close()
	if err == io.EOF {
		logger.Println("sftp client exited session.")
	} else if err != nil {
		logger.Println("sftp server completed with error:", err)
	}
}''',"}")]),
dict(name="r-inline-channels", kind="ref", props=["C23"], edits=[(M,"	handleChannels(chans, reqHandlers, logger)\n",'''	for {
		newChannel, ok := <-chans
		if !ok {
			break
		}
		go handleChannel(newChannel, reqHandlers, logger)
	}
''')]),
dict(name="r-wantreply", kind="ref", props=["C23"], edits=[(M,"			_ = req.Reply(ok, nil)","			if req.WantReply {\n				_ = req.Reply(ok, nil)\n			}")]),
dict(name="r-isSftp", kind="ref", props=["C23"], edits=[(M,'''			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
''','''			ok := isSFTP(req)
'''),(M,"func handleChannel(",'''func isSFTP(req *ssh.Request) bool {
	return req.Type == "subsystem" && len(req.Payload) >= 4 && string(req.Payload[4:]) == "sftp"
}

func handleChannel(''')]),
dict(name="r-accept-backoff", kind="ref", props=["C23"], edits=[(M,'''			logger.Println("failed to accept incoming connection", err)
			continue''','''			logger.Println("failed to accept incoming connection", err)
			time.Sleep(10 * time.Millisecond)
			continue'''),(M,'	"os"\n','	"os"\n	"time"\n')]),
]
