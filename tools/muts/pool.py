PO="backend/pool.go"; PR="backend/provider.go"
SRC=open("/repo/"+PR).read()
HEAD=SRC[:SRC.index("// ReadFile acquires")]
def b(name,*edits): return dict(name=name,kind="bug",props=["C13"],edits=list(edits))
def r(name,*edits): return dict(name=name,kind="ref",props=[],edits=list(edits))
RD='''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
'''
ST=RD.replace("listing","stat").replace("ReadDir","Stat")
def rd(new): return (PR,RD,new)
def body(a,b_): return SRC[SRC.index(a):]
MUTS=[
b("noreply",rd(RD.replace('"ping", true','"ping", false'))),
b("put-before-use",rd('''	p.p.Put(c)
	listing, err := c.sftpConn.ReadDir(path)
	return listing, err
''')),
b("leak-on-err",rd(RD.replace("\t\tif sshErr != nil {\n\t\t\tc.Close()\n\t\t} else {\n\t\t\tp.p.Put(c)\n\t\t}\n","\t\tif sshErr == nil {\n\t\t\tp.p.Put(c)\n\t\t}\n"))),
b("noping",rd('''	listing, err := c.sftpConn.ReadDir(path)
	p.p.Put(c)
	return listing, err
''')),
b("defer-put",rd('''	defer p.p.Put(c)
	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		}
		return nil, err
	}
	return listing, nil
''')),
b("ping-inverted",rd(RD.replace("sshErr != nil","sshErr == nil"))),
b("close-only-sftp",(PO,"	if c.sshConn != nil {\n\t\t_ = c.sshConn.Close()\n\t}\n","")),
b("put-drop",(PO,"\tdefault:\n\t\tc.Close()\n\t}","\tdefault:\n\t}")),
b("put-block",(PO,"	select {\n	case p.conns <- c:\n	default:\n		c.Close()\n	}\n","	p.conns <- c\n")),
b("dial-leak",(PO,"		sshClient.Close()\n","")),
b("newclient-err",(PO,"		sshClient.Close()\n		return nil, fmt.Errorf(\"could not open sftp session to remote %s\", err)\n","		return &conn{sshConn: sshClient}, nil\n")),
b("close-after-put",(PR,"		_, err = file.WriteTo(buf)\n		_ = file.Close()\n	}\n	if err","		_, err = file.WriteTo(buf)\n		defer file.Close()\n	}\n	if err")),
b("get-peek",(PO,"		return c, nil\n	default","		p.Put(c)\n		return c, nil\n	default")),
b("last-field",(PR,"type Provider struct {\n\tp *pool\n","type Provider struct {\n\tp *pool\n\tlast *conn\n"),(PR,"	stat, err := c","	p.last = c\n	stat, err := c")),
b("stat-unowned",(PR,"	listing, err := c","	if len(path) == 0 {\n\t\tc2, err := p.p.Get()\n\t\tif err == nil {\n\t\t\tc2.sftpConn.Stat(path)\n\t\t}\n\t}\n	listing, err := c")),
b("go-close",(PR,"	listing, err := c","	go c.sftpConn.Stat(path)\n	listing, err := c")),
b("exists-noping",rd(RD.replace("	if err != nil {\n","	if os.IsPermission(err) {\n\t\tp.p.Put(c)\n\t\treturn nil, err\n\t}\n	if err != nil {\n"))),
b("retry-reuse",rd(RD.replace("			p.p.Put(c)\n		}\n","			p.p.Put(c)\n			if listing, err = c.sftpConn.ReadDir(path); err == nil {\n				return listing, nil\n			}\n		}\n"))),
b("ping-then-retry",rd(RD.replace("			p.p.Put(c)\n		}\n","			listing, err = c.sftpConn.ReadDir(path)\n			p.p.Put(c)\n		}\n"))),
r("release-helper",rd('''	listing, err := c.sftpConn.ReadDir(path)
	p.release(c, err)
	if err != nil {
		return nil, err
	}
	return listing, nil
'''),(PR,ST,'''	stat, err := c.sftpConn.Stat(path)
	defer p.release(c, err)
	if err != nil {
		return nil, err
	}
	return stat, nil
'''),(PR,"",'''
func (p *Provider) release(c *conn, err error) {
	if err != nil {
		if !c.alive() {
			c.Close()
			return
		}
	}
	p.p.Put(c)
}

func (c *conn) alive() bool {
	_, _, err := c.sshConn.SendRequest("keepalive@openssh.com", true, nil)
	return err == nil
}
''')),
r("with-conn",rd('''	var listing []os.FileInfo
	err = use(p.p, c, func(c *conn) error {
		var err error
		listing, err = c.sftpConn.ReadDir(path)
		return err
	})
	if err != nil {
		return nil, err
	}
	return listing, nil
'''),(PR,"",'''
func use(p *pool, c *conn, f func(c *conn) error) error {
	err := f(c)
	if err == nil {
		p.Put(c)
		return nil
	}
	if _, _, e := c.sshConn.SendRequest("ping", true, nil); e == nil {
		p.Put(c)
	} else {
		c.Close()
	}
	return err
}
''')),
r("close-order",(PO,"	if c.sshConn != nil {\n\t\t_ = c.sshConn.Close()\n\t}\n	if c.sftpConn != nil {\n\t\t_ = c.sftpConn.Close()\n\t}\n","	if c.sftpConn != nil {\n\t\t_ = c.sftpConn.Close()\n\t}\n	if c.sshConn != nil {\n\t\t_ = c.sshConn.Close()\n\t}\n")),
r("always-close-on-err",rd(RD.replace('''		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
''','		c.Close()\n'))),
r("drain",(PO,"",'''
func (p *pool) Drain() {
	for {
		select {
		case c := <-p.conns:
			if c != nil {
				c.Close()
			}
		default:
			return
		}
	}
}
'''),(PR,"","\n// Close closes idle connections.\nfunc (p *Provider) Close() { p.p.Drain() }\n")),
r("if-else",(PR,'''	if err == nil {
		_, err = file.WriteTo(buf)
		_ = file.Close()
	}
''','''	if err != nil {
		goto fail
	}
	_, err = file.WriteTo(buf)
	_ = file.Close()
fail:
''')),
r("io-copy",(PR,"		_, err = file.WriteTo(buf)\n","		_, err = io.Copy(buf, file)\n"),(PR,'	"bytes"\n','	"bytes"\n	"io"\n')),
]
