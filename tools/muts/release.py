CF="gocrypt/configfile/config_file.go"; FT="filetree/filetree.go"; M="main.go"; PO="backend/pool.go"; PR="backend/provider.go"
def b(name,*edits): return dict(name=name,kind="bug",props=["C26"],edits=list(edits))
def r(name,*edits): return dict(name=name,kind="ref",props=[],edits=list(edits))
MUTS=[
b("tmp-after",(FT,"	defer os.Remove(f.Name())\n",""),(FT,"	return configfile.Load(f.Name())\n","	conf, err := configfile.Load(f.Name())\n	if err != nil {\n		return nil, err\n	}\n	os.Remove(f.Name())\n	return conf, nil\n")),
b("tmp-late",(FT,"	defer os.Remove(f.Name())\n",""),(FT,"	return configfile.Load(f.Name())\n","	defer os.Remove(f.Name())\n	return configfile.Load(f.Name())\n")),
b("tmp-early",(FT,"	return configfile.Load(f.Name())\n","	os.Remove(f.Name())\n	return configfile.Load(f.Name())\n")),
b("tmp-noclose",(FT,"	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n","")),
b("tmp-close-ok-only",(FT,"	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n	if err != nil {\n		return nil, err\n	}\n","	if err != nil {\n		return nil, err\n	}\n	if err = f.Close(); err != nil {\n		return nil, err\n	}\n")),
b("write-closed",(FT,"	_, err = f.Write(confBytes)\n","	f.Close()\n	_, err = f.Write(confBytes)\n")),
b("random-noclose",(CF,"	defer f.Close()\n	b := make","	b := make")),
b("conf-leak",(CF,"			fd.Close()\n			os.Remove(tmp)\n","			os.Remove(tmp)\n")),
b("conf-tmp",(CF,"			fd.Close()\n			os.Remove(tmp)\n","			fd.Close()\n")),
b("sess-ok-only",(M,"	server.Close()\n	if err == io.EOF {\n","	if err == io.EOF {\n		server.Close()\n")),
b("sess-never",(M,"	server.Close()\n","")),
b("sess-before",(M,"	err = server.Serve()\n	server.Close()\n","	server.Close()\n	err = server.Serve()\n")),
b("dial",(PO,"		sshClient.Close()\n","")),
b("rfile",(PR,"		_ = file.Close()\n","")),
b("rfile-err",(PR,"		_ = file.Close()\n","		if err == nil {\n			_ = file.Close()\n		}\n")),
b("use-closed",(PR,"		_, err = file.WriteTo(buf)\n		_ = file.Close()\n","		_ = file.Close()\n		_, err = file.WriteTo(buf)\n")),
b("conn-filter",(M,"		go handleConn(nConn","		if nConn.RemoteAddr().Network() != \"tcp\" {\n			continue\n		}\n		go handleConn(nConn")),
r("defer-close",(M,"	server.Close()\n",""),(M,"	err = server.Serve()\n","	defer server.Close()\n	err = server.Serve()\n")),
r("chan-close",(M,"	server.Close()\n",""),(M,"	logger.Println(\"Channel accepted\")\n","	defer channel.Close()\n	logger.Println(\"Channel accepted\")\n")),
r("closure-go",(M,"		go handleConn(nConn, sshConfig, reqHandlers, logger)\n","		go func() {\n			handleConn(nConn, sshConfig, reqHandlers, logger)\n		}()\n")),
r("defer-file",(PR,"		_, err = file.WriteTo(buf)\n		_ = file.Close()\n","		func() {\n			defer file.Close()\n			_, err = file.WriteTo(buf)\n		}()\n")),
r("tmp-helper",(FT,"	_, err = f.Write(confBytes)\n	if closeErr := f.Close(); err == nil {\n		err = closeErr\n	}\n	if err != nil {\n		return nil, err\n	}\n","	if err := writeAll(f, confBytes); err != nil {\n		return nil, err\n	}\n"),(FT,"func (f *FileTree) ReadFile(plain","func writeAll(f *os.File, b []byte) error {\n	defer f.Close()\n	if _, err := f.Write(b); err != nil {\n		return err\n	}\n	return f.Close()\n}\n\nfunc (f *FileTree) ReadFile(plain")),
r("tmp-name",(FT,"	defer os.Remove(f.Name())\n","	name := f.Name()\n	defer func() { _ = os.Remove(name) }()\n"),(FT,"configfile.Load(f.Name())","configfile.Load(name)")),
r("serve-helper",(M,"	server := sftp.NewRequestServer(channel, reqHandlers)\n\n	err = server.Serve()\n	server.Close()\n	if","	err = serve(channel, reqHandlers)\n	if"),(M,"","\nfunc serve(ch ssh.Channel, h sftp.Handlers) error {\n	s := sftp.NewRequestServer(ch, h)\n	defer func() { _ = s.Close() }()\n	return s.Serve()\n}\n")),
r("reject-conn",(M,"		go handleConn(nConn","		if nConn.RemoteAddr().Network() != \"tcp\" {\n			nConn.Close()\n			continue\n		}\n		go handleConn(nConn")),
]
