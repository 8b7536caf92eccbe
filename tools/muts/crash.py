N="gocrypt/nametransform/names.go"; P="gocrypt/nametransform/pad16.go"; C="gocrypt/contentenc/content.go"; H="gocrypt/contentenc/file_header.go"; D="filetree/decrypt.go"; F="filetree/filetree.go"
MUTS=[
dict(name="payload", kind="bug", props=["C14"], edits=[("main.go","				if len(req.Payload) < 4 {\n					break\n				}\n","")]),
dict(name="payload3", kind="bug", props=["C14"], edits=[("main.go","len(req.Payload) < 4","len(req.Payload) < 3")]),
dict(name="iv", kind="bug", props=["C14"], edits=[(N,"if len(iv) != DirIVLen {","if len(iv) == 0 {")]),
dict(name="iv-lt", kind="bug", props=["C14"], edits=[(N,"if len(iv) != DirIVLen {","if len(iv) < DirIVLen {")]),
dict(name="mod16", kind="bug", props=["C14"], edits=[(N,"len(bin)%aes.BlockSize != 0","len(bin)%8 != 0")]),
dict(name="long", kind="bug", props=["C14"], edits=[(N,"len(bin) > NameMax+aes.BlockSize","len(cipherName) > 16*(NameMax+aes.BlockSize)")]),
dict(name="empty", kind="bug", props=["C14"], edits=[(N,"if len(bin) == 0 {","if len(cipherName) == 0 {")]),
dict(name="block-short", kind="bug", props=["C14"], edits=[(C,"if len(ciphertext) < be.cryptoCore.IVLen {","if len(ciphertext) < cryptocore.AuthTagLen-4 {")]),
dict(name="hdr", kind="bug", props=["C14"], edits=[(H,"if len(buf) != HeaderLen {\n		return nil","if len(buf) == 0 {\n		return nil"),(D,"if len(fileBytes) <= contentenc.HeaderLen {\n		return nil, io.EOF\n	}\n	buf := fileBytes[:contentenc.HeaderLen]","if len(fileBytes) == 0 {\n		return nil, io.EOF\n	}\n	buf := fileBytes[:len(fileBytes)/2]")]),
dict(name="fileid", kind="bug", props=["C14"], edits=[(D,"if len(fileBytes) <= contentenc.HeaderLen {","if len(fileBytes) == 0 {")]),
dict(name="blocks0", kind="bug", props=["C14"], edits=[(D,"	if len(blocks) == 0 {\n		return nil, errors.New(\"file is too short to hold a block\")\n	}\n","	if len(fileBytes) == 1 {\n		return nil, errors.New(\"file is too short to hold a block\")\n	}\n")]),
dict(name="pad-max", kind="bug", props=["C14"], edits=[(P,"	if padLen >= oldLen {\n		return nil, fmt.Errorf(\"Padding too long, oldLen=%d >= padLen=%d\", oldLen, padLen)\n	}\n",""),(P,"	if padLen > aes.BlockSize {","	if padLen > 2*aes.BlockSize {")]),
dict(name="unpad-empty", kind="bug", props=["C14"], edits=[(P,"	if oldLen == 0 {\n		return nil, errors.New(\"Empty input\")\n	}\n	if oldLen%aes","	if oldLen%aes"),(N,"	if len(bin) == 0 {\n		tlog.Warn.Printf(\"DecryptName: empty input\")\n		return \"\", syscall.EBADMSG\n	}\n","")]),
dict(name="listat", kind="bug", props=["C14"], edits=[("handlers/proxy.go","if offset >= int64(len(f)) {","if offset > int64(len(f))+1 {")]),
dict(name="assert-nil", kind="bug", props=["C14"], edits=[("requester/readfile.go","	if d != nil {\n		return d.([]byte), err\n	}\n	return nil, err\n","	if d == nil {\n		return nil, err\n	}\n	b := d.([]byte)\n	return b, err\n"),("requester/readdir.go","	if d != nil {\n		return d.([]os.FileInfo), err\n	}\n	return nil, err","	return d.([]os.FileInfo), err")]),
dict(name="assert-type", kind="bug", props=["C14"], edits=[("requester/requester.go","					return fileData, nil","					return string(fileData), nil")]),
dict(name="nil-item", kind="bug", props=["C14"], edits=[(F,"	if item == nil {\n		return nil, fmt.Errorf(\"%s not found in %s\", plainName, cipherPath)\n	}\n","	if item == nil && plainName == \"\" {\n		return nil, fmt.Errorf(\"%s not found in %s\", plainName, cipherPath)\n	}\n")]),
dict(name="fatal-handler", kind="bug", props=["C14"], edits=[("main.go","		logger.Println(\"could not accept channel:\", err)","		logger.Fatalln(\"could not accept channel:\", err)")]),
dict(name="fatal-handshake", kind="bug", props=["C14"], edits=[("main.go","		logger.Println(\"failed to handshake\", err)\n		return","		log.Fatal(\"failed to handshake\", err)")]),
dict(name="accept-fatal", kind="bug", props=["C14"], edits=[("main.go","			logger.Println(\"failed to accept incoming connection\", err)\n			continue","			logger.Fatalln(\"failed to accept incoming connection\", err)")]),
dict(name="accept-return", kind="bug", props=["C14"], edits=[("main.go","			logger.Println(\"failed to accept incoming connection\", err)\n			continue","			logger.Println(\"failed to accept incoming connection\", err)\n			return")]),
dict(name="nilconn", kind="bug", props=["C14"], edits=[("backend/pool.go","		sshClient.Close()\n		return nil, fmt.Errorf(\"could not open sftp session to remote %s\", err)","		sshClient.Close()\n		return nil, nil")]),
dict(name="sftp-panic", kind="bug", props=["C14"], edits=[("handlers/decrypt.go","	return nil, fmt.Errorf(\"%s not supported. path: %s\", req.Method, req.Filepath)","	panic(\"unknown list method \" + req.Method)")]),
dict(name="make-size", kind="bug", props=["C14"], edits=[("backend/provider.go","	buf := new(bytes.Buffer)\n	file, err := c.sftpConn.Open(path)\n	if err == nil {\n","	buf := new(bytes.Buffer)\n	file, err := c.sftpConn.Open(path)\n	if err == nil {\n		if st, serr := file.Stat(); serr == nil {\n			buf = bytes.NewBuffer(make([]byte, 0, st.Size()))\n		}\n")]),
dict(name="grow-size", kind="bug", props=["C14"], edits=[("backend/provider.go","	buf := new(bytes.Buffer)\n	file, err := c.sftpConn.Open(path)\n	if err == nil {\n","	buf := new(bytes.Buffer)\n	file, err := c.sftpConn.Open(path)\n	if err == nil {\n		if st, serr := file.Stat(); serr == nil {\n			buf.Grow(int(st.Size()))\n		}\n")]),
dict(name="name-suffix", kind="bug", props=["C14"], edits=[(F,"		rName, err := f.reqCacher.DecryptName(info.Name(), iv)","		if info.Name()[0] == '.' {\n			continue\n		}\n		rName, err := f.reqCacher.DecryptName(info.Name(), iv)")]),
dict(name="sys-assert", kind="bug", props=["C14"], edits=[(F,"		newInfo := plainFileInfo{","		_ = info.Sys().(*os.File)\n		newInfo := plainFileInfo{")]),
dict(name="iv-slice", kind="bug", props=["C14"], edits=[(F,"	dirListing, err := f.reqCacher.ReadDir(cipherPath)","	iv = iv[:16]\n	dirListing, err := f.reqCacher.ReadDir(cipherPath)")]),
dict(name="recursion", kind="bug", props=["C14"], edits=[(F,"	cipherParentPath, err := f.findPath(plainParentPath)","	if len(plainDirName) > 255 {\n		return f.findPath(cleanPath)\n	}\n	cipherParentPath, err := f.findPath(plainParentPath)")]),
dict(name="goroutine-panic", kind="bug", props=["C14"], edits=[("requester/requester.go","		case workNone:\n","		case workNone:\n		default:\n			panic(\"bad request\")\n"),("requester/makerequest.go","			requestType: requestType,\n","			requestType: workType(len(arg1) % 256),\n")]),
dict(name="nil-err", kind="bug", props=["C14"], edits=[(F,"	if err != nil {\n		return statErr(fmt.Sprintf(\"error running stat on path: %s\", err))\n	}\n","	if os.IsPermission(err) {\n		return statErr(fmt.Sprintf(\"error running stat on path: %s\", err))\n	}\n")]),
dict(name="err-method", kind="bug", props=["C14"], edits=[(F,"	item, err := f.findInDir(cipherDirPath, plainFileName)\n	if err != nil {\n		return readFileErr(err.Error())\n	}","	item, err := f.findInDir(cipherDirPath, plainFileName)\n	if item == nil || item.IsDir() {\n		return readFileErr(err.Error())\n	}")]),
dict(name="nonce12", kind="bug", props=["C14"], edits=[(C,"nonce := ciphertext[:be.cryptoCore.IVLen]","nonce := ciphertext[:12]")]),
dict(name="siv12", kind="bug", props=["C14"], edits=[("gocrypt/cryptocore/cryptocore.go","		if IVLen != 16 {\n			// SIV","		if IVLen > 16 {\n			// SIV")]),
dict(name="lastblock", kind="bug", props=["C14"], edits=[(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)","	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext[:plainLength])")]),
dict(name="concat", kind="bug", props=["C14"], edits=[(H,"	h.ID = buf[headerVersionLen:]","	h.ID = bytes.TrimRight(buf[headerVersionLen:], \"\\x00\")")]),
dict(name="sivopen-len", kind="bug", props=["C14"], edits=[("gocrypt/siv_aead/siv_aead.go","	dec, err := siv.Decrypt(s.key, ciphertext, associated)","	if ciphertext[0] == 0 && len(ciphertext) == 1 {\n		return nil, errors.New(\"short\")\n	}\n	dec, err := siv.Decrypt(s.key, ciphertext, associated)"),("gocrypt/siv_aead/siv_aead.go","import (\n","import (\n	\"errors\"\n")]),
# refactorings
dict(name="r-payload", kind="ref", props=["C14"], edits=[("main.go","				if len(req.Payload) < 4 {\n					break\n				}\n				logger.Printf(\"Subsystem: %s\\n\", req.Payload[4:])\n				if string(req.Payload[4:]) == \"sftp\" {\n					ok = true\n				}\n","				if p := req.Payload; len(p) >= 4 {\n					name := string(p[4:])\n					logger.Printf(\"Subsystem: %s\\n\", name)\n					ok = name == \"sftp\"\n				}\n")]),
dict(name="r-helper", kind="ref", props=["C14"], edits=[("main.go","				if len(req.Payload) < 4 {\n					break\n				}\n				logger.Printf(\"Subsystem: %s\\n\", req.Payload[4:])\n				if string(req.Payload[4:]) == \"sftp\" {\n					ok = true\n				}\n","				name, valid := subsystemName(req.Payload)\n				if !valid {\n					break\n				}\n				logger.Printf(\"Subsystem: %s\\n\", name)\n				ok = name == \"sftp\"\n"),("main.go","","\nfunc subsystemName(payload []byte) (string, bool) {\n	if len(payload) < 4 {\n		return \"\", false\n	}\n	return string(payload[4:]), true\n}\n")]),
dict(name="r-validate", kind="ref", props=["C14"], edits=[(N,"	if len(bin) == 0 {\n		tlog.Warn.Printf(\"DecryptName: empty input\")\n		return \"\", syscall.EBADMSG\n	}\n	if len(bin)%aes.BlockSize != 0 {\n		tlog.Debug.Printf(\"DecryptName %q: decoded length %d is not a multiple of 16\", cipherName, len(bin))\n		return \"\", syscall.EBADMSG\n	}\n","	if !validLen(len(bin)) {\n		return \"\", syscall.EBADMSG\n	}\n"),(N,"","\nfunc validLen(n int) bool {\n	return n > 0 && n%aes.BlockSize == 0\n}\n")]),
dict(name="r-pad-slice", kind="ref", props=["C14"], edits=[(P,"	for i := oldLen - padLen; i < oldLen; i++ {\n		if padded[i] != padByte {\n			return nil, fmt.Errorf(\"Padding byte at i=%d is invalid\", i)\n		}\n	}\n	newLen := oldLen - padLen\n	return padded[0:newLen], nil","	newLen := oldLen - padLen\n	for i, b := range padded[newLen:] {\n		if b != padByte {\n			return nil, fmt.Errorf(\"Padding byte at i=%d is invalid\", newLen+i)\n		}\n	}\n	return padded[:newLen], nil")]),
dict(name="r-listat", kind="ref", props=["C14"], edits=[("handlers/proxy.go","	var n int\n	if offset >= int64(len(f)) {\n		return 0, io.EOF\n	}\n	n = copy(ls, f[offset:])\n","	if int64(len(f)) <= offset {\n		return 0, io.EOF\n	}\n	rest := f[offset:]\n	n := copy(ls, rest)\n")]),
dict(name="r-assert-ok", kind="ref", props=["C14"], edits=[("requester/readfile.go","	if d != nil {\n		return d.([]byte), err\n	}\n	return nil, err\n","	data, _ := d.([]byte)\n	return data, err\n")]),
dict(name="r-hdr", kind="ref", props=["C14"], edits=[(H,"	h.ID = buf[headerVersionLen:]","	h.ID = buf[headerVersionLen:HeaderLen]")]),
dict(name="r-readfile-early", kind="ref", props=["C14"], edits=[("backend/provider.go","	file, err := c.sftpConn.Open(path)\n	if err == nil {\n		_, err = file.WriteTo(buf)\n		_ = file.Close()\n	}\n","	err = c.fetch(path, buf)\n"),("backend/provider.go","","\nfunc (c *conn) fetch(path string, buf *bytes.Buffer) error {\n	file, err := c.sftpConn.Open(path)\n	if err != nil {\n		return err\n	}\n	defer file.Close()\n	_, err = file.WriteTo(buf)\n	return err\n}\n")]),
dict(name="r-blockloop", kind="ref", props=["C14"], edits=[(C,"	cBuf := bytes.NewBuffer(ciphertext)\n",""),(C,"	for cBuf.Len() > 0 {\n		cBlock := cBuf.Next(int(be.cipherBS))\n","	for len(ciphertext) > 0 {\n		n := int(be.cipherBS)\n		if n > len(ciphertext) {\n			n = len(ciphertext)\n		}\n		cBlock := ciphertext[:n]\n		ciphertext = ciphertext[n:]\n")]),
dict(name="r-split", kind="ref", props=["C14"], edits=[(C,"	nonce := ciphertext[:be.cryptoCore.IVLen]\n","	nonceLen := be.cryptoCore.IVLen\n	nonce := ciphertext[:nonceLen]\n"),(C,"	ciphertext = ciphertext[be.cryptoCore.IVLen:]\n","	ciphertext = ciphertext[nonceLen:]\n")]),
dict(name="r-fileid-inline", kind="ref", props=["C14"], edits=[(D,"	if len(fileBytes) <= contentenc.HeaderLen {\n		return nil, io.EOF\n	}\n	buf := fileBytes[:contentenc.HeaderLen]\n	h, err := contentenc.ParseHeader(buf)\n","	if n := len(fileBytes); n < contentenc.HeaderLen+1 {\n		return nil, io.EOF\n	}\n	h, err := contentenc.ParseHeader(fileBytes[:contentenc.HeaderLen])\n")]),
dict(name="r-find-flag", kind="ref", props=["C14"], edits=[(F,"	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {\n		if plainName == decryptedName {\n			item = info\n			return true\n		}\n		return false\n	})","	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {\n		if plainName != decryptedName {\n			return false\n		}\n		item = info\n		return true\n	})")]),
dict(name="r-pool-get", kind="ref", props=["C14"], edits=[("backend/pool.go","	case c := <-p.conns:\n		if c == nil {\n			return nil, errors.New(\"pool is closed\")\n		}\n		return c, nil\n","	case c, ok := <-p.conns:\n		if !ok || c == nil {\n			return nil, errors.New(\"pool is closed\")\n		}\n		return c, nil\n")]),
dict(name="r-prealloc", kind="ref", props=["C14"], edits=[(F,"		listing = append(listing, newInfo)\n","		if listing == nil {\n			listing = make([]os.FileInfo, 0, 64)\n		}\n		listing = append(listing, newInfo)\n")]),
]
