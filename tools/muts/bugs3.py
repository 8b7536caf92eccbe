MUTS = []
def bug(name, props, *edits):
    MUTS.append(dict(name=name, kind="bug", props=props.split(), edits=list(edits)))
def ref(name, props, *edits):
    MUTS.append(dict(name=name, kind="ref", props=[], edits=list(edits)))
H="handlers/decrypt.go"; M="main.go"; CF="gocrypt/configfile/config_file.go"; SC="gocrypt/configfile/scrypt.go"; FF="gocrypt/configfile/feature_flags.go"
NM="gocrypt/nametransform/names.go"; PD="gocrypt/nametransform/pad16.go"; FT="filetree/filetree.go"; FC="filetree/fastcache.go"; BP="backend/provider.go"; PO="backend/pool.go"
CE="gocrypt/contentenc/content.go"; RQ="requester/requester.go"; MR="requester/makerequest.go"; DC="filetree/decrypt.go"; CC="gocrypt/cryptocore/cryptocore.go"; CG="config/config.go"

# C03
bug("w-create","C03",(BP,"c.sftpConn.Open(path)","c.sftpConn.OpenFile(path, os.O_RDONLY|os.O_CREATE)"))
bug("w-discard","C03",(H,"func (p *decrypt) Filewrite(req *sftp.Request) (io.WriterAt, error) {\n","type sink struct{}\n\nfunc (sink) WriteAt(b []byte, off int64) (int, error) { return len(b), nil }\n\nfunc (p *decrypt) Filewrite(req *sftp.Request) (io.WriterAt, error) {\n	if len(req.Filepath) > 4 && req.Filepath[len(req.Filepath)-4:] == \".swp\" {\n		return sink{}, nil\n	}\n"))
bug("w-readlink","C03",(H,"		return nil, fmt.Errorf(\"ReadLink not","		if fileInfo, err := p.ft.Stat(req.Filepath); err == nil {\n			return listerat([]os.FileInfo{fileInfo}), nil\n		}\n		return nil, fmt.Errorf(\"ReadLink not"))
bug("w-remove-missing","C03",(H,"		return fmt.Errorf(\"Removing not","		if _, err := p.ft.Stat(req.Filepath); err != nil {\n			return nil // already gone\n		}\n		return fmt.Errorf(\"Removing not"))
bug("w-same-rename","C03",(H,"		return fmt.Errorf(\"Renaming not","		if req.Filepath == req.Target {\n			return nil\n		}\n		return fmt.Errorf(\"Renaming not"))
bug("w-map","C03",(H,"	return fmt.Errorf(\"%s not supported. path: %s\", req.Method, req.Filepath)\n}\n\nfunc (p *decrypt) Filelist","	if req.Method == \"\" || req.Target != \"\" {\n		return nil\n	}\n	return fmt.Errorf(\"%s not supported. path: %s\", req.Method, req.Filepath)\n}\n\nfunc (p *decrypt) Filelist"))
bug("w-inmem","C03",(H,"		FilePut:  h,","		FilePut:  sftp.InMemHandler().FilePut,"))
bug("w-touch","C03",(BP,"	stat, err := c.sftpConn.Stat(path)\n	if err != nil {","	stat, err := c.sftpConn.Stat(path)\n	if err == nil {\n		_ = c.sftpConn.Chtimes(path, stat.ModTime(), stat.ModTime())\n	}\n	if err != nil {"))
bug("w-lstat","C03 C21",(H,"	case \"Readlink\":","	case \"Lstat\", \"Readlink\":\n		if req.Method == \"Lstat\" {\n			return listerat(nil), nil\n		}"))
# C04
bug("a-prefix","C04",(M,"string(pass) == cfg.ProxyPassword","len(pass) >= len(cfg.ProxyPassword) && string(pass[:len(cfg.ProxyPassword)]) == cfg.ProxyPassword"))
bug("a-or","C04",(M,"if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {","if string(pass) == cfg.ProxyUser+cfg.ProxyPassword || c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {"))
bug("a-noauth-debug","C04",(M,"	sshConfig := &ssh.ServerConfig{\n","	sshConfig := &ssh.ServerConfig{\n		NoClientAuth: debugStderr,\n"))
bug("a-pubkey","C04",(M,"	sshConfig.AddHostKey(private)\n","	sshConfig.AddHostKey(private)\n	sshConfig.PublicKeyCallback = func(c ssh.ConnMetadata, key ssh.PublicKey) (*ssh.Permissions, error) {\n		if c.User() == cfg.ProxyUser && string(key.Marshal()) == string(private.PublicKey().Marshal()) {\n			return nil, nil\n		}\n		return nil, fmt.Errorf(\"unknown key\")\n	}\n"))
bug("a-third-try","C04",(M,"	sshConfig := &ssh.ServerConfig{\n","	failures := map[string]int{}\n	sshConfig := &ssh.ServerConfig{\n"),
  (M,"			return nil, fmt.Errorf(\"password rejected for %q\", c.User())\n","			failures[c.User()]++\n			if failures[c.User()] < 0 {\n				return nil, nil\n			}\n			return nil, fmt.Errorf(\"password rejected for %q\", c.User())\n"))
bug("a-remember","C04",(M,"	sshConfig := &ssh.ServerConfig{\n","	seen := make(chan string, 1)\n	sshConfig := &ssh.ServerConfig{\n"),
  (M,"				return nil, nil\n			}\n","				select {\n				case seen <- string(c.SessionID()):\n				default:\n				}\n				return nil, nil\n			}\n			select {\n			case s := <-seen:\n				if s == string(c.SessionID()) {\n					return nil, nil\n				}\n			default:\n			}\n"))
bug("a-fold","C04",(M,"c.User() == cfg.ProxyUser &&","strings.EqualFold(c.User(), cfg.ProxyUser) &&"),(M,"	\"os\"\n\n","	\"os\"\n	\"strings\"\n\n"))
bug("a-tag","C04",(CG,"ProxyPassword  string `validate:\"required\"`","ProxyPassword  string `validate:\"omitempty\"`"))
bug("a-validate-partial","C04",(CG,"	return validate.Struct(c)","	return validate.StructPartial(c, \"ProxyUser\", \"KnownHostsPath\", \"Remote\")"))
bug("a-validate-debug","C04",(M,"		log.Fatalln(\"invalid config file:\", err)","		if !debugStderr {\n			log.Fatalln(\"invalid config file:\", err)\n		}"))
bug("a-hash-trunc","C04",(M,"string(pass) == cfg.ProxyPassword","fmt.Sprintf(\"%.72s\", pass) == fmt.Sprintf(\"%.72s\", cfg.ProxyPassword)"))
bug("a-partial-banner","C04",(M,"	sshConfig.AddHostKey(private)\n","	sshConfig.AddHostKey(private)\n	sshConfig.KeyboardInteractiveCallback = func(c ssh.ConnMetadata, ask ssh.KeyboardInteractiveChallenge) (*ssh.Permissions, error) {\n		a, err := ask(\"\", \"\", []string{\"Password: \"}, []bool{false})\n		if err != nil {\n			return nil, err\n		}\n		for _, x := range a {\n			if perm, err := sshConfig.PasswordCallback(c, []byte(x)); err != nil {\n				return perm, err\n			}\n		}\n		return nil, nil\n	}\n"))
# C05
bug("k-fallback","C05",(M,"	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)\n	if err != nil {\n","	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)\n	if os.IsNotExist(err) {\n		hostKeyCallback, err = func(string, net.Addr, ssh.PublicKey) error { return nil }, nil\n	}\n	if err != nil {\n"))
bug("k-retry-insecure","C05",(PO,"	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n","	sshClient, err := ssh.Dial(\"tcp\", remoteAddr, clientConfig)\n	if err != nil {\n		relaxed := *clientConfig\n		relaxed.HostKeyCallback = ssh.InsecureIgnoreHostKey()\n		sshClient, err = ssh.Dial(\"tcp\", remoteAddr, &relaxed)\n	}\n"))
bug("k-local","C05",(M,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(hostname string, addr net.Addr, key ssh.PublicKey) error {\n			if tcp, ok := addr.(*net.TCPAddr); ok && tcp.IP.IsLoopback() {\n				return nil\n			}\n			return hostKeyCallback(hostname, addr, key)\n		},\n"))
bug("k-addr","C05",(M,"backend.NewProvider(cfg.Remote.Addr, clientConfig","backend.NewProvider(remoteAddr(cfg), clientConfig"),(M,"func handleConn(","func remoteAddr(cfg *config.Config) string {\n	if a := os.Getenv(\"GOCRYPTSFTP_REMOTE\"); a != \"\" {\n		return a\n	}\n	return cfg.Remote.Addr\n}\n\nfunc handleConn("))
bug("k-user","C05",(M,"User: cfg.Remote.User,","User: cfg.ProxyUser,"))
bug("k-path","C05",(M,"knownhosts.New(cfg.KnownHostsPath)","knownhosts.New(cfg.KnownHostsPath, os.ExpandEnv(\"$HOME/.ssh/known_hosts\"))"))
bug("k-password","C05",(M,"			ssh.PublicKeys(private),\n","			ssh.PublicKeys(private),\n			ssh.Password(cfg.ProxyPassword),\n"))
bug("k-name","C05",(M,"		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(_ string, addr net.Addr, key ssh.PublicKey) error {\n			return hostKeyCallback(addr.String(), addr, key)\n		},\n"))
# C06
bug("f-version","C06",(CF,"	if cf.Version != contentenc.CurrentVersion {","	if cf.Version < contentenc.CurrentVersion {"))
bug("f-contains","C06",(FF,"	for _, flag := range cf.FeatureFlags {\n		if flag == flagString {","	for _, flag := range cf.FeatureFlags {\n		if strings.HasPrefix(flag, flagString) {"),(FF,"package configfile\n","package configfile\n\nimport \"strings\"\n"))
bug("f-last","C06",(CF,"			deprecatedFs = true\n","			deprecatedFs = i != FlagDirIV\n"))
bug("f-overwrite","C06",(CF,"		if !cf.IsFeatureFlagSet(i) {\n","		deprecatedFs = !cf.IsFeatureFlagSet(i)\n		if !cf.IsFeatureFlagSet(i) {\n"))
bug("f-plain-req","C06",(FF,"var requiredFlagsPlaintextNames = []flagIota{\n	FlagGCMIV128,\n}","var requiredFlagsPlaintextNames = []flagIota{}"))
bug("f-extra-known","C06",(FF,"	FlagTrezor:         \"Trezor\",","	FlagTrezor:         \"Trezor\",\n	FlagTrezor + 1:     \"XChaCha20Poly1305\","))
bug("f-hkdf-siv","C06",(FT,"	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)","	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF) || cryptoBackend == cryptocore.BackendAESSIV"))
bug("f-swap","C06",(FT,"nametransform.New(cCore.EMECipher, longNames, raw64)","nametransform.New(cCore.EMECipher, raw64, longNames)"))
bug("f-first-unknown","C06",(CF,"	for _, flag := range cf.FeatureFlags {\n		if !cf","	for n, flag := range cf.FeatureFlags {\n		if n > len(knownFlags) {\n			break\n		}\n		if !cf"))
bug("f-empty-flag","C06",(CF,"		if !cf.isFeatureFlagKnown(flag) {","		if flag != \"\" && !cf.isFeatureFlagKnown(flag) {"))
bug("f-nokey","C06",(CF,"	if cf.Version != contentenc.CurrentVersion {","	if len(cf.EncryptedKey) > 0 && cf.Version != contentenc.CurrentVersion {"))
# C07
bug("s-noexit","C07",(SC,"value=%d, min=%d\", s.R, scryptMinR)\n		os.Exit(exitcodes.ScryptParams)","value=%d, min=%d\", s.R, scryptMinR)\n		if s.R <= 0 {\n			os.Exit(exitcodes.ScryptParams)\n		}"))
bug("s-after","C07",(SC,"	s.validateParams()\n\n	k, err","	k, err"),(SC,"		log.Panicf(\"DeriveKey failed: %v\", err)\n	}\n","		log.Panicf(\"DeriveKey failed: %v\", err)\n	}\n	s.validateParams()\n"))
bug("s-bign","C07",(SC,"	minN := 1 << scryptMinLogN\n","	minN := 1 << scryptMinLogN\n	if s.N >= minN<<8 {\n		return // strong enough in any case\n	}\n"))
bug("s-product","C07",(SC,"	if s.N < minN {","	if s.N*s.R < minN*scryptMinR {"))
bug("s-salt","C07",(SC,"	scryptMinSaltLen = 32","	scryptMinSaltLen = 16"))
bug("s-keylen","C07",(SC,"	if s.KeyLen < cryptocore.KeyLen {","	if s.KeyLen < cryptocore.KeyLen/2 {"))
bug("s-newr","C07",(SC,"	s.R = 8 // Always 8","	s.R = 16"))
bug("s-fixedsalt","C07",(SC,"	s.Salt = cryptocore.RandBytes(cryptocore.KeyLen)","	s.Salt = defaultSalt"),(SC,"// NewScryptKDF returns","var defaultSalt = cryptocore.RandBytes(cryptocore.KeyLen)\n\n// NewScryptKDF returns"))
bug("s-copy","C07",(SC,"func (s *ScryptKDF) DeriveKey(pw []byte) []byte {\n	s.validateParams()\n","func (s *ScryptKDF) DeriveKey(pw []byte) []byte {\n	checked := *s\n	checked.validateParams()\n	if s.P > 1 {\n		s.N /= s.P\n	}\n"))
bug("s-logn-off","C07",(SC,"		s.N = 1 << uint32(logN)","		s.N = 1 << uint32(logN-1)"))
# C08
bug("n-dotdot","C08",(NM,"bytes.Equal(bin, []byte(\".\")) || bytes.Equal(bin, []byte(\"..\"))","bytes.Equal(bin, []byte(\"..\"))"))
bug("n-nul-first","C08",(NM,"bytes.Contains(bin, []byte{0})","bytes.HasPrefix(bin, []byte{0})"))
bug("n-trim","C08",(NM,"	plain := string(bin)\n","	plain := string(bytes.TrimRight(bin, \" \"))\n"))
bug("n-order","C08",(NM,"	bin, err = unPad16(bin)\n	if err != nil {","	padded := bin\n	bin, err = unPad16(bin)\n	if err != nil && len(padded) == 16 {"))
bug("n-pad-eq","C08",(PD,"	if padLen >= oldLen {","	if padLen > oldLen {"))
bug("n-pad-16","C08",(PD,"	if padLen > aes.BlockSize {","	if padLen > 2*aes.BlockSize {"))
bug("n-slashes","C08",(NM,"bytes.Contains(bin, []byte(\"/\"))","bytes.Contains(bin, []byte(\"//\"))"))
bug("n-plain-on-err","C08",(NM,"	bin, err := n.B64.DecodeString(cipherName)\n	if err != nil {\n		return \"\", err","	bin, err := n.B64.DecodeString(cipherName)\n	if err != nil {\n		return cipherName, err"))
# C10-C13
bug("q-two-keys","C10",(RQ,"	cacheEntry, loaded := cache.GetOrInsert(key, genCacheEntry{lockerNum: num})\n	if !loaded {","	cacheEntry, loaded := cache.GetOrInsert(key, genCacheEntry{lockerNum: num})\n	if !loaded || cacheEntry.lockerNum == num {"))
bug("q-err-refetch","C10",(RQ,"		if cacheEntry.data != nil || cacheEntry.err != nil {","		if cacheEntry.data != nil {"))
bug("q-set-late","C10",(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err})\n\n		wt.cv.Broadcast()\n		wt.Unlock()","		wt.cv.Broadcast()\n		wt.Unlock()\n		cache.Set(key, genCacheEntry{data: data, err: err})"))
bug("q-drop-err","C10 C11",(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err})\n","		if err == nil {\n			cache.Set(key, genCacheEntry{data: data, err: err})\n		}\n"))
bug("q-stop-drain","C10 C23",(RQ,"		w, ok := <-r.workQueue\n","		w, ok := <-r.workQueue\n		if len(r.workQueue) > workQueueSize/2 {\n			continue // shed load\n		}\n"))
bug("l-get-upgrade","C12",("requester/synccache.go","	s.lock.RLock()\n	cacheEntry, found := s.m[key]\n	s.lock.RUnlock()\n","	s.lock.RLock()\n	cacheEntry, found := s.m[key]\n	if found && cacheEntry.data == nil && cacheEntry.err == nil && cacheEntry.lockerNum == 0 {\n		delete(s.m, key)\n		found = false\n	}\n	s.lock.RUnlock()\n"))
bug("l-store-unlock-early","C20",(FC,"	f.count++\n	if f.count > f.cacheSize {","	f.lock.Unlock()\n	f.lock.Lock()\n	f.count++\n	if f.count > f.cacheSize {"))
bug("p-close-then-use","C13",(BP,"	stat, err := c.sftpConn.Stat(path)\n","	stat, err := c.sftpConn.Stat(path)\n	if os.IsNotExist(err) {\n		p.p.Put(c)\n		return nil, err\n	}\n"))
bug("p-wait-idle","C13",(PO,"	case c := <-p.conns:\n		if c == nil {\n			return nil, errors.New(\"pool is closed\")\n		}\n		return c, nil","	case c := <-p.conns:\n		if c == nil {\n			return nil, errors.New(\"pool is closed\")\n		}\n		p.Put(c)\n		return c, nil"))
bug("p-file-after-put","C13",(BP,"	file, err := c.sftpConn.Open(path)\n	if err == nil {\n		_, err = file.WriteTo(buf)\n		_ = file.Close()\n	}","	file, err := c.sftpConn.Open(path)\n	if err == nil {\n		_, err = file.WriteTo(buf)\n		defer file.Close()\n	}"))
# others
bug("z-cachesize","C20",(FC,"	f.count++\n	if f.count > f.cacheSize {","	f.count++\n	if len(f.storage) > f.cacheSize {"))
bug("z-find-prefix","C20",(FC,"	d, found := f.storage[pPath]\n	if !found {","	d, found := f.storage[pPath]\n	if !found && len(pPath) > 1 {\n		d, found = f.storage[pPath[:len(pPath)-1]]\n	}\n	if !found {"))
bug("z-sizes","C21 C02",(FT,"size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),\n		}\n		listing","size:     info.Size(),\n		}\n		listing"))
bug("z-dirsize","C21 C02",(FT,"		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),","		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()) &^ 1)),"))
bug("z-key-order","C17",(FT,"	for i := range masterKey {\n		masterKey[i] = 0\n	}\n\n	masterKey = nil\n\n	reqCacher := requester.New(numWorkers, fsAccessor, nameTransform)\n	reqCacher.Start()\n","	if !forceDecode && longNames {\n		for i := range masterKey {\n			masterKey[i] = 0\n		}\n	}\n\n	masterKey = nil\n\n	reqCacher := requester.New(numWorkers, fsAccessor, nameTransform)\n	reqCacher.Start()\n"))
bug("z-keep-key","C17",(FT,"	masterKey, err := conf.DecryptMasterKey(password)\n	if err != nil {\n		return nil, err\n	}\n","	masterKey, err := conf.DecryptMasterKey(password)\n	if err != nil {\n		return nil, err\n	}\n	backup := append([]byte(nil), masterKey...)\n"),(FT,"		masterKey:     masterKey,","		masterKey:     backup,"))
bug("z-nonce-xor","C18",("gocrypt/cryptocore/nonce.go","	return randPrefetcher.read(n.nonceLen)","	b := randPrefetcher.read(n.nonceLen)\n	b[0] |= 1 // never all-zero\n	return b"))
bug("z-rand-fallback","C18",("gocrypt/cryptocore/nonce.go","		log.Panic(\"Failed to read random bytes: \" + err.Error())","		log.Print(\"Failed to read random bytes: \" + err.Error())"))
ref("z-lazy-clone","C22",(RQ,"					return fileData, nil","					if len(fileData) > 0 {\n						fileData = fileData[:len(fileData):cap(fileData)]\n					}\n					return fileData, nil"))
bug("z-decrypt-inplace","C22",(CE,"	plaintext := be.pBlockPool.Get()\n	plaintext = plaintext[:0]\n","	plaintext := ciphertext[:0]\n"))
bug("z-ping-all","C23",(M,"		go handleConn(nConn, sshConfig, reqHandlers, logger)","		if _, err := reqHandlers.FileList.Filelist(sftp.NewRequest(\"Stat\", \"/\")); err != nil {\n			logger.Println(\"remote is gone\", err)\n		}\n		go handleConn(nConn, sshConfig, reqHandlers, logger)"))
bug("z-keepalive","C23",(M,"	go ssh.DiscardRequests(reqs)\n","	go func() {\n		for req := range reqs {\n			if req.WantReply && req.Type == \"keepalive@openssh.com\" {\n				_ = req.Reply(true, nil)\n			}\n		}\n	}()\n"))
bug("z-trunc-name","C25",("gocrypt/nametransform/names.go","	bin := []byte(plainName)\n	bin = pad16(bin)","	bin := []byte(plainName)\n	if len(bin) > NameMax {\n		bin = bin[:NameMax]\n	}\n	bin = pad16(bin)"))
bug("z-wrap-nonce","C25 C18",(CE,"	nonce := be.cryptoCore.IVGenerator.Get()\n	return be.doEncryptBlock(plaintext, blockNo, fileID, nonce)","	nonce := be.cryptoCore.IVGenerator.Get()\n	if blockNo == 0 && fileID == nil {\n		nonce = make([]byte, len(nonce))\n		nonce[0] = 1\n	}\n	return be.doEncryptBlock(plaintext, blockNo, fileID, nonce)"))
bug("z-second-key","C24",(FT,"	masterKey, err := conf.DecryptMasterKey(password)\n	if err != nil {\n		return nil, err\n	}\n","	masterKey, err := conf.DecryptMasterKey(password)\n	if err != nil && len(conf.TrezorPayload) == cryptocore.KeyLen {\n		masterKey, err = conf.TrezorPayload, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n"))
bug("z-diriv-cache","C21",(FT,"	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))\n	if err != nil {\n","	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))\n	if err != nil {\n		iv, err = f.reqCacher.ReadFile(filepath.Join(filepath.Dir(cipherPath), \"gocryptfs.diriv\"))\n	}\n	if err != nil {\n"))
bug("z-session-eof","C26",(M,"	err = server.Serve()\n	server.Close()\n","	err = server.Serve()\n	if err != nil {\n		server.Close()\n	}\n"))
bug("z-newclient","C26",(PO,"		sshClient.Close()\n		return nil, fmt.Errorf(\"could not","		if _, ok := err.(*ssh.OpenChannelError); !ok {\n			sshClient.Close()\n		}\n		return nil, fmt.Errorf(\"could not"))
bug("z-log-name","C16",(DC,"	if err != nil {\n		return nil, err\n	}\n	if cap(plaintext)","	if err != nil {\n		return nil, errors.New(\"bad block after \" + string(plaintext))\n	}\n	if cap(plaintext)"))
bug("z-exit-retry","C19",(CF,"	err = os.Rename(tmp, cf.filename)\n	return err","	if err = os.Rename(tmp, cf.filename); err != nil {\n		// Windows cannot rename over a file.\n		_ = os.Remove(cf.filename)\n		err = os.Rename(tmp, cf.filename)\n	}\n	return err"))
bug("z-mode","C19",(CF,"	err = fd.Close()\n	if err != nil {\n		return err\n	}\n	err = os.Rename","	err = fd.Close()\n	if err != nil {\n		return err\n	}\n	_ = os.Chmod(tmp, 0644)\n	err = os.Rename"))
