MUTS = []
def r(name, *edits): MUTS.append(dict(name=name, kind="ref", props=[], edits=list(edits)))
M="main.go"; RQ="requester/requester.go"; MR="requester/makerequest.go"; SY="requester/synccache.go"; FT="filetree/filetree.go"; FD="filetree/decrypt.go"
CF="gocrypt/configfile/config_file.go"; SC="gocrypt/configfile/scrypt.go"; FF="gocrypt/configfile/feature_flags.go"; NM="gocrypt/nametransform/names.go"; PD="gocrypt/nametransform/pad16.go"
CE="gocrypt/contentenc/content.go"; OF="gocrypt/contentenc/offsets.go"; FH="gocrypt/contentenc/file_header.go"; BP="gocrypt/contentenc/bpool.go"; IB="gocrypt/contentenc/intrablock.go"
CO="gocrypt/cryptocore/cryptocore.go"; RP="gocrypt/cryptocore/randprefetch.go"; SV="gocrypt/siv_aead/siv_aead.go"; HD="handlers/decrypt.go"; CG="config/config.go"; FC="filetree/fastcache.go"; PL="backend/pool.go"; PV="backend/provider.go"

# main
r("m4-passcb-method",(M,'''		PasswordCallback: func(c ssh.ConnMetadata, pass []byte) (*ssh.Permissions, error) {
			// Should use constant-time compare (or better, salt+hash) in
			// a production setting.
			logger.Println("Login:", c.User())
			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}
			return nil, fmt.Errorf("password rejected for %q", c.User())
		},
	}''','''		PasswordCallback: (&passwordAuth{cfg: cfg, logger: logger}).check,
	}'''),(M,'''func handleConn(nConn''','''type passwordAuth struct {
	cfg    *config.Config
	logger *log.Logger
}

func (a *passwordAuth) check(c ssh.ConnMetadata, pass []byte) (*ssh.Permissions, error) {
	a.logger.Println("Login:", c.User())
	if a.cfg.ProxyUser != c.User() {
		return nil, fmt.Errorf("password rejected for %q", c.User())
	}
	if a.cfg.ProxyPassword != string(pass) {
		return nil, fmt.Errorf("password rejected for %q", c.User())
	}
	return nil, nil
}

func handleConn(nConn'''))
r("m4-serverstruct",(M,'''		go handleConn(nConn, sshConfig, reqHandlers, logger)''','''		go srv.handleConn(nConn)'''),(M,'''	for {
		nConn, err := listener''','''	srv := &proxyServer{sshConfig: sshConfig, handlers: reqHandlers, logger: logger}
	for {
		nConn, err := listener'''),(M,'''func handleConn(nConn net.Conn, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {''','''type proxyServer struct {
	sshConfig *ssh.ServerConfig
	handlers  sftp.Handlers
	logger    *log.Logger
}

func (s *proxyServer) handleConn(nConn net.Conn) {'''),(M,'''ssh.NewServerConn(nConn, sshConfig)
	if err != nil {
		logger.Println("failed to handshake", err)
		return
	}
	logger.Println("SSH server established")''','''ssh.NewServerConn(nConn, s.sshConfig)
	if err != nil {
		s.logger.Println("failed to handshake", err)
		return
	}
	s.logger.Println("SSH server established")'''),(M,'''	handleChannels(chans, reqHandlers, logger)
}''','''	handleChannels(chans, s.handlers, s.logger)
}'''))
r("m4-sessionfirst",(M,'''	if newChannel.ChannelType() != "session" {
		_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")
		logger.Printf("Unknown channel type: %s\\n", newChannel.ChannelType())
		return
	}
	channel,''','''	switch newChannel.ChannelType() {
	case "session":
		handleSession(newChannel, reqHandlers, logger)
	default:
		_ = newChannel.Reject(ssh.UnknownChannelType, "unknown channel type")
		logger.Printf("Unknown channel type: %s\\n", newChannel.ChannelType())
	}
}

func handleSession(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger *log.Logger) {
	channel,'''))
r("m4-bool",(M,'''			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
''','''			ok := req.Type == "subsystem" && len(req.Payload) >= 4 && string(req.Payload[4:]) == "sftp"
'''))
r("m4-flags",(M,'''	debugStream := ioutil.Discard
	if debugStderr {
		debugStream = os.Stderr
	}

	logger := log.New(debugStream, "", log.LstdFlags)
''','''	logger := newLogger(debugStderr)
'''),(M,'''func handleConn(nConn''','''func newLogger(debug bool) *log.Logger {
	if debug {
		return log.New(os.Stderr, "", log.LstdFlags)
	}
	return log.New(ioutil.Discard, "", log.LstdFlags)
}

func handleConn(nConn'''))
r("m4-order",(M,'''	private, err := cfg.LoadSSHKey()
	if err != nil {
		log.Fatalln("error loading SSH key:", err)
	}

	sshConfig.AddHostKey(private)

	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)
	if err != nil {
		log.Fatalln("error parsing known hosts file key:", err)
	}
''','''	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)
	if err != nil {
		log.Fatalln("error parsing known hosts file key:", err)
	}

	private, err := cfg.LoadSSHKey()
	if err != nil {
		log.Fatalln("error loading SSH key:", err)
	}
	sshConfig.AddHostKey(private)
'''))
r("m4-defer-close",(M,'''	err = server.Serve()
	server.Close()
	if err == io.EOF {
		logger.Println("sftp client exited session.")
	} else if err != nil {
		logger.Println("sftp server completed with error:", err)
	}''','''	defer server.Close()
	switch err := server.Serve(); err {
	case nil:
	case io.EOF:
		logger.Println("sftp client exited session.")
	default:
		logger.Println("sftp server completed with error:", err)
	}'''))
r("m4-loopfunc",(M,'''	for {
		nConn, err := listener.Accept()
		if err != nil {
			logger.Println("failed to accept incoming connection", err)
			continue
		}
		go handleConn(nConn, sshConfig, reqHandlers, logger)
	}
}''','''	acceptLoop(listener, func(nConn net.Conn) {
		handleConn(nConn, sshConfig, reqHandlers, logger)
	}, logger)
}

func acceptLoop(listener net.Listener, serve func(net.Conn), logger *log.Logger) {
	for {
		nConn, err := listener.Accept()
		if err == nil {
			go serve(nConn)
			continue
		}
		logger.Println("failed to accept incoming connection", err)
	}
}'''))

# requester
r("rq4-helpers",(RQ,'''	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
}
''','''	if loaded {
		r.answerLoaded(cacheEntry, responseCh)
		return
	}
	wt := &r.lockers[num]
	responseCh <- wt
	wt.complete(func() {
		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})
	})
}

func (wt *workTicket) complete(f func()) {
	wt.Lock()
	defer wt.Unlock()
	f()
	wt.cv.Broadcast()
}

func (e genCacheEntry) done() bool { return e.data != nil || e.err != nil }

func (r *Requester) answerLoaded(e genCacheEntry, responseCh chan *workTicket) {
	if e.done() {
		// The work has been done, so just use what's in the cache.
		close(responseCh)
		return
	}
	// Otherwise, send the current work ticket for the work.
	responseCh <- &r.lockers[e.lockerNum]
}
'''))
r("rq4-ptr-lockers",(RQ,'''	lockers   []workTicket
''','''	lockers   []*workTicket
'''),(RQ,'''		lockers:   make([]workTicket, numWorkers+1),
	}
	for i := 0; i < numWorkers+1; i++ {
		l := &r.lockers[i]
		l.cv = sync.NewCond(&l.mtx)
		l.lockerNum = i
	}
''','''		lockers:   make([]*workTicket, numWorkers+1),
	}
	for i := range r.lockers {
		l := &workTicket{lockerNum: i}
		l.cv = sync.NewCond(&l.mtx)
		r.lockers[i] = l
	}
'''),(RQ,'''		wt := &r.lockers[num]''','''		wt := r.lockers[num]'''),(RQ,'''			wt := &r.lockers[cacheEntry.lockerNum]''','''			wt := r.lockers[cacheEntry.lockerNum]'''))
r("rq4-worker-ifs",(RQ,'''		w, ok := <-r.workQueue
		switch''','''		w, ok := <-r.workQueue
		if !ok {
			return
		}
		switch'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
''','''		}
'''))
r("rq4-typed-helper",(RQ,'''				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},
''','''				func() (interface{}, error) { return r.fetchFile(w.arg1) },
'''),(RQ,'''func (r *Requester) worker(''','''func (r *Requester) fetchFile(path string) (interface{}, error) {
	fileData, err := r.backend.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return fileData, nil
}

func (r *Requester) worker('''))
r("mr4-countdown",(MR,'''	for i := 0; i < cacheErrRetryAttempts; i++ {''','''	for left := cacheErrRetryAttempts; left > 0; left-- {'''))
r("mr4-switch-after",(MR,'''			if !found {
				retryErrs = append(retryErrs, "cache entry deleted while waiting")
				continue
			}
			if d == nil && err == nil {
				retryErrs = append(retryErrs, "data missing by the time request completed")
				continue
			}

			if err != nil {
				return nil, err
			}
			return d, nil
''','''			switch {
			case !found:
				retryErrs = append(retryErrs, "cache entry deleted while waiting")
			case err != nil:
				return nil, err
			case d != nil:
				return d, nil
			default:
				retryErrs = append(retryErrs, "data missing by the time request completed")
			}
'''))
r("mr4-cachepair",(MR,'''	var cache *syncCache
	switch requestType {
	case workReadFile:
		cache = r.fileCache
	case workReadDir:
		cache = r.dirCache
	case workDecryptName:
		cache = r.decryptCache
	default:
		panic("Invalid request type")
	}
	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, arg2)
	}
''','''	cache, key := r.slot(requestType, arg1, arg2)
'''),(MR,'''func (r *Requester) makeRequest(''','''// slot is where the result of a request is kept.
func (r *Requester) slot(requestType workType, arg1 string, arg2 []byte) (*syncCache, string) {
	switch requestType {
	case workReadFile:
		return r.fileCache, arg1
	case workReadDir:
		return r.dirCache, arg1
	case workDecryptName:
		return r.decryptCache, complexKey(arg1, arg2)
	}
	panic("Invalid request type")
}

func (r *Requester) makeRequest('''))
r("mr4-waitmethod",(MR,'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}

			d, err := cached.data, cached.err
			ticket.Unlock()
''','''			cached, found = ticket.await(cache, key)
			d, err := cached.data, cached.err
'''),(MR,'''func (r *Requester) makeRequest(''','''// await waits until the entry is no longer pending with this ticket.
func (wt *workTicket) await(cache *syncCache, key string) (cached genCacheEntry, found bool) {
	wt.Lock()
	defer wt.Unlock()
	for cached, found = cache.Get(key); found && wt.pending(cached); cached, found = cache.Get(key) {
		wt.Wait()
	}
	return cached, found
}

func (wt *workTicket) pending(e genCacheEntry) bool {
	return e.data == nil && e.err == nil && wt.lockerNum != 0 && e.lockerNum == wt.lockerNum
}

func (r *Requester) makeRequest('''))
r("sy4-defer-all",(SY,'''	s.lock.RLock()
	cacheEntry, found := s.m[key]
	s.lock.RUnlock()
	return cacheEntry, found
''','''	s.lock.RLock()
	defer s.lock.RUnlock()
	e, ok := s.m[key]
	return e, ok
'''),(SY,'''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
	return cacheEntry, loaded
''','''	s.lock.Lock()
	defer s.lock.Unlock()
	if have, ok := s.m[key]; ok {
		return have, true
	}
	s.m[key] = value
	return genCacheEntry{}, false
'''),(SY,'''	if s.m[key].err != nil {
		delete(s.m, key)
	}
	s.lock.Unlock()
''','''	defer s.lock.Unlock()
	if e, ok := s.m[key]; ok && e.err != nil {
		delete(s.m, key)
	}
'''))
r("sy4-readfile-assert",("requester/readfile.go",'''	if d != nil {
		return d.([]byte), err
	}
	return nil, err
''','''	if err != nil {
		return nil, err
	}
	b, _ := d.([]byte)
	return b, nil
'''))

# filetree
r("ft4-split",(FT,'''	plainDirPath := filepath.Dir(cleanPath)
	plainFileName := filepath.Base(cleanPath)

	cipherDirPath, err''','''	plainDirPath, plainFileName := filepath.Split(cleanPath)

	cipherDirPath, err'''))
r("ft4-plainsize",(FT,'''			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),''','''			size:     f.plainSize(info),'''),(FT,'''		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),''','''		size:     f.plainSize(item),'''),(FT,'''type listDirFn''','''func (f *FileTree) plainSize(info os.FileInfo) int64 {
	n := f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))
	return int64(n)
}

type listDirFn'''))
r("ft4-stat-root",(FT,'''	plainBaseName := filepath.Base(cleanPath)
	cipherPath := f.encryptedRoot
	if cleanPath != "/" {
		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
	}
	item, err := f.fsAccessor.Stat(cipherPath)
	if err != nil {
		return statErr(fmt.Sprintf("error running stat on path: %s", err))
	}
	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil
''','''	plainBaseName := filepath.Base(cleanPath)
	stat := func(cipherPath string) (os.FileInfo, error) {
		item, err := f.fsAccessor.Stat(cipherPath)
		if err != nil {
			return statErr(fmt.Sprintf("error running stat on path: %s", err))
		}
		size := f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))
		return plainFileInfo{FileInfo: item, name: plainBaseName, size: int64(size)}, nil
	}
	if cleanPath == "/" {
		return stat(f.encryptedRoot)
	}
	cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
	if err != nil {
		return statErr(fmt.Sprintf("error finding parent path: %s", err))
	}
	entry, err := f.findInDir(cipherDirPath, plainBaseName)
	if err != nil {
		return statErr(err.Error())
	}
	return stat(filepath.Join(cipherDirPath, entry.Name()))
'''))
r("ft4-child",(FT,'''	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if !item''','''	item, ciphertextPath, err := f.child(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	if !item'''),(FT,'''	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
''','''	item, ciphertextPath, err := f.child(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
'''),(FT,'''type listDirFn''','''// child finds an entry of a directory and its ciphertext path.
func (f *FileTree) child(cipherDir, plainName string) (os.FileInfo, string, error) {
	item, err := f.findInDir(cipherDir, plainName)
	if err != nil {
		return nil, "", err
	}
	return item, filepath.Join(cipherDir, item.Name()), nil
}

type listDirFn'''))
r("ft4-init-build",(FT,'''	// After the crypto backend is initialized,
	// we can purge the master key from memory.
	for i := range masterKey {
		masterKey[i] = 0
	}

	masterKey = nil

	reqCacher := requester.New(numWorkers, fsAccessor, nameTransform)
	reqCacher.Start()
	return &FileTree{
		encryptedRoot: encryptedRoot,
		masterKey:     masterKey,

		fastCache: NewFastCache(cacheSize),

		cCore:      cCore,
		cEnc:       cEnc,
		nTransform: nameTransform,

		fsAccessor: fsAccessor,
		reqCacher:  reqCacher,
	}, nil
''','''	wipe(masterKey)

	ft := &FileTree{
		encryptedRoot: encryptedRoot,
		fastCache:     NewFastCache(cacheSize),
		cCore:         cCore,
		cEnc:          cEnc,
		nTransform:    nameTransform,
		fsAccessor:    fsAccessor,
		reqCacher:     requester.New(numWorkers, fsAccessor, nameTransform),
	}
	ft.reqCacher.Start()
	return ft, nil
'''),(FT,'''// loadConf parses''','''// wipe overwrites a key with zeros.
func wipe(key []byte) {
	for i := 0; i < len(key); i++ {
		key[i] = 0
	}
}

// loadConf parses'''))
r("ft4-errorf",(FT,'''	readDirErr := func(msg string) ([]os.FileInfo, error) {
		return nil, fmt.Errorf("ReadDir: %s", msg)
	}
''',''),(FT,'''		return readDirErr(fmt.Sprintf("error finding path %s: %s", cleanPath, err))''','''		return nil, fmt.Errorf("ReadDir: error finding path %s: %s", cleanPath, err)'''),(FT,'''		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))''','''		return nil, fmt.Errorf("ReadDir: error listing directory %s: %s", ciphertextPath, err)'''))
r("ft4-findname",(FT,'''func (f *FileTree) findInDir(cipherPath, plainName string) (item os.FileInfo, err error) {
	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if item == nil {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return
}''','''func (f *FileTree) findInDir(cipherPath, plainName string) (os.FileInfo, error) {
	var match os.FileInfo
	matches := func(info os.FileInfo, decryptedName string) bool {
		if decryptedName != plainName {
			return false
		}
		match = info
		return true
	}
	if err := f.rangeInDir(cipherPath, matches); err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if match != nil {
		return match, nil
	}
	return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
}'''))
r("ft4-decryptentry",(FT,'''		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}
''','''		switch rName, err := f.reqCacher.DecryptName(info.Name(), iv); err.(type) {
		case nil:
			if fn(info, rName) {
				return nil
			}
		case *requester.IncompleteError:
			return fmt.Errorf("error decrypting name: %s", err)
		}
'''))
r("fd4-blocks",(FD,'''	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
''','''	first := blocks[0]
	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[first.BlockCipherOff():], first.BlockNo, fileID)
'''))
r("fd4-release-helper",(FD,'''	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil
}''','''	return f.detach(plaintext, plainLength), nil
}

// detach copies out of a pooled buffer, which it gives back.
func (f *FileTree) detach(pooled []byte, n uint64) []byte {
	out := make([]byte, n)
	copy(out, pooled)
	f.cEnc.PReqPool.Put(pooled)
	return out
}'''))

# handlers
r("hd4-helper",(HD,'''	switch req.Method {
	case "List":
		fileList, err := p.ft.ReadDir(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat(fileList), nil
	case "Stat":
		fileInfo, err := p.ft.Stat(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat([]os.FileInfo{fileInfo}), nil
	case "Readlink":''','''	switch req.Method {
	case "List":
		return lister(p.ft.ReadDir(req.Filepath))
	case "Stat":
		return lister(p.stat(req.Filepath))
	case "Readlink":'''),(HD,'''func (p *decrypt) Filelist(''','''func (p *decrypt) stat(path string) ([]os.FileInfo, error) {
	info, err := p.ft.Stat(path)
	if err != nil {
		return nil, err
	}
	return []os.FileInfo{info}, nil
}

func lister(l []os.FileInfo, err error) (sftp.ListerAt, error) {
	if err != nil {
		return nil, err
	}
	return listerat(l), nil
}

func (p *decrypt) Filelist('''))
r("hd4-same",(HD,'''	return sftp.Handlers{
		FileGet:  h,
		FilePut:  h,
		FileCmd:  h,
		FileList: h,
	}, nil''','''	var hs sftp.Handlers
	hs.FileGet, hs.FilePut = h, h
	hs.FileCmd, hs.FileList = h, h
	return hs, nil'''))

# configfile
r("cf4-validate",(CF,'''	if cf.Version != contentenc.CurrentVersion {
		return nil, fmt.Errorf("Unsupported on-disk format %d", cf.Version)
	}

	// Check that all set feature flags are known
	for _, flag := range cf.FeatureFlags {
		if !cf.isFeatureFlagKnown(flag) {
			return nil, fmt.Errorf("Unsupported feature flag %q", flag)
		}
	}
''','''	if err := cf.checkSupported(); err != nil {
		return nil, err
	}
'''),(CF,'''// DecryptMasterKey decrypts''','''// checkSupported looks at the version and at the flags.
func (cf *ConfFile) checkSupported() error {
	if cf.Version != contentenc.CurrentVersion {
		return fmt.Errorf("Unsupported on-disk format %d", cf.Version)
	}
	for i := range cf.FeatureFlags {
		if flag := cf.FeatureFlags[i]; !cf.isFeatureFlagKnown(flag) {
			return fmt.Errorf("Unsupported feature flag %q", flag)
		}
	}
	return nil
}

// DecryptMasterKey decrypts'''))
r("cf4-missing",(CF,'''	var requiredFlags []flagIota
	if cf.IsFeatureFlagSet(FlagPlaintextNames) {
		requiredFlags = requiredFlagsPlaintextNames
	} else {
		requiredFlags = requiredFlagsNormal
	}
	deprecatedFs := false
	for _, i := range requiredFlags {
		if !cf.IsFeatureFlagSet(i) {
			fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[i])
			deprecatedFs = true
		}
	}
	if deprecatedFs {
''','''	requiredFlags := requiredFlagsNormal
	if cf.IsFeatureFlagSet(FlagPlaintextNames) {
		requiredFlags = requiredFlagsPlaintextNames
	}
	missing := 0
	for _, i := range requiredFlags {
		if cf.IsFeatureFlagSet(i) {
			continue
		}
		fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[i])
		missing++
	}
	if missing > 0 {
'''))
r("cf4-withkey",(CF,'''	// Generate derived key from password
	scryptHash := cf.ScryptObject.DeriveKey(password)

	// Unlock master key using password-based key
	useHKDF := cf.IsFeatureFlagSet(FlagHKDF)
	ce := getKeyEncrypter(scryptHash, useHKDF)

	tlog.Warn.Enabled = false // Silence DecryptBlock() error messages on incorrect password
	masterkey, err = ce.DecryptBlock(cf.EncryptedKey, 0, nil)
	tlog.Warn.Enabled = true

	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil

	if err''','''	cf.withKey(password, func(ce *contentenc.ContentEnc) {
		tlog.Warn.Enabled = false // Silence DecryptBlock() error messages on incorrect password
		masterkey, err = ce.DecryptBlock(cf.EncryptedKey, 0, nil)
		tlog.Warn.Enabled = true
	})

	if err'''),(CF,'''	scryptHash := cf.ScryptObject.DeriveKey(password)

	// Lock master key using password-based key
	useHKDF := cf.IsFeatureFlagSet(FlagHKDF)
	ce := getKeyEncrypter(scryptHash, useHKDF)
	cf.EncryptedKey = ce.EncryptBlock(key, 0, nil)

	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil
}
''','''	cf.withKey(password, func(ce *contentenc.ContentEnc) {
		cf.EncryptedKey = ce.EncryptBlock(key, 0, nil)
	})
}

// withKey lends the encrypter for the password-based key.
func (cf *ConfFile) withKey(password []byte, f func(*contentenc.ContentEnc)) {
	scryptHash := cf.ScryptObject.DeriveKey(password)
	ce := getKeyEncrypter(scryptHash, cf.IsFeatureFlagSet(FlagHKDF))
	f(ce)
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	ce.Wipe()
}
'''))
r("cf4-write",(CF,'''	_, err = fd.Write(js)
	if err != nil {
		return err
	}
	err = fd.Sync()
	if err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	err = fd.Close()
	if err != nil {
		return err
	}
	err = os.Rename(tmp, cf.filename)
	return err
''','''	if _, err = fd.Write(js); err != nil {
		return err
	}
	if syncErr := fd.Sync(); syncErr != nil {
		tlog.Warn.Printf("Warning: fsync failed: %v", syncErr)
	}
	if err = fd.Close(); err != nil {
		return err
	}
	return os.Rename(tmp, cf.filename)
'''))
r("sc4-table",(SC,'''	if s.R < scryptMinR {
		tlog.Fatal.Printf("Fatal: scrypt parameter R below minimum: value=%d, min=%d", s.R, scryptMinR)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.P < scryptMinP {
		tlog.Fatal.Printf("Fatal: scrypt parameter P below minimum: value=%d, min=%d", s.P, scryptMinP)
		os.Exit(exitcodes.ScryptParams)
	}
	if len(s.Salt) < scryptMinSaltLen {
		tlog.Fatal.Printf("Fatal: scrypt salt length below minimum: value=%d, min=%d", len(s.Salt), scryptMinSaltLen)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.KeyLen < cryptocore.KeyLen {
		tlog.Fatal.Printf("Fatal: scrypt parameter KeyLen below minimum: value=%d, min=%d", s.KeyLen, cryptocore.KeyLen)
		os.Exit(exitcodes.ScryptParams)
	}
}''','''	for _, p := range []struct {
		name       string
		value, min int
	}{
		{"parameter R", s.R, scryptMinR},
		{"parameter P", s.P, scryptMinP},
		{"salt length", len(s.Salt), scryptMinSaltLen},
		{"parameter KeyLen", s.KeyLen, cryptocore.KeyLen},
	} {
		if p.value < p.min {
			tlog.Fatal.Printf("Fatal: scrypt %s below minimum: value=%d, min=%d", p.name, p.value, p.min)
			os.Exit(exitcodes.ScryptParams)
		}
	}
}'''))
r("sc4-atleast",(SC,'''	if s.R < scryptMinR {
		tlog.Fatal.Printf("Fatal: scrypt parameter R below minimum: value=%d, min=%d", s.R, scryptMinR)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.P < scryptMinP {
		tlog.Fatal.Printf("Fatal: scrypt parameter P below minimum: value=%d, min=%d", s.P, scryptMinP)
		os.Exit(exitcodes.ScryptParams)
	}
	if len(s.Salt) < scryptMinSaltLen {
		tlog.Fatal.Printf("Fatal: scrypt salt length below minimum: value=%d, min=%d", len(s.Salt), scryptMinSaltLen)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.KeyLen < cryptocore.KeyLen {
		tlog.Fatal.Printf("Fatal: scrypt parameter KeyLen below minimum: value=%d, min=%d", s.KeyLen, cryptocore.KeyLen)
		os.Exit(exitcodes.ScryptParams)
	}
}''','''	atLeast("parameter R", s.R, scryptMinR)
	atLeast("parameter P", s.P, scryptMinP)
	atLeast("salt length", len(s.Salt), scryptMinSaltLen)
	atLeast("parameter KeyLen", s.KeyLen, cryptocore.KeyLen)
}

func atLeast(what string, value, min int) {
	if value >= min {
		return
	}
	tlog.Fatal.Printf("Fatal: scrypt %s below minimum: value=%d, min=%d", what, value, min)
	os.Exit(exitcodes.ScryptParams)
}'''))
r("sc4-new",(SC,'''	var s ScryptKDF
	s.Salt = cryptocore.RandBytes(cryptocore.KeyLen)
	if logN <= 0 {
		s.N = 1 << ScryptDefaultLogN
	} else {
		s.N = 1 << uint32(logN)
	}
	s.R = 8 // Always 8
	s.P = 1 // Always 1
	s.KeyLen = cryptocore.KeyLen
	return s
''','''	if logN <= 0 {
		logN = ScryptDefaultLogN
	}
	return ScryptKDF{
		Salt:   cryptocore.RandBytes(cryptocore.KeyLen),
		N:      1 << uint32(logN),
		R:      8, // Always 8
		P:      1, // Always 1
		KeyLen: cryptocore.KeyLen,
	}
'''))
r("ff4-index",(FF,'''	flagString := knownFlags[flagWant]
	for _, flag := range cf.FeatureFlags {
		if flag == flagString {
			return true
		}
	}
	return false
''','''	want := knownFlags[flagWant]
	for i := 0; i < len(cf.FeatureFlags); i++ {
		if cf.FeatureFlags[i] != want {
			continue
		}
		return true
	}
	return false
'''))

# cryptocore
r("co4-newgcm",(CO,'''			goGcmBlockCipher, err := aes.NewCipher(gcmKey)
			if err != nil {
				log.Panic(err)
			}
			aeadCipher, err = cipher.NewGCMWithNonceSize(goGcmBlockCipher, IVLen)
			if err != nil {
				log.Panic(err)
			}
''','''			aeadCipher = newGCM(gcmKey, IVLen)
'''),(CO,'''type wiper interface''','''func newGCM(key []byte, nonceLen int) cipher.AEAD {
	block, err := aes.NewCipher(key)
	if err != nil {
		log.Panic(err)
	}
	aead, err := cipher.NewGCMWithNonceSize(block, nonceLen)
	if err != nil {
		log.Panic(err)
	}
	return aead
}

type wiper interface'''))
r("co4-subkey",(CO,'''		var key64 []byte
		if useHKDF {
			key64 = hkdfDerive(key, hkdfInfoSIVContent, siv_aead.KeyLen)
		} else {
			s := sha512.Sum512(key)
			key64 = s[:]
		}
''','''		key64 := sivKey(key, useHKDF)
'''),(CO,'''type wiper interface''','''func sivKey(key []byte, useHKDF bool) []byte {
	if !useHKDF {
		s := sha512.Sum512(key)
		return s[:]
	}
	return hkdfDerive(key, hkdfInfoSIVContent, siv_aead.KeyLen)
}

type wiper interface'''))
r("co4-wipe",(CO,'''		for i := range gcmKey {
			gcmKey[i] = 0
		}
''','''		zero(gcmKey)
'''),(CO,'''		for i := range key64 {
			key64[i] = 0
		}
''','''		zero(key64)
'''),(CO,'''			for i := range emeKey {
				emeKey[i] = 0
			}
''','''			zero(emeKey)
'''),(CO,'''type wiper interface''','''func zero(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

type wiper interface'''))
r("rp4-take",(RP,'''	out = make([]byte, want)
	r.Lock()
	// Note: don't use defer, it slows us down!
	have, err := r.buf.Read(out)
	if have == want && err == nil {
		r.Unlock()
		return out
	}
''','''	out = make([]byte, want)
	r.Lock()
	defer r.Unlock()
	have, err := r.buf.Read(out)
	if err == nil && have == want {
		return out
	}
'''),(RP,'''	r.Unlock()
	return out
}

func (r *randPrefetcherT) refillWorker''','''	return out
}

func (r *randPrefetcherT) refillWorker'''))
r("sv4-check",(SV,'''	if len(nonce) != 16 {
		// SIV supports any nonce size, but in gocryptfs we exclusively use 16.
		log.Panic("nonce must be 16 bytes long")
	}
	if len(s.key) == 0 {
		log.Panic("Key has been wiped?")
	}
	associated := [][]byte{authData, nonce}
	dec, err := siv.Decrypt(s.key, ciphertext, associated)
	return append(dst, dec...), err
''','''	s.usable(nonce)
	dec, err := siv.Decrypt(s.key, ciphertext, [][]byte{authData, nonce})
	if err != nil {
		return nil, err
	}
	return append(dst, dec...), nil
}

func (s *sivAead) usable(nonce []byte) {
	if len(nonce) != 16 {
		// SIV supports any nonce size, but in gocryptfs we exclusively use 16.
		log.Panic("nonce must be 16 bytes long")
	}
	if len(s.key) == 0 {
		log.Panic("Key has been wiped?")
	}
'''))

# names
r("pd4-unpad",(PD,'''	for i := oldLen - padLen; i < oldLen; i++ {
		if padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	newLen := oldLen - padLen
	return padded[0:newLen], nil
''','''	newLen := oldLen - padLen
	for i, b := range padded[newLen:] {
		if b != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", newLen+i)
		}
	}
	return padded[:newLen], nil
'''))
r("pd4-reverse",(PD,'''	for i := oldLen - padLen; i < oldLen; i++ {
		if padded[i] != padByte {''','''	for i := oldLen - 1; i >= oldLen-padLen; i-- {
		if padded[i] != padByte {'''))
r("nm4-decode",(NM,'''	bin, err := n.B64.DecodeString(cipherName)
	if err != nil {
		return "", err
	}
	if len(bin) == 0 {
		tlog.Warn.Printf("DecryptName: empty input")
		return "", syscall.EBADMSG
	}
	if len(bin)%aes.BlockSize != 0 {
		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
		return "", syscall.EBADMSG
	}
	// No valid name is longer than NameMax, plus padding. The cipher panics on
	// names that are much longer than that.
	if len(bin) > NameMax+aes.BlockSize {
		tlog.Debug.Printf("DecryptName %q: decoded length %d is too long", cipherName, len(bin))
		return "", syscall.EBADMSG
	}
''','''	bin, err := n.decode(cipherName)
	if err != nil {
		return "", err
	}
'''),(NM,'''// DecryptName decrypts a base64''','''// decode gives the bytes of an encrypted name, if there is a proper number of them.
func (n *NameTransform) decode(cipherName string) ([]byte, error) {
	bin, err := n.B64.DecodeString(cipherName)
	if err != nil {
		return nil, err
	}
	switch l := len(bin); {
	case l == 0, l%aes.BlockSize != 0, l > NameMax+aes.BlockSize:
		tlog.Debug.Printf("DecryptName %q: decoded length %d", cipherName, l)
		return nil, syscall.EBADMSG
	}
	return bin, nil
}

// DecryptName decrypts a base64'''))
r("nm4-checkname",(NM,'''	// A name can never contain a null byte or "/". Make sure we never return those
	// to the kernel, even when we read a corrupted (or fuzzed) filesystem.
	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
	// The name should never be "." or "..".
	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {
		return "", syscall.EBADMSG
	}
	plain := string(bin)
	return plain, err
''','''	plain := string(bin)
	for i := 0; i < len(plain); i++ {
		if plain[i] == 0 || plain[i] == '/' {
			return "", syscall.EBADMSG
		}
	}
	switch plain {
	case ".", "..":
		return "", syscall.EBADMSG
	}
	return plain, nil
'''),(NM,'''	"bytes"
''',''))

# contentenc
r("of4-ceil",(OF,'''	// Block number at last byte
	blockNo := be.PlainOffToBlockNo(plainSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	return plainSize + overhead
''','''	blockCount := be.PlainOffToBlockNo(plainSize-1) + 1
	return HeaderLen + plainSize + blockCount*be.BlockOverhead()
'''))
r("of4-explode-while",(OF,'''	for length > 0 {
		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)

		// Minimum of remaining plaintext data and remaining space in the block
		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)

		blocks = append(blocks, nextBlock)
		offset += nextBlock.Length
		length -= nextBlock.Length
	}
	return blocks
''','''	for end := offset + length; offset < end; offset += nextBlock.Length {
		no := be.PlainOffToBlockNo(offset)
		nextBlock = IntraBlock{fs: be, BlockNo: no, Skip: offset - be.BlockNoToPlainOff(no)}
		nextBlock.Length = MinUint64(end-offset, be.plainBS-nextBlock.Skip)
		blocks = append(blocks, nextBlock)
	}
	return blocks
'''))
r("fh4-parse",(FH,'''	var h FileHeader
	h.Version = binary.BigEndian.Uint16(buf[0:headerVersionLen])
	if h.Version != CurrentVersion {
		return nil, fmt.Errorf("ParseHeader: invalid version, want=%d have=%d. Hexdump: %s",
			CurrentVersion, h.Version, hex.EncodeToString(buf))
	}
	h.ID = buf[headerVersionLen:]
	if bytes.Equal(h.ID, allZeroFileID) {
		return nil, fmt.Errorf("ParseHeader: file id is all-zero. Hexdump: %s",
			hex.EncodeToString(buf))
	}
	return &h, nil
''','''	version, id := binary.BigEndian.Uint16(buf), buf[headerVersionLen:HeaderLen]
	switch {
	case version != CurrentVersion:
		return nil, fmt.Errorf("ParseHeader: invalid version, want=%d have=%d. Hexdump: %s",
			CurrentVersion, version, hex.EncodeToString(buf))
	case bytes.Equal(allZeroFileID, id):
		return nil, fmt.Errorf("ParseHeader: file id is all-zero. Hexdump: %s",
			hex.EncodeToString(buf))
	}
	return &FileHeader{Version: version, ID: id}, nil
'''))
r("ce4-blockloop",(CE,'''	blockNo := firstBlockNo
	for cBuf.Len() > 0 {
		cBlock := cBuf.Next(int(be.cipherBS))
''','''	for blockNo := firstBlockNo; cBuf.Len() > 0; blockNo++ {
		cBlock := cBuf.Next(int(be.cipherBS))
'''),(CE,'''		be.pBlockPool.Put(pBlock)
		blockNo++
	}''','''		be.pBlockPool.Put(pBlock)
	}'''))
r("ce4-forcedecode",(CE,'''		if err != nil {
			if be.forceDecode && err == stupidgcm.ErrAuth {
				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				break
			}
		}
''','''		if err != nil {
			if !be.overridden(err) {
				break
			}
			tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
		}
'''),(CE,'''// concatAD concatenates''','''// overridden: the failure is one that forcedecode lets pass.
func (be *ContentEnc) overridden(err error) bool {
	return be.forceDecode && err == stupidgcm.ErrAuth
}

// concatAD concatenates'''))
r("ce4-concat",(CE,'''	aData = make([]byte, lenUint64, lenUint64+headerIDLen)
	binary.BigEndian.PutUint64(aData, blockNo)
	aData = append(aData, fileID...)
	return aData
''','''	var no [lenUint64]byte
	binary.BigEndian.PutUint64(no[:], blockNo)
	return append(no[:], fileID...)
'''))
r("ce4-groups",(CE,'''		var wg sync.WaitGroup
		for i := 0; i < ncpu; i++ {
			wg.Add(1)
			go func(i int) {
				low := i * groupSize
				high := (i + 1) * groupSize
				if i == ncpu-1 {
					// Last group, pick up any left-over blocks
					high = len(plaintextBlocks)
				}
				be.doEncryptBlocks(plaintextBlocks[low:high], ciphertextBlocks[low:high], firstBlockNo+uint64(low), fileID)
				wg.Done()
			}(i)
		}
		wg.Wait()
''','''		var wg sync.WaitGroup
		wg.Add(ncpu)
		for i := 0; i < ncpu; i++ {
			low, high := i*groupSize, (i+1)*groupSize
			if i == ncpu-1 {
				// Last group, pick up any left-over blocks
				high = len(plaintextBlocks)
			}
			go func(low, high int) {
				defer wg.Done()
				be.doEncryptBlocks(plaintextBlocks[low:high], ciphertextBlocks[low:high], firstBlockNo+uint64(low), fileID)
			}(low, high)
		}
		wg.Wait()
'''))
r("bp4-check",(BP,'''func (b *bPool) Put(s []byte) {
	s = s[:cap(s)]
	if len(s) != b.sliceLen {
		log.Panicf("wrong len=%d, want=%d", len(s), b.sliceLen)
	}
	b.Pool.Put(s)
}''','''func (b *bPool) Put(s []byte) {
	s = s[:cap(s)]
	b.check(s)
	b.Pool.Put(s)
}

func (b *bPool) check(s []byte) {
	if len(s) != b.sliceLen {
		log.Panicf("wrong len=%d, want=%d", len(s), b.sliceLen)
	}
}'''),(BP,'''	s = b.Pool.Get().([]byte)
	if len(s) != b.sliceLen {
		log.Panicf("wrong len=%d, want=%d", len(s), b.sliceLen)
	}
	return s''','''	s = b.Pool.Get().([]byte)
	b.check(s)
	return s'''))
r("ib4-crop",(IB,'''	lenHave := len(d)
	lenWant := int(ib.Skip + ib.Length)
	if lenHave < lenWant {
		return d[ib.Skip:lenHave]
	}
	return d[ib.Skip:lenWant]
''','''	end := int(ib.Skip + ib.Length)
	if end > len(d) {
		end = len(d)
	}
	return d[ib.Skip:end]
'''))

# config, backend, cache
r("cg4-unlock",(CG,'''	if isPrivateKeyEncrypted(privateBytes) {
		for i := 0; i < 3; i++ {
			prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
			if err == nil {
				return signer, nil
			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}
		}
		return nil, x509.IncorrectPasswordError
	}

	return ssh.ParsePrivateKey(privateBytes)
}''','''	if !isPrivateKeyEncrypted(privateBytes) {
		return ssh.ParsePrivateKey(privateBytes)
	}
	for tries := 3; tries > 0; tries-- {
		signer, err := c.unlock(privateBytes)
		if err != x509.IncorrectPasswordError {
			return signer, err
		}
	}
	return nil, x509.IncorrectPasswordError
}

func (c *Config) unlock(privateBytes []byte) (ssh.Signer, error) {
	prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
	passphrase, err := pwReader.ReadPassword(prompt)
	if err != nil {
		return nil, err
	}
	return ssh.ParsePrivateKeyWithPassphrase(privateBytes, passphrase)
}'''))
r("cg4-load",(CG,'''	cfg := Config{}
	err = json.Unmarshal(configBytes, &cfg)
	if err != nil {
		return nil, err
	}
	return &cfg, nil
''','''	cfg := new(Config)
	if err := json.Unmarshal(configBytes, cfg); err != nil {
		return nil, err
	}
	return cfg, nil
'''))
r("pv4-finish",(PV,'''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
''','''	listing, err := c.sftpConn.ReadDir(path)
	p.done(c, err)
	if err != nil {
		return nil, err
	}
	return listing, nil
'''),(PV,'''	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
''','''	stat, err := c.sftpConn.Stat(path)
	p.done(c, err)
	if err != nil {
		return nil, err
	}
	return stat, nil
'''),(PV,'''// Stat acquires''','''// done takes a connection back after an operation.
func (p *Provider) done(c *conn, opErr error) {
	if opErr != nil && !c.alive() {
		c.Close()
		return
	}
	p.p.Put(c)
}

func (c *conn) alive() bool {
	// Test the underlying ssh connection to see if it's still okay.
	_, _, err := c.sshConn.SendRequest("ping", true, nil)
	return err == nil
}

// Stat acquires'''))
r("pl4-newconn",(PL,'''	c := &conn{
		sshConn:  sshClient,
		sftpConn: sftpClient,
	}

	return c, nil
''','''	return &conn{sftpConn: sftpClient, sshConn: sshClient}, nil
'''),(PL,'''	case c := <-p.conns:
		if c == nil {
			return nil, errors.New("pool is closed")
		}
		return c, nil
''','''	case c, ok := <-p.conns:
		if !ok || c == nil {
			return nil, errors.New("pool is closed")
		}
		return c, nil
'''))
r("fc4-find",(FC,'''	d, found := f.storage[pPath]
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	return *d, found
''','''	if d, ok := f.storage[pPath]; ok {
		f.refreshNode(d)
		return *d, true
	}
	return DirMapping{}, false
'''))
r("fc4-unlink",(FC,'''	if d.next != nil {
		if d.prev != nil {
			d.prev.next = d.next
		} else {
			f.head = d.next
		}
		d.next.prev = d.prev
		d.prev = f.last
		d.next = nil
		f.last.next = d
		f.last = d
	}
}
''','''	if d == f.last {
		return
	}
	f.unlink(d)
	f.pushBack(d)
}

// unlink takes a node out that is not the last.
func (f *FastCache) unlink(d *DirMapping) {
	if d.prev == nil {
		f.head = d.next
	} else {
		d.prev.next = d.next
	}
	d.next.prev = d.prev
}

func (f *FastCache) pushBack(d *DirMapping) {
	d.prev, d.next = f.last, nil
	f.last.next = d
	f.last = d
}
'''))
r("fc4-grow-evict",(FC,'''	f.count++
	if f.count > f.cacheSize {
''','''	if f.count < f.cacheSize {
		f.count++
	} else {
		f.count = f.cacheSize + 1
	}
	if f.count > f.cacheSize {
'''))
