MUTS = []
def r(name, *edits): MUTS.append(dict(name=name, kind="ref", props=[], edits=list(edits)))
RQ="requester/requester.go"; SY="requester/synccache.go"; FT="filetree/filetree.go"; FC="filetree/fastcache.go"; FD="filetree/decrypt.go"; PL="backend/pool.go"; HD="handlers/decrypt.go"
r("r6-worker-range",(RQ,'''	for {
		w, ok := <-r.workQueue
		switch''','''	for w := range r.workQueue {
		w := w
		switch'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
	}''','''		}
	}'''))
r("r6-worker-earlyret",(RQ,'''		w, ok := <-r.workQueue
		switch''','''		w, ok := <-r.workQueue
		if !ok {
			return
		}
		switch'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
	}''','''		case workNone:
		}
	}'''))
r("r6-serve-method",(RQ,'''		switch w.requestType {
		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},
			)
''','''		switch w.requestType {
		case workReadFile:
			r.serveFile(w, num)
'''),(RQ,'''func (r *Requester) worker(''','''func (r *Requester) serveFile(w work, num int) {
	read := func() (interface{}, error) {
		fileData, err := r.backend.ReadFile(w.arg1)
		if err != nil {
			return nil, err
		}
		return fileData, nil
	}
	r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan, read)
}

func (r *Requester) worker('''))
r("r6-perform-guard",(RQ,'''	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
''','''	if loaded {
		if cacheEntry.data == nil && cacheEntry.err == nil {
			// Send the current work ticket for the work.
			responseCh <- &r.lockers[cacheEntry.lockerNum]
			return
		}
		// The work has been done, so just use what's in the cache.
		close(responseCh)
		return
	}
	r.doWork(key, &r.lockers[num], cache, responseCh, request)
'''),(RQ,'''func (r *Requester) worker(''','''func (r *Requester) doWork(
	key string, wt *workTicket, cache *syncCache, responseCh chan<- *workTicket,
	request func() (interface{}, error),
) {
	responseCh <- wt
	wt.Lock()
	defer wt.Unlock()

	var entry genCacheEntry
	entry.data, entry.err = request()
	cache.Set(key, entry)
	wt.cv.Broadcast()
}

func (r *Requester) worker('''))
r("r6-done-method",(RQ,'''		if cacheEntry.data != nil || cacheEntry.err != nil {''','''		if cacheEntry.done() {'''),(RQ,'''type Requester struct {''','''// done: the request has been answered.
func (e genCacheEntry) done() bool {
	if e.err != nil {
		return true
	}
	return e.data != nil
}

type Requester struct {'''))
r("r6-new-loop",(RQ,'''	for i := 0; i < numWorkers+1; i++ {
		l := &r.lockers[i]
		l.cv = sync.NewCond(&l.mtx)
		l.lockerNum = i
	}''','''	for i := range r.lockers {
		r.lockers[i].lockerNum = i
		r.lockers[i].cv = sync.NewCond(&r.lockers[i].mtx)
	}'''))
r("r6-start-loop",(RQ,'''	for i := 1; i <= r.numWorkers; i++ {
		go r.worker(i)
	}''','''	for i := range r.lockers[1:] {
		go r.worker(i + 1)
	}'''))
r("r6-cache-defer",(SY,'''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
	return cacheEntry, loaded''','''	s.lock.Lock()
	defer s.lock.Unlock()
	if cacheEntry, loaded := s.m[key]; loaded {
		return cacheEntry, true
	}
	s.m[key] = value
	return genCacheEntry{}, false'''))
r("r6-clear-new",(SY,'''	keysToDelete := []string{}
	s.lock.RLock()
	for k := range s.m {
		keysToDelete = append(keysToDelete, k)
	}
	s.lock.RUnlock()
	s.lock.Lock()
	for _, k := range keysToDelete {
		delete(s.m, k)
	}
	s.lock.Unlock()''','''	s.lock.Lock()
	defer s.lock.Unlock()
	for k := range s.m {
		delete(s.m, k)
	}'''))
r("r6-delfailed",(SY,'''	if s.m[key].err != nil {
		delete(s.m, key)
	}
	s.lock.Unlock()''','''	entry, found := s.m[key]
	if found && entry.err != nil {
		delete(s.m, key)
	}
	s.lock.Unlock()'''))
r("r6-fc-unlink",(FC,'''	if d.next != nil {
		if d.prev != nil {
			d.prev.next = d.next
		} else {
			f.head = d.next
		}
		d.next.prev = d.prev
		d.prev = f.last
		d.next = nil
		f.last.next = d
		f.last = d
	}
''','''	if d.next == nil {
		// Already the most recently used
		return
	}
	f.unlink(d)
	f.pushBack(d)
}

func (f *FastCache) unlink(d *DirMapping) {
	if d.prev == nil {
		f.head = d.next
	} else {
		d.prev.next = d.next
	}
	d.next.prev = d.prev
}

func (f *FastCache) pushBack(d *DirMapping) {
	d.prev, d.next = f.last, nil
	f.last.next = d
	f.last = d
'''))
r("r6-fc-store",(FC,'''	f.count++
	if f.count > f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		oldHeadPath := f.head.PlaintextPath
		d := f.head
		f.refreshNode(d)
		d.PlaintextPath = pPath
		d.CiphertextPath = cPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		f.storage[pPath] = d
	} else {
		newNode''','''	if f.count >= f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		d := f.head
		delete(f.storage, d.PlaintextPath)
		f.refreshNode(d)
		d.PlaintextPath, d.CiphertextPath = pPath, cPath
		f.storage[pPath] = d
	} else {
		f.count++
		newNode'''))
r("r6-fc-find",(FC,'''	d, found := f.storage[pPath]
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	return *d, found''','''	if d := f.storage[pPath]; d != nil {
		f.refreshNode(d)
		return *d, true
	}
	return DirMapping{}, false'''))
r("r6-pool-err",(PL,'''	case c := <-p.conns:
		if c == nil {
			return nil, errors.New("pool is closed")
		}
		return c, nil
	default:
		return newConn(p.remoteAddr, p.clientConfig)
	}''','''	case c := <-p.conns:
		if c != nil {
			return c, nil
		}
		return nil, errPoolClosed
	default:
	}
	return newConn(p.remoteAddr, p.clientConfig)'''),(PL,'''type pool struct''','''var errPoolClosed = errors.New("pool is closed")

type pool struct'''))
r("r6-newconn-defer",(PL,'''	sftpClient, err := sftp.NewClient(sshClient)
	if err != nil {
		sshClient.Close()
		return nil, fmt.Errorf("could not open sftp session to remote %s", err)
	}
	c := &conn{
		sshConn:  sshClient,
		sftpConn: sftpClient,
	}

	return c, nil''','''	c := &conn{sshConn: sshClient}
	if c.sftpConn, err = sftp.NewClient(sshClient); err != nil {
		c.sftpConn = nil
		c.Close()
		return nil, fmt.Errorf("could not open sftp session to remote %s", err)
	}
	return c, nil'''))
r("r6-ft-entry",(FT,'''	cipherDirPath, err := f.findPath(plainDirPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error finding parent path: %s", err))
	}

	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
''','''	ciphertextPath, item, err := f.entry(plainDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
'''),(FT,'''		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
''','''		var err error
		if cipherPath, _, err = f.entry(filepath.Dir(cleanPath), plainBaseName); err != nil {
			return statErr(err.Error())
		}
'''),(FT,'''type listDirFn func''','''// entry finds a directory's entry.
func (f *FileTree) entry(plainDir, plainName string) (string, os.FileInfo, error) {
	cipherDir, err := f.findPath(plainDir)
	if err != nil {
		return "", nil, fmt.Errorf("error finding parent path: %s", err)
	}
	info, err := f.findInDir(cipherDir, plainName)
	if err != nil {
		return "", nil, err
	}
	return filepath.Join(cipherDir, info.Name()), info, nil
}

type listDirFn func'''))
r("r6-ft-decname",(FT,'''		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}''','''		rName, ok, err := f.plainName(info, iv)
		if err != nil {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if ok && fn(info, rName) {
			return nil
		}'''),(FT,'''type listDirFn func''','''// plainName is an entry's name, and whether it has one.
func (f *FileTree) plainName(info os.FileInfo, iv []byte) (name string, ok bool, err error) {
	name, err = f.reqCacher.DecryptName(info.Name(), iv)
	if err == nil {
		return name, true, nil
	}
	if _, incomplete := err.(*requester.IncompleteError); incomplete {
		return "", false, err
	}
	return "", false, nil
}

type listDirFn func'''))
r("r6-ft-findpath-split",(FT,'''	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store(cleanPath, ciphertextPath)
	return ciphertextPath, nil''','''	ciphertextPath, err := f.walkDown(filepath.Dir(cleanPath), filepath.Base(cleanPath))
	if err == nil {
		f.fastCache.Store(cleanPath, ciphertextPath)
	}
	return ciphertextPath, err
}

func (f *FileTree) walkDown(plainParentPath, plainDirName string) (string, error) {
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if item.IsDir() {
		return ciphertextPath, nil
	}
	return "", fmt.Errorf("%s is not a directory", ciphertextPath)'''))
r("r6-fd-finish",(FD,'''	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {
		return plaintext, nil
	}
	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil''','''	return f.detach(plaintext, plainLength), nil'''),(FD,'''func (f *FileTree) decryptFile(''','''// detach takes plaintext out of the pool's memory.
func (f *FileTree) detach(plaintext []byte, n uint64) []byte {
	const pooled = contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS
	if cap(plaintext) <= pooled {
		out := make([]byte, n)
		copy(out, plaintext)
		f.cEnc.PReqPool.Put(plaintext)
		return out
	}
	return plaintext
}

func (f *FileTree) decryptFile('''))
r("r6-fd-empty",(FD,'''	if len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen {
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
''','''	switch len(fileBytes) {
	case 0, contentenc.HeaderLen:
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
'''))
r("r6-fd-header",(FD,'''	buf := fileBytes[:contentenc.HeaderLen]
	h, err := contentenc.ParseHeader(buf)
	if err != nil {
		return nil, err
	}
	return h.ID, nil''','''	h, err := contentenc.ParseHeader(fileBytes[0:contentenc.HeaderLen])
	if err == nil {
		return h.ID, nil
	}
	return nil, err'''))
r("r6-hd-list",(HD,'''	switch req.Method {
	case "List":
		fileList, err := p.ft.ReadDir(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat(fileList), nil
	case "Stat":
		fileInfo, err := p.ft.Stat(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat([]os.FileInfo{fileInfo}), nil
	case "Readlink":
		return nil, fmt.Errorf("ReadLink not supported. path: %s", req.Filepath)
	}
	return nil, fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)''','''	var (
		infos []os.FileInfo
		err   error
	)
	switch req.Method {
	case "List":
		infos, err = p.ft.ReadDir(req.Filepath)
	case "Stat":
		infos, err = p.stat(req.Filepath)
	default:
		err = fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
	}
	if err != nil {
		return nil, err
	}
	return listerat(infos), nil
}

func (p *decrypt) stat(path string) ([]os.FileInfo, error) {
	info, err := p.ft.Stat(path)
	if err != nil {
		return nil, err
	}
	return []os.FileInfo{info}, nil'''))
r("r6-ft-loadconf-err",(FT,'''	_, err = f.Write(confBytes)
	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
	if err != nil {
		return nil, err
	}
	return configfile.Load(f.Name())''','''	if _, err = f.Write(confBytes); err != nil {
		f.Close()
		return nil, err
	}
	if err = f.Close(); err != nil {
		return nil, err
	}
	return configfile.Load(f.Name())'''))
r("r6-ft-newcrypto",(FT,'''	cryptoBackend := cryptocore.BackendGoGCM
	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
		cryptoBackend = cryptocore.BackendAESSIV
	}

	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
	forceDecode := false
	longNames := conf.IsFeatureFlagSet(configfile.FlagLongNames)
	raw64 := conf.IsFeatureFlagSet(configfile.FlagRaw64)
	cCore := cryptocore.New(
		masterKey, cryptoBackend, contentenc.DefaultIVBits,
		hkdf, forceDecode,
	)
	cEnc := contentenc.New(cCore, contentenc.DefaultBS, forceDecode)
	nameTransform := nametransform.New(cCore.EMECipher, longNames, raw64)

	// After the crypto backend is initialized,
	// we can purge the master key from memory.
	for i := range masterKey {
		masterKey[i] = 0
	}

	masterKey = nil
''','''	has := conf.IsFeatureFlagSet
	forceDecode := false
	cCore := newCore(masterKey, has(configfile.FlagAESSIV), has(configfile.FlagHKDF))

	// After the crypto backend is initialized,
	// we can purge the master key from memory.
	for i := range masterKey {
		masterKey[i] = 0
	}
	masterKey = nil

	cEnc := contentenc.New(cCore, contentenc.DefaultBS, forceDecode)
	nameTransform := nametransform.New(cCore.EMECipher, has(configfile.FlagLongNames), has(configfile.FlagRaw64))
'''),(FT,'''// loadConf parses''','''func newCore(masterKey []byte, siv, hkdf bool) *cryptocore.CryptoCore {
	if siv {
		return cryptocore.New(masterKey, cryptocore.BackendAESSIV, contentenc.DefaultIVBits, hkdf, false)
	}
	return cryptocore.New(masterKey, cryptocore.BackendGoGCM, contentenc.DefaultIVBits, hkdf, false)
}

// loadConf parses'''))
r("r6-ft-match",(FT,'''		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})''','''		match := decryptedName == plainName
		if match {
			item = info
		}
		return match
	})'''))
