FT='filetree/filetree.go'; FD='filetree/decrypt.go'; MR='requester/makerequest.go'; RQ='requester/requester.go'; SY='requester/synccache.go'
M='main.go'; HD='handlers/decrypt.go'; PX='handlers/proxy.go'; CFG='config/config.go'; PV='backend/provider.go'; PL='backend/pool.go'
SV='gocrypt/siv_aead/siv_aead.go'; NC='gocrypt/cryptocore/nonce.go'; HK='gocrypt/cryptocore/hkdf.go'; OF='gocrypt/contentenc/offsets.go'; IB='gocrypt/contentenc/intrablock.go'
CE='gocrypt/contentenc/content.go'; CF='gocrypt/configfile/config_file.go'; FF='gocrypt/configfile/feature_flags.go'; SC='gocrypt/configfile/scrypt.go'
NM='gocrypt/nametransform/names.go'; PD='gocrypt/nametransform/pad16.go'; FC='filetree/fastcache.go'; CK='requester/complexkey.go'; FI='filetree/fileinfo.go'
CO='gocrypt/cryptocore/cryptocore.go'; RP='gocrypt/cryptocore/randprefetch.go'; FH='gocrypt/contentenc/file_header.go'; RD='requester/readdir.go'; DN='requester/decryptname.go'
ALL=['C%02d'%i for i in range(1,27)]
MUTS=[]
def r(name,*edits): MUTS.append(dict(name=name,kind='ref',props=[],edits=list(edits)))

# ---- filetree
r('ft3-locate',(FT,'''	plainDirPath := filepath.Dir(cleanPath)
	plainFileName := filepath.Base(cleanPath)

	cipherDirPath, err := f.findPath(plainDirPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error finding parent path: %s", err))
	}

	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
''','''	item, ciphertextPath, err := f.locate(cleanPath)
	if err != nil {
		return readFileErr(err.Error())
	}
'''),(FT,'''		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
''','''		var err error
		if _, cipherPath, err = f.locate(cleanPath); err != nil {
			return statErr(err.Error())
		}
'''),(FT,'''	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
''','''	item, ciphertextPath, err := f.locate(cleanPath)
	if err != nil {
		return "", err
	}
'''),(FT,'''// findPath attempts''','''// locate finds the entry for a cleaned plaintext path other than the root.
func (f *FileTree) locate(cleanPath string) (os.FileInfo, string, error) {
	dir, base := filepath.Dir(cleanPath), filepath.Base(cleanPath)
	cipherDir, err := f.findPath(dir)
	if err != nil {
		return nil, "", fmt.Errorf("error finding parent path: %s", err)
	}
	entry, err := f.findInDir(cipherDir, base)
	if err != nil {
		return nil, "", err
	}
	return entry, filepath.Join(cipherDir, entry.Name()), nil
}

// findPath attempts'''))
r('ft3-crypto-setup',(FT,'''	cryptoBackend := cryptocore.BackendGoGCM
	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
		cryptoBackend = cryptocore.BackendAESSIV
	}

	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
	forceDecode := false
	longNames := conf.IsFeatureFlagSet(configfile.FlagLongNames)
	raw64 := conf.IsFeatureFlagSet(configfile.FlagRaw64)
	cCore := cryptocore.New(
		masterKey, cryptoBackend, contentenc.DefaultIVBits,
		hkdf, forceDecode,
	)
	cEnc := contentenc.New(cCore, contentenc.DefaultBS, forceDecode)
	nameTransform := nametransform.New(cCore.EMECipher, longNames, raw64)

	// After the crypto backend is initialized,
	// we can purge the master key from memory.
	for i := range masterKey {
		masterKey[i] = 0
	}

	masterKey = nil

	reqCacher''','''	cCore := newCore(conf, masterKey)
	wipe(masterKey)
	const forceDecode = false
	cEnc := contentenc.New(cCore, contentenc.DefaultBS, forceDecode)
	nameTransform := nametransform.New(
		cCore.EMECipher,
		conf.IsFeatureFlagSet(configfile.FlagLongNames),
		conf.IsFeatureFlagSet(configfile.FlagRaw64),
	)

	reqCacher'''),(FT,'''		masterKey:     masterKey,

''',''),(FT,'''// loadConf parses''','''func newCore(conf *configfile.ConfFile, key []byte) *cryptocore.CryptoCore {
	aead := cryptocore.BackendGoGCM
	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
		aead = cryptocore.BackendAESSIV
	}
	return cryptocore.New(key, aead, contentenc.DefaultIVBits, conf.IsFeatureFlagSet(configfile.FlagHKDF), false)
}

func wipe(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

// loadConf parses'''))
r('ft3-wipe-defer',(FT,'''	cryptoBackend := cryptocore.BackendGoGCM
''','''	defer func() {
		for i := range masterKey {
			masterKey[i] = 0
		}
	}()
	cryptoBackend := cryptocore.BackendGoGCM
'''),(FT,'''	// After the crypto backend is initialized,
	// we can purge the master key from memory.
	for i := range masterKey {
		masterKey[i] = 0
	}

	masterKey = nil

''',''),(FT,'''		masterKey:     masterKey,

''',''))
r('ft3-entryname',(FT,'''		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}
	}
	return nil
}
''','''		rName, encrypted, err := f.entryName(info, iv)
		if err != nil {
			return err
		}
		if encrypted && fn(info, rName) {
			return nil
		}
	}
	return nil
}

func (f *FileTree) entryName(info os.FileInfo, iv []byte) (string, bool, error) {
	name, err := f.reqCacher.DecryptName(info.Name(), iv)
	switch err.(type) {
	case nil:
		return name, true, nil
	case *requester.IncompleteError:
		return "", false, fmt.Errorf("error decrypting name: %s", err)
	}
	return "", false, nil
}
'''))
r('ft3-loaddir',(FT,'''	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, "gocryptfs.diriv"))
	if err != nil {
		return fmt.Errorf("error reading directory IV: %s", err)
	}
	dirListing, err := f.reqCacher.ReadDir(cipherPath)
	if err != nil {
		return fmt.Errorf("error listing directory: %s", err)
	}
	for _, info''','''	iv, dirListing, err := f.loadDir(cipherPath)
	if err != nil {
		return err
	}
	for _, info'''),(FT,'''// findInDir searches''','''func (f *FileTree) loadDir(cipherPath string) (iv []byte, entries []os.FileInfo, err error) {
	ivPath := filepath.Join(cipherPath, "gocryptfs.diriv")
	if iv, err = f.reqCacher.ReadFile(ivPath); err != nil {
		return nil, nil, fmt.Errorf("error reading directory IV: %s", err)
	}
	if entries, err = f.reqCacher.ReadDir(cipherPath); err != nil {
		return nil, nil, fmt.Errorf("error listing directory: %s", err)
	}
	return iv, entries, nil
}

// findInDir searches'''))
r('ft3-readdir-struct',(FT,'''	var listing []os.FileInfo

	err = f.rangeInDir(ciphertextPath, func(info os.FileInfo, plainName string) bool {
		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)
		return false
	})
	if err != nil {
		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))
	}
	return listing, nil
''','''	l := &lister{enc: f.cEnc}
	if err := f.rangeInDir(ciphertextPath, l.add); err != nil {
		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))
	}
	return l.infos, nil
'''),(FT,'''func (f *FileTree) Stat(''','''type lister struct {
	enc   *contentenc.ContentEnc
	infos []os.FileInfo
}

func (l *lister) add(info os.FileInfo, plainName string) bool {
	size := l.enc.CipherSizeToPlainSize(uint64(info.Size()))
	l.infos = append(l.infos, plainFileInfo{info, plainName, int64(size)})
	return false
}

func (f *FileTree) Stat('''))
r('ft3-findpath-cachewrap',(FT,'''	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return dirMapping.CiphertextPath, nil
	}

	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store(cleanPath, ciphertextPath)
	return ciphertextPath, nil
}
''','''	if m, ok := f.fastCache.Find(cleanPath); ok {
		return m.CiphertextPath, nil
	}
	found, err := f.searchPath(cleanPath)
	if err == nil {
		f.fastCache.Store(cleanPath, found)
	}
	return found, err
}

func (f *FileTree) searchPath(cleanPath string) (string, error) {
	parent, err := f.findPath(filepath.Dir(cleanPath))
	if err != nil {
		return "", err
	}
	item, err := f.findInDir(parent, filepath.Base(cleanPath))
	if err != nil {
		return "", err
	}
	p := filepath.Join(parent, item.Name())
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", p)
	}
	return p, nil
}
'''))
r('ft3-fileinfo-ptr',(FI,'''func (p plainFileInfo) Name''','''func (p *plainFileInfo) Name'''),(FI,'''func (p plainFileInfo) Size''','''func (p *plainFileInfo) Size'''),(FT,'''		newInfo := plainFileInfo{
''','''		newInfo := &plainFileInfo{
'''),(FT,'''	return plainFileInfo{
''','''	return &plainFileInfo{
'''))
r('ft3-fileinfo-ctor',(FI,'''type plainFileInfo struct''','''func newFileInfo(info os.FileInfo, name string, size uint64) os.FileInfo {
	return plainFileInfo{FileInfo: info, name: name, size: int64(size)}
}

type plainFileInfo struct'''),(FT,'''		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)
''','''		cipherSize := uint64(info.Size())
		listing = append(listing, newFileInfo(info, plainName, f.cEnc.CipherSizeToPlainSize(cipherSize)))
'''),(FT,'''	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil
''','''	plainSize := f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))
	return newFileInfo(item, plainBaseName, plainSize), nil
'''))
r('fd3-switch',(FD,'''	if len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen {
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
	plainLength''','''	switch len(fileBytes) {
	case 0, contentenc.HeaderLen:
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
	plainLength'''))
r('fd3-id-first',(FD,'''	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
	fileID, err := f.readFileID(fileBytes)
	if err != nil {
		return nil, err
	}
''','''	fileID, err := f.readFileID(fileBytes)
	if err != nil {
		return nil, err
	}
	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
'''),(FD,'''	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
	if err != nil {
		return nil, err
	}
''','''	first := blocks[0]
	body := fileBytes[first.BlockCipherOff():]
	plaintext, err := f.cEnc.DecryptBlocks(body, first.BlockNo, fileID)
	if err != nil {
		return nil, err
	}
'''))
# ---- requester
r('mr3-attempt',(MR,'''	for i := 0; i < cacheErrRetryAttempts; i++ {
		// Return immediately''','''	attempt := 0
	for {
		if attempt == cacheErrRetryAttempts {
			break
		}
		attempt++
		// Return immediately'''))
r('mr3-submit',(MR,'''		respChan := make(chan *workTicket, 1)
		r.workQueue <- work{
			requestType: requestType,
			arg1:        arg1,
			arg2:        arg2,
			respChan:    respChan,
		}
		select {''','''		respChan := r.submit(requestType, arg1, arg2)
		select {'''),(MR,'''func (r *Requester) makeRequest(''','''func (r *Requester) submit(t workType, arg1 string, arg2 []byte) <-chan *workTicket {
	w := work{requestType: t, arg1: arg1, arg2: arg2}
	w.respChan = make(chan *workTicket, 1)
	r.workQueue <- w
	return w.respChan
}

func (r *Requester) makeRequest('''))
r('mr3-await',(MR,'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}

			d, err := cached.data, cached.err
			ticket.Unlock()
''','''			cached, found = ticket.await(cache, key)
			d, err := cached.data, cached.err
'''),(MR,'''func (r *Requester) makeRequest(''','''func (wt *workTicket) await(cache *syncCache, key string) (genCacheEntry, bool) {
	wt.Lock()
	defer wt.Unlock()
	for {
		entry, found := cache.Get(key)
		switch {
		case !found, entry.data != nil, entry.err != nil:
			return entry, found
		case wt.lockerNum == 0, entry.lockerNum != wt.lockerNum:
			return entry, found
		}
		wt.Wait()
	}
}

func (r *Requester) makeRequest('''))
r('mr3-key-early',(MR,'''	var cache *syncCache
	switch requestType {
	case workReadFile:
		cache = r.fileCache
	case workReadDir:
		cache = r.dirCache
	case workDecryptName:
		cache = r.decryptCache
	default:
		panic("Invalid request type")
	}
	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, arg2)
	}
''','''	cache, key := r.slot(requestType, arg1, arg2)
'''),(RQ,'''		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,''','''		case workReadFile:
			cache, key := r.slot(w.requestType, w.arg1, w.arg2)
			r.performRequestAndCache(key, num, cache, w.respChan,'''),(RQ,'''			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,''','''			cache, key := r.slot(w.requestType, w.arg1, w.arg2)
			r.performRequestAndCache(key, num, cache, w.respChan,'''),(RQ,'''			key := complexKey(w.arg1, w.arg2)
			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,''','''			cache, key := r.slot(w.requestType, w.arg1, w.arg2)
			r.performRequestAndCache(key, num, cache, w.respChan,'''),(RQ,'''func (r *Requester) worker(''','''// slot is where the outcome of a request is kept.
func (r *Requester) slot(t workType, arg1 string, arg2 []byte) (*syncCache, string) {
	switch t {
	case workReadFile:
		return r.fileCache, arg1
	case workReadDir:
		return r.dirCache, arg1
	case workDecryptName:
		return r.decryptCache, complexKey(arg1, arg2)
	}
	panic("Invalid request type")
}

func (r *Requester) worker('''))
r('mr3-cached-helper',(MR,'''		if cached, found := cache.Get(key); found {
			if cached.data != nil {
				return cached.data, nil
			}
		}
''','''		if data, ok := cache.lookup(key); ok {
			return data, nil
		}
'''),(SY,'''// GetOrInsert tries''','''// lookup gives the data of a request that has succeeded.
func (s *syncCache) lookup(key string) (interface{}, bool) {
	s.lock.RLock()
	defer s.lock.RUnlock()
	e, ok := s.m[key]
	return e.data, ok && e.data != nil
}

// GetOrInsert tries'''))
r('rq3-runfetch',(RQ,'''		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
''','''		r.lockers[num].fetch(key, cache, responseCh, request)
'''),(RQ,'''func (r *Requester) worker(''','''func (wt *workTicket) fetch(key string, cache *syncCache, answer chan<- *workTicket, request func() (interface{}, error)) {
	answer <- wt
	wt.Lock()
	defer wt.Unlock()
	data, err := request()
	cache.Set(key, genCacheEntry{data: data, err: err})
	wt.cv.Broadcast()
}

func (r *Requester) worker('''))
r('rq3-switch-state',(RQ,'''	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
''','''	if loaded && (cacheEntry.data != nil || cacheEntry.err != nil) {
		// The work has been done, so just use what's in the cache.
		close(responseCh)
		return
	}
	worker := num
	if loaded {
		// Somebody else is at it.
		worker = cacheEntry.lockerNum
	}
	wt := &r.lockers[worker]
	responseCh <- wt
	if loaded {
		return
	}
	wt.Lock()
	data, err := request()
	cache.Set(key, genCacheEntry{data: data, err: err})
	wt.cv.Broadcast()
	wt.Unlock()
'''))
r('rq3-ticket-new',(RQ,'''	for i := 0; i < numWorkers+1; i++ {
		l := &r.lockers[i]
		l.cv = sync.NewCond(&l.mtx)
		l.lockerNum = i
	}
	return r
''','''	for i := range r.lockers {
		r.lockers[i].init(i)
	}
	return r
'''),(RQ,'''func (wt *workTicket) Lock() {''','''func (wt *workTicket) init(num int) {
	wt.lockerNum = num
	wt.cv = sync.NewCond(&wt.mtx)
}

func (wt *workTicket) Lock() {'''))
r('rq3-fetch-by-type',(RQ,'''		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},
			)
''','''		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan, r.fileFetcher(w.arg1))
'''),(RQ,'''func (r *Requester) worker(''','''func (r *Requester) fileFetcher(path string) func() (interface{}, error) {
	return func() (interface{}, error) {
		data, err := r.backend.ReadFile(path)
		if err != nil {
			return nil, err
		}
		return data, nil
	}
}

func (r *Requester) worker('''))
r('dn3-assert',(DN,'''	d, err := r.makeRequest(workDecryptName, cName, iv)
	if d != nil {
		return d.(string), err
	}
	return "", err
''','''	d, err := r.makeRequest(workDecryptName, cName, iv)
	if err != nil {
		return "", err
	}
	name, _ := d.(string)
	return name, nil
'''))
r('ck3-builder',(CK,'''	return fmt.Sprintf("%s+%x", s, b)
''','''	return s + "+" + hex.EncodeToString(b)
'''),(CK,'''	"fmt"
''','''	"encoding/hex"
'''))
# ---- backend
r('pv3-settle',(PV,'''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
''','''	listing, err := c.sftpConn.ReadDir(path)
	p.settle(c, err)
	if err != nil {
		return nil, err
	}
	return listing, nil
'''),(PV,'''	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
''','''	defer func() { p.settle(c, err) }()
	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		return nil, err
	}
	return stat, nil
'''),(PV,'''// ReadDir acquires''','''// settle gives a connection back after an operation, unless it is dead.
func (p *Provider) settle(c *conn, err error) {
	if err != nil && !c.alive() {
		c.Close()
		return
	}
	p.p.Put(c)
}

func (c *conn) alive() bool {
	_, _, err := c.sshConn.SendRequest("ping", true, nil)
	return err == nil
}

// ReadDir acquires'''))
r('pl3-dial-method',(PL,'''	default:
		return newConn(p.remoteAddr, p.clientConfig)
	}
}
''','''	default:
	}
	return p.dial()
}

func (p *pool) dial() (*conn, error) {
	return newConn(p.remoteAddr, p.clientConfig)
}
'''))
# ---- siv, cryptocore
r('siv3-ad',(SV,'''	associated := [][]byte{authData, nonce}
	out, err :=''','''	associated := s.associated(authData, nonce)
	out, err :='''),(SV,'''	associated := [][]byte{authData, nonce}
	dec, err := siv.Decrypt(s.key, ciphertext, associated)
	return append(dst, dec...), err
''','''	dec, err := siv.Decrypt(s.key, ciphertext, s.associated(authData, nonce))
	if err != nil {
		return nil, err
	}
	return append(dst, dec...), nil
'''),(SV,'''func (s *sivAead) Wipe''','''func (s *sivAead) associated(authData, nonce []byte) [][]byte {
	return [][]byte{authData, nonce}
}

func (s *sivAead) Wipe'''))
r('siv3-check',(SV,'''	if len(nonce) != 16 {
		// SIV supports any nonce size, but in gocryptfs we exclusively use 16.
		log.Panic("nonce must be 16 bytes long")
	}
	if len(s.key) == 0 {
		log.Panic("Key has been wiped?")
	}
	// https''','''	s.check(nonce)
	// https'''),(SV,'''	if len(nonce) != 16 {
		// SIV supports any nonce size, but in gocryptfs we exclusively use 16.
		log.Panic("nonce must be 16 bytes long")
	}
	if len(s.key) == 0 {
		log.Panic("Key has been wiped?")
	}
	associated''','''	s.check(nonce)
	associated'''),(SV,'''func (s *sivAead) Wipe''','''func (s *sivAead) check(nonce []byte) {
	if len(nonce) != s.NonceSize() {
		log.Panic("nonce must be 16 bytes long")
	}
	if len(s.key) == 0 {
		log.Panic("Key has been wiped?")
	}
}

func (s *sivAead) Wipe'''))
r('siv3-new-merge',(SV,'''	return new2(key)
''','''	own := make([]byte, KeyLen)
	copy(own, key)
	return &sivAead{key: own}
'''),(SV,'''func new2(keyIn []byte) cipher.AEAD {
	// Create a private copy so the caller can zero the one he owns
	key := append([]byte{}, keyIn...)
	return &sivAead{
		key: key,
	}
}
''',''))
r('hk3-order',(HK,'''	if n != outLen || err != nil {
		log''','''	if err != nil || n < outLen {
		log'''))
r('ib3-range',(IB,'''	firstBlock := blocks[0]
	lastBlock := blocks[len(blocks)-1]

	offset = ib.fs.BlockNoToCipherOff(firstBlock.BlockNo)
	offsetLast := ib.fs.BlockNoToCipherOff(lastBlock.BlockNo)
	length = offsetLast + ib.fs.cipherBS - offset

	return offset, length
''','''	first, last := &blocks[0], &blocks[len(blocks)-1]
	offset = first.BlockCipherOff()
	end := last.BlockCipherOff() + ib.fs.cipherBS
	return offset, end - offset
'''))
r('of3-helper',(OF,'''	// Block number at last byte
	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	if overhead''','''	overhead := be.overheadOf(be.CipherOffToBlockNo(cipherSize-1) + 1)
	if overhead'''),(OF,'''	// Block number at last byte
	blockNo := be.PlainOffToBlockNo(plainSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	return plainSize + overhead
}
''','''	return plainSize + be.overheadOf(be.PlainOffToBlockNo(plainSize-1)+1)
}

// overheadOf is the space that is not payload in a file of blocks blocks.
func (be *ContentEnc) overheadOf(blocks uint64) uint64 {
	return HeaderLen + blocks*be.BlockOverhead()
}
'''))
# ---- main, handlers, config
r('m3-run',(M,'''	listener, err := net.Listen("tcp", "0.0.0.0:9022")
	if err != nil {
		log.Fatal("failed to listen for connection", err)
	}
	log.Printf("Listening on %v\\n", listener.Addr())

	for {
		nConn, err := listener.Accept()
		if err != nil {
			logger.Println("failed to accept incoming connection", err)
			continue
		}
		go handleConn(nConn, sshConfig, reqHandlers, logger)
	}
}
''','''	listener, err := net.Listen("tcp", "0.0.0.0:9022")
	if err != nil {
		log.Fatal("failed to listen for connection", err)
	}
	log.Printf("Listening on %v\\n", listener.Addr())

	s := &server{sshConfig, reqHandlers, logger}
	s.serve(listener)
}

type server struct {
	config   *ssh.ServerConfig
	handlers sftp.Handlers
	logger   *log.Logger
}

func (s *server) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			s.logger.Println("failed to accept incoming connection", err)
			continue
		}
		go handleConn(c, s.config, s.handlers, s.logger)
	}
}
'''))
r('m3-loadcfg',(M,'''	cfg, err := config.LoadConfig(configPath)
	if err != nil {
		log.Fatalln("error loading config file:", err)
	}
	if err := cfg.Validate(); err != nil {
		log.Fatalln("invalid config file:", err)
	}
''','''	cfg, err := loadConfig(configPath)
	if err != nil {
		log.Fatalln(err)
	}
'''),(M,'''func handleConn(''','''func loadConfig(path string) (*config.Config, error) {
	cfg, err := config.LoadConfig(path)
	if err != nil {
		return nil, fmt.Errorf("error loading config file: %s", err)
	}
	if err := cfg.Validate(); err != nil {
		return nil, fmt.Errorf("invalid config file: %s", err)
	}
	return cfg, nil
}

func handleConn('''))
r('m3-clientcfg',(M,'''	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)
	if err != nil {
		log.Fatalln("error parsing known hosts file key:", err)
	}

	clientConfig := &ssh.ClientConfig{
		User: cfg.Remote.User,
		Auth: []ssh.AuthMethod{
			ssh.PublicKeys(private),
		},
		HostKeyCallback: hostKeyCallback,
	}
''','''	clientConfig, err := newClientConfig(cfg, private)
	if err != nil {
		log.Fatalln("error parsing known hosts file key:", err)
	}
'''),(M,'''func handleConn(''','''func newClientConfig(cfg *config.Config, key ssh.Signer) (*ssh.ClientConfig, error) {
	verify, err := knownhosts.New(cfg.KnownHostsPath)
	if err != nil {
		return nil, err
	}
	cc := new(ssh.ClientConfig)
	cc.User = cfg.Remote.User
	cc.HostKeyCallback = verify
	cc.Auth = append(cc.Auth, ssh.PublicKeys(key))
	return cc, nil
}

func handleConn('''))
r('m3-requests',(M,'''	go func(in <-chan *ssh.Request) {
		for req := range in {
			logger.Printf("Request: %v\\n", req.Type)
			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
			logger.Printf(" - accepted: %v\\n", ok)
			_ = req.Reply(ok, nil)
		}
	}(requests)
''','''	go answerRequests(requests, logger)
'''),(M,'''func handleConn(''','''func answerRequests(in <-chan *ssh.Request, logger *log.Logger) {
	for {
		req, more := <-in
		if !more {
			return
		}
		logger.Printf("Request: %v\\n", req.Type)
		ok := req.Type == "subsystem" && len(req.Payload) >= 4 && string(req.Payload[4:]) == "sftp"
		logger.Printf(" - accepted: %v\\n", ok)
		if err := req.Reply(ok, nil); err != nil {
			logger.Println("could not reply:", err)
		}
	}
}

func handleConn('''))
r('m3-session',(M,'''	server := sftp.NewRequestServer(channel, reqHandlers)

	err = server.Serve()
	server.Close()
	if err == io.EOF {
		logger.Println("sftp client exited session.")
	} else if err != nil {
		logger.Println("sftp server completed with error:", err)
	}
}
''','''	serveSession(channel, reqHandlers, logger)
}

func serveSession(channel io.ReadWriteCloser, reqHandlers sftp.Handlers, logger *log.Logger) {
	server := sftp.NewRequestServer(channel, reqHandlers)
	defer server.Close()
	switch err := server.Serve(); err {
	case nil:
	case io.EOF:
		logger.Println("sftp client exited session.")
	default:
		logger.Println("sftp server completed with error:", err)
	}
}
'''))
r('hd3-table',(HD,'''	switch req.Method {
	case "Setstat":
		// Probably will never support
		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)
	case "Rename":
		return fmt.Errorf("Renaming not supported. path: %s, target: %s", req.Filepath, req.Target)
	case "Rmdir", "Remove":
		return fmt.Errorf("Removing not supported. path: %s", req.Filepath)
	case "Mkdir":
		return fmt.Errorf("Mkdir not supported. path: %s", req.Filepath)
	case "Symlink":
		// Probably will never support
		return fmt.Errorf("Symlink not supported. path: %s, target %s", req.Filepath, req.Target)
	}
	return fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
}

func (p *decrypt) Filelist''','''	if req.Target != "" {
		return fmt.Errorf("%s not supported. path: %s, target: %s", req.Method, req.Filepath, req.Target)
	}
	return unsupported(req)
}

func unsupported(req *sftp.Request) error {
	return fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
}

func (p *decrypt) Filelist'''))
r('px3-listat',(PX,'''	var n int
	if offset >= int64(len(f)) {
		return 0, io.EOF
	}
	n = copy(ls, f[offset:])
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil
}
''','''	if offset >= int64(len(f)) {
		return 0, io.EOF
	}
	rest := f[offset:]
	n := copy(ls, rest)
	var err error
	if len(rest) < len(ls) {
		err = io.EOF
	}
	return n, err
}
'''))
r('cfg3-loop',(CFG,'''	if isPrivateKeyEncrypted(privateBytes) {
		for i := 0; i < 3; i++ {
			prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
			if err == nil {
				return signer, nil
			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}
		}
		return nil, x509.IncorrectPasswordError
	}

	return ssh.ParsePrivateKey(privateBytes)
}
''','''	if !isPrivateKeyEncrypted(privateBytes) {
		return ssh.ParsePrivateKey(privateBytes)
	}
	for tries := 3; tries > 0; tries-- {
		signer, err := c.tryPassphrase(privateBytes)
		if err != x509.IncorrectPasswordError {
			return signer, err
		}
	}
	return nil, x509.IncorrectPasswordError
}

func (c *Config) tryPassphrase(key []byte) (ssh.Signer, error) {
	passphrase, err := pwReader.ReadPassword(fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath))
	if err != nil {
		return nil, err
	}
	signer, err := ssh.ParsePrivateKeyWithPassphrase(key, passphrase)
	if err != nil {
		return nil, err
	}
	return signer, nil
}
'''))
