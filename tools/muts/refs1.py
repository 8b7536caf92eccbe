FT="filetree/filetree.go"; RQ="requester/requester.go"; MR="requester/makerequest.go"; SY="requester/synccache.go"
def r(n,*e): return dict(name=n, kind="ref", props=[], edits=list(e))
MUTS=[
 r("ft-cleanhelper",(FT,'''	cleanPath := filepath.Clean("/" + plainPath)
	if cleanPath == "/" {
		return readFileErr''','''	cleanPath := cleanPlain(plainPath)
	if cleanPath == "/" {
		return readFileErr'''),(FT,'''type listDirFn func''','''func cleanPlain(p string) string {
	return filepath.Clean("/" + p)
}

type listDirFn func''')),
 r("ft-split",(FT,'''	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
''','''	plainParentPath, plainDirName := splitPath(cleanPath)
'''),(FT,'''type listDirFn func''','''func splitPath(p string) (dir, name string) {
	return filepath.Dir(p), filepath.Base(p)
}

type listDirFn func''')),
 r("ft-invert-cache",(FT,'''	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return dirMapping.CiphertextPath, nil
	}
''','''	if m, ok := f.fastCache.Find(cleanPath); ok {
		return m.CiphertextPath, nil
	}
''')),
 r("ft-walk",(FT,'''	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}

	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath.Join(cipherParentPath, item.Name())
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store''','''	ciphertextPath, item, err := f.resolve(cleanPath)
	if err != nil {
		return "", err
	}
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store'''),(FT,'''	plainDirPath := filepath.Dir(cleanPath)
	plainFileName := filepath.Base(cleanPath)

	cipherDirPath, err := f.findPath(plainDirPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error finding parent path: %s", err))
	}

	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
''','''	ciphertextPath, item, err := f.resolve(cleanPath)
	if err != nil {
		return readFileErr(err.Error())
	}
'''),(FT,'''type listDirFn func''','''// resolve finds the listing entry of a path other than the root.
func (f *FileTree) resolve(cleanPath string) (string, os.FileInfo, error) {
	dir, err := f.findPath(filepath.Dir(cleanPath))
	if err != nil {
		return "", nil, fmt.Errorf("error finding parent path: %s", err)
	}
	entry, err := f.findInDir(dir, filepath.Base(cleanPath))
	if err != nil {
		return "", nil, err
	}
	return filepath.Join(dir, entry.Name()), entry, nil
}

type listDirFn func''')),
 r("ft-indexloop",(FT,'''	for _, info := range dirListing {
		rName''','''	for i := 0; i < len(dirListing); i++ {
		info := dirListing[i]
		rName''')),
 r("ft-errswitch",(FT,'''		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}
''','''		switch err.(type) {
		case nil:
			if fn(info, rName) {
				return nil
			}
		case *requester.IncompleteError:
			return fmt.Errorf("error decrypting name: %s", err)
		default:
			// Not an encrypted name
		}
''')),
 r("ft-nested",(FT,'''		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
''','''		if err != nil {
			if _, incomplete := err.(*requester.IncompleteError); incomplete {
				return fmt.Errorf("error decrypting name: %s", err)
			}
			continue
		}
''')),
 r("ft-errorsas",(FT,'''		if _, ok := err.(*requester.IncompleteError); ok {
''','''		var incomplete *requester.IncompleteError
		if errors.As(err, &incomplete) {
''')),
 r("ft-order",(FT,'''	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, "gocryptfs.diriv"))
	if err != nil {
		return fmt.Errorf("error reading directory IV: %s", err)
	}
	dirListing, err := f.reqCacher.ReadDir(cipherPath)
	if err != nil {
		return fmt.Errorf("error listing directory: %s", err)
	}
''','''	dirListing, err := f.reqCacher.ReadDir(cipherPath)
	if err != nil {
		return fmt.Errorf("error listing directory: %s", err)
	}
	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, "gocryptfs.diriv"))
	if err != nil {
		return fmt.Errorf("error reading directory IV: %s", err)
	}
''')),
 r("ft-diriv-const",(FT,'filepath.Join(cipherPath, "gocryptfs.diriv")','filepath.Join(cipherPath, nametransform.DirIVFilename)')),
 r("ft-find-flag",(FT,'''		if plainName == decryptedName {
			item = info
			return true
		}
		return false
''','''		match := decryptedName == plainName
		if match {
			item = info
		}
		return match
''')),
 r("ft-info-helper",(FT,'''		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)
''','''		listing = append(listing, f.plainInfo(info, plainName))
'''),(FT,'''	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil''','''	return f.plainInfo(item, plainBaseName), nil'''),(FT,'''type listDirFn func''','''func (f *FileTree) plainInfo(info os.FileInfo, name string) os.FileInfo {
	size := f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))
	return plainFileInfo{FileInfo: info, name: name, size: int64(size)}
}

type listDirFn func''')),
 r("ft-stat-early",(FT,'''	cipherPath := f.encryptedRoot
	if cleanPath != "/" {
		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
	}
''','''	var cipherPath string
	if cleanPath == "/" {
		cipherPath = f.encryptedRoot
	} else {
		dir, name := filepath.Dir(cleanPath), filepath.Base(cleanPath)
		cipherDirPath, err := f.findPath(dir)
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, name)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
	}
''')),
 r("ft-noclosure",(FT,'''	readDirErr := func(msg string) ([]os.FileInfo, error) {
		return nil, fmt.Errorf("ReadDir: %s", msg)
	}
''',''),(FT,'return readDirErr(fmt.Sprintf("error finding path %s: %s", cleanPath, err))','return nil, fmt.Errorf("ReadDir: error finding path %s: %w", cleanPath, err)'),(FT,'return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))','return nil, fmt.Errorf("ReadDir: error listing directory %s: %w", ciphertextPath, err)')),
 r("ft-listing-make",(FT,'	var listing []os.FileInfo\n','	listing := make([]os.FileInfo, 0, 16)\n')),
 r("ft-method-cb",(FT,'''	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})''','''	matches := func(info os.FileInfo, decryptedName string) bool {
		if plainName != decryptedName {
			return false
		}
		item = info
		return true
	}
	err = f.rangeInDir(cipherPath, matches)''')),
 r("ft-load-split",(FT,'''	_, err = f.Write(confBytes)
	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
	if err != nil {
		return nil, err
	}
''','''	if _, err := f.Write(confBytes); err != nil {
		f.Close()
		return nil, err
	}
	if err := f.Close(); err != nil {
		return nil, err
	}
''')),
 r("rq-perform-early",(RQ,'''	if !loaded {
		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
''','''	if loaded {
		if cacheEntry.data == nil && cacheEntry.err == nil {
			// Someone else is working on it.
			responseCh <- &r.lockers[cacheEntry.lockerNum]
			return
		}
		close(responseCh)
		return
	}
	wt := &r.lockers[num]
	responseCh <- wt
	wt.Lock()
	defer wt.Unlock()

	data, err := request()
	cache.Set(key, genCacheEntry{data: data, err: err})
	wt.cv.Broadcast()
''')),
 r("rq-closures",(RQ,'''				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},
''','''				r.readFile(w.arg1),
'''),(RQ,'''func (r *Requester) worker(''','''func (r *Requester) readFile(path string) func() (interface{}, error) {
	return func() (interface{}, error) {
		fileData, err := r.backend.ReadFile(path)
		if err != nil {
			return nil, err
		}
		return fileData, nil
	}
}

func (r *Requester) worker(''')),
 r("rq-range",(RQ,'''	for {
		w, ok := <-r.workQueue
		switch''','''	for w := range r.workQueue {
		w := w
		switch'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
''','''		case workNone:
		}
''')),
 r("rq-okfirst",(RQ,'''		w, ok := <-r.workQueue
''','''		w, ok := <-r.workQueue
		if !ok {
			return
		}
'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
''','''		}
''')),
 r("rq-process",(RQ,'''		w, ok := <-r.workQueue
		switch''','''		w, ok := <-r.workQueue
		r.process(num, w)
		if !ok {
			return
		}
	}
}

func (r *Requester) process(num int, w work) {
		switch'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
	}
''','''		case workNone:
		}
''')),
 r("mr-cachefor",(MR,'''	var cache *syncCache
	switch requestType {
	case workReadFile:
		cache = r.fileCache
	case workReadDir:
		cache = r.dirCache
	case workDecryptName:
		cache = r.decryptCache
	default:
		panic("Invalid request type")
	}
	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, arg2)
	}
''','''	cache, key := r.cacheFor(requestType, arg1, arg2)
'''),(MR,'func (r *Requester) makeRequest','''func (r *Requester) cacheFor(t workType, arg1 string, arg2 []byte) (*syncCache, string) {
	switch t {
	case workReadFile:
		return r.fileCache, arg1
	case workReadDir:
		return r.dirCache, arg1
	case workDecryptName:
		return r.decryptCache, complexKey(arg1, arg2)
	}
	panic("Invalid request type")
}

func (r *Requester) makeRequest''')),
 r("mr-wait",(MR,'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}

			d, err := cached.data, cached.err
			ticket.Unlock()
''','''			cached, found = ticket.await(cache, key)
			d, err := cached.data, cached.err
'''),(MR,'func (r *Requester) makeRequest','''// await waits for the work of the ticket to be done.
func (wt *workTicket) await(cache *syncCache, key string) (genCacheEntry, bool) {
	wt.Lock()
	defer wt.Unlock()
	for {
		entry, found := cache.Get(key)
		if !found || entry.data != nil || entry.err != nil {
			return entry, found
		}
		if wt.lockerNum == 0 || entry.lockerNum != wt.lockerNum {
			return entry, found
		}
		wt.Wait()
	}
}

func (r *Requester) makeRequest''')),
 r("mr-timer",(MR,'''		select {
		case ticket, ok''','''		timeout := time.NewTimer(20 * time.Second)
		defer timeout.Stop()
		select {
		case ticket, ok'''),(MR,'<-time.After(20 * time.Second)','<-timeout.C')),
 r("mr-ifjoin",(MR,'''		if cached, found := cache.Get(key); found {
			if cached.data != nil {
				return cached.data, nil
			}
		}
''','''		if cached, found := cache.Get(key); found && cached.data != nil {
			return cached.data, nil
		}
''')),
 r("mr-newwork",(MR,'''		r.workQueue <- work{
			requestType: requestType,
			arg1:        arg1,
			arg2:        arg2,
			respChan:    respChan,
		}
''','''		w := work{requestType: requestType, arg1: arg1}
		w.arg2 = arg2
		w.respChan = respChan
		r.workQueue <- w
''')),
 r("mr-loop",(MR,'	for i := 0; i < cacheErrRetryAttempts; i++ {','	for attempts := cacheErrRetryAttempts; attempts > 0; attempts-- {')),
 r("mr-cond-order",(MR,'''			if err != nil {
				return nil, err
			}
			return d, nil
''','''			if err == nil {
				return d, nil
			}
			return nil, err
''')),
 r("sy-defer",(SY,'''	s.lock.RLock()
	cacheEntry, found := s.m[key]
	s.lock.RUnlock()
	return cacheEntry, found''','''	s.lock.RLock()
	defer s.lock.RUnlock()
	cacheEntry, found := s.m[key]
	return cacheEntry, found''')),
 r("sy-goi",(SY,'''	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
	return cacheEntry, loaded''','''	defer s.lock.Unlock()
	if cacheEntry, loaded := s.m[key]; loaded {
		return cacheEntry, true
	}
	s.m[key] = value
	return genCacheEntry{}, false''')),
 r("sy-del",(SY,'''	if s.m[key].err != nil {
		delete(s.m, key)
	}
''','''	entry, found := s.m[key]
	if found && entry.err != nil {
		delete(s.m, key)
	}
''')),
 r("sy-clear",(SY,'''	keysToDelete := []string{}
	s.lock.RLock()
	for k := range s.m {
		keysToDelete = append(keysToDelete, k)
	}
	s.lock.RUnlock()
	s.lock.Lock()
	for _, k := range keysToDelete {
		delete(s.m, k)
	}
	s.lock.Unlock()''','''	s.lock.Lock()
	defer s.lock.Unlock()
	for k := range s.m {
		delete(s.m, k)
	}''')),
 r("sy-clearnew",(SY,'''	keysToDelete := []string{}
	s.lock.RLock()
	for k := range s.m {
		keysToDelete = append(keysToDelete, k)
	}
	s.lock.RUnlock()
	s.lock.Lock()
	for _, k := range keysToDelete {
		delete(s.m, k)
	}
	s.lock.Unlock()''','''	s.lock.Lock()
	s.m = make(map[string]genCacheEntry)
	s.lock.Unlock()''')),
]
