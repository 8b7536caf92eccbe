RQ="requester/requester.go"; MK="requester/makerequest.go"; SC="requester/synccache.go"; CK="requester/complexkey.go"
MUTS=[
# C10 bugs
dict(name="delete-any", kind="bug", props=["C10"], edits=[(SC,"	if s.m[key].err != nil {\n		delete(s.m, key)\n	}\n","	delete(s.m, key)\n")]),
dict(name="getorinsert-split", kind="bug", props=["C10"], edits=[(SC,'''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
''','''	cacheEntry, loaded := s.Get(key)
	if !loaded {
		s.Set(key, value)
	}
''')]),
dict(name="getorinsert-rlock-upgrade", kind="bug", props=["C10"], edits=[(SC,'''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
''','''	s.lock.RLock()
	cacheEntry, loaded := s.m[key]
	s.lock.RUnlock()
	if !loaded {
		s.lock.Lock()
		s.m[key] = value
		s.lock.Unlock()
	}
''')]),
dict(name="signal", kind="bug", props=["C10"], edits=[(RQ,"wt.cv.Broadcast()","wt.cv.Signal()")]),
dict(name="no-ticket-lock", kind="bug", props=["C10"], edits=[(RQ,"		wt.Lock()\n\n		data, err","		data, err"),(RQ,"		wt.cv.Broadcast()\n		wt.Unlock()\n","		wt.cv.Broadcast()\n")]),
dict(name="broadcast-before-set", kind="bug", props=["C10"], edits=[(RQ,'''		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
''','''		wt.cv.Broadcast()
		wt.Unlock()
		cache.Set(key, genCacheEntry{data: data, err: err})
''')]),
dict(name="answer-after-fetch", kind="bug", props=["C10"], edits=[(RQ,'''		responseCh <- wt
		wt.Lock()

		data''','''		wt.Lock()

		data'''),(RQ,'''		wt.cv.Broadcast()
		wt.Unlock()
''','''		wt.cv.Broadcast()
		wt.Unlock()
		responseCh <- wt
''')]),
dict(name="unbuffered", kind="bug", props=["C10"], edits=[(MK,"make(chan *workTicket, 1)","make(chan *workTicket)")]),
dict(name="wait-once", kind="bug", props=["C10"], edits=[(MK,'''				ticket.Wait()
			}''','''				ticket.Wait()
				break
			}''')]),
dict(name="wait-no-locker-check", kind="bug", props=["C10"], edits=[(MK,"if !found || dataAvailable || wrongLocker {","_ = wrongLocker\n				if !found || dataAvailable {")]),
dict(name="close-pending", kind="bug", props=["C10"], edits=[(RQ,"if cacheEntry.data != nil || cacheEntry.err != nil {","if cacheEntry.data != nil || cacheEntry.err != nil || cacheEntry.lockerNum == num {")]),
dict(name="wrong-ticket", kind="bug", props=["C10"], edits=[(RQ,"wt := &r.lockers[cacheEntry.lockerNum]","wt := &r.lockers[num]")]),
dict(name="lookup-outside-lock", kind="bug", props=["C10"], edits=[(MK,'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable''','''			cached, found = cache.Get(key)
			ticket.Lock()
			for {
				dataAvailable'''),(MK,'''				ticket.Wait()
			}''','''				ticket.Wait()
				cached, found = cache.Get(key)
			}''')]),
dict(name="worker-zero", kind="bug", props=["C10"], edits=[(RQ,"for i := 1; i <= r.numWorkers; i++ {","for i := 0; i < r.numWorkers; i++ {")]),
dict(name="publish-only-ok", kind="bug", props=["C10"], edits=[(RQ,"		cache.Set(key, genCacheEntry{data: data, err: err})\n","		if err == nil {\n			cache.Set(key, genCacheEntry{data: data})\n		}\n")]),
dict(name="marker-no-num", kind="bug", props=["C10"], edits=[(RQ,"genCacheEntry{lockerNum: num}","genCacheEntry{}")]),
dict(name="shared-mutex-cond", kind="bug", props=["C10"], edits=[(RQ,"sync.NewCond(&l.mtx)","sync.NewCond(&r.lockers[0].mtx)")]),
dict(name="early-return-no-broadcast", kind="bug", props=["C10"], edits=[(RQ,'''		wt.cv.Broadcast()
		wt.Unlock()
''','''		if err == nil {
			wt.cv.Broadcast()
		}
		wt.Unlock()
''')]),
dict(name="respchan-reused", kind="bug", props=["C10"], edits=[(MK,"	for i := 0; i < cacheErrRetryAttempts; i++ {","	respChan := make(chan *workTicket, 1)\n	for i := 0; i < cacheErrRetryAttempts; i++ {"),(MK,"		respChan := make(chan *workTicket, 1)\n		r.workQueue","		r.workQueue")]),
dict(name="unhandled-none", kind="bug", props=["C10"], edits=[(RQ,"		case workReadDir:\n			r.performRequestAndCache(w.arg1, num, r.dirCache","		case workReadDir:\n			if w.arg1 == \"\" {\n				continue\n			}\n			r.performRequestAndCache(w.arg1, num, r.dirCache")]),
dict(name="replace-when-stale", kind="bug", props=["C10"], edits=[(SC,"	if !loaded {\n		s.m[key] = value","	if !loaded || cacheEntry.data == nil {\n		loaded = false\n		s.m[key] = value")]),
# C11 bugs
dict(name="wrong-cache", kind="bug", props=["C11"], edits=[(RQ,"r.performRequestAndCache(w.arg1, num, r.dirCache","r.performRequestAndCache(w.arg1, num, r.fileCache")]),
dict(name="both-same-cache", kind="bug", props=["C11"], edits=[(RQ,"r.performRequestAndCache(w.arg1, num, r.dirCache","r.performRequestAndCache(w.arg1, num, r.fileCache"),(MK,"cache = r.dirCache","cache = r.fileCache")]),
dict(name="aliased-caches", kind="bug", props=["C11"], edits=[(RQ,"	for i := 0; i < numWorkers+1; i++ {","	r.dirCache = r.fileCache\n	for i := 0; i < numWorkers+1; i++ {")]),
dict(name="worker-key", kind="bug", props=["C11"], edits=[(RQ,"key := complexKey(w.arg1, w.arg2)","key := complexKey(w.arg1, w.arg2[:len(w.arg2)/2])")]),
dict(name="key-no-iv", kind="bug", props=["C11"], edits=[(CK,'"%s+%x", s, b','"%s+%x", s, len(b)')]),
dict(name="key-hash-iv", kind="bug", props=["C11"], edits=[(CK,'"%s+%x", s, b','"%s%x", s, b')]),
dict(name="key-sep-hexdigit", kind="bug", props=["C11"], edits=[(CK,'"%s+%x", s, b','"%xa%s", b, s')]),
dict(name="key-trunc", kind="bug", props=["C11"], edits=[(CK,'"%s+%x", s, b','"%.64s+%x", s, b')]),
dict(name="fetch-other-arg", kind="bug", props=["C11"], edits=[(RQ,"r.backend.ReadFile(w.arg1)","r.backend.ReadFile(w.arg1 + string(w.arg2))")]),
dict(name="data-with-err", kind="bug", props=["C11"], edits=[(RQ,'''					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
''','''					return r.backend.ReadFile(w.arg1)
''')]),
dict(name="swallow-eof", kind="bug", props=["C11"], edits=[(RQ,'''					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
''','''					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil && len(fileData) == 0 {
						return nil, err
''')]),
dict(name="sticky", kind="bug", props=["C11"], edits=[(MK,'''				if cached.err != nil {
					retryErrs''','''				if cached.err != nil {
					return nil, cached.err
				}
				if cached.err != nil {
					retryErrs''')]),
dict(name="no-delete", kind="bug", props=["C11"], edits=[(MK,'''				cache.DeleteFailed(key)
				continue''','''				continue''')]),
dict(name="delete-only-first", kind="bug", props=["C11"], edits=[(MK,'''				cache.DeleteFailed(key)
				continue''','''				if i == 0 {
					cache.DeleteFailed(key)
				}
				continue''')]),
dict(name="delete-nil-data", kind="bug", props=["C11"], edits=[(SC,"if s.m[key].err != nil {","if e := s.m[key]; e.err != nil && e.lockerNum > 0 {")]),
dict(name="err-lost", kind="bug", props=["C11"], edits=[(MK,'''			if err != nil {
				return nil, err
			}
			return d, nil''','''			if d == nil {
				return nil, &IncompleteError{"failed"}
			}
			return d, nil''')]),
dict(name="nil-success", kind="bug", props=["C11"], edits=[(MK,'''			if d == nil && err == nil {''','''			if d == nil && err == nil && i < 2 {''')]),
dict(name="err-as-data", kind="bug", props=["C11"], edits=[("requester/readdir.go",'''	return nil, err''','''	if _, ok := err.(*IncompleteError); ok {
		return nil, nil
	}
	return nil, err''')]),
# refactorings
dict(name="r-defer-unlock", kind="ref", props=["C10","C11"], edits=[(SC,'''	s.lock.Lock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()
	return''','''	s.lock.Lock()
	defer s.lock.Unlock()
	cacheEntry, loaded := s.m[key]
	if !loaded {
		s.m[key] = value
	}
	return''')]),
dict(name="r-range-queue", kind="ref", props=["C10","C11"], edits=[(RQ,'''	for {
		w, ok := <-r.workQueue
		switch''','''	for w := range r.workQueue {
		w := w
		switch'''),(RQ,'''		case workNone:
		}
		if !ok {
			return
		}
''','''		case workNone:
		}
''')]),
dict(name="r-flat-perform", kind="ref", props=["C10","C11"], edits=[(RQ,'''	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
''','''		return
	}
	if cacheEntry.data == nil && cacheEntry.err == nil {
		responseCh <- &r.lockers[cacheEntry.lockerNum]
		return
	}
	close(responseCh)
''')]),
dict(name="r-defer-ticket", kind="ref", props=["C10","C11"], edits=[(RQ,'''		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
''','''		wt.Lock()
		defer wt.Unlock()
		defer wt.cv.Broadcast()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})
''')]),
dict(name="r-helper-publish", kind="ref", props=["C10","C11"], edits=[(RQ,'''		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
''','''		wt.finish(cache, key, genCacheEntry{data: data, err: err})
		wt.Unlock()
'''),(RQ,"func (wt *workTicket) Wait() {",'''func (wt *workTicket) finish(cache *syncCache, key string, e genCacheEntry) {
	cache.Set(key, e)
	wt.cv.Broadcast()
}

func (wt *workTicket) Wait() {''')]),
dict(name="r-wait-loop", kind="ref", props=["C10","C11"], edits=[(MK,'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}
''','''			ticket.Lock()
			cached, found = cache.Get(key)
			for found && cached.data == nil && cached.err == nil && ticket.lockerNum != 0 && cached.lockerNum == ticket.lockerNum {
				ticket.Wait()
				cached, found = cache.Get(key)
			}
''')]),
dict(name="r-wait-helper", kind="ref", props=["C10","C11"], edits=[(MK,'''			ticket.Lock()
			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}

			d, err := cached.data, cached.err
			ticket.Unlock()
''','''			cached, found = ticket.await(cache, key)

			d, err := cached.data, cached.err
'''),(MK,"func (r *Requester) makeRequest(",'''func (wt *workTicket) await(cache *syncCache, key string) (genCacheEntry, bool) {
	wt.Lock()
	defer wt.Unlock()
	for {
		cached, found := cache.Get(key)
		if !found || cached.data != nil || cached.err != nil || wt.lockerNum == 0 || cached.lockerNum != wt.lockerNum {
			return cached, found
		}
		wt.Wait()
	}
}

func (r *Requester) makeRequest(''')]),
dict(name="r-cache-helper", kind="ref", props=["C10","C11"], edits=[(MK,'''	var cache *syncCache
	switch requestType {
	case workReadFile:
		cache = r.fileCache
	case workReadDir:
		cache = r.dirCache
	case workDecryptName:
		cache = r.decryptCache
	default:
		panic("Invalid request type")
	}
	key := arg1
	if requestType == workDecryptName {
		key = complexKey(arg1, arg2)
	}
''','''	cache, key := r.cacheFor(requestType, arg1, arg2)
'''),(MK,"func (r *Requester) makeRequest(",'''func (r *Requester) cacheFor(t workType, arg1 string, arg2 []byte) (*syncCache, string) {
	switch t {
	case workReadFile:
		return r.fileCache, arg1
	case workReadDir:
		return r.dirCache, arg1
	case workDecryptName:
		return r.decryptCache, complexKey(arg1, arg2)
	}
	panic("Invalid request type")
}

func (r *Requester) makeRequest('''),(RQ,"			key := complexKey(w.arg1, w.arg2)\n			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,","			cache, key := r.cacheFor(w.requestType, w.arg1, w.arg2)\n			r.performRequestAndCache(key, num, cache, w.respChan,")]),
dict(name="r-key-concat", kind="ref", props=["C10","C11"], edits=[(CK,'import (\n	"fmt"\n)','import (\n	"encoding/hex"\n)'),(CK,'fmt.Sprintf("%s+%x", s, b)','s + "+" + hex.EncodeToString(b)')]),
dict(name="r-key-len", kind="ref", props=["C10","C11"], edits=[(CK,'fmt.Sprintf("%s+%x", s, b)','fmt.Sprintf("%d:%s%s", len(s), s, b)')]),
dict(name="r-clear-new-map", kind="ref", props=["C10","C11"], edits=[(SC,'''	keysToDelete := []string{}
	s.lock.RLock()
	for k := range s.m {
		keysToDelete = append(keysToDelete, k)
	}
	s.lock.RUnlock()
	s.lock.Lock()
	for _, k := range keysToDelete {
		delete(s.m, k)
	}
	s.lock.Unlock()
''','''	s.lock.Lock()
	s.m = make(map[string]genCacheEntry, initialCacheSize)
	s.lock.Unlock()
''')]),
dict(name="r-entry-ready", kind="ref", props=["C10","C11"], edits=[(RQ,"type Requester struct {","func (e genCacheEntry) done() bool {\n	return e.data != nil || e.err != nil\n}\n\ntype Requester struct {"),(RQ,"if cacheEntry.data != nil || cacheEntry.err != nil {","if cacheEntry.done() {"),(MK,"dataAvailable := cached.data != nil || cached.err != nil","dataAvailable := cached.done()")]),
dict(name="r-worker-closure-struct", kind="ref", props=["C10","C11"], edits=[(RQ,'''				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},''','''				func() (res interface{}, err error) {
					var fileData []byte
					fileData, err = r.backend.ReadFile(w.arg1)
					if err == nil {
						res = fileData
					}
					return
				},''')]),
dict(name="r-locked-helper", kind="ref", props=["C10","C11"], edits=[(SC,'''	s.lock.Lock()
	s.m[key] = value
	s.lock.Unlock()
}''','''	s.update(func() { s.m[key] = value })
}

func (s *syncCache) update(f func()) {
	s.lock.Lock()
	defer s.lock.Unlock()
	f()
}''')]),
dict(name="r-timer", kind="ref", props=["C10","C11"], edits=[(MK,"		case <-time.After(20 * time.Second):","		case <-timer.C:"),(MK,"		select {\n","		timer := time.NewTimer(20 * time.Second)\n		defer timer.Stop()\n		select {\n")]),
dict(name="r-num-local", kind="ref", props=["C10","C11"], edits=[(RQ,"	for i := 0; i < numWorkers+1; i++ {\n		l := &r.lockers[i]\n","	for i := range r.lockers {\n		l := &r.lockers[i]\n")]),
dict(name="r-start", kind="ref", props=["C10","C11"], edits=[(RQ,"	for i := 1; i <= r.numWorkers; i++ {\n		go r.worker(i)\n	}","	for i := 0; i < r.numWorkers; i++ {\n		go r.worker(i + 1)\n	}")]),
]
