RQ="requester/requester.go"; MK="requester/makerequest.go"; SC="requester/synccache.go"; FC="filetree/fastcache.go"; RP="gocrypt/cryptocore/randprefetch.go"; FT="filetree/filetree.go"
FIND='''	f.lock.Lock()
	defer f.lock.Unlock()

	d, found := f.storage[pPath]
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	return *d, found
'''
MUTS=[
dict(name="find-early-unlock", kind="bug", props=["C12"], edits=[(FC,FIND,'''	f.lock.Lock()
	d, found := f.storage[pPath]
	f.lock.Unlock()
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	return *d, found
''')]),
dict(name="find-copy-after-unlock", kind="bug", props=["C12"], edits=[(FC,FIND,'''	f.lock.Lock()
	d, found := f.storage[pPath]
	if !found {
		f.lock.Unlock()
		return DirMapping{}, false
	}
	f.refreshNode(d)
	f.lock.Unlock()
	return *d, found
''')]),
dict(name="find-missing-unlock", kind="bug", props=["C12"], edits=[(FC,FIND,'''	f.lock.Lock()
	d, found := f.storage[pPath]
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	r := *d
	f.lock.Unlock()
	return r, found
''')]),
dict(name="rw-find", kind="bug", props=["C12"], edits=[(FC,"lock    sync.Mutex","lock    sync.RWMutex"),(FC,FIND,FIND.replace("f.lock.Lock","f.lock.RLock").replace("f.lock.Unlock","f.lock.RUnlock"))]),
dict(name="get-unlocked", kind="bug", props=["C12"], edits=[(SC,'''	s.lock.RLock()
	cacheEntry, found := s.m[key]
	s.lock.RUnlock()
''','''	cacheEntry, found := s.m[key]
''')]),
dict(name="set-rlock", kind="bug", props=["C12"], edits=[(SC,'''	s.lock.Lock()
	s.m[key] = value
	s.lock.Unlock()
}''','''	s.lock.RLock()
	s.m[key] = value
	s.lock.RUnlock()
}''')]),
dict(name="count-method", kind="bug", props=["C12"], edits=[(FC,"",'''
// Len is the number of entries.
func (f *FastCache) Len() int {
	return f.count
}
''')]),
dict(name="len-map", kind="bug", props=["C12"], edits=[(FC,"",'''
// Len is the number of entries.
func (f *FastCache) Has(p string) bool {
	_, ok := f.storage[p]
	return ok
}
''')]),
dict(name="clear-swap-unlocked", kind="bug", props=["C12"], edits=[(FC,'''	f.lock.Lock()
	defer f.lock.Unlock()
	f.head = nil
	f.last = nil
''','''	f.head = nil
	f.last = nil
	f.lock.Lock()
	defer f.lock.Unlock()
''')]),
dict(name="double-lock", kind="bug", props=["C12"], edits=[(FC,'''	if d, found := f.storage[pPath]; found {
		f.refreshNode(d)
		d.CiphertextPath = cPath
		return
	}
''','''	if d, found := f.Find(pPath); found && d.CiphertextPath == cPath {
		return
	}
''')]),
dict(name="early-return-prefetch", kind="bug", props=["C12"], edits=[(RP,"	if have == want && err == nil {\n		r.Unlock()\n		return out","	if have == want && err == nil {\n		return out")]),
dict(name="prefetch-unlock-wait", kind="bug", props=["C12"], edits=[(RP,"	fresh := <-r.refill\n","	r.Unlock()\n	fresh := <-r.refill\n"),(RP,"	have, err = r.buf.Read(out)\n	if have != want","	r.Lock()\n	have, err = r.buf.Read(out)\n	if have != want")]),
dict(name="continue-holding", kind="bug", props=["C12"], edits=[(MK,'''			d, err := cached.data, cached.err
			ticket.Unlock()
''','''			d, err := cached.data, cached.err
			if !found && i < 1 {
				continue
			}
			ticket.Unlock()
''')]),
dict(name="lockers-by-value", kind="bug", props=["C12"], edits=[(RQ,'''		l := &r.lockers[i]
		l.cv''','''		c := r.lockers[i]
		_ = c.lockerNum
		l := &r.lockers[i]
		l.cv''')]),
dict(name="stats-map", kind="bug", props=["C12"], edits=[(RQ,"	numWorkers int\n","	numWorkers int\n	stats map[workType]int\n"),(RQ,"		numWorkers: numWorkers,\n","		numWorkers: numWorkers,\n		stats: map[workType]int{},\n"),(RQ,"		switch w.requestType {","		r.stats[w.requestType]++\n		switch w.requestType {")]),
dict(name="counter-field", kind="bug", props=["C12"], edits=[(RQ,"	numWorkers int\n","	numWorkers int\n	hits int\n"),(MK,"			if cached.data != nil {\n				return cached.data, nil\n			}\n		}","			if cached.data != nil {\n				r.hits++\n				return cached.data, nil\n			}\n		}")]),
dict(name="lock-cycle", kind="bug", props=["C12"], edits=[(SC,"	lock sync.RWMutex","	lock sync.RWMutex\n	wt *workTicket"),(SC,'''	if s.m[key].err != nil {
		delete(s.m, key)
	}''','''	if s.m[key].err != nil {
		if s.wt != nil {
			s.wt.Lock()
			s.wt.Unlock()
		}
		delete(s.m, key)
	}''')]),
dict(name="unlock-twice", kind="bug", props=["C12"], edits=[(SC,'''	if !loaded {
		s.m[key] = value
	}
	s.lock.Unlock()''','''	if !loaded {
		s.m[key] = value
		s.lock.Unlock()
	}
	s.lock.Unlock()''')]),
dict(name="publish-node-then-link", kind="bug", props=["C12"], edits=[(FC,'''	f.lock.Lock()
	defer f.lock.Unlock()

	if d, found''','''	f.lock.Lock()
	n := f.count
	f.lock.Unlock()
	if n > f.cacheSize {
		n = f.cacheSize
	}
	f.lock.Lock()
	defer f.lock.Unlock()

	if d, found'''),(FC,"	f.count++\n	if f.count > f.cacheSize {","	f.count++\n	if f.count > f.cacheSize || n < 0 {"),(FC,'''	return *d, found
''','''	return *d, found
}

// Bump counts.
func (f *FastCache) Bump() {
	f.count++
''')]),
# refactorings
dict(name="r-find-nodefer", kind="ref", props=["C12"], edits=[(FC,FIND,'''	f.lock.Lock()
	d, found := f.storage[pPath]
	if !found {
		f.lock.Unlock()
		return DirMapping{}, false
	}
	f.refreshNode(d)
	r := *d
	f.lock.Unlock()
	return r, found
''')]),
dict(name="r-store-split", kind="ref", props=["C12"], edits=[(FC,'''		newNode := &DirMapping{
			CiphertextPath: cPath,
			PlaintextPath:  pPath,
		}

		f.storage[pPath] = newNode

		if f.head == nil {
			f.head = newNode
			f.last = newNode
		} else {
			newNode.prev = f.last
			f.last.next = newNode
			f.last = newNode
		}
	}
}
''','''		f.append(pPath, cPath)
	}
}

func (f *FastCache) append(pPath, cPath string) {
	n := &DirMapping{CiphertextPath: cPath, PlaintextPath: pPath}
	f.storage[pPath] = n
	if f.last == nil {
		f.head, f.last = n, n
		return
	}
	n.prev = f.last
	f.last.next = n
	f.last = n
}
''')]),
dict(name="r-embed-mutex", kind="ref", props=["C12"], edits=[(FC,"	lock    sync.Mutex\n","	sync.Mutex\n"),(FC,FIND,FIND.replace("f.lock.","f.")),(FC,"	f.lock.Lock()\n	defer f.lock.Unlock()\n	f.head = nil","	f.Lock()\n	defer f.Unlock()\n	f.head = nil"),(FC,"	f.lock.Lock()\n	defer f.lock.Unlock()\n\n	if d, found","	f.Lock()\n	defer f.Unlock()\n\n	if d, found")]),
dict(name="r-prefetch-defer", kind="ref", props=["C12"], edits=[(RP,"	r.Lock()\n	// Note: don't use defer, it slows us down!\n","	r.Lock()\n	defer r.Unlock()\n"),(RP,"	if have == want && err == nil {\n		r.Unlock()\n","	if have == want && err == nil {\n"),(RP,"	}\n	r.Unlock()\n	return out\n}","	}\n	return out\n}")]),
dict(name="r-with-lock", kind="ref", props=["C12"], edits=[(FC,"	f.lock.Lock()\n	defer f.lock.Unlock()\n	f.head = nil\n	f.last = nil\n	f.storage = make(map[string]*DirMapping, f.cacheSize*2)\n	f.count = 0\n}",'''	f.locked(func() {
		f.head = nil
		f.last = nil
		f.storage = make(map[string]*DirMapping, f.cacheSize*2)
		f.count = 0
	})
}

func (f *FastCache) locked(g func()) {
	f.lock.Lock()
	defer f.lock.Unlock()
	g()
}''')]),
dict(name="r-peek", kind="ref", props=["C12"], edits=[(FC,"",'''
// Capacity is fixed.
func (f *FastCache) Capacity() int { return f.cacheSize }
''')]),
dict(name="r-pointer-node", kind="ref", props=["C12"], edits=[(FT,"		return dirMapping.CiphertextPath, nil","		m := &dirMapping\n		return m.CiphertextPath, nil")]),
dict(name="r-getlocked", kind="ref", props=["C12"], edits=[(SC,'''	s.lock.RLock()
	cacheEntry, found := s.m[key]
	s.lock.RUnlock()
	return cacheEntry, found
}''','''	s.lock.RLock()
	defer s.lock.RUnlock()
	return s.get(key)
}

func (s *syncCache) get(key string) (genCacheEntry, bool) {
	e, ok := s.m[key]
	return e, ok
}''')]),
]
