F="filetree/fastcache.go"
B=lambda n,*e: dict(name=n,kind="bug",props=["C20"],edits=list(e))
R=lambda n,*e: dict(name=n,kind="ref",props=["C20"],edits=list(e))
REFRESH='''	if d.next != nil {
		if d.prev != nil {
			d.prev.next = d.next
		} else {
			f.head = d.next
		}
		d.next.prev = d.prev
		d.prev = f.last
		d.next = nil
		f.last.next = d
		f.last = d
	}
'''
STORE=open("/repo/"+F).read()
STORE=STORE[STORE.index("	f.count++\n"):]
MUTS=[
B("backlink",(F,"		d.next.prev = d.prev\n","")),
B("prev-stale",(F,"		d.prev = f.last\n","")),
B("stale-key",(F,"		delete(f.storage, oldHeadPath)\n","		_ = oldHeadPath\n")),
B("late-key",(F,"		delete(f.storage, oldHeadPath)\n		f.storage[pPath] = d\n","		_ = oldHeadPath\n		f.storage[pPath] = d\n		delete(f.storage, d.PlaintextPath)\n")),
B("no-update",(F,"		d.CiphertextPath = cPath\n		return\n","		return\n")),
B("store-no-refresh",(F,"found {\n		f.refreshNode(d)\n		d.Ci","found {\n		d.Ci")),
B("find-no-refresh",(F,"	f.refreshNode(d)\n	return *d","	return *d")),
B("find-no-refresh-head",(F,"	f.refreshNode(d)\n	return *d","	if d != f.head {\n		f.refreshNode(d)\n	}\n	return *d")),
B("clear-count",(F,"	f.count = 0\n","")),
B("clear-last",(F,"	f.head = nil\n	f.last = nil\n","	f.head = nil\n")),
B("clear-map",(F,"	f.storage = make(map[string]*DirMapping, f.cacheSize*2)\n","")),
B("ge",(F,"if f.count > f.cacheSize","if f.count >= f.cacheSize")),
B("plus1",(F,"if f.count > f.cacheSize","if f.count > f.cacheSize+1")),
B("count-stays",(F,"		f.count = f.cacheSize\n","")),
B("evict-last",(F,"		oldHeadPath := f.head.PlaintextPath\n		d := f.head\n","		oldHeadPath := f.last.PlaintextPath\n		d := f.last\n")),
B("evict-second",(F,"		d := f.head\n","		d := f.head\n		if d.next != nil {\n			d = d.next\n		}\n")),
B("head-stays",(F,"			f.head = d.next\n","")),
B("new-prev",(F,"			newNode.prev = f.last\n","")),
B("new-front",(F,"			newNode.prev = f.last\n			f.last.next = newNode\n			f.last = newNode\n","			newNode.next = f.head\n			f.head.prev = newNode\n			f.head = newNode\n")),
B("swap",(F,"			CiphertextPath: cPath,\n			PlaintextPath:  pPath,","			CiphertextPath: pPath,\n			PlaintextPath:  cPath,")),
B("evict-no-value",(F,"		d.PlaintextPath = pPath\n		d.CiphertextPath = cPath\n","		d.PlaintextPath = pPath\n")),
B("found-false",(F,"	return *d, found","	return *d, d.next != nil")),
B("size0",("filetree/filetree.go","NewFastCache(cacheSize)","NewFastCache(cacheSize - 16)")),
B("touch",("filetree/filetree.go","",'\nfunc (fs *FileTree) Peek() string { fs.fastCache.head.prev = fs.fastCache.last; return "" }\n')),
B("empty-value",(F,"	if d, found := f.storage[pPath]; found {",'	if cPath == "" {\n		delete(f.storage, pPath)\n		return\n	}\n	if d, found := f.storage[pPath]; found {')),
R("helpers",(F,REFRESH,'''	if f.last == d {
		return
	}
	f.unlink(d)
	f.push(d)
'''),(F,"",'''
func (f *FastCache) unlink(d *DirMapping) {
	if d.prev == nil {
		f.head = d.next
	} else {
		d.prev.next = d.next
	}
	if d.next == nil {
		f.last = d.prev
	} else {
		d.next.prev = d.prev
	}
	d.prev, d.next = nil, nil
}

func (f *FastCache) push(d *DirMapping) {
	d.prev = f.last
	if f.last != nil {
		f.last.next = d
	} else {
		f.head = d
	}
	f.last = d
}
''')),
R("early",(F,REFRESH,'''	next, prev := d.next, d.prev
	if next == nil {
		return
	}
	next.prev = prev
	if prev == nil {
		f.head = next
	} else {
		prev.next = next
	}
	tail := f.last
	tail.next = d
	d.prev, d.next = tail, nil
	f.last = d
''')),
R("defer-closure",(F,"	defer f.lock.Unlock()\n\n	d, found","	defer func() { f.lock.Unlock() }()\n\n	d, found")),
R("clear-range",(F,"	f.storage = make(map[string]*DirMapping, f.cacheSize*2)\n","	for k := range f.storage {\n		delete(f.storage, k)\n	}\n")),
R("evict-new",(F,STORE,'''	if f.count == f.cacheSize {
		f.evict()
	}
	n := &DirMapping{PlaintextPath: pPath, CiphertextPath: cPath, prev: f.last}
	if f.last == nil {
		f.head = n
	} else {
		f.last.next = n
	}
	f.last = n
	f.storage[pPath] = n
	f.count++
}

func (f *FastCache) evict() {
	old := f.head
	delete(f.storage, old.PlaintextPath)
	f.head = old.next
	if f.head == nil {
		f.last = nil
	} else {
		f.head.prev = nil
	}
	f.count--
}
''')),
R("len",(F,"	f.count++\n	if f.count > f.cacheSize {","	if len(f.storage) >= f.cacheSize {"),(F,"		f.count = f.cacheSize\n",""),(F,"	f.count = 0\n",""),(F,"	count     int\n","")),
R("loop",(F,STORE,'''	for f.count >= f.cacheSize {
		old := f.head
		f.head = old.next
		if f.head != nil {
			f.head.prev = nil
		} else {
			f.last = nil
		}
		delete(f.storage, old.PlaintextPath)
		f.count--
	}
	n := &DirMapping{PlaintextPath: pPath, CiphertextPath: cPath}
	f.storage[pPath] = n
	f.count++
	if f.head == nil {
		f.head, f.last = n, n
		return
	}
	f.last.next, n.prev = n, f.last
	f.last = n
}
''')),
R("log",(F,"	f.count++\n",'	if false {\n		println(pPath, cPath)\n	}\n	f.count++\n')),
]
