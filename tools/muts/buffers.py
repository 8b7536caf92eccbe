C="gocrypt/contentenc/content.go"; B="gocrypt/contentenc/bpool.go"; D="filetree/decrypt.go"; F="filetree/filetree.go"; P="backend/provider.go"; R="requester/requester.go"; H="handlers/decrypt.go"; S="gocrypt/siv_aead/siv_aead.go"; N="gocrypt/nametransform/names.go"
def b(n,*e): return dict(name=n,kind="bug",props=["C22"],edits=list(e))
def r(n,*e): return dict(name=n,kind="ref",props=["C22"],edits=list(e))
COPY="	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n"
PUT="		pBuf.Write(pBlock)\n		be.pBlockPool.Put(pBlock)\n"
MUTS=[
b("ret-pooled",(D,COPY,"	f.cEnc.PReqPool.Put(plaintext)\n	return plaintext, nil\n")),
b("put-first",(D,COPY,"	plainBytes := make([]byte, plainLength)\n	f.cEnc.PReqPool.Put(plaintext)\n	copy(plainBytes, plaintext)\n	return plainBytes, nil\n")),
b("defer-put",(D,COPY,"	defer f.cEnc.PReqPool.Put(plaintext)\n	return plaintext[:plainLength], nil\n")),
b("small-nocopy",(D,COPY,"	plainBytes := plaintext\n	if plainLength > 4096 {\n		plainBytes = make([]byte, plainLength)\n		copy(plainBytes, plaintext)\n	}\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n")),
b("block-put-first",(C,PUT,"		be.pBlockPool.Put(pBlock)\n		pBuf.Write(pBlock)\n")),
b("double-put",(C,PUT,PUT+"		if cBuf.Len() == 0 {\n			be.pBlockPool.Put(pBlock)\n		}\n")),
b("err-double",(C,"	if err != nil {\n		tlog.Debug.Printf(\"DecryptBlock: %s, len=%d\"","	if err != nil {\n		be.pBlockPool.Put(plaintext[:0])\n		tlog.Debug.Printf(\"DecryptBlock: %s, len=%d\"")) if False else b("ret-block",(C,"		pBuf.Write(pBlock)\n		be.pBlockPool.Put(pBlock)\n		blockNo++\n","		if cBuf.Len() == 0 && blockNo == firstBlockNo {\n			defer be.pBlockPool.Put(pBlock)\n			return pBlock, err\n		}\n"+PUT+"		blockNo++\n")),
b("shared-new",(B,"	return bPool{\n		Pool: sync.Pool{\n			New: func() interface{} { return make([]byte, sliceLen) },","	first := make([]byte, sliceLen)\n	return bPool{\n		Pool: sync.Pool{\n			New: func() interface{} { return first },")),
b("put-hole",(C,"		return make([]byte, be.plainBS), nil\n","		return be.allZeroBlock[:be.plainBS:be.plainBS], nil\n")),
b("other-pool",(C,"		be.pBlockPool.Put(pBlock)\n","		be.cBlockPool.Put(pBlock)\n")),
b("put-cipher",(C,PUT,PUT+"		if cap(cBlock) == int(be.cipherBS) {\n			be.cBlockPool.Put(cBlock)\n		}\n")),
b("put-request",(D,"	return plainBytes, nil\n","	if cap(fileBytes) == contentenc.MAX_KERNEL_WRITE+contentenc.DefaultBS {\n		f.cEnc.PReqPool.Put(fileBytes)\n	}\n	return plainBytes, nil\n")),
b("in-place",(C,"	plaintext := be.pBlockPool.Get()\n	plaintext = plaintext[:0]\n","	plaintext := ciphertext[:0]\n"),(C,"		be.pBlockPool.Put(pBlock)\n","")),
b("in-place-siv",(S,"	if len(dst) == 0 {\n		return dec, nil\n	}\n","	copy(ciphertext, dec)\n	if len(dst) == 0 {\n		return dec, nil\n	}\n")) if False else b("wipe-cipher",(D,"	if err != nil {\n		return nil, err\n	}\n	if cap","	if err != nil {\n		return nil, err\n	}\n	for i := range fileBytes[:contentenc.HeaderLen] {\n		fileBytes[i] = 0\n	}\n	if cap")),
b("sort-listing",(F,"	for _, info := range dirListing {\n","	sort.Slice(dirListing, func(i, j int) bool { return dirListing[i].Name() < dirListing[j].Name() })\n	for _, info := range dirListing {\n"),(F,"	\"path/filepath\"\n","	\"path/filepath\"\n	\"sort\"\n")),
b("filter-listing",(F,"	for _, info := range dirListing {\n","	kept := dirListing[:0]\n	for _, info := range dirListing {\n		if info.Name() != \"gocryptfs.diriv\" {\n			kept = append(kept, info)\n		}\n	}\n	for _, info := range kept {\n")),
b("iv-append",(N,"	bin = n.emeCipher.Decrypt(iv, bin)\n","	bin = n.emeCipher.Decrypt(append(iv, 0)[:len(iv)], bin)\n")),
b("iv-wipe",(N,"	bin = n.emeCipher.Decrypt(iv, bin)\n","	bin = n.emeCipher.Decrypt(iv, bin)\n	for i := range iv {\n		iv[i] = 0\n	}\n")),
b("scratch-ad",(C,"type ContentEnc struct {\n","type ContentEnc struct {\n	scratch []byte\n"),(C,"	aData := concatAD(blockNo, fileID)\n	plaintext, err","	if len(be.scratch) < 24 {\n		be.scratch = make([]byte, 24)\n	}\n	aData := be.scratch[:24]\n	binary.BigEndian.PutUint64(aData, blockNo)\n	copy(aData[8:], fileID)\n	plaintext, err")),
b("scratch-ad2",(C,"type ContentEnc struct {\n","type ContentEnc struct {\n	scratch []byte\n"),(C,"		forceDecode:  forceDecode,\n","		forceDecode:  forceDecode,\n		scratch:      make([]byte, 24),\n"),(C,"	aData := concatAD(blockNo, fileID)\n	plaintext, err","	aData := be.scratch\n	binary.BigEndian.PutUint64(aData, blockNo)\n	copy(aData[8:], fileID)\n	plaintext, err")),
b("global-ad",(C,"	// Preallocate space to save an allocation in append()\n	aData = make([]byte, lenUint64, lenUint64+headerIDLen)\n","	aData = adBuf[:lenUint64]\n"),(C,"func concatAD(","var adBuf [8 + headerIDLen]byte\n\nfunc concatAD(")),
b("prov-pool",(P,"	buf := new(bytes.Buffer)\n","	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufPool.Put(buf)\n"),(P,"type Provider struct {","var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\ntype Provider struct {"),(P,"	\"os\"\n","	\"os\"\n	\"sync\"\n")),
b("prov-pool2",(P,"	buf := new(bytes.Buffer)\n","	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n"),(P,"	p.p.Put(c)\n	return buf.Bytes(), nil\n","	p.p.Put(c)\n	data := buf.Bytes()\n	if buf.Cap() < 1<<20 {\n		bufPool.Put(buf)\n	}\n	return data, nil\n"),(P,"type Provider struct {","var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\ntype Provider struct {"),(P,"	\"os\"\n","	\"os\"\n	\"sync\"\n")),
b("pread-pool",(F,"	plainFileBytes, err := f.decryptFile(fileBytes)\n","	plainFileBytes, err := f.decryptFile(fileBytes)\n	if cap(plainFileBytes) == contentenc.MAX_KERNEL_WRITE+contentenc.DefaultBS {\n		f.cEnc.PReqPool.Put(plainFileBytes)\n	}\n")),
b("worker-trim",(R,"		cache.Set(key, genCacheEntry{data: data, err: err})\n","		cache.Set(key, genCacheEntry{data: data, err: err})\n		if b, ok := data.([]byte); ok && len(b) > 0 {\n			b[0] = b[0] &^ 0x80\n		}\n")),
b("lister-own",("handlers/proxy.go","	n = copy(ls, f[offset:])\n","	n = copy(ls, f[offset:])\n	if int(offset)+n == len(f) {\n		f[0] = nil\n	}\n")) if False else b("global-block",(C,"	plaintext := be.pBlockPool.Get()\n	plaintext = plaintext[:0]\n","	plaintext := lastBlock[:0]\n"),(C,"		be.pBlockPool.Put(pBlock)\n",""),(C,"func concatAD(","var lastBlock = make([]byte, 0, 4096)\n\nfunc concatAD(")),
b("goroutine-put",(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n","	plainBytes := make([]byte, plainLength)\n	go f.cEnc.PReqPool.Put(plaintext)\n	copy(plainBytes, plaintext)\n")),
# behaviour-preserving
r("helper-recycle",(D,"	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n}\n","	f.recycle(plaintext)\n	return plainBytes, nil\n}\n\nfunc (f *FileTree) recycle(b []byte) {\n	f.cEnc.PReqPool.Put(b)\n}\n")),
r("helper-copy",(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n}\n","	plainBytes := cloned(plaintext, plainLength)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n}\n\nfunc cloned(b []byte, n uint64) []byte {\n	out := make([]byte, n)\n	copy(out, b)\n	return out\n}\n")),
r("append-copy",(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n","	plainBytes := append(make([]byte, 0, plainLength), plaintext...)\n")),
r("append-nil",(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n","	plainBytes := append([]byte(nil), plaintext...)\n")),
r("defer-ok",(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n","	defer f.cEnc.PReqPool.Put(plaintext)\n	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n")),
r("no-pool-block",(C,"	plaintext := be.pBlockPool.Get()\n	plaintext = plaintext[:0]\n","	plaintext := make([]byte, 0, be.plainBS)\n"),(C,"		be.pBlockPool.Put(pBlock)\n","")),
r("err-recycle",(C,"	plaintext, err := be.cryptoCore.AEADCipher.Open(plaintext, nonce, ciphertext, aData)\n\n	if err != nil {\n","	buf := plaintext\n	plaintext, err := be.cryptoCore.AEADCipher.Open(plaintext, nonce, ciphertext, aData)\n\n	if err != nil && !be.forceDecode {\n		be.pBlockPool.Put(buf)\n	}\n	if err != nil {\n")),
r("prov-pool-copy",(P,"	buf := new(bytes.Buffer)\n","	buf := bufPool.Get().(*bytes.Buffer)\n	buf.Reset()\n	defer bufPool.Put(buf)\n"),(P,"	return buf.Bytes(), nil\n","	return append([]byte(nil), buf.Bytes()...), nil\n"),(P,"type Provider struct {","var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\ntype Provider struct {"),(P,"	\"os\"\n","	\"os\"\n	\"sync\"\n")),
r("sort-copy",(F,"	for _, info := range dirListing {\n","	sorted := make([]os.FileInfo, len(dirListing))\n	copy(sorted, dirListing)\n	sort.Slice(sorted, func(i, j int) bool { return sorted[i].Name() < sorted[j].Name() })\n	for _, info := range sorted {\n"),(F,"	\"path/filepath\"\n","	\"path/filepath\"\n	\"sort\"\n")),
r("filter-copy",(F,"	for _, info := range dirListing {\n","	var kept []os.FileInfo\n	for _, info := range dirListing {\n		if info.Name() != \"gocryptfs.diriv\" {\n			kept = append(kept, info)\n		}\n	}\n	for _, info := range kept {\n")),
r("lister-slice",("handlers/decrypt.go","		return listerat([]os.FileInfo{fileInfo}), nil\n","		l := make(listerat, 0, 1)\n		l = append(l, fileInfo)\n		return l, nil\n")),
r("buf-block",(C,"	pBuf := bytes.NewBuffer(be.PReqPool.Get()[:0])\n","	var pBuf bytes.Buffer\n"),(D,"	f.cEnc.PReqPool.Put(plaintext)\n","")),
r("append-out",(C,"	pBuf := bytes.NewBuffer(be.PReqPool.Get()[:0])\n","	out := be.PReqPool.Get()[:0]\n"),(C,"		pBuf.Write(pBlock)\n","		out = append(out, pBlock...)\n"),(C,"	return pBuf.Bytes(), err\n","	return out, err\n")),
r("concat-lit",(C,"	aData = make([]byte, lenUint64, lenUint64+headerIDLen)\n	binary.BigEndian.PutUint64(aData, blockNo)\n	aData = append(aData, fileID...)\n	return aData\n","	var no [lenUint64]byte\n	binary.BigEndian.PutUint64(no[:], blockNo)\n	return append(no[:], fileID...)\n")),
]
