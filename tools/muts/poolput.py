D="filetree/decrypt.go"; C="gocrypt/contentenc/content.go"
MUTS=[]
def b(n,*e,props=["C14"]): MUTS.append(dict(name=n,kind="bug",props=props,edits=list(e)))
def r(n,*e): MUTS.append(dict(name=n,kind="ref",props=[],edits=list(e)))
G="	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {\n		return plaintext, nil\n	}\n"
b("no-cap",(D,G,""))
b("cap-const",(D,"(contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {","(2*contentenc.MAX_KERNEL_WRITE) {"))
b("pool-smaller",(C,"pReqSize := MAX_KERNEL_WRITE + int(plainBS)","pReqSize := MAX_KERNEL_WRITE"))
b("pool-larger",(C,"pReqSize := MAX_KERNEL_WRITE + int(plainBS)","pReqSize := MAX_KERNEL_WRITE + 2*int(plainBS)")) # put panics? no: buffer of the pool never put; fits -> not a bug
MUTS.pop()
b("block-cipher",(C,"		pBlockPool:   newBPool(int(plainBS)),","		pBlockPool:   newBPool(int(plainBS) - 16),"))
b("zero-slice",(C,"			return make([]byte, be.plainBS), nil","			return make([]byte, len(ciphertext)-be.cryptoCore.IVLen), nil")) if False else None
b("tail-slice",(C,"		be.pBlockPool.Put(pBlock)\n","		be.pBlockPool.Put(pBlock[len(pBlock)/4096*0+min(1, len(pBlock)):])\n"))
b("nil-on-err",(C,"				break\n			}\n		}\n		pBuf.Write(pBlock)\n","			}\n			be.pBlockPool.Put(pBlock)\n			break\n		}\n		pBuf.Write(pBlock)\n"),props=["C14"])
r("len-check",(D,"	if cap(plaintext) > (","	if len(plaintext) > ("))
r("flip",(D,G+"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n","	if cap(plaintext) <= contentenc.MAX_KERNEL_WRITE+contentenc.DefaultBS {\n		plainBytes := make([]byte, plainLength)\n		copy(plainBytes, plaintext)\n		f.cEnc.PReqPool.Put(plaintext)\n		return plainBytes, nil\n	}\n	return plaintext, nil\n"))
r("recycle-helper",(D,"	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n}\n","	f.recycle(plaintext)\n	return plainBytes, nil\n}\n\nfunc (f *FileTree) recycle(b []byte) {\n	f.cEnc.PReqPool.Put(b)\n}\n"))
r("pooled-helper",(D,"	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {","	if !pooled(plaintext) {"),(D,"","\nfunc pooled(b []byte) bool {\n	const max = contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS\n	return cap(b) <= max\n}\n"))
r("no-recycle",(D,"	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil\n","	return plaintext, nil\n"),(D,G,""))
r("block-copy",(C,"		pBuf.Write(pBlock)\n		be.pBlockPool.Put(pBlock)\n","		pBuf.Write(pBlock)\n		block := pBlock\n		be.pBlockPool.Put(block)\n"))
r("zero-pool",(C,"	if bytes.Equal(ciphertext, be.allZeroBlock) {\n","	if bytes.Equal(be.allZeroBlock, ciphertext) {\n"))
